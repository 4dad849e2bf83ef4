"""The analyses shared by the properties about stored values (C03, C05, C08, C09)."""
from . import clients, engine, queues, stale, stored
from .base import env
from .physical import Physical
from .surgery import Surgery
from ..terms import NONE, cval, is_const


class RegistryRun:
    def __init__(self, ck, fresh=True):
        self.ck = ck
        self.g = ck.analyse("run with registry, output and fresh_time", clients.RUN_REG_OUT, env(FRESH=stale.FRESH), stub_engine=True)
        self.roots = stale.stale_roots(self.g)
        ck.need(self.roots, "no worker asks value stores for their modified times")
        self.ins = stored.Insert(ck, self.g, None)
        self.tables = None
        self.surgery = Surgery(ck, self.g)

    def stale(self, *aspects):
        if self.tables is None:
            self.tables = stale.tables(self.ck, self.g, True)
            g = self.ck.analyse("run with registry and output", clients.RUN_REG_OUT, env(), stub_engine=True)
            self.tables += stale.tables(self.ck, g, False)
        for t in self.tables:
            for a in aspects:
                t.report(a)

    def insertion(self, *rules):
        stored.Spec(self.ck, self.g, self.ins).run().report(rules)

    def checked_graph(self):
        self.surgery.checked_graph(self.roots, self.ins.mappings)

    def removals(self):
        self.surgery.removals()

    def pruning(self):
        self.surgery.pruned(skip=self.roots)
        self.surgery.unconditional_prune()

    def stale_engine(self):
        """the engine visits every node of the checked graph, predecessors first"""
        names = []
        for m in self.surgery.engine_calls(self.roots):
            s = m["args"].get("scheduler")
            if s is not None and is_const(s):
                names.append(cval(s) or "default")
        names = list(dict.fromkeys(names)) or ["default"]
        for n in names:
            e = engine.Engine(self.ck, n)
            e.items()
            e.initial()
            e.partition()
            e.release_in_workers()
            e.successors_processed()
            e.failure()
        queues.check(self.ck, tuple(names))
