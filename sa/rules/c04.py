"""C04: each node is released once and only once (countdown, single-parent shortcut, queue algebra), fn is applied once per item and the item's function once per attempt, and only the ancestors of the output survive pruning."""
from . import engine, queues
from .base import env
from .clients import RUN_NOOUT, RUN_PLAIN
from .physical import Physical
from .surgery import Surgery


def scheds(ck):
    return ("default", "random", "cheap")


def client_value(g, name):
    for n in g.ev("setcell", "main"):
        if n["name"] == name and n.loc[0] == "client":
            return n["val"]


def run(ck):
    for sched in scheds(ck):
        e = engine.Engine(ck, sched)
        e.items()
        e.initial()
        e.partition()
        e.release_in_workers()
        e.successors_processed()
        e.failure()
        e.task_done()
        e.shutdown()
        e.worker_never_dies()
    queues.check(ck, scheds(ck))
    g = ck.analyse("run without registry", RUN_PLAIN, env(), stub_engine=True)
    s = Surgery(ck, g)
    s.removals()
    out = client_value(g, "out")
    s.output_kept(out)
    s.seeds(out)
    s.pruned()
    s.unconditional_prune()
    engine.graph_passed(ck, g)
    p = Physical(ck, g)
    p.calls_once()
    p.failure_propagates()
    p.call_error()
    g = ck.analyse("run without registry and output", RUN_NOOUT, env(), stub_engine=True)
    s = Surgery(ck, g, nothing=True)
    s.removals()
    s.pruned()
    s.unconditional_prune()
