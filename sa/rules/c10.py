"""C10: pool size, stop flag and error limit of the engine (decision tables), attempts per item for retry = None, 1, 2, 3 and a decorator, and the flow of the limits from run to the two engine calls."""
from ..terms import C, NONE, mk, show, subterms
from . import engine
from .base import env, sym, fact
from .clients import RUN_PLAIN, RUN_REG_OUT
from .physical import Physical

WC = mk("sym", "WC", "int")
SWC = mk("sym", "SWC", "int")
MAXE = mk("sym", "MAXE", "int")
RET = mk("sym", "RETRY", "callable")


def scheds(ck):
    return ("default", "random", "cheap") if ck.tier == "thorough" else ("default", "random")


def possible(t):
    return list(t.args) if t.op == "phi" else [t]


def flows(ck, g):
    """which limits reach which engine call"""
    calls = engine.engine_calls(g)
    ck.need(calls, "run_function_on_graph is not called")
    last = g.threads[-1]["state"] if g.threads else None
    stale, phys = [], []
    for m, a in calls:
        # the engine call of the stale check is followed by another engine call
        later = g.path(g.after(m), lambda x: x.kind == "enter" and x is not m and any(x is y for y, _ in calls))
        (stale if later else phys).append((m, a))
    for m, a in phys:
        w = a.get("worker_count")
        isnone = fact(m, mk("eq", WC, NONE))
        ok = w is WC or (isnone and w is NONE) if w is not None else None
        ck.ob("max-workers-flow", g.at(m), ok, f"worker_count = {show(w, 3) if w is not None else '?'}")
        e = a.get("max_errors")
        ok = e is MAXE if e is not None else None
        ck.ob("max-errors-flow", g.at(m), ok, f"max_errors = {show(e, 3) if e is not None else '?'}")
    for m, a in stale:
        w = a.get("worker_count")
        if w is None:
            ck.ob("stale-workers-flow", g.at(m), None, "?")
            continue
        f = fact(m, mk("eq", SWC, NONE))
        if w is SWC:
            ok = f is not True
        elif w is WC:
            ok = f is True
        else:
            ok = False if w.op in ("const", "sym", "max", "min", "add") else None
        ck.ob("stale-workers-flow", g.at(m), ok, f"worker_count = {show(w, 3)} when stale_check_max_workers is {'None' if f else 'given' if f is False else 'unknown'}")


class Attempts:
    """paths through the attempts made for one item"""

    def __init__(self, ck, g, root, isfn, what):
        self.ck, self.g, self.root, self.what = ck, g, root, what
        self.calls = [n for n in g.ev("ucall", root) if isfn(n["fn"])]
        self.exc = [n for n in g.ev("uexc", root) if isfn(n["fn"])]
        self.ret = [n for n in g.ev("uret", root) if isfn(n["fn"])]
        self.gets = g.ev("q_get", root)

    def run(self, n):
        ck, g = self.ck, self.g
        here = f"{self.what}, retry={n}"
        if not self.calls:
            ck.ob("attempts", here, None, "no attempt found")
            return
        for r in self.ret:
            p = g.path(g.after(r), lambda m: m in self.calls, block=lambda m: m.kind == "q_get")
            ck.ob("stop-at-first-success", f"{here} @ {g.at(r)}", p is None, "another attempt after a success: " + g.show_path(p) if p else "")
        # level k: calls reachable with k - 1 failures before
        level = set()
        start = [y for s in self.gets for y in g.after(s)]
        cur = start
        k = 0
        looping = False
        seen_levels = []
        while cur and k <= n + 1:
            sub = g.fwd(cur, stop=lambda m: m in self.calls or m.kind == "q_get")
            calls = [c for c in self.calls if c.id in sub]
            if not calls:
                break
            k += 1
            ids = {c.id for c in calls}
            seen_levels.append(ids)
            exs = [e for e in self.exc if e["call"] in ids]
            if k < n:
                for e in exs:
                    if self.kind(e) != "Exception":
                        continue
                    p = g.path(g.after(e), lambda m: m.kind in ("end", "q_get"), block=lambda m: m in self.calls)
                    ck.ob("retried", f"{here}, attempt {k} @ {g.at(e)}", p is None, f"only {k} attempts are made: " + g.show_path(p) if p else "")
            else:
                for e in exs:
                    if self.kind(e) != "Exception":
                        continue
                    self.last(e, here, k)
            cur = [y for e in exs for y in g.after(e)]
        ck.ob("attempts", here, k <= n, f"{k if k <= n else 'more than ' + str(n)} attempts")

    def kind(self, e):
        return e["exc"].args[1] if e["exc"].op == "exc" else None

    def last(self, e, here, k):
        """the exception of the last attempt is the one reported"""
        ck, g = self.ck, self.g
        sub = g.fwd(g.after(e), stop=lambda m: m.kind in ("q_get", "end") or m in self.calls)
        raised = [m for m in g.ev("raise", self.root) if m.id in sub and m["cause"] is not None]
        sets = [m for m in g.ev("setattr", self.root) if m.id in sub and m["name"] == "__cause__"]
        for m in raised:
            ck.ob("last-exception-reported", f"{here} @ {g.at(m)}", m["cause"] is e["exc"], f"cause {show(m['cause'], 3)}")
        for m in sets:
            ck.ob("last-exception-reported", f"{here} @ {g.at(m)}", m["val"] is e["exc"] if m["val"].op == "exc" else None, f"cause {show(m['val'], 3)}")


def retry(ck):
    for n, val in ((1, NONE), (1, C(1)), (2, C(2)), (3, C(3))):
        g = ck.analyse(f"run with retry={show(val)}", RUN_PLAIN, env(RETRY=val), stub_engine=True)
        p = Physical(ck, g)
        Attempts(ck, g, p.root, p.is_fn, "call").run(n)
        p.failure_propagates()
    for n, val in ((1, NONE), (2, C(2))):
        g = ck.analyse(f"run with registry and retry={show(val)}", RUN_REG_OUT, env(RETRY=val), stub_engine=True)
        root = g.workers()[0]
        ismt = lambda f: f.op == "attr" and f.args[1] == "get_modified_time"
        Attempts(ck, g, root, ismt, "modified time query").run(n)
        p = Physical(ck, g)
        Attempts(ck, g, p.root, p.is_fn, "call with registry").run(n)


def decorator(ck):
    g = ck.analyse("run with a retry decorator", RUN_REG_OUT, env(RETRY=RET), stub_engine=True)
    p = Physical(ck, g)
    deco = [n for n in g.ev("ucall", p.root) if n["fn"] is RET]
    raw = [n for n in g.ev("ucall", p.root) if p.is_fn(n["fn"])]
    ck.ob("retry-decorates-call", "call", bool(deco) and not raw, "a call runs without the given retry decorator" if raw or not deco else "")
    for d in deco:
        a = d["args"][0].args[0] if d["args"] else None
        ck.ob("retry-decorates-call", g.at(d), a in p.fnterms, f"retry applied to {show(a, 3) if a is not None else None}")
    root = g.workers()[0]
    ismt = lambda f: f is not None and f.op == "attr" and f.args[1] == "get_modified_time"
    deco = [n for n in g.ev("ucall", root) if n["fn"] is RET]
    raw = [n for n in g.ev("ucall", root) if ismt(n["fn"])]
    ck.ob("retry-decorates-modified-time", "modified time query", bool(deco) and not raw, "a modified time query runs without the given retry decorator" if raw or not deco else "")


def run(ck):
    for sched in scheds(ck):
        e = engine.Engine(ck, sched)
        e.items()
        e.workers_count()
        e.stop_checked()
        e.max_errors()
        e.failure()
        e.successors_processed()
        e.worker_never_dies()
    g = ck.analyse("run with registry", RUN_REG_OUT, env(), stub_engine=True)
    flows(ck, g)
    g = ck.analyse("run without registry", RUN_PLAIN, env(), stub_engine=True)
    flows(ck, g)
    Physical(ck, g).calls_once()
    retry(ck)
    decorator(ck)
