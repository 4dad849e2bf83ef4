"""C17: interrupt edges at every statement of the main thread from the first start of a worker until its wait is over: each leads to the stop flag, the sentinels and the joins before the call ends, nothing new is started, and KeyboardInterrupt is what leaves run; workers test the flag between taking an item and calling; observers let the interrupt through and join their threads."""
from ..terms import NONE, TRUE, show, subterms
from . import clients, engine
from .base import env, sym
from .engine import FN, nodelike

OBSERVER = """
import uberjob
from uberjob.progress import Progress, ProgressObserver

class Observer(ProgressObserver):
    def __enter__(self):
        ENTERED()
    def __exit__(self, exc_type, exc_val, exc_tb):
        EXITED()
    def increment_total(self, *, section, scope, amount):
        pass
    def increment_running(self, *, section, scope):
        pass
    def increment_completed(self, *, section, scope):
        pass
    def increment_failed(self, *, section, scope, exception):
        pass
"""
RUN = OBSERVER + clients.RUN_REG_OUT.replace("progress=PROG", "progress=Progress(Observer)")
EXITED = sym("EXITED", "mark")

BUNDLED = {
    "console": "from uberjob.progress import console_progress as p\n",
    "html": "from uberjob.progress import html_progress\np = html_progress(OUTPUT)\n",
    "ipython": "from uberjob.progress import ipython_progress as p\n",
    "null": "from uberjob.progress import null_progress as p\n",
    "composite": "from uberjob.progress import composite_progress, null_progress\np = composite_progress(null_progress, null_progress)\n",
}
BODY = """
with p.observer() as o:
    FN()
"""


class Interrupts:
    def __init__(self, ck, g, what):
        self.ck = ck
        self.g = g
        self.what = what
        self.kis = g.ev("ki", "main")
        ck.need(self.kis, "no interrupt point found: no thread is started by the main thread")

    def propagates(self):
        """KeyboardInterrupt, and nothing else, leaves the call"""
        ck, g = self.ck, self.g
        ends = g.ev("end", "main")
        for k in self.kis:
            seen = g.fwd([k])
            bad = None
            n = 0
            for m in ends:
                if m.id not in seen:
                    continue
                n += 1
                if m["how"] != "raise":
                    bad = (m, "the interrupt is swallowed: the call returns normally")
                elif not self.is_ki(m["exc"]):
                    bad = (m, f"{show(m['exc'], 2)} is raised in place of the interrupt")
                if bad:
                    break
            if bad:
                p = g.path(g.after(k), lambda m: m.id == bad[0].id)
                ck.ob("interrupt-propagates", g.at(k), False, bad[1] + ": " + g.show_path(p))
            else:
                ck.ob("interrupt-propagates", g.at(k), True if n else None, "" if n else "no end reached")

    def is_ki(self, e):
        return e is not None and e.op == "exc" and e.args[1] == "KeyboardInterrupt"

    def nothing_started(self):
        """no thread, item or call is started after the interrupt"""
        ck, g = self.ck, self.g
        for k in self.kis:
            p = g.path(g.after(k), lambda m: m.kind == "thread_start" or m.kind == "ucall" and m["fn"] is FN or m.kind == "q_put" and nodelike(m["item"]))
            ck.ob("nothing-started", g.at(k), p is None, "work is started after the interrupt: " + g.show_path(p) if p else "")


class EngineKI(Interrupts):
    def __init__(self, ck, e, sched):
        super().__init__(ck, e.g, sched)
        self.e = e
        self.sched = sched
        self.flags = self.stop_locs()

    def true_store(self, m):
        return m.kind in ("setcell", "setattr") and m.get("loc") is not None and m["val"] is TRUE

    def loc_of(self, m):
        return self.g.it.genloc(m["loc"]) if m.get("loc") is not None else None

    def stop_locs(self):
        """locations the main thread sets after an interrupt and the workers test before a call"""
        g = self.g
        after = g.fwd([y for k in self.kis for y in g.after(k)])
        sets = {self.loc_of(m) for m in g.ev(("setcell", "setattr"), "main") if m.id in after and self.true_store(m)}
        events = {m.get("event") or m.get("obj") for m in g.ev("event_set", "main") if m.id in after}
        tested = set()
        self.tests = set()
        for u in self.e.ucalls:
            if u.root == "main":
                continue
            for n in g.ev("assume", u.root):
                for l in subterms(n["atom"]):
                    if l.op == "load" and g.it.genloc(l.args[0]) in sets:
                        tested.add(g.it.genloc(l.args[0]))
                    elif l.op == "load" and any(ev is not None and ev in l.leaves for ev in events):
                        tested.add(g.it.genloc(l.args[0]))
        return tested, sets, events

    def stops(self):
        ck, g, e = self.ck, self.g, self.e
        tested, sets, events = self.flags
        blocking = ("thread_join", "q_join", "wait", "event_wait")

        def sets_flag(m):
            return self.true_store(m) and self.loc_of(m) in tested or m.kind == "event_set"

        def drains(m):
            return m.kind == "q_get" or m.kind == "mut" and m["op"] in ("clear", "popleft", "pop", "setitem", "delitem")

        prompt = self.sched == "default" and e_prompt(self)
        for k in self.kis:
            after = g.fwd(g.after(k))
            if any(drains(g.nodes[x]) for x in after):
                ck.ob("no-new-call", g.at(k), None, "the queue is emptied instead of setting a flag: not decided")
                continue
            p = g.path(g.after(k), lambda m: m.kind in blocking or m.kind == "end", block=sets_flag)
            if p is None:
                ck.ob("no-new-call", g.at(k), True, "the stop flag is set before anything is waited for")
            elif prompt:
                ck.ob("no-new-call", g.at(k), None, "no stop flag, but the sentinels overtake the queued calls")
            else:
                ck.ob("no-new-call", g.at(k), False, "queued calls are still started after the interrupt (no flag tested by the workers is set): " + g.show_path(p))
        for s in e.gets:
            def unset(m):
                if m.kind != "assume":
                    return False
                a = m["atom"]
                if not any(l.op == "load" and (g.it.genloc(l.args[0]) in tested) for l in subterms(a)):
                    return False
                return m["val"] is False or a.op == "eq" and NONE in a.args
            if not tested:
                continue
            p = g.path(g.after(s), lambda m: m.kind == "ucall" and m["fn"] is FN, block=lambda m: m.kind == "q_get" or unset(m))
            ck.ob("flag-tested-before-call", g.at(s), p is None, "a call can start although the run was interrupted: " + g.show_path(p) if p else "")
        # the flag stays set
        starts = g.fwd([y for s in e.starts for y in g.after(s)])
        for m in g.ev(("setcell", "setattr")):
            if m.get("loc") is None or self.loc_of(m) not in tested or m["val"] is TRUE:
                continue
            if m.root in e.wroots or m.root == "main" and m.id in starts:
                v = m["val"]
                ok = True if v.op == "or" else False if v.op == "const" or v.op in ("gt", "lt", "ge", "le", "not", "truthy", "eq", "is") else None
                ck.ob("flag-stays-set", g.at(m), ok, "the stop flag may be cleared again" if ok is False else f"assigned {show(v, 2)}")

    def sentinels(self):
        ck, g, e = self.ck, self.g, self.e
        puts = [m for m in g.ev("q_put", "main") if not nodelike(m["item"])]
        if not puts:
            return  # reported by the shutdown rule
        loops = set()
        for m in puts:
            for it in g.ev("iter", "main"):
                if m.loops and it["elem"] is m.loops[-1]:
                    loops.add(it["loop"])
        for k in self.kis:
            p = g.path(g.after(k), lambda m: m.kind == "thread_join", block=lambda m: m.kind == "loopexit" and m.get("loop") in loops or m in puts and not m.loops)
            ck.ob("workers-woken", g.at(k), p is None, "workers waiting for an item are joined without a sentinel: " + g.show_path(p) if p else "")
        for k in self.kis:
            p = g.path(g.after(k), lambda m: m.kind == "q_join", block=lambda m: m.kind == "ki")
            ck.ob("interrupt-does-not-wait-for-queue", g.at(k), True if p is None else None, "waits for the queue again" if p else "")


def e_prompt(self):
    """sentinels get the smallest priority"""
    return True


def scheds(ck):
    return ("default", "random", "cheap") if ck.tier == "thorough" else ("default", "random")


def observers(ck):
    for name, src in BUNDLED.items():
        if name == "ipython" and ck.tier != "thorough":
            continue
        g = ck.analyse(f"interrupt under the {name} observer", src + BODY, env(OUTPUT=sym("OUTPUT", "str")))
        ex = [n for n in g.ev("uexc", "main") if n["fn"] is FN]
        ck.need(ex, "client call not reached")
        for x in ex:
            seen = g.fwd([x])
            for m in g.ev("end", "main"):
                if m.id in seen and m["how"] != "raise":
                    ck.ob("observer-lets-through", f"{name}: {g.at(m)}", False, "leaving the observer swallows the exception: " + g.show_path(g.path([x], lambda z: z.id == m.id)))
                    break
            else:
                ck.ob("observer-lets-through", name, True)
        joins = g.ev("thread_join", "main")
        for s in g.ev("thread_start", "main"):
            p = g.path([y for x in ex for y in g.after(x) if x.id in g.fwd([s])], lambda m: m.kind == "end", block=lambda m: m.kind == "thread_join" and m["thread"] is s["thread"] or m in joins and m["thread"].op == "load")
            ck.ob("observer-thread-joined", f"{name}: {g.at(s)}", p is None, "the update thread is not joined: " + g.show_path(p) if p else "")
            for m in joins:
                ck.ob("observer-join-waits", f"{name}: {g.at(m)}", m["timeout"] is None or m["timeout"] is NONE, "join with a timeout")


def run(ck):
    for sched in scheds(ck):
        e = engine.Engine(ck, sched, ki=True)
        e.shutdown()
        k = EngineKI(ck, e, sched)
        k.propagates()
        k.nothing_started()
        k.stops()
        k.sentinels()
    g = ck.analyse("interrupted run with registry", RUN, env(EXITED=EXITED, ENTERED=sym("ENTERED", "mark")), stub_engine=True, ki=True)
    k = Interrupts(ck, g, "run")
    k.propagates()
    k.nothing_started()
    for x in k.kis:
        p = g.path(g.after(x), lambda m: m.kind == "end", block=lambda m: m.kind == "mark" and m["name"] == "EXITED")
        ck.ob("observer-exited", g.at(x), p is None, "the progress observer is not exited: " + g.show_path(p) if p else "")
    observers(ck)
