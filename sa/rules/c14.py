"""C14: the dry run is compared with the real run, effect by effect: both are interpreted from the same arbitrary plan and registry, every change of the graph, store query, time comparison and created call of one must exist in the other under the same conditions up to the point where they part; the dry run itself reaches no call, read or write, returns the graph the engine would get and its output, and what the real run does afterwards only drops nodes that are no calls and executes nothing but nodes of that graph."""
from ..terms import NONE, T, mk, show, subterms
from . import clients
from .base import env, sym
from .stale import FRESH
from .surgery import CALL, type_fact

LIT = "uberjob.graph.Literal"
BASE = clients.RUN_REG_OUT.replace("progress=PROG", "progress=None")
TR = BASE.replace(", scheduler=SCHED", ", scheduler=SCHED, transform_physical=TRANSFORM")
PLAIN = clients.RUN_PLAIN.replace("progress=PROG", "progress=None")
NOOUT = clients.RUN_NOOUT.replace("progress=PROG", "progress=None")
LITOUT = BASE.replace("plan.call(FN)", "plan.lit(VAL)")
GRAPH_OPS = {"add_node", "add_nodes_from", "remove_node", "remove_nodes_from", "add_edge", "add_edges_from", "remove_edge", "remove_edges_from", "clear", "clear_edges", "update"}
QUERY = {"get_modified_time"}


class Canon:
    """terms with the numbers of frames and functions replaced by what they stand for"""

    def __init__(self, it):
        self.it = it
        self.memo = {}
        self.names = {}

    def frame(self, i):
        if type(i) is not int:
            return i
        r = self.names.get(i)
        if r is None:
            f = self.it.frames.get(i)
            r = "?" if f is None else f"{f.fn.qual if f.fn else ''}@{f.where}<{self.frame(f.dyn)}"
            self.names[i] = r
        return r

    def __call__(self, t):
        if type(t) is tuple:
            r = tuple(self(x) for x in t)
            return tuple(sorted(r, key=lambda x: x.h)) if r and all(type(x) is T and x.op == "fact" for x in r) else r
        if type(t) is not T:
            return t
        r = self.memo.get(t)
        if r is None:
            a = list(t.args)
            if t.op in ("tk", "lid", "obj") and len(a) > 1:
                a[1] = self.frame(a[1])
            elif t.op == "fn":
                f = self.it.fns.get(a[0]) if hasattr(self.it.fns, "get") else self.it.fns[a[0]]
                a = [f.qual if f else "?", *(self.frame(x) for x in a[1:])]
            if t.op in ("max", "min", "eq", "maxof", "minof", "bag", "phi") and all(type(x) is T for x in a):
                a = sorted((self(x) for x in a), key=lambda x: x.h)
            r = mk(t.op, *[self(x) for x in a]) if any(type(x) in (T, tuple) for x in a) or a != list(t.args) else t
            self.memo[t] = r
        return r


class Pair:
    def __init__(self, ck, name, src, e):
        self.ck, self.name = ck, name
        self.dry = ck.analyse(f"dry run, {name}", src.replace("DRY", "True"), e, stub_engine=True)
        self.real = ck.analyse(f"real run, {name}", src.replace("DRY", "False"), e, stub_engine=True)
        self.classes = {}
        self.canons = {self.dry: Canon(self.dry.it), self.real: Canon(self.real.it)}

    # -- what the dry run may not do ---------------------------------------
    def method(self, fn):
        return fn.args[1] if fn.op == "attr" else None

    def in_run(self, n):
        """inside of uberjob.run (the client builds stores itself)"""
        return n.root != "main" or n.loc[0] != "client"

    def silent(self):
        ck, g = self.ck, self.dry
        n_ok = 0
        for n in g.ev("ucall"):
            if not self.in_run(n):
                continue
            fn = n["fn"]
            if any(m in QUERY for m in (self.method(fn),)):
                n_ok += 1
                continue
            ok = None
            s = fn
            while s.op == "app":
                s = s.args[0]
            if self.method(fn) in ("read", "write") or s.op == "sym" and s.args[0] == "FN" or fn.op == "attr" and fn.args[1] == "fn" or any(x.op == "attr" and x.args[1] in ("fn", "read", "write") for x in [s, *subterms(s)]):
                ok = False
            elif s.op == "sym" and s.args[0] in ("RETRY", "TRANSFORM", "PROG") or any(x.op == "attr" and x.args[1] == "graph" for x in [s, *subterms(s)]):
                ok = True
            if ok is not True:
                p = g.path([g.root_of(n.root)], lambda m: m is n)
                ck.ob("dry-run-is-silent", g.at(n), ok, f"a dry run calls {show(fn, 4)}: " + g.show_path(p))
            else:
                n_ok += 1
        ck.ob("dry-run-is-silent", self.name, True, f"{n_ok} calls of user code, all of them queries")
        return n_ok

    # -- effects, in both ----------------------------------------------------
    def effects(self, g, roots):
        """canonical effect -> (facts common to all its occurrences, an occurrence)"""
        out = {}
        c = self.canons[g]
        runs = [n for n in g.ev("enter", "main") if n.loc[0] != "client" and g.it.fns[n["fn"].args[0]].qual == "run" or g.it.fns[n["fn"].args[0]].qual == "run"]
        self.ck.need(runs, "uberjob.run is not entered")
        inside = g.fwd(runs)
        for n in g.nodes[g.base:]:
            if n.root not in roots or n.loc[0] == "client" or n.root == "main" and n.id not in inside:
                continue
            if n.kind == "mut":
                if n["op"] not in GRAPH_OPS:
                    continue
                if n["op"] in ("clear", "update") and not str(n["obj"].args[0]).startswith("graph"):
                    continue
                k = ("graph", n["op"], n["obj"], *n["args"])
            elif n.kind == "alloc":
                if n["cls"] not in (CALL, LIT):
                    continue
                k = ("alloc", n["obj"])
            elif n.kind == "setattr":
                if self.cls(g, n["obj"]) not in (CALL, LIT):
                    continue
                k = ("setattr", n["obj"], n["name"], n["val"])
            elif n.kind == "ucall":
                k = ("ask", n["fn"], *n["args"])
            elif n.kind == "compare":
                if n.root == "main" or n["op"] not in ("lt", "le", "gt", "ge"):
                    continue
                k = ("compare", *[self.made_of(v) if type(v) is T else v for _, v in sorted(n.data.items()) if type(v) in (T, str)])
            else:
                continue
            k = (n.loc,) + tuple(c(x) for x in k)
            f = {(c(a), v) for a, v in n.facts.items()}
            if k in out:
                out[k] = (out[k][0] & f, out[k][1])
            else:
                out[k] = (f, n)
        return out

    def made_of(self, t):
        """what a compared time is computed from"""
        return "times of " + ", ".join(sorted({x.args[0] if x.op == "sym" else x.args[1] for x in [t, *subterms(t)] if x.op in ("sym", "attr") and type(x.args[0 if x.op == "sym" else 1]) is str}))

    def cls(self, g, x):
        """class of an object the run creates"""
        if g not in self.classes:
            self.classes[g] = {n["obj"]: n["cls"] for n in g.ev("alloc")}
        return self.classes[g].get(x)

    def physical(self):
        """the root that executes the plan in the real run"""
        d, r = self.dry.workers(), self.real.workers()
        return r[len(d):]

    def compare(self):
        ck = self.ck
        phys = self.physical()
        ck.ob("engine-only-in-real-run", self.name, True if len(phys) == 1 else False if not phys and self.real.workers() else None, f"{len(self.dry.workers())} engine runs in the dry run, {len(self.real.workers())} in the real run")
        shared = {"main", *self.dry.workers()}
        a, b = self.effects(self.dry, shared), self.effects(self.real, shared)
        loose = lambda k: k[1:]  # the same effect from a duplicated line
        la, lb = {loose(k) for k in a}, {loose(k) for k in b}
        bad = 0
        for k, (f, n) in a.items():
            if k not in b:
                if loose(k) in lb:
                    ck.ob("same-effects", self.dry.at(n), None, "done at another place in the real run")
                    continue
                bad += 1
                p = self.dry.path([self.dry.root_of(n.root)], lambda m: m is n)
                ck.ob("same-effects", self.dry.at(n), False, f"only the dry run does {self.text(k)}: " + self.dry.show_path(p))
                continue
            g = b[k][0]
            if f == g:
                continue
            more, less = f - g, g - f
            bad += 1
            ck.ob("same-conditions", self.dry.at(n), False if self.solid(more | less) else None, f"{self.text(k)} is done in the dry run only if {self.conds(more)}, in the real run only if {self.conds(less)}")
        for k, (f, n) in b.items():
            if k in a or loose(k) in la:
                continue
            self.real_only(k, n)
        ck.ob("same-effects", self.name, True if not bad else None, f"{len(a)} effects of the dry run compared with {len(b)} of the real run")
        ck.stats["effects compared"] += len(a) + len(b)

    def solid(self, facts):
        return bool(facts) and not any(x.op in ("res", "phi") for a, v in facts for x in subterms(a))

    def conds(self, fs):
        return " and ".join(sorted(f"{show(a, 4)} is {v}" for a, v in fs)) or "(always)"

    def text(self, k):
        return f"{k[1]} " + ", ".join(show(x, 3) if type(x) is T else str(x) for x in k[2:])

    def real_only(self, k, n):
        """effects behind the parting point: they may not change which calls there are"""
        ck, g = self.ck, self.real
        if k[1] == "compare":
            ck.ob("same-effects", g.at(n), False, f"only the real run does {self.text(k)}")
            return
        if k[1] == "ask":
            m = self.method(n["fn"])
            if m in QUERY:
                ck.ob("same-effects", g.at(n), False, f"only the real run asks {show(n['fn'], 4)}")
            elif n.root == "main" and not (m is None and n["fn"].op == "sym"):
                ck.ob("nothing-but-the-plan", g.at(n), False if m in ("read", "write", "fn") else None, f"the real run calls {show(n['fn'], 4)} besides the plan")
            return
        if k[1] in ("alloc", "setattr"):
            if k[1] == "alloc":
                ck.ob("same-calls", g.at(n), False if n["cls"] == CALL else None, f"only the real run creates {show(n['obj'], 3)}")
            else:
                ck.ob("same-calls", g.at(n), False, f"only the real run sets {n['name']} of {show(n['obj'], 3)}")
            return
        op = n["op"]
        for x in n["args"] if op in ("remove_node", "remove_nodes_from", "add_node", "add_nodes_from") else ():
            yes, no = type_fact(n.facts, x)
            if CALL in no or yes and CALL not in yes:
                ok = True
            elif op.startswith("remove"):
                ok = False if CALL in yes or not yes and x.op == "elem" and x.args[0].op in ("view", "setop") else None
            else:
                c = self.cls(g, x) if x.op == "obj" else None
                ok = None if c is None else c != CALL
            ck.ob("same-calls", g.at(n), ok, "" if ok else f"only the real run does {op} {show(x, 3)}")
        if op in ("remove_edge", "remove_edges_from", "clear", "clear_edges"):
            ck.ob("same-calls", g.at(n), None, f"only the real run does {op}")

    def executed(self):
        """the engine executes the function of the item it was given and nothing else"""
        ck, g = self.ck, self.real
        for root in self.physical():
            items = {n["item"] for n in g.ev("q_get", root)}
            for n in g.ev("ucall", root):
                fn = n["fn"]
                ok = any(x.op == "attr" and x.args[0] in items and x.args[1] == "fn" for x in [fn, *subterms(fn)])
                ck.ob("nothing-but-the-plan", g.at(n), ok or (None if fn.op == "sym" else False if self.method(fn) in ("read", "write", "get_modified_time") else None), "" if ok else f"the engine calls {show(fn, 4)}, which is not the function of a node")

    # -- what is returned ------------------------------------------------------
    def results(self, g):
        return [n for n in g.ev("setcell", "main") if n["name"] == "result" and n.loc[0] == "client"]

    def returned(self, transformed=False):
        ck, d, r = self.ck, self.dry, self.real
        ds, rs = self.results(d), self.results(r)
        ck.need(ds and rs, "run does not return")
        outs = set()
        plans = set()
        for n in ds:
            v = n["val"]
            if v.op == "tup" and len(v.args) == 2:
                plans.add(v.args[0])
                outs.add(self.canons[d](v.args[1]))
                ck.ob("returns-plan-and-output", d.at(n), True)
            elif v.op in ("res", "unpack", "app", "phi", "load"):
                ck.ob("returns-plan-and-output", d.at(n), None, show(v, 4))
            else:
                ck.ob("returns-plan-and-output", d.at(n), False, f"a dry run returns {show(v, 4)}")
        if transformed:
            return plans, outs
        # the output
        real = set()
        known = True
        for n in rs:
            x = self.slot_key(n["val"]) or self.holder(r, n["val"])
            if x is None:
                known = False
            else:
                real.add(self.canons[r](x))
        if known:
            for x in outs - real:
                ck.ob("same-output", self.name, False, f"the dry run returns the output node {show(x, 4)}, the real run reads the result of {'; '.join(show(y, 4) for y in real)}")
            for x in real - outs:
                ck.ob("same-output", self.name, False, f"the real run reads the result of {show(x, 4)}, the dry run returns {'; '.join(show(y, 4) for y in outs)}")
            if outs == real:
                ck.ob("same-output", self.name, True, f"{len(outs)} variants of the output node")
        else:
            ck.ob("same-output", self.name, None, "the output of the real run is not resolved")
        # the plan
        puts = r.ev("q_put", "main")
        graphs = set()
        phys = set(self.physical())
        starts = {s for t in r.threads if t["name"] in phys for s in t["starts"]}
        back = r.bwd(starts)
        for n in puts:
            x = n["item"]
            if n.id in back and x.op == "elem":
                graphs.add(x.args[0].args[1] if x.args[0].op == "view" else x.args[0])
        for p in plans:
            G1 = self.field(d, p, "graph")
            if G1 is None:
                ck.ob("same-plan", self.name, None, f"graph of {show(p, 3)} unknown")
                continue
            for G2 in graphs:
                chain = {G2}
                for _ in range(6):
                    for m in r.ev(("graphcopy", "objcopy"), "main"):
                        if m["obj"] in chain:
                            chain.add(m["src"])
                ok = self.canons[d](G1) in {self.canons[r](x) for x in chain}
                both = G1.op == "obj" and G2.op == "obj"
                ck.ob("same-plan", self.name, ok or (False if both else None), "" if ok else f"the dry run returns {show(G1, 3)}, the engine gets {show(G2, 3)}")
        return plans, outs

    def field(self, g, p, name):
        best = None
        for n in g.ev("setattr"):
            if n["obj"] is p and n["name"] == name:
                best = n["val"]
        return best

    def holder(self, g, v):
        """the literal whose value v is"""
        xs = {n["obj"] for n in g.ev("setattr", "main") if n["name"] == "value" and n["val"] is v and "Literal" in show(n["obj"], 1)} if v.op == "sym" else set()
        return xs.pop() if len(xs) == 1 else None

    def slot_key(self, v):
        """the node whose result slot is returned"""
        if v is NONE:
            return NONE
        objs = [x for x in [v, *subterms(v)] if x.op == "obj" and x.args[2]]
        keys = {p for x in objs if "Slot" in show(x, 1) for p in x.args[2]}
        keys = keys or {x for x in subterms(v) if x.op == "obj" and "[Call" in show(x, 1)}
        return keys.pop() if len(keys) == 1 else None


def transformed(ck):
    P = Pair(ck, "with transform_physical", TR, env(TRANSFORM=sym("TRANSFORM", "callable")))
    P.silent()
    d, r = P.dry, P.real
    calls = {}
    for g in (d, r):
        cs = [n for n in g.ev("ucall", "main") if n["fn"].op == "sym" and n["fn"].args[0] == "TRANSFORM"]
        calls[g] = {(P.canons[g](n["args"]), n.loc) for n in cs}
        ids = {n.id for n in cs}
        p = g.path([g.root_of("main")], lambda m: m in P.results(g), block=lambda m: m.id in ids)
        what = "dry run" if g is d else "real run"
        ck.ob("transform-applied", what, p is None, "" if p is None else f"the {what} returns without applying transform_physical: " + g.show_path(p))
    same = {a for a, l in calls[d]} == {a for a, l in calls[r]}
    ck.ob("transform-applied", "arguments", same or False, "" if same else "transform_physical gets other arguments in a dry run")
    for n in P.results(d):
        v = n["val"]
        if v.op == "tup" and len(v.args) == 2:
            ok = all(any(y.op in ("res", "app") and "TRANSFORM" in show(y, 3) for y in [x, *subterms(x)]) for x in v.args)
            ck.ob("returns-transformed", d.at(n), ok, "" if ok else f"the dry run returns {show(v, 4)}, not the result of transform_physical")


def run(ck):
    P = Pair(ck, "registry", BASE, env(FRESH=FRESH))
    n = P.silent()
    ck.need(n, "no store is asked for its modified time")
    P.compare()
    P.executed()
    P.returned()
    P = Pair(ck, "literal as output", LITOUT, env(FRESH=FRESH, VAL=sym("VAL", "any")))
    P.returned()
    P = Pair(ck, "no registry", PLAIN, env())
    P.silent()
    P.compare()
    P.executed()
    P.returned()
    P = Pair(ck, "no output", NOOUT, env())
    P.silent()
    P.compare()
    P.returned()
    transformed(ck)
