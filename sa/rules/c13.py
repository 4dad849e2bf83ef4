"""C13: no write of run, dry_run or render reaches an object of the caller's plan or registry, and nothing mutable is shared by a copy and its original (ownership analysis: the heap reachable from the caller's objects before the call, against every store, container mutation and graph surgery the call may perform)."""
from ..terms import NONE, T, TRUE, show, subterms
from . import clients
from .base import env, is_view, sym

MARK = sym("BEFORE", "mark")
TP = sym("TP", "callable")
DRY = sym("DRY", "bool")
PRED = sym("PRED", "callable")

BUILD = """
import uberjob
plan = uberjob.Plan()
registry = uberjob.Registry()
out = plan.call(FN)
for n in NODES:
    registry.add(n, STORE(n))
for s in SRCS:
    registry.source(plan, STORE2(s))
BEFORE(plan, registry)
"""
ARGS = clients.RUN_ARGS + ", transform_physical=TP"
RUN_REG = BUILD + f"result = uberjob.run(plan, output=out, registry=registry, {ARGS})\n"
RUN_PLAIN = BUILD + f"result = uberjob.run(plan, output=[out], registry=None, {ARGS})\n"
RENDER = BUILD + "result = uberjob.render(plan, registry=registry, predicate=PRED, level=LEVEL, format=FORMAT)\n"
RENDER_PRED = BUILD + "result = uberjob.render(plan, predicate=PRED)\n"
RENDER_LEVEL = BUILD + "result = uberjob.render(plan, level=LEVEL)\n"
RENDER_TUPLE = BUILD + "result = uberjob.render((plan, out), level=LEVEL)\n"
RENDER_GRAPH = BUILD + "result = uberjob.render(plan.graph, predicate=PRED, level=LEVEL)\n"

COPIES = """
import uberjob
{copy}
p = uberjob.Plan()
a = p.call(FN)
b = p.lit(B)
r = uberjob.Registry()
r.add(a, STORE(a))
s = r.source(p, STORE2(b))
{make}
BEFORE({keep})
"""
EMPTY = """
import uberjob
{copy}
p = uberjob.Plan()
r = uberjob.Registry()
{make}
BEFORE({keep})
x = uberjob.Plan()
a = {p}.call(FN)
b = {p}.lit(B)
{r}.add(a, STORE(a))
"""
CHANGES = (
    "c = {p}.call(FN, a)",
    "c = {p}.call(FN, k=b)",
    "c = {p}.lit(C1)",
    "{p}.gather([a])",
    "{p}.unpack(a, 2)",
    "{p}.add_dependency(b, a)",
    "with {p}.scope(SCOPE):\n    c = {p}.call(FN)",
    "{r}.add(b, STORE(b))\nt = {r}.source({p}, STORE2(a))",
)


def reach(st, roots):
    """sites of the objects reachable from roots"""
    bysite = {}
    for o, r in st.heap.items():
        bysite.setdefault(o.args[:2], []).append(r)
    seen = set()
    work = list(roots)
    done = set()
    while work:
        v = work.pop()
        if type(v) is not T or v in done:
            continue
        done.add(v)
        for x in (v, *v.leaves):
            if x.op != "obj":
                continue
            k = x.args[:2]
            if k in seen:
                continue
            seen.add(k)
            for r in bysite.get(k, ()):
                if r.kind != "graph":
                    work.extend(r.fields.values())
                if r.base is not None:
                    work.append(r.base)
                for e in r.entries:
                    work += [y for y in (e.key, e.val) if y is not None]
    return seen


class Owned:
    """the objects of the caller, and the events after the marked point"""

    def __init__(self, ck, g):
        self.ck = ck
        self.g = g
        ck.need(g.it.marks, "marked point not reached")
        marks = [(n, st) for n, st in g.it.marks if n.root == "main"]
        self.after = g.fwd([n for n, _ in marks])
        self.roots = set()
        for n, st in marks:
            self.roots |= reach(st, n["args"])
        self.stable = {}
        self.graphs = {}
        for n in g.ev("graphcopy"):
            self.graphs[n["obj"].args[:2]] = (n["src"], n["how"])

    def events(self, *kinds):
        for n in self.g.ev():
            if n.kind in kinds and (n.root != "main" or n.id in self.after):
                yield n

    def graph_origin(self, x):
        """caller's graph that shares its content with graph x"""
        for _ in range(8):
            if x.op != "obj":
                return None
            if x.args[:2] in self.roots:
                return x
            d = self.graphs.get(x.args[:2])
            if d is None or d[1] == "copy":
                return None
            x = d[0]
        return None

    def base(self, x):
        """the object a part belongs to: views, attributes and items belong to their container"""
        for _ in range(12):
            if x.op == "obj":
                return x
            if x.op == "view":
                x = x.args[1]
            elif x.op in ("attr", "item_", "data", "edgedata", "bm", "dget", "method") and x.args and isinstance(x.args[0], T):
                x = x.args[0]
            else:
                return x
        return x

    def node_of(self, x):
        """is x an element of a graph that holds the caller's nodes?"""
        if x.op in ("elem", "old"):
            y = x.args[0]
            while y.op == "old":
                y = y.args[0]
            if y.op == "elem":
                y = y.args[0]
            for t in (y, *subterms(y)):
                if t.op == "sym" and t.args[1] in ("nodes", "unique"):
                    return "a node of the caller's plan"
                if t.op == "view" and t.args[0] in ("nodes", "preds", "succs", "ancestors", "descendants", "edges", "in_edges", "out_edges", "predmap", "succmap"):
                    return "a node or edge of the plan"
        if x.op == "sym" and x.args[1] in ("nodes", "unique"):
            return "a node of the caller's plan"
        if x.op in ("unpack", "item_"):
            return self.node_of(x.args[0])
        return None

    def fresh(self, n, x):
        """do the facts tell that x is one of the objects made by run itself?"""
        for a, v in n.facts.items():
            if x not in a.leaves and a is not x:
                continue
            if a.op == "in" and a.args[0] is x:
                return True  # membership in some set: not decided here
            if a.op == "eq" and a.args[0].op == "type" and v and a.args[1].args and a.args[1].args[0] not in ("uberjob.graph.Call", "uberjob.graph.Literal", "uberjob.graph.Node"):
                return True
        return False

    def store(self, n, x, what):
        ck, g = self.ck, self.g
        b = self.base(x)
        if b.op == "obj":
            if b.args[:2] in self.roots:
                return ck.ob("writes-only-own-objects", g.at(n), False, f"{what} modifies {show(b, 2)} of the caller")
            if x.op in ("view", "item_", "data", "edgedata", "attr"):
                o = self.graph_origin(b)
                if o is not None:
                    return ck.ob("writes-only-own-objects", g.at(n), False, f"{what} goes through a view of the caller's graph")
            if n.kind == "mut" and b is x:
                o = self.graph_origin(b)
                if o is not None:
                    return ck.ob("writes-only-own-objects", g.at(n), False, f"{what} on a view of the caller's graph")
            if x is b or x.op in ("view", "item_", "data", "edgedata"):
                return ck.ob("writes-only-own-objects", g.at(n), True, "")
        w = self.node_of(x)
        if w is not None:
            given = x.op == "elem" and x.args[0].op == "sym" or x.op == "sym"  # passed in by the caller
            if n.kind == "setattr" and not given and self.fresh(n, x):
                return ck.ob("writes-only-own-objects", g.at(n), None, f"{what} on a node: not known to be a new one")
            return ck.ob("writes-only-own-objects", g.at(n), False, f"{what} modifies {w}")
        return ck.ob("writes-only-own-objects", g.at(n), True if b.op in ("exc", "load", "res") else None, f"{what} on {show(x, 2)}")

    def run(self):
        ck, g = self.ck, self.g
        k = 0
        for n in self.events("setattr", "mut", "setitem", "delitem", "delattr"):
            x = n["obj"]
            if n.kind == "mut" and n["op"].startswith("q_"):
                continue
            k += 1
            what = f"assignment of .{n['name']}" if n.kind == "setattr" else f"{n.get('op') or n.kind}"
            self.store(n, x, what)
        ck.stats["stores"] += k
        ck.need(k, "no store found")
        for n in self.events("ucall"):
            # handing the caller's own mutable plan to a transformation lets it be modified in place
            if n["fn"] is TP:
                for a in n["args"]:
                    bad = [y for y in (a, *a.leaves) if y.op == "obj" and y.args[:2] in self.roots and y.args[0] in self.mutable()]
                    ck.ob("transformation-gets-a-copy", g.at(n), not bad, "transform_physical is given the caller's own plan" if bad else "")

    def mutable(self):
        """sites of the caller's plan, registry and what they consist of, not their nodes"""
        if not hasattr(self, "_mut"):
            self._mut = set()
            for n, st in self.g.it.marks:
                if n.root != "main":
                    continue
                for v in n["args"]:
                    if v.op != "obj":
                        continue
                    self._mut.add(v.args[0])
                    r = self.g.it.rec(st, v)
                    if r is not None:
                        for f in r.fields.values():
                            if f.op == "obj":
                                self._mut.add(f.args[0])
        return self._mut

    def returned(self):
        """a dry run returns the transformed copy"""
        ck, g = self.ck, self.g
        for n in g.ev("setcell", "main", name="result"):
            if n.loc[0] != "client" or n.id not in self.after:
                continue
            for y in (n["val"], *n["val"].leaves):
                if y.op == "obj" and y.args[:2] in self.roots and y.args[0] in self.mutable():
                    ck.ob("returns-a-copy", g.at(n), False, "returns the caller's own plan")
                    return
        ck.ob("returns-a-copy", g.name, True, "")


def copies(ck, what, src, **names):
    g = ck.analyse(what, src, env(BEFORE=MARK, A=sym("A", "opaque"), B=sym("B", "opaque"), C1=sym("C1", "opaque"), SCOPE=sym("SCOPE", "opaque")), stub_engine=False)
    o = Owned(ck, g)
    o.run()
    for n in o.events("acquire"):
        b = o.base(n["lock"])
        bad = b.op == "obj" and b.args[:2] in o.roots
        ck.ob("locks-only-own", g.at(n), not bad, "the copy and its original share a lock" if bad else "")


def run(ck):
    for d in (DRY,):
        g = ck.analyse("run with registry", RUN_REG, env(BEFORE=MARK, TP=TP, DRY=d), stub_engine=True)
        o = Owned(ck, g)
        o.run()
        o.returned()
        g = ck.analyse("run without registry", RUN_PLAIN, env(BEFORE=MARK, TP=TP, DRY=d), stub_engine=True)
        o = Owned(ck, g)
        o.run()
        o.returned()
    g = ck.analyse("run without output", RUN_REG.replace("output=out", "output=None"), env(BEFORE=MARK, TP=NONE, DRY=DRY), stub_engine=True)
    o = Owned(ck, g)
    o.run()
    o.returned()
    for name, src in (("render", RENDER), ("render with predicate", RENDER_PRED), ("render with level", RENDER_LEVEL), ("render of a pair", RENDER_TUPLE), ("render of a graph", RENDER_GRAPH)):
        g = ck.analyse(name, src, env(BEFORE=MARK, PRED=PRED, LEVEL=sym("LEVEL", "int"), FORMAT=NONE))
        Owned(ck, g).run()
    for copy, mk_ in (("", "q = p.copy()\nt = r.copy()"), ("import copy", "q = copy.copy(p)\nt = copy.copy(r)")):
        if copy and ck.tier != "thorough":
            continue
        for src in (EMPTY, *(COPIES + c for c in CHANGES)):
            copies(ck, "changing a copy", src.format(copy=copy, make=mk_, keep="p, r", p="q", r="t"))
            copies(ck, "changing the original", src.format(copy=copy, make=mk_, keep="q, t", p="p", r="r"))
