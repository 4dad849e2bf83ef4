"""C02: the graph that plan.call, gather, unpack and run build for a shape is compared, value by value and object by object, with the shape itself; argument order, keyword order and names are followed from the edge keys to the call; slots are read when the call is made and the output is the slot of the output node."""
import itertools

from ..interp import AnalysisLimit
from ..terms import C, NONE, T, cval, is_const, mk, show
from . import bound
from .base import env, sym

HEAD = """
import collections
import operator
import uberjob
class Leaf:
    pass
class MyList(list):
    pass
class Pair(tuple):
    pass
class MyDict(dict):
    pass
class MySet(set):
    pass
X = Leaf()
Y = Leaf()
I0 = Leaf()
I1 = Leaf()
I2 = Leaf()
"""
PLAN = """
plan = uberjob.Plan()
n = plan.call(FN, X)
free = plan.lit(Y)
two = plan.call(FNTWO)
three = plan.call(FNTHREE)
none = plan.call(FNNONE)
sub = MyList([n, X])
pair = Pair((n, X))
subd = MyDict({"a": n})
subs = MySet([n])
fro = frozenset([n])
deq = collections.deque([n])
odict = collections.OrderedDict([("a", n)])
ddict = collections.defaultdict(list, {"a": n})
cnt = collections.Counter([n])
L0 = [X, 1]
L1 = []
D0 = {"a": X}
S0 = {X}
LL = [[L0], (L1,)]
"""
# the same object, changed between two calls it is passed to
AGAIN = """
def grown(make):
    l = [n]
    make(l)
    l.append(X)
    return make(l)
def replaced(make):
    l = {"a": X}
    make(l)
    l["a"] = n
    return make(l)
def taken(make):
    l = [[n, X], free]
    make(l)
    l[0].pop()
    return make(l)
def called(x):
    return plan.call(FN2, x)
def named(x):
    return plan.call(FN2, k=x)
"""
CHANGED = [("grown", "[n, X]"), ("replaced", "{'a': n}"), ("taken", "[[n], free]")]
NODES = ("n", "free", "two", "three", "none")
OPAQUE = ("X", "Y", "sub", "pair", "subd", "subs", "fro", "deq", "odict", "ddict", "cnt", "L0", "L1", "D0", "S0", "LL")
# values of the nodes, and of the leaves where they are values
VALUES = """
n = ("call", "FN", (X,), ())
free = Y
two = (I0, I1)
three = [I0, I1, I2]
none = []
sub = Leaf()
pair = Leaf()
subd = Leaf()
subs = Leaf()
fro = Leaf()
deq = Leaf()
odict = Leaf()
ddict = Leaf()
cnt = Leaf()
L0 = Leaf()
L1 = Leaf()
D0 = Leaf()
S0 = Leaf()
LL = Leaf()
"""
SHAPES = [
    "n",
    "X",
    "free",
    "[n]",
    "[n, X]",
    "[X, n]",
    "[n, n, X, n]",
    "(n, X)",
    "(X, (n,))",
    "{n, 3}",
    "{'a': n}",
    "{n: X}",
    "{n: n}",
    "{'z': 1, 'a': n, 'm': 2}",
    "{'a': {'b': {'c': [n]}}}",
    "[1, [2, [3, [n]]], LL, [n, L1]]", "[[LL, [[n]]], ((((n,),),),)]",
    "[L0, n, L1]",
    "(L0, n, D0, S0)",
    "[LL, [LL, n]]",
    "{'a': L0, 'b': [n, L1]}",
    "[sub, n]",
    "[pair, n]",
    "(subd, n, subs)",
    "[fro, deq, n]",
    "[odict, n, ddict, cnt]",
    "sub",
    "pair",
    "subd",
    "subs",
    "fro",
    "deq",
    "odict",
    "ddict",
    "cnt",
    "L0",
    "D0",
    "S0",
    "LL",
    "[n, 1, True, 1.0, 0, False]",
    "[n, None, '', b'', 2.5, -0.0]",
    "[free, n]",
    "(n, free, X, Y)",
    "[(), n]",
    "{(1, n): X}",
    "{(X, n), (Y, n)}",
    "[{n: [n]}, {'k': (n, {n})}]",
    "None",
    "0",
    "False",
    "''",
    "()",
    "(1, 2)",
    "(X,)",
    "(L0,)",
    "((), (1, (X, None)))",
    "[(1, n), (True, n), (1.0, n)]",
    "[(0, n), n, (False, n)]",
    "{1: n, 'x': [(1,), n]}",
    "[[n], [n]]",
    "((n, n), (n, n))",
]
# arguments of a call, and what the callee is to be given
CALLS = [
    ("", "(), ()"),
    ("n", "(n,), ()"),
    ("X, n", "(X, n), ()"),
    ("n, X, n, 3, n", "(n, X, n, 3, n), ()"),
    ("[n, (X, n)], L0", "([n, (X, n)], L0), ()"),
    ("z=n, a=X, m=n", "(), (('z', n), ('a', X), ('m', n))"),
    ("n, X, z=3, a=[n, L0], b=n", "(n, X), (('z', 3), ('a', [n, L0]), ('b', n))"),
    ("X, index=n, name=X, args=n, kwargs=3", "(X,), (('index', n), ('name', X), ('args', n), ('kwargs', 3))"),
    ("self=n, fn=X, stack_frame=n", "(), (('self', n), ('fn', X), ('stack_frame', n))"),
    ("sub, pair, odict, k=fro", "(sub, pair, odict), (('k', fro),)"),
    ("None, 0, False, ''", "(None, 0, False, ''), ()"),
    ("free, free, k=free", "(free, free), (('k', free),)"),
    ("(n, X), {n: 1}, {n, 2}, [[n]]", "((n, X), {n: 1}, {n, 2}, [[n]]), ()"),
    ("{'b': n, 'a': X}, k={'b': X, 'a': n}", "({'b': n, 'a': X},), (('k', {'b': X, 'a': n}),)"),
]
FNS = ("FN", "FNTWO", "FNTHREE", "FNNONE")


class Undecided(Exception):
    pass


def listing(it, st, t):
    """the value as nested python data"""
    if is_const(t):
        return ("const", t.args[0], t.args[1])
    if t.op == "tup":
        if any(x.op in ("star", "spread") for x in t.args):
            raise Undecided("a tuple of unknown length")
        return ("tuple", tuple(listing(it, st, x) for x in t.args))
    if t.op == "obj":
        r = it.crec(st, t)
        if r is None:
            return ("object", t)
        if r.base is not None or r.mark or any(e.params or e.facts for e in r.entries) or "sorted" in r.fields or r.kind not in ("list", "set", "dict"):
            raise Undecided(f"{show(t, 3)} has an unknown content")
        if r.cls is not None:
            return ("other", r.cls, t)
        if r.kind == "dict":
            return ("dict", tuple((listing(it, st, e.key), listing(it, st, e.val)) for e in r.entries))
        xs = tuple(listing(it, st, e.val) for e in r.entries)
        if r.kind == "set":
            return ("set", frozenset(xs))
        if r.kind == "list":
            return ("list", xs)
    raise Undecided(f"{show(t, 3)} is not a definite value")


def text(v):
    k = v[0]
    if k == "const":
        return repr(v[2])
    if k in ("object", "other"):
        return show(v[1], 2)
    if k == "dict":
        return "{" + ", ".join(f"{text(a)}: {text(b)}" for a, b in v[1]) + "}"
    return k + "(" + ", ".join(sorted(map(text, v[1])) if k == "set" else map(text, v[1])) + ")"


class Graph:
    """the graph the library built, read off its events"""

    def __init__(self, g):
        self.g = g
        self.cls = {}
        self.fields = {}
        self.names = {}
        self.edges = {}
        self.nodes = set()
        bad = set()
        for n in g.nodes[g.base:]:
            if n.root != "main":
                continue
            if n.kind == "alloc":
                self.cls[n["obj"]] = str(n["cls"].args[0] if type(n["cls"]) is T else n["cls"]).rsplit(".", 1)[-1]
            elif n.kind == "setattr":
                k = n["obj"], n["name"]
                if k in self.fields and self.fields[k] is not n["val"]:
                    bad.add(k)
                self.fields[k] = n["val"]
            elif n.kind == "mut" and n["op"] == "add_node":
                self.nodes.add(n["args"][0])
            elif n.kind == "mut" and n["op"] == "add_edge":
                self.nodes |= set(n["args"][:2])
                self.edges.setdefault(n["args"][1], {})[n["args"]] = n
            elif n.kind == "mut" and n["op"] in ("add_edges_from", "remove_edge", "remove_node", "add_nodes_from"):
                bad.add(n["op"])
        self.bad = bad

    def field(self, o, name):
        if (o, name) in self.bad:
            raise Undecided(f"field {name} is assigned twice")
        v = self.fields.get((o, name))
        if v is None:
            raise Undecided(f"field {name} of {show(o, 3)}")
        return v


class Evaluator:
    """python source that evaluates a node"""

    def __init__(self, graph, names):
        self.gr = graph
        self.names = dict(names)  # term -> name in the second client
        self.lines = []
        self.imports = set()
        self.memo = {}
        self.fresh = itertools.count()
        self.active = set()

    def value(self, t):
        if t in self.names:
            return self.names[t]
        if is_const(t):
            return repr(cval(t))
        if t.op == "tup":
            return "(" + "".join(self.value(x) + ", " for x in t.args) + ")"
        if t.op == "obj":
            # an object that was not supplied
            x = self.names[t] = f"other{next(self.fresh)}"
            self.lines.append(f"{x} = Leaf()")
            return x
        raise Undecided(f"value {show(t, 3)}")

    def fn(self, t):
        it = self.gr.g.it
        if t.op == "fn":
            f = it.fns[t.args[0]]
            if "<" in f.qual or "." in f.qual:
                raise Undecided(f"function {f.qual}")
            self.imports.add(f.mod.name)
            return f"{f.mod.name}.{f.qual}"
        if t.op == "ext":
            m, _, f = t.args[0].rpartition(".")
            if m == "builtins":
                return f
            self.imports.add(m)
            return t.args[0]
        if t.op == "cls" and t.args[0].startswith("builtins."):
            return t.args[0][9:]
        raise Undecided(f"function {show(t, 3)}")

    def node(self, t):
        if t in self.names:
            return self.names[t]
        if t in self.memo:
            return self.memo[t]
        if t in self.active:
            raise Undecided("cyclic graph")
        self.active.add(t)
        gr = self.gr
        if t not in gr.nodes:
            raise Undecided(f"{show(t, 3)} is not a node of the graph")
        if gr.cls.get(t) == "Literal":
            r = self.value(gr.field(t, "value"))
            self.memo[t] = r
            return r
        if gr.cls.get(t) != "Call":
            raise Undecided(f"node {show(t, 3)}")
        args, kws = [], []
        for (u, _, k, *rest), n in gr.edges.get(t, {}).items():
            c = gr.cls.get(k)
            if c not in ("PositionalArg", "KeywordArg"):
                if c == "Dependency":
                    continue
                raise Undecided(f"edge key {show(k, 3)}")
            i = gr.field(k, "index")
            if not is_const(i):
                raise Undecided(f"edge index {show(i, 3)}")
            if c == "PositionalArg":
                args.append((cval(i), u))
            else:
                nm = gr.field(k, "name")
                if not is_const(nm):
                    raise Undecided("keyword name")
                kws.append((cval(i), cval(nm), u))
        out = [self.node(u) for _, u in sorted(args, key=lambda x: x[0])]
        kw = [(nm, self.node(u)) for _, nm, u in sorted(kws, key=lambda x: x[0])]
        clash = len({i for i, _ in args}) < len(args) or len({i for i, _, _ in kws}) < len(kws)
        x = f"v{len(self.memo)}"
        fn = gr.field(t, "fn")
        if fn.op == "sym":
            a = "(" + "".join(o + ", " for o in out) + ")"
            k = "(" + "".join(f"({m!r}, {o}), " for m, o in kw) + ")"
            e = f'("{"clash" if clash else "call"}", "{fn.args[0]}", {a}, {k})'
        else:
            if clash:
                raise Undecided("two arguments at one position")
            e = f"{self.fn(fn)}({', '.join([*out, *(f'{m}={o}' for m, o in kw)])})"
        self.lines.append(f"{x} = {e}")
        self.memo[t] = x
        self.active.discard(t)
        return x


def leaves_src(prefix="leaf"):
    names = (*NODES, *OPAQUE)
    return f"LEAVES({', '.join(names)})\n", names


def build(ck, name, cases, before="", **kw):
    """cases: (label, expression of the node, expression of the expected value)"""
    src = HEAD + PLAN + leaves_src()[0] + before
    for i, (_, e, _) in enumerate(cases):
        src += f"CASE({i}, {e})\n"
    src += "DONE()\n"
    ev = env(**{f: sym(f, "callable") for f in FNS}, LEAVES=sym("LEAVES", "mark"), CASE=sym("CASE", "mark"), DONE=sym("DONE", "mark"), FN2=sym("FN2", "callable"))
    g = ck.analyse(name, src, ev, rec_depth=9, **kw)
    ck.need(any(n["name"] == "LEAVES" for n in g.ev("mark")), "the plan of the shapes is not built")
    return g


def compare(ck, rule, name, cases, chunk=14, **kw):
    for i in range(0, len(cases), chunk):
        try:
            compare_some(ck, rule, f"{name} {i}-" if len(cases) > chunk else name, cases[i : i + chunk], max_nodes=40000, **kw)
        except AnalysisLimit as x:
            ck.ob(rule, f"{name} {i}-{i + chunk - 1}", None, str(x))


def compare_some(ck, rule, name, cases, **kw):
    g = build(ck, name, cases, **kw)
    gr = Graph(g)
    marks = g.ev("mark")
    lv = [n for n in marks if n["name"] == "LEAVES"]
    names = {}
    if len(lv) == 1:
        names = dict(zip(lv[0]["args"], leaves_src()[1]))
    src = []
    todo = []
    imports = set()
    for i, (label, e, expected) in enumerate(cases):
        at = [n for n in marks if n["name"] == "CASE" and n["args"][0] is C(i)]
        if not at:
            ck.ob(rule, label, None if not names else False, f"building {label} never succeeds")
            break
        if len({n["args"] for n in at}) > 1 or not names:
            ck.ob(rule, label, None, "built in several ways")
            continue
        try:
            t = at[0]["args"][1]
            ev = Evaluator(gr, names)
            if gr.bad & {"add_edges_from", "remove_edge", "remove_node"}:
                raise Undecided("the graph is built in bulk")
            r = ev.node(t)
        except Undecided as x:
            ck.ob(rule, label, None, str(x))
            continue
        imports |= ev.imports
        src += [f"def case{i}():", *("    " + l for l in ev.lines), f"    GOT({i}, {r})", "try:", f"    case{i}()", "except Exception:", "    pass", f"WANT({i}, {expected or 0})"]
        todo.append((i, label, expected))
    pre = "".join(f"import {m}\n" for m in sorted(imports))
    g2 = ck.analyse(name + ", evaluated", pre + HEAD + VALUES + "\n".join(src) + "\n", env(GOT=sym("GOT", "mark"), WANT=sym("WANT", "mark")), rec_depth=9, max_nodes=40000)
    for i, label, expected in todo:
        res = {}
        try:
            for n, st in g2.it.marks:
                if n["args"][0] is C(i):
                    res.setdefault(n["name"], set()).add(listing(g2.it, st, n["args"][1]))
        except Undecided as x:
            ck.ob(rule, label, None, str(x))
            continue
        got, want = res.get("GOT", set()), res.get("WANT", set())
        if len(want) != 1:
            ck.ob(rule, label, None, "not evaluated")
            continue
        if expected is None:
            ck.ob(rule, label, not got, f"{label} is evaluated to {' or '.join(map(text, got))} instead of failing" if got else "evaluating it always fails")
            continue
        if not got:
            ck.ob(rule, label, False, f"{label}: evaluating the graph that is built for it always fails")
            continue
        w = next(iter(want))
        if len(got) > 1:
            ck.ob(rule, label, False if w not in got else None, f"{label}: the graph that is built evaluates to {' or '.join(map(text, got))}")
            continue
        v = next(iter(got))
        ck.ob(rule, label, v == w, f"{label}: the graph that is built evaluates to {text(v)} instead of {text(w)}" if v != w else "the graph evaluates to the same value, the same objects in it")
    return g


def run(ck):
    compare(ck, "gathered-shape", "shapes", [(f"gather({s})", f"plan.gather({s})", s) for s in SHAPES])
    compare(ck, "arguments-of-call", "calls", [(f"call(f, {a})", f"plan.call(FN2, {a})" if a else "plan.call(FN2)", f'("call", "FN2", {e})') for a, e in CALLS])
    compare(ck, "unpacked-items", "unpack", [(f"unpack({x}, {k})[{i}]", f"plan.unpack({x}, {k})[{i}]", f"I{i}") for x, k in (("two", 2), ("three", 3)) for i in range(k)] + [("unpack([n, X], 2)[0]", "plan.unpack([n, X], 2)[0]", "n"), ("unpack((X, n, Y), 3)[1]", "plan.unpack((X, n, Y), 3)[1]", "n"), ("unpack(none, 0)", "plan.gather([n, plan.unpack(none, 0)])", "[n, ()]")] + [(f"unpack({x}, {k}) of {m} items", f"plan.unpack({x}, {k})[{i}]", None) for x, k, m in (("two", 1, 2), ("two", 3, 2), ("three", 2, 3), ("three", 4, 3), ("none", 1, 0)) for i in (0, k - 1)])
    for how, tup in (("plan.gather", "%s"), ("called", '("call", "FN2", (%s,), ())'), ("named", '("call", "FN2", (), (("k", %s),))')):
        compare(ck, "arguments-as-passed", f"{how}, changed between calls", [(f"{h} container given to {how} again", f"{h}({how})", tup % e) for h, e in CHANGED], before=AGAIN)
    keys(ck)
    bound.bound(ck)
    bound.output(ck, ck.tier == "thorough")


COEXIST = [("PositionalArg(0)", "PositionalArg(1)"), ("PositionalArg(0)", "KeywordArg('a', 0)"), ("PositionalArg(1)", "KeywordArg('a', 0)"), ("KeywordArg('a', 0)", "KeywordArg('b', 1)"), ("Dependency()", "PositionalArg(0)"), ("Dependency()", "KeywordArg('a', 0)"), ("plan.lit(1)", "plan.lit(True)"), ("plan.lit(X)", "plan.lit(X)"), ("plan.lit(V)", "plan.lit(W)"), ("plan.call(FN)", "plan.call(FN)"), ("plan.call(FN, n)", "plan.call(FN, n)")]


def keys(ck):
    """two edges between the same nodes, and two nodes, are kept apart by the graph"""
    src = "import uberjob\nfrom uberjob.graph import PositionalArg, KeywordArg, Dependency\nclass Leaf:\n    pass\nX = Leaf()\nplan = uberjob.Plan()\nn = plan.call(FN)\n"
    for i, (a, b) in enumerate(COEXIST):
        src += f"a{i} = {a}\nb{i} = {b}\nif a{i} == b{i}:\n    EQUAL({i}, hash(a{i}), hash(b{i}))\nelse:\n    DIFFER({i})\n"
    g = ck.analyse("edge keys and nodes", src, env(V=sym("V", "obj"), W=sym("W", "obj"), EQUAL=sym("EQUAL", "mark"), DIFFER=sym("DIFFER", "mark")))
    for i, (a, b) in enumerate(COEXIST):
        at = [n for n in g.ev("mark") if n["args"][0] is C(i)]
        ck.need(at, "keys are not compared")
        eq = [n for n in at if n["name"] == "EQUAL" and n["args"][1] is n["args"][2]]
        ck.ob("kept-apart", f"{a} and {b}", not eq, f"{a} and {b} are equal: the graph keeps only one of them" if eq else "never equal with one hash")
