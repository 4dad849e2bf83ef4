"""What the registry transformation does to the graph around one stored node.

A plan in which one node E has a registry entry, with predecessors, argument consumers and plain dependents, is taken
through the extracted control flow between the staleness check and pruning, for every valuation of (regular/source,
out of date/up to date, Call/Literal, kinds of the outgoing edges); the resulting edges, required nodes and redirects
are compared with what the documentation asks for.
"""
import itertools

from ..terms import C, FALSE, NONE, TRUE, T, cval, is_const, mk, show, subterms
from ..walk import Unknown, Valuation, WState, walk
from .base import is_view, sym
from .stale import Families, item_of, stale_roots

OPS = ("ops",)
ENTRY = mk("sym", "ENTRY", "node")
MAPKINDS = ("ditems", "dkeys", "dvals")


def site(o):
    return o.args[0].split("@")[0] if isinstance(o, T) and o.op == "obj" else ""


def target(sc, i):
    """the successor that outgoing edge i leads to"""
    return "v0" if sc.get("same") else f"v{i}"


class InsertVal(Valuation):
    def __init__(self, g, sc, graphs, fams):
        super().__init__()
        self.g = g
        self.sc = sc
        self.graphs = graphs
        self.fams = fams
        self.canons = {}
        self.param = "NODES" if sc["reg"] == "regular" else "SRCS"
        takes = sc["reg"] == "regular" and sc["call"]
        self.asked = set()
        self.edges0 = [(f"p{i}", "E", ("k", "pred", i, "PositionalArg" if i == 0 and takes else "Dependency")) for i in range(sc["preds"])]
        self.edges0 += [("E", target(sc, i), ("k", "out", i, kind)) for i, kind in enumerate(sc["outs"])]

    # ---------------------------------------------------------------- identity
    def entry_node(self, t):
        if self.sc.get("out") and t is self.out:
            return True
        if self.sc["reg"] == "regular":
            return t.op == "elem" and t.args[0].op == "sym" and t.args[0].args[0] == "NODES"
        return t.op == "obj" and site(t) == "Call" and len(t.args[2]) == 1 and t.args[:2] in self.srcs

    def canon(self, o):
        """created objects are identified by the place that creates them; the entry they belong to is fixed"""
        if len(o.args) < 3 or not o.args[2]:
            return o
        r = self.canons.get(o)
        if r is None:
            ps = tuple(ENTRY if self.entry_node(p) or p.op == "elem" and p.args[0].op == "sym" and p.args[0].args[0] in ("NODES", "SRCS") else p for p in o.args[2])
            r = self.canons[o] = o if ps == o.args[2] else mk("obj", o.args[0], o.args[1], ps)
        return r

    def tok(self, t, st):
        """token of a node: 'E', 'p0', 'v0' or the term of a created node"""
        if self.entry_node(t):
            return "E"
        if t.op == "obj":
            return self.canon(t)
        r = self.ev(t, st)
        if len(r) != 1:
            raise Unknown
        (v,) = r
        return v

    def edges(self, st):
        es = list(self.edges0)
        for o in st.store.get(OPS, ()):
            if o[0] == "add_edge":
                es.append(o[1:4])
            elif o[0] == "remove_edge":
                es = [e for e in es if e != o[1:4]]
        return es

    def key(self, t, st):
        if t.op == "obj":
            idx = st.store.get(("attr", self.canon(t), "index"))
            name = st.store.get(("attr", self.canon(t), "name"))
            return ("new", site(t), idx, name)
        r = self.ev(t, st)
        if len(r) != 1:
            raise Unknown
        (v,) = r
        return v

    # ---------------------------------------------------------------- terms
    def leaf(self, t, st):
        o, a = t.op, t.args
        if self.entry_node(t):
            return {"E"}
        if o == "obj":
            return {self.canon(t)}
        if o in ("cls", "ext", "vtup", "spread"):
            return {t}
        if o in ("ev", "eu", "ek"):
            es = self.ev(a[0], st)
            out = set()
            for e in es:
                if not (isinstance(e, tuple) and len(e) == 4 and e[0] == "edge"):
                    raise Unknown
                out.add(e[{"eu": 1, "ev": 2, "ek": 3}[o]])
            return out
        if o == "eq" and a[0].op == "type":
            x = a[0].args[0]
            cls = a[1].args[0] if a[1].op in ("cls", "ext") else None
            if cls is None:
                raise Unknown
            return self.is_type(x, cls, st)
        if o == "isinst":
            x = a[0]
            cls = a[1].args[0] if a[1].op in ("cls", "ext") else None
            if cls is None:
                raise Unknown
            if x.op == "app":
                return {cls.endswith("ValueStore")}
            if cls.endswith("graph.Node"):
                return {self.is_node(x, st)}
            return self.is_type(x, cls, st)
        if o == "eq" and a[1] is NONE and a[0].op in ("app", "obj", "elem"):
            return {False}
        if o == "len" and (is_view(a[0]) or a[0].op == "obj" and "list" in site(a[0])):
            xs = self.items(a[0], st)
            if xs is None:
                raise Unknown
            return {len(xs)}
        if o == "eq":
            if a[0] is a[1]:
                return {True}
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            return {p == q for p in x for q in y}
        if o == "unpack" and a[0].op == "elem" and a[0].args[0].op == "ditems" and len(a) > 2:
            d = a[0].args[0].args[0]
            w = self.ev(a[0], st)
            if cval(a[1]) == 0 and all(isinstance(x, str) for x in w):
                return w
            if cval(a[1]) == 1 and self.fams.kind.get(("d", d)) == "stale" and w == {"E"}:
                return {self.sc["stale"]}
            if cval(a[1]) == 1 and len(w) == 1 and ("map", d, *w) in st.store:
                return {st.store[("map", d, *w)]}
            raise Unknown
        if o == "in":
            x, c = a
            w = self.ev(x, st)
            if ("vague", c) in st.store:
                raise Unknown
            if self.fams.kind.get(("set", c)) == "stale" and w == {"E"}:
                return {self.sc["stale"]}
            if c.op == "obj" and site(c) == "dict" and c in self.mappings:
                return {p == "E" or isinstance(p, str) and p[:1] in ("p", "v") and self.registered(p) for p in w}
            if c.op == "obj" and ("put", c) in st.store:
                return {p in st.store[("put", c)] for p in w}
            if c.op == "obj" and c in self.filled:
                return {False}
            if is_view(c) and c.args[0] == "nodes" or c.op == "obj" and c in self.graphs:
                return {True}
            if c.op == "obj" and c in self.nodekeyed:
                return {True}
            raise Unknown
        if o == "which":
            if cval(a[2]) == 0 and (a[0] in self.mappings or self.first.get(a[0])):
                first = "NODES" if a[0] in self.mappings else self.first[a[0]]
                return {(first == "NODES") == (self.sc["reg"] == "regular")}
            raise Unknown
        if o == "load":
            l = a[0]
            if l.op == "loc" and l.args[0] == "f":
                ob = l.args[1]
                if ob.op == "obj" and len(ob.args) > 2 and ob.args[2]:
                    f = ("f", ob.args[0], l.args[2])
                    if self.fams.kind.get(f) == "stale" and self.ev(ob.args[2][-1], st) == {"E"}:
                        return {self.sc["stale"]}
            if l.op == "loc" and l.args[0] == "d" and self.fams.kind.get(("d", l.args[1])) == "stale" and self.ev(l.args[2], st) == {"E"}:
                return {self.sc["stale"]}
            raise Unknown
        if o in ("dget", "item_") and len(a) >= 2 and isinstance(a[0], T) and self.fams.kind.get(("d", a[0])) == "stale" and self.ev(a[1], st) == {"E"}:
            return {self.sc["stale"]}
        if o == "truthy" and a[0].op in ("obj", "app"):
            return {True}
        if o == "truthy" and a[0].op == "elem":
            return {True}
        return None

    def is_node(self, x, st):
        if x.op == "obj":
            return site(x) in ("Call", "Literal")
        try:
            r = self.ev(x, st)
        except Unknown:
            if x.op in ("attr", "const", "app"):
                return False
            raise
        return all(isinstance(v, str) for v in r)

    def is_type(self, x, cls, st):
        name = cls.split(".")[-1]
        if x.op == "obj":
            return {site(x) == name}
        r = self.ev(x, st)
        out = set()
        for v in r:
            if v == "E":
                out.add({"Call": self.sc["call"], "Literal": not self.sc["call"]}.get(name, False))
            elif isinstance(v, tuple) and v and v[0] == "k":
                out.add(v[3] == name)
            elif isinstance(v, tuple) and v and v[0] == "new":
                out.add(v[1] == name)
            elif isinstance(v, str) and cls.startswith("builtins."):
                out.add(False)
            elif isinstance(v, str) and v[:1] in ("p", "v") and name in ("Call", "Literal"):
                out.add(self.neighbour(v) == name)
            else:
                raise Unknown
        return out

    def neighbour(self, v):
        """a neighbour of the entry that takes arguments is a call; of any other both kinds are tried when the code looks at it"""
        if any(b == v and k[3] != "Dependency" for _, b, k in self.edges0):
            return "Call"
        if v not in self.sc:
            self.asked.add(v)
        return self.sc.get(v, "Call")

    def registered(self, v):
        k = v + "r"
        if k not in self.sc:
            self.asked.add(k)
        return self.sc.get(k, "Call") == "Call"

    # ---------------------------------------------------------------- loops
    def view(self, c, st):
        k = c.args[0]
        if k == "nodes":
            return ["E"]
        if len(c.args) < 3:
            return None
        x = self.tok(c.args[2], st)
        es = self.edges(st)
        if k in ("preds", "pred"):
            return list(dict.fromkeys(u for u, v, _ in es if v == x))
        if k in ("succs", "succ"):
            return list(dict.fromkeys(v for u, v, _ in es if u == x))
        if k == "out_edges":
            return [("edge", *e) for e in es if e[0] == x]
        if k == "in_edges":
            return [("edge", *e) for e in es if e[1] == x]
        return None

    def items(self, c, st):
        try:
            if c.op in ("list_", "tuple_", "iter_"):
                c = c.args[0]
            if is_view(c):
                return self.view(c, st)
            if c.op in MAPKINDS:
                c = c.args[0]
            if c in self.graphs:
                return ["E"]
            if c in self.mappings:
                return ["E"]
            if c in self.nodekeyed or self.fams.kind.get(("d", c)) == "stale":
                return ["E"]
            if ("vague", c) in st.store:
                return None
            if self.fams.kind.get(("set", c)) == "stale":
                return ["E"] if self.sc["stale"] else []
            if c.op == "obj" and ("list", c) in st.store:
                return list(st.store[("list", c)])
            if c.op == "obj" and ("put", c) in st.store:
                return list(st.store[("put", c)])
            if c.op == "obj" and c in self.filled:
                return []
        except Unknown:
            pass
        return None

    def bind(self, n, v, st):
        val, elem = n.get("val"), n.get("elem")
        if v == "E" and self.over_registry(n):
            names = {l.args[0] for t in (val, elem) if isinstance(t, T) for l in t.leaves if l.op == "sym"}
            if self.param not in names and names & {"NODES", "SRCS"}:
                return False
            return True
        if isinstance(elem, T):
            st.env[elem] = frozenset([v])
        if isinstance(val, T) and val.op == "tup" and isinstance(v, tuple) and len(v) == len(val.args) and v[0] not in ("edge", "k", "new"):
            return self.unify(val, v, st)
        if isinstance(val, T):
            for l in val.leaves:
                if l.op == "elem" and is_view(l.args[0]) and l not in st.env:
                    st.env[l] = frozenset([v])
                elif l is elem or l.op == "elem" and is_view(l.args[0]) and l.args[0].args[0] in ("out_edges", "in_edges") and isinstance(v, tuple):
                    st.env[l] = frozenset([v])
        return True

    def unify(self, t, v, st):
        """an element of a built sequence: the parts of its description take the values they had when it was added"""
        if t.op == "tup" and isinstance(v, tuple) and len(v) == len(t.args):
            for x, y in zip(t.args, v):
                if not self.unify(x, y, st):
                    return False
            return True
        if t.op == "elem":
            st.env[t] = frozenset([v])
            return True
        try:
            return v in self.ev(t, st)
        except Unknown:
            return True

    def over_registry(self, n):
        c = n["coll"]
        while c.op in MAPKINDS + ("list_", "tuple_", "iter_"):
            c = c.args[0]
        return c in self.mappings

    # ---------------------------------------------------------------- effects
    def effect(self, n, st):
        k = n.kind
        if k in ("uexc", "fault"):
            return False
        if k == "raise":
            st.env["raised"] = True
        if k == "setattr" and n["obj"].op == "obj" and n["name"] in ("fn", "index", "name", "value"):
            v = n["val"]
            st.store[("attr", self.canon(n["obj"]), n["name"])] = cval(v) if is_const(v) else v
        if k == "cadd":
            self.put(n["obj"], n["args"][0], st)
            if len(n["args"]) == 2:
                self.map(n["obj"], n["args"], st)
        if k == "fill":
            xs = self.items(n["coll"], st)
            if xs is not None:
                st.store[("put", n["obj"])] = tuple(xs)
        if k == "snapshot":
            xs = self.items(n["coll"], st)
            if xs is not None:
                st.store[("list", n["obj"])] = tuple(xs)
                if not (is_view(n["coll"]) or n["coll"] in self.graphs):
                    st.store[("put", n["obj"])] = tuple(xs)
        if k == "mut":
            ob, op, args = n["obj"], n["op"], n["args"]
            if ob in self.graphs:
                if op in ("add_edge", "remove_edge"):
                    try:
                        u, v = self.tok(args[0], st), self.tok(args[1], st)
                        key = self.key(args[2], st) if len(args) > 2 else ("new", "?", None, None)
                    except Unknown:
                        st.unsure = True
                        return True
                    st.store[OPS] = st.store.get(OPS, ()) + ((op, u, v, key, n.id),)
                elif op == "add_node":
                    try:
                        st.store[OPS] = st.store.get(OPS, ()) + ((op, self.tok(args[0], st), n.id),)
                    except Unknown:
                        st.unsure = True
            elif op in ("add", "append", "appendleft"):
                self.put(ob, args[0], st)
            elif op == "setitem":
                self.put(ob, args[0], st)
                self.map(ob, args, st)
            elif op in ("update", "extend", "|="):
                for c in args:
                    xs = self.items(c, st)
                    if xs is None:
                        st.store[("vague", ob)] = True
                    for x in xs or ():
                        st.store[("put", ob)] = st.store.get(("put", ob), ()) + ((x,) if x not in st.store.get(("put", ob), ()) else ())
            elif op in ("discard", "remove", "clear", "difference_update", "intersection_update"):
                st.store[("vague", ob)] = True
        return True

    def put(self, ob, x, st):
        try:
            w = self.ev(x, st)
        except Unknown:
            st.store[("vague", ob)] = True
            return
        if len(w) != 1:
            st.store[("vague", ob)] = True
        else:
            st.store[("put", ob)] = st.store.get(("put", ob), ()) + tuple(y for y in w if y not in st.store.get(("put", ob), ()))

    def map(self, ob, args, st):
        try:
            w, v = self.ev(args[0], st), self.ev(args[1], st)
        except Unknown:
            return
        if len(w) == 1 and len(v) == 1:
            (w,), (v,) = w, v
            st.store[("map", ob, w)] = v


def stub_line(n):
    return n.loc[1] >= 100000


class Insert:
    """effects of the transformation for every valuation"""

    def __init__(self, ck, g, srcs):
        self.ck, self.g = ck, g
        roots = stale_roots(g)
        ck.need(roots, "no worker asks value stores for their modified times")
        self.graphs = {n["obj"] for n in g.ev("newgraph")} | {n["obj"] for n in g.ev("graphcopy")}
        objs = [t["obj"] for t in g.threads if t["name"] in roots]
        self.starts = []
        for n in g.ev("thread_join", "main"):
            if n["thread"] in objs and not self.g.bwd([n.id]) & {x for t in g.threads if t["name"] not in roots for x in t["starts"]}:
                for x in g.fwd(g.after(n), stop=lambda m: not stub_line(m)):
                    if not stub_line(g.nodes[x]):
                        self.starts.append(x)
        self.starts = list(dict.fromkeys(self.starts))
        r0 = roots[0]
        self.fams = Families(g, r0, item_of(g, r0))
        # the registry's mappings: dictionaries keyed by registered nodes
        self.mappings = set()
        self.nodekeyed = set()
        self.srcs = set()
        self.filled = {n["obj"] for n in g.ev(root="main") if n.kind == "cadd" or n.kind == "mut" and n["op"] in ("add", "append", "setitem")}
        self.out = None
        self.first = {}
        for n in g.ev(root="main"):
            if n.kind == "setattr" and n["name"] == "fn" and n["val"] is sym("FN", "callable") and n["obj"].op == "obj":
                self.out = n["obj"]
            if n.kind in ("mut", "cadd") and n.get("op", "setitem") == "setitem" and len(n["args"]) == 2:
                ps = {l.args[0].args[0] for l in n["args"][0].leaves if l.op == "elem" and l.args[0].op == "sym"}
                if len(ps) == 1:
                    self.first.setdefault(n["obj"], ps.pop())
            if n.kind == "iter" and isinstance(n.get("val"), T):
                c = n["coll"]
                while c.op in MAPKINDS + ("list_", "tuple_", "iter_"):
                    c = c.args[0]
                if c.op == "obj" and site(c) == "dict":
                    if any(l.op == "sym" and l.args[0] in ("NODES", "SRCS") for l in n["val"].leaves):
                        self.mappings.add(c)
                    elif n["val"].op in ("tup", "elem") and any(l.op == "elem" and is_view(l.args[0], "nodes") for l in n["val"].leaves):
                        self.nodekeyed.add(c)
            if n.kind == "mut" and n["op"] == "setitem" and n["obj"].op == "obj" and len(n["args"]) == 2:
                k = n["args"][0]
                if k.op == "obj" and site(k) == "Call" and "SRCS" in {l.args[0].args[0] for l in k.leaves if l.op == "elem" and l.args[0].op == "sym"} and "_registry" in n["obj"].args[0]:
                    self.srcs.add(k.args[:2])

    def stop(self, n):
        return n.kind == "iter" and n["coll"].op == "while" or n.kind == "thread_start" or n.kind == "mut" and (n["op"] in ("pop", "popleft", "popitem") or n["op"] == "remove_node" and n["obj"] in self.graphs)

    def scenarios(self):
        outs = [(), ("PositionalArg",), ("KeywordArg",), ("Dependency",), ("PositionalArg", "Dependency"), ("Dependency", "KeywordArg")]
        for reg in ("regular", "source"):
            for stale in (True, False):
                for call in (True, False) if reg == "regular" else (True,):
                    for preds in (0, 1, 2):
                        for o in outs:
                            for out in (False, True) if call else (False,):
                                yield {"reg": reg, "stale": stale, "call": call, "preds": preds, "outs": o, "out": out}
                    # several edges to one successor
                    for o in itertools.product(("PositionalArg", "KeywordArg", "Dependency"), repeat=2):
                        if o != ("Dependency", "Dependency"):
                            yield {"reg": reg, "stale": stale, "call": call, "preds": 1, "outs": o, "out": False, "same": True}

    def run(self):
        out = []
        work = list(self.scenarios())
        work.reverse()
        while work:
            sc = work.pop()
            val = InsertVal(self.g, sc, self.graphs, self.fams)
            val.mappings, val.nodekeyed, val.srcs, val.filled, val.out, val.first = self.mappings, self.nodekeyed, self.srcs, self.filled, self.out, self.first
            ends = []
            for s in self.starts:
                ends += walk(self.g, s, val, stop=self.stop)
            # the error path of the staleness check is not part of the transformation
            ends = [(n, s) for n, s in ends if not (n is not None and n.kind == "end") and not s.env.get("raised")]
            for q in sorted(val.asked):
                work.append({**sc, q: "Literal"})
                sc[q] = "Call"
            out.append((sc, val, ends))
        self.ck.stats["valuations"] += len(out)
        return out


def describe(sc):
    return (
        f"{'out of date' if sc['stale'] else 'up to date'} {'stored' if sc['reg'] == 'regular' else 'source'} {'Call' if sc['call'] else 'Literal'} "
        f"with {sc['preds']} predecessors and outgoing edges [{', '.join(sc['outs'])}]{' to one successor' if sc.get('same') else ''}"
        + "".join(f", {'predecessor' if k[0] == 'p' else 'successor'} {k[1:]} a {v}" for k, v in sorted(sc.items()) if k[1:].isdigit())
        + "".join(f", {'predecessor' if k[0] == 'p' else 'successor'} {k[1:-1]} {'with' if v == 'Call' else 'without'} a store" for k, v in sorted(sc.items()) if k[-1] == "r" and k[1:-1].isdigit())
    )


class Spec:
    """compares the effects with the documentation; collects the first disagreement per rule and kind of entry"""

    RULES = (
        "one-read-node", "write-when-stale", "no-write-when-fresh", "write-gets-value", "read-after-write", "consumers-read",
        "dependents-after-write", "up-to-date-cut", "no-needless-read", "source-barrier", "source-not-called", "output-redirected", "others-not-required",
        "argument-edges",
    )

    def __init__(self, ck, g, ins):
        self.ck, self.g, self.ins = ck, g, ins
        self.bad = {}
        self.good = {}
        self.undecided = {}

    def note(self, rule, sc, ok, st, detail):
        key = (rule, sc["reg"], sc["stale"])
        if ok is None:
            self.undecided.setdefault(key, (sc, detail))
        elif ok:
            self.good[key] = self.good.get(key, 0) + 1
        else:
            self.bad.setdefault(key, (sc, st, detail))

    def run(self):
        for sc, val, ends in self.ins.run():
            if not ends:
                for r in self.RULES:
                    self.note(r, sc, None, None, "no path through the transformation found")
            for n, st in ends:
                if n is None or st.unsure:
                    for r in self.RULES:
                        self.note(r, sc, None, None, "guards not determined")
                    continue
                self.judge(sc, val, n, st)
        return self

    def calls(self, st, name, val, sc):
        """created calls of the store's method `name`: (node, unbound?)"""
        out = []
        for o in st.store.get(OPS, ()):
            if o[0] == "add_node" and site(o[1]) == "Call":
                fn = st.store.get(("attr", o[1], "fn"))
                if isinstance(fn, T) and fn.op == "attr" and fn.args[1] == name:
                    b = fn.args[0]
                    if b.op == "type" and self.own_store(b.args[0], sc, val, st):
                        out.append((o[1], True))
                    elif self.own_store(b, sc, val, st):
                        out.append((o[1], False))
        return list(dict.fromkeys(out))

    def own_store(self, t, sc, val, st):
        if t.op != "app":
            return False
        if sc["reg"] == "regular":
            return t.args[0].args[0] == "STORE" if isinstance(t.args[0], T) else t.args[0] == "STORE"
        return (t.args[0].args[0] if isinstance(t.args[0], T) else t.args[0]) == "STORE2"

    def judge(self, sc, val, n, st):
        es = val.edges(st)
        note = lambda r, ok, d="": self.note(r, sc, ok, st, d)
        succ = {}
        for u, v, _ in es:
            succ.setdefault(u, []).append(v)

        def reach(a, b):
            seen, work = set(), [a]
            while work:
                x = work.pop()
                for y in succ.get(x, ()):
                    if y == b:
                        return True
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            return False

        reads = self.calls(st, "read", val, sc)
        writes = self.calls(st, "write", val, sc)
        others = [o[1] for o in st.store.get(OPS, ()) if o[0] == "add_node" and site(o[1]) == "Call" and o[1] not in [x for x, _ in reads + writes]]
        note("one-read-node", None if others else len(reads) == 1, f"{len(reads)} calls of the store's read are added")
        R = reads[0][0] if len(reads) == 1 else None
        need_write = sc["stale"] and sc["reg"] == "regular"
        W = writes[0][0] if len(writes) == 1 else None
        worklists = {m["obj"] for m in self.g.ev("mut", "main") if m["op"] in ("pop", "popleft", "popitem") and m.stack == n.stack}
        seeds = None
        for w in worklists:
            if ("put", w) in st.store:
                seeds = (seeds or ()) + st.store[("put", w)]
            elif w in self.ins.filled and seeds is None:
                seeds = ()
        if ("vague",) in {k[:1] for k in st.store}:
            seeds = None
        if need_write:
            note("write-when-stale", None if others and not writes else len(writes) == 1 and (W in seeds if seeds is not None else None) if writes or not others else None,
                 "no call of the store's write is added" if not writes else f"{len(writes)} calls of write are added" if len(writes) > 1 else "the write is not among the required nodes")
        else:
            note("no-write-when-fresh", not writes, "a call of the store's write is added")
        # arguments of the new calls
        for node, unbound in reads + writes:
            args = [(u, k) for u, v, k in es if v is node and k[1] in ("PositionalArg", "KeywordArg")]
            want = {}
            i = 0
            if unbound:
                want[0] = "store"
                i = 1
            if (node, unbound) in writes:
                want[i] = "E"
            got = {}
            odd = False
            for u, k in args:
                if k[1] != "PositionalArg" or type(k[2]) is not int:
                    odd = True
                    continue
                if isinstance(u, T) and site(u) == "Literal":
                    v = st.store.get(("attr", u, "value"))
                    got[k[2]] = "store" if isinstance(v, T) and self.own_store(v, sc, val, st) else "other"
                else:
                    got[k[2]] = u
            rule = "write-gets-value" if (node, unbound) in writes else "argument-edges"
            note(rule, None if odd else got == want, f"arguments of the {'write' if (node, unbound) in writes else 'read'}: {got}, expected {want}")
        if R is not None and W is not None:
            note("read-after-write", reach(W, R), "the read is not ordered after the write")
        created = {o[1] for o in st.store.get(OPS, ()) if o[0] == "add_node"}
        for i, kind in enumerate(sc["outs"]):
            v = target(sc, i)
            key = ("k", "out", i, kind)
            ins = [(a, k) for a, b, k in es if b == v]
            if kind in ("PositionalArg", "KeywordArg"):
                if R is not None:
                    ok = (R, key) in ins and not any(k == key and a is not R for a, k in ins)
                    note("consumers-read", ok, f"a consumer of the value by {kind} gets {[show(a, 1) if isinstance(a, T) else a for a, k in ins if k == key]} instead of the read")
            else:
                if sc["stale"]:
                    if need_write and W is not None:
                        note("dependents-after-write", reach(W, v), "a plain dependent is not ordered after the write")
                    if sc["reg"] == "source":
                        for p in range(sc["preds"]):
                            note("source-barrier", reach(f"p{p}", v), "a plain dependent of an out of date source is not ordered after what the source depends on")
                extra = R is not None and any(a is R for a, k in ins) and not (sc.get("same") and set(sc["outs"]) != {"Dependency"})
                note("no-needless-read", not extra, "a plain dependent makes the stored value be read")
            if not need_write:
                left = any(a == "E" for a, k in ins)
                note("up-to-date-cut" if sc["reg"] == "regular" else "source-not-called", not left, f"{v} still depends on the original node ({kind})")
        if sc["reg"] == "source" and sc["stale"] and R is not None:
            for p in range(sc["preds"]):
                note("source-barrier", reach(f"p{p}", R), "the read of an out of date source is not ordered after what the source depends on")
                if seeds is not None:
                    note("write-when-stale", any(x == f"p{p}" or reach(f"p{p}", x) for x in seeds), "what an out of date source depends on is not required")
        if not need_write:
            fromE = [b for a, b, k in es if a == "E"]
            note("up-to-date-cut" if sc["reg"] == "regular" else "source-not-called", not fromE or all(isinstance(b, str) for b in fromE), "the original node is an argument of an added call")
        if not sc["stale"] and R is not None:
            note("up-to-date-cut", not any(reach(f"p{p}", R) for p in range(sc["preds"])), "reading an up to date value makes its upstream calls run")
        if seeds is None:
            for r in ("output-redirected", "others-not-required"):
                note(r, None, None, )
        elif sc.get("out"):
            foreign = [x for x in seeds if isinstance(x, T) and x not in created and x is not val.out]
            note("output-redirected", None if foreign else None if R is None else R in seeds and not ("E" in seeds), "the requested output is not taken from the read" if R not in seeds else "the original node is required although its value is read")
        else:
            allowed = {W} | created - {R}
            odd = [x for x in seeds if x == "E" and not need_write or x is R or isinstance(x, str) and x != "E" and x[0] in "v"]
            note("others-not-required", not odd, f"{'the read' if R in odd else odd} is required although nothing asks for it")

    def report(self, rules):
        ck, g = self.ck, self.g
        for rule in rules:
            for reg in ("regular", "source"):
                for stale in (True, False):
                    key = (rule, reg, stale)
                    where = f"{'out of date' if stale else 'up to date'} {reg} entry"
                    if key in self.bad:
                        sc, st, d = self.bad[key]
                        ids = [o[-1] for o in st.store.get(OPS, ())]
                        at = g.at(ids[-1]) if ids else where
                        trail = st.trail[-1:] and g.show_path(st.trail[-14:])
                        ck.ob(rule, at, False, f"{describe(sc)}: {d}; guards " + (trail or ""))
                    elif key in self.undecided:
                        sc, d = self.undecided[key]
                        ck.ob(rule, where, None, f"{d}: {describe(sc)}")
                    elif key in self.good:
                        ck.ob(rule, where, True, f"holds for {self.good[key]} valuations")
