"""The decision table of the staleness check, extracted from the function that the engine applies to every node.

For every valuation of (own modified time, modified times and flags of the predecessors, fresh_time, kind of entry) the
branches consistent with it are followed and the recorded flag and modified time are compared with the specification.
"""
import itertools

from ..terms import C, FALSE, NONE, TRUE, T, cval, is_const, mk, show, subterms
from ..walk import Unknown, Valuation, WState, walk
from .base import is_view, sym
from . import clients

SUCCS = ("succs", "succ", "out_edges")
PREDS = ("preds", "pred", "in_edges")
FRESH = sym("FRESH", "dt")


def stale_roots(g):
    """the worker roots that apply the staleness check: those that ask stores for their modified times"""
    return [t for t in g.workers() if any(is_mtime(n["fn"]) for n in g.ev("ucall", t))]


def is_mtime(fn):
    return fn.op == "attr" and fn.args[1] == "get_modified_time"


def item_of(g, root):
    """the node the worker root got from the queue: the argument of the processed function"""
    gets = list(dict.fromkeys(n["item"] for n in g.ev("mut", root, op="q_get"))) if False else None
    vals = [n.get("item") for n in g.ev(root=root) if n.kind == "mut" and n["op"] == "q_get" and n.get("item") is not None]
    if vals:
        return vals[0]
    for n in g.ev("assume", root):
        for t in subterms(n["atom"]):
            if t.op == "item":
                return t
    return None


class Families:
    """storage in which the check records its results: per node key, written by the worker"""

    def __init__(self, g, root, item):
        self.g = g
        self.root = root
        self.item = item
        self.kind = {}  # family -> "stale" | "mtime"
        self.default = {}
        writes = {}
        for n in g.ev(root=root):
            f, v = self.write(n)
            if f is not None:
                writes.setdefault(f, []).append((n, v))
        self.writes = writes
        for f, ws in writes.items():
            vals = [v for _, v in ws]
            if all(is_const(v) and type(cval(v)) is bool for v in vals) or f[0] in ("set",):
                self.kind[f] = "stale"
            elif any(self.timely(v) for v in vals) and all(self.timely(v) or v is NONE for v in vals):
                self.kind[f] = "mtime"
        # initial values
        for n in g.ev(root="main"):
            f, v = self.write(n, main=True)
            if f in self.kind:
                self.default.setdefault(f, set()).add(v)

    def timely(self, v):
        return any(t.op in ("res", "maxof", "max", "load", "astz", "dtreplace") for t in subterms(v))

    def fam(self, o):
        """family of an object that belongs to one node"""
        if o.op == "obj" and len(o.args) > 2 and o.args[2]:
            return ("obj", o.args[0])
        return None

    def key(self, o):
        return o.args[2][-1] if o.op == "obj" and len(o.args) > 2 and o.args[2] else None

    def write(self, n, main=False):
        if n.kind == "setattr" and n["obj"].op == "obj":
            k = self.key(n["obj"])
            if k is not None and (main or k is self.item):
                return ("f", n["obj"].args[0], n["name"]), n["val"]
        if n.kind == "mut" and n["op"] in ("setitem", "set", "__setitem__") and len(n["args"]) == 2 and n["obj"].op == "obj":
            if main or n["args"][0] is self.item:
                return ("d", n["obj"]), n["args"][1]
        if n.kind == "mut" and n["op"] == "add" and n["obj"].op == "obj" and n["args"][0] is self.item and n.get("shared"):
            return ("set", n["obj"]), TRUE
        return None, None

    def initial(self, f):
        vs = self.default.get(f)
        if not vs:
            return {False} if self.kind[f] == "stale" else {None}
        out = set()
        for v in vs:
            if not is_const(v):
                return None
            out.add(cval(v))
        return out


class StaleVal(Valuation):
    def __init__(self, fams, item, sc):
        super().__init__()
        self.f = fams
        self.item = item
        self.sc = sc
        self.asked = set()

    def who(self, x, st):
        """'item' or the index of a predecessor that a term denotes"""
        if x is self.item:
            return "item"
        v = st.env.get(x)
        if v and len(v) == 1:
            (v,) = v
            if isinstance(v, tuple) and v[0] == "pred":
                return v[1]
        elif v and all(isinstance(y, tuple) and y[0] == "pred" for y in v):
            return frozenset(y[1] for y in v)
        if x.op in ("eu", "item_") and x.args and (x.args[0] in st.env):
            return self.who(x.args[0], st)
        if x.op == "old" and x.args[0].op != "elem":
            return self.who(x.args[0], st)
        return None

    def of(self, f, w, st):
        kind = self.f.kind.get(f)
        if kind is None:
            raise Unknown
        if w == "item":
            if f in st.store:
                return set(st.store[f])
            r = self.f.initial(f)
            if r is None:
                raise Unknown
            return r
        if type(w) is int:
            w = (w,)
        if type(w) in (tuple, frozenset):
            return {self.sc["preds"][i][kind != "stale"] for i in w}
        raise Unknown

    def leaf(self, t, st):
        o, a = t.op, t.args
        sc = self.sc
        if o in ("astz", "dtreplace"):
            return self.ev(a[0], st)
        if t is FRESH:
            return {sc["fresh"]}
        if o == "res" and is_mtime(a[1]):
            if st.env.get("nomtime"):
                raise Unknown
            return {sc["own"]}
        if o == "load":
            l = a[0]
            if l.op == "loc" and l.args[0] == "f":
                ob = l.args[1]
                k = self.f.key(ob)
                if k is not None:
                    return self.of(("f", ob.args[0], l.args[2]), self.who(k, st), st)
            if l.op == "loc" and l.args[0] == "d":
                return self.of(("d", l.args[1]), self.who(l.args[2], st), st)
            raise Unknown
        if o in ("dget", "item_") and len(a) >= 2 and isinstance(a[0], T) and ("d", a[0]) in self.f.kind:
            return self.of(("d", a[0]), self.who(a[1], st), st)
        if o == "in":
            x, c = a
            w = self.who(x, st)
            if w is None:
                raise Unknown
            if ("set", c) in self.f.kind:
                return self.of(("set", c), w, st)
            if self.is_mapping(c):
                if w == "item":
                    return {sc["reg"] is not None}
                return {self.ask("predreg")}
            if is_view(c) or c.op == "obj" and c.args[0].startswith(("dict@", "graph@")):
                # every node of the plan has an entry
                return {True}
            raise Unknown
        if o == "which":
            if a[1] is self.item and self.is_mapping(a[0]):
                return {(cval(a[2]) == 0) == (sc["reg"] == "regular")}
            raise Unknown
        if o == "eu":
            return self.ev(a[0], st)
        if o in ("eq", "isinst") and self.edge_kind(a[0] if o == "isinst" else a[0].args[0] if a[0].op == "type" else None, st):
            n = a[1].args[0] if a[1].op in ("cls", "ext") else ""
            k = n.split(".")[-1]
            if k in ("Dependency", "PositionalArg", "KeywordArg"):
                have = "PositionalArg" if self.ask("argedges") else "Dependency"
                return {have == k or o == "isinst" and k == "Dependency"}
            raise Unknown
        if o == "eq" and a[0].op == "type" and a[0].args[0] is self.item:
            if a[1].op in ("cls", "ext") and a[1].args[0].endswith("graph.Call"):
                return {sc["call"]}
            if a[1].op in ("cls", "ext") and a[1].args[0].endswith("graph.Literal"):
                return {not sc["call"]}
            raise Unknown
        if o == "isinst" and a[0] is self.item:
            n = a[1].args[0] if a[1].op in ("cls", "ext") else ""
            if n.endswith("graph.Call"):
                return {sc["call"]}
            if n.endswith("graph.Literal"):
                return {not sc["call"]}
            raise Unknown
        tested = a[0].args[0] if o == "eq" and a[0].op == "type" else a[0] if o == "isinst" else None
        if tested is not None and a[1].op in ("cls", "ext"):
            n = a[1].args[0]
            if n.endswith(("graph.Call", "graph.Literal")) and isinstance(self.who(tested, st), (int, frozenset, tuple)):
                return {self.ask("predcall") == n.endswith("Call")}
            if n.endswith("graph.Node") and o == "isinst":
                return {True}
        if o == "eq" and a[1] is NONE and a[0].op == "app":
            return {False}
        if o == "truthy" and a[0].op in ("app", "obj"):
            return {True} if a[0].op == "app" else None
        if o == "len" and is_view(a[0]) and a[0].args[0] in PREDS and self.item in a[0].args:
            return {len(sc["preds"])}
        if o == "len" and is_view(a[0]) and a[0].args[0] in SUCCS and self.item in a[0].args:
            return {2 if self.ask("succ") else 0}
        return None

    def edge_kind(self, t, st):
        """the term is the kind of an edge from a predecessor"""
        return isinstance(t, T) and t.op == "ek" and bool(st.env.get(t.args[0]))

    def ask(self, what):
        """a fact about all predecessors; both values are tried when the check looks at it"""
        if what in self.sc:
            return self.sc[what]
        self.asked.add(what)
        return True

    def is_mapping(self, c):
        return c.op == "obj" and "_registry" in c.args[0] and c.args[0].startswith("dict@")

    def domain(self, p, st):
        xs = self.items(p.args[0], st) if p.op == "elem" else None
        if xs is None:
            raise Unknown
        return xs

    def items(self, coll, st):
        if coll.op in ("list_", "iter_", "tuple_"):
            coll = coll.args[0]
        if is_view(coll) and coll.args[0] in PREDS and self.item in coll.args:
            return [("pred", i) for i in range(len(self.sc["preds"]))]
        return None

    def bind(self, n, v, st):
        for k in ("elem", "val"):
            t = n.get(k)
            if isinstance(t, T) and t.op in ("elem", "eu", "item_"):
                st.env[t] = frozenset([v])

    def effect(self, n, st):
        if n.kind in ("uexc", "fault"):
            return False
        if n.kind == "end" and n.get("how") == "raise":
            st.env["raised"] = True
        f, v = self.f.write(n)
        if f is not None and f in self.f.kind:
            try:
                r = self.ev(v, st)
            except Unknown:
                r = None
            if r is None or len(r) != 1:
                st.unsure = True
                r = r or {("?",)}
            st.store[f] = frozenset(r)
            st.env[("at", f)] = n.id
        return True


def spec(sc):
    """(stale, modified time) that the documentation asks for"""
    if any(s for s, _ in sc["preds"]):
        return True, None
    anc = max((m for _, m in sc["preds"] if m is not None), default=None)
    if sc["reg"] is None:
        return False, anc
    own = sc["own"]
    if own is None:
        return True, None
    if sc["reg"] == "regular" or anc is not None:
        if max(x for x in (own, anc, sc["fresh"]) if x is not None) > own:
            return True, None
    return False, own


def scenarios(tier, given):
    freshes = (2, 3, 4) if given else (None,)
    S = (True, None)
    preds = [(), (S,), ((False, None),), ((False, 1),), ((False, 3),), ((False, 5),)]
    two = [S, (False, None), (False, 1), (False, 3), (False, 5)]
    preds += [p for p in itertools.product(two, repeat=2)]
    if tier == "thorough":
        preds += [p for p in itertools.product(two, repeat=3)]
    for reg in (None, "regular", "source"):
        for ps in preds:
            for own in (None, 3) if reg else (None,):
                for fresh in freshes:
                    for call in (True, False) if reg != "source" else (True,):
                        if fresh is not None and reg is None and fresh != 4:
                            continue
                        yield {"reg": reg, "preds": ps, "own": own, "fresh": fresh, "call": call}


def describe(sc):
    ps = ["out of date" if s else f"time {m}" if m is not None else "no stored ancestor" for s, m in sc["preds"]]
    kind = {"regular": "stored value", "source": "source", None: "node without store"}[sc["reg"]]
    if "predreg" in sc:
        ps.append("with stores" if sc["predreg"] else "without stores")
    if "succ" in sc:
        ps.append("has successors" if sc["succ"] else "no successors")
    if "predcall" in sc:
        ps.append("calls" if sc["predcall"] else "literals")
    if "argedges" in sc:
        ps.append("passed as arguments" if sc["argedges"] else "plain dependencies")
    return f"{kind} ({'Call' if sc['call'] else 'Literal'}) with own time {sc['own']}, predecessors [{', '.join(ps)}], fresh_time {sc['fresh']}"


def tables(ck, g, given):
    roots = stale_roots(g)
    ck.need(roots, "no worker asks value stores for their modified times")
    return [Stale(ck, g, given, r).table() for r in roots]


class Stale:
    def __init__(self, ck, g, given, root):
        self.ck, self.g, self.given = ck, g, given
        self.root = root
        self.item = item_of(g, self.root)
        self.fams = Families(g, self.root, self.item)
        self.rows = []

    def table(self):
        ck, g = self.ck, self.g
        kinds = set(self.fams.kind.values())
        if self.item is None or "stale" not in kinds:
            ck.ob("stale-table", self.root, None, "where the check records its result was not understood")
            return self
        start = g.root_of(self.root)
        sf = [f for f, k in self.fams.kind.items() if k == "stale"]
        mf = [f for f, k in self.fams.kind.items() if k == "mtime"]
        work = list(scenarios(ck.tier, self.given))
        work.reverse()
        while work:
            sc = work.pop()
            val = StaleVal(self.fams, self.item, sc)
            ends = walk(g, start, val)
            asked = sorted(q for q in val.asked if sc["preds"] or q == "succ")
            if asked:
                for q in asked:
                    work.append({**sc, q: False})
                    sc = {**sc, q: True}
                if val.asked and sc.get("predreg") and (False, None) in sc["preds"]:
                    # an up to date predecessor with a store has a modified time
                    continue
            want = spec(sc)
            got = []
            sure = [s for _, s in ends if not s.unsure]
            for n, s in ends:
                if n is None or s.unsure:
                    got.append((None, s))
                    continue
                if s.env.get("raised"):
                    got.append(("raised", s))
                    continue
                try:
                    sv = self.value(val, sf, s)
                    mv = self.value(val, mf, s) if mf else None
                except Unknown:
                    got.append((None, s))
                    continue
                got.append(((sv, mv), s))
            self.rows.append((sc, want, got))
        ck.stats["valuations"] += len(self.rows)
        return self

    def value(self, val, fs, s):
        out = []
        for f in fs:
            r = val.of(f, "item", s)
            if len(r) != 1:
                raise Unknown
            (v,) = r
            if v == ("?",):
                raise Unknown
            out.append(v)
        if self.fams.kind[fs[0]] == "stale":
            return any(out)
        xs = [x for x in out if x is not None]
        return max(xs) if xs else None

    def report(self, aspect):
        """aspect: 'missed' (out of date value not flagged), 'spurious' (up to date value flagged), 'time', 'ends'"""
        ck, g = self.ck, self.g
        bad = {}
        undecided = {}
        good = {}
        for sc, want, got in self.rows:
            kind = sc["reg"] or "unregistered"
            if not got:
                undecided.setdefault(kind, sc)
                continue
            if sc.get("succ") is False and (aspect == "time" or sc["reg"] is None and aspect != "ends"):
                continue  # nothing looks at what is recorded
            for r, s in got:
                if r is None:
                    undecided.setdefault(kind, sc)
                    continue
                if r == "raised":
                    if aspect == "ends":
                        bad.setdefault(kind, (sc, s, "the check raises an error"))
                    continue
                sv, mv = r
                if aspect == "missed" and want[0] and not sv:
                    bad.setdefault(kind, (sc, s, "is not flagged as out of date"))
                elif aspect == "spurious" and sv and not want[0]:
                    bad.setdefault(kind, (sc, s, "is flagged as out of date"))
                elif aspect == "time" and not want[0] and not sv and mv != want[1]:
                    bad.setdefault(kind, (sc, s, f"passes on the modified time {mv}, not {want[1]}"))
                else:
                    good[kind] = good.get(kind, 0) + 1
        for kind in ("regular", "source", "unregistered"):
            n = good.get(kind, 0)
            where = f"{self.g.name}:{self.root}:{kind}"
            if kind in bad:
                sc, s, what = bad[kind]
                ids = [x for x in s.trail]
                at = g.at(ids[-1]) if ids else where
                ck.ob("stale-" + aspect, at, False, f"{describe(sc)} {what}: " + g.show_path(ids))
            elif kind in undecided:
                ck.ob("stale-" + aspect, where, None, "guards not determined for: " + describe(undecided[kind]))
            else:
                ck.ob("stale-" + aspect, where, True, f"{n} valuations agree with the specification")
