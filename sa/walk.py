"""Path-sensitive walks over the event graph under a finite valuation of the predicates its guards test.

A valuation assigns small values (ranks for times, flags, kinds) to the inputs of one activation of a function; the
walk follows only the branches whose guards are consistent with it and reports the effects that are reached.  A guard
the valuation does not determine is followed both ways and marks the walk as unsure.
"""
from .terms import C, NONE, T, cval, is_const, mk, subterms


class Unknown(Exception):
    pass


def many(*sets):
    out = [()]
    for s in sets:
        out = [o + (v,) for o in out for v in s]
        if len(out) > 64:
            raise Unknown
    return out


class Valuation:
    """base class: maps terms to sets of possible values"""

    def __init__(self):
        self.memo = {}

    def leaf(self, t, st):
        """values of a term the valuation knows, or None"""
        return None

    def ev(self, t, st):
        r = self.leaf(t, st)
        if r is not None:
            return r
        if t in st.env:
            return st.env[t]
        o, a = t.op, t.args
        if o == "const":
            return {cval(t)}
        if o == "old":
            if a[0].op == "elem":
                raise Unknown
            return self.ev(a[0], st)
        if o == "phi":
            out = set()
            for x in a:
                out |= self.ev(x, st)
            return out
        if o in ("eq", "is"):
            return {x == y and type(x) is type(y) or x is y for x, y in many(self.ev(a[0], st), self.ev(a[1], st))}
        if o in ("lt", "le", "gt", "ge"):
            f = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[o]
            try:
                return {f(x, y) for x, y in many(self.ev(a[0], st), self.ev(a[1], st))}
            except TypeError:
                raise Unknown
        if o in ("add", "sub"):
            try:
                return {x + y if o == "add" else x - y for x, y in many(self.ev(a[0], st), self.ev(a[1], st))}
            except TypeError:
                raise Unknown
        if o in ("truthy", "bool"):
            return {self.truth(x) for x in self.ev(a[0], st)}
        if o == "not":
            return {not self.truth(x) for x in self.ev(a[0], st)}
        if o in ("and", "or"):
            return {(all if o == "and" else any)(map(self.truth, xs)) for xs in many(*(self.ev(x, st) for x in a))}
        if o == "fact":
            return {self.truth(x) == a[1] for x in self.ev(a[0], st)}
        if o in ("max", "min"):
            try:
                return {(max if o == "max" else min)(xs) for xs in many(*(self.ev(x, st) for x in a))}
            except TypeError:
                raise Unknown
        if o in ("maxof", "minof"):
            out = set()
            for xs in self.bag(a, st):
                if xs:
                    try:
                        out.add((max if o == "maxof" else min)(xs))
                    except TypeError:
                        raise Unknown
            if not out:
                raise Unknown
            return out
        if o == "len" and a[0].op == "bag":
            return {len(xs) for xs in self.bag(a[0].args, st)}
        if o == "bag":
            return {tuple(xs) for xs in self.bag(a, st)}
        if o == "tup":
            return set(many(*(self.ev(x, st) for x in a)))
        raise Unknown

    def truth(self, x):
        return True if isinstance(x, tuple) and x and x[0] == "time" else bool(x)

    def domain(self, param, st):
        """possible values of a bound element"""
        raise Unknown

    def bag(self, args, st):
        """the possible multisets a container description stands for (each a list)"""
        base, ents = args[0], args[1:]
        outs = [[]]
        if base is not NONE and not (is_const(base) and cval(base) is None):
            raise Unknown
        for e in ents:
            val, params, facts = e.args
            envs = [dict(st.env)]
            for p in params:
                envs = [{**en, p: {v}} for en in envs for v in self.domain(p, st)]
                # iteration
            for en in envs:
                st2 = st.with_env(en)
                keep = {True}
                for f in facts:
                    if keep == {False}:
                        break
                    r = self.ev(f, st2)
                    keep = {k and b for k in keep for b in r}
                if keep == {False}:
                    continue
                vals = self.ev(val, st2)
                new = []
                for o in outs:
                    if False in keep:
                        new.append(o)
                    for v in vals:
                        new.append(o + [v])
                outs = new
                if len(outs) > 64:
                    raise Unknown
        return outs

    # hooks --------------------------------------------------------------
    def items(self, coll, st):
        """concrete elements of a collection that a loop iterates, or None"""
        return None

    def effect(self, n, st):
        """updates the state with an event; False ends this walk"""
        return True


class WState:
    __slots__ = ("env", "loops", "store", "unsure", "trail")

    def __init__(self, env=None, loops=None, store=None, unsure=False, trail=()):
        self.env = env or {}
        self.loops = loops or {}
        self.store = store or {}
        self.unsure = unsure
        self.trail = trail

    def copy(self):
        return WState(dict(self.env), dict(self.loops), dict(self.store), self.unsure, self.trail)

    def with_env(self, env):
        return WState(env, self.loops, self.store, self.unsure, self.trail)


def shift(n, s):
    """the element of a finished iteration becomes one of the earlier ones"""
    lid = n["loop"]
    for k in [k for k in s.env if isinstance(k, T) and k.op == "elem" and lid in k.args]:
        o = mk("old", k)
        s.env[o] = frozenset(s.env.pop(k)) | s.env.get(o, frozenset())


def freeze(d):
    return frozenset((k, frozenset(v) if isinstance(v, (set, frozenset)) else v) for k, v in d.items())


def unrolled(g, n):
    """exit of a loop over a known sequence, whose iterations are laid out one after the other"""
    if not hasattr(g, "_loops"):
        g._loops = {}
        for m in g.nodes[g.base:]:
            if m.kind == "loophead":
                g._loops[m["loop"]] = True
    return n["loop"] not in g._loops


def walk(g, start, val, st=None, limit=4000, stop=lambda n: False):
    """all ends (event or None, state) of the walks from the event `start` that agree with the valuation"""
    work = [(start, st or WState())]
    seen = set()
    ends = []
    steps = 0
    while work:
        x, s = work.pop()
        steps += 1
        if steps > limit:
            s.unsure = True
            ends.append((None, s))
            return ends
        n = g.nodes[x]
        k = n.kind
        if stop(n):
            ends.append((n, s))
            continue
        if k == "assume":
            try:
                vs = {val.truth(v) for v in val.ev(n["atom"], s)}
            except Unknown:
                vs = {True, False}
            if n["val"] not in vs:
                continue
            if len(vs) > 1:
                s = s.copy()
                s.unsure = True
            if s.trail is not None:
                s = s.copy() if not s.trail or s.trail[-1] != (x,) else s
                s.trail = s.trail[-40:] + (x,)
        elif k == "iter" and n.get("index") is not None or k == "loopexit" and unrolled(g, n):
            pass
        elif k == "iter":
            it = n["coll"]
            cur = s.loops.get(n["loop"])
            if cur is None:
                xs = val.items(it, s)
                s = s.copy()
                if xs is None:
                    s.unsure = True
                    if s.loops.get(("n", n["loop"]), 0) >= 2:
                        continue
                    s.loops[("n", n["loop"])] = s.loops.get(("n", n["loop"]), 0) + 1
                else:
                    if not xs:
                        continue
                    s.loops[n["loop"]] = (tuple(xs), 1)
                    if val.bind(n, xs[0], s) is False:
                        continue
            else:
                xs, i = cur
                if i >= len(xs):
                    continue
                s = s.copy()
                shift(n, s)
                s.loops[n["loop"]] = (xs, i + 1)
                if val.bind(n, xs[i], s) is False:
                    continue
        elif k == "loopexit":
            cur = s.loops.get(n["loop"])
            if cur is None:
                xs = val.items(n["coll"], s) if n.get("coll") is not None else None
                if xs:
                    continue
                s = s.copy()
                if xs is None:
                    s.unsure = True
                s.loops.pop(("n", n["loop"]), None)
            else:
                if cur[1] < len(cur[0]):
                    continue
                s = s.copy()
                shift(n, s)
                s.loops.pop(n["loop"])
        s2 = s.copy()
        if not val.effect(n, s2):
            continue
        s = s2
        key = (x, freeze(s.env), freeze(s.loops), freeze(s.store), s.unsure)
        if key in seen:
            continue
        seen.add(key)
        ys = g.succ.get(x, ())
        if not ys:
            if k == "assume":
                # the interpreter follows this branch no further
                s = s.copy()
                s.unsure = True
            ends.append((n, s))
            continue
        for y in ys:
            work.append((y, s))
    return ends
