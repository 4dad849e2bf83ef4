"""Abstract state, heap records, event graph and condition reasoning."""
from .terms import C, FALSE, NONE, TRUE, T, cval, is_const, mk, old, subst

CONTAINERS = ("list", "set", "dict", "deque", "counter")


class Entry:
    """one (possibly summarised) element of a container.

    params: bound loop elements (the entry stands for every value of them);
    facts: what was known about the params when the entry was inserted."""

    __slots__ = ("key", "val", "params", "facts", "h")

    def __init__(self, key, val, params=(), facts=()):
        self.key = key
        self.val = val
        self.params = params
        self.facts = tuple(sorted(facts, key=lambda f: (f[0].h, f[1]))) if facts else ()
        self.h = hash((key, val, params, self.facts))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return (
            self.h == o.h
            and self.key is o.key
            and self.val is o.val
            and self.params == o.params
            and self.facts == o.facts
        )

    def __repr__(self):
        return f"Entry({self.key}->{self.val} params={self.params} facts={self.facts})"

    def inst(self, m):
        """instantiate params"""
        memo = {}
        return (
            subst(self.key, m, memo) if self.key is not None else None,
            subst(self.val, m, memo) if self.val is not None else None,
            [(subst(a, m, memo), b) for a, b in self.facts],
        )


def norm_entries(entries):
    """entries that differ only in their facts are one entry with the common facts"""
    out = []
    pos = {}
    for e in entries:
        if e.params:
            k = (e.key, e.val, e.params)
            i = pos.get(k)
            if i is not None:
                o = out[i]
                if o.facts != e.facts:
                    out[i] = Entry(e.key, e.val, e.params, set(o.facts) & set(e.facts))
                continue
            pos[k] = len(out)
        elif e in out:
            continue
        out.append(e)
    return tuple(out)


_old_memo = {}


def has_old(o):
    r = _old_memo.get(o)
    if r is None:
        r = _old_memo[o] = any(l.op == "old" for l in o.leaves)
    return r


def join_mark(a, b):
    """"weak": there may be unknown entries; "sub": the known entries may be missing"""
    return "weak" if "weak" in (a, b) else a or b


class Rec:
    """immutable heap record"""

    __slots__ = ("kind", "cls", "fields", "base", "entries", "mark", "h")

    def __init__(self, kind, cls=None, fields=None, base=None, entries=(), mark=None):
        self.kind = kind
        self.cls = cls
        self.fields = fields or {}
        self.base = base
        self.entries = entries
        self.mark = mark
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(
                (self.kind, self.cls, frozenset(self.fields.items()), self.base, self.entries, self.mark)
            )
        return self.h

    def __eq__(self, o):
        return self is o or (
            hash(self) == hash(o)
            and self.kind == o.kind
            and self.cls is o.cls
            and self.base is o.base
            and self.mark == o.mark
            and self.entries == o.entries
            and self.fields == o.fields
        )

    def setf(self, name, v):
        f = dict(self.fields)
        f[name] = v
        return Rec(self.kind, self.cls, f, self.base, self.entries, self.mark)

    def with_entries(self, entries):
        return Rec(self.kind, self.cls, self.fields, self.base, tuple(entries), self.mark)

    def with_base(self, base):
        return Rec(self.kind, self.cls, self.fields, base, self.entries, self.mark)

    def with_mark(self, mark):
        return Rec(self.kind, self.cls, self.fields, self.base, self.entries, mark)

    def skel(self):
        """record without its generic (may) entries"""
        if self.kind in CONTAINERS and any(e.params for e in self.entries):
            return Rec(self.kind, self.cls, self.fields, self.base, tuple(e for e in self.entries if not e.params), self.mark)
        return self

    def __repr__(self):
        return f"Rec({self.kind},{self.cls},{self.fields},base={self.base},{list(self.entries)})"

    def leaves(self):
        out = set()
        for v in self.fields.values():
            out |= v.leaves
        if self.base is not None:
            out |= self.base.leaves
        for e in self.entries:
            if e.key is not None:
                out |= e.key.leaves
            if e.val is not None:
                out |= e.val.leaves
        return out

    def subst(self, m, memo):
        f = {k: subst(v, m, memo) for k, v in self.fields.items()}
        ents = []
        for e in self.entries:
            if e.params and any(p in m for p in e.params):
                ents.append(e)  # bound
            else:
                mm = m
                ne = Entry(
                    subst(e.key, mm, memo) if e.key is not None else None,
                    subst(e.val, mm, memo) if e.val is not None else None,
                    e.params,
                    e.facts,
                )
                ents.append(ne)
        b = subst(self.base, m, memo) if self.base is not None else None
        return Rec(self.kind, self.cls, f, b, tuple(dict.fromkeys(ents)), self.mark)


class Node:
    __slots__ = ("id", "kind", "data", "preds", "loc", "stack", "facts", "locks", "loops", "root")

    def __init__(self, id, kind, data, preds, loc, stack, facts, locks, loops, root):
        self.id = id
        self.kind = kind
        self.data = data
        self.preds = preds
        self.loc = loc
        self.stack = stack
        self.facts = facts
        self.locks = locks
        self.loops = loops
        self.root = root

    def __getitem__(self, k):
        return self.data[k]

    def get(self, k, d=None):
        return self.data.get(k, d)

    def __repr__(self):
        return f"#{self.id} {self.kind} {self.data} @{self.loc}"


class State:
    __slots__ = (
        "cells", "heap", "facts", "node", "locks", "loops", "frames", "pending", "flags", "exc", "inst",
    )

    def __init__(self):
        self.cells = {}
        self.heap = {}
        self.facts = {}
        self.node = None
        self.locks = ()
        self.loops = ()
        self.frames = ()
        self.pending = ()
        self.flags = frozenset()
        self.exc = ()
        self.inst = {}

    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.node = self.node
        s.locks = self.locks
        s.loops = self.loops
        s.frames = self.frames
        s.pending = self.pending
        s.flags = self.flags
        s.exc = self.exc
        return s

    def store_key(self):
        return (
            frozenset(self.cells.items()),
            frozenset(self.heap.items()),
            self.locks,
            self.loops,
            self.frames,
            self.pending,
            self.flags,
            self.exc,
        )

    def skel_key(self):
        return (
            frozenset(self.cells.items()),
            frozenset((o, r.skel()) for o, r in self.heap.items() if not has_old(o)),
            self.locks,
            self.loops,
            self.frames,
            self.pending,
            self.flags,
            self.exc,
        )

    def key(self):
        return (self.store_key(), frozenset(self.facts.items()))


# --------------------------------------------------------------------------
# conditions


def norm(t):
    """canonical (atom, polarity) of a boolean term"""
    pol = True
    while True:
        o = t.op
        if o == "not":
            t = t.args[0]
            pol = not pol
            continue
        if o == "gt":
            t = mk("lt", t.args[1], t.args[0])
            continue
        if o == "ge":
            t = mk("lt", t.args[0], t.args[1])
            pol = not pol
            continue
        if o == "le":
            t = mk("lt", t.args[1], t.args[0])
            pol = not pol
            continue
        if o == "ne":
            t = mk("eq", *t.args)
            pol = not pol
            continue
        if o == "isnot":
            t = mk("is", *t.args)
            pol = not pol
            continue
        if o == "notin":
            t = mk("in", *t.args)
            pol = not pol
            continue
        break
    if t.op in ("is", "eq"):
        a, b = t.args
        if rigid(a) and not rigid(b):
            a, b = b, a
        elif rigid(a) == rigid(b) and a.h > b.h:
            a, b = b, a
        if rigid(b) or t.op == "is":
            t = mk("eq", a, b) if rigid(b) else mk("is", a, b)
        else:
            t = mk("eq", a, b)
    if t.op == "lt":
        a, b = t.args
        # integer facts: len(x) > 0  <=>  len(x) != 0 ; len(x) < 1 <=> len(x) == 0
        if intlike_nonneg(b) and a is C(0):
            return mk("eq", b, C(0)), not pol
        if intlike_nonneg(a) and b is C(1):
            return mk("eq", a, C(0)), pol
        # ints: a < c+1  -> not (c < a) canonical form: use "c < a"
        if intlike(a) and is_const(b) and type(cval(b)) is int:
            return mk("lt", C(cval(b) - 1), a), not pol
    return t, pol


def rigid(t):
    return t.op in ("const", "cls", "ext", "fn", "mod", "pycode") or (t.op == "obj" and not t.args[2]) or (
        t.op == "sym" and t.args[1] in ("unique", "hashable")
    )


def intlike(t):
    return (
        t.op in ("len", "count", "add", "sub", "mul", "int", "neg", "mod_")
        or (t.op == "sym" and t.args[1] == "int")
        or (t.op == "const" and type(cval(t)) is int)
    )


def intlike_nonneg(t):
    return t.op in ("len", "count")


class Top(Exception):
    pass
