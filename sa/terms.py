"""Interned abstract value terms.

A term is an immutable node (op, args).  Structural equality is object identity.
"""


class T:
    __slots__ = ("op", "args", "h", "leaves")

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return mk, (self.op, *self.args)


_table = {}


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.h = hash(key)
        s = set()
        for a in args:
            _leaves(a, s)
        if op in MARK:
            s.add(t)
        t.leaves = frozenset(s)
        _table[key] = t
    return t


MARK = {"elem", "old", "obj", "sym", "res", "load", "exc", "item", "pop", "cell", "fn", "gen", "gexp", "cmgen"}


def _leaves(a, s):
    if type(a) is T:
        s |= a.leaves
    elif type(a) is tuple:
        for x in a:
            _leaves(x, s)


def C(v):
    return mk("const", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def B(v):
    return TRUE if v else FALSE


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def tup(*items):
    return mk("tup", *items)


def mentions(t, x):
    """does term t contain subterm x (x must be a MARK term)"""
    return x in t.leaves


def subst(t, m, memo=None):
    """replace subterms (keys of m are MARK terms)"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if type(t) is tuple:
        return tuple(_subst(x, m, memo) for x in t)
    if type(t) is not T:
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    hit = False
    for k in m:
        if k in t.leaves:
            hit = True
            break
    if not hit:
        memo[t] = t
        return t
    na = tuple(_subst(x, m, memo) for x in t.args)
    r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, args):
    if op == "old":
        # old(old(x)) collapses
        x = args[0]
        if type(x) is T and x.op == "old":
            return x
    return mk(op, *args)


def old(t):
    return t if t.op == "old" else mk("old", t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            st.extend(x)
            continue
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def find(t, op):
    return [x for x in subterms(t) if x.op == op]


def show(t, depth=6):
    if type(t) is tuple:
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if type(t) is not T:
        return str(t)
    if depth <= 0:
        return "..."
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1])
    if o == "sym":
        return f"<{a[0]}>"
    if o == "obj":
        return f"obj[{a[0]}" + ("|" + ",".join(show(x, depth - 2) for x in a[2]) if a[2] else "") + "]"
    if o == "elem":
        return f"elem({show(a[0], depth - 1)})"
    if o == "attr":
        return f"{show(a[0], depth - 1)}.{a[1]}"
    if o in ("res", "exc", "load", "item", "pop"):
        return f"{o}[{', '.join(show(x, depth - 2) for x in a if type(x) is not tuple)}]"
    if o in ("cls", "ext", "mod"):
        return f"{a[0]}"
    if o == "fn":
        return f"fn:{a[0]}"
    return f"{o}(" + ", ".join(show(x, depth - 1) for x in a) + ")"
