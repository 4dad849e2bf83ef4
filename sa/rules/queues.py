"""Work queues: a private multiset algebra over the storage operations of _put and _get."""
import itertools

from ..terms import C, FALSE, NONE, TRUE, cval, is_const, mk, show, subterms
from .base import NoEval, env, evalt, is_view, sym

CLIENT = """
import networkx as nx
from uberjob._execution.scheduler import create_queue
g = nx.MultiDiGraph()
q = create_queue(g, ITEMS, SCHED)
MARK(q)
q._put(X)
MARK(1)
y = q._get()
MARK(y)
n = q._qsize()
MARK(n)
"""
# the sentinel: an object that is no node of the graph
CLIENT_SENTINEL = """
import networkx as nx
from uberjob._execution.scheduler import create_queue
g = nx.MultiDiGraph()
q = create_queue(g, ITEMS, SCHED)
DONE = object()
MARK(q)
q._put(DONE)
MARK(1)
"""
ITEMS = mk("sym", "ITEMS", "nodes")
X = mk("sym", "X", "node")
OPAQUE_OK = ("append", "insert", "setitem", "pop", "popleft", "appendleft")


class Unknown(Exception):
    pass


class Store:
    """effect of a path on the storage list: net change of the multiset of items"""

    def __init__(self, alias):
        self.alias = alias
        self.net = {}
        self.cells = {}
        self.same = {}
        self.popped = []

    def rep(self, v):
        while v in self.same:
            v = self.same[v]
        return v

    def add(self, v, k):
        self.net[v] = self.net.get(v, 0) + k

    def key(self, i):
        if self.alias and i is not C(-1):
            return C(-1)
        return i

    def clear(self):
        self.cells = {}

    def read(self, i, tok):
        k = self.key(i)
        if k in self.cells:
            if self.rep(tok) is not self.rep(self.cells[k]):
                self.same[self.rep(tok)] = self.rep(self.cells[k])
        else:
            self.cells[k] = tok

    def write(self, i, v):
        k = self.key(i)
        if k not in self.cells:
            if k.op in ("sub", "add") and k.args[0].op == "len":
                raise Unknown("an index relative to the length")
            self.add(mk("lost", k), -1)
        else:
            self.add(self.cells[k], -1)
        self.add(v, 1)
        self.cells[k] = v

    def pop_last(self, tok):
        k = C(-1)
        if k in self.cells:
            t = self.rep(self.cells[k])
            if t is not self.rep(tok):
                self.same[self.rep(tok)] = t
        self.add(tok, -1)
        self.popped.append(tok)
        self.clear()

    def total(self):
        out = {}
        for v, k in self.net.items():
            r = self.rep(v)
            out[r] = out.get(r, 0) + k
        return {v: k for v, k in out.items() if k}


def paths(g, start, goal, limit=400):
    """acyclic paths from start to goal"""
    out = []
    st = [(start, [start])]
    while st:
        x, p = st.pop()
        if x == goal:
            out.append(p)
            if len(out) > limit:
                raise Unknown("too many paths")
            continue
        for y in g.succ.get(x, ()):
            if y in p:
                continue
            st.append((y, p + [y]))
    return out


class Queues:
    def __init__(self, ck, sched):
        self.ck = ck
        self.sched = sched
        g = self.g = ck.analyse(f"queue/{sched}", CLIENT, env(SCHED=C(sched), ITEMS=ITEMS, X=X, MARK=sym("MARK", "mark")), ring=True)
        self.marks = g.ev("mark", "main")
        self.states = {n.id if hasattr(n, "id") else n: s for n, s in g.it.marks}

    def group(self, k):
        """marks number k (there may be several after forks)"""
        lines = sorted({m.loc[1] for m in self.marks})
        return [m for m in self.marks if len(lines) > k and m.loc[1] == lines[k]]

    def run(self):
        ck, g = self.ck, self.g
        ms = [self.group(k) for k in range(4)]
        if not all(ms):
            ck.ob("queue-operations", self.sched, None, "queue operations not understood")
            return
        q = ms[0][0]["args"][0]
        mut = [n for n in g.ev("mut", "main") if g.nodes[n.id].id > min(m.id for m in ms[0])]
        user = [n for n in g.ev("enter", "main") if n.id > min(m.id for m in ms[0]) and g.it.fns[n["fid"]].name in ("_put", "_get", "_qsize")]
        self.initial(ms[0])
        if not user:
            ck.ob("queue-operations", self.sched, True, "the standard library's own queue operations are used")
            return
        pushed = self.net_put(ms[0], ms[1])
        self.net_get(ms[1], ms[2], pushed)
        self.qsize(ms[2], ms[3])
        self.comparisons()

    def sim(self, path, alias, store):
        st = Store(alias)
        for x in path:
            n = self.g.nodes[x]
            if n.kind == "loophead":
                raise Unknown("loop")
            if n.kind == "cget" and n["obj"] is store:
                st.read(n["index"], n["val"])
            elif n.kind == "popped" and n["obj"] is store:
                how = n["how"]
                if how == "pop" and not n["args"]:
                    st.pop_last(n["val"])
                else:
                    i = n["args"][0] if n["args"] else None
                    if how == "pop" and i is not None:
                        k = st.key(i)
                        if k in st.cells:
                            st.same[st.rep(n["val"])] = st.rep(st.cells[k]) if st.rep(n["val"]) is not st.rep(st.cells[k]) else st.rep(n["val"])
                    st.add(n["val"], -1)
                    st.popped.append(n["val"])
                    st.clear()
            elif n.kind == "mut" and n["obj"] is store:
                op, a = n["op"], n["args"]
                if op == "append":
                    st.add(a[0], 1)
                    st.clear()
                    if not n.get("heap"):
                        st.cells[C(-1)] = a[0]
                elif op == "appendleft":
                    st.add(a[0], 1)
                    st.clear()
                elif op == "insert":
                    st.add(a[1], 1)
                    st.clear()
                elif op == "setitem":
                    st.write(*a)
                elif op in ("pop", "popleft", "reverse", "sort", "rotate", "shuffle"):
                    if op not in ("pop", "popleft"):
                        st.clear()
                elif op == "extend":
                    raise Unknown("extend")
                else:
                    raise Unknown(op)
            elif n.kind in ("shuffle", "sort", "heapop"):
                st.clear()
            elif n.kind in ("setattr", "setcell") and n.get("obj") is not None and n["val"] is store:
                raise Unknown("storage replaced")
        return st

    def store(self, a, b):
        """the container that an operation changes"""
        g = self.g
        sub = g.fwd(a, stop=lambda m: m in b)
        objs = [n["obj"] for n in g.ev("mut", "main") if n.id in sub and n["obj"].op == "obj"]
        s0 = self.state(a[0])
        old = [o for o in objs if s0 is None or o in s0.heap]
        return list(dict.fromkeys(old))

    def state(self, m):
        for n, s in self.g.it.marks:
            if (n.id if hasattr(n, "id") else n) == m.id:
                return s

    def each(self, a, b):
        for x in a:
            for y in b:
                for p in paths(self.g, x.id, y.id):
                    yield x, y, p

    def net_put(self, a, b):
        ck, g = self.ck, self.g
        stores = self.store(a, b)
        here = f"_put of the queue for scheduler {self.sched!r}"
        pushed = []
        if not stores:
            ck.ob("put-stores-item", here, False, "_put stores the item nowhere")
            return pushed
        try:
            ps = list(self.each(a, b))
            for x, y, p in ps:
                ok = None
                why = ""
                for alias in (False, True):
                    tot = {}
                    for s in stores:
                        for v, k in self.sim(p, alias, s).total().items():
                            tot[v] = tot.get(v, 0) + k
                    good = sum(tot.values()) == 1 and len(tot) == 1
                    v = next(iter(tot)) if good else None
                    fld = None
                    if v is not None and v is not X:
                        fld = self.wraps(v)
                        good = fld is not None
                    if good:
                        pushed.append((v, fld))
                    ok = good if ok is None else ok and good
                    if not good:
                        why = "net effect " + ", ".join(f"{k:+d} {show(v, 3)}" for v, k in tot.items()) or "no effect"
                        why += " when the random index is the last one" if alias else ""
                ck.ob("put-stores-item", here, ok, why or "net effect: exactly the item is added")
        except Unknown as e:
            ck.ob("put-stores-item", here, None, str(e))
        return pushed

    def wraps(self, v):
        if v.op == "obj":
            for n in self.g.ev("setattr", "main"):
                if n["obj"] is v and n["val"] is X:
                    return ("attr", n["name"])
        if v.op in ("tup", "nt"):
            for i, x in enumerate(v.args):
                if x is X:
                    return ("index", i)
        for n in self.g.ev("alloc", "main"):
            if n["obj"] is v:
                s = self.state(self.group(1)[0])
                r = s.heap.get(v) if s else None
                for f, w in (r.fields if r else {}).items():
                    if w is X:
                        return ("attr", f)
        return None

    def net_get(self, b, c, pushed):
        ck, g = self.ck, self.g
        here = f"_get of the queue for scheduler {self.sched!r}"
        stores = self.store(b, c)
        if not stores:
            ck.ob("get-removes-item", here, False, "_get removes nothing")
            return
        flds = {f for _, f in pushed}
        try:
            for x, y, p in self.each(b, c):
                val = y["args"][0]
                ok, why = None, ""
                for alias in (False, True):
                    sims = [self.sim(p, alias, s) for s in stores]
                    tot = {}
                    for s in sims:
                        for v, k in s.total().items():
                            tot[v] = tot.get(v, 0) + k
                    good = sum(tot.values()) == -1 and len(tot) == 1
                    w = next(iter(tot)) if good else None
                    if good:
                        rep = lambda t: next((s.rep(t) for s in sims if s.rep(t) is not t), t)
                        got, f = val, None
                        if val.op == "attr":
                            got, f = val.args[0], ("attr", val.args[1])
                        elif val.op in ("item_", "dget"):
                            got, f = val.args[0], ("index", cval(val.args[1]) if is_const(val.args[1]) else None)
                        elif val.op == "unpack":
                            got, f = val.args[0], ("index", val.args[1] if type(val.args[1]) is int else None)
                        elif val.op == "load" and val.args[0].op == "loc" and val.args[0].args[0] == "f":
                            got, f = val.args[0].args[1], ("attr", val.args[0].args[2])
                        if rep(got) is not w:
                            good = False if rep(got).op in ("pop", "sym", "const", "obj") else None
                        elif flds and f not in flds:
                            good = False if f is None or f[0] == "attr" else None
                    if ok is None or ok is True or good is False:
                        ok = good
                    if good is not True:
                        why = "removes " + ", ".join(f"{k:+d} {show(v, 3)}" for v, k in tot.items()) + f" but returns {show(val, 3)}"
                ck.ob("get-removes-item", here, ok, why or "exactly the returned item is removed")
        except Unknown as e:
            ck.ob("get-removes-item", here, None, str(e))

    def qsize(self, c, d):
        ck = self.ck
        here = f"_qsize of the queue for scheduler {self.sched!r}"
        for m in d:
            v = m["args"][0]
            ok = None
            if v.op == "len" and v.args[0].op == "obj":
                ok = v.args[0] in self.store(self.group(1), self.group(2)) or None
            elif is_const(v):
                ok = None
            elif v.op in ("sub", "add") and find_len(v):
                ok = False
            ck.ob("queue-size", here, ok, show(v, 3))

    def initial(self, a):
        ck = self.ck
        here = f"initial content of the queue for scheduler {self.sched!r}"
        for m in a:
            q = m["args"][0]
            st = self.state(m)
            r = st.heap.get(q)
            if r is None:
                ck.ob("initial-items", here, None, "queue object not understood")
                continue
            n = r.fields.get("unfinished_tasks")
            found = False
            for f, v in r.fields.items():
                c = st.heap.get(v) if v.op == "obj" else None
                if c is None or c.kind not in ("list", "deque", "set", "dict"):
                    continue
                mult = self.multiplicity(c, st)
                if mult is None:
                    continue
                found = True
                ck.ob("initial-items", here, mult == "all", f"{mult} of the initial items are on the queue")
                if n is not None:
                    ok = None
                    if n.op == "len":
                        ok = True if n.args[0] is v or n.args[0] is ITEMS else None
                    elif is_const(n):
                        ok = False
                    elif find_len(n):
                        ok = False
                    ck.ob("unfinished-count", here, ok, f"unfinished_tasks = {show(n, 3)}")
            puts = [x for x in self.g.ev("q_put", "main") if x["item"].op == "elem" and x["item"].args[0] is ITEMS]
            if not found and puts:
                ck.ob("initial-items", here, True, "the initial items are put one by one")
            elif not found:
                ck.ob("initial-items", here, None, "initial queue content not understood")
            elif n is None:
                ck.ob("unfinished-count", here, False if not puts else None, "unfinished_tasks is not set for the initial items")

    def multiplicity(self, c, st):
        if c.kind in ("set", "dict"):
            return None
        if c.base is not None and c.base is ITEMS or c.base is not None and ITEMS in c.base.leaves and c.base.op in ("sorted_", "reversed", "shuffled"):
            return "all" if not c.entries else "more than all"
        ents = [e for e in c.entries]
        if len(ents) == 1 and ents[0].params and ITEMS in ents[0].params[0].leaves:
            e = ents[0]
            own = [f for f in e.facts if e.params[0] in f[0].leaves]
            return "all" if not own else "some"
        if c.base is not None and c.base.op in ("slice_", "islice") and ITEMS in c.base.leaves:
            return "some"
        return None

    def comparisons(self):
        """heap items are compared by key only"""
        ck, g = self.ck, self.g
        bad = []
        for n in g.ev("compare", "main"):
            if n["op"] not in ("lt", "le", "gt", "ge"):
                continue
            for t in (n["l"], n["r"]):
                if t is X or t.op in ("tup", "nt") and X in t.leaves and not self.counter_before(t):
                    bad.append(n)
        heap = [n for n in g.ev("heapop", "main") if n["how"] == "push"]
        for n in heap:
            v = n["item"]
            if v.op in ("tup", "nt") and X in v.args and not self.counter_before(v):
                bad.append(n)
            if v is X:
                bad.append(n)
        for n in heap:
            ck.ob("heap-order-by-key", g.at(n), not bad, "queue items are ordered by comparing nodes, which fails for equal priorities" if bad else "items are ordered by their key")

    def counter_before(self, t):
        """(key, counter, item)"""
        for i, x in enumerate(t.args):
            if x is X:
                return i >= 2
        return False


def find_len(t):
    return any(x.op == "len" for x in subterms(t))


def sentinel(ck, sched):
    """putting the sentinel raises nothing"""
    g = ck.analyse(f"queue/sentinel/{sched}", CLIENT_SENTINEL, env(SCHED=C(sched), ITEMS=ITEMS, X=X, MARK=sym("MARK", "mark")), ring=True, risk=True)
    ms = g.ev("mark", "main")
    lines = sorted({m.loc[1] for m in ms})
    first = [m for m in ms if m.loc[1] == lines[0]]
    sub = g.fwd(first)
    bad = [n for n in g.ev("end", "main") if n["how"] == "raise" and n.id in sub]
    ck.ob("sentinel-accepted", f"scheduler {sched!r}", not bad, f"putting the stop sentinel raises {show(bad[0]['exc'], 3)}" if bad else "the stop sentinel can be queued")


def check(ck, scheds):
    for s in scheds:
        Queues(ck, s).run()
        sentinel(ck, s)
