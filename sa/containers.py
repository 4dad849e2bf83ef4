"""Models of the built-in containers."""
from .core import CONTAINERS, Entry, Rec, join_mark, rigid
from .terms import C, FALSE, NONE, T, TRUE, B, cval, is_const, mk, subst, tup


class Containers:
    # ------------------------------------------------------------------ helpers
    def pos(self, args):
        return [a[1] for a in args if a[0] in ("pos", "star")]

    def kws(self, args):
        return {a[1]: a[2] for a in args if a[0] == "kw"}

    def crec(self, st, o):
        """record of a container object (or None)"""
        if o.op != "obj":
            return None
        r = self.rec(st, o)
        return r if r is not None and r.kind in CONTAINERS else None

    def deeper(self, st, o):
        """loop elements deeper than the allocation of o"""
        base = o.args[2]
        return tuple(x for x in st.loops if x not in base)

    def add_entry(self, st, o, key, val):
        r = st.heap.get(o) or self.rec(st, o)
        if r is None:
            return
        lv = set(val.leaves) if val is not None else set()
        if key is not None:
            lv |= key.leaves
        params = tuple(p for p in self.deeper(st, o) if p in lv or p.args[0].op != "while")
        # only real collection elements are quantified over
        params = tuple(p for p in params if not is_const(p.args[0]))
        facts = ()
        if params:
            ps = set(params)
            facts = tuple((a, b) for a, b in st.facts.items() if a.leaves & ps)
        if val is not None and params and val.op in ("add", "sub", "mul") and key is not None and not self.closed_form(val, params):
            # counters are not tracked numerically
            val = mk("cnt", key)
            facts = ()
        e = Entry(key, val, params, facts)
        if e in r.entries:
            if r.kind not in ("list", "deque") or key is not None or params or self.loops_around(st, o):
                return
            # the same value a second time
            e = Entry(mk("nth", len(r.entries)), val)
        ents = r.entries
        if params:
            for i, x in enumerate(ents):
                if x.key is key and x.val is val and x.params == params:
                    ents = ents[:i] + (Entry(key, val, params, set(x.facts) & set(facts)),) + ents[i + 1 :]
                    st.heap[o] = r.with_entries(ents)
                    return
        old = [i for i, x in enumerate(ents) if x.key is key and not x.params] if key is not None and not params else []
        if old:
            # a key keeps its place
            ents = tuple(e if i == old[0] else x for i, x in enumerate(ents) if i not in old[1:])
        else:
            ents = ents + (e,)
        if len(ents) > (600 if self.policy.concrete else 24):
            st.heap[o] = Rec(r.kind, r.cls, r.fields, mk("top"), (), "weak")
            return
        st.heap[o] = Rec(r.kind, r.cls, r.fields, r.base, ents, r.mark)

    def loops_around(self, st, o):
        """may the current point be reached several times for one life of o"""
        return any(not is_const(p.args[0]) for p in self.deeper(st, o))

    def to_front(self, st, o, n):
        """the last n entries of a list were meant for another place"""
        r = self.rec(st, o)
        if len(r.entries) >= n[1] and not r.mark and r.base is None:
            k = len(r.entries) - n[1]
            ents = list(r.entries[:k])
            st.heap[o] = r.with_entries(ents[: n[0]] + list(reversed(r.entries[k:])) + ents[n[0] :])

    def closed_form(self, val, params):
        """one arithmetic operation on sizes of views of the parameters"""
        return (
            all(type(a) is T and (is_const(a) or a.op == "len" and a.args[0].op == "view") for a in val.args)
            and {x for x in val.leaves if x.op not in ("obj", "sym")} <= set(params)
        )

    def set_base(self, st, o, base):
        r = st.heap[o]
        st.heap[o] = Rec(r.kind, r.cls, r.fields, base, r.entries, r.mark)

    def weaken(self, st, o):
        """something unknown has been removed: every entry may be missing, none is new"""
        r = st.heap.get(o) or self.rec(st, o)
        if r is not None and (r.entries or r.base is not None):
            st.heap[o] = Rec(r.kind, r.cls, r.fields, r.base, r.entries, r.mark or ("sub" if r.kind in ("dict", "counter") else "weak"))

    def dict_set(self, st, o, k, v):
        self.add_entry(st, o, k, v)

    def dict_update(self, st, cx, o, d, node):
        r = self.crec(st, d)
        if r is not None and not self.is_shared_container(d):
            q = st.heap[o]
            ents = q.entries
            for e in r.entries:
                if not e.params:
                    ents = tuple(x for x in ents if x.key is not e.key or x.params)
                if e not in ents:
                    ents = ents + (e,)
            st.heap[o] = Rec(q.kind, q.cls, q.fields, q.base or r.base, ents, join_mark(q.mark, r.mark))
            return [st]
        if d.op in ("tup", "gen", "gexp", "zip", "map", "ditems", "enum"):
            return self.extend_pairs(st, cx, o, d, node)
        self.set_base(st, o, d)
        return [st]

    def extend_pairs(self, st, cx, o, coll, node):
        def body(s, v):
            for b, (k, w) in self.unpack_value(s, cx, v, 2, None, node):
                self.dict_set(b, o, k, w)
                return [b]
            return [s]

        return self.iterate(st, coll, node, cx, body, "~u", keep=o)

    def simple_source(self, st, v):
        """collections that can become the base of a fresh container"""
        return v.op in ("view", "sym", "elem", "res", "attr", "load", "unpack", "app", "slice_", "sorted_", "dkeys", "dvals", "ditems", "islice", "data", "top", "phi", "pop")

    def extend(self, st, cx, o, v, node, tag="~x"):
        """append every element of v to container o"""
        r = self.crec(st, v)
        q = st.heap.get(o) or self.rec(st, o)
        if r is not None and not self.is_shared_container(v):
            if r.kind in ("dict", "counter"):
                ents = tuple(Entry(None, e.key, e.params, e.facts) for e in r.entries)
            else:
                ents = tuple(Entry(e.key if q.kind == "list" and not q.entries and e.params else None, e.val, e.params, e.facts) for e in r.entries)
            mark = join_mark(q.mark, r.mark)
            if q.base is None or q.base is r.base or r.base is None:
                base = q.base or r.base
            else:
                base = mk("union", q.base, r.base)
            if q.kind in ("list", "deque") and not self.loops_around(st, o) and all(not e.params for e in q.entries + ents):
                ents = tuple(Entry(mk("nth", len(q.entries) + i), e.val) if e in q.entries or e in ents[:i] else e for i, e in enumerate(ents))
            new = q.entries + tuple(e for e in ents if e not in q.entries)
            st.heap[o] = Rec(q.kind, q.cls, q.fields, base, new, mark)
            return [st]
        if v.op in ("dkeys", "dvals", "ditems"):
            r = self.crec(st, v.args[0])
            if r is not None and not self.is_shared_container(v.args[0]) and r.base is None:
                f = {"dkeys": lambda e: e.key, "dvals": lambda e: e.val, "ditems": lambda e: tup(e.key, e.val)}[v.op]
                ents = tuple(Entry(None, f(e), e.params, e.facts) for e in r.entries)
                st.heap[o] = Rec(q.kind, q.cls, q.fields, q.base, q.entries + tuple(e for e in ents if e not in q.entries), join_mark(q.mark, r.mark))
                return [st]
        seq = self.definite_seq(st, v)
        if seq is not None:
            for i, x in enumerate(seq):
                self.add_entry(st, o, None, x)
            return [st]
        if self.simple_source(st, v) or (v.op == "obj" and r is None) or (r is not None):
            if q.base is None and not q.entries:
                self.emit(st, "snapshot", obj=o, coll=v)
                self.set_base(st, o, v)
                return [st]
        def body(s, x):
            if v.op == "gexp" and tag == "~x":
                self.emit(s, "mut", obj=o, op="append", args=(x,))
            self.add_entry(s, o, None, x)
            return [s]

        return self.iterate(st, v, node, cx, body, tag, keep=o)

    def to_container(self, st, cx, v, kind, node):
        o = self.new_obj(st, node, cx, Rec(kind), extra=":" + kind)
        self.emit(st, "fill", obj=o, coll=v)
        if kind in ("dict",):
            r = self.crec(st, v)
            if r is not None and r.kind in ("dict", "counter"):
                return [(a, o) for a in self.dict_update(st, cx, o, v, node)]
            if r is not None and not self.is_shared_container(v) and r.base is None:
                ents = []
                for e in r.entries:
                    if e.val is NONE:
                        continue
                    if e.val.op == "tup" and len(e.val.args) == 2:
                        ents.append(Entry(e.val.args[0], e.val.args[1], e.params, e.facts))
                    else:
                        ents.append(Entry(mk("unpack", e.val, C(0), C(2)), mk("unpack", e.val, C(1), C(2)), e.params, e.facts))
                st.heap[o] = Rec("dict", None, {"via": v}, None, tuple(ents), r.mark)
                return [(st, o)]
            if self.simple_source(st, v):
                self.set_base(st, o, v)
                return [(st, o)]
            return [(a, o) for a in self.extend_pairs(st, cx, o, v, node)]
        if kind == "counter":
            def body(s, x):
                self.add_entry(s, o, x, mk("count", x))
                return [s]

            r = self.crec(st, v)
            if r is not None and r.kind in ("dict", "counter"):
                return [(a, o) for a in self.dict_update(st, cx, o, v, node)]
            return [(a, o) for a in self.iterate(st, v, node, cx, body, "~c", keep=o)]
        out = [(a, o) for a in self.extend(st, cx, o, v, node)]
        for a, _ in out:
            self.simplify_copy(a, o)
        return out

    def to_tuple(self, st, cx, v, node):
        if v.op in ("tup", "vtup", "spread"):
            return [(st, v)]
        seq = self.definite_seq(st, v)
        if seq is not None:
            return [(st, tup(*seq))]
        out = []
        for a, o in self.to_container(st, cx, v, "list", node):
            seq = self.definite_seq(a, o)
            if seq is not None:
                out.append((a, tup(*seq)))
            else:
                out.append((a, mk("vtup", (), o)))
        return out

    # ------------------------------------------------------------------ lookup
    def match(self, pat, x, params):
        """unify entry key pattern with x; returns mapping of params or None"""
        m = {}

        def rec(p, y):
            if p in params:
                if p in m:
                    return m[p] is y
                m[p] = y
                return True
            if p is y:
                return True
            if p.op == "tup" and y.op == "tup":
                return len(p.args) == len(y.args) and all(rec(a, b) for a, b in zip(p.args, y.args))
            if p.op == "obj" and y.op == "obj":
                if p.args[:2] != y.args[:2] or len(p.args[2]) != len(y.args[2]):
                    return False
                return all(rec(a, b) for a, b in zip(p.args[2], y.args[2]))
            if rigid(p) and rigid(y):
                return False
            if p.op == "obj" and y.op in ("const", "tup", "cls", "ext"):
                return False
            if y.op == "obj" and p.op in ("const", "tup", "cls", "ext"):
                return False
            if p.op in ("tup", "vtup") and y.op in ("tup", "vtup") and p.op == y.op == "tup":
                return False
            return "maybe"

        r = rec(pat, x)
        if r is False:
            return None
        for p in params:
            if p not in m:
                c = p.args[0] if p.op == "elem" else p
                m[p] = mk("elem", subst(c, m) if type(c) is T else c, mk("of", x))
        return m, r is True

    def only_drained(self, st, o, r):
        """threads only take objects out of this dict: what a lookup that must succeed finds was put in before they started"""
        loc = self.genloc(mk("loc", "c", o, ""))
        if self.root == "main" or loc in self.filled or r is None or r.kind != "dict" or r.base is not None or r.mark or not r.entries:
            return False
        for e in r.entries:
            q = self.rec(st, e.val) if e.val is not None and e.val.op == "obj" else None
            if q is None or q.kind != "inst":
                return False
        return True

    def lookup(self, st, o, x, node, cx, must=False):
        """-> (list of (st, value) found, list of st missing)"""
        r = self.crec(st, o)
        found, missing = [], []
        if self.is_shared_container(o) and not (must and self.only_drained(st, o, r)):
            loc = self.genloc(mk("loc", "c", o, ""))
            t = self.shared_load(st, loc, mk("loc", "i", o, x), node, cx)
            return [(st, t)], []
        definite = [e for e in r.entries if not e.params]
        generic = [e for e in r.entries if e.params]
        cur = st
        for e in reversed(definite):
            if e.key is None:
                continue
            if e.key is x:
                found.append((cur, e.val))
                cur = None
                break
            if e.key.op == "obj" and x.op == "obj":
                if e.key.args[:2] != x.args[:2]:
                    continue
            nxt = None
            for b, t in self.branch(cur, mk("eq", x, e.key)):
                if t:
                    found.append((b, e.val))
                else:
                    nxt = b
            cur = nxt
            if cur is None:
                break
        if cur is None:
            return found, missing
        opts = []
        for i, e in enumerate(generic):
            if e.key is None:
                continue
            mm = self.match(e.key, x, set(e.params))
            if mm is None:
                continue
            k, v, f = e.inst(mm[0])
            opts.append((i, v, f, mm[1]))
        has_base = r.base is not None or r.mark == "weak"
        if len(opts) > 1:
            byval = {}
            for i, v, f, ex in opts:
                if v in byval:
                    byval[v][1] &= set(f)
                else:
                    byval[v] = [i, set(f), ex]
            opts = [(i, v, list(f), ex) for v, (i, f, ex) in byval.items()]
            if len(opts) > 4:
                opts = [(opts[0][0], mk("dget", o, x), [], False)]
                has_base = False
        if not opts and not has_base:
            missing.append(cur)
            return found, missing
        atom = mk("in", x, o)
        for b, t in self.branch(cur, atom):
            if not t:
                missing.append(b)
                continue
            n = len(opts) + (1 if has_base else 0)
            rest = b
            for j, (i, v, f, exact) in enumerate(opts):
                if rest is None:
                    break
                last = j + 1 == n
                prs = [(rest, True)] if last else self.branch(rest, mk("which", o, x, C(i)))
                rest = None
                for s, w in prs:
                    if not w:
                        rest = s
                        continue
                    ok = True
                    for a, bv in f:
                        if not self.assume(s, a, bv, quiet=True):
                            ok = False
                            break
                    if ok:
                        found.append((s, v))
            if rest is not None and has_base:
                base = r.base if r.base is not None else mk("top")
                found.append((rest, mk("dget", base if base.op != "top" else o, x)))
        return found, missing

    # ------------------------------------------------------------------ items
    def index_const(self, seq, i):
        try:
            return seq[i]
        except IndexError:
            return None

    def getitem(self, st, cx, b, i, node):
        o = b.op
        if o == "sym" and self.policy_flag("displays") and self.hashable(st, b):
            return self.d_fail(st, cx, "TypeError", "subscript of a value of which nothing is known", b, node)
        seq = None
        ring = self.policy_flag("ring") and o == "obj" and (self.crec(st, b) or Rec("x")).kind in ("list", "deque")
        if is_const(i) and type(cval(i)) is int and not ring:
            if o == "vtup" and 0 <= cval(i) < len(b.args[0]):
                return [(st, b.args[0][cval(i)])]
            seq = self.definite_seq(st, b) if o in ("tup", "obj", "nt", "const") and not (o == "obj" and (self.crec(st, b) or Rec("x")).kind in ("dict", "counter", "set")) else None
            if o == "const" and b.args[0] == "str":
                try:
                    return [(st, C(cval(b)[cval(i)]))]
                except IndexError:
                    return self.raise_ext(st, "builtins.IndexError", node, cx)
            if seq is not None:
                x = self.index_const(seq, cval(i))
                if x is None:
                    return self.raise_ext(st, "builtins.IndexError", node, cx)
                return [(st, x)]
        if i.op == "slice":
            return self.getslice(st, cx, b, i, node)
        if o == "mod" or o == "ext" or o == "cls":
            return [(st, b)]
        if o == "view":
            return self.view_item(st, b, i)
        if o == "obj":
            r = self.rec(st, b)
            if r is not None and r.kind == "graph":
                return [(st, mk("view", "succs", b, i))]
            if r is not None and r.kind in ("dict", "counter"):
                found, missing = self.lookup(st, b, i, node, cx, must=True)
                out = list(found)
                dd = r.fields.get("default_factory")
                for s in missing:
                    if dd is not None:
                        for a, v in self.call(s, cx, dd, [], node):
                            self.dict_set(a, b, i, v)
                            self.mutated(a, b, node, cx, "setitem", (i, v))
                            out.append((a, v))
                    elif r.kind == "counter":
                        out.append((s, C(0)))
                    elif self.policy_flag("risk") or self.lookups_fail or not found:
                        self.raise_ext(s, "builtins.KeyError", node, cx)
                return out
            if r is not None and r.kind in ("list", "deque"):
                if self.policy_flag("ring"):
                    t = mk("pop", b, i, self.tk(st, node, cx))
                    self.emit(st, "cget", obj=b, index=i, val=t)
                    return [(st, t)]
                if self.is_shared_container(b):
                    loc = self.genloc(mk("loc", "c", b, ""))
                    return [(st, self.shared_load(st, loc, mk("loc", "i", b, i), node, cx))]
                if r.base is not None and not r.entries:
                    return [(st, mk("item_", r.base, i))]
                vals = []
                for e in r.entries:
                    v = e.val
                    if e.params:
                        m = {p: mk("elem", p.args[0], mk("at", i)) for p in e.params if p.op == "elem"}
                        _, v, _f = e.inst(m)
                    if v is not None and v not in vals:
                        vals.append(v)
                if r.base is not None:
                    vals.append(mk("item_", r.base, i))
                if len(vals) == 1:
                    return [(st, vals[0])]
                if vals and len(vals) <= 6:
                    return [(st, mk("phi", *vals))]
                return [(st, mk("item_", b, i))]
            if r is not None and r.kind == "inst":
                m = self.class_lookup(r.cls, "__getitem__")
                if m is not None:
                    return self.call(st, cx, mk("bm", m, b), [("pos", i)], node)
        if o == "cat" or (o == "const" and b.args[0] == "str"):
            return [(st, mk("subs", b, i))]
        if o == "vkw":
            for n, v in b.args[0]:
                if is_const(i) and cval(i) == n:
                    return [(st, v)]
        if o == "load":
            vals = [v for v in (self.mayvals.get(self.genloc(b.args[0])) or []) if v is not NONE]
            if len(vals) == 1 and vals[0].op in ("obj", "tup"):
                return self.getitem(st, cx, vals[0], i, node)
        if o == "phi":
            out = []
            for k, x in enumerate(b.args):
                if x.op in ("top", "wid"):
                    return [(st, mk("item_", b, i))]
            for k, x in enumerate(b.args):
                s = st.fork() if k + 1 < len(b.args) else st
                out += self.getitem(s, cx, x, i, node)
            return out
        if o == "sorted_":
            return [(st, mk("item_", b, i))]
        return [(st, mk("item_", b, i))]

    def getslice(self, st, cx, b, i, node):
        lo, hi, step = i.args
        seq = self.definite_seq(st, b)
        if seq is not None and all(is_const(x) for x in (lo, hi, step)):
            s = seq[slice(cval(lo), cval(hi), cval(step))]
            if b.op == "tup":
                return [(st, tup(*s))]
            o = self.new_obj(st, node, cx, Rec("list"), extra=":slice")
            for k, x in enumerate(s):
                self.add_entry(st, o, C(k), x)
            return [(st, o)]
        if b.op == "const" and all(is_const(x) for x in (lo, hi, step)):
            return [(st, C(cval(b)[slice(cval(lo), cval(hi), cval(step))]))]
        if lo is NONE and hi is NONE and step is NONE:
            if self.crec(st, b) is not None:
                return self.to_container(st, cx, b, "list", node)
            return [(st, b)]
        if lo is NONE and hi is NONE:
            return [(st, mk("rev", b))]
        return [(st, mk("slice_", b, lo, hi, step))]

    def setitem(self, st, cx, b, i, v, node):
        o = b.op
        if o == "phi":
            for x in b.args:
                if self.crec(st, x) is not None:
                    self.mutated(st, x, node, cx, "setitem", (i, v))
                    self.add_entry(st, x, i, v)
                    self.weaken(st, x)
            return [st]
        if o == "load":
            vals = [x for x in (self.mayvals.get(self.genloc(b.args[0])) or []) if x is not NONE]
            if len(vals) == 1 and vals[0].op == "obj":
                return self.setitem(st, cx, vals[0], i, v, node)
        if o == "obj":
            r = self.rec(st, b)
            if r is not None and r.kind in CONTAINERS:
                self.mutated(st, b, node, cx, "setitem", (i, v))
                if self.is_shared_container(b):
                    self.lk_write(st, mk("loc", "i", b, i), v)
                    if self.root != "main":
                        return [st]
                if r.kind in ("list", "deque"):
                    if i.op == "slice":
                        self.weaken(st, b)
                        return self.extend(st, cx, b, v, node, "~ss")
                    if is_const(i) and self.definite_seq(st, b) is not None:
                        ents = list(r.entries)
                        try:
                            ents[cval(i)] = Entry(ents[cval(i)].key, v)
                            st.heap[b] = r.with_entries(ents)
                            return [st]
                        except IndexError:
                            return self.raise_ext(st, "builtins.IndexError", node, cx)
                    # placeholders of a pre-sized list are overwritten by index
                    ents = tuple(e for e in r.entries if not (e.key is None and e.val is NONE))
                    if len(ents) != len(r.entries):
                        st.heap[b] = r.with_entries(ents)
                    self.add_entry(st, b, i, v)
                    return [st]
                self.dict_set(st, b, i, v)
                return [st]
            if r is not None and r.kind == "inst":
                m = self.class_lookup(r.cls, "__setitem__")
                if m is not None:
                    return [a for a, _ in self.call(st, cx, mk("bm", m, b), [("pos", i), ("pos", v)], node)]
        loc = mk("loc", "c", b, "")
        self.emit(st, "mut", obj=b, op="setitem", args=(i, v), loc=loc, shared=False)
        return [st]

    def delitem(self, st, cx, b, i, node):
        if self.crec(st, b) is not None:
            self.mutated(st, b, node, cx, "delitem", (i,))
            if not self.is_shared_container(b):
                r = self.rec(st, b)
                if any(e.key is i and not e.params for e in r.entries):
                    st.heap[b] = r.with_entries([e for e in r.entries if not (e.key is i and not e.params)])
                else:
                    self.weaken(st, b)
            return [st]
        self.emit(st, "mut", obj=b, op="delitem", args=(i,), loc=mk("loc", "c", b, ""), shared=False)
        return [st]

    def contains(self, st, cx, coll, x, node):
        o = coll.op
        if o in ("dkeys", "iter", "rev", "sorted"):
            return self.contains(st, cx, coll.args[0], x, node)
        if o == "const":
            if is_const(x):
                try:
                    return [(st, cval(x) in cval(coll))]
                except TypeError:
                    self.raise_ext(st, "builtins.TypeError", node, cx)
                    return []
            return self.branch(st, mk("in", x, coll))
        if o == "cat" or o == "sym" and coll.args[1] == "str":
            return self.branch(st, mk("in", x, coll))
        if o == "obj":
            r = self.rec(st, coll)
            if r is not None and r.kind == "graph":
                return self.branch(st, mk("in", x, mk("view", "nodes", coll)))
            if r is not None and r.kind == "inst":
                m = self.class_lookup(r.cls, "__contains__")
                if m is not None:
                    out = []
                    for a, v in self.call(st, cx, mk("bm", m, coll), [("pos", x)], node):
                        out += self.truth(a, v, node, cx)
                    return out
            if r is not None and r.kind in CONTAINERS:
                if self.is_shared_container(coll):
                    t = mk("load", mk("loc", "in", coll, x), self.tk(st, node, cx))
                    self.purge(st, t)
                    return self.branch(st, mk("truthy", t))
                if not r.entries and r.base is None:
                    return [(st, False)]
                isd = r.kind in ("dict", "counter")
                if all(not e.params for e in r.entries) and r.base is None and not r.mark:
                    return self.eq_chain(st, x, [e.key if isd else e.val for e in r.entries])
                return self.member(st, coll, r, x)
        seq = self.definite_seq(st, coll)
        if seq is not None:
            return self.eq_chain(st, x, seq)
        if o == "view":
            if coll.args[0] in ("predmap", "succmap"):
                return self.branch(st, mk("in", x, mk("view", "nodes", coll.args[1])))
            return self.branch(st, mk("in", x, coll))
        return self.branch(st, mk("in", x, coll))

    def eq_chain(self, st, x, items):
        out = []
        cur = st
        for it in items:
            if it is x:
                out.append((cur, True))
                return out
            nxt = None
            for a, t in self.branch(cur, mk("eq", x, it)):
                if t:
                    out.append((a, True))
                else:
                    nxt = a
            cur = nxt
            if cur is None:
                return out
        out.append((cur, False))
        return out

    def member(self, st, o, r, x):
        """x in o for a container with generic entries"""
        isd = r.kind in ("dict", "counter")
        out = []
        pos = []
        for e in r.entries:
            pat = e.key if isd else e.val
            if pat is None:
                continue
            mm = self.match(pat, x, set(e.params))
            if mm is not None:
                pos.append((e, mm))
        if not pos and r.base is None and r.mark != "weak":
            return [(st, False)]
        for a, t in self.branch(st, mk("in", x, o)):
            if t and len(pos) == 1 and r.base is None and r.mark != "weak":
                e, mm = pos[0]
                _, _, f = e.inst(mm[0])
                ok = all(self.assume(a, at, bv, quiet=True) for at, bv in f)
                if not ok:
                    continue
            out.append((a, t))
        return out

    # ------------------------------------------------------------------ methods
    def container_method(self, st, cx, kind, name, o, args, node):
        r = self.rec(st, o)
        p = self.pos(args)
        shared = self.is_shared_container(o)
        noadd = shared and self.root != "main"
        isd = kind in ("dict", "counter")
        if name in ("append", "add", "appendleft"):
            self.mutated(st, o, node, cx, name, p)
            if not noadd:
                k = len(r.entries)
                self.add_entry(st, o, None, p[0])
                if name == "appendleft" and len(self.rec(st, o).entries) == k + 1:
                    self.to_front(st, o, (0, 1))
            return [(st, NONE)]
        if name == "insert":
            self.mutated(st, o, node, cx, "insert", p)
            if not noadd:
                k = len(r.entries)
                self.add_entry(st, o, None, p[1])
                if is_const(p[0]) and type(cval(p[0])) is int and len(self.rec(st, o).entries) == k + 1:
                    i = cval(p[0])
                    self.to_front(st, o, (i if i >= 0 else max(0, k + i), 1))
            return [(st, NONE)]
        if name in ("extend", "extendleft") or (name in ("update", "__ior__", "union_update") and not isd):
            self.mutated(st, o, node, cx, "extend_gen" if any(x.op == "gexp" for x in p) else "extend", p)
            sts = [st]
            if not noadd:
                for x in p:
                    sts = [b for a in sts for b in self.extend(a, cx, o, x, node)]
            else:
                for x in p:
                    sts = [b for a in sts for b in self.iterate(a, x, node, cx, lambda s, v: [s], "~xs")]
            return [(a, NONE) for a in sts]
        if name in ("pop", "popleft", "popitem"):
            self.mutated(st, o, node, cx, name, p)
            if isd and name == "pop":
                found, missing = self.lookup(st, o, p[0], node, cx, must=len(p) == 1)
                out = []
                for a, v in found:
                    if not shared:
                        rr = self.rec(a, o)
                        if any(e.key is p[0] and not e.params for e in rr.entries):
                            a.heap[o] = rr.with_entries([e for e in rr.entries if not (e.key is p[0] and not e.params)])
                        else:
                            self.weaken(a, o)
                        a.facts = {k: w for k, w in a.facts.items() if not (k.op == "in" and k.args[1] is o)}
                    out.append((a, v))
                for a in missing:
                    if len(p) > 1:
                        out.append((a, p[1]))
                    elif self.lookups_fail or not found:
                        self.raise_ext(a, "builtins.KeyError", node, cx)
                return out
            if self.policy_flag("ring") and not isd:
                t = mk("pop", o, self.tk(st, node, cx))
                self.emit(st, "popped", obj=o, how=name, args=tuple(p), val=t)
                return [(st, t)]
            if shared:
                t = mk("pop", o, self.tk(st, node, cx))
                return [(st, t)]
            seq = self.definite_seq(st, o)
            if seq and kind in ("list", "deque"):
                i = 0 if name == "popleft" else -1
                if p and is_const(p[0]):
                    i = cval(p[0])
                ents = list(r.entries)
                if -len(ents) <= i < len(ents):
                    e = ents.pop(i)
                    st.heap[o] = r.with_entries(ents)
                    return [(st, e.val)]
            v = self.pick(st, cx, o, node)
            self.weaken(st, o)
            return v
        if name in ("remove", "discard"):
            self.mutated(st, o, node, cx, name, p)
            if not shared:
                if any(e.val is p[0] and not e.params for e in r.entries):
                    st.heap[o] = r.with_entries([e for e in r.entries if not (e.val is p[0] and not e.params)])
                elif self.policy.concrete and r.mark is None and r.base is None and rigid(p[0]) and all(e.val is not None and not e.params and rigid(e.val) for e in r.entries):
                    pass
                else:
                    self.weaken(st, o)
            if name == "remove" and self.policy_flag("risk") and not any(e.val is p[0] for e in r.entries):
                s2 = st.fork()
                self.raise_ext(s2, "builtins.KeyError", node, cx)
            return [(st, NONE)]
        if name == "clear":
            self.mutated(st, o, node, cx, name, p)
            if not shared:
                st.heap[o] = Rec(r.kind, r.cls, r.fields)
            return [(st, NONE)]
        if name == "reverse":
            self.mutated(st, o, node, cx, name, p)
            if not shared and self.definite_seq(st, o) is not None:
                st.heap[o] = r.with_entries(list(reversed(r.entries)))
            return [(st, NONE)]
        if name == "sort":
            self.mutated(st, o, node, cx, name, p)
            return [(a, NONE) for a in self.sort_effect(st, cx, o, self.kws(args).get("key", NONE), node)]
        if name == "copy":
            return self.to_container(st, cx, o, kind, node)
        if name == "items":
            return [(st, mk("ditems", o))]
        if name == "keys":
            return [(st, mk("dkeys", o))]
        if name == "values":
            return [(st, mk("dvals", o))]
        if name == "get" and isd:
            found, missing = self.lookup(st, o, p[0], node, cx)
            d = p[1] if len(p) > 1 else self.kws(args).get("default", NONE)
            if self.is_shared_container(o):
                t = found[0][1]
                s2 = st.fork()
                return [(st, t), (s2, d)]
            return list(found) + [(a, d) for a in missing]
        if name == "setdefault" and isd:
            found, missing = self.lookup(st, o, p[0], node, cx)
            d = p[1] if len(p) > 1 else NONE
            out = list(found)
            for a in missing:
                self.mutated(a, o, node, cx, "setitem", (p[0], d))
                if not noadd:
                    self.dict_set(a, o, p[0], d)
                out.append((a, d))
            if shared:
                self.mutated(st, o, node, cx, "setitem", (p[0], d))
            return out
        if name == "update" and isd:
            self.mutated(st, o, node, cx, "update", p)
            sts = [st]
            if not shared:
                for x in p:
                    sts = [b for a in sts for b in self.dict_update(a, cx, o, x, node)]
                for k, v in self.kws(args).items():
                    for a in sts:
                        self.dict_set(a, o, C(k), v)
            return [(a, NONE) for a in sts]
        if name in ("difference", "intersection", "union", "symmetric_difference"):
            v = mk(name, o, *p)
            return self.setop(st, cx, name, o, p, node)
        if name in ("difference_update", "intersection_update"):
            self.mutated(st, o, node, cx, name, p)
            self.weaken(st, o)
            return [(st, NONE)]
        if name in ("isdisjoint", "issubset", "issuperset"):
            return [(st, mk("truthy", mk(name, o, *p)))]
        if name == "__contains__":
            return [(a, B(t)) for a, t in self.contains(st, cx, o, p[0], node)]
        if name == "__getitem__":
            return self.getitem(st, cx, o, p[0], node)
        if name == "__setitem__":
            return [(a, NONE) for a in self.setitem(st, cx, o, p[0], p[1], node)]
        if name == "__len__":
            return [(st, self.len_of(st, o, node, cx))]
        if name == "index" or name == "count":
            return [(st, mk("int", name, o, *p))]
        if name == "most_common":
            return [(st, mk("ditems", o))]
        if name in ("rotate", "total", "subtract", "move_to_end"):
            self.mutated(st, o, node, cx, name, p)
            return [(st, NONE)]
        self.unknown.append((kind + "." + name, self.loc))
        return [(st, mk("extcall", mk("ext", kind + "." + name), (o, *p)))]

    def exact_set(self, st, o):
        """the elements, if they are known and distinct"""
        r = self.crec(st, o)
        if r is not None and r.kind in ("set", "dict", "counter"):
            if r.base is not None or r.mark is not None:
                return None
            vs = [e.val if r.kind == "set" else e.key for e in r.entries]
            return vs if all(v is not None and rigid(v) for v in vs) and not any(e.params for e in r.entries) else None
        vs = self.definite_seq(st, o)
        return list(dict.fromkeys(vs)) if vs is not None and all(rigid(v) for v in vs) else None

    def exact_op(self, name, a, b):
        if name == "union":
            return a + [x for x in b if x not in a]
        if name == "intersection":
            return [x for x in a if x in b]
        if name == "difference":
            return [x for x in a if x not in b]
        return [x for x in a if x not in b] + [x for x in b if x not in a]

    def setop(self, st, cx, name, o, others, node):
        res = self.new_obj(st, node, cx, Rec("set"), extra=":" + name)
        sets = [self.exact_set(st, x) for x in (o, *others)] if self.policy.concrete else [None]
        if all(x is not None for x in sets):
            acc = sets[0]
            for x in sets[1:]:
                acc = self.exact_op(name, acc, x)
            st.heap[res] = Rec("set", None, None, None, tuple(Entry(None, v) for v in acc))
            return [(st, res)]
        st.heap[res] = Rec("set", None, None, mk("setop", name, o, *others), ())
        return [(st, res)]

    def pick(self, st, cx, o, node):
        """an arbitrary element of container o"""
        opts = self.elem_options(st, o, mk("lid", self.site(node) + "~p", cx.frame.id, st.loops))
        tk = self.tk(st, node, cx)
        if len(opts) == 1:
            v, facts, e = opts[0]
            if e not in v.leaves:
                return [(st, v)]
            t = mk("pop", o, e, tk)
            self.purge(st, t)
            m = {e: t}
            v = subst(v, m)
            for a, b in facts:
                if not self.assume(st, subst(a, m), b, quiet=True):
                    return []
            return [(st, v)]
        v = self.shape_token(st, o, [v for v, _, _ in opts], tk, "")
        return [(st, v)]

    def shape_token(self, st, o, vals, tk, path):
        if vals and all(v is vals[0] for v in vals) and is_const(vals[0]):
            return vals[0]
        if vals and all(v.op == "tup" and len(v.args) == len(vals[0].args) for v in vals):
            return tup(*[self.shape_token(st, o, [v.args[i] for v in vals], tk, path + f".{i}") for i in range(len(vals[0].args))])
        kind = "node" if vals and all(self.nodeish(v) for v in vals) else ""
        t = mk("pop", o, C(kind + path if not kind else kind), mk("pk", tk, path))
        self.purge(st, t)
        return t

    def sort_effect(self, st, cx, coll, key, node):
        """emit the comparisons a sort performs"""
        lid = mk("lid", self.site(node) + "~s", cx.frame.id, st.loops)
        base_loops = st.loops

        keys = []

        def body(s, v):
            if key is NONE:
                keys.append(v)
                self.emit(s, "sortkey", coll=coll, key=v, elem=v)
                return [s]
            out = []
            for a, k in self.call(s, cx, key, [("pos", v)], node):
                keys.append(self.folded(a, k))
                self.emit(a, "sortkey", coll=coll, key=k, elem=v)
                out.append(a)
            return out

        sts = self.iterate(st, coll, node, cx, body, "~s", keep=coll)
        out = []
        for a in sts:
            self.emit(a, "sort", coll=coll, key=key)
            if self.policy_flag("risk") and not (self.policy.concrete and (len(keys) < 2 or not any(self.unordered(a, k) for k in keys))):
                s2 = a.fork()
                e = mk("exc", self.tk(s2, node, cx), "TypeError" if self.policy.concrete else "Exception")
                self.emit(s2, "uexc", fn=mk("ext", "sort"), exc=e, call=s2.node, args=())
                self.emit(s2, "sortraise", coll=coll, key=key)
                self.raise_(s2, e)
            self.sorted_now(a, coll, keys, key)
            out.append(a)
        return out

    def folded(self, st, k):
        """a key with the comparisons in it decided where they can be"""
        if k.op == "tup":
            return tup(*(self.folded(st, x) for x in k.args))
        if k.op in ("is", "eq", "lt", "in", "not", "truthy"):
            v = self.decide(st, k)
            if v is not None:
                return TRUE if v else FALSE
        return k

    def pykey(self, k):
        if is_const(k):
            return cval(k)
        if k.op == "tup":
            out = []
            for x in k.args:
                try:
                    out.append(self.pykey(x))
                except TypeError:
                    break
            return tuple(out)
        raise TypeError

    def sorted_now(self, st, coll, keys, key):
        """a list of known length sorted by known keys is put in order, any other one is marked"""
        r = self.crec(st, coll)
        if r is None or self.is_shared_container(coll):
            return
        seq = self.definite_seq(st, coll)
        if seq is not None and len(seq) == len(keys) == len(r.entries) and r.kind == "list":
            try:
                ks = [self.pykey(k) for k in keys]
                if len(set(ks)) < len(ks) and len(set(keys)) == len(keys):
                    raise TypeError
                order = sorted(range(len(keys)), key=lambda i: ks[i])
                st.heap[coll] = r.with_entries([r.entries[i] for i in order])
                return
            except TypeError:
                pass
        st.heap[coll] = Rec(r.kind, r.cls, {**r.fields, "sorted": key if key is not NONE else TRUE}, r.base, r.entries, r.mark)

    def policy_flag(self, name):
        return getattr(self.policy, name, False)

    def len_of(self, st, v, node=None, cx=None):
        o = v.op
        if o in ("dkeys", "dvals", "ditems", "rev", "sorted", "iter"):
            return self.len_of(st, v.args[0], node, cx)
        if o == "enum":
            return self.len_of(st, v.args[0], node, cx)
        if o == "const":
            try:
                return C(len(cval(v)))
            except TypeError:
                return mk("len", v)
        seq = self.definite_seq(st, v)
        if seq is not None and not (v.op == "obj" and self.crec(st, v) is not None and self.crec(st, v).kind == "set" and len(seq) > 1):
            return C(len(seq))
        if o == "obj":
            r = self.rec(st, v)
            if r is not None and r.kind == "graph":
                return mk("len", mk("view", "nodes", v))
            if r is not None and r.kind in CONTAINERS:
                if self.is_shared_container(v):
                    t = mk("load", mk("loc", "len", v, ""), self.tk(st, node, cx)) if node is not None else mk("len", v)
                    self.purge(st, t)
                    return mk("len", t)
                if r.base is not None and not r.entries and r.kind in ("list",):
                    return self.len_of(st, r.base, node, cx) if r.base.op == "view" else mk("len", r.base)
                if r.base is not None and not r.entries and r.kind == "set" and r.base.op == "view" and r.base.args[0] in ("preds", "succs", "nodes"):
                    return mk("len", r.base)
                # list with one entry per element of a distinct view
                if r.kind == "list" and len(r.entries) == 1 and r.base is None:
                    e = r.entries[0]
                    if len(e.params) == 1 and not e.facts and e.params[0].op == "elem" and e.params[0].args[0].op == "view":
                        return mk("len", e.params[0].args[0])
        return mk("len", v)
