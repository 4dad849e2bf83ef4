"""How the argument nodes of a call become the arguments its function is called with: orders and values followed from the edges of the graph, through the containers and fields of the engine, to the call of the user's function."""
from ..terms import NONE, T, C, tup, is_const, show, subterms
from .base import env, sym
from . import clients


class Flow:
    """the order in which the entries of a container were put into it, followed back to the edges of the graph"""

    def __init__(self, g):
        self.g = g
        self.puts = {}
        self.keys = {}
        self.fields = {}
        self.bad = set()
        for n in g.ev():
            if n.root == "import":
                continue
            if n.kind in ("cadd", "fill") or n.kind == "mut" and n["op"] in ("append", "setitem", "add", "extend", "insert", "appendleft", "update", "reverse", "pop", "remove", "clear", "setdefault", "extendleft", "popitem", "delitem"):
                self.puts.setdefault(n["obj"], []).append(n)
            elif n.kind == "sort":
                self.keys.setdefault(n["coll"], set())
            elif n.kind == "sortkey" and n["elem"] is not NONE:
                self.keys.setdefault(n["coll"], set()).add(n["key"])
            elif n.kind == "setattr":
                self.fields.setdefault(n["name"], []).append(n)
        self.memo = {}

    def loops_of(self, n):
        """the nearest earlier starts of the innermost loop n is in"""
        if not n.loops:
            return []
        e = n.loops[-1]
        out, seen, todo = [], set(), list(n.preds)
        while todo:
            m = todo.pop()
            m = self.g.nodes[m]
            if m in seen:
                continue
            seen.add(m)
            if m.kind == "iter" and m["elem"] is e:
                out.append(m)
                continue
            todo.extend(m.preds)
        return out

    def values(self, t):
        """the values assigned to the field that is read"""
        return list(dict.fromkeys(n["val"] for n in self.fields.get(fieldname(t), ())))

    def edges_inside(self, t):
        """the entries are edges of the graph, not arguments"""
        return any(x.op == "ek" for n in self.puts.get(t, ()) if n.kind != "fill" for a in n["args"] if a.op == "tup" for x in a.args)

    def over(self, n):
        """the order in which a loop goes over its collection"""
        r = self.of(n["coll"])
        return {REV.get(x, x) for x in r} if "~r" in n["loop"].args[0] else r

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        r = self.memo[t] = frozenset(self._of(t))
        return r

    def _of(self, t):
        op = t.op
        if op in ("tup", "const") and not t.args:
            return ()
        if op == "view":
            return ("edges",) if t.args[0] in ("in_edges", "predecessors", "in_edges_data", "pred") else ("?" + show(t, 2),)
        if op == "rev":
            return [REV.get(x, "?reversed " + x) for x in self.of(t.args[0])]
        if op in ("ditems", "dkeys", "dvals", "iter", "enum", "dvalues"):
            return self.of(t.args[0])
        if op in ("map", "filter"):
            return self.of(t.args[1])
        if op == "vtup":
            return self.of(t.args[1]) if len(t.args) == 2 and t.args[0] in ((), tup()) else ("?",)
        if op == "gexp":
            return [x for n in self.g.ev("iter") if n["loop"].args[1] == t.args[1] for x in self.over(n)] or ("?",)
        if op in ("attr", "load"):
            vals = self.values(t)
            if vals:
                return [x for v in vals for x in self.of(v)]
            return ("?" + show(t, 3),)
        if op == "obj":
            if t in self.keys:
                ks = self.keys[t]
                if len(ks) == 1:
                    return (keytag(next(iter(ks))),)
                return ("?sorted",)
            out = []
            for n in self.puts.get(t, ()):
                if n.kind == "fill":
                    out += self.of(n["coll"])
                    continue
                o = "append" if n.kind == "cadd" else n["op"]
                if o == "append" or o in ("setitem", "cadd", "setdefault") or n.kind == "cadd":
                    if n["args"][-1] is NONE and o == "append":
                        continue
                    if o == "setitem":
                        k = keytag(n["args"][0])
                        if k == "index":
                            out.append(k)
                            continue
                    ls = self.loops_of(n)
                    out += [x for m in ls for x in self.over(m)] if ls else ["?added outside a loop"]
                elif o == "appendleft":
                    ls = self.loops_of(n)
                    out += [REV.get(x, "?") for m in ls for x in self.over(m)] if ls else ["?"]
                elif o == "extend":
                    out += self.of(n["args"][0])
                else:
                    out.append("?" + str(o))
            return out
        return ("?" + show(t, 3),)


def fieldname(t):
    name = None
    if t.op == "attr":
        name = t.args[1]
    elif t.op == "load" and t.args[0].args[0] == "f":
        name = t.args[0].args[2]
    return name.args[-1] if type(name) is T else name


REV = {"index": "reversed", "reversed": "index", "edges": "edges", "name": "name"}


def keytag(k):
    if k.op == "attr" and k.args[0].op == "ek":
        n = k.args[1]
        n = n.args[-1] if type(n) is T else n
        if n in ("index", "name"):
            return n
    if k.op == "tup" and k.args:
        return keytag(k.args[0])
    return "?key " + show(k, 3)


WRONG = {"edges": "the order of the edges in the graph", "name": "the order of the names", "reversed": "reversed order"}


def ordered(ck, rule, what, tags):
    bad = [WRONG[x] for x in sorted(tags) if x in WRONG]
    if bad:
        ck.ob(rule, what, False, f"{what} come in {' or '.join(bad)}, not in the order in which they were given")
    elif tags == {"index"}:
        ck.ob(rule, what, True, "in the order of the indices of the edges")
    else:
        ck.ob(rule, what, None, f"order {sorted(tags)}")


def bound(ck):
    src = clients.RUN_PLAIN.replace("DRY", "False").replace("PROG", "None")
    g = ck.analyse("run of a plan", src, env(), stub_engine=True)
    fl = Flow(g)
    calls = [n for n in g.ev("ucall") if n.root not in ("main", "import")]
    ck.need(calls, "no call of a user's function by a worker")
    for n in calls:
        for op, rule, what in (("star", "positional-order", "positional arguments"), ("kwstar", "keyword-order", "keyword arguments")):
            got = [a for a in n["args"] if a.op == op]
            where = f"{what} at {g.at(n)}"
            if not got:
                odd = [a for a in n["args"] if a.op not in ("star", "kwstar")]
                ck.ob(rule, where, None if odd else False, f"the function is called at {g.at(n)} without its {what}")
            elif len(got) > 1 or got[0].args[0].op != "obj":
                ck.ob(rule, where, None, "given in several parts")
            else:
                t = got[0].args[0]
                ordered(ck, rule, where, fl.of(t))
                complete(ck, g, fl, t, what)
                fresh(ck, g, fl, n, t, what)
        stored(ck, g, fl, n)
    pruned(ck, g)


def chain(fl, t, seen=None):
    """the containers the entries of t come through"""
    seen = {} if seen is None else seen
    if t in seen:
        return seen
    op = t.op
    if op == "obj":
        seen[t] = fl.puts.get(t, ())
        for n in seen[t]:
            if n.kind == "fill":
                chain(fl, n["coll"], seen)
            else:
                for m in fl.loops_of(n):
                    chain(fl, m["coll"], seen)
    elif op in ("rev", "ditems", "dkeys", "dvals", "iter", "enum"):
        chain(fl, t.args[0], seen)
    elif op in ("map", "filter"):
        chain(fl, t.args[1], seen)
    elif op == "vtup":
        chain(fl, t.args[-1], seen)
    elif op == "gexp":
        for n in fl.g.ev("iter"):
            if n["loop"].args[1] == t.args[1]:
                chain(fl, n["coll"], seen)
    elif op in ("attr", "load"):
        for v in fl.values(t):
            chain(fl, v, seen)
    return seen


def source_is_edges(t):
    return t.op == "view" or t.op in ("iter", "rev", "enum") and source_is_edges(t.args[0])


def complete(ck, g, fl, t, what):
    """every entry of a collection the arguments come through is passed on"""
    for o, puts in chain(fl, t).items():
        adds = [n for n in puts if n.kind == "cadd" or n.kind == "mut" and n["op"] in ("append", "appendleft", "setitem", "setdefault")]
        if not adds or any(n.kind == "fill" for n in puts):
            continue
        ids = {n.id for n in adds}
        for it in dict.fromkeys(m for n in adds for m in fl.loops_of(n)):
            c = it["coll"]
            if source_is_edges(c) or c.op == "gexp":
                continue
            if any(x.op == "view" and x.args[0] != "nodes" and x is not it["elem"] for x in (c,)):
                continue
            if c.op == "obj" and fl.edges_inside(c):
                continue
            p = g.path([it], lambda n: n.id != it.id and n.kind in ("loophead", "loopexit") and n["loop"] is it["loop"], lambda n: n.id in ids)
            ck.ob("argument-left-out", f"{what}, {g.at(it)}", not p, f"some of the {what} are left out at {g.at(it)}: {g.show_path(p)}" if p else "every entry is passed on")


def fresh(ck, g, fl, call, t, what):
    """the value of an argument is read by the worker, and is the value itself"""
    rets = [n for n in g.ev("uret") if n["call"] == call.id]
    names = {n["name"] for r in rets for n in g.ev("setattr", root=call.root) if r["val"] in subterms(n["val"])}
    got, bad = [], []
    for o, puts in chain(fl, t).items():
        for n in puts:
            if n.root in ("main", "import") or n.kind == "fill":
                continue
            v = n["args"][-1]
            if v.op in ("attr", "load"):
                got.append(n)
            elif v.op == "obj" and any(m.root == n.root and m["obj"] is v for k in ("alloc", "objcopy") for m in g.ev(k)) or v.op == "obj" and "copy" in str(v.args[0]):
                bad.append(n)
    for n in bad:
        ck.ob("argument-value", f"{what}, {g.at(n)}", False, f"at {g.at(n)} the function is given {show(n['args'][-1], 3)}, not the value itself")
    if bad:
        return
    if got:
        ck.ob("argument-value", what, True, "read from the slots just before the call")
        return
    whole = fl.of(t)
    early = [n for o, puts in chain(fl, t).items() for n in puts if n.root == "main" and n.kind != "fill" and (n["args"][-1] is NONE or n["args"][-1].op in ("attr", "load") and fieldname(n["args"][-1]) in names) and any(m["val"] is not NONE and not source_is_edges(m["coll"]) for m in fl.loops_of(n) if "val" in m.data)]
    if names and early and not any(x.startswith("?") for x in whole):
        n = early[0]
        ck.ob("argument-value", f"{what}, {g.at(n)}", False, f"{what} are read at {g.at(n)}, before any call has run")
    else:
        ck.ob("argument-value", what, None, "not read from a field")


def stored(ck, g, fl, call):
    """the result is stored, whatever it is, in a place of its own"""
    for r in (n for n in g.ev("uret") if n["call"] == call.id):
        v = r["val"]
        st = [n for k in ("setattr", "setcell", "cadd", "mut", "mark") for n in g.ev(k, root=r.root) if v in subterms(n.get("val") or C(0)) or k in ("cadd", "mut") and any(v in subterms(a) for a in n["args"] if type(a) is T)]
        ids = {n.id for n in st}
        final = [n for n in st if n.kind == "setattr" or n.kind in ("cadd", "mut")]
        if not final:
            ck.ob("result-stored", g.at(r), None, "the result is not stored in a field")
            continue
        fin = {n.id for n in final}
        p = g.path([r], lambda n: n.kind == "end" and n.get("how") == "norm" or n.kind in ("q_get", "root") or n.kind == "mut" and n["op"] in ("q_get", "q_task_done"), lambda n: n.id in fin or n.kind in ("caught", "uexc") or n.kind == "raise")
        ck.ob("result-stored", g.at(r), not p, f"a result of the function called at {g.at(r)} is not kept: {g.show_path(p)}" if p else "kept on every path")
        for f in final:
            if f.kind != "setattr":
                continue
            other = [n for n in g.ev("setattr", root=r.root) if n["obj"] is f["obj"] and n["name"] == f["name"] and v not in subterms(n["val"]) and n.id in g.fwd([r], stop=lambda n: n.kind == "mut" and n["op"] in ("q_get", "q_task_done"))]
            for n in other:
                ck.ob("result-replaced", g.at(n), False, f"the result of the function is replaced by {show(n['val'], 4)} at {g.at(n)}")
            if not other:
                ck.ob("result-replaced", g.at(f), True, "no other value is assigned")
            slots = fl.values(f["obj"]) if f["obj"].op in ("attr", "load") else [f["obj"]]
            objs = [x for x in slots if x.op == "obj"]
            shared = [x for x in objs if not x.args[2] and not any(a["obj"] is x and (a.loops or a.root == r.root) for a in g.ev("alloc"))]
            if shared:
                ck.ob("result-apart", g.at(f), False, f"{show(shared[0], 3)} takes the results of all calls")
            else:
                ck.ob("result-apart", g.at(f), bool(objs) or None, "one object per node")


def pruned(ck, g):
    """literals that are arguments are still in the graph when arguments are taken from it"""
    binds = [n for n in g.ev("iter") if n.root == "main" and any(x.op == "view" and x.args[0] == "in_edges" for x in subterms(n["coll"]))]
    rem = []
    for n in g.ev("mut"):
        if n.root == "main" and n["op"] in ("remove_node", "remove_nodes_from"):
            x = n["args"][0]
            lit = any(a.op == "eq" and val and x in subterms(a) and "Literal" in show(a, 6) and "type" in show(a, 6) for a, val in n.facts.items())
            rest = [a for a, val in n.facts.items() if x in subterms(a) and not ("Literal" in show(a, 6) and "type" in show(a, 6))]
            rem.append((n, lit, rest))
    outs = ("succs", "out_edges", "adj", "edges")
    seen = {}
    for k in ("iter", "assume"):
        for n in g.ev(k, root="main"):
            for x in subterms(n.get("coll") or n.get("atom")):
                if x.op == "view" and x.args[0] in outs:
                    seen.setdefault(x.args[2] if len(x.args) > 2 else x.args[-1], []).append(n.id)
    ids = {b.id for b in binds}
    for n, lit, rest in rem:
        x = n["args"][0]
        guarded = not lit or x in seen or any(y.op == "view" and y.args[0] in outs for a in rest for y in subterms(a))
        p = None if guarded else g.path([n], lambda m: m.id in ids)
        ck.ob("literal-kept", g.at(n), not p, f"a literal without predecessors is removed at {g.at(n)}, whatever it is an argument of, before arguments are taken from the graph: {g.show_path(p)}" if p else "after the arguments were taken, or only if it is not an argument")


OUTPUTS = ("plan.call(FN)", "plan.lit(X)", "X", "0", "False", "[n]", "()", "''", "plan.lit(0)", "plan.lit(None)")


def output(ck, thorough):
    """the value of run is the result of the output node, or the literal itself"""
    for o in OUTPUTS if thorough else OUTPUTS[:8]:
        node = "call" in o or o == "[n]"
        src = clients.RUN_PLAIN.replace("DRY", "False").replace("PROG", "None").replace("out = plan.call(FN)", "class Leaf:\n    pass\nX = Leaf()\nn = plan.call(FN)\nout = " + o) + "\nRESULT(out, X, result, n)\n"
        g = ck.analyse(f"run with output {o}", src, env(RESULT=sym("RESULT", "mark")), stub_engine=True)
        at = g.ev("mark")
        what = f"output {o}"
        if not at:
            ck.ob("output", what, False, f"run with output={o} never returns")
            continue
        for n in at:
            x, leaf, r, other = n["args"]
            if node:
                if is_const(r) or r is x or r is leaf:
                    ck.ob("output", what, False, f"run with output={o} returns {show(r, 3)}, whatever the calls return")
                    continue
                if r.op == "load" and r.args[0].args[0] == "f":
                    owner = r.args[0].args[1]
                    if owner.op == "obj" and not owner.args[2] and not any(a["obj"] is owner and "Plan" in str(a["cls"]) for a in g.ev("alloc")):
                        mine = [a for a in g.ev("alloc") if a["obj"] is owner]
                        ck.ob("output", what, True if mine else None, "the field of one object")
                        continue
                    wrong = owner.op == "obj" and other in owner.args[2] and x is not other
                    ck.ob("output", what, not wrong, f"run with output={o} returns what another call of the plan returned" if wrong else "the field of the slot of the node")
                    continue
                ck.ob("output", what, None, show(r, 4))
                continue
            if o.startswith("plan.lit"):
                want = leaf if "X" in o else C(eval(o[9:-1]))
                ok = r is want
            elif is_const(x) or x.op in ("tup",) or o == "X":
                want, ok = x, r is x
            else:
                want, ok = x, None
            if ok is False and r.op in ("load", "attr", "phi", "res"):
                ok = None
            ck.ob("output", what, ok, f"run with output={o} returns {show(r, 3)} instead of {show(want, 3)}" if not ok else "the same value")
