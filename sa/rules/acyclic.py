"""Cycles are reported before any work starts: dominance of the cycle test and obligations on Kahn's algorithm."""
from ..terms import C, FALSE, NONE, TRUE, mk, show, subterms
from .base import NoEval, evalt, is_view

PREDS = ("preds", "in_edges", "pred", "pred_edges")
SUCCS = ("succs", "out_edges", "succ")


def exc_name(g, n):
    c = n.get("cls")
    x = n["exc"]
    names = []
    if c is not None:
        names.append(str(c.args[0] if hasattr(c, "args") else c))
    if x is not None and hasattr(x, "op"):
        names.append(show(x, 4))
    return " ".join(names)


class Acyclic:
    def __init__(self, ck, g, graph, root="main"):
        self.ck, self.g, self.graph, self.root = ck, g, graph, root
        self.raises = [n for n in g.ev("raise", root) if any(w in exc_name(g, n) for w in ("Cycle", "Acyclic", "Unfeasible"))]

    def about_graph(self, r):
        """does the function that raises r work on the graph handed to the engine?"""
        for n in self.g.ev(("iter", "loopexit"), self.root):
            if n.stack == r.stack:
                c = n.get("coll")
                if c is not None and any(t is self.graph for t in subterms(c)):
                    return True
        e = [n for n in self.g.ev(("extcall", "graphcall"), self.root) if n.stack == r.stack]
        return not any(n.stack == r.stack for n in self.g.ev("iter", self.root)) or bool(e)

    def run(self, starts, what="a worker is started"):
        ck, g = self.ck, self.g
        rs = [r for r in self.raises if self.about_graph(r)]
        if not rs:
            ck.ob("cycle-reported", self.root, False, "no cycle error is ever raised for the graph that is executed")
            return
        root = g.root_of(self.root)
        targets = {s.id for s in starts}
        before = [r for r in rs if g.path([root], lambda m: m.id == r.id, block=lambda m: m.id in targets)]
        ck.ob("cycle-reported", g.at(rs[0]), bool(before), f"cycle error raised before {what}" if before else f"the cycle error is only raised after {what}")
        # the tests that decide about raising
        tests = set()
        loops = set()
        for r in before:
            work = list(g.nodes[r.id].preds)
            seen = set()
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                n = g.nodes[x]
                if n.kind == "assume":
                    tests |= set(n.preds)
                    for it in g.ev("iter", self.root):
                        if n.loops and it["elem"] is n.loops[-1] and it.stack == n.stack:
                            loops.add(it["loop"])
                    continue
                if n.kind in ("root",):
                    continue
                work += n.preds
        block = lambda m: m.id in tests or m.kind == "loopexit" and m.get("loop") in loops or m.kind == "iter" and m.get("loop") in loops
        p = g.path([root], lambda m: m.id in targets, block=block)
        ck.ob("cycle-test-first", g.at(before[0] if before else rs[0]), p is None, f"{what} without testing for cycles: " + g.show_path(p) if p else f"every path tests for cycles before {what}")
        for r in {r.stack: r for r in before}.values():
            self.kahn(r)

    # ------------------------------------------------------------------
    def kahn(self, r):
        ck, g = self.ck, self.g
        here = g.at(r)
        st = r.stack
        ev = [n for n in g.nodes[g.base:] if n.root == self.root and n.stack == st]
        gnodes = lambda c: c is not None and (c is self.graph or is_view(c, "nodes") and c.args[1] is self.graph)
        inits = [n for n in ev if n.kind == "iter" and gnodes(n.get("coll"))]
        # the worklist
        pops = [n for n in ev if n.kind == "mut" and n["op"] in ("pop", "popleft", "popitem") and n.get("obj") is not None]
        works = list(dict.fromkeys(n["obj"] for n in pops))
        muts = [n for n in ev if n.kind == "mut"]
        push = [n for n in muts if n["obj"] in works and n["op"] in ("append", "appendleft", "add", "insert")]
        sets = [n for n in muts if n["op"] == "setitem"]
        counts = list(dict.fromkeys(n["obj"] for n in sets))
        # walked neighbours of the popped node
        walks = [n for n in ev if n.kind == "iter" and is_view(n.get("coll")) and n["coll"].args[0] in SUCCS + PREDS and n["coll"].args[1] is self.graph and any(t.op == "pop" for t in n["coll"].leaves)]
        if not (pops and walks and sets):
            ck.ob("kahn", here, None, "cycle test is not a recognised form of Kahn's algorithm")
            return
        kinds = {n["coll"].args[0] for n in walks}
        # initial counts
        init_sets = [n for n in sets if any(self.measure(n["args"][1], k) for k in (0,)) or any(is_view(t) for t in subterms(n["args"][1]) if t.op == "view" and t.args[0] in PREDS + SUCCS)]
        meas = set()
        for n in sets:
            v = n["args"][1]
            k = n["args"][0]
            if not (k.op == "elem" and gnodes(k.args[0])):
                continue
            ls = [t for t in subterms(v) if t.op == "len" and is_view(t.args[0]) and k in t.args[0].args]
            if len(ls) == 1:
                meas.add(ls[0].args[0].args[0])
                try:
                    ok = all(evalt(v, {ls[0]: c}) == c for c in (1, 2, 3))
                except NoEval:
                    ok = None
                ck.ob("kahn-initial-count", g.at(n), ok, show(v, 3))
        pair = {"succs": ("preds",), "out_edges": ("in_edges", "pred_edges"), "preds": ("succs",), "in_edges": ("out_edges",)}
        if meas:
            ok = all(any(m in pair.get(k, ()) for k in kinds) for m in meas)
            ck.ob("kahn-measure", here, ok, f"counts {sorted(meas)} but walks {sorted(kinds)}: an acyclic graph with parallel edges is rejected or a cycle is missed" if not ok else "")
        else:
            ck.ob("kahn-initial-count", here, None, "initial counts not understood")
        # every node is either counted or put on the worklist initially
        for it in inits:
            x = it.get("val")
            if x is None:
                x = it["elem"]
            for k in (0, 1, 2):
                def contra(m, k=k, x=x):
                    if m.kind != "assume":
                        return False
                    ts = [t for t in subterms(m["atom"]) if t.op == "len" and is_view(t.args[0]) and x in t.args[0].args]
                    if not ts:
                        return False
                    try:
                        return bool(evalt(m["atom"], {t: k for t in ts})) != m["val"]
                    except (NoEval, TypeError):
                        return False
                if not any(s["args"][0] is x for s in sets) and not any(p["args"][-1] is x for p in push):
                    continue
                want = [p.id for p in push if p["args"][-1] is x] if k == 0 else [s.id for s in sets if s["args"][0] is x]
                if not want and k:
                    continue
                p = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"], block=lambda m: m.id in want or contra(m))
                ck.ob("kahn-initial", g.at(it), p is None, f"a node with {k} predecessors is {'not started from' if k == 0 else 'not counted'}: " + g.show_path(p) if p else "")
                if k:
                    q = g.path(g.after(it), lambda m: m in push and m["args"][-1] is x, block=lambda m: contra(m) or m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"])
                    ck.ob("kahn-initial", g.at(it), q is None, f"a node with {k} predecessors is started from: " + g.show_path(q) if q else "")
        # decrement exactly once per neighbour, by one, pushed when nothing remains
        for w in walks:
            x = w.get("val") or w["elem"]
            dec = [s for s in sets if s["obj"] in counts and s["args"][0] is x]
            head = lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is w["loop"]

            def absent(m):
                return m.kind == "assume" and m["atom"].op == "in" and m["atom"].args[0] is x and not m["val"]
            gone = [m for m in muts if m["obj"] in counts and m["op"] in ("delitem", "pop") and m.get("args") and m["args"][0] is x]
            p = g.path(g.after(w), head, block=lambda m: m in dec or m in gone or absent(m))
            ck.ob("kahn-decrement", g.at(w), p is None, "a visited edge is not counted down: " + g.show_path(p) if p else "")
            for d in dec:
                v = d["args"][1]
                ls = [t for t in subterms(v) if t.op in ("load", "cnt", "len", "dget") or t.op == "item"]
                top = [t for t in (v.args if v.op in ("sub", "add") else ()) if t.op in ("load", "cnt", "len", "dget")]
                try:
                    ok = bool(top) and evalt(v, {top[0]: 5}) == 4
                except NoEval:
                    ok = None
                ck.ob("kahn-decrement", g.at(d), ok if top else None, show(v, 3))
                p = g.path(g.after(d), lambda m: m in dec and m.id != d.id, block=lambda m: head(m) or m.kind == "iter" and m.get("loop") is w["loop"])
                ck.ob("kahn-decrement-once", g.at(d), p is None, "counted down twice" if p else "")
            zero = None
            for q in push:
                if q["args"][-1] is not x:
                    continue
                good = any(a.op == "eq" and a.args[1] is C(0) and a.args[0].op in ("cnt", "load", "dget", "sub", "len") and v for a, v in q.facts.items() if x in a.leaves or any(x in t.leaves for t in a.args))
                good = good or any(a.op in ("truthy",) and a.args[0].op in ("cnt", "load", "sub") and not v for a, v in q.facts.items())
                good = good or any(a.op in ("lt", "eq") and any(z.op in ("load", "cnt") for z in subterms(a)) for a, v in q.facts.items())
                ck.ob("kahn-push-when-zero", g.at(q), True if good else None, "")
                zero = True
            if zero is None:
                ck.ob("kahn-push-when-zero", g.at(w), None, "no push of finished nodes recognised")
            else:
                # a node whose count reaches zero is pushed
                def nonzero(m):
                    if m.kind != "assume":
                        return False
                    a = m["atom"]
                    if a.op == "eq" and a.args[1] is C(0) and a.args[0].op in ("cnt", "load", "len", "sub", "dget"):
                        return not m["val"]
                    if a.op == "truthy" and a.args[0].op in ("cnt", "load", "len", "sub", "dget"):
                        return m["val"]
                    if a.op == "lt":
                        return True
                    if a.op == "eq" and a.args[1].op == "const":
                        return not m["val"]
                    return False
                ps = [q for q in push if q["args"][-1] is x]
                p = g.path(g.after(w), head, block=lambda m: m in ps or nonzero(m) or absent(m))
                ck.ob("kahn-push-finished", g.at(w), p is None, "a node all of whose predecessors are done is not visited: " + g.show_path(p) if p else "")
        # the worklist is emptied before the verdict
        for q in push:
            def drained(m):
                a = m["atom"] if m.kind == "assume" else None
                return a is not None and (a.op == "eq" and a.args[0].op == "len" and a.args[0].args[0] in works and m["val"] or a.op == "truthy" and a.args[0] in works and not m["val"])
            p = g.path(g.after(q), lambda m: m.id == r.id, block=drained)
            ck.ob("kahn-complete", g.at(q), p is None, "the verdict is given before the worklist is empty: " + g.show_path(p) if p else "")
        self.verdict(r, st, works, counts, push)

    def verdict(self, r, st, works, counts, push):
        """once the worklist is empty, the function only returns normally when no node remains"""
        ck, g = self.ck, self.g
        here = g.at(r)
        k = len(st)
        inside = lambda n: n.root == self.root and n.stack[:k] == st
        loops = [n for n in g.ev("loopexit", self.root) if n.stack == st]

        left = lambda z: z.kind == "end" or z.kind != "join" and len(z.stack) < k

        def drained(m):
            a = m["atom"] if m.kind == "assume" else None
            return a is not None and inside(m) and (a.op == "eq" and a.args[0].op == "len" and a.args[0].args[0] in works and m["val"] or a.op == "truthy" and a.args[0] in works and not m["val"])

        starts = [m for m in g.ev("assume", self.root) if drained(m)]
        if not starts:
            ck.ob("kahn-verdict", here, None, "the end of the search was not recognised")
            return
        post = g.fwd(starts, stop=lambda m: not inside(m) or m.kind == "raise")
        derived = set(counts)
        for _ in range(3):
            for m in g.ev(("mut", "snapshot"), self.root):
                if m.id in post and m["obj"] not in derived and any(g.nodes[x].kind == "iter" and any(t in derived for t in subterms(g.nodes[x]["coll"])) for x in g.bwd([m], block=lambda z: z.id not in post)):
                    derived.add(m["obj"])
        nodes_len = lambda t: t.op == "len" and (t.args[0] is self.graph or is_view(t.args[0]) and self.graph in t.args[0].args and len(t.args[0].args) == 2) and True
        numeric, found = set(), False
        walked = any(m.id in post and any(t in counts for t in subterms(m["coll"])) for m in g.ev("iter", self.root))
        for m in g.ev("assume", self.root):
            if m.id not in post:
                continue
            ts = list(subterms(m["atom"]))
            rem = {t for t in ts if t.op == "int" and (any(d in t.leaves or d in t.args for d in derived) or walked and any(x.op == "obj" and x not in works and x is not self.graph for x in t.args if hasattr(x, "op")))}
            tot = {t for t in ts if nodes_len(t)}
            if not rem:
                continue
            numeric.add(m.id)
            if not g.path([m], left, block=lambda z: z.kind == "raise"):
                continue
            bad = None
            try:
                for n in range(1, 9):
                    for q in range(1, n + 1):
                        if bool(evalt(m["atom"], {**{t: q for t in rem}, **{t: n for t in tot}})) == m["val"]:
                            bad = (n, q)
                            break
            except (NoEval, TypeError):
                ck.ob("kahn-verdict", g.at(m), None, show(m["atom"], 3))
                found = True
                continue
            found = True
            ck.ob("kahn-verdict", g.at(m), bad is None, "the error is raised whenever a node remains" if bad is None else f"no error although {bad[1]} of {bad[0]} nodes remain")

        def remains(m):
            if m.kind != "assume" or m.id not in post:
                return False
            a, v = m["atom"], m["val"]
            t = a.args[0] if a.args else None
            if a.op == "truthy" and t.op in ("cnt", "load", "old", "elem", "ev", "dget", "item"):
                return v
            return a.op == "eq" and a.args[1] is C(0) and t.op in ("cnt", "load", "dget", "item") and not v

        for m in g.ev("assume", self.root):
            if remains(m):
                p = g.path(g.after(m), left, block=lambda z: z.kind == "raise" or z.id in numeric)
                found = True
                ck.ob("kahn-verdict", g.at(m), p is None, "no error although a node remains: " + g.show_path(p) if p else "a remaining node is reported")
        if not found:
            ck.ob("kahn-verdict", here, None, "test for remaining nodes not recognised")

    def measure(self, v, k):
        return False
