"""Obligations on the code that copies, prunes and rewires plan graphs (analysed through uberjob.run)."""
from ..terms import C, FALSE, NONE, TRUE, mk, show, subterms
from .base import evalt, is_view, NoEval

LITERAL = "uberjob.graph.Literal"
CALL = "uberjob.graph.Call"
DEPENDENCY = "uberjob.graph.Dependency"


def cls_name(t):
    return t.args[0] if t.op in ("cls", "ext") else None


def type_fact(facts, x):
    """class names x is known to have / not to have"""
    yes, no = set(), set()
    for a, v in facts.items():
        if a.op == "eq" and a.args[0].op == "type" and a.args[0].args[0] is x:
            (yes if v else no).add(cls_name(a.args[1]))
        elif a.op == "isinst" and a.args[0] is x:
            c = cls_name(a.args[1])
            (yes if v else no).add(c)
    return yes, no


def empty_fact(facts, kinds, x):
    """is a view of x (preds, ...) known to be empty? True/False/None"""
    for a, v in facts.items():
        if a.op == "eq" and a.args[0].op == "len" and a.args[1] is C(0):
            w = a.args[0].args[0]
            if is_view(w) and w.args[0] in kinds and x in w.args[1:]:
                return v
        if a.op == "truthy" and is_view(a.args[0]) and a.args[0].args[0] in kinds and x in a.args[0].args[1:]:
            return not v
    return None


class Surgery:
    def __init__(self, ck, g, nothing=False):
        self.ck = ck
        self.nothing = nothing  # nothing is required: every node may go
        self.g = g
        self.graphs = [n["obj"] for n in g.ev("newgraph")] + [n["obj"] for n in g.ev("graphcopy")]
        gs = set(self.graphs)
        self.rm = [n for n in g.ev("mut") if n["op"] == "remove_node" and n["obj"] in gs]
        self.add_e = [n for n in g.ev("mut") if n["op"] == "add_edge" and n["obj"] in gs]
        self.rm_e = [n for n in g.ev("mut") if n["op"] == "remove_edge" and n["obj"] in gs]

    def classify(self, n):
        kind, s = self._classify(n)
        if kind == "route" and self.nothing and not any(type_fact(n.facts, n["args"][0])):
            return "prune", None
        if kind == "route":
            # a set whose members are all known is compared member by member
            x = n["args"][0]
            for m in self.rm:
                if m is n or m.loc != n.loc:
                    continue
                k, s2 = self._classify(m)
                if k == "prune" and any(a.op == "eq" and x in a.args and not v and set(a.args) & self.members(s2) for a, v in n.facts.items()):
                    return k, s2
        return kind, s

    def members(self, s):
        if s is None:
            return set()
        return {m["args"][0] for m in self.g.ev("mut") if m["obj"] is s and m["op"] == "add" and m["args"]}

    def _classify(self, n):
        x = n["args"][0]
        if x.op == "elem" and x.args[0].op == "setop" and x.args[0].args[0] in ("difference", "-"):
            return "prune", x.args[0].args[2]
        for a, v in n.facts.items():
            if a.op == "in" and a.args[0] is x and not v and a.args[1].op == "obj":
                if any(m["obj"] is a.args[1] for m in self.g.ev("mut", n.root) if m["op"] in ("add", "update", "extend")):
                    return "prune", a.args[1]
        if empty_fact(n.facts, ("preds", "pred", "in_edges"), x) is True:
            return "source", None
        return "route", None

    # ------------------------------------------------------------ removals
    def removals(self):
        ck, g = self.ck, self.g
        for n in self.rm:
            x = n["args"][0]
            kind, s = self.classify(n)
            here = g.at(n)
            if kind == "prune":
                ck.ob("removed-not-required", here, True, f"only nodes outside {show(s, 2)} are removed" if s is not None else "nothing is required")
                if s is not None:
                    self.closure(n, s)
                continue
            yes, no = type_fact(n.facts, x)
            ok = LITERAL in yes
            ck.ob("only-literals-removed", here, ok if (yes or no) else None if self.typed_elsewhere(n) else False, "a required node that is not a Literal may be removed")
            if kind == "source":
                ck.ob("removal-keeps-order", here, True, "the removed literal has no dependencies")
                continue
            self.route(n, x)

    def typed_elsewhere(self, n):
        return any(m.kind == "assume" and "type" in {t.op for t in subterms(m["atom"])} for m in self.g.ev("assume", n.root))

    def route(self, n, x):
        """removing an inner literal: predecessors are connected to successors first, argument literals stay"""
        ck, g = self.ck, self.g
        here = g.at(n)
        adds = []
        for m in self.add_e:
            if m["obj"] is not n["obj"] or m.root != n.root:
                continue
            u, v = m["args"][0], m["args"][1]
            pu = [t for t in subterms(u) if is_view(t) and t.args[0] in ("preds", "in_edges", "pred") and x in t.args]
            sv = [t for t in subterms(v) if is_view(t) and t.args[0] in ("succs", "out_edges", "succ") and x in t.args]
            if pu and sv:
                adds.append(m)
        if not adds:
            ck.ob("removal-keeps-order", here, False, "a literal with dependencies is removed without connecting its predecessors to its successors")
            return
        for m in adds:
            pu = [l for l in m.loops if any(is_view(t) and t.args[0] in ("preds", "in_edges", "pred") and x in t.args for t in subterms(l))]
            sv = [l for l in m.loops if any(is_view(t) and t.args[0] in ("succs", "out_edges", "succ") and x in t.args for t in subterms(l))]
            ok = True if pu and sv and set(pu) != set(sv) or len(set(pu) | set(sv)) > 1 else False if pu or sv else None
            ck.ob("all-pairs-connected", g.at(m), ok, "" if ok else "predecessors and successors are paired up, not combined")
        loops = set()
        inner = []
        for it in g.ev("iter", n.root):
            sub = g.fwd([it], stop=lambda z, it=it: z.kind in ("loopexit",) and z.get("loop") is it["loop"] or z.id == n.id)
            if any(m.id in sub and it["elem"] in m.loops for m in adds):
                loops.add(it["loop"])
                inner.append(it)
        # every way from the choice of x to its removal goes through the loop (or there is nothing to connect)
        defs = [m for m in g.ev("iter", n.root) if m.get("val") is x or m.get("elem") is x]

        def nothing(m):
            return m.kind == "assume" and m["val"] and m["atom"].op == "eq" and m["atom"].args[0].op == "len" and m["atom"].args[1] is C(0)

        starts = [y for d in defs for y in g.after(d)]
        if not starts:
            ck.ob("removal-keeps-order", here, None, "selection of the removed literal not understood")
        else:
            p = g.path(starts, lambda m: m.id == n.id, block=lambda m: m.kind == "loopexit" and m.get("loop") in loops or nothing(m) or m.kind == "iter" and m.get("val") is x)
            ck.ob("removal-keeps-order", here, p is None, "removed without connecting its neighbours: " + g.show_path(p) if p else "every predecessor is connected to every successor first")
        # no iteration of the innermost loop skips the connection
        for it in inner:
            nested = [j for j in inner if j["loop"] is not it["loop"] and it["elem"] in j.loops]
            if nested:
                continue

            def known(m):
                # the edge exists already
                return m.kind == "assume" and m["val"] and m["atom"].op == "in" and is_view(m["atom"].args[1]) and m["atom"].args[1].args[0] == "edges"

            p = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"] or m.id == n.id, block=lambda m: m in adds or known(m))
            if p and any(g.nodes[q].kind == "iter" and g.nodes[q].id != it.id for q in p):
                # passes through an inner loop that has no elements
                q = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"] or m.id == n.id, block=lambda m: m in adds or known(m) or m.kind == "loopexit" and m.get("loop") is not it["loop"])
                p = q
            elif p:
                q = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"] or m.id == n.id, block=lambda m: m in adds or known(m) or m.kind == "loopexit" and m.get("loop") is not it["loop"])
                p = q
            ck.ob("connection-for-every-pair", g.at(it), p is None, "a pair of neighbours is not connected: " + g.show_path(p) if p else "")
        # the collections of neighbours that are gone through have not been thinned out
        for coll in {it["coll"] for it in inner if it.get("coll") is not None and it["coll"].op == "obj"}:
            for c in g.ev("cadd", n.root):
                if c["obj"] is not coll:
                    continue
                for it in g.ev("iter", n.root):
                    e = it.get("elem")
                    if e is None or e not in c["args"] or e not in c.loops or x not in it.loops and x not in set(subterms(e)):
                        continue

                    def settled(m):
                        if m.kind == "loopexit":  # every one of the others has been looked at
                            return m.get("loop") is not it["loop"]
                        if m.kind != "assume" or not m["val"]:
                            return False
                        a = m["atom"]
                        return a.op in ("eq", "is") and x in a.args or a.op == "in" and a.args[0] is e and a.args[1].op == "obj"

                    p = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"], block=lambda m: m.kind == "cadd" and m["obj"] is coll or settled(m))
                    ck.ob("neighbours-complete", g.at(c), p is None, "a neighbour of the removed literal is left out: " + g.show_path(p) if p else "")
        # argument literals stay
        chk = [m for m in g.ev("assume", n.root) if m["atom"].op in ("eq", "isinst") and any(t.op == "ek" for t in subterms(m["atom"])) and any(is_view(t, "out_edges") and x in t.args for t in subterms(m["atom"]))]
        for m in chk:
            c = cls_name(m["atom"].args[1]) if len(m["atom"].args) > 1 else None
            isdep = (c == DEPENDENCY) == m["val"] if c else None
            if isdep is False or (c and c != DEPENDENCY and m["val"]):
                p = g.path(g.after(m), lambda z: z.id == n.id, block=lambda z: z.kind == "iter" and z.get("val") is x)
                ck.ob("argument-literal-kept", g.at(m), p is None, "a literal that is an argument of a call is removed: " + g.show_path(p) if p else "")
        if not chk:
            ck.ob("argument-literal-kept", here, None, "no inspection of the literal's outgoing edges found")
        # a literal on a cycle with itself stays
        self_loop = None
        for a, v in n.facts.items():
            if a.op == "in" and a.args[0] is x:
                self_loop = not v if self_loop is None else self_loop
        gone = any(a.op == "in" and a.args[0] is x and not v for a, v in n.facts.items()) or any(
            m.kind == "assume" and m["atom"].op == "in" and m["atom"].args[0] is x and m["atom"].args[1].op == "obj" for m in g.ev("assume", n.root)
        ) and g.path(starts, lambda m: m.id == n.id, block=lambda m: m.kind == "assume" and m["atom"].op == "in" and m["atom"].args[0] is x and not m["val"]) is None
        ck.ob("cyclic-literal-kept", here, bool(gone), "a literal that is its own dependency is removed, which hides the cycle")

    def output_kept(self, out):
        """no removal may hit the output node"""
        ck, g = self.ck, self.g
        for n in self.rm:
            kind, s = self.classify(n)
            if kind == "prune":
                continue
            if kind == "source":
                continue
            x = n["args"][0]
            ok = any(a.op == "eq" and set(a.args) == {x, out} and not v for a, v in n.facts.items())
            ck.ob("output-node-kept", g.at(n), ok, "the output node itself may be removed")

    # ------------------------------------------------------------ ancestor closure
    def closure(self, n, s):
        """the set s that survives pruning is closed under predecessors"""
        ck, g = self.ck, self.g
        here = g.at(n)
        r = n.root
        adds = [m for m in g.ev("mut", r) if m["obj"] is s and m["op"] == "add"]
        if s.op == "obj" and not adds:
            ck.ob("closure", here, None, "the set of required nodes is not built by a worklist")
            return
        if not adds:
            ck.ob("closure", here, None, f"required set {show(s, 3)}")
            return
        fids = {m.stack for m in adds}
        pops = [m for m in g.ev("mut", r) if m["op"] in ("pop", "popleft", "remove", "popitem") and m["obj"] is not s and m.stack in fids]
        works = list(dict.fromkeys(m["obj"] for m in pops))

        def preds_of(t, x):
            return any(is_view(y) and y.args[0] in ("preds", "in_edges", "pred") and x in y.args for y in subterms(t))

        uses = [m for m in g.ev(root=r) if m.kind in ("mut", "snapshot", "iter") and m.stack not in fids and (m.get("coll") is s or any(s in a.leaves for a in (m.get("args") or ()) if hasattr(a, "leaves")))]
        uses = {m.id for m in uses} | {n.id}
        if not pops:
            ck.ob("closure", here, None, "no worklist found")
            return

        def head(m):
            return m.kind == "loophead" and m.stack in fids and any(q["coll"].op == "while" for q in g.ev("iter", r) if q["loop"] is m.get("loop")) or m in pops or m.id in uses

        # style 2: nodes are marked when they are put on the worklist, and expanded when they are taken from it
        puts = [m for m in g.ev("mut", r) if m["obj"] in works and m["op"] in ("append", "add", "appendleft", "extend", "update") and m.stack in fids]

        def with_mark(m):
            mark = lambda z: z in adds and z["args"][0] is m["args"][0]
            if m["op"] in ("extend", "update") or not any(mark(z) for z in adds):
                return False
            if g.path(g.after(m), head, block=mark) is None:
                return True
            its = [z for z in g.ev("iter", r) if z.get("val") is m["args"][0] or z.get("elem") is m["args"][0]]
            return bool(its) and g.path([y for z in its for y in g.after(z)], lambda z: z is m, block=mark) is None

        if puts and all(with_mark(m) for m in puts):
            self.marked_when_put(n, s, adds, pops, puts, works, head, preds_of, uses)
            return
        for e in adds:
            x = e["args"][0]

            def cover(m):
                if m.kind == "mut" and m["obj"] in works and m["op"] in ("extend", "update", "append", "add", "appendleft"):
                    return any(preds_of(a, x) for a in m["args"])
                return m.kind == "loopexit" and m.get("coll") is not None and preds_of(m["coll"], x)

            p = g.path(g.after(e), head, block=cover)
            if p is not None:
                before = [q for q in pops if e.id in g.fwd(g.after(q), stop=lambda z: z in pops)]
                if before and all(g.path(g.after(q), lambda m: m.id == e.id, block=lambda m: cover(m) or m in pops and m is not q) is None for q in before):
                    p = None
            ck.ob("closure-follows-predecessors", g.at(e), p is None, "the predecessors of a required node are not visited: " + g.show_path(p) if p else "predecessors of every member are visited")
        members = {m["args"][0] for m in adds}
        for q in pops:
            def kept(m):
                if m in adds:
                    return True
                if m.kind == "assume" and m["val"]:
                    a = m["atom"]
                    return a.op == "in" and a.args[1] is s or a.op == "eq" and any(t in members or t.op == "pop" for t in a.args)
                return False
            p = g.path(g.after(q), lambda m: m in pops and m is not q or m.id in uses or m is q, block=kept)
            ck.ob("closure-keeps-visited", g.at(q), p is None, "a node that must be kept is dropped: " + g.show_path(p) if p else "")
        pushes = [m for m in g.ev("mut", r) if m["obj"] in works and m["op"] in ("extend", "append", "add", "update", "appendleft")]
        for m in pushes:
            p = g.path(g.after(m), lambda z: z.id in uses, block=lambda z: z.kind == "assume" and z["atom"].op == "eq" and z["atom"].args[0].op == "len" and z["atom"].args[1] is C(0) and z["val"])
            ck.ob("closure-complete", g.at(m), p is None, "the search can stop while nodes remain to be visited: " + g.show_path(p) if p else "")
            for a in m["args"]:
                vs = [t for t in subterms(a) if is_view(t)]
                bad = [t for t in vs if t.args[0] in ("succs", "out_edges", "succ")]
                ck.ob("closure-only-predecessors", g.at(m), not bad, "successors of required nodes are kept although nothing needs them" if bad else "")

    def marked_when_put(self, n, s, adds, pops, puts, works, head, preds_of, uses):
        ck, g, r = self.ck, self.g, n.root
        for e in adds:
            if not any(m.stack == e.stack for m in puts):
                continue
            x = e["args"][0]
            put = lambda m: m in puts and m["args"][0] is x
            p = g.path(g.after(e), head, block=put)
            if p is not None:
                its = [z for z in g.ev("iter", r) if z.get("val") is x or z.get("elem") is x]
                if its and g.path([y for z in its for y in g.after(z)], lambda z: z is e, block=put) is None:
                    p = None
            ck.ob("closure-follows-predecessors", g.at(e), p is None, "a required node is not looked at again: " + g.show_path(p) if p else "every member is put on the worklist")
        for q in pops:
            y = q.get("val")
            y = y if y is not None else next((m.get("val") for m in g.ev("popped", r) if m.loc == q.loc), None)

            def expanded(m):
                c = m.get("coll")
                return m.kind == "loopexit" and c is not None and (preds_of(c, y) if y is not None else any(is_view(t) and t.args[0] in ("preds", "in_edges", "pred") for t in subterms(c)))

            p = g.path(g.after(q), lambda m: head(m) or m is q, block=expanded)
            ck.ob("closure-follows-predecessors", g.at(q), p is None, "the predecessors of a required node are not visited: " + g.show_path(p) if p else "predecessors of every member are visited")
        for it in g.ev("iter", r):
            c = it.get("coll")
            if c is None or not any(is_view(t) and t.args[0] in ("preds", "in_edges", "pred") for t in subterms(c)) or not any(it["elem"] in m.loops for m in puts):
                continue

            def member(m):
                if m in adds:
                    return True
                if m.kind == "assume" and m["val"]:
                    a = m["atom"]
                    return a.op == "in" and a.args[1] is s or a.op == "eq" and it["val"] in a.args
                return False

            p = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"], block=member)
            ck.ob("closure-keeps-visited", g.at(it), p is None, "a node that must be kept is dropped: " + g.show_path(p) if p else "")
        for m in puts:
            p = g.path(g.after(m), lambda z: z.id in uses, block=lambda z: z.kind == "assume" and z["atom"].op == "eq" and z["atom"].args[0].op == "len" and z["atom"].args[1] is C(0) and z["val"])
            ck.ob("closure-complete", g.at(m), p is None, "the search can stop while nodes remain to be visited: " + g.show_path(p) if p else "")
            its = [z for z in g.ev("iter", r) if z.get("val") is m["args"][0] or z.get("elem") is m["args"][0]]
            bad = [z for z in its if any(is_view(t) and t.args[0] in ("succs", "out_edges", "succ") for t in subterms(z["coll"]))]
            ck.ob("closure-only-predecessors", g.at(m), not bad, "successors of required nodes are kept although nothing needs them" if bad else "")

    def seeds(self, want):
        """the required set contains the node `want`"""
        ck, g = self.ck, self.g
        for n in self.rm:
            kind, s = self.classify(n)
            if kind != "prune":
                continue
            srcs = [s]
            for o in srcs:
                srcs += [m["coll"] for m in g.ev("fill", n.root) if m["obj"] is o and m["coll"] not in srcs and m["coll"].op == "obj"]
            adds = [m for m in g.ev("mut", n.root) if m["obj"] in srcs and m["op"] in ("add", "append") and m["args"][0] is want]
            if not adds:
                ck.ob("closure-starts-at-output", g.at(n), None, "initial required set not understood")
                continue
            root = g.root_of(n.root)
            p = g.path([root], lambda m: m.id == n.id, block=lambda m: m in adds)
            ck.ob("closure-starts-at-output", g.at(n), p is None, "the output node may be missing from the required set: " + g.show_path(p) if p else "")

    def engine_calls(self, roots):
        """calls of the engine whose worker threads are among the given roots"""
        g = self.g
        starts = {x for t in g.threads if t["name"] in roots for x in t["starts"]}
        out = []
        for m in g.ev("enter", "main"):
            if g.it.fns[m["fid"]].name == "run_function_on_graph":
                reach = g.fwd(g.after(m), stop=lambda z: z.kind == "thread_start")
                if reach & starts:
                    out.append(m)
        return out

    def checked_graph(self, roots, mappings):
        """every registered node is part of the graph whose nodes are checked for staleness"""
        ck, g = self.ck, self.g
        graphs = {m["args"].get("graph") for m in self.engine_calls(roots)}
        seen = {n["obj"] for n in self.rm}
        for n in self.rm:
            if n["obj"] not in graphs or self.classify(n)[0] == "prune":
                continue
            before = {m.id for m in self.engine_calls(roots)}
            if not g.fwd(g.after(n)) & before:
                continue
            x = n["args"][0]
            free = any(a.op == "in" and a.args[0] is x and a.args[1] in mappings and not v for a, v in n.facts.items())
            made = [m.id for k in ("graphcopy", "newgraph") for m in g.ev(k, "main") if m["obj"] is n["obj"]]
            since = g.fwd(made) if made else None
            about = any(m["atom"].op == "in" and m["atom"].args[1] in mappings for m in g.ev("assume", "main") if (since is None or m.id in since) and n.id in g.fwd([m.id]))
            ck.ob("checked-graph-complete", g.at(n), True if free else None if about else False, "a node with a value store may be removed before the staleness check" if not free else "only nodes without a value store are removed")

    def pruned(self, skip=()):
        """the engine never gets a graph that still holds unneeded nodes"""
        ck, g = self.ck, self.g
        ents = [m for m in g.ev("enter", "main") if g.it.fns[m["fid"]].name == "run_function_on_graph"]
        skipped = {m.id for m in self.engine_calls(skip)} if skip else ()
        ents = [m for m in ents if m.id not in skipped]
        for e in ents:
            ids = {m["loop"] for m in g.ev("iter", "main") if any(z["args"][0] is m.get("val") or z["args"][0] is m.get("elem") for z in self.rm if self.classify(z)[0] == "prune")}
            p = g.path([g.root_of("main")], lambda m: m.id == e.id, block=lambda m: m.kind == "loopexit" and m.get("loop") in ids)
            ck.ob("pruned-before-run", g.at(e), p is None if ids else None, "nodes that nothing needs are executed: " + g.show_path(p) if p else "")

    def unconditional_prune(self):
        """a node outside the required set is always removed"""
        ck, g = self.ck, self.g
        for n in self.rm:
            kind, s = self.classify(n)
            if kind != "prune":
                continue
            x = n["args"][0]
            for it in [m for m in g.ev("iter", n.root) if m.get("val") is x or m.get("elem") is x]:
                known = self.members(s)

                def required(m):
                    if m.kind != "assume" or not m["val"]:
                        return False
                    a = m["atom"]
                    return a.op == "in" and a.args[1] is s or a.op == "eq" and x in a.args and bool(set(a.args) & known)
                p = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit") and m.get("loop") is it["loop"], block=lambda m: m is n or m.kind == "mut" and m["op"] == "remove_node" or required(m))
                ck.ob("unneeded-removed", g.at(it), p is None, "a node that nothing needs is kept: " + g.show_path(p) if p else "")

    # ------------------------------------------------------------ who gets which graph
    def only_known_edge_removals(self):
        for m in self.rm_e:
            self.ck.ob("edge-removed", self.g.at(m), True, "checked by the value store rules")
