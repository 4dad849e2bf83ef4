"""Obligations on the execution engine: run_function_on_graph analysed with an arbitrary graph and function."""
from ..core import norm
from ..terms import C, FALSE, NONE, T, TRUE, cval, find, is_const, mk, show, subterms
from .base import AnchorError, G, NoEval, allowed, env, evalt, fact, is_view, ENGINE

FN = mk("sym", "FN", "callable")
WC = mk("sym", "WC", "int")
MAXE = mk("sym", "MAXE", "int")


def nodelike(x):
    """does the term denote a node of the graph (as opposed to a sentinel)?"""
    return x.op in ("elem", "item", "ev", "eu", "old", "pop", "load", "dget", "phi", "unpack", "data") or any(
        l.op in ("elem", "item", "pop") for l in x.leaves
    ) and x.op != "obj"


class Engine:
    def __init__(self, ck, sched="default", **policy):
        self.ck = ck
        g = self.g = ck.analyse("engine/" + str(sched), ENGINE, env(SCHED=C(sched)), **policy)
        self.graph = next((o for o in g.it_graphs()), None) if hasattr(g, "it_graphs") else None
        for n in g.ev("newgraph"):
            if n.loc[0] == "client":
                self.graph = n["obj"]
        ck.need(self.graph is not None, "the client graph was not created")
        self.ucalls = [n for n in g.ev("ucall") if n["fn"] is FN]
        ck.need(self.ucalls, "no call of the function given to run_function_on_graph was found")
        self.wroots = list(dict.fromkeys(n.root for n in self.ucalls if n.root != "main"))
        self.rets = [n for n in g.ev("uret") if n["fn"] is FN]
        self.excs = [n for n in g.ev("uexc") if n["fn"] is FN]
        self.gets = [n for n in g.ev("q_get") if n.root in self.wroots]
        self.starts = g.ev("thread_start")
        self.view_nodes = mk("view", "nodes", self.graph)

    # ---- helpers
    def arg(self, u):
        a = u["args"]
        if not a:
            return None
        x = a[0]
        return x.args[0] if x.op == "pos" else None

    def node_param(self, x):
        """x = an arbitrary node of the graph?"""
        return x.op == "elem" and (x.args[0] is self.view_nodes or x.args[0] is self.graph)

    def measure(self, x):
        """terms for 'number of predecessors of x' : {term: per-'distinct' or per-'edge'}"""
        g = self.graph
        return {
            mk("len", mk("view", "preds", g, x)): "distinct",
            mk("len", mk("view", "in_edges", g, x)): "edge",
        }

    def pred_terms(self, facts, x):
        out = []
        for a in facts:
            for t in subterms(a):
                if t.op == "len" and is_view(t.args[0]) and t.args[0].args[0] in ("preds", "in_edges", "pred"):
                    if x in t.args[0].args[1:]:
                        out.append(t)
                elif t.op in ("in_degree", "indeg") and x in t.args:
                    out.append(t)
        return list(dict.fromkeys(out))

    def ks(self, facts, x, ks=(0, 1, 2, 3)):
        """which predecessor counts of x do the facts permit; None when no fact mentions them"""
        ts = self.pred_terms(facts, x)
        if not ts:
            return None
        out = []
        for k in ks:
            ok = True
            for a, v in facts.items():
                try:
                    r = evalt(a, {t: k for t in ts})
                except (NoEval, TypeError):
                    continue
                if bool(r) != v:
                    ok = False
            if ok:
                out.append(k)
        return out

    # ---- entries of containers at the start of the workers
    def generic_entries(self, st, pred):
        """(container object, entry) for generic node entries"""
        for o, r in st.heap.items():
            for e in r.entries:
                if not e.params:
                    continue
                p = e.params[0]
                if self.node_param(p):
                    yield o, r, e

    def queue_roots(self, st, q):
        """objects reachable from the queue's own fields"""
        seen = set()
        work = [q]
        while work:
            o = work.pop()
            if o in seen or o.op != "obj":
                continue
            seen.add(o)
            r = st.heap.get(o)
            if r is None:
                continue
            for v in r.fields.values():
                work += [x for x in v.leaves if x.op == "obj"]
            for e in r.entries:
                for v in (e.key, e.val):
                    if v is not None:
                        work += [x for x in v.leaves if x.op == "obj"]
            if r.base is not None:
                work += [x for x in r.base.leaves if x.op == "obj"]
        return seen

    # ---- the rules -------------------------------------------------------
    def where(self, n):
        return self.g.at(n)

    def items(self):
        """R-item: the function is only applied to items taken from the work queue"""
        ck, g = self.ck, self.g
        for u in self.ucalls:
            x = self.arg(u)
            ok = u.root != "main" and x is not None and x.op == "item"
            ck.ob("fn-applied-to-queue-items", self.where(u), ok, f"argument {show(x, 3) if x else None} in {u.root}")

    def released(self):
        """[(event, item)] where a node is handed to the workers"""
        out = []
        for n in self.g.ev("q_put"):
            if nodelike(n["item"]):
                out.append((n, n["item"]))
        for u in self.ucalls:
            x = self.arg(u)
            if x is not None and x.op != "item":
                out.append((u, x))
        return out

    def queues(self):
        return list(dict.fromkeys(n["q"] for n in self.gets))

    def initial(self):
        """what the queue may hold when the workers start: only nodes without predecessors, and all of them"""
        ck, g = self.ck, self.g
        for t in self.g.threads:
            if t["name"] not in self.wroots:
                continue
            st = t["state"]
            found = []
            allk = set()
            for q in self.queues():
                objs = self.queue_roots(st, q)
                for o in objs:
                    r = st.heap.get(o)
                    for e in r.entries if r else ():
                        if not e.params:
                            continue
                        p = e.params[0]
                        if not self.node_param(p):
                            continue
                        ks = self.ks(dict(e.facts), p)
                        found.append((o, ks))
                        allk |= set(ks if ks is not None else (0, 1, 2, 3))
            # lists copied wholesale into the queue (deque(source_nodes)) keep the generic entry or a base
            puts = [n for n in g.ev("q_put", "main") if nodelike(n["item"])]
            for n in puts:
                ks = self.ks(n.facts, n["item"])
                found.append((n["item"], ks))
                allk |= set(ks if ks is not None else (0, 1, 2, 3))
            if not found:
                ck.ob("initial-work", t["name"], None, "initial queue content not understood")
                continue
            bad = [k for k in allk if k != 0]
            ck.ob(
                "initial-work-has-no-predecessors",
                "start of the workers",
                not bad,
                f"queue may initially hold nodes with {sorted(bad)} predecessors" if bad else f"{len(found)} generic entries",
            )
            ck.ob("initial-work-complete", "start of the workers", 0 in allk, "nodes without predecessors are put on the queue initially")

    def counters(self):
        """snapshot facts about the per-node bookkeeping containers"""
        out = {}
        for t in self.g.threads:
            if t["name"] not in self.wroots:
                continue
            for o, r, e in self.generic_entries(t["state"], None):
                out.setdefault(o, []).append((r, e))
        return out

    def release_in_workers(self):
        """R-after: nodes are handed out only after fn succeeded on the current item; guards; each at most once"""
        ck, g = self.ck, self.g
        cnt = self.counters()
        res = []
        for n, x in self.released():
            if n.root == "main":
                continue
            here = self.where(n)
            # (a) dominated by success of fn on the current item
            def success(m):
                return m.kind == "uret" and m["fn"] is FN
            starts = [y for s in self.gets if s.root == n.root for y in g.after(s)]
            p = g.path(starts, lambda m: m.id == n.id, block=lambda m: success(m) or m.kind == "q_get")
            ck.ob("release-after-success", here, p is None, "reachable without a successful call: " + g.show_path(p) if p else "every path passes a successful return of fn")
            # (b) the released node is a direct successor of the item just finished
            owner = None
            coll = x.args[0] if x.op == "elem" else None
            if coll is None and x.op in ("ev", "eu") and x.args[0].op == "elem":
                coll = x.args[0].args[0]
            if coll is None:
                cs = [l for l in x.leaves if l.op == "elem" and is_view(l.args[0])]
                coll = cs[0].args[0] if cs else None
            if coll is not None and is_view(coll) and coll.args[0] in ("succs", "out_edges") and coll.args[1] is self.graph:
                owner = coll.args[2]
                kind = coll.args[0]
                ok = owner.op == "item"
                ck.ob("release-successor-of-item", here, ok, show(x, 3))
            else:
                kind = None
                ck.ob("release-successor-of-item", here, None, "released term " + show(x, 3))
            res.append((n, x, kind))
            # (c) guard
            self.guard(n, x, kind, cnt)
        # (d) at most once per iteration
        for n, x, kind in res:
            def stop(m):
                return m.kind in ("q_get", "iter", "loophead") and (m.kind != "iter" or m.get("val") is x or m.get("elem") is not None)
            p = g.path(g.after(n), lambda m: m.kind in ("q_put",) and m.id != n.id and m.get("item") is x, block=lambda m: m.kind in ("q_get", "loophead"))
            ck.ob("release-once-per-visit", self.where(n), p is None, g.show_path(p) if p else "")
        return res

    def guard(self, n, x, kind, cnt):
        ck, g = self.ck, self.g
        here = self.where(n)
        facts = n.facts
        # direct predecessor count
        ks = self.ks(facts, x)
        srcs = []
        if ks is not None:
            srcs.append(("count", ks))
        for a, v in facts.items():
            if a.op == "in" and a.args[0] is x and v and a.args[1] in cnt:
                allk = set()
                for r, e in cnt[a.args[1]]:
                    k = self.ks(dict(e.facts), e.params[0])
                    allk |= set(k if k is not None else (0, 1, 2, 3))
                srcs.append(("member", sorted(allk)))
        for w, k in srcs:
            if k == [1] or k == [0, 1]:
                dist = kind == "succs"
                ck.ob("release-guard", here, True, "only nodes with exactly one predecessor")
                ck.ob("single-release", here, True if dist else (False if kind == "out_edges" else None), "parallel edges would release the node more than once" if not dist else "distinct successors")
                return
        # countdown
        loads = [t for a in facts for t in a.leaves if t.op == "load" and t.args[0].op == "loc" and t.args[0].args[0] == "i" and t.args[0].args[2] is x]
        loads = list(dict.fromkeys(loads))
        good = False
        for l in loads:
            cont = l.args[0].args[1]
            vals, used = allowed(facts, l, (1, 2, 3))
            if not used:
                continue
            ck.ob("release-guard", here, vals == [1], f"released while the remaining count (before this decrement) may be {vals}")
            good = True
            self.countdown(n, x, kind, cont, l, cnt)
        if good:
            return
        if srcs:
            ck.ob("release-guard", here, False, f"nodes with {srcs[0][1]} predecessors are released by the first one that finishes")
            return
        others = [a for a in facts if x in a.leaves]
        ck.ob("release-guard", here, None if others else False, "no condition on the released node" if not others else "guard not understood: " + "; ".join(show(a, 3) for a in others[:4]))

    def countdown(self, n, x, kind, cont, l, cnt):
        """the remaining-count protocol of container cont"""
        ck, g = self.ck, self.g
        here = self.where(n)
        # initial values
        es = cnt.get(cont)
        if es is None:
            ck.ob("countdown-initial", here, None, "initial counts not understood")
        for r, e in es or ():
            p = e.params[0]
            meas = None
            v = e.val
            lens = [t for t in subterms(v) if t.op == "len"] if v is not None else []
            if len(lens) == 1 and is_view(lens[0].args[0]):
                meas = lens[0].args[0].args[0]
                try:
                    okv = all(evalt(v, {lens[0]: k}) == k for k in (2, 3, 5))
                except NoEval:
                    okv = None
                ck.ob("countdown-initial", here, okv, f"initial remaining count is {show(v, 3)}")
                pair = {"succs": ("preds",), "out_edges": ("in_edges", "pred_edges")}.get(kind)
                ck.ob(
                    "countdown-measure",
                    here,
                    None if pair is None else meas in pair,
                    f"counts {meas} but walks {kind}",
                )
            elif v is not None and v.op == "cnt":
                continue
            else:
                ck.ob("countdown-initial", here, None, "initial remaining count is " + (show(v, 3) if v is not None else "?"))
        # decrements: exactly one per visit, stored, under one lock shared by all workers
        st = None
        for t in self.g.threads:
            if t["name"] == n.root:
                st = t["state"]
        ld = next((m for m in g.ev("load", n.root) if m["val"] is l and n.id in g.fwd([m])), None)
        muts = [m for m in g.ev("mut", n.root) if m["obj"] is cont and m["op"] == "setitem" and m["args"][0] is x]
        before = [m for m in muts if l in m["args"][1].leaves]
        ok = False
        for m in before:
            try:
                ok = ok or all(evalt(m["args"][1], {l: k}) == k - 1 for k in (1, 2, 5))
            except NoEval:
                pass
        ck.ob("countdown-decrement", here, ok if before else False, "the remaining count is stored decremented by one" if ok else "no store of the decremented count")
        if ld is not None and before:
            common = None
            for m in [ld] + before + [n]:
                ls = {x for x in m.locks if st is None or x in st.heap}
                common = ls if common is None else common & ls
            # n need not hold the lock as long as load and store do
            core = None
            for m in [ld] + before:
                ls = {x for x in m.locks if st is None or x in st.heap}
                core = ls if core is None else core & ls
            ck.ob("countdown-locked", here, bool(core), "load and store of the remaining count are not in one region of a lock shared by the workers" if not core else "lock " + show(next(iter(core)), 2))
            if core:
                lk = next(iter(core))
                p = g.path([ld], lambda m: m in before, block=lambda m: m.kind == "release" and m.get("lock") is lk)
                ck.ob("countdown-locked", here, p is not None, "the lock is released between load and store" if p is None else "")

    def partition(self):
        """R-part: the bookkeeping covers every node: table over the number of predecessors"""
        ck, g = self.ck, self.g
        cnt = self.counters()
        for t in self.g.threads:
            if t["name"] not in self.wroots:
                continue
            st = t["state"]
            qobjs = set()
            for q in self.queues():
                qobjs |= self.queue_roots(st, q)
            # containers consulted by the release guards
            sets, dicts = set(), set()
            for n, x in self.released():
                if n.root != t["name"]:
                    continue
                for a, v in n.facts.items():
                    if a.op == "in" and a.args[0] is x and a.args[1] in cnt:
                        (sets if v else sets).add(a.args[1])
                    for l in a.leaves:
                        if l.op == "load" and l.args[0].op == "loc" and l.args[0].args[0] == "i" and l.args[0].args[2] is x:
                            dicts.add(l.args[0].args[1])
            if not sets and not dicts:
                continue
            for k in (0, 1, 2, 3):
                ins, ind = None, None
                for o in sets:
                    for r, e in cnt.get(o, ()):
                        ks = self.ks(dict(e.facts), e.params[0])
                        if ks is None or k in ks:
                            ins = True
                for o in dicts:
                    for r, e in cnt.get(o, ()):
                        ks = self.ks(dict(e.facts), e.params[0])
                        if ks is None or k in ks:
                            ind = True
                if k == 0:
                    continue
                ok = bool(ins or ind)
                ck.ob("bookkeeping-covers", f"nodes with {k} predecessors", ok if cnt else None, f"set: {bool(ins)}, counts: {bool(ind)}")
        # every node of the graph is visited when the bookkeeping is built
    # ---- completeness ----------------------------------------------------
    def successors_processed(self):
        """after success every successor is visited and, when it becomes ready, released"""
        ck, g = self.ck, self.g
        for r in self.rets:
            item = self.arg_of_ret(r)
            loops = {}
            for m in g.ev("loopexit", r.root):
                c = m.get("coll")
                if c is not None and is_view(c) and c.args[0] in ("succs", "out_edges") and c.args[1] is self.graph and c.args[2] is item:
                    loops[m["loop"]] = c
            if not loops:
                ck.ob("successors-visited", self.where(r), None if self.any_succ(item) else False, "no loop over the successors of the finished node")
                continue
            p = g.path(g.after(r), lambda m: m.kind in ("q_get", "end"), block=lambda m: m.kind == "loopexit" and m.get("loop") in loops)
            ck.ob("successors-visited", self.where(r), p is None, "successors are skipped: " + g.show_path(p) if p else "every path after a success finishes the loop over the successors")
            # no early exit / skip inside the loop
            for it in [m for m in g.ev("iter", r.root) if m["loop"] in loops]:
                x = it.get("val") or it.get("elem")
                self.visit(it, it.get("val"), it["loop"])

    def any_succ(self, item):
        return any(
            is_view(n.get("coll")) and n["coll"].args[0] in ("succs", "out_edges")
            for n in self.g.ev("iter")
            if n.get("coll") is not None and n.root != "main"
        )

    def arg_of_ret(self, r):
        a = r.get("args") or ()
        return a[0].args[0] if a and a[0].op == "pos" else None

    def visit(self, it, val, loop):
        ck, g = self.ck, self.g
        x = val
        if x is None:
            return
        if x.op == "tup":
            x = x.args[1] if len(x.args) > 1 else x
        same = lambda y: y is x or (y is not None and x in (y.args if y.op in ("ev",) else ()))

        def contradicts(m):
            # last visit: the remaining count before the decrement is 1
            if m.kind != "assume":
                return False
            ls = [l for l in m["atom"].leaves if l.op == "load" and l.args[0].op == "loc" and l.args[0].args[0] == "i"]
            if len(ls) != 1:
                return False
            try:
                r = evalt(m["atom"], {ls[0]: 1})
            except (NoEval, TypeError):
                return False
            return bool(r) != m["val"]

        def put(m):
            return m.kind == "q_put" and nodelike(m["item"]) or (m.kind == "ucall" and m["fn"] is FN)

        done = lambda m: m.kind in ("loophead", "q_get", "end", "loopexit") and m.id != it.id and (m.kind != "loophead" or m.get("loop") is loop) and (m.kind != "loopexit" or m.get("loop") is loop)
        p = g.path(g.after(it), done, block=lambda m: put(m) or contradicts(m))
        ck.ob("ready-successor-released", self.where(it), p is None, "a successor whose last predecessor finished is not released: " + g.show_path(p) if p else "")
        # every visit either releases or counts down
        p = g.path(g.after(it), done, block=lambda m: put(m) or (m.kind == "mut" and m["op"] == "setitem"))
        ck.ob("successor-accounted", self.where(it), p is None, "a successor is neither released nor counted down: " + g.show_path(p) if p else "")

    # ---- task accounting and shutdown ------------------------------------
    def task_done(self):
        ck, g = self.ck, self.g
        qj = g.ev("q_join", "main")
        for s in self.gets:
            p = g.path(g.after(s), lambda m: m.kind in ("q_get", "end") and m.root == s.root, block=lambda m: m.kind == "q_task_done")
            if qj:
                ck.ob("task-done-on-every-path", self.where(s), p is None, "an item is never marked done, so queue.join() hangs: " + g.show_path(p) if p else "")
        for d in g.ev("q_task_done"):
            if d.root not in self.wroots:
                continue
            p = g.path(g.after(d), lambda m: m.kind == "q_task_done", block=lambda m: m.kind == "q_get")
            ck.ob("task-done-once", self.where(d), p is None, "an item is marked done twice: " + g.show_path(p) if p else "")
            p = g.path(g.after(d), lambda m: m.kind == "q_put" and nodelike(m["item"]) or m.kind == "ucall" and m["fn"] is FN, block=lambda m: m.kind == "q_get")
            if qj:
                ck.ob("task-done-last", self.where(d), p is None, "an item is marked done before its successors are queued, so the run may end early: " + g.show_path(p) if p else "")

    def shutdown(self):
        """main: every started thread gets a sentinel and is joined before the call returns"""
        ck, g = self.ck, self.g
        ck.need(self.starts, "no worker thread is started")
        for s in self.starts:
            fin = [m for m in g.ev("end", "main")]
            joins = g.ev("thread_join", "main")
            jl = {m.loops[-1] if m.loops else None for m in joins}
            jloops = set()
            # loops whose body joins a thread
            for m in joins:
                for it in g.ev("iter", "main"):
                    if m.loops and it["elem"] is m.loops[-1]:
                        jloops.add(it["loop"])
                    elif m.id in g.fwd([it], stop=lambda z, it=it: z.kind == "loophead" and z.get("loop") is it["loop"]):
                        if it.get("val") is m["thread"]:
                            jloops.add(it["loop"])
            ok_exit = lambda m: (m.kind == "loopexit" and m.get("loop") in jloops) or (m.kind == "thread_join" and not m.loops)
            p = g.path(g.after(s), lambda m: m.kind == "end", block=ok_exit)
            ck.ob("threads-joined", self.where(s), p is None, "the call can end without joining this thread: " + g.show_path(p) if p else "every path to the end joins the workers")
        for m in g.ev("thread_join", "main"):
            ck.ob("join-waits", self.where(m), m["timeout"] is None or m["timeout"] is NONE, "join with a timeout does not wait for the thread")
        for it in g.ev("iter", "main"):
            v = it.get("val")
            if v is None or not any(v is m["thread"] for m in g.ev("thread_join", "main")):
                continue
            if any(m["thread"] is v for m in g.ev("thread_start", "main") if m.loops and it["elem"] in m.loops):
                continue

            def notstarted(m, v=v):
                return m.kind == "assume" and m["val"] and m["atom"].op == "eq" and m["atom"].args[1] is NONE and m["atom"].args[0].op == "ident" or (
                    m.kind == "assume" and m["atom"].op in ("is_alive", "truthy") and any(x.op in ("is_alive", "ident") or x.op == "loc" and x.args[2] == "alive" for x in subterms(m["atom"])) and not m["val"]
                )

            if not any(v is m["thread"] for m in g.ev("thread_join", "main") if m.id in g.fwd(g.after(it), stop=lambda z: z.kind == "loophead" and z.get("loop") is it["loop"])):
                continue
            p = g.path(g.after(it), lambda m: m.kind in ("loophead", "loopexit", "end") and (m.kind == "end" or m.get("loop") is it["loop"]), block=lambda m: m.kind == "thread_join" or notstarted(m))
            ck.ob("each-thread-joined", self.where(it), p is None, "a started thread may be skipped: " + g.show_path(p) if p else "")
        # the workers' items are finished before sentinels are sent
        sent = [m for m in g.ev("q_put", "main") if not nodelike(m["item"])]
        for s in self.starts:
            p = g.path(g.after(s), lambda m: m in sent or m.kind == "end" and m["how"] == "norm", block=lambda m: m.kind in ("q_join", "ki", "thread_start"))
            ck.ob("work-finished-before-shutdown", self.where(s), p is None, "workers are stopped before the queue is finished: " + g.show_path(p) if p else "")
        if not sent:
            ck.ob("workers-are-told-to-stop", "main", None, "no sentinel is put on the queue")
        else:
            # number of sentinels == number of threads: both loops run over the same range
            def colls(n):
                return [e.args[0] for e in n.loops]
            for m in sent:
                a = {tuple(colls(s)) for s in self.starts}
                b = tuple(colls(m))
                ok = None
                if b in a:
                    ok = True
                elif all(is_view(x, "range") for c in a for x in c) and all(is_view(x, "range") for x in b):
                    ok = False
                ck.ob("one-sentinel-per-worker", self.where(m), ok, f"sentinels: {[show(x, 3) for x in b]}; workers: {[[show(x, 3) for x in c] for c in a]}")
            for s in self.gets:
                sv = {m["item"] for m in sent}
                # the worker leaves its loop on the sentinel
                def other(m):
                    return m.kind == "assume" and m["atom"].op in ("eq", "is") and any(v in m["atom"].args for v in sv) and not m["val"]
                p = g.path(g.after(s), lambda m: m.kind == "q_get", block=other)
                ck.ob("sentinel-ends-worker", self.where(s), p is None, "a worker goes on after receiving the sentinel: " + g.show_path(p) if p else "")
                def isS(m):
                    return m.kind == "assume" and m["atom"].op in ("eq", "is") and any(v in m["atom"].args for v in sv) and m["val"]
                p = g.path(g.after(s), lambda m: m.kind == "end" and m["how"] == "norm", block=lambda m: isS(m) or m.kind == "q_get")
                ck.ob("worker-ends-only-on-sentinel", self.where(s), p is None, "a worker may stop although work remains: " + g.show_path(p) if p else "")

    def worker_never_dies(self):
        ck, g = self.ck, self.g
        for r in self.wroots:
            bad = [m for m in g.ev("end", r) if m["how"] == "raise"]
            if not bad:
                ck.ob("worker-survives", r, True, "no exception leaves a worker thread")
            for m in bad:
                e = m.get("exc")
                ck.ob("worker-survives", self.where(m), False, f"exception {show(e, 3) if e is not None else ''} ends a worker thread")

    def no_release_after_failure(self):
        ck, g = self.ck, self.g
        for e in self.excs:
            p = g.path(g.after(e), lambda m: m.kind == "q_put" and nodelike(m["item"]), block=lambda m: m.kind == "q_get")
            ck.ob("no-release-after-failure", self.where(e), p is None, "a failed call's successors are released: " + g.show_path(p) if p else "")

    # ---- failures ---------------------------------------------------------
    def failure(self):
        ck, g = self.ck, self.g
        heads = lambda m: m.kind in ("q_get", "end")
        # shared cell/attribute that main raises from
        raises = [m for m in g.ev("raise", "main") if m["exc"] is not None and m["exc"].op == "load"]
        locs = {self.g.it.genloc(m["exc"].args[0]) for m in raises}
        if not locs:
            ck.ob("failure-raised", "main", None if raises else False, "main never raises an error recorded by the workers")
        for e in self.excs:
            p = g.path(g.after(e), lambda m: m.kind == "ucall" and m["fn"] is FN, block=lambda m: m.kind == "q_get")
            ck.ob("fn-once-per-item", self.where(e), p is None, "fn is applied again to the same item: " + g.show_path(p) if p else "")
            if locs:
                def recorded(m):
                    if m.kind in ("setcell", "setattr") and m.get("loc") in locs and m["val"] is not NONE:
                        return True
                    if m.kind == "mut" and m.get("loc") in locs:
                        return True
                    if m.kind == "assume":
                        # already recorded earlier
                        a = m["atom"]
                        if any(l.op == "load" and self.g.it.genloc(l.args[0]) in locs for l in a.leaves):
                            if a.op == "truthy":
                                return m["val"]
                            if a.op == "eq" and NONE in a.args:
                                return not m["val"]
                    return False
                p = g.path(g.after(e), heads, block=recorded)
                ck.ob("failure-recorded", self.where(e), p is None, "a failure is swallowed: " + g.show_path(p) if p else "")
        for u in self.ucalls:
            for r in self.rets:
                pass
        for r in self.rets:
            p = g.path(g.after(r), lambda m: m.kind == "ucall" and m["fn"] is FN, block=lambda m: m.kind == "q_get")
            ck.ob("fn-once-per-item", self.where(r), p is None, "fn is applied again to the same item: " + g.show_path(p) if p else "")
        # the recorded error: first one only, right contents
        sets = [m for m in g.ev(("setcell", "setattr")) if m.get("loc") in locs and m.root in self.wroots]
        for m in sets:
            if m["val"] is NONE:
                ck.ob("error-kept", self.where(m), False, "the recorded error is reset")
                continue
            ok = any(
                l.op == "load" and self.g.it.genloc(l.args[0]) in locs and ((a.op == "truthy" and not v) or (a.op == "eq" and NONE in a.args and v))
                for a, v in m.facts.items()
                for l in a.leaves
            )
            ck.ob("first-error-kept", self.where(m), ok, "a later failure can replace the first one" if not ok else "only written while empty")
            ck.ob("error-under-lock", self.where(m), bool(m.locks), "the first error is recorded without a lock")
            self.error_content(m)
        # after the workers ended main raises whenever something is recorded
        for j in g.ev("q_join", "main"):
            def none(m):
                if m.kind != "assume":
                    return False
                a = m["atom"]
                if any(l.op == "load" and self.g.it.genloc(l.args[0]) in locs for l in a.leaves):
                    if a.op == "truthy":
                        return not m["val"]
                    if a.op == "eq" and NONE in a.args:
                        return m["val"]
                return False
            p = g.path(g.after(j), lambda m: m.kind == "end" and m["how"] == "norm", block=none)
            ck.ob("failure-raised", self.where(j), p is None, "the call returns normally although a failure was recorded: " + g.show_path(p) if p else "")

    def error_content(self, m):
        ck, g = self.ck, self.g
        v = m["val"]
        # the failing fn call whose exception leads here
        exs = [e for e in self.excs if e.root == m.root and m.id in g.fwd(g.after(e), stop=lambda z: z.kind == "q_get")]
        toks = {e["exc"] for e in exs}
        items = {self.arg_of_ret(e) for e in exs}
        if v in toks:
            # must be known to be a NodeError
            ck.ob("error-is-node-error", self.where(m), True, "the exception itself")
            return
        if v.op == "obj":
            sets = [s for s in g.ev("setattr", m.root) if s["obj"] is v and m.id in g.fwd([s], stop=lambda z: z.kind == "q_get")]
            cause = [s["val"] for s in sets if s["name"] == "__cause__"]
            node = [s["val"] for s in sets if s["name"] == "node"]
            ck.ob("error-cause", self.where(m), bool(cause) and all(c in toks for c in cause), f"cause {[show(c, 3) for c in cause]}")
            ck.ob("error-node", self.where(m), (all(c in items for c in node) if node else None), f"node {[show(c, 3) for c in node]}")
        elif v.op == "phi":
            ck.ob("error-cause", self.where(m), None, show(v, 3))
        else:
            ck.ob("error-cause", self.where(m), None, show(v, 3))

    # ---- limits -----------------------------------------------------------
    def stop_checked(self):
        """a worker starts no call once `stop` is set"""
        ck, g = self.ck, self.g
        stops = self.stop_locs()
        if not stops:
            ck.ob("stop-flag", "workers", None, "no stop flag found")
            return
        for s in self.gets:
            def unset(m):
                if m.kind != "assume":
                    return False
                a = m["atom"]
                if not any(l.op == "load" and self.g.it.genloc(l.args[0]) in stops for l in a.leaves):
                    return False
                return m["val"] is False or (a.op == "eq" and NONE in a.args)
            p = g.path(g.after(s), lambda m: m.kind == "ucall" and m["fn"] is FN, block=lambda m: m.kind == "q_get" or unset(m))
            ck.ob("stop-checked-before-call", self.where(s), p is None, "a call can start although the run was stopped: " + g.show_path(p) if p else "")

    def stop_locs(self):
        """shared locations set to True both by failing workers and when main shuts down"""
        g = self.g
        out = set()
        for m in g.ev(("setcell", "setattr")):
            if m.get("loc") is not None and m["val"] is TRUE and (m.root in self.wroots or m.root == "main"):
                out.add(m["loc"])
        w = {m["loc"] for m in g.ev(("setcell", "setattr")) if m.root in self.wroots and m["val"] is TRUE}
        for m in g.ev("event_set"):
            out.add(m.get("loc") or m.get("obj"))
        return {l for l in out if l in w} or {l for l in out if l is not None}

    def max_errors(self):
        """table: with c failures counted before and max_errors = m the run is stopped iff c + 1 > m"""
        ck, g = self.ck, self.g
        stops = self.stop_locs()
        setters = [m for m in g.ev(("setcell", "setattr")) if m.root in self.wroots and m.get("loc") in stops and m["val"] is TRUE]
        if not setters:
            ck.ob("max-errors", "workers", False if not self.uses_max() else None, "no worker ever stops the run")
            return
        # the error counter
        cnts = [m for m in g.ev(("setcell", "setattr")) if m.root in self.wroots and m["val"].op in ("add", "sub") and m.get("loc") is not None and any(l.op == "load" and g.it.genloc(l.args[0]) is m["loc"] for l in m["val"].leaves)]
        cl = {m["loc"] for m in cnts}
        if not cl:
            ck.ob("max-errors", self.where(setters[0]), None, "error counter not recognised")
            return
        for e in self.excs:
            old = {l for m in cnts for l in m["val"].leaves}
            early = g.fwd(g.after(e), stop=lambda z: z.kind in ("q_get", "end") or z in cnts)
            sub = g.fwd(g.after(e), stop=lambda z: z.kind in ("q_get", "end"))
            # loads of the counter after the failure was counted, possibly in another lock region
            fresh = {l for i in sub if i not in early and g.nodes[i].kind == "assume" for l in g.nodes[i]["atom"].leaves if l.op == "load" and g.it.genloc(l.args[0]) in cl and l not in old}
            for c in (0, 1, 2, 3):
                for m in (None, 0, 1, 2, 3):
                    def contra(z):
                        if z.kind != "assume":
                            return False
                        a = z["atom"]
                        envv = {}
                        for l in a.leaves:
                            if l is MAXE:
                                envv[l] = m
                            elif l.op == "load" and g.it.genloc(l.args[0]) in cl:
                                envv[l] = c + 1 if l in fresh else c
                        if not envv:
                            return False
                        # a load after the increment sees c + 1: interp forwards the stored term inside lock regions
                        try:
                            r = evalt(a, envv)
                        except (NoEval, TypeError):
                            if m is None and MAXE in a.leaves and a.op != "eq":
                                return True
                            return False
                        return bool(r) != z["val"]
                    want = m is not None and c + 1 > m
                    isset = lambda z: z in setters
                    if want and c > m and not fresh:
                        # each failure is counted and compared in one step, so failure number m + 1 has stopped the run
                        continue
                    if want:
                        p = g.path(g.after(e), lambda z: z.kind in ("q_get", "end"), block=lambda z: isset(z) or contra(z))
                        ck.ob("max-errors-stop", self.where(e), p is None, f"failure number {c + 1} with max_errors={m} does not stop the run: " + (g.show_path(p) if p else ""))
                    else:
                        p = g.path(g.after(e), isset, block=lambda z: contra(z) or z.kind == "q_get")
                        ck.ob("max-errors-continue", self.where(e), p is None, f"failure number {c + 1} with max_errors={m} stops the run: " + (g.show_path(p) if p else ""))
            # counter: +1 exactly once per failure, in one lock region
            p = g.path(g.after(e), lambda z: z.kind in ("q_get", "end"), block=lambda z: z in cnts)
            ck.ob("error-counted", self.where(e), p is None, "a failure is not counted: " + g.show_path(p) if p else "")
        for m in cnts:
            l = next(l for l in m["val"].leaves if l.op == "load")
            try:
                ok = all(evalt(m["val"], {l: k}) == k + 1 for k in (0, 1, 4))
            except NoEval:
                ok = None
            ck.ob("error-count-step", self.where(m), ok, show(m["val"], 3))
            ck.ob("error-count-locked", self.where(m), bool(m.locks), "failures are counted without a lock")
            p = g.path(g.after(m), lambda z: z in cnts, block=lambda z: z.kind == "q_get")
            ck.ob("error-counted", self.where(m), p is None, "a failure is counted twice" if p else "")

    def uses_max(self):
        return any(MAXE in a["atom"].leaves for a in self.g.ev("assume") if a.root in self.wroots)

    def workers_count(self):
        ck, g = self.ck, self.g
        for s in self.starts:
            cs = [e.args[0] for e in s.loops]
            if not cs:
                ck.ob("worker-count", self.where(s), None, "worker started outside a loop")
                continue
            want = mk("view", "range", C(0), WC, C(1))
            ok = cs == [want]
            if not ok and not all(is_view(c, "range") for c in cs):
                ok = None
            ck.ob("worker-count", self.where(s), ok, f"threads are started over {[show(c, 3) for c in cs]}")
        for u in self.ucalls:
            ck.ob("calls-run-unlocked", self.where(u), not u.locks, "calls run while a lock is held" if u.locks else "")
        for s in self.gets:
            ck.ob("calls-run-unlocked", self.where(s), not s.locks, "a worker waits for work while holding a lock" if s.locks else "")


def engine_calls(g):
    """[(enter event, args)] of run_function_on_graph"""
    return [(m, m["args"]) for m in g.ev("enter") if g.it.fns[m["fid"]].name == "run_function_on_graph"]


def graph_passed(ck, g):
    """the graph handed to the engine is the plan's graph after the surgery, not a filtered view of it"""
    for m, a in engine_calls(g):
        gr = a.get("graph")
        if gr is None or gr.op != "obj":
            ck.ob("engine-graph", g.at(m), None, "graph argument not understood")
            continue
        how = [n["how"] for n in g.ev("graphcopy") if n["obj"] is gr]
        ck.ob("engine-graph", g.at(m), all(h == "copy" for h in how), f"the engine runs on a {how[0]} of the plan graph" if how and how[0] != "copy" else show(gr, 2))
