"""Models of networkx graphs, threads, locks and queues."""
from .core import Entry, Rec
from .terms import B, C, FALSE, NONE, T, TRUE, cval, is_const, mk, subst, tup

GRAPH_CLASSES = ("networkx.MultiDiGraph", "networkx.DiGraph", "networkx.Graph", "networkx.MultiGraph")
QUEUES = ("queue.Queue", "queue.LifoQueue", "queue.PriorityQueue", "queue.SimpleQueue")


class Graphs:
    # ------------------------------------------------------------------ graphs
    def is_graph(self, st, v):
        if v.op == "obj":
            r = self.rec(st, v)
            return r is not None and r.kind == "graph"
        return v.op == "sym" and v.args[1] == "graph" or v.op == "unpack_graph"

    def graph_attr(self, st, v, name):
        if name == "nodes":
            return mk("view", "nodes", v)
        if name in ("pred", "_pred"):
            return mk("view", "predmap", v)
        if name in ("succ", "adj", "_succ", "_adj"):
            return mk("view", "succmap", v)
        if name == "edges" or name == "out_edges":
            return mk("view", "edges", v, NONE, True)
        if name == "in_edges":
            return mk("view", "in_edges", v, NONE, True)
        if name in ("in_degree", "out_degree", "degree"):
            return mk("extm", "graph." + name, v)
        return mk("extm", "graph." + name, v)

    def view_item(self, st, b, i):
        k = b.args[0]
        if k == "predmap":
            return [(st, mk("view", "preds", b.args[1], i))]
        if k == "succmap":
            return [(st, mk("view", "succs", b.args[1], i))]
        if k in ("preds", "succs"):
            return [(st, mk("data", b, i))]
        return [(st, mk("item_", b, i))]

    def view_call(self, st, cx, v, args, node):
        """graph.nodes(...), graph.edges(...), graph.in_edges(n, keys=True)"""
        k = v.args[0]
        p = self.pos(args)
        kw = self.kws(args)

        def flag(n, d=False):
            x = kw.get(n)
            return bool(cval(x)) if x is not None and is_const(x) else d

        if k == "nodes":
            if flag("data") or (p and p[0] is TRUE):
                return [(st, mk("view", "nodesdata", v.args[1]))]
            return [(st, v)]
        if k in ("edges", "in_edges", "out_edges"):
            n = p[0] if p else kw.get("nbunch", NONE)
            keys = flag("keys") or (len(p) > 2 and p[2] is TRUE)
            kk = k
            if kk == "edges" and n is not NONE:
                kk = "out_edges"
            if n is not NONE and n.op == "obj" and self.crec(st, n) is not None:
                seq = self.definite_seq(st, n)
                if seq is not None and len(seq) == 1:
                    n = seq[0]
            data = flag("data")
            if data:
                return [(st, mk("view", kk, v.args[1], n, keys, "data"))]
            return [(st, mk("view", kk, v.args[1], n, keys))]
        return [(st, v)]

    def graph_method(self, st, cx, name, g, args, node):
        p = self.pos(args)
        kw = self.kws(args)
        if name in ("predecessors",):
            return [(st, mk("view", "preds", g, p[0] if p else kw.get("n")))]
        if name in ("successors", "neighbors"):
            return [(st, mk("view", "succs", g, p[0] if p else kw.get("n")))]
        if name in ("in_degree", "out_degree"):
            n = p[0] if p else kw.get("nbunch", NONE)
            return [(st, mk("len", mk("view", "in_edges" if name == "in_degree" else "out_edges", g, n, True)))]
        if name == "degree":
            return [(st, mk("int", "degree", g, *p))]
        if name in ("has_node", "__contains__"):
            return [(a, B(t)) for a, t in self.branch(st, mk("in", p[0], mk("view", "nodes", g)))]
        if name in ("has_edge",):
            return [(a, B(t)) for a, t in self.branch(st, mk("in", tup(*p), mk("view", "edges", g, NONE, len(p) > 2)))]
        if name in ("number_of_nodes", "order", "__len__"):
            return [(st, mk("len", mk("view", "nodes", g)))]
        if name in ("number_of_edges", "size"):
            if len(p) == 2:
                return [(st, mk("int", "nedges", g, *p))]
            return [(st, mk("len", mk("view", "edges", g, NONE, True)))]
        if name in ("copy", "__copy__"):
            return self.graph_copy(st, cx, g, node)
        if name in ("subgraph", "reverse", "edge_subgraph", "to_undirected", "to_directed"):
            r = self.rec(st, g)
            o = self.new_obj(st, node, cx, Rec("graph", r.cls if r else None, {"of": g}), label="graph", extra=":" + name)
            self.emit(st, "graphcopy", obj=o, src=g, how=name, args=tuple(p))
            return [(st, o)]
        if name == "get_edge_data":
            return [(st, mk("edgedata", g, *p))]
        if name in ("is_directed", "is_multigraph"):
            return [(st, TRUE)]
        if name in ("nbunch_iter",):
            return [(st, p[0] if p else mk("view", "nodes", g))]
        if name == "__iter__":
            return [(st, mk("view", "nodes", g))]
        if name in ("add_node", "remove_node"):
            self.mutated(st, g, node, cx, name, (p[0] if p else kw.get("node_for_adding", kw.get("n")),))
            return [(st, NONE)]
        if name in ("add_edge", "remove_edge"):
            u = p[0] if p else kw.get("u_for_edge", kw.get("u"))
            v = p[1] if len(p) > 1 else kw.get("v_for_edge", kw.get("v"))
            k = p[2] if len(p) > 2 else kw.get("key", NONE)
            self.mutated(st, g, node, cx, name, (u, v, k))
            return [(st, NONE)]
        if name in ("add_nodes_from", "remove_nodes_from"):
            one = {"add_nodes_from": "add_node", "remove_nodes_from": "remove_node"}[name]
            return self.graph_bulk(st, cx, g, one, p[0] if p else kw.get("nodes", kw.get("nodes_for_adding", kw.get("ebunch"))), node)
        if name in ("add_edges_from", "remove_edges_from"):
            one = {"add_edges_from": "add_edge", "remove_edges_from": "remove_edge"}[name]
            return self.graph_bulk(st, cx, g, one, p[0] if p else kw.get("ebunch_to_add", kw.get("ebunch")), node)
        if name in ("clear", "clear_edges", "update"):
            self.mutated(st, g, node, cx, name, tuple(p))
            return [(st, NONE)]
        self.unknown.append(("graph." + name, self.loc))
        return [(st, mk("extcall", mk("ext", "graph." + name), (g, *p)))]

    def graph_bulk(self, st, cx, g, one, coll, node):
        if coll is None:
            return [(st, NONE)]
        if coll.op == "view" or self.crec(st, coll) is not None or coll.op in ("sym", "setop", "tup", "gen", "gexp", "zip", "map", "filter", "prod", "chain", "view") or True:
            def body(s, v):
                if one in ("add_node", "remove_node"):
                    self.mutated(s, g, node, cx, one, (v,), bulk=coll)
                    return [s]
                seq = self.definite_seq(s, v)
                if seq is None:
                    seq = [mk("unpack", v, C(0), C(3)), mk("unpack", v, C(1), C(3)), mk("unpack", v, C(2), C(3))]
                seq = list(seq) + [NONE] * (3 - len(seq))
                self.mutated(s, g, node, cx, one, tuple(seq[:3]), bulk=coll)
                return [s]

            return [(a, NONE) for a in self.iterate(st, coll, node, cx, body, "~g", keep=g)]
        return [(st, NONE)]

    def graph_copy(self, st, cx, g, node):
        r = self.rec(st, g)
        o = self.new_obj(st, node, cx, Rec("graph", r.cls if r else mk("ext", "networkx.MultiDiGraph"), {"of": g}), label="graph", extra=":copy")
        self.emit(st, "graphcopy", obj=o, src=g, how="copy", args=())
        return [(st, o)]

    def nx_call(self, st, cx, name, args, node):
        p = self.pos(args)
        short = name.split(".")[-1]
        if short in ("MultiDiGraph", "DiGraph", "Graph", "MultiGraph"):
            if p and p[0] is not NONE:
                if self.is_graph(st, p[0]):
                    return self.graph_copy(st, cx, p[0], node)
            o = self.new_obj(st, node, cx, Rec("graph", mk("ext", "networkx." + short)), label="graph")
            self.emit(st, "newgraph", obj=o)
            return [(st, o)]
        if short in ("ancestors", "descendants"):
            o = self.new_obj(st, node, cx, Rec("set", None, None, mk("view", short, *p)), extra=":" + short)
            return [(st, o)]
        if short == "is_directed_acyclic_graph":
            return [(st, mk("truthy", mk("acyclic", p[0])))]
        if short in ("topological_sort", "lexicographical_topological_sort", "topological_generations"):
            # raises on cycles when exhausted
            at = mk("truthy", mk("acyclic", p[0]))
            out = []
            for a, t in self.branch(st, at):
                if t:
                    out.append((a, mk("view", "nodes", p[0])))
                else:
                    self.raise_ext(a, "networkx.NetworkXUnfeasible", node, cx)
            return out
        if short == "find_cycle":
            at = mk("truthy", mk("acyclic", p[0]))
            out = []
            for a, t in self.branch(st, at):
                if t:
                    self.raise_ext(a, "networkx.NetworkXNoCycle", node, cx)
                else:
                    out.append((a, mk("cycle", p[0])))
            return out
        if short == "UnionFind":
            o = self.new_obj(st, node, cx, Rec("inst", mk("ext", "networkx.utils.UnionFind"), {}), label="UnionFind")
            return [(st, o)]
        if short in ("strongly_connected_components", "weakly_connected_components", "condensation"):
            return [(st, mk("sccs", p[0]))]
        if short in ("freeze",):
            return [(st, p[0])]
        if self.is_exc_name(name):
            return self.new_exc(st, cx, name, args, node)
        self.unknown.append((name, self.loc))
        return [(st, mk("extcall", mk("ext", name), tuple(self.pack_arg(a) for a in args)))]

    # ------------------------------------------------------------------ locks
    def lock_acquire(self, st, cx, lock, node):
        self.loc = (node._mod.path if getattr(node, "_mod", None) else "client", getattr(node, "lineno", 0))
        self.emit(st, "acquire", lock=lock)
        if not st.locks:
            self.lk_clear(st)
        st.locks = st.locks + (lock,)

    def lock_release(self, st, cx, lock, node):
        self.emit(st, "release", lock=lock)
        ls = list(st.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i] is lock:
                del ls[i]
                break
        st.locks = tuple(ls)
        self.lk_clear(st)

    def lock_method(self, st, cx, name, lock, args, node):
        if name in ("acquire", "__enter__"):
            p = self.pos(args)
            kw = self.kws(args)
            nb = (p and p[0] is FALSE) or kw.get("blocking") is FALSE or "timeout" in kw or len(p) > 1
            if nb:
                s2 = st.fork()
                self.lock_acquire(st, cx, lock, node)
                self.emit(s2, "acquire_fail", lock=lock)
                return [(st, TRUE), (s2, FALSE)]
            self.lock_acquire(st, cx, lock, node)
            return [(st, TRUE)]
        if name in ("release", "__exit__"):
            self.lock_release(st, cx, lock, node)
            if self.policy_flag("displays"):
                return [(a, NONE) for a in self.d_gap(st, cx, node)]
            return [(st, NONE)]
        if name == "locked":
            return [(st, mk("truthy", mk("load", mk("loc", "f", lock, "locked"), self.tk(st, node, cx))))]
        if name in ("wait", "wait_for"):
            self.emit(st, "wait", obj=lock)
            if self.policy_flag("displays"):
                held = st.locks
                st.locks = tuple(x for x in held if x is not lock)
                res = self.d_call(st, cx, "step", node)
                for a, _ in res:
                    a.locks = held
                return res
            self.lk_clear(st)
            return [(st, TRUE)]
        if name in ("notify", "notify_all"):
            self.emit(st, "notify", obj=lock)
            return [(st, NONE)]
        return [(st, NONE)]

    # ------------------------------------------------------------------ threads
    def thread_init(self, st, o, args):
        p = self.pos(args)
        kw = self.kws(args)
        r = self.rec(st, o)
        f = dict(r.fields)
        names = ("group", "target", "name", "args", "kwargs")
        for n, v in zip(names, p):
            f["_t_" + n] = v
        for n, v in kw.items():
            f["_t_" + n] = v
        st.heap[o] = Rec(r.kind, r.cls, f, r.base, r.entries, r.mark)

    def thread_method(self, st, cx, name, o, args, node):
        if name == "__init__":
            self.thread_init(st, o, args)
            return [(st, NONE)]
        if self.policy_flag("displays"):
            r = self.d_thread(st, cx, name, o, args, node)
            if r is not None:
                return r
        if name == "start":
            return self.thread_start(st, cx, o, node)
        if name == "join":
            p = self.pos(args)
            kw = self.kws(args)
            t = p[0] if p else kw.get("timeout", NONE)
            self.emit(st, "thread_join", thread=o, timeout=t)
            return [(st, NONE)]
        if name in ("is_alive",):
            return [(st, mk("truthy", mk("load", mk("loc", "f", o, "alive"), self.tk(st, node, cx))))]
        if name in ("ident", "native_id"):
            return [(st, mk("ident", o))]
        if name in ("name", "daemon"):
            return [(st, mk("attr", o, name))]
        if name in ("run",):
            r = self.rec(st, o)
            t = r.fields.get("_t_target", NONE) if r else NONE
            if t is not NONE:
                return self.call(st, cx, t, [], node)
            return [(st, NONE)]
        return [(st, NONE)]

    def thread_start(self, st, cx, o, node):
        r = self.rec(st, o)
        target = NONE
        targs = []
        if r is not None:
            m = self.class_lookup(r.cls, "run") if r.cls is not None else None
            if m is not None:
                target = mk("bm", m, o)
            else:
                target = r.fields.get("_t_target", NONE)
                a = r.fields.get("_t_args")
                if a is not None:
                    seq = self.definite_seq(st, a)
                    targs = [("pos", x) for x in seq] if seq is not None else [("star", a)]
                kwd = r.fields.get("_t_kwargs")
                if kwd is not None:
                    it = self.definite_items(st, kwd)
                    if it:
                        targs += [("kw", cval(k), v) for k, v in it]
        self.spawn(st, cx, o, target, targs, node, r)
        return [(st, NONE)]

    def spawn(self, st, cx, o, target, targs, node, r=None):
        st.flags = st.flags - {"waited"}
        if self.policy.ki and self.root == "main" and "ki" not in st.flags:
            # the interrupt may also arrive between the creation of the OS thread and the
            # return of start()
            k = st.fork()
            k.flags = k.flags | {"ki"}
            self.emit(k, "thread_start", thread=o, target=target, daemon=(r.fields.get("_t_daemon") if r else None))
            k.flags = k.flags | {"threads"}
            e = mk("exc", mk("tk", "KI", 0, ()), "KeyboardInterrupt")
            self.emit(k, "ki", at=self.site(node))
            self.raise_(k, e)
        self.emit(st, "thread_start", thread=o, target=target, daemon=(r.fields.get("_t_daemon") if r else None))
        st.flags = st.flags | {"threads"}
        self.spawn_states.append((st.node, st.fork()))
        snap = st.fork()
        snap.node = None
        roots = [target] + [a[-1] for a in targs] + [o]
        self.snapshot_prune(snap, roots)
        key = (target, tuple(targs), self.site(node))
        ex = self.thread_keys.get(key)
        facts = {a: b for a, b in snap.facts.items() if not any(x.op in ("res", "load", "exc", "pop", "item") for x in a.leaves)}
        for t in ex or ():
            if t["state"].skel_key() == snap.skel_key():
                self.union_generic(t["state"], [t["state"], snap])
                t["state"].facts = {a: b for a, b in t["state"].facts.items() if facts.get(a) == b and a in facts}
                t["starts"].append(st.node)
                return
        snap.facts = facts
        n = sum(len(v) for v in self.thread_keys.values())
        name = f"T{n}"
        t = {"name": name, "obj": o, "state": snap, "target": target, "args": targs, "node": node, "loops": st.loops, "starts": [st.node], "from": self.root}
        if n > 40:
            return
        self.thread_keys.setdefault(key, []).append(t)
        self.threads.append(t)

    def snapshot_prune(self, s, roots):
        """keep only the part of the state reachable from the thread's target"""
        keep_frames = set()
        seen_vals = set()
        work = list(roots)
        cells_by_frame = {}
        for k in s.cells:
            cells_by_frame.setdefault(k[0], []).append(k)
        bysite = {}
        for o in s.heap:
            bysite.setdefault(o.args[:2], []).append(o)
        seen_sites = set()

        def frame(f):
            while f is not None and f not in keep_frames:
                if isinstance(f, str):
                    return
                keep_frames.add(f)
                for k in cells_by_frame.get(f, ()):
                    work.append(s.cells[k])
                fr = self.frames.get(f)
                f = fr.parent if fr is not None else None

        seen = set()
        while work:
            v = work.pop()
            if type(v) is not T or v in seen:
                continue
            seen.add(v)
            st2 = [v]
            while st2:
                x = st2.pop()
                if type(x) is tuple:
                    st2.extend(x)
                    continue
                if type(x) is not T:
                    continue
                if x.op == "fn":
                    if not isinstance(x.args[1], str):
                        frame(x.args[1])
                elif x.op in ("gexp", "gen", "cmgen"):
                    frame(x.args[1])
                elif x.op == "obj":
                    k = x.args[:2]
                    if k not in seen_sites:
                        seen_sites.add(k)
                        for p in bysite.get(k, ()):
                            r = s.heap[p]
                            work.extend(r.fields.values())
                            if r.base is not None:
                                work.append(r.base)
                            for e in r.entries:
                                if e.key is not None:
                                    work.append(e.key)
                                if e.val is not None:
                                    work.append(e.val)
                st2.extend(x.args)
        s.cells = {
            k: v for k, v in s.cells.items()
            if isinstance(k[0], str) and k[0] not in ("of", "lk", "d") or k[0] in keep_frames or k[0] == "d" and (k[1] in seen or k[1].args[1] in keep_frames or isinstance(k[1].args[1], str))
        }
        # heap reachable from modules as well
        for k, v in s.cells.items():
            for x in v.leaves:
                if x.op == "obj":
                    seen_sites.add(x.args[:2])
        s.heap = {o: r for o, r in s.heap.items() if o.args[:2] in seen_sites}
        live = set()
        for v in s.cells.values():
            live |= v.leaves
        for r in s.heap.values():
            live |= r.leaves()

    # ------------------------------------------------------------------ queues
    def queue_method(self, st, cx, base, name, q, args, node):
        p = self.pos(args)
        kw = self.kws(args)
        if name == "__init__":
            return [(st, NONE)]
        if name in ("put", "put_nowait"):
            self.emit(st, "q_put", q=q, item=p[0] if p else kw.get("item"))
            return [(st, NONE)]
        if name in ("get", "get_nowait"):
            nb = name == "get_nowait" or (p and p[0] is FALSE) or kw.get("block") is FALSE or len(p) > 1 or kw.get("timeout", NONE) is not NONE
            if nb:
                s2 = st.fork()
                self.emit(s2, "q_empty", q=q)
                self.raise_ext(s2, "queue.Empty", node, cx)
            t = mk("item", q, self.tk(st, node, cx))
            self.purge(st, t)
            self.emit(st, "q_get", q=q, item=t, nonblock=bool(nb))
            return [(st, t)]
        if name == "task_done":
            self.emit(st, "q_task_done", q=q)
            return [(st, NONE)]
        if name == "join":
            self.emit(st, "q_join", q=q)
            return [(st, NONE)]
        if name in ("empty", "full"):
            return [(st, mk("truthy", mk("load", mk("loc", "f", q, name), self.tk(st, node, cx))))]
        if name in ("qsize", "unfinished_tasks"):
            return [(st, mk("len", mk("load", mk("loc", "f", q, name), self.tk(st, node, cx))))]
        return [(st, mk("attr", q, name))]
