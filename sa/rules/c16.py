"""C16: ownership of results: every reference chain from a frame or object that lives as long as the run to a place where a call's result is stored is cut, on all paths, when the item that needs it ends, and what hangs behind such a cut belongs to that item only (reachability in the abstract heap at the start of the workers)."""
import ast

from ..terms import NONE, C, T, show, subterms
from . import clients, engine
from .base import env, sym

FN = sym("FN", "callable")


def params(o):
    return o.args[2] if o.op == "obj" else ()


class Ownership:
    def __init__(self, ck, g):
        self.ck = ck
        self.g = g
        self.it = g.it
        ws = g.workers()
        ck.need(ws, "no worker thread is started")
        self.root = ws[-1]
        states = [st for n, st in self.it.spawn_states if g.nodes[n].root == "main"] if self.it.spawn_states else []
        ck.need(states, "no state at the start of the workers")
        self.st = states[-1]
        gets = g.ev("q_get", self.root)
        ck.need(gets, "workers take no items")
        self.gets = gets
        self.items = {n["item"] for n in gets}
        self.calls = [n for n in g.ev("ucall", self.root) if any(i in n["fn"].leaves for i in self.items)]
        ck.need(self.calls, "no call of a node's function found in the workers")
        self.rets = [n for n in g.ev("uret", self.root) if any(n["call"] == c.id for c in self.calls)]
        self.vals = {n["val"] for n in self.rets}

    # -- places that hold results -----------------------------------------
    def holds(self, t):
        """the term is the result of a call"""
        return any(v is t or v in t.leaves for v in self.vals) or any(x in self.vals for x in subterms(t))

    def carries(self, t, depth=0, seen=None):
        """the term is a result, or an object that keeps one when the item has ended"""
        if not isinstance(t, T) or depth > 8:
            return False
        if t in self.memo:
            return self.memo[t]
        if self.holds(t):
            return True
        if t.op == "load" and t.args[0].args[0] in ("f", "i"):
            loc = t.args[0]
            for o in self.resolve(loc.args[1]):
                if (o.args[0], loc.args[2] if loc.args[0] == "f" else "[]") in self.R:
                    return True
        if t.op == "attr" and any((o.args[0], t.args[1]) in self.R for o in self.resolve(t.args[0])):
            return True
        if t.op in ("phi", "tup", "vtup", "spread", "star", "pos", "part"):
            parts = [y for x in t.args for y in (x if isinstance(x, tuple) else (x,))]
            return any(self.carries(x, depth + 1) for x in parts)
        if t.op == "obj" and self.it.rec(self.st, t) is None:
            return any(self.carries(v, depth + 1) for v in self.fresh.get(t, ()))
        objs = self.resolve(t)
        r = bool(objs) and bool(self.reach([(o, ()) for o in objs], self.must, first=True))
        self.memo[t] = r
        return r

    def members(self, coll, depth, keys=False):
        if coll.op in ("dvals", "ditems", "dkeys"):
            keys = keys or coll.op == "dkeys"
            coll = coll.args[0]
        out = []
        for c in self.resolve(coll, depth + 1):
            r = self.it.rec(self.st, c)
            for e in (r.entries if r is not None else ()):
                v = e.key if keys else e.val
                if v is not None:
                    out += self.resolve(v, depth + 1)
        return out

    def resolve(self, t, depth=0):
        """objects a term may denote when an item is processed"""
        if depth > 12 or not isinstance(t, T):
            return []
        if t.op == "obj":
            return [t]
        if t.op == "phi":
            return [o for x in t.args for o in self.resolve(x, depth + 1)]
        if t.op == "load":
            loc = t.args[0]
            if loc.args[0] == "f":
                return self.field(loc.args[1], loc.args[2], depth)
            if loc.args[0] == "i":
                return self.members(loc.args[1], depth)
            if loc.args[0] == "v":
                v = self.st.cells.get((loc.args[1], loc.args[2]))
                return self.resolve(v, depth + 1) if v is not None else []
        if t.op == "attr":
            return self.field(t.args[0], t.args[1], depth)
        if t.op == "unpack" and t.args[0].op == "elem" and t.args[0].args[0].op == "ditems":
            return self.members(t.args[0].args[0], depth, keys=t.args[1] is C(0))
        if t.op in ("elem", "dget", "item_", "unpack", "dval", "pop"):
            return self.members(t.args[0], depth)
        return []

    def field(self, x, name, depth):
        out = []
        for o in self.resolve(x, depth + 1):
            r = self.it.rec(self.st, o)
            v = r.fields.get(name) if r is not None else None
            if v is not None:
                out += self.resolve(v, depth + 1)
        return out

    def local(self, objs):
        """objects made while an item is processed"""
        return [o for o in objs if self.it.rec(self.st, o) is None]

    def places(self):
        """(site, field) of every place that keeps a result"""
        ck, g = self.ck, self.g
        self.R = set()
        self.must, self.may = set(), {}
        self.memo = {}
        self.fresh = {}
        stores = []
        for n in g.ev(("setattr", "mut", "setcell", "cached_call", "cadd"), self.root):
            if n.kind == "setcell" and not n["shared"] or n.loc[1] > 100000:
                continue
            stores.append(n)
            if n.kind in ("setattr", "cadd", "mut") and n["obj"] is not None:
                for v in [n.get("val")] + list(n.get("args") or ()):
                    if isinstance(v, T):
                        for o in self.resolve(n["obj"]) or [n["obj"]]:
                            self.fresh.setdefault(o, []).append(v)
        hits = {}
        for rnd in range(6):
            size = len(self.R), len(hits)
            self.memo = {}
            for n in stores:
                vs = [n["val"]] if n.kind in ("setattr", "setcell") else [x for x in list(n.get("args") or ()) + [n.get("key"), n.get("val")] if isinstance(x, T)]
                if n in hits or not any(self.carries(v) for v in vs):
                    continue
                if rnd and n.kind == "setattr" and any(x in self.vals for x in vs):
                    continue
                hits[n] = rnd
                if n.kind in ("setattr", "mut", "cadd"):
                    for o in self.resolve(n["obj"]):
                        r = self.it.rec(self.st, o)
                        if r is not None and r.kind != "graph":
                            self.R.add((o.args[0], n["name"] if n.kind == "setattr" else "[]"))
            if rnd == 0 or len(self.R) != size[0]:
                self.memo = {}
                self.must, self.may = self.releases()
            if rnd and size == (len(self.R), len(hits)):
                break
        for n in hits:
            self.judge(n)
        ck.stats["result stores"] += len(hits)
        if not hits:
            ck.ob("result-place-known", "workers", None, "the results of calls are stored nowhere")

    def judge(self, n):
        ck, g = self.ck, self.g
        if n.kind == "cached_call":
            ck.ob("result-not-cached", g.at(n), False, "a cache keyed by the result keeps it alive")
        elif n.kind == "setcell":
            p = g.path(g.after(n), self.done, block=lambda m: m is not n and m.kind == "setcell" and m["loc"] is n["loc"] and not self.carries(m["val"]))
            ck.ob("result-not-kept-in-variable", g.at(n), p is None, "" if p is None else f"variable {n['name']} outlives the item and keeps its result: " + g.show_path(p))
        else:
            x = n["obj"]
            objs = self.resolve(x)
            graph = x.op == "view" or x.op == "item_" and x.args[0].op == "view" or any((self.it.rec(self.st, o) or _E).kind == "graph" for o in objs)
            if graph or x in self.items or x.op == "data":
                ck.ob("result-not-kept-on-node", g.at(n), False, "the result is stored on the graph or its node")
            elif x.op == "attr" and x.args[0] in self.items:
                ck.ob("result-not-kept-on-node", g.at(n), False, "the result is stored in an attribute of the graph node")
            else:
                ck.ob("result-place-known", g.at(n), True if objs or x.op == "obj" else None, "" if objs else f"stored in {show(x, 3)}")

    def returned(self):
        """does the function run on the graph return the result to the engine?"""
        g = self.g
        return [n for n in g.ev("setcell", self.root) if n.loc[1] > 100000 and self.carries(n["val"])]

    # -- releases ----------------------------------------------------------
    def releases(self):
        """(site, field) cut for the item on every path on which its call was made; those cut on some paths only"""
        g = self.g
        cuts = {}
        for n in g.ev(None, self.root):
            if n.kind == "setattr" and not self.holds(n["val"]):
                for o in self.resolve(n["obj"]):
                    if any(i in p.leaves or i is p for i in self.items for p in params(o)) and not self.loaded(n, o, n["name"], n["val"]):
                        cuts.setdefault((o.args[0], n["name"]), []).append(n)
            elif n.kind == "mut" and n["op"] in ("delitem", "pop", "remove", "discard"):
                if n["args"] and n["args"][0] in self.items:
                    for o in self.resolve(n["obj"]):
                        cuts.setdefault((o.args[0], "[]"), []).append(n)
            elif n.kind == "mut" and n["op"] == "setitem" and n["args"] and n["args"][0] in self.items and len(n["args"]) > 1 and not self.holds(n["args"][1]):
                if self.loaded(n, None, "[]", n["args"][1]):
                    continue
                for o in self.resolve(n["obj"]):
                    cuts.setdefault((o.args[0], "[]"), []).append(n)
        must, may = set(), {}
        done = self.done
        for k, ev in cuts.items():
            cut = lambda m: m in ev
            p = g.path([y for c in self.calls for y in g.after(c)], done, block=cut)
            if p is not None and g.path([y for q in self.gets for y in g.after(q)], lambda m: m in self.calls, block=cut) is None:
                p = None
            if p is None:
                must.add(k)
            else:
                may[k] = p
        return must, may

    def done(self, m):
        return m.kind in ("end", "q_get", "q_task_done") or m.loc[1] > 100000 and m.kind != "join"

    def loaded(self, n, o, name, val):
        """assigning an object is no release when that object reaches a result"""
        if val is NONE or val.op == "const":
            return False
        return bool(self.reach([(val, ())], set(), first=True))

    # -- reachability -------------------------------------------------------
    def captured(self, f):
        fn = self.it.fns.get(f.args[0]) if isinstance(self.it.fns, dict) else self.it.fns[f.args[0]]
        if fn is None or isinstance(f.args[1], str):
            return
        names = {x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name)}
        for x in ast.walk(fn.node):
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                names |= set(x.names)
        local = set(fn.locals) - set(fn.nonlocals or ())
        frame = f.args[1]
        for name in sorted(names - local):
            fr = frame
            while fr is not None and not isinstance(fr, str):
                v = self.st.cells.get((fr, name))
                if v is not None:
                    yield name, v
                    break
                x = self.it.frames.get(fr)
                fr = x.parent if x is not None else None

    def roots(self):
        it, st = self.it, self.st
        out = []
        active = [x[1] for x in st.frames]
        for k, v in st.cells.items():
            if isinstance(k[0], str):
                if k[0] == "d":
                    continue
                out.append((v, (f"{k[0]}:{k[1]}",)))
            elif k[0] in active:
                fn = it.frames[k[0]].fn if k[0] in it.frames else None
                out.append((v, (f"variable {k[1]} of {fn.qual if fn is not None else '?'}",)))
        return out

    def reach(self, roots, cut, first=False, collect=None, shared=None):
        """paths from roots to result places that do not use the edges in `cut`"""
        hits = []
        seen = set()
        work = list(roots)[::-1]
        while work:
            v, path = work.pop()
            if not isinstance(v, T) or v in seen:
                continue
            seen.add(v)
            for x in sorted({v, *v.leaves}, key=id) if v.op != "obj" else (v,):
                if x.op == "fn":
                    if x in seen and x is not v:
                        continue
                    seen.add(x)
                    for name, w in self.captured(x):
                        work.append((w, path + (f"captured {name}",)))
                elif x.op == "obj":
                    if x in seen and x is not v:
                        continue
                    seen.add(x)
                    r = self.it.rec(self.st, x)
                    if r is None:
                        continue
                    site = x.args[0]
                    if r.kind == "graph":
                        continue
                    for f, w in r.fields.items():
                        step = path + (f"{show(x, 1)}.{f}",)
                        if (site, f) in self.R:
                            hits.append((x, step))
                            if first:
                                return hits
                            continue
                        if (site, f) in cut:
                            if collect is not None:
                                collect.append((x, f, w, step))
                            continue
                        work.append((w, step))
                    if (site, "[]") in self.R:
                        hits.append((x, path + (f"{show(x, 1)}[...]",)))
                    if (site, "[]") in cut:
                        if collect is not None:
                            for e in r.entries:
                                if e.val is not None:
                                    collect.append((x, "[]", e.val, path + (f"{show(x, 1)}[...]",)))
                        continue
                    if shared is not None and not params(x) and any(e.params for e in r.entries):
                        shared.append(x)
                    if r.base is not None:
                        work.append((r.base, path))
                    for e in r.entries:
                        for w in (e.key, e.val):
                            if w is not None and w.op != "const":
                                work.append((w, path + (f"{show(x, 1)}[...]",)))
                elif x.op in ("load", "attr", "elem", "dget", "item_", "unpack", "dval"):
                    for o in self.resolve(x):
                        work.append((o, path))
                # frames kept by generators
                if x.op in ("gen", "gexp", "cmgen"):
                    fr = x.args[1]
                    for k, w in self.st.cells.items():
                        if k[0] == fr:
                            work.append((w, path + (f"generator variable {k[1]}",)))
        return hits

    def output_key(self, o):
        out = self.st.cells.get(("m:client", "out"))
        ps = params(o)
        return out is not None and any(p is out for p in ps)

    def run(self):
        ck, g = self.ck, self.g
        self.places()
        back = self.returned()
        must, may = self.must, self.may
        for k in sorted(must, key=str):
            ck.ob("released-on-all-paths", self.at_site(k), True, f"{k[1]} of {k[0]} is cut when the item ends")
        dict_places = {k for k in self.R if k[1] == "[]"}
        collect = []
        # nothing that lives as long as the run reaches a result, except through what a finished item lets go
        for o, path in self.reach(self.roots(), must, collect=collect):
            if self.output_key(o):
                ck.ob("only-output-kept", path[0], True, "the requested output")
                continue
            k = next((k for k in may if any(self.uses(step, k) for step in path)), None)
            place = " -> ".join(path)
            if k is not None:
                ck.ob("released-on-all-paths", self.at_site(k), False, f"on some path the item ends without letting go of {k[1]}: " + g.show_path(may[k]) + "; kept by " + place)
            elif any(s == o.args[0] for s, f in dict_places):
                n = self.removals(o)
                ck.ob("reachable-results", path[0], None if n else False, f"results are kept in a mapping ({place})" + ("" if n else " and never removed"))
            else:
                ck.ob("reachable-results", path[0], False, "results stay reachable for the whole run: " + place)
        # what a cut lets go of is only the item's own result and its arguments
        for o, f, w, path in collect:
            own = set(params(o))
            shared = []
            for h, p2 in self.reach([(w, path)], set(), shared=shared):
                hk = params(h)
                if hk and all(t.op == "const" or t.op == "unpack" and t.args[0].op == "const" for t in hk):
                    continue
                ok = any(x in own for t in hk for x in (t, *subterms(t), *t.leaves)) if hk and own else None
                if ok is False or not hk and (h.args[0], "[]") in self.R:
                    ck.ob("item-holds-own-results", path[0], False, "an unfinished item keeps the results of unrelated calls: " + " -> ".join(p2))
                else:
                    ck.ob("item-holds-own-results", path[0], ok, " -> ".join(p2))
            for c in shared:
                if self.reach([(c, (show(c, 1),))], set(), first=True):
                    ck.ob("item-holds-own-results", path[0], False, f"an unfinished item keeps {show(c, 1)}, which holds the results of all calls")
        if back:
            self.engine(back[0])

    def uses(self, step, k):
        site = k[0]
        name = site.split("@")[0] if isinstance(site, str) else None
        s = step.split("[")[0] if k[1] == "[]" else step
        return (k[1] == "[]" and str(site) in step) or (k[1] != "[]" and str(site) in step and step.endswith("." + k[1]))

    def at_site(self, k):
        return str(k[0])

    def removals(self, o):
        g = self.g
        out = []
        for n in g.ev("mut", self.root):
            if n["op"] in ("delitem", "pop", "clear", "setitem", "remove", "discard", "popitem"):
                if any(x.args[0] == o.args[0] for x in self.resolve(n["obj"])) and not any(self.carries(a) for a in n["args"] if isinstance(a, T)):
                    out.append(n)
        return out

    def engine(self, back):
        """the result is returned to the engine: it must not keep it"""
        ck = self.ck
        e = engine.Engine(ck, "default")
        g = e.g
        vals = {n["val"] for n in e.rets}

        def holds(t):
            return isinstance(t, T) and any(x in vals for x in (t, *subterms(t)))

        bad = None
        for r in e.wroots:
            for n in g.ev(("setcell", "setattr", "mut", "cadd"), r):
                vs = [n.get("val")] + list(n.get("args") or ())
                if not any(holds(v) for v in vs if v is not None) or n.kind == "setcell" and not n["shared"]:
                    continue
                if n.kind == "setcell" and g.path(g.after(n), lambda m: m.kind in ("q_get", "q_task_done", "end"), block=lambda m: m.kind == "setcell" and m["loc"] is n["loc"] and m is not n and not holds(m["val"])) is None:
                    continue
                bad = n
                ck.ob("engine-keeps-no-result", g.at(n), False, "the engine keeps the value returned for an item")
        waits = {l.args[1] for q in e.gets for l in q.loops if l.op == "elem"}
        for root, lid, node, cells in g.it.iter_ends:
            for name, v in sorted(cells.items()):
                if lid in waits and holds(v):
                    bad = g.nodes[node]
                    ck.ob("engine-keeps-no-result", g.at(bad), False, f"variable {name} of the worker keeps the value returned for an item while it waits for the next one")
        if bad is None:
            ck.ob("engine-keeps-no-result", "engine", True)


class _E:
    kind = None


def run(ck):
    g = ck.analyse("run without registry", clients.RUN_PLAIN, env(), stub_engine=True)
    Ownership(ck, g).run()
