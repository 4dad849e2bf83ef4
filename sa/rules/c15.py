"""C15: notifications as a protocol over all paths: enter/exit around everything, totals of a section on every path before its worker starts and counting exactly the Call nodes of the graph handed to the engine under the scope that is reported later, one completed or failed after each running with the same section and scope, every examined call reported, composite observers forwarding to each member."""
import itertools
import re

from ..terms import C, is_const, mk, show, subst, subterms
from . import clients
from .base import env, sym
from .physical import notcall
from .surgery import CALL, cls_name, type_fact

OBSERVER = """
class Observer%(s)s(ProgressObserver):
    def __enter__(self):
        ENTERED%(s)s(self)
    def __exit__(self, exc_type, exc_val, exc_tb):
        EXITED%(s)s(self)
    def increment_total(self, *, section, scope, amount):
        TOTAL%(s)s(section, scope, amount, self)
    def increment_running(self, *, section, scope):
        RUNNING%(s)s(section, scope, self)
    def increment_completed(self, *, section, scope):
        COMPLETED%(s)s(section, scope, self)
    def increment_failed(self, *, section, scope, exception):
        FAILED%(s)s(section, scope, exception, self)
"""
IMPORT = """
import uberjob
from uberjob.progress import Progress, ProgressObserver, composite_progress
"""
ONE = IMPORT + OBSERVER % {"s": ""}
TWO = IMPORT + OBSERVER % {"s": "A"} + OBSERVER % {"s": "B"}
RUN = ONE + clients.RUN_REG_OUT.replace("progress=PROG", "progress=Progress(Observer)")
RETRY = ONE + clients.RUN_PLAIN.replace("progress=PROG", "progress=Progress(Observer)")
PAIR = TWO + clients.RUN_PLAIN.replace("progress=PROG", "progress=(Progress(ObserverA), Progress(ObserverB))")
LIST = TWO + clients.RUN_PLAIN.replace("progress=PROG", "progress=[Progress(ObserverA), composite_progress(Progress(ObserverB))]")
DIRECT = (
    IMPORT
    + re.sub(r"( +)((?:TOTAL|RUNNING|COMPLETED|FAILED).*)", r"\1\2\n\1return ANSWER", "".join(OBSERVER % {"s": s} for s in "ABC")).replace("ENTEREDB(self)", "ENTEREDB(self)\n        MAYFAIL()")
    + """
o = composite_progress(Progress(ObserverA), Progress(ObserverB), Progress(ObserverC)).observer()
with o:
    STEP(0)
    o.increment_total(section=SECTION, scope=SCOPE, amount=AMOUNT)
    STEP(1)
    o.increment_running(section=SECTION, scope=SCOPE)
    STEP(2)
    o.increment_completed(section=SECTION, scope=SCOPE)
    STEP(3)
    o.increment_failed(section=SECTION, scope=SCOPE, exception=EXC)
    STEP(4)
    BODY()
"""
)
KINDS = ("ENTERED", "EXITED", "TOTAL", "RUNNING", "COMPLETED", "FAILED")


def envm(suffixes=("",), **kw):
    return env(**{m + s: sym(m + s, "mark") for m in KINDS for s in suffixes}, **kw)


def flat(t, memo):
    """scopes written as nested tuples and as one tuple are the same"""
    if t in memo:
        return memo[t]
    r = t
    if t.op == "spread" and not t.args[0]:
        items = []
        for x in t.args[1]:
            if x.op == "star" and x.args[0].op == "spread" and not x.args[0].args[0]:
                items += flat(x.args[0], memo).args[1]
            elif x.op == "star" and x.args[0].op == "tup":
                items += [mk("pos", y) for y in x.args[0].args]
            else:
                items.append(x)
        r = mk("spread", (), tuple(items))
    memo[t] = r
    return r


class Observed:
    def __init__(self, ck, g, what, suffix=""):
        self.ck, self.g, self.what, self.s = ck, g, what, suffix
        self.by = {k: [n for n in g.ev("mark") if n["name"] == k + suffix] for k in KINDS}
        self.marks = [n for k in KINDS for n in self.by[k]]
        self.memo = {}

    def name(self, n):
        return n["name"][: len(n["name"]) - len(self.s)].lower()

    # -- enter and exit ----------------------------------------------------
    def bracket(self):
        ck, g = self.ck, self.g
        en, ex = self.by["ENTERED"], self.by["EXITED"]
        main = g.root_of("main")
        others = [n for n in self.marks if n.root == "main" and n not in en and n not in ex] + g.ev("thread_start", "main")
        ids = {n.id for n in others}
        p = g.path([main], lambda m: m.id in ids, block=lambda m: m in en)
        ck.ob("entered-first", self.what, p is None, "" if p is None else "reached before the observer is entered: " + g.show_path(p))
        p = g.path([main], lambda m: m.kind == "end" and m["how"] == "norm", block=lambda m: m in en)
        ck.ob("entered", self.what, p is None, "" if p is None else "run returns without entering the observer: " + g.show_path(p))
        for n in en:
            p = g.path(g.after(n), lambda m: m in en)
            ck.ob("entered-once", g.at(n), p is None, "" if p is None else "entered twice: " + g.show_path(p))
            p = g.path(g.after(n), lambda m: m.kind == "end", block=lambda m: m in ex)
            ck.ob("exited", g.at(n), p is None, "" if p is None else "run ends without exiting the observer: " + g.show_path(p))
        after = g.fwd([y for n in ex for y in g.after(n)])
        bad = [n for n in [*others, *en, *ex] if n.id in after]
        for n in bad:
            p = g.path([y for m in ex for y in g.after(m)], lambda m: m is n)
            what = self.name(n) if n.kind == "mark" else "a worker started"
            ck.ob("exited-last", g.at(n), False, f"{what} after the observer was exited: " + g.show_path(p))
        if not bad:
            ck.ob("exited-last", self.what, True if ex else None)
        whole = {n["args"][-1] for n in en}
        for n in self.marks:
            x = n["args"][-1]
            ok = not en or x in whole
            ck.ob("told-the-entered-observer", g.at(n), ok or (False if x.op == "obj" and all(y.op == "obj" for y in whole) else None), "" if ok else f"{self.name(n)} is told to {show(x, 3)}, but {'; '.join(show(y, 3) for y in whole)} was entered")
        for n in g.ev("thread_start", "main"):
            p = g.path(g.after(n), lambda m: m in ex, block=lambda m: m.kind == "thread_join")
            ck.ob("exited-after-workers", g.at(n), p is None, "" if p is None else "the observer is exited while workers run: " + g.show_path(p))

    # -- running, completed, failed ----------------------------------------
    def items(self, root):
        return [n for n in self.g.ev("q_get", root)]

    def done(self, m):
        return m.kind in ("end", "q_get", "q_task_done") or m.loc[1] >= 100000 and m.kind != "join"

    def base(self, m):
        """an exception that is no Exception: outside of the promise"""
        return m.kind == "uexc" and m["exc"].op == "exc" and m["exc"].args[1] not in ("Exception", None)

    def same(self, a, b):
        return a["args"][0] is b["args"][0] and self.scope(a) is self.scope(b)

    def scope(self, n):
        return flat(n["args"][1], self.memo)

    def pairing(self, root):
        ck, g = self.ck, self.g
        run = [n for n in self.by["RUNNING"] if n.root == root]
        fin = [n for k in ("COMPLETED", "FAILED") for n in self.by[k] if n.root == root]
        for n in run:
            p = g.path(g.after(n), self.done, block=lambda m: m in fin or self.base(m))
            ck.ob("running-ends", g.at(n), p is None, "" if p is None else "neither completed nor failed after running: " + g.show_path(p))
            p = g.path(g.after(n), lambda m: m in fin and not self.same(m, n), block=lambda m: m in fin and self.same(m, n) or self.done(m))
            ck.ob("same-section-and-scope", g.at(n), p is None, "" if p is None else f"running {show(n['args'][1], 4)} ends as {self.name(g.nodes[p[-1]])} {show(g.nodes[p[-1]]['args'][1], 4)}: " + g.show_path(p))
            p = g.path(g.after(n), lambda m: m in run, block=lambda m: m in fin or self.done(m))
            ck.ob("running-once", g.at(n), p is None, "" if p is None else "running twice: " + g.show_path(p))
        for n in fin:
            p = g.path(g.after(n), lambda m: m in fin, block=lambda m: m in run or self.done(m))
            ck.ob("ends-once", g.at(n), p is None, "" if p is None else "reported a second time as ended: " + g.show_path(p))
        gets = self.items(root)
        p = g.path([y for q in gets for y in g.after(q)], lambda m: m in fin, block=lambda m: m in run)
        ck.ob("running-before-end", root, p is None, "" if p is None else "ended but never running: " + g.show_path(p))
        # the kind of ending
        for n in fin:
            failed = n in self.by["FAILED"]
            if failed:
                p = g.path(g.after(n), lambda m: m.kind == "end" and m["how"] == "norm" or m.kind == "mark" and self.name(m) == "completed", block=lambda m: m.loc[1] >= 100000 and m.kind == "caught")
                ck.ob("failed-means-failed", g.at(n), p is None, "" if p is None else "reported as failed but the item succeeds: " + g.show_path(p))
            else:
                p = g.path(g.after(n), lambda m: m.loc[1] >= 100000 and m.kind == "caught", block=lambda m: m.kind in ("ucall",))
                ck.ob("completed-means-completed", g.at(n), p is None, "" if p is None else "reported as completed but the item fails: " + g.show_path(p))
        return run

    def every_call(self, root, run):
        """every Call item is reported, nothing else is"""
        ck, g = self.ck, self.g
        for q in self.items(root):
            x = q["item"]
            p = g.path(g.after(q), lambda m: m.kind == "end" and m["how"] == "norm" or m.kind == "q_get", block=lambda m: m in run or notcall(m, x) or m.kind == "caught" and m.loc[1] >= 100000)
            ck.ob("every-call-reported", g.at(q), p is None, "" if p is None else "a call is finished without being reported running: " + g.show_path(p))
            p = g.path(g.after(q), lambda m: m.kind == "ucall" and x in m["fn"].leaves, block=lambda m: m in run or notcall(m, x))
            ck.ob("running-before-call", g.at(q), p is None, "" if p is None else "a call is executed before it is reported running: " + g.show_path(p))
            for n in run:
                yes, no = type_fact(n.facts, x)
                ck.ob("only-calls-reported", g.at(n), True if CALL in yes else False if yes or CALL in no else None)

    # -- totals --------------------------------------------------------------
    def node_of(self, n):
        """the graph node a total is about"""
        for x in n["args"][1].leaves | set(subterms(n["args"][1])):
            if x.op == "elem" and x.args[0].op == "view" and x.args[0].args[0] == "nodes":
                return x
        for x in subterms(n["args"][1]):
            if x.op == "elem" and x.args[0].op == "obj":
                r = self.g.it.rec(self.final, x.args[0]) if self.final else None
                if r is not None and r.kind == "graph":
                    return x
        return None

    def graph_of(self, x):
        return x.args[0].args[1] if x.args[0].op == "view" else x.args[0]

    def section(self, root, run):
        ck, g = self.ck, self.g
        t = next(t for t in g.threads if t["name"] == root)
        self.final = t["state"]
        starts = set(t["starts"])
        secs = {n["args"][0] for n in run}
        for sec in sorted(secs, key=lambda s: s.h):
            name = show(sec, 1)
            tot = [n for n in self.by["TOTAL"] if n["args"][0] is sec]
            if not tot:
                other = sorted({show(n["args"][0], 1) for n in self.by["TOTAL"]})
                ck.ob("total-announced", root, False if sec.op == "const" and all(n["args"][0].op == "const" for n in self.by["TOTAL"]) else None, f"no total is announced for section {name}" + (f" (only {', '.join(other)})" if other else ""))
                continue
            self.order(sec, tot, starts, name)
            self.coverage(sec, tot, run, starts, root, name)

    def order(self, sec, tot, starts, name):
        ck, g = self.ck, self.g
        main = g.root_of("main")
        lids = set()
        for n in tot:
            it = self.iteration(n)
            if it is not None:
                lids.add(it["loop"])
        marks = {n.id for n in tot}
        p = g.path([main], lambda m: m.id in starts, block=lambda m: m.id in marks or m.kind == "loophead" and m["loop"] in lids)
        ck.ob("total-before-running", name, p is None, "" if p is None else "the workers start before the totals are announced: " + g.show_path(p))
        p = g.path([y for s in starts for y in g.after(s)], lambda m: m.id in marks)
        ck.ob("total-before-running", name, p is None, "" if p is None else "totals are announced after the workers started: " + g.show_path(p))
        for n in tot:
            if n.root != "main":
                ck.ob("total-before-running", g.at(n), False, "totals are announced by the workers")

    def innermost(self, n):
        gen = [l for l in n.loops if not (l.op == "elem" and is_const(l.args[0]))]
        return gen[-1] if gen else None

    def iteration(self, n):
        """the iter event whose element the total belongs to"""
        l = self.innermost(n)
        if l is None:
            return None
        best = None
        back = self.g.bwd([n])
        for m in self.g.ev("iter", n.root):
            if m["elem"] is l and m.id in back and m.id < n.id and (best is None or m.id > best.id):
                best = m
        return best

    def dedups(self, coll):
        """does the collection hold every scope once (True) or one entry per node (False)?"""
        kinds = set()
        for x in [coll, *subterms(coll)]:
            if x.op == "obj":
                r = self.g.it.rec(self.final, x)
                k = r.kind if r is not None else str(x.args[0]).split("@")[0]
                if k == "graph":
                    if x is coll:
                        kinds.add("nodes")
                elif k in ("dict", "counter", "set"):
                    kinds.add("dedup")
                elif k in ("list", "deque"):
                    kinds.add("list")
        if coll.op == "view":
            return False
        if len(kinds) != 1:
            return None
        return "dedup" in kinds

    def coverage(self, sec, tot, run, starts, root, name):
        ck, g = self.ck, self.g
        items = {q["item"] for q in self.items(root)}
        puts = [n for n in g.ev("q_put", "main") if any(n.id in g.bwd([s]) for s in starts)]
        graphs = set()
        for n in puts:
            x = n["item"]
            if x.op == "elem" and (x.args[0].op == "view" or x.args[0].op == "obj"):
                graphs.add((self.graph_of(x), n))
        variants = {}
        amounts = {}
        for n in tot:
            amounts.setdefault((n.loc, n.stack), set()).add(n["args"][2])
        for n in tot:
            x = self.node_of(n)
            if x is None:
                ck.ob("total-is-per-call", g.at(n), None, f"totals are not counted over graph nodes: {show(n['args'][1], 5)}")
                return
            it = self.iteration(n)
            amount = n["args"][2]
            ded = self.dedups(it["coll"]) if it is not None else None
            if amount.op == "count":
                ok = True if ded else None
                if flat(amount.args[0], self.memo) is not self.scope(n):
                    ok = False if ded else None
            elif amount.op == "len" and it is not None and amount.args[0] in (it["coll"], *it["coll"].args):
                ok = False
            elif len(amounts[n.loc, n.stack]) > 1:
                ok = None  # accumulated by hand
            elif amount is C(1):
                ok = None if ded is None else not ded
            else:
                ok = False if amount.op == "const" else None
            ck.ob("total-amount", g.at(n), ok, "" if ok else f"amount {show(amount, 4)} over {show(it['coll'], 3) if it is not None else 'no loop'}")
            scope = {subst(self.scope(n), {x: i}) for i in items}
            variants.setdefault((frozenset(scope), frozenset((subst(a, {x: mk("node")}), v) for a, v in n.facts.items() if x in a.leaves or any(y is x for y in subterms(a))), tuple(f[0] for f in n.stack)), []).append((n, x))
        # scopes reported running
        rs = {self.canon(self.scope(n)) for n in run if n["args"][0] is sec}
        ts = {self.canon(s) for v in variants for s in v[0]}
        for n in run:
            if n["args"][0] is sec:
                ok = self.canon(self.scope(n)) in ts
                ck.ob("same-scope-in-total", g.at(n), ok, "" if ok else f"reported under {show(n['args'][1], 6)}, but totals are announced under " + "; ".join(show(s, 6) for s in list(ts)[:3]))
        for k, v in variants.items():
            for s in k[0]:
                if self.canon(s) not in rs:
                    ck.ob("same-scope-in-total", g.at(v[0][0]), False, f"total announced under {show(s, 6)}, which is never reported running")
        self.conditions(variants, name)
        # the graph
        for v in variants.values():
            for n, x in v:
                G1 = self.graph_of(x)
                for G2, put in graphs:
                    self.same_graph(n, G1, G2, put, name)

    def canon(self, t):
        """forget which iteration an arbitrary element comes from"""
        k = ("c", t)
        if k not in self.memo:
            m = {}
            for x in subterms(t):
                if x.op == "elem" and x.args[0].op == "sym":
                    m[x] = mk("elem", x.args[0], mk("any"))
            self.memo[k] = subst(t, m) if m else t
        return self.memo[k]

    def conditions(self, variants, name):
        """every Call node is counted exactly once"""
        ck, g = self.ck, self.g
        node = mk("node")
        atoms = set()
        for k in variants:
            atoms |= {a for a, v in k[1]}
        types = {a for a in atoms if a.op == "eq" and a.args[0].op == "type" and a.args[0].args[0] is node or a.op == "isinst" and a.args[0] is node}
        rest = sorted(atoms - types, key=lambda a: a.h)
        if len(rest) > 8:
            ck.ob("every-call-counted", name, None, "too many conditions")
            return
        known = all(self.plain(a, node) for a in rest)
        bad = None
        for vals in itertools.product((True, False), repeat=len(rest)):
            asg = dict(zip(rest, vals))
            if any(a.op == "which" and v and not all(asg.get(b, True) for b in rest if b.op == "in" and b.args[1] is a.args[0]) for a, v in asg.items()):
                continue
            for a in types:
                asg[a] = cls_name(a.args[1]) in (CALL, "uberjob.graph.Node") if a.op == "isinst" else cls_name(a.args[1]) == CALL
            hit = {k for k in variants if all(asg[a] == v for a, v in k[1])}
            if len(hit) != 1:
                bad = (asg, len(hit))
                break
        if bad is None:
            ck.ob("every-call-counted", name, True)
        else:
            cond = ", ".join(f"{show(a, 4)} is {v}" for a, v in bad[0].items())
            ck.ob("every-call-counted", name, False if known else None, f"a call is counted {bad[1]} times when {cond}")
        # other nodes are not counted
        for k, v in variants.items():
            yes = {cls_name(a.args[1]) for a, b in k[1] if a in types and b}
            ck.ob("only-calls-counted", g.at(v[0][0]), True if CALL in yes else False if not yes else None, "" if CALL in yes else "nodes that are no calls are counted")

    def plain(self, a, node):
        """an atom about the node that can go either way for some plan"""
        if a.op in ("in", "which", "truthy"):
            return True
        return a.op in ("eq", "lt", "le") and not any(x.op in ("load", "res", "phi", "app") for x in subterms(a))

    def same_graph(self, n, G1, G2, put, name):
        ck, g = self.ck, self.g
        chain = {G2}
        for _ in range(6):
            for m in g.ev(("graphcopy", "objcopy"), "main"):
                if m["obj"] in chain:
                    chain.add(m["src"])
        if G1 not in chain:
            ck.ob("total-of-the-graph-run", g.at(n), None, f"totals counted on {show(G1, 3)}, engine runs {show(G2, 3)}")
            return
        fwd = g.fwd(g.after(n), stop=lambda m: m is put)
        back = g.bwd([put])
        bad = None
        for m in g.ev("mut", "main"):
            if m["obj"] not in chain or m.id not in fwd or m.id not in back:
                continue
            if m["op"] in ("remove_node", "remove_nodes_from"):
                for a in m["args"]:
                    yes, no = type_fact(m.facts, a)
                    if CALL in no or yes and CALL not in yes:
                        continue
                    bad = (m, False if CALL in yes or not yes and a.op == "elem" else None, "calls may be removed")
            elif m["op"] in ("add_node", "add_nodes_from"):
                for a in m["args"]:
                    c = a.op == "obj" and cls_name((g.it.rec(self.final, a) or _E).cls or mk("none"))
                    if c and c != CALL:
                        continue
                    bad = (m, False if c == CALL else None, "calls are added")
            if bad:
                break
        if bad:
            ck.ob("total-of-the-graph-run", g.at(bad[0]), bad[1], f"{bad[2]} between counting the totals of {name} and running them")
        else:
            ck.ob("total-of-the-graph-run", g.at(n), True)

    def run(self):
        ck, g = self.ck, self.g
        self.bracket()
        n = 0
        for root in g.workers():
            if any(m.root == root for m in self.marks):
                run = self.pairing(root)
                self.every_call(root, run)
                self.section(root, run)
                n += len(run)
            elif g.ev("q_get", root):
                self.every_call(root, [])
        if not n:
            ck.ob("every-call-reported", self.what, False, "nothing is ever reported running")
        ck.stats["notification sites"] += len(self.marks)


class _E:
    cls = None


def forwarding(ck, g):
    """the direct client: what each member gets between the steps"""
    steps = {show(n["args"][0], 1) for n in g.ev("mark", "main") if n["name"] == "STEP"}
    ck.need(len(steps) == 5, "the steps of the composite client are not reached")
    args = {"TOTAL": ("SECTION", "SCOPE", "AMOUNT"), "RUNNING": ("SECTION", "SCOPE"), "COMPLETED": ("SECTION", "SCOPE"), "FAILED": ("SECTION", "SCOPE", "EXC")}
    for i, kind in enumerate(args):
        a, b = [n for n in g.ev("mark", "main") if n["name"] == "STEP" and n["args"][0] is C(i)], [n for n in g.ev("mark", "main") if n["name"] == "STEP" and n["args"][0] is C(i + 1)]
        for s in "ABC":
            mine = [n for n in g.ev("mark", "main") if n["name"][-1] == s and n["name"][:-1] in args]
            good = [n for n in mine if n["name"] == kind + s and all(x.op == "sym" and x.args[0] == y for x, y in zip(n["args"], args[kind]))]
            for n in a:
                p = g.path(g.after(n), lambda m: m in b or m.kind == "end", block=lambda m: m in good)
                ck.ob("composite-forwards", g.at(n), p is None, "" if p is None else f"{kind.lower()} does not reach member {s} unchanged: " + g.show_path(p))
            for n in good:
                p = g.path(g.after(n), lambda m: m in mine, block=lambda m: m in b)
                ck.ob("composite-forwards-once", g.at(n), p is None, "" if p is None else f"member {s} is told twice: " + g.show_path(p))
    for s in "ABC":
        en = [n for n in g.ev("mark", "main") if n["name"] == "ENTERED" + s]
        ex = [n for n in g.ev("mark", "main") if n["name"] == "EXITED" + s]
        first = [n for n in g.ev("mark", "main") if n["name"] == "STEP"]
        p = g.path([g.root_of("main")], lambda m: m in first, block=lambda m: m in en)
        ck.ob("composite-enters", s, p is None, "" if p is None else f"member {s} is not entered: " + g.show_path(p))
        for n in en:
            p = g.path(g.after(n), lambda m: m.kind == "end", block=lambda m: m in ex or s == "B" and m.kind == "uexc" and "MAYFAIL" in show(m["fn"], 1))
            ck.ob("composite-exits", g.at(n), p is None, "" if p is None else f"member {s} is entered but not exited: " + g.show_path(p))
        for n in ex:
            p = g.path(g.after(n), lambda m: m in ex)
            ck.ob("composite-exits-once", g.at(n), p is None, "" if p is None else f"member {s} is exited twice: " + g.show_path(p))
            p = g.path(g.after(n), lambda m: m.kind == "mark" and m["name"] == "STEP")
            ck.ob("composite-exits-last", g.at(n), p is None, "" if p is None else f"member {s} is exited too early")


def run(ck):
    g = ck.analyse("run with registry and one observer", RUN, envm(), stub_engine=True)
    Observed(ck, g, "one observer").run()
    g = ck.analyse("run with retry", RETRY, envm(RETRY=sym("RETRY", "int")), stub_engine=True)
    Observed(ck, g, "with retry").run()
    for name, src in (("tuple of two", PAIR), ("list with a composite", LIST)):
        g = ck.analyse(f"run, {name}", src, envm("AB"), stub_engine=True)
        for s in "AB":
            Observed(ck, g, f"member {s} ({name})", s).run()
    g = ck.analyse("composite of three", DIRECT, envm("ABC", STEP=sym("STEP", "mark"), MAYFAIL=sym("MAYFAIL", "callable"), BODY=sym("BODY", "callable"), SECTION=sym("SECTION", "str"), SCOPE=sym("SCOPE", "obj"), ANSWER=sym("ANSWER", "obj"), AMOUNT=sym("AMOUNT", "int"), EXC=sym("EXC", "obj")))
    forwarding(ck, g)
