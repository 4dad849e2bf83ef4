"""Queries over the event graph, obligations and clients shared by the rules."""
import collections
import time

from ..core import norm
from ..interp import Interp, Policy
from ..loader import ENGINE_STUB, Repo
from ..terms import C, FALSE, NONE, T, TRUE, cval, find, is_const, mk, show, subterms

NODES_SYM = mk("sym", "NODES", "nodes")


class AnchorError(Exception):
    """something the analysis is anchored in is gone: the check gives no verdict"""


class Check:
    """collects the obligations of one property"""

    def __init__(self, prop, tier, repo=None, overlay=None):
        self.prop = prop
        self.tier = tier
        self.overlay = overlay
        self.obs = []  # (rule, construct, status, detail)
        self.stats = collections.Counter()
        self.fns = set()
        self.clients = []
        self.unknown = []
        self.incomplete = []
        self._interp = {}

    # -- obligations ------------------------------------------------------
    def ob(self, rule, construct, ok, detail=""):
        """ok: True discharged, False violated, None undecided"""
        self.obs.append((rule, construct, ok, detail))
        return ok

    def need(self, cond, what):
        if not cond:
            raise AnchorError(what)

    # -- analyses ---------------------------------------------------------
    def analyse(self, name, src, env, stub_engine=False, **policy):
        t = time.time()
        key = (stub_engine, tuple(sorted((k, repr(v)) for k, v in policy.items())))
        stubs = {"run_function_on_graph": ENGINE_STUB} if stub_engine else None
        it = Interp(Repo(overlay=self.overlay, stubs=stubs), Policy(**policy))
        if stub_engine and not it.repo.stubbed:
            raise AnchorError("run_function_on_graph is not a module level function any more")
        r = it.analyse(src, env)
        r.name = name
        g = G(r)
        self.clients.append(
            {
                "client": name,
                "events": len(r.nodes) - r.base,
                "functions": len(it.analysed_fns),
                "thread_roots": len(r.threads),
                "seconds": round(time.time() - t, 1),
            }
        )
        self.fns |= {f"{it.fns[f].mod.name}:{it.fns[f].qual}" for f in it.analysed_fns}
        self.stats["events"] += len(r.nodes) - r.base
        self.unknown += [f"{name}: {u}" for u in it.unknown]
        return g


class G:
    """event graph of one client"""

    def __init__(self, r):
        self.r = r
        self.it = r.it
        self.nodes = r.nodes
        self.base = r.base
        self.succ = r.succ
        self.name = r.name
        self.threads = r.threads
        self.roots = list(dict.fromkeys(n.root for n in self.nodes[self.base:]))

    def ev(self, kind=None, root=None, **kw):
        return list(self.r.events(kind, root, **kw))

    def workers(self):
        return [t["name"] for t in self.threads]

    def at(self, n):
        if n is None:
            return "?"
        if type(n) is int:
            n = self.nodes[n]
        p, l = n.loc
        fn = ""
        for f in reversed(n.stack):
            if type(f[0]) is int:
                fn = self.it.fns[f[0]].qual
                break
        return f"{p}:{l}" + (f" in {fn}" if fn else "")

    def fwd(self, starts, stop=lambda n: False, block=lambda n: False):
        """nodes reachable from starts; nodes in `stop` are reached but not expanded, `block` never entered"""
        seen = set()
        work = [s if type(s) is int else s.id for s in starts]
        while work:
            x = work.pop()
            if x in seen:
                continue
            n = self.nodes[x]
            if block(n):
                continue
            seen.add(x)
            if stop(n):
                continue
            work += self.succ.get(x, ())
        return seen

    def after(self, n):
        return self.succ.get(n if type(n) is int else n.id, [])

    def bwd(self, starts, block=lambda n: False):
        seen = set()
        work = [s if type(s) is int else s.id for s in starts]
        while work:
            x = work.pop()
            if x in seen:
                continue
            if block(self.nodes[x]):
                continue
            seen.add(x)
            work += self.nodes[x].preds
        return seen

    def path(self, starts, goal, block=lambda n: False):
        """shortest path (node ids) from a start to a goal node that enters no blocked node, or None"""
        prev = {}
        dq = collections.deque()
        for s in starts:
            s = s if type(s) is int else s.id
            if s not in prev and not block(self.nodes[s]):
                prev[s] = None
                dq.append(s)
        while dq:
            x = dq.popleft()
            if goal(self.nodes[x]):
                out = []
                while x is not None:
                    out.append(x)
                    x = prev[x]
                return out[::-1]
            for y in self.succ.get(x, ()):
                if y not in prev and not block(self.nodes[y]):
                    prev[y] = x
                    dq.append(y)
        return None

    def root_of(self, name):
        for n in self.nodes[self.base:]:
            if n.kind == "root" and n.root == name:
                return n.id

    def show_path(self, p):
        """the lines a path goes through"""
        out = []
        for x in p or ():
            n = self.nodes[x]
            s = f"{n.loc[0]}:{n.loc[1]}"
            if n.kind == "assume":
                s += f" [{show(n['atom'], 3)} is {n['val']}]"
            if not out or out[-1] != s:
                out.append(s)
        if len(out) > 24:
            out = out[:8] + ["..."] + out[-15:]
        return " -> ".join(out)

    def snapshot(self, root):
        """state in which a thread starts"""
        for t in self.threads:
            if t["name"] == root:
                return t["state"]
        return None

    def assumes(self, nid):
        return None


def fact(n, atom, default=None):
    a, pol = norm(atom)
    v = n.facts.get(a)
    if v is None:
        return default
    return v == pol


def holds_in(facts, pred):
    for a, v in facts.items():
        if pred(a, v):
            return True
    return False


def is_view(t, kind=None):
    return t.op == "view" and (kind is None or t.args[0] == kind)


# --- evaluating guards over small concrete numbers --------------------------


class NoEval(Exception):
    pass


def evalt(t, env):
    if t in env:
        return env[t]
    o = t.op
    if o == "const":
        return cval(t)
    a = t.args
    if o == "add":
        return evalt(a[0], env) + evalt(a[1], env)
    if o == "sub":
        return evalt(a[0], env) - evalt(a[1], env)
    if o == "mul":
        return evalt(a[0], env) * evalt(a[1], env)
    if o == "floordiv":
        return evalt(a[0], env) // evalt(a[1], env)
    if o == "eq":
        return evalt(a[0], env) == evalt(a[1], env)
    if o == "lt":
        return evalt(a[0], env) < evalt(a[1], env)
    if o == "le":
        return evalt(a[0], env) <= evalt(a[1], env)
    if o == "gt":
        return evalt(a[0], env) > evalt(a[1], env)
    if o == "ge":
        return evalt(a[0], env) >= evalt(a[1], env)
    if o == "truthy":
        return bool(evalt(a[0], env))
    if o == "not":
        return not evalt(a[0], env)
    if o == "neg":
        return -evalt(a[0], env)
    if o == "is":
        x, y = evalt(a[0], env), evalt(a[1], env)
        return x is y or x == y
    if o in ("max", "min"):
        return (max if o == "max" else min)(evalt(x, env) for x in a)
    raise NoEval(t)


def allowed(facts, var, values):
    """the values of `var` that every fact which only involves it permits, and whether any fact constrains it"""
    out = []
    used = False
    for v in values:
        ok = True
        for a, b in facts.items():
            if var not in a.leaves:
                continue
            try:
                r = evalt(a, {var: v})
            except (NoEval, TypeError):
                continue
            used = True
            if bool(r) != b:
                ok = False
        if ok:
            out.append(v)
    return out, used


def sym(name, ty):
    return mk("sym", name, ty)


RUN_ENV = {
    "NODES": NODES_SYM,
    "SRCS": sym("SRCS", "unique"),
    "STORE": sym("STORE", "pure"),
    "STORE2": sym("STORE2", "pure"),
    "WC": sym("WC", "int"),
    "SWC": sym("SWC", "int"),
    "MAXE": sym("MAXE", "int"),
    "SCHED": C("default"),
    "FN": sym("FN", "callable"),
    "OUT": NONE,
    "DRY": FALSE,
    "RETRY": NONE,
    "FRESH": NONE,
    "PROG": NONE,
}


def env(**kw):
    e = dict(RUN_ENV)
    e.update(kw)
    return e


ENGINE = """
import networkx as nx
from uberjob._execution.run_function_on_graph import run_function_on_graph
g = nx.MultiDiGraph()
run_function_on_graph(g, FN, worker_count=WC, max_errors=MAXE, scheduler=SCHED)
"""
