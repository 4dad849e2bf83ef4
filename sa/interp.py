"""Client driven abstract interpreter.

Abstractly interprets (over-approximates) the repository's functions from small client
programs; the result is an exploded event graph (core.Node).  Loops are closed by a
fixpoint over abstract states, calls are inlined, opaque user code is an event with
return / Exception / BaseException successors.  Nothing of /repo is imported or executed.
"""
import ast
import builtins as _pybuiltins
import collections.abc
import sys
import time
import types

from .core import CONTAINERS, Entry, Node, Rec, State, has_old, intlike, join_mark, norm, norm_entries, rigid
from .models import Models
from .terms import (
    B,
    C,
    FALSE,
    NONE,
    T,
    TRUE,
    cval,
    is_const,
    mk,
    old,
    subst,
    subterms,
    tup,
)

sys.setrecursionlimit(60000)


class AnalysisLimit(Exception):
    pass


class Fn:
    __slots__ = ("fid", "node", "mod", "name", "qual", "locals", "nonlocals", "globals_", "is_gen", "cls")


class Frame:
    __slots__ = ("id", "fid", "parent", "mod", "locals", "dyn", "escapes", "fn", "nonlocals", "globals_", "make", "where")

    def __init__(self):
        self.make = False
        self.where = ""


class Cx:
    __slots__ = ("frame", "ret", "brk", "cont", "yh", "cls", "selfv")

    def __init__(self, frame):
        self.frame = frame
        self.ret = []
        self.brk = []
        self.cont = []
        self.yh = None
        self.cls = None
        self.selfv = None


class Outs:
    __slots__ = ("norm", "ret", "brk", "cont", "raises")


def assigned_names(node):
    """names bound in a function body (not nested scopes)"""
    out = set()
    nonl = set()
    glob = set()
    isgen = [False]

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                rec(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus leaks; the first iterable is evaluated here
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    tgt(x.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, (ast.Assign,)):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None:
                tgt(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, ast.MatchAs):
            if n.name:
                out.add(n.name)
        for ch in ast.iter_child_nodes(n):
            rec(ch)

    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        rec(b)
    return out - nonl - glob, nonl, glob, isgen[0]


WAITS = ("q_join", "wait", "event_wait", "thread_join")


class Policy:
    def __init__(self, **kw):
        self.user_raises = kw.get("user_raises", True)
        self.ki = kw.get("ki", False)
        self.file_faults = kw.get("file_faults", False)
        self.quiet_users = kw.get("quiet_users", ())  # attr names that never raise
        self.trace = False
        self.opaque = {
            "get_stack_frame": "frame",
            "fully_qualified_name": "str",
            "CallError": "exc",
        }
        self.max_nodes = kw.get("max_nodes", 400000)
        self.unroll_range = kw.get("unroll_range", 4)
        self.loop_heads = kw.get("loop_heads", 5)
        self.concrete = kw.get("concrete", False)  # small closed programs: loops are followed step by step
        self.displays = kw.get("displays", False)
        self.rec_depth = kw.get("rec_depth", 3)
        if "full" in kw:
            for n in kw["full"]:
                self.opaque.pop(n, None)
        for k, v in kw.items():
            setattr(self, k, v)


class Interp(Models):
    def __init__(self, repo, policy=None):
        self.repo = repo
        self.policy = policy or Policy()
        self.fns = []
        self.fn_by_node = {}
        self.frames = {}
        self.frame_ids = {}
        self.astnodes = {}
        self.classes = {}  # qual -> (node, mod, bases)
        self.class_by_name = {}
        self._exported = None
        self.shared_main = set()  # locations written by threads
        self.filled = set()  # containers in which anything but None is put by threads, or after they were started
        self.shared_thr = set()  # ... or by main after a thread was started
        self.mayvals = {}  # loc -> list of values (previous pass)
        self.nodes = []
        self.raises = []
        self.lookups_fail = 0  # inside a try statement that handles KeyError
        self.spawn_states = []
        self.iter_ends = []  # variables of the looping frame at the end of an iteration, in threads
        self.base_state = None
        self.loc = ("", 0)
        self.unknown = []
        self.fn_marks = {}
        self.sym_models = {}
        self.module_state = {}
        self.threads = []
        self.analysed_fns = set()
        self.steps = 0
        self.root = "main"
        self.load_modules()

    # ------------------------------------------------------------------ graph
    def emit(self, st, kind, **data):
        n = Node(
            len(self.nodes), kind, data, [] if st.node is None else [st.node], self.loc, st.frames,
            st.facts, st.locks, st.loops, self.root,
        )
        self.nodes.append(n)
        if len(self.nodes) > self.policy.max_nodes:
            raise AnalysisLimit("event graph too large")
        st.node = n.id
        if self.policy.ki and kind in WAITS and self.root == "main":
            # an interrupt is only injected while the main thread has not yet waited for its threads
            st.flags = st.flags | {"waited"}
        return n

    def join_nodes(self, ids, kind="join", **data):
        ids = list(dict.fromkeys(ids))
        if len(ids) == 1 and kind == "join":
            return ids[0]
        n = Node(len(self.nodes), kind, data, ids, self.loc, (), {}, (), (), self.root)
        self.nodes.append(n)
        if len(self.nodes) > self.policy.max_nodes:
            raise AnalysisLimit("event graph too large")
        return n.id

    # ------------------------------------------------------------------ tokens
    def site(self, node):
        m = getattr(node, "_mod", None)
        return f"{m.name if m else '?'}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"

    def tk(self, st, node, cx, extra=""):
        return mk("tk", self.site(node) + extra, cx.frame.id, st.loops)

    def new_obj(self, st, node, cx, rec, label="", extra=""):
        o = mk("obj", (label or rec.kind) + "@" + self.site(node) + extra, cx.frame.id, st.loops)
        if self.policy.concrete:
            k = 0
            while o in st.heap:
                k += 1
                o = mk("obj", (label or rec.kind) + "@" + self.site(node) + extra + f"#{k}", cx.frame.id, st.loops)
        st.heap[o] = rec
        if self.root == "main" and st.node is not None:
            self.made.setdefault(o, set()).add(st.node)
        return o

    # ------------------------------------------------------------------ modules
    def load_modules(self):
        st = State()
        st.node = None
        self.base = st
        self.root = "import"
        self.made = {}
        self.mod_done = set()
        for name in sorted(self.repo.modules):
            self.import_module(st, name)
        self.base_node_count = len(self.nodes)
        self.root = "main"

    def mod_frame(self, name):
        fid = "m:" + name
        f = self.frames.get(fid)
        if f is None:
            f = Frame()
            f.id = fid
            f.fid = None
            f.parent = None
            f.mod = self.repo.modules.get(name)
            f.locals = None
            f.dyn = None
            f.escapes = True
            f.fn = None
            f.nonlocals = f.globals_ = ()
            self.frames[fid] = f
        return f

    def import_module(self, st, name):
        if name in self.mod_done or name not in self.repo.modules:
            return
        parts = name.split(".")
        for i in range(1, len(parts)):
            self.import_module(st, ".".join(parts[:i]))
        if name in self.mod_done:
            return
        self.mod_done.add(name)
        mod = self.repo.modules[name]
        cx = Cx(self.mod_frame(name))
        st.cells[("m:" + name, "__name__")] = C(name)
        saved = self.raises
        self.raises = []
        outs = self.block(mod.tree.body, [st], cx)
        self.raises = saved
        if outs:
            # keep a single state: merge into st object
            r = outs[0]
            if r is not st:
                for s in State.__slots__:
                    if s == "inst":
                        continue
                    setattr(st, s, getattr(r, s))
        st.facts = {}

    # ------------------------------------------------------------------ functions
    def fninfo(self, node):
        f = self.fn_by_node.get(id(node))
        if f is None:
            f = Fn()
            f.fid = len(self.fns)
            f.node = node
            f.mod = node._mod
            f.name = getattr(node, "name", "<lambda>")
            f.qual = getattr(node, "_qual", f.name)
            loc, nonl, glob, isgen = assigned_names(node)
            a = getattr(node, "args", None)
            if a is not None:
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    loc.add(x.arg)
                if a.vararg:
                    loc.add(a.vararg.arg)
                if a.kwarg:
                    loc.add(a.kwarg.arg)
            f.locals = loc
            f.nonlocals = nonl
            f.globals_ = glob
            f.is_gen = isgen
            f.cls = None
            self.fns.append(f)
            self.fn_by_node[id(node)] = f
        return f

    def make_frame(self, dyn_id, callnode, fn, lexparent):
        key = (dyn_id, id(callnode) if callnode is not None else 0, fn.fid, lexparent)
        fr = self.frame_ids.get(key)
        if fr is None:
            fr = Frame()
            fr.id = len(self.frame_ids) + 1
            fr.fid = fn.fid
            fr.parent = lexparent
            fr.mod = fn.mod
            fr.locals = fn.locals
            fr.dyn = dyn_id
            fr.escapes = False
            fr.fn = fn
            fr.make = True
            fr.where = self.site(callnode) if callnode is not None else ""
            fr.nonlocals = fn.nonlocals
            fr.globals_ = fn.globals_
            self.frame_ids[key] = fr
            self.frames[fr.id] = fr
        return fr

    def sub_frame(self, cx, node, names):
        key = (cx.frame.id, id(node), "sub")
        fr = self.frame_ids.get(key)
        if fr is None:
            fr = Frame()
            fr.id = len(self.frame_ids) + 1
            fr.fid = cx.frame.fid
            fr.parent = cx.frame.id
            fr.mod = cx.frame.mod
            fr.locals = names
            fr.dyn = cx.frame.dyn
            fr.escapes = False
            fr.fn = cx.frame.fn
            fr.where = self.site(node)
            fr.nonlocals = fr.globals_ = ()
            self.frame_ids[key] = fr
            self.frames[fr.id] = fr
        return fr

    # ------------------------------------------------------------------ names
    def resolve_cell(self, cx, name):
        """cell key holding name as seen from cx"""
        f = cx.frame
        if name in f.globals_:
            return ("m:" + f.mod.name, name)
        if f.locals is None or name in f.locals:
            return (f.id, name)
        p = f.parent
        while p is not None:
            g = self.frames[p]
            if g.locals is None:
                break
            if name in g.globals_:
                break
            if name in g.locals:
                return (g.id, name)
            p = g.parent
        if f.mod is None:
            return ("m:client", name)
        return ("m:" + f.mod.name, name)

    def load_name(self, st, name, cx, node):
        key = self.resolve_cell(cx, name)
        loc = mk("loc", "v", key[0], key[1])
        if loc in self.shared and key in st.cells:
            return self.shared_load(st, loc, loc, node, cx)
        v = st.cells.get(key)
        if v is not None:
            return v
        if isinstance(key[0], str):
            if key[0] == "m:client" and name in self.sym_models:
                return self.sym_models[name]
            if hasattr(_pybuiltins, name) or name == "__IPYTHON__":
                return mk("ext", "builtins." + name)
            if name in ("__file__", "__doc__"):
                return mk("sym", name, "str")
        return mk("undef", name)

    def store_name(self, st, name, v, cx):
        key = self.resolve_cell(cx, name)
        loc = mk("loc", "v", key[0], key[1])
        shared = loc in self.shared
        if shared or key[0] != cx.frame.id:
            if not (isinstance(key[0], str) and self.root == "import"):
                self.emit(st, "setcell", loc=loc, obj=None, name=name, val=v, shared=shared)
                if shared:
                    self.lk_write(st, loc, v)
        elif self.root == "main" and "threads" in st.flags:
            self.emit(st, "setcell", loc=loc, obj=None, name=name, val=v, shared=shared)
        elif cx.frame.escapes and self.root != "import":
            self.emit(st, "setcell", loc=loc, obj=None, name=name, val=v, shared=shared)
        st.cells[key] = v

    # temporaries ------------------------------------------------------------
    def hold(self, st, cx, node, i, v):
        """keep a value that only the evaluator refers to alive"""
        for x in v.leaves:
            if x.op == "obj":
                st.cells[("tmp", cx.frame.id, id(node), i)] = v
                return

    def unhold(self, st, cx, node, n):
        for i in range(n):
            st.cells.pop(("tmp", cx.frame.id, id(node), i), None)

    def unhold_all(self, st, cx, keep):
        for k in [k for k in st.cells if k[0] == "tmp" and k[1] == cx.frame.id and k not in keep]:
            del st.cells[k]

    # shared locations -------------------------------------------------------
    @property
    def shared(self):
        return self.shared_main if self.root == "main" else self.shared_thr

    def shared_load(self, st, loc, specific, node, cx):
        if st.locks:
            v = st.cells.get(("lk", specific))
            if v is not None:
                return v
        t = mk("load", specific, self.tk(st, node, cx))
        self.purge(st, t)
        self.emit(st, "load", loc=loc, spec=specific, val=t)
        if st.locks:
            st.cells[("lk", specific)] = t
        return t

    def lk_write(self, st, specific, v):
        if st.locks:
            st.cells[("lk", specific)] = v

    def lk_clear(self, st):
        for k in [k for k in st.cells if k[0] == "lk"]:
            del st.cells[k]

    def purge(self, st, t):
        if any(t in a.leaves for a in st.facts):
            st.facts = {a: b for a, b in st.facts.items() if t not in a.leaves}

    # ------------------------------------------------------------------ facts
    def typeof(self, st, v):
        """set of possible class terms or None when unknown"""
        o = v.op
        if o == "const":
            return {mk("ext", "builtins." + v.args[0])}
        if o == "obj":
            r = self.rec(st, v)
            if r is None:
                return None
            if r.cls is not None:
                return {r.cls}
            if r.kind in ("list", "set", "dict"):
                return {mk("ext", "builtins." + r.kind)}
            if r.kind == "deque":
                return {mk("ext", "collections.deque")}
            if r.kind == "counter":
                return {mk("ext", "collections.Counter")}
            return None
        if o == "tup":
            return {mk("ext", "builtins.tuple")}
        if o in ("fn", "bm", "lambda"):
            return {mk("ext", "types.FunctionType")}
        if o in ("cat", "strof", "anystr", "str", "repr", "fmt"):
            return {mk("ext", "builtins.str")}
        if o in ("len", "count", "sub", "add"):
            return None
        if o == "cls":
            return {mk("ext", "builtins.type")}
        if o == "sym":
            ty = v.args[1]
            if ty in ("int", "str", "bool", "float", "bytes"):
                return {mk("ext", "builtins." + ty)}
            if ty.startswith("="):
                c = self.class_by_name.get(ty[1:])
                return {c} if c is not None else {mk("ext", ty[1:])}
            return None
        if o == "load":
            vals = self.mayvals.get(self.genloc(v.args[0]))
            if not vals:
                return None
            out = set()
            for x in vals:
                if x.op == "load":
                    if x.args[0] is v.args[0]:
                        continue
                    return None
                ts = self.typeof(st, x)
                if ts is None:
                    return None
                out |= ts
            return out or None
        if o == "exc":
            return None
        return None

    FIN = ("Call", "Literal")
    FINE = ("Dependency", "PositionalArg", "KeywordArg")

    def fin_types(self, t):
        if t.op == "type":
            x = t.args[0]
            if x.op == "ek":
                return [self.class_by_name[c] for c in self.FINE if c in self.class_by_name]
            if self.nodeish(x):
                return [self.class_by_name[c] for c in self.FIN if c in self.class_by_name]
        return None

    def nodeish(self, x):
        while x.op == "old":
            x = x.args[0]
        if x.op == "elem":
            v = x.args[0]
            return v.op == "view" and v.args[0] in ("nodes", "preds", "succs") or (
                v.op == "sym" and v.args[1] == "nodes"
            )
        if x.op in ("ev", "eu", "item"):
            return True
        if x.op == "pop" and len(x.args) == 3:
            return x.args[1] is C("node") or self.nodeish(x.args[1])
        if x.op == "sym" and x.args[1] == "node":
            return True
        if x.op in ("nodeof",):
            return True
        return False

    def subclass(self, c, d):
        """is class term c a subclass of class term d: True/False/None"""
        if c is d:
            return True
        if d.op == "ext" and d.args[0] == "builtins.object":
            return True
        if c.op == "cls":
            return any(x is d or (x.op == "ext" and self.subclass(x, d)) for x in self.mro(c))
        if c.op == "ext" and d.op == "ext":
            a = self.py_class(c.args[0])
            b = self.py_class(d.args[0])
            if a is not None and b is not None:
                try:
                    return issubclass(a, b)
                except TypeError:
                    return None
            if a is None and c.args[0].split(".")[-1].endswith(("Error", "Cycle", "Exception")) and b is not None:
                return b in (Exception, BaseException, object)
            return None
        if c.op == "ext" and d.op == "cls":
            return False
        return None

    def py_class(self, dotted):
        if dotted.startswith("builtins."):
            x = types.NoneType if dotted == "builtins.NoneType" else getattr(_pybuiltins, dotted[9:], None)
            return x if isinstance(x, type) else None
        return {
            "os.PathLike": None, "json.JSONDecodeError": ValueError, "pickle.PickleError": Exception,
            "pickle.PicklingError": Exception, "queue.Empty": Exception, "queue.Full": Exception,
            "networkx.HasACycle": Exception, "networkx.NetworkXError": Exception,
            "networkx.NetworkXUnfeasible": Exception,
            "collections.deque": collections.deque, "collections.OrderedDict": collections.OrderedDict,
            "collections.defaultdict": collections.defaultdict, "collections.Counter": collections.Counter,
            "types.MappingProxyType": types.MappingProxyType, "types.FunctionType": types.FunctionType, "types.NoneType": types.NoneType,
        }.get(dotted) or (getattr(collections.abc, dotted[16:], None) if dotted.startswith("collections.abc.") else None)

    def decide(self, st, atom):
        """True/False/None"""
        v = st.facts.get(atom)
        if v is not None:
            return v
        o = atom.op
        if o == "const":
            return bool(cval(atom))
        if o == "eq":
            a, b = atom.args
            if a is b and a.op not in ("res",):
                return True
            if a.op == "tup" and b.op == "tup" and not any(x.op in ("star", "spread") for x in a.args + b.args):
                if len(a.args) != len(b.args):
                    return False
                parts = [self.decide(st, mk("eq", x, y)) for x, y in zip(a.args, b.args)]
                if False in parts:
                    return False
                if None not in parts:
                    return True
                return None
            if rigid(a) and rigid(b):
                if a.op == "const" and b.op == "const":
                    try:
                        return cval(a) == cval(b)
                    except Exception:
                        return None
                return False
            if b is NONE:
                if self.notnone(st, a):
                    return False
                if a.op == "load":
                    vals = self.mayvals.get(self.genloc(a.args[0]))
                    if vals and all(self.notnone(st, x) for x in vals):
                        return False
                tr = st.facts.get(mk("truthy", a))
                if tr:
                    return False
            if rigid(b):
                if a.op == "tup" or a.op == "cat":
                    if b.op != "const":
                        return False
                    if b.op == "const" and a.op == "tup":
                        return False
                if a.op == "obj" and b.op in ("const", "cls", "ext", "fn"):
                    return False
                for f, val in st.facts.items():
                    if val and f.op == "eq" and f.args[0] is a and rigid(f.args[1]) and f.args[1] is not b:
                        if f.args[1].op == "const" and b.op == "const":
                            if cval(f.args[1]) != cval(b):
                                return False
                        else:
                            return False
                if a.op == "type":
                    ts = self.typeof(st, a.args[0])
                    if ts is not None and b not in ts:
                        return False
                    if ts is not None and len(ts) == 1 and b in ts:
                        return True
                    fin = self.fin_types(a)
                    if fin:
                        if b not in fin:
                            return False
                        rest = [
                            c for c in fin if c is not b and st.facts.get(mk("eq", a, c)) is not False
                        ]
                        if not rest:
                            return True
                    # isinstance facts
                    iso = st.facts.get(mk("isinst", a.args[0], b))
                    if iso is False:
                        return False
            if a.op == "obj" and b.op == "obj":
                if a.args[:2] != b.args[:2]:
                    return False
            if (a.op == "obj") != (b.op == "obj") and (a.op in ("const", "tup") or b.op in ("const", "tup")):
                return False
            if a.op == "obj" and b.op in ("sym",) or b.op == "obj" and a.op == "sym":
                return False
            return None
        if o == "is":
            a, b = atom.args
            if a is b:
                return True
            if a.op == "obj" and b.op == "obj" and a.args[:2] != b.args[:2]:
                return False
            if a.op == "obj" and b.op == "sym" or b.op == "obj" and a.op == "sym":
                return False
            if a.op == "obj" and not st.heap.get(a) is None and b.op in ("elem", "item", "old", "res") and not self.escaped(st, a):
                return False
            return None
        if o == "truthy":
            a = atom.args[0]
            if st.facts.get(mk("eq", a, NONE)):
                return False
            for f, val in st.facts.items():
                if val and f.op == "eq" and f.args[0] is a and f.args[1].op == "const":
                    return bool(cval(f.args[1]))
            return None
        if o == "isinst":
            x, c = atom.args
            if c.op == "ext" and c.args[0] == "builtins.object":
                return True
            ts = self.typeof(st, x)
            if ts is not None:
                rs = {self.subclass(t, c) for t in ts}
                if rs == {True}:
                    return True
                if rs == {False}:
                    return False
            for f, val in st.facts.items():
                if val and f.op == "eq" and f.args[0].op == "type" and f.args[0].args[0] is x:
                    return self.subclass(f.args[1], c)
            if x.op == "exc":
                return self.exc_isinst(x, c)
            if self.nodeish(x):
                n = self.class_by_name.get("Node")
                if c is n:
                    return True
                if c.op == "cls" and n is not None and n not in self.mro(c):
                    return False
            if st.facts.get(mk("eq", x, NONE)):
                return False
            if x.op == "sym" and x.args[1].startswith("~"):
                k = self.class_by_name.get(x.args[1][1:])
                if k is not None and self.subclass(k, c):
                    return True
            if c.op == "cls" and c.args[0].endswith("ValueStore") and x.op == "app":
                return True
            fin = None
            if self.nodeish(x):
                fin = self.fin_types(mk("type", x))
            if fin:
                alive = [t for t in fin if st.facts.get(mk("eq", mk("type", x), t)) is not False]
                rs = {self.subclass(t, c) for t in alive}
                if len(rs) == 1:
                    return rs.pop()
            return None
        if o == "lt":
            a, b = atom.args
            if is_const(a) and is_const(b):
                try:
                    return cval(a) < cval(b)
                except TypeError:
                    return None
            # known value
            for x, y, flip in ((a, b, False), (b, a, True)):
                for f, val in st.facts.items():
                    if val and f.op == "eq" and f.args[0] is x and is_const(f.args[1]) and is_const(y):
                        try:
                            return (cval(f.args[1]) < cval(y)) if not flip else (cval(y) < cval(f.args[1]))
                        except TypeError:
                            return None
            return None
        if o == "in":
            return None
        if o == "callable":
            x = atom.args[0]
            if x.op in ("fn", "cls", "ext", "bm", "extm", "partial"):
                return True
            if x.op == "const":
                return False
            if x.op == "sym":
                if x.args[1] == "callable":
                    return True
                if x.args[1] in ("int", "str", "node", "nodes"):
                    return False
                if x.args[1].startswith(("=", "~")):
                    return False
            return None
        return None

    def escaped(self, st, a):
        return True

    def notnone(self, st, v):
        o = v.op
        if o == "const":
            return v is not NONE
        if o in (
            "obj", "tup", "fn", "cls", "ext", "bm", "extm", "partial", "cat", "len", "view", "elem",
            "mod", "gen", "gexp", "exc", "item", "ek", "ev", "eu", "type", "path", "astz", "dtfromts", "pycode", "pyglobals", "encode", "decode", "strof",
        ):
            if o == "elem":
                c = v.args[0]
                return c.op == "view" or (c.op == "sym" and c.args[1] == "nodes")
            return True
        if o == "pyframe":
            return v.args[0] != "user" or st.facts.get(mk("eq", v, NONE)) is False
        if o == "old":
            return self.notnone(st, v.args[0])
        if o == "sym":
            return v.args[1] in ("int", "str", "callable", "node", "unique", "dt") or v.args[1].startswith(("=", "~"))
        if o == "app":
            return True
        if st.facts.get(mk("eq", v, NONE)) is False:
            return True
        return False

    def assume(self, st, atom, val, quiet=False):
        """add fact in place; False if contradictory"""
        d = self.decide(st, atom)
        if d is not None:
            return d == val
        f = dict(st.facts)
        f[atom] = val
        # implications
        if atom.op == "truthy" and val:
            f[mk("eq", atom.args[0], NONE)] = False
        if atom.op == "eq" and val and atom.args[1] is NONE:
            f.pop(mk("truthy", atom.args[0]), None)
        st.facts = f
        if not quiet:
            self.emit(st, "assume", atom=atom, val=val)
        return True

    def branch(self, st, t):
        """fork on boolean term t -> [(st, bool)]"""
        atom, pol = norm(t)
        if atom.op == "and_" or atom.op == "or_":
            pass
        if is_const(atom):
            return [(st, bool(cval(atom)) == pol)]
        d = self.decide(st, atom)
        if d is not None:
            self.emit(st, "assume", atom=atom, val=d)
            return [(st, d == pol)]
        out = []
        s2 = st.fork()
        if self.assume(st, atom, True):
            out.append((st, pol))
        if self.assume(s2, atom, False):
            out.append((s2, not pol))
        return out

    def truth(self, st, v, node, cx):
        """[(st,bool)] truthiness of value v"""
        o = v.op
        if o == "const":
            return [(st, bool(cval(v)))]
        if o in ("eq", "lt", "gt", "le", "ge", "ne", "is", "isnot", "in", "notin", "not", "isinst", "callable", "hasattr", "which", "any", "nodein"):
            return self.branch(st, v)
        if o == "tup":
            return [(st, len(v.args) > 0)]
        if o == "vtup":
            if v.args[0]:
                return [(st, True)]
            return self.branch(st, mk("not", mk("eq", mk("len", v), C(0))))
        if o in ("fn", "cls", "ext", "bm", "extm", "partial", "mod", "gen", "gexp", "exc", "type"):
            return [(st, True)]
        if o == "view":
            return self.branch(st, mk("not", mk("eq", mk("len", v), C(0))))
        if o in ("ditems", "dkeys", "dvals"):
            return self.truth(st, v.args[0], node, cx)
        if o == "obj":
            r = self.rec(st, v)
            if r is None:
                return [(st, True)]
            if r.kind in CONTAINERS:
                if not self.is_shared_container(v):
                    if any(not e.params for e in r.entries) and not r.mark:
                        return [(st, True)]
                    if not r.entries and r.base is None:
                        return [(st, False)]
                    if r.kind == "list" and r.base is not None and not r.entries and r.base.op == "view":
                        return self.branch(st, mk("not", mk("eq", mk("len", r.base), C(0))))
                    return self.branch(st, mk("not", mk("eq", mk("len", v), C(0))))
                t = mk("load", mk("loc", "len", v, ""), self.tk(st, node, cx))
                self.purge(st, t)
                return self.branch(st, mk("truthy", t))
            if r.kind == "inst":
                for mname in ("__bool__", "__len__"):
                    m = self.class_lookup(r.cls, mname)
                    if m is not None:
                        out = []
                        for s, x in self.call(st, cx, mk("bm", m, v), [], node):
                            if mname == "__len__":
                                if is_const(x):
                                    out.append((s, bool(cval(x))))
                                else:
                                    out += self.branch(s, mk("not", mk("eq", x, C(0))))
                            else:
                                out += self.truth(s, x, node, cx)
                        return out
                if self.ext_base(r.cls, ("builtins.dict", "builtins.list", "builtins.tuple", "builtins.set")):
                    return self.branch(st, mk("truthy", v))
            return [(st, True)]
        if intlike(v):
            return self.branch(st, mk("not", mk("eq", v, C(0))))
        if self.always_truthy(st, v):
            if self.notnone(st, v):
                return [(st, True)]
            return self.branch(st, mk("not", mk("eq", v, NONE)))
        if o == "load":
            vals = self.mayvals.get(self.genloc(v.args[0]))
            if vals:
                if all(self.truthy_const(st, x) is not None or x.op == "load" for x in vals):
                    bs = {self.truthy_const(st, x) for x in vals if x.op != "load"}
                    if bs == {True}:
                        return [(st, True)]
        return self.branch(st, mk("truthy", v))

    def truthy_const(self, st, x):
        if x.op == "const":
            return bool(cval(x))
        if x.op == "obj":
            r = self.rec(st, x)
            if r is not None and r.kind == "inst" and not self.class_lookup(r.cls, "__len__") and not self.class_lookup(r.cls, "__bool__"):
                return True
            return None
        if x.op in ("fn", "cls", "exc"):
            return True
        return None

    def always_truthy(self, st, v):
        """value is either None or an object that is always true"""
        if self.nodeish(v):
            return True
        if v.op == "sym" and (v.args[1] in ("node", "callable", "dt") or v.args[1].startswith(("~", "="))):
            if v.args[1].startswith(("~", "=")):
                c = self.class_by_name.get(v.args[1][1:])
                if c is None:
                    return True
                return self.class_lookup(c, "__len__") is None and self.class_lookup(c, "__bool__") is None
            return True
        if v.op == "res":
            return False
        if v.op in ("exc", "pyframe", "datetime"):
            return True
        if v.op == "load":
            vals = self.mayvals.get(self.genloc(v.args[0]))
            if vals:
                return all(x is NONE or x.op == "load" or self.truthy_const(st, x) for x in vals)
        return False

    def genloc(self, loc):
        """generalise a location over loop elements"""
        k, o, f = loc.args
        if type(o) is T:
            while o.op == "old":
                o = o.args[0]
            if o.op == "obj":
                return mk("loc", k, mk("objsite", o.args[0], o.args[1]), f)
            if o.op == "objsite":
                return loc
            return mk("loc", k, mk("any"), f)
        return loc

    # ------------------------------------------------------------------ heap
    def rec(self, st, o):
        r = st.heap.get(o)
        if r is not None:
            return r
        if o.op != "obj":
            return None
        # template lookup: same site, keys generalised
        site, frame, keys = o.args
        best = None
        for p, pr in st.heap.items():
            if p.op == "obj" and p.args[0] == site and p.args[1] == frame and len(p.args[2]) == len(keys):
                m = {}
                ok = True
                for a, b in zip(p.args[2], keys):
                    if a is b:
                        continue
                    m[a] = b
                if ok:
                    best = (pr, m)
                    if all(a.op == "old" for a in m):
                        break
        if best is None:
            return None
        pr, m = best
        mm = dict(m)
        for a, b in m.items():
            if a.op == "old":
                mm.setdefault(a.args[0], b)
            else:
                mm.setdefault(mk("old", a), b)
        r = pr.subst(mm, {})
        return r

    def is_shared_container(self, o):
        if o.op != "obj":
            return False
        return mk("loc", "c", mk("objsite", o.args[0], o.args[1]), "") in self.shared

    def mutated(self, st, o, node, cx, op, args=(), **kw):
        """container/graph o is mutated"""
        loc = self.genloc(mk("loc", "c", o, "")) if o.op == "obj" else mk("loc", "c", o, "")
        self.emit(st, "mut", obj=o, op=op, args=tuple(args), loc=loc, shared=loc in self.shared, **kw)
        drop = []
        for a in st.facts:
            if o not in a.leaves:
                continue
            if a.op == "in" and (a.args[1] is o or (a.args[1].op == "view" and a.args[1].args[1] is o)):
                drop.append(a)
            elif a.op == "which" and a.args[0] is o:
                drop.append(a)
            elif a.op in ("eq", "lt"):
                for x in a.args:
                    if x.op == "len" and (x.args[0] is o or (x.args[0].op == "view" and x.args[0].args[1] is o)):
                        drop.append(a)
                        break
            elif a.op == "any":
                drop.append(a)
        if drop:
            st.facts = {a: b for a, b in st.facts.items() if a not in drop}

    # attribute access -------------------------------------------------------
    def mro(self, c):
        out = []
        if c.op != "cls":
            return [c]
        info = self.classes.get(c.args[0])
        if info is None:
            return [c]
        m = info.get("mro")
        if m is None:
            seqs = [list(self.mro(b)) for b in info["bases"]] + [list(info["bases"])]
            m = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                m.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        s.pop(0)
            info["mro"] = m
        return m

    def class_lookup(self, c, name, after=None):
        skip = after is not None
        for k in self.mro(c):
            if skip:
                if k is after:
                    skip = False
                continue
            if k.op == "cls":
                info = self.classes.get(k.args[0])
                if info and name in info["attrs"]:
                    return info["attrs"][name]
        return None

    def ext_base(self, c, names):
        for k in self.mro(c):
            if k.op == "ext" and k.args[0] in names:
                return k
        return None

    def ext_bases(self, c):
        return [k for k in self.mro(c) if k.op == "ext" and k.args[0] not in ("builtins.object", "abc.ABC")]

    def bind_attr(self, st, cx, a, inst, owner, node):
        """class attribute a accessed through instance"""
        if a.op == "fn" or a.op == "cmfn" or a.op == "cached":
            return [(st, mk("bm", a, inst))]
        if a.op == "prop":
            return self.call(st, cx, mk("bm", a.args[0], inst), [], node)
        if a.op == "static":
            return [(st, a.args[0])]
        if a.op == "clsm":
            return [(st, mk("bm", a.args[0], owner))]
        return [(st, a)]

    def getattr(self, st, cx, v, name, node):
        o = v.op
        if o == "sym" and self.policy.displays and not name.startswith("__") and self.hashable(st, v):
            return self.d_fail(st, cx, "AttributeError", f"attribute {name} of a value of which nothing is known", v, node)
        if o == "obj":
            r = self.rec(st, v)
            if r is None:
                return [(st, mk("attr", v, name))]
            if name == "__class__" and r.cls is not None:
                return [(st, r.cls)]
            if name == "__dict__":
                return [(st, mk("attr", v, name))]
            if r.kind == "inst" or r.kind in ("super_",):
                loc = mk("loc", "f", v, name)
                g = self.genloc(loc)
                if g in self.shared and name in r.fields:
                    return [(st, self.shared_load(st, g, loc, node, cx))]
                if name in r.fields:
                    return [(st, r.fields[name])]
                a = self.class_lookup(r.cls, name)
                if a is not None:
                    return self.bind_attr(st, cx, a, v, r.cls, node)
                eb = self.ext_bases(r.cls)
                if eb:
                    return self.ext_inst_attr(st, cx, eb[0].args[0], v, name, node)
                if self.class_lookup(r.cls, "__getattr__") is not None:
                    return self.call(st, cx, mk("bm", self.class_lookup(r.cls, "__getattr__"), v), [("pos", C(name))], node)
                return [(st, mk("attr", v, name))]
            return self.ext_getattr(st, cx, v, r, name, node)
        if o == "cls":
            if name in ("__name__", "__qualname__"):
                return [(st, C(v.args[0].split(".")[-1]))]
            if name == "__module__":
                return [(st, C(v.args[0].rsplit(".", 1)[0]))]
            a = self.class_lookup(v, name)
            if a is not None:
                if a.op == "static":
                    return [(st, a.args[0])]
                if a.op == "clsm":
                    return [(st, mk("bm", a.args[0], v))]
                return [(st, a)]
            eb = self.ext_bases(v)
            if eb:
                return [(st, mk("ext", eb[0].args[0] + "." + name))]
            return [(st, mk("attr", v, name))]
        if o == "mod":
            c = st.cells.get(("m:" + v.args[0], name))
            if c is not None:
                return [(st, c)]
            if v.args[0] + "." + name in self.repo.modules:
                return [(st, mk("mod", v.args[0] + "." + name))]
            return [(st, mk("attr", v, name))]
        if o == "ext":
            return [(st, self.ext_attr(v, name))]
        if o == "super":
            cls, inst = v.args
            start = self.rec(st, inst).cls if inst.op == "obj" and self.rec(st, inst) is not None else inst
            if start.op == "cls":
                a = self.class_lookup(start, name, after=cls)
                if a is not None:
                    return self.bind_attr(st, cx, a, inst, start, node)
                eb = self.ext_bases(start)
                return [(st, mk("extm", (eb[0].args[0] if eb else "builtins.object") + "." + name, inst))]
            return [(st, mk("attr", v, name))]
        if o == "tup" and name in ("count", "index"):
            return [(st, mk("extm", "tuple." + name, v))]
        if o == "nt":
            pass
        if o == "view":
            return [(st, mk("extm", "view." + name, v))]
        if name == "__class__":
            ts = self.typeof(st, v)
            if ts is not None and len(ts) == 1:
                return [(st, next(iter(ts)))]
            return [(st, mk("type", v))]
        if o == "const" and v.args[0] == "str" or o == "cat":
            return [(st, mk("extm", "str." + name, v))]
        if o == "const":
            return [(st, mk("extm", v.args[0] + "." + name, v))]
        if o == "pyframe":
            return self.pyframe_attr(st, v, name)
        if o == "pycode":
            n, p, first = v.args
            if name == "co_firstlineno":
                return [(st, C(first))]
            if name == "co_filename":
                return [(st, C(p))]
            if name == "co_name":
                return [(st, C(n))]
            return [(st, mk("attr", v, name))]
        if o in ("ditems", "dkeys", "dvals"):
            return [(st, mk("extm", "dview." + name, v))]
        if o == "load":
            # single possible object with methods
            ts = self.typeof(st, v)
            if ts is not None:
                ts = [t for t in ts if not (t.op == "ext" and t.args[0] == "builtins.NoneType")]
                if len(ts) == 1 and ts[0].op == "cls":
                    a = self.class_lookup(ts[0], name)
                    if a is not None and a.op in ("fn", "prop", "static", "clsm", "cmfn"):
                        return self.bind_attr(st, cx, a, v, ts[0], node)
                    return [(st, mk("attr", v, name))]
            vals = self.mayvals.get(self.genloc(v.args[0])) or []
            vals = [x for x in vals if x is not NONE]
            if len(vals) == 1 and vals[0].op == "obj":
                return self.getattr(st, cx, vals[0], name, node)
        if o in ("fn", "cmfn", "bm"):
            if name in ("__name__", "__qualname__") and o == "fn":
                return [(st, C(self.fns[v.args[0]].qual if name == "__qualname__" else self.fns[v.args[0]].name))]
            return [(st, mk("attr", v, name))]
        if o == "sym" and v.args[1].startswith("~"):
            k = self.class_by_name.get(v.args[1][1:])
            if k is not None:
                a = self.class_lookup(k, name)
                if a is not None and a.op in ("fn", "prop", "static", "clsm", "cmfn") and v.args[1] != "~ValueStore" and v.args[1] != "~ProgressObserver":
                    return self.bind_attr(st, cx, a, v, k, node)
        fields = st.cells.get(("of", v, name))
        if fields is not None:
            return [(st, fields)]
        return [(st, mk("attr", v, name))]

    def setattr(self, st, cx, v, name, val, node):
        if v.op == "obj":
            if self.policy_flag("displays"):
                val = self.d_widget_attr(st, v, name, val)
            r = self.rec(st, v)
            loc = mk("loc", "f", v, name)
            g = self.genloc(loc)
            self.emit(st, "setattr", obj=v, name=name, val=val, loc=g, spec=loc, shared=g in self.shared)
            if g in self.shared:
                self.lk_write(st, loc, val)
            if r is not None:
                st.heap[v] = r.setf(name, val)
            return
        loc = mk("loc", "f", v, name)
        g = self.genloc(loc)
        self.emit(st, "setattr", obj=v, name=name, val=val, loc=g, spec=loc, shared=False)
        if v.op in ("load", "exc", "res", "item", "elem", "sym"):
            st.cells[("of", v, name)] = val

    # ------------------------------------------------------------------ merging
    def gc(self, st, keep=None):
        """drop unreachable heap objects"""
        sites = set()
        pend = []
        for x in keep if type(keep) is tuple else (keep,):
            if type(x) is T:
                pend += x.leaves
        collectable = {}
        active = {x[1] for x in st.frames}
        live_fr = set()
        for k, v in st.cells.items():
            fid = k[0]
            if type(fid) is int:
                fr = self.frames[fid]
                if fr.escapes and fid not in active and fr.fn is not None and not fr.fn.is_gen and fr.make:
                    collectable.setdefault(fid, []).append(v)
                    continue
            pend += v.leaves
            if fid in ("of", "lk") and type(k[1]) is T:
                pend += k[1].leaves
        for x in st.loops + st.locks + st.exc:
            pend += x.leaves
        for p in st.pending:
            for x in p:
                if type(x) is T:
                    pend += x.leaves
        if collectable:
            for fid in active:
                self._live_frame(fid, live_fr, collectable, pend)
        bysite = {}
        for o in st.heap:
            bysite.setdefault(o.args[:2], []).append(o)
            if st.heap[o].mark == "pin":
                pend.append(o)
        done = set()
        while pend:
            o = pend.pop()
            if o in done:
                continue
            done.add(o)
            if o.op == "obj":
                k = o.args[:2]
                if k in sites:
                    continue
                sites.add(k)
                for p in bysite.get(k, ()):
                    pend += st.heap[p].leaves()
            elif o.op in ("fn", "gen", "gexp", "cmgen"):
                if collectable:
                    self._live_frame(o.args[1], live_fr, collectable, pend)
            elif o.op in ("old", "elem"):
                for x in subterms(o):
                    if x.op in ("obj", "fn") and x not in done:
                        pend.append(x)
        for fid in collectable:
            if fid not in live_fr:
                for k in [k for k in st.cells if k[0] == fid]:
                    del st.cells[k]
        dead = [o for o in st.heap if o.args[:2] not in sites and st.heap[o].mark != "pin"]
        for o in dead:
            del st.heap[o]

    def _live_frame(self, fid, live, cells, pend):
        while type(fid) is int and fid not in live:
            live.add(fid)
            for v in cells.get(fid, ()):
                pend += v.leaves
            fr = self.frames.get(fid)
            if fr is None:
                return
            fid = fr.parent

    def gc_facts(self, st, keep=None):
        """drop facts about tokens that nothing refers to any more"""
        live = set()
        for v in st.cells.values():
            live |= v.leaves
        for r in st.heap.values():
            live |= r.leaves()
        for x in st.loops + st.locks + st.exc:
            live |= x.leaves
        for x in keep if type(keep) is tuple else (keep,):
            if type(x) is T:
                live |= x.leaves
        f = {}
        ch = False
        for a, b in st.facts.items():
            dead = [x for x in a.leaves if x.op in ("res", "load", "exc") and x not in live]
            if dead:
                ch = True
            else:
                f[a] = b
        if ch:
            st.facts = f

    def merge(self, pairs, join_facts=False):
        """pairs: [(st, val-or-None)]; merge equal stores"""
        if len(pairs) <= 1:
            return pairs
        if self.policy.concrete:
            by = {}
            for x, v in pairs:
                by.setdefault(v, []).append(x)
            return [(x, v) for v, xs in by.items() for x in self.alike(xs, keep=v)]
        groups = {}
        order = []
        if join_facts:
            # several string results: one abstract string
            sv = [v for _, v in pairs if v is not None and self.strterm(v)]
            if len(set(sv)) > 1:
                u = []
                for v in sv:
                    for x in v.args[0] if v.op == "anystr" else (v,):
                        if x not in u:
                            u.append(x)
                u = mk("anystr", tuple(u) if len(u) <= 8 else ())
                pairs = [(s, u if v is not None and self.strterm(v) else v) for s, v in pairs]
        for st, v in pairs:
            self.gc(st, v)
            self.gc_facts(st, v)
            k = (st.skel_key(), v)
            if not join_facts:
                k = (k, frozenset(st.facts.items()))
            if k in groups:
                groups[k].append(st)
            else:
                groups[k] = [st]
                order.append((k, v))
        out = []
        for k, v in order:
            g = groups[k]
            st = g[0]
            if len(g) > 1:
                st.node = self.join_nodes([s.node for s in g])
                self.union_generic(st, g)
                if join_facts:
                    f = st.facts
                    for s in g[1:]:
                        sf = s.facts
                        f = {a: b for a, b in f.items() if sf.get(a) is b or sf.get(a) == b and a in sf}
                    st.facts = f
            out.append((st, v))
        return out

    def strterm(self, v):
        return v.op in ("cat", "strof", "anystr", "str", "repr", "fmt") or (v.op == "const" and v.args[0] == "str")

    def union_generic(self, st, g):
        for s in g[1:]:
            for o, q in s.heap.items():
                if has_old(o):
                    r = st.heap.get(o)
                    if r is None:
                        st.heap[o] = q
                    elif r != q:
                        st.heap[o] = self.join_rec(r, q)
        for o, r in list(st.heap.items()):
            if r.kind not in CONTAINERS:
                continue
            ents = None
            for s in g:
                q = s.heap.get(o)
                if q is not None and q.entries != r.entries:
                    ents = (ents if ents is not None else r.entries) + q.entries
            if ents is not None:
                ents = norm_entries(ents)
                if len(ents) > 16:
                    st.heap[o] = Rec(r.kind, r.cls, r.fields, mk("top"), (), "weak")
                else:
                    st.heap[o] = r.with_entries(ents)

    def merge_states(self, sts, join_facts=False):
        return [s for s, _ in self.merge([(s, None) for s in sts], join_facts)]

    # ------------------------------------------------------------------ outcomes
    def capture(self, cx, f):
        sr, sb, sc, se = cx.ret, cx.brk, cx.cont, self.raises
        cx.ret, cx.brk, cx.cont, self.raises = [], [], [], []
        try:
            n = f()
        finally:
            o = Outs()
            o.ret, o.brk, o.cont, o.raises = cx.ret, cx.brk, cx.cont, self.raises
            cx.ret, cx.brk, cx.cont, self.raises = sr, sb, sc, se
        o.norm = n
        return o

    def raise_(self, st, exc):
        self.raises.append((st, exc))
        return []

    def raise_ext(self, st, name, node, cx, *args):
        e = self.new_obj(st, node, cx, Rec("inst", mk("ext", name), {"args": tup(*args)}), label=name.split(".")[-1])
        self.emit(st, "raise", exc=e, cause=None, cls=name)
        return self.raise_(st, e)

    # ------------------------------------------------------------------ blocks
    def block(self, stmts, sts, cx):
        for s in stmts:
            if not sts:
                return []
            nxt = []
            for st in sts:
                self.steps += 1
                nxt += self.stmt(s, st, cx)
            sts = nxt
            if len(sts) > 6:
                sts = self.merge_states(sts)
            if len(sts) > 40:
                sts = self.merge_states(sts, join_facts=True)
        return sts

    def stmt(self, s, st, cx):
        self.loc = (getattr(s, "_mod", None).path if getattr(s, "_mod", None) else "client", s.lineno)
        if self.policy.ki and self.root == "main" and "threads" in st.flags and "ki" not in st.flags and "waited" not in st.flags:
            if not isinstance(s, (ast.Pass, ast.FunctionDef, ast.Nonlocal, ast.Global)) and not (
                isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, (ast.Name, ast.Constant)))
            ):
                k = st.fork()
                k.flags = k.flags | {"ki"}
                e = mk("exc", mk("tk", "KI", 0, ()), "KeyboardInterrupt")
                self.emit(k, "ki", at=self.site(s))
                self.raise_(k, e)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((type(s).__name__, self.loc))
            return [st]
        return m(s, st, cx)

    def s_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return [st]
        return [a for a, _ in self.ev(s.value, st, cx)]

    def s_Pass(self, s, st, cx):
        return [st]

    def s_Nonlocal(self, s, st, cx):
        return [st]

    s_Global = s_Nonlocal

    def s_Assign(self, s, st, cx):
        out = []
        for a, v in self.ev(s.value, st, cx):
            sts = [a]
            for t in s.targets:
                sts = [y for x in sts for y in self.assign(t, v, x, cx)]
            out += sts
        return out

    def s_AnnAssign(self, s, st, cx):
        if s.value is None:
            if isinstance(s.target, ast.Name) and cx.cls is not None:
                self.classes[cx.cls]["annotated"].append((s.target.id, None))
            return [st]
        out = []
        for a, v in self.ev(s.value, st, cx):
            if isinstance(s.target, ast.Name) and cx.cls is not None:
                self.classes[cx.cls]["annotated"].append((s.target.id, v))
            out += self.assign(s.target, v, a, cx)
        return out

    def s_AugAssign(self, s, st, cx):
        out = []
        t = s.target
        if isinstance(t, ast.Name):
            for a, cur in self.ev_load_name(t, st, cx):
                for b, r in self.ev(s.value, a, cx):
                    for c, v in self.binop(b, cx, s.op, cur, r, s, inplace=True):
                        self.loc = (s._mod.path if s._mod else "client", s.lineno)
                        out += self.assign(t, v, c, cx)
        elif isinstance(t, ast.Attribute):
            for a, base in self.ev(t.value, st, cx):
                for b, cur in self.getattr(a, cx, base, t.attr, t):
                    for c, r in self.ev(s.value, b, cx):
                        for d, v in self.binop(c, cx, s.op, cur, r, s, inplace=True):
                            self.setattr(d, cx, base, t.attr, v, t)
                            out.append(d)
        elif isinstance(t, ast.Subscript):
            for a, (base, idx) in self.evs([t.value, t.slice], st, cx):
                for b, cur in self.getitem(a, cx, base, idx, t):
                    for c, r in self.ev(s.value, b, cx):
                        for d, v in self.binop(c, cx, s.op, cur, r, s, inplace=True):
                            out += self.setitem(d, cx, base, idx, v, t)
        return out

    def ev_load_name(self, t, st, cx):
        return [(st, self.load_name(st, t.id, cx, t))]

    def assign(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            self.store_name(st, t.id, v, cx)
            if cx.cls is not None and cx.frame.locals is None:
                pass
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for a, base in self.ev(t.value, st, cx):
                self.setattr(a, cx, base, t.attr, v, t)
                out.append(a)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, (base, idx) in self.evs([t.value, t.slice], st, cx):
                out += self.setitem(a, cx, base, idx, v, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for a, vals in self.unpack_value(st, cx, v, n, star[0] if star else None, t):
                sts = [a]
                for e, x in zip(t.elts, vals):
                    e = e.value if isinstance(e, ast.Starred) else e
                    sts = [y for q in sts for y in self.assign(e, x, q, cx)]
                out += sts
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, cx)
        return [st]

    def unpack_value(self, st, cx, v, n, star, node):
        seq = self.definite_seq(st, v)
        if seq is not None and star is None and len(seq) == n:
            return [(st, list(seq))]
        if seq is not None and star is not None and len(seq) >= n - 1:
            k = len(seq) - (n - 1)
            mid = self.new_obj(st, node, cx, Rec("list", None, None, None, tuple(Entry(C(i), x) for i, x in enumerate(seq[star : star + k]))))
            return [(st, list(seq[:star]) + [mid] + list(seq[star + k :]))]
        return [(st, [mk("unpack", v, C(i), C(n)) for i in range(n)])]

    def definite_seq(self, st, v):
        if v.op == "tup":
            return list(v.args)
        if v.op == "nt":
            return list(v.args[1:])
        if v.op == "obj":
            r = self.rec(st, v)
            if r is None:
                return None
            if r.kind == "inst":
                info = self.classes.get(r.cls.args[0]) if r.cls.op == "cls" else None
                if "$data" in r.fields:
                    return list(r.fields["$data"].args)
                if info and info.get("nt_fields"):
                    return [r.fields.get(f, mk("attr", v, f)) for f in info["nt_fields"]]
                return None
            if r.kind in ("list", "set", "deque") and r.base is None and not r.mark and not self.is_shared_container(v):
                if all(not e.params for e in r.entries) and (self.policy.concrete or not ("sorted" in r.fields and len(r.entries) > 1)):
                    return [e.val for e in r.entries]
            if r.kind in ("dict", "counter") and r.base is None and not r.mark and not self.is_shared_container(v):
                if all(not e.params for e in r.entries):
                    return [e.key for e in r.entries]
            return None
        if v.op == "view" and v.args[0] == "range":
            a, b, c = v.args[1:]
            if is_const(a) and is_const(b) and is_const(c):
                r = range(cval(a), cval(b), cval(c))
                if len(r) <= self.policy.unroll_range:
                    return [C(i) for i in r]
        if v.op == "rev":
            s = self.definite_seq(st, v.args[0])
            return None if s is None else list(reversed(s))
        if v.op == "enum":
            s = self.definite_seq(st, v.args[0])
            if s is not None and is_const(v.args[1]):
                return [tup(C(i + cval(v.args[1])), x) for i, x in enumerate(s)]
        if v.op == "zip":
            ss = [self.definite_seq(st, x) for x in v.args]
            if all(s is not None for s in ss):
                return [tup(*z) for z in zip(*ss)]
        if v.op == "ditems":
            r = self.rec(st, v.args[0]) if v.args[0].op == "obj" else None
            if r is not None and r.base is None and not r.mark and not self.is_shared_container(v.args[0]) and all(not e.params for e in r.entries):
                return [tup(e.key, e.val) for e in r.entries]
        if v.op == "dvals":
            r = self.rec(st, v.args[0]) if v.args[0].op == "obj" else None
            if r is not None and r.base is None and not r.mark and not self.is_shared_container(v.args[0]) and all(not e.params for e in r.entries):
                return [e.val for e in r.entries]
        if v.op == "dkeys":
            return self.definite_seq(st, v.args[0]) if v.args[0].op == "obj" else None
        if v.op == "chain":
            ss = [self.definite_seq(st, x) for x in v.args]
            if all(s is not None for s in ss):
                return [y for s in ss for y in s]
        if v.op == "islice" and all(is_const(x) for x in v.args[1:]) and v.args[0].op != "iter":
            s = self.definite_seq(st, v.args[0])
            b = [cval(x) for x in v.args[1:]]
            if s is not None and all(x is None or type(x) is int and x >= 0 for x in b):
                return s[slice(*b)]
        if v.op == "prod":
            import itertools

            ss = [self.definite_seq(st, x) for x in v.args]
            if all(s is not None for s in ss):
                return [tup(*z) for z in itertools.product(*ss)]
        if v.op == "const" and v.args[0] in ("str",) and len(cval(v)) <= 4:
            return [C(x) for x in cval(v)]
        if v.op == "const" and v.args[0] == "tuple":
            return [C(x) for x in cval(v)]
        return None

    def s_Delete(self, s, st, cx):
        sts = [st]
        for t in s.targets:
            nxt = []
            for a in sts:
                if isinstance(t, ast.Name):
                    key = self.resolve_cell(cx, t.id)
                    a.cells.pop(key, None)
                    nxt.append(a)
                elif isinstance(t, ast.Subscript):
                    for b, (base, idx) in self.evs([t.value, t.slice], a, cx):
                        nxt += self.delitem(b, cx, base, idx, t)
                elif isinstance(t, ast.Attribute):
                    for b, base in self.ev(t.value, a, cx):
                        self.setattr(b, cx, base, t.attr, mk("undef", t.attr), t)
                        nxt.append(b)
                else:
                    nxt.append(a)
            sts = nxt
        return sts

    def s_Return(self, s, st, cx):
        if s.value is None:
            cx.ret.append((st, NONE))
            return []
        for a, v in self.ev(s.value, st, cx):
            cx.ret.append((a, v))
        return []

    def s_Break(self, s, st, cx):
        cx.brk.append(st)
        return []

    def s_Continue(self, s, st, cx):
        cx.cont.append(st)
        return []

    def s_Assert(self, s, st, cx):
        out = []
        for a, b in self.cond(s.test, st, cx):
            if b:
                out.append(a)
            else:
                self.raise_ext(a, "builtins.AssertionError", s, cx)
        return out

    def s_If(self, s, st, cx):
        out = []
        for a, b in self.cond(s.test, st, cx):
            out += self.block(s.body if b else s.orelse, [a], cx)
        return out

    def s_Raise(self, s, st, cx):
        if s.exc is None:
            if st.exc:
                e = st.exc[-1]
                self.emit(st, "reraise", exc=e)
                self.raise_(st, e)
            return []
        for a, e in self.ev(s.exc, st, cx):
            if e.op in ("cls", "ext"):
                rs = self.call(a, cx, e, [], s)
            else:
                rs = [(a, e)]
            for b, ev in rs:
                if s.cause is not None:
                    cs = self.ev(s.cause, b, cx)
                else:
                    cs = [(b, None)]
                for c, cause in cs:
                    if cause is not None:
                        self.set_exc_field(c, ev, "__cause__", cause)
                    elif c.exc:
                        self.set_exc_field(c, ev, "__context__", c.exc[-1])
                    self.loc = (s._mod.path if s._mod else "client", s.lineno)
                    self.emit(c, "raise", exc=ev, cause=cause, cls=None)
                    self.raise_(c, ev)
        return []

    def set_exc_field(self, st, e, name, v):
        if e.op == "obj":
            r = self.rec(st, e)
            if r is not None:
                st.heap[e] = r.setf(name, v)
        else:
            st.cells[("of", e, name)] = v

    def s_Import(self, s, st, cx):
        for a in s.names:
            if a.name.split(".")[0] == "uberjob":
                self.import_module(self.base, a.name)
                v = mk("mod", a.name if a.asname else a.name.split(".")[0])
            else:
                v = mk("ext", a.name if a.asname else a.name.split(".")[0])
            self.store_name(st, a.asname or a.name.split(".")[0], v, cx)
        return [st]

    def s_ImportFrom(self, s, st, cx):
        modname = s.module or ""
        if s.level:
            m = cx.frame.mod
            base = m.name.split(".")
            if not m.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            modname = ".".join(base + ([s.module] if s.module else []))
        if modname.split(".")[0] == "uberjob":
            tgt = self.base if self.root == "import" else st
            self.import_module(st if self.root == "import" else self.base, modname)
        for a in s.names:
            if a.name == "*":
                for k, v in list(st.cells.items()):
                    if k[0] == "m:" + modname:
                        self.store_name(st, k[1], v, cx)
                continue
            if modname.split(".")[0] == "uberjob":
                v = st.cells.get(("m:" + modname, a.name))
                if v is None:
                    sub = modname + "." + a.name
                    if sub in self.repo.modules:
                        self.import_module(st if self.root == "import" else self.base, sub)
                        v = mk("mod", sub)
                    else:
                        v = mk("undef", modname + "." + a.name)
            else:
                v = mk("ext", self.canon(modname + "." + a.name))
            self.store_name(st, a.asname or a.name, v, cx)
        return [st]

    def s_FunctionDef(self, s, st, cx):
        out = []
        for a, v in self.make_fn(s, st, cx):
            sts = [(a, v)]
            for d in reversed(s.decorator_list):
                nxt = []
                for b, f in sts:
                    for c, dv in self.ev(d, b, cx):
                        nxt += self.decorate(c, cx, dv, f, d)
                sts = nxt
            for b, f in sts:
                self.store_name(b, s.name, f, cx)
                out.append(b)
        return out

    def make_fn(self, node, st, cx):
        f = self.fninfo(node)
        if cx.cls is not None:
            f.cls = cx.cls
        lex = cx.frame
        # class bodies are not enclosing scopes
        while lex.id is not None and isinstance(lex.id, str) and lex.id.startswith("c:"):
            lex = self.frames[lex.parent]
        v = mk("fn", f.fid, lex.id)
        self.mark_escape(lex)
        a = node.args
        exprs = [("p", i, e) for i, e in enumerate(a.defaults)] + [
            ("k", i, e) for i, e in enumerate(a.kw_defaults) if e is not None
        ]
        sts = [st]
        for kind, i, e in exprs:
            nxt = []
            for s in sts:
                for b, dv in self.ev(e, s, cx):
                    b.cells[("d", v, kind, i)] = dv
                    nxt.append(b)
            sts = nxt
        return [(s, v) for s in sts]

    def mark_escape(self, fr):
        while fr is not None and not fr.escapes:
            fr.escapes = True
            fr = self.frames.get(fr.parent) if fr.parent is not None else None

    def s_ClassDef(self, s, st, cx):
        base_id = cx.frame.mod.name if cx.frame.mod else "client"
        qual = base_id + "." + getattr(s, "_qual", s.name)
        if not isinstance(cx.frame.id, str):
            qual += f"#{cx.frame.id}"
        out = []
        for a, bases in self.evs([b for b in s.bases], st, cx):
            info = {"node": s, "mod": cx.frame.mod, "bases": [], "attrs": {}, "annotated": [], "mro": None, "nt_fields": None, "dataclass": False}
            for b in bases:
                if b.op in ("cls", "ext"):
                    info["bases"].append(b)
            self.classes[qual] = info
            c = mk("cls", qual)
            if qual.startswith("uberjob") and "#" not in qual:
                self.class_by_name.setdefault(s.name, c)
            fid = "c:" + qual
            f = Frame()
            f.id = fid
            f.fid = cx.frame.fid
            f.parent = cx.frame.id
            f.mod = cx.frame.mod
            f.locals, f.nonlocals, f.globals_, _ = assigned_names(s)
            f.dyn = cx.frame.dyn
            f.escapes = True
            f.fn = cx.frame.fn
            self.frames[fid] = f
            ccx = Cx(f)
            ccx.cls = qual
            saved = self.root
            r0 = self.root
            outs = self.block(s.body, [a], ccx)
            for b in outs[:1]:
                for k in [k for k in b.cells if k[0] == fid]:
                    info["attrs"][k[1]] = b.cells[k]
                if any(x.op == "ext" and x.args[0] == "typing.NamedTuple" for x in info["bases"]):
                    info["nt_fields"] = [n for n, _ in info["annotated"]]
                for d in s.decorator_list:
                    for b2, dv in self.ev(d, b, cx):
                        nm = dv.args[0] if dv.op == "ext" else (dv.args[0].args[0] if dv.op == "extcall" and type(dv.args[0]) is T and dv.args[0].op == "ext" else "")
                        if nm.startswith("dataclasses.dataclass"):
                            info["dataclass"] = True
                        if nm == "functools.total_ordering":
                            info["total_ordering"] = True
                        break
                self.store_name(b, s.name, c, cx)
                out.append(b)
        return out

    def until(self, s, cx):
        """for x in iter(f, stop): body   ->   while (x := f()) != stop: body"""
        e = s.iter
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "iter" and len(e.args) == 2 and not e.keywords and isinstance(s.target, ast.Name)):
            return None
        if not all(isinstance(a, (ast.Name, ast.Attribute, ast.Constant, ast.Lambda)) for a in e.args):
            return None
        key = ("until", id(s))
        if key not in self.astnodes:
            call = ast.copy_location(ast.Call(e.args[0], [], []), e)
            test = ast.Compare(ast.copy_location(ast.NamedExpr(s.target, call), e), [ast.NotEq()], [e.args[1]])
            w = ast.copy_location(ast.While(ast.copy_location(test, e), s.body, s.orelse), s)
            for n in (w, w.test, w.test.left, call):
                n._mod = getattr(s, "_mod", None)
            self.astnodes[key] = w
        return self.astnodes[key]

    def s_For(self, s, st, cx):
        w = self.until(s, cx)
        if w is not None:
            return self.s_While(w, st, cx)
        out = []
        for a, coll in self.ev(s.iter, st, cx):
            brk = []

            def body(b, val):
                o = []
                for c in self.assign(s.target, val, b, cx):
                    sb, sc = cx.brk, cx.cont
                    cx.brk, cx.cont = [], []
                    n = self.block(s.body, [c], cx)
                    n = n + cx.cont
                    for x in cx.brk:
                        brk.append(x)
                    cx.brk, cx.cont = sb, sc
                    o += n
                return o

            exits = self.iterate(a, coll, s, cx, body)
            # break states leave the loop: pop loop elements
            depth = len(a.loops) if not exits else None
            norm = self.block(s.orelse, exits, cx) if s.orelse else exits
            base_loops = self._loops_of(s, cx)
            for x in brk:
                x.loops = self.loop_base.get((id(s), cx.frame.id), x.loops)
                self.drop_iter(x, coll)
                norm.append(x)
            ll = self.loop_locals(s, cx)
            for x in norm:
                x.cells.pop(("tmp", cx.frame.id, id(s), "it"), None)
                for n in ll:
                    x.cells.pop((cx.frame.id, n), None)
            if len(norm) > 3:
                norm = self.merge_states(norm)
            out += norm
        return out

    loop_base = {}

    def _loops_of(self, s, cx):
        return None

    def alike(self, sts, limit=64, keep=None):
        """in step by step mode: equal states are one"""
        if len(sts) < 2:
            return sts
        sts = self.subsume(sts, keep)
        if len(sts) > limit:
            raise AnalysisLimit("too many states")
        return sts

    def while_steps(self, s, st, cx):
        self.loop_base = dict(self.loop_base)
        self.loop_base[(id(s), cx.frame.id)] = st.loops
        lid = mk("lid", self.site(s), cx.frame.id, st.loops)
        cur, exits, brk = [st], [], []
        for i in range(60):
            nxt = []
            for a in cur:
                self.emit(a, "iter", loop=lid, coll=mk("while"), elem=mk("elem", mk("while"), lid))
                for b, t in self.cond(s.test, a, cx):
                    if not t:
                        exits.append(b)
                        continue
                    sb, sc = cx.brk, cx.cont
                    cx.brk, cx.cont = [], []
                    n = self.block(s.body, [b], cx)
                    nxt += n + cx.cont
                    brk += cx.brk
                    cx.brk, cx.cont = sb, sc
            cur = self.alike(nxt)
            if not cur:
                break
        else:
            raise AnalysisLimit(f"loop {lid} goes on")
        res = self.alike(exits)
        if s.orelse:
            res = self.block(s.orelse, res, cx)
        return self.alike(res + brk)

    def s_While(self, s, st, cx):
        if self.policy.concrete:
            return self.while_steps(s, st, cx)
        self.loop_base = dict(self.loop_base)
        lid = mk("lid", self.site(s), cx.frame.id, st.loops)
        elem = mk("elem", mk("while"), lid)
        base_loops = st.loops
        exits = []
        brk = []

        def head(hs):
            """returns list of next-iteration states"""
            back = []
            hs.loops = base_loops + (elem,)
            self.emit(hs, "iter", loop=lid, coll=mk("while"), elem=elem)
            for a, b in self.cond(s.test, hs, cx):
                if not b:
                    a.loops = base_loops
                    exits.append(a)
                    continue
                sb, sc = cx.brk, cx.cont
                cx.brk, cx.cont = [], []
                n = self.block(s.body, [a], cx)
                n = n + cx.cont
                for x in cx.brk:
                    x.loops = base_loops
                    brk.append(x)
                cx.brk, cx.cont = sb, sc
                back += [(x, elem) for x in n]
            return back

        self.fixpoint(st, lid, head, cx, base_loops, s)
        res = exits
        ll = self.loop_locals(s, cx)
        for x in exits + brk:
            for n in ll:
                x.cells.pop((cx.frame.id, n), None)
        if len(res) > 1:
            res = self.merge_states(self.subsume(res))
        if s.orelse:
            res = self.block(s.orelse, res, cx)
        res = res + brk
        if len(res) > 3:
            res = self.merge_states(res)
        return res

    def loop_locals(self, loop, cx):
        """names whose value cannot be used after an iteration of the loop"""
        if not isinstance(loop, (ast.For, ast.While)) or cx.frame.fn is None:
            return ()
        k = ("ll", id(loop))
        r = self.fn_marks.get(k)
        if r is None:
            r = self.fn_marks[k] = self.compute_loop_locals(loop, cx.frame.fn)
        return r

    def store_first(self, loop, name):
        if isinstance(loop, ast.For):
            if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(loop.target)):
                return True
        elif any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(loop.test)):
            return False
        for s in loop.body:
            names = [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name]
            if not names:
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                v = s.value
                if v is not None and not any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(v)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for t in ts for n in ast.walk(t))
            if isinstance(s, ast.For) and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s.target)):
                # only read inside that inner loop
                return all(any(n is m for m in ast.walk(s)) for b in loop.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == name)
            return False
        return True

    def compute_loop_locals(self, loop, fn):
        cap = self.captured(fn)
        body = fn.node.body if isinstance(fn.node.body, list) else []
        allnames = {}
        loops = []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    allnames.setdefault(n.id, []).append(n)
                elif isinstance(n, (ast.For, ast.While)):
                    loops.append(n)
        inside = {id(n) for n in ast.walk(loop)}
        out = []
        cand = {n.id for n in ast.walk(loop) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for name in cand:
            if name in cap or name in fn.nonlocals or name in fn.globals_ or name not in fn.locals:
                continue
            if not self.store_first(loop, name):
                continue
            ok = True
            for n in allnames.get(name, ()):
                if id(n) in inside and not (isinstance(loop, ast.For) and any(n is m for m in ast.walk(loop.iter))):
                    continue
                # another loop that assigns first
                if not any(
                    l is not loop and not any(x is loop for x in ast.walk(l)) and any(x is n for b in l.body for x in ast.walk(b)) and self.store_first(l, name)
                    for l in loops
                ):
                    ok = False
                    break
            if ok:
                out.append(name)
        return tuple(out)

    # fixpoint ---------------------------------------------------------------
    def back_edge(self, st, elem, base_loops):
        """rename everything created in the iteration"""
        st.loops = base_loops
        m = {elem: mk("old", elem)}
        memo = {}
        nc = {}
        for k, v in st.cells.items():
            if k[0] == "lk":
                continue
            if elem in v.leaves:
                v = subst(v, m, memo)
            if k[0] in ("of", "d") and type(k[1]) is T and elem in k[1].leaves:
                k = (k[0], subst(k[1], m, memo), *k[2:])
            nc[k] = v
        st.cells = nc
        self.gc(st)
        nh = {}
        for o, r in st.heap.items():
            o2 = subst(o, m, memo) if elem in o.leaves else o
            r2 = r.subst(m, memo)
            if o2 in nh:
                r2 = self.join_rec(nh[o2], r2)
            elif o2 is not o and o2 in st.heap:
                r2 = self.join_rec(st.heap[o2].subst(m, memo), r2)
            nh[o2] = r2
        st.heap = nh
        if any(elem in a.leaves for a in st.facts):
            st.facts = {a: b for a, b in st.facts.items() if elem not in a.leaves}
        st.exc = tuple(subst(e, m, memo) for e in st.exc)
        st.pending = tuple(tuple(subst(x, m, memo) if type(x) is T else x for x in p) for p in st.pending)

    def join_rec(self, a, b):
        if a == b:
            return a
        if a.kind != b.kind or a.cls is not b.cls:
            return b
        f = {}
        for k in set(a.fields) | set(b.fields):
            x, y = a.fields.get(k), b.fields.get(k)
            if x is None or y is None:
                f[k] = x if y is None else y
            elif x is y:
                f[k] = x
            else:
                f[k] = self.join_val(x, y)
        ents = norm_entries(a.entries + b.entries)
        return Rec(a.kind, a.cls, f, a.base if a.base is b.base else (a.base or b.base), ents, join_mark(a.mark, b.mark))

    def join_val(self, x, y):
        xs = x.args if x.op == "phi" else (x,)
        ys = y.args if y.op == "phi" else (y,)
        s = sorted(set(xs) | set(ys), key=lambda t: t.h)
        if len(s) > 6:
            return mk("phi", mk("top"))
        return mk("phi", *s)

    def subsume(self, sts, keep=None):
        """drop states covered by a more general one (redirecting their node)"""
        if len(sts) < 2:
            return sts
        for s in sts:
            self.gc(s, keep)
        alive = list(sts)
        i = 0
        while i < len(alive):
            a = alive[i]
            done = False
            for j, b in enumerate(alive):
                if i != j and self.covers(b, a):
                    b.node = self.join_nodes([b.node, a.node])
                    if a.facts != b.facts:
                        b.facts = {k: v for k, v in b.facts.items() if a.facts.get(k) == v and k in a.facts}
                    alive.pop(i)
                    done = True
                    break
            if not done:
                i += 1
        return alive

    def covers(self, b, a):
        """store of b over-approximates store of a"""
        if a.locks != b.locks or a.loops != b.loops or a.frames != b.frames or a.pending != b.pending or a.flags != b.flags or a.exc != b.exc:
            return False
        for k, v in a.cells.items():
            w = b.cells.get(k)
            if w is not v:
                if w is None and k[0] in ("of", "d"):
                    continue
                return False
        for k in b.cells:
            if k not in a.cells and k[0] == "lk":
                return False
        for o, r in a.heap.items():
            q = b.heap.get(o)
            if q is None:
                return False
            if q is r or q == r:
                continue
            if q.kind != r.kind or q.cls is not r.cls or q.fields != r.fields or q.mark != r.mark:
                return False
            if r.base is not q.base and not (r.base is None and not r.entries):
                return False
            es = {(e.key, e.val, e.params): e for e in q.entries}
            for e in r.entries:
                w = es.get((e.key, e.val, e.params))
                if w is None or (w is not e and not set(w.facts) <= set(e.facts)):
                    return False
            if any(not e.params for e in q.entries if e not in r.entries):
                return False
        return True

    def fixpoint(self, st, lid, head, cx, base_loops, loopnode=None):
        """head(state) -> [(back state, elem)]; explores loop heads until closed"""
        heads = []  # {"node", "st"}
        acc = {}  # control key -> accumulated (widened) state
        dead = ()
        work = []

        def covered(s, frm):
            for h in heads:
                if self.covers(h["st"], s) and all(s.facts.get(a) == v and a in s.facts for a, v in h["st"].facts.items()):
                    if frm is not None:
                        h["node"].preds.append(frm)
                    return True
            return False

        def push(s, frm):
            n = Node(len(self.nodes), "loophead", {"loop": lid}, [frm] if frm is not None else [], self.loc, s.frames, s.facts, s.locks, base_loops, self.root)
            self.nodes.append(n)
            hs = s.fork()
            hs.node = n.id
            hs.loops = base_loops
            heads.append({"node": n, "st": hs.fork(), "key": hs.skel_key()})
            work.append(hs)

        def add(s, frm):
            self.gc(s)
            self.gc_facts(s)
            if covered(s, frm):
                return
            k = s.skel_key()
            for h in heads:
                if h["key"] == k:
                    # same control and store: join facts and generic elements
                    hs = h["st"]
                    s.facts = {a: v for a, v in s.facts.items() if a in hs.facts and hs.facts[a] == v}
                    self.union_generic(s, [s, hs])
                    if h["node"].id in [w.node for w in work]:
                        # not explored yet: generalise in place
                        h["node"].preds.append(frm)
                        for w in work:
                            if w.node == h["node"].id:
                                w.facts = s.facts
                                w.heap = dict(s.heap)
                        h["st"] = s.fork()
                        h["node"].facts = s.facts
                        return
                    break
            if len(heads) >= self.policy.loop_heads:
                ck = (s.locks, s.loops, s.frames, s.pending, s.flags, s.exc)
                w = acc.get(ck)
                base = w
                if base is None:
                    for h in reversed(heads):
                        t = h["st"]
                        if (t.locks, t.loops, t.frames, t.pending, t.flags, t.exc) == ck:
                            base = t
                            break
                s = self.widen(base, s, lid) if base is not None else s
                acc[ck] = s.fork()
                if covered(s, frm):
                    return
            if len(heads) >= 40:
                raise AnalysisLimit(f"loop {lid} does not converge")
            push(s, frm)

        add(st, st.node)
        saveloc = self.loc
        while work:
            hs = work.pop(0)
            if hs.node in dead:
                continue
            self.loc = saveloc
            backs = head(hs)
            ll = self.loop_locals(loopnode, cx)
            for b, elem in backs:
                if self.root != "main":
                    self.iter_ends.append((self.root, lid, b.node, {k[1]: v for k, v in b.cells.items() if k[0] == cx.frame.id}))
                for n in ll:
                    b.cells.pop((cx.frame.id, n), None)
                self.back_edge(b, elem, base_loops)
            for b, _ in self.merge([(b, None) for b, _ in backs], join_facts=True):
                add(b, b.node)
        return heads

    def widen(self, a, b, lid):
        """upper bound of a and b; iterating it stabilises"""
        for k, w in a.cells.items():
            v = b.cells.get(k)
            if v is None:
                if k[0] != "lk":
                    b.cells[k] = w
            elif v is not w:
                b.cells[k] = self.widen_val(w, v, lid, str(k))
        for o, q in a.heap.items():
            r = b.heap.get(o)
            if r is None:
                b.heap[o] = q
            elif q is not r and q != r:
                if r.kind in CONTAINERS and q.kind == r.kind:
                    ents = norm_entries(q.entries + r.entries)
                    base = r.base if r.base is q.base else mk("top")
                    if len(ents) > 8 or (base.op == "top" if base is not None else False):
                        ents = ()
                        base = mk("top")
                    # an element of only one side is not definite
                    if base is None and any(not e.params for e in ents) and set(q.entries) != set(r.entries):
                        ents = ()
                        base = mk("top")
                    mark = join_mark(r.mark, q.mark) or "weak"
                    if mark == "sub" and set(q.entries) != set(r.entries):
                        mark = "weak"
                    b.heap[o] = Rec(r.kind, r.cls, r.fields, base, ents, mark)
                else:
                    f = {}
                    for k in set(q.fields) | set(r.fields):
                        x, y = q.fields.get(k), r.fields.get(k)
                        f[k] = x if y is None else y if x is None else x if x is y else self.widen_val(x, y, lid, str(k) + str(o.args[0]))
                    b.heap[o] = Rec(r.kind, r.cls, f, r.base if r.base is q.base else mk("top"), r.entries, r.mark)
        b.facts = {k: v for k, v in b.facts.items() if a.facts.get(k) == v and k in a.facts}
        return b

    def widen_val(self, x, y, lid, k):
        w = mk("phi", mk("wid", lid, k))
        if x is w or y is w:
            return w
        xs = x.args if x.op == "phi" else (x,)
        ys = y.args if y.op == "phi" else (y,)
        s = sorted(set(xs) | set(ys), key=lambda t: t.h)
        if len(s) > 3 or any(z.op in ("top", "wid") for z in s):
            return w
        return mk("phi", *s)

    # iteration --------------------------------------------------------------
    def iterate(self, st, coll, node, cx, body, tag="", keep=None):
        """run body for every element; returns states after exhaustion"""
        self.hold(st, cx, node, "it" + tag, coll if keep is None else tup(coll, keep))
        out = self.iterate_(st, coll, node, cx, body, tag)
        for a in out:
            a.cells.pop(("tmp", cx.frame.id, id(node), "it" + tag), None)
        return out

    def iterate_(self, st, coll, node, cx, body, tag=""):
        base_loops = st.loops
        self.loop_base[(id(node), cx.frame.id)] = base_loops
        o = coll.op
        if o == "gexp" and self.policy.displays and not tag.startswith("~g"):
            # a generator can be consumed once
            k = ("m:gexp", str(coll.args[1]))
            if st.cells.get(k) is TRUE:
                return [st]
            st.cells[k] = TRUE
        if o == "sym" and self.policy.displays and self.hashable(st, coll):
            self.d_fail(st, cx, "TypeError", "iterates over a value of which nothing is known", coll, node)
            return []
        if o == "phi" and len(coll.args) == 1 and coll.args[0].op not in ("top", "wid"):
            coll = coll.args[0]
            o = coll.op
        seq = self.definite_seq(st, coll)
        if seq is not None and self.policy.concrete:
            sts = [st]
            lid = mk("lid", self.site(node) + tag, cx.frame.id, base_loops)
            for i, v in enumerate(seq):
                nxt = []
                for a in sts:
                    self.emit(a, "iter", loop=lid, coll=coll, elem=v, index=i)
                    nxt += body(a, v)
                sts = self.alike(nxt)
            return sts
        if seq is not None and len(seq) <= 8:
            sts = [st]
            lid = mk("lid", self.site(node) + tag, cx.frame.id, base_loops)
            for i, v in enumerate(seq):
                nxt = []
                el = mk("elem", C(i), lid)
                for a in sts:
                    a.loops = base_loops + (el,)
                    self.emit(a, "iter", loop=lid, coll=coll, elem=el, index=i)
                    for b in body(a, v):
                        b.loops = base_loops
                        nxt.append(b)
                sts = nxt
                if len(sts) > 4:
                    sts = self.merge_states(sts)
            for a in sts:
                self.emit(a, "loopexit", loop=lid, coll=coll)
            return sts
        if o == "chain":
            sts = [st]
            for i, c in enumerate(coll.args):
                sts = [x for a in sts for x in self.iterate(a, c, node, cx, body, tag + f"/{i}")]
            return sts
        if o == "enum":
            idx = mk("idx", mk("lid", self.site(node) + tag, cx.frame.id, base_loops))

            def b2(s, v):
                i = mk("idxof", v, s.loops[-1]) if s.loops else idx
                return body(s, tup(i, v))

            return self.iterate(st, coll.args[0], node, cx, b2, tag)
        if o in ("rev", "sorted", "iter", "ordered"):
            return self.iterate(st, coll.args[0], node, cx, body, tag + "~r" if o == "rev" else tag)
        if o == "map":
            def b3(s, v):
                out = []
                for x, r in self.call(s, cx, coll.args[0], [("pos", v)], node):
                    out += body(x, r)
                return out

            return self.iterate(st, coll.args[1], node, cx, b3, tag)
        if o == "filter":
            def b4(s, v):
                out = []
                if coll.args[0] is NONE:
                    prs = [(s, v)]
                else:
                    prs = self.call(s, cx, coll.args[0], [("pos", v)], node)
                for x, r in prs:
                    for y, t in self.truth(x, r, node, cx):
                        if t:
                            out += body(y, v)
                        else:
                            out.append(y)
                return out

            return self.iterate(st, coll.args[1], node, cx, b4, tag)
        if o == "prod":
            def nest(i, acc):
                def b5(s, v):
                    if i + 1 == len(coll.args):
                        return body(s, tup(*acc, v))
                    return self.iterate(s, coll.args[i + 1], node, cx, nest(i + 1, acc + [v]), tag + f"*{i}")

                return b5

            return self.iterate(st, coll.args[0], node, cx, nest(0, []), tag)
        if o == "zip":
            def b6(s, v):
                vals = [v]
                lid = mk("lid", self.site(node) + tag + "z", cx.frame.id, s.loops)
                for c in coll.args[1:]:
                    opts = self.elem_options(s, c, lid)
                    vals.append(opts[0][0] if opts else mk("elem", c, lid))
                return body(s, tup(*vals))

            return self.iterate(st, coll.args[0], node, cx, b6, tag)
        if o == "gen":
            return self.run_generator(st, coll, node, cx, body)
        if o == "gexp":
            return self.run_genexp(st, coll, node, cx, body)
        if o == "islice":
            return self.iterate(st, coll.args[0], node, cx, body, tag)
        lid = mk("lid", self.site(node) + tag, cx.frame.id, base_loops)
        exits = []

        def head(hs):
            back = []
            e = hs.fork()
            e.loops = base_loops
            self.emit(e, "loopexit", loop=lid, coll=coll)
            exits.append(e)
            for val, facts, elem in self.elem_options(hs, coll, lid):
                s = hs.fork()
                s.loops = base_loops + (elem,)
                self.emit(s, "iter", loop=lid, coll=coll, elem=elem, val=val)
                ok = True
                for a, b in facts:
                    if not self.assume(s, a, b):
                        ok = False
                        break
                if not ok:
                    continue
                for r in body(s, val):
                    back.append((r, elem))
            return back

        self.fixpoint(st, lid, head, cx, base_loops, node)
        return self.merge_states(self.subsume(exits), join_facts=True)

    def elem_options(self, st, coll, lid):
        """[(value, facts, elem)] of one generic element"""
        o = coll.op
        if o == "view":
            e = mk("elem", coll, lid)
            k = coll.args[0]
            if k == "in_edges":
                n, keys = coll.args[2], coll.args[3]
                t = [mk("eu", e), n if n is not NONE else mk("ev", e)]
                if keys:
                    t.append(mk("ek", e))
                return [(tup(*t), [], e)]
            if k in ("out_edges", "edges"):
                n, keys = coll.args[2], coll.args[3]
                t = [n if n is not NONE else mk("eu", e), mk("ev", e)]
                if keys:
                    t.append(mk("ek", e))
                return [(tup(*t), [], e)]
            if k == "nodesdata":
                return [(tup(e, mk("data", e)), [], e)]
            return [(e, [], e)]
        if o == "vtup":
            out = []
            for p in coll.args[0]:
                out.append((p, [], mk("elem", p, lid)))
            for x in self.elem_options(st, coll.args[1], lid):
                out.append(x)
            return out
        if o in ("ditems", "dkeys", "dvals"):
            d = coll.args[0]
            r = self.rec(st, d) if d.op == "obj" else None
            if r is None or self.is_shared_container(d) or r.kind == "inst":
                e = mk("elem", coll, lid)
                if o == "ditems":
                    return [(tup(mk("unpack", e, C(0), C(2)), mk("unpack", e, C(1), C(2))), [], e)]
                return [(e, [], e)]
            out = []
            for i, en in enumerate(r.entries):
                m, e = self.entry_inst(en, lid, i, coll)
                k, v, f = en.inst(m)
                val = tup(k, v) if o == "ditems" else k if o == "dkeys" else v
                out.append((val, f, e))
            if r.base is not None or r.mark == "weak":
                b = r.base if r.base is not None else mk("top")
                e = mk("elem", mk(o, b) if b.op not in ("ditems",) else b, lid)
                if o == "ditems":
                    out.append((tup(mk("dkey", e), mk("dval", e)), [], e))
                elif o == "dkeys":
                    out.append((mk("dkey", e), [], e))
                else:
                    out.append((mk("dval", e), [], e))
            return out
        if o == "obj":
            r = self.rec(st, coll)
            if r is not None and r.kind == "graph":
                e = mk("elem", mk("view", "nodes", coll), lid)
                return [(e, [], e)]
            if r is not None and r.kind in CONTAINERS and not self.is_shared_container(coll):
                if r.kind in ("dict", "counter"):
                    return self.elem_options(st, mk("dkeys", coll), lid)
                out = []
                if r.base is not None:
                    out += self.elem_options(st, r.base, lid)
                for i, en in enumerate(r.entries):
                    m, e = self.entry_inst(en, lid, i, coll)
                    k, v, f = en.inst(m)
                    out.append((v, f, e))
                if not out and r.mark == "weak":
                    e = mk("elem", coll, lid)
                    out.append((e, [], e))
                return out
        if o == "map2":
            # mapped view: (fnval term with param)
            pass
        if o == "sym" and o in self.sym_models:
            pass
        e = mk("elem", coll, lid)
        return [(e, [], e)]

    def entry_inst(self, en, lid, i, coll):
        if not en.params:
            return {}, mk("elem", mk("one", C(i), coll), lid)
        m = {}
        first = None
        for p in en.params:
            c = p.args[0] if p.op == "elem" else p
            e = mk("elem", c, mk("lid2", lid, i, p.args[1].args[0] if p.op == "elem" and type(p.args[1]) is T else ""))
            m[p] = e
            if first is None:
                first = e
        # the loop element must make the renaming work: all params mention lid through lid2
        marker = first
        if len(en.params) > 1:
            # later params are renamed together with the first: nest them under it
            for p in en.params[1:]:
                c = p.args[0] if p.op == "elem" else p
                m[p] = mk("elem", subst(c, m), mk("lid2", lid, i, mk("sub", marker, m[p])))
        return m, marker

    def run_generator(self, st, g, node, cx, body):
        """for-loop over a generator function's frame: inline, body at each yield"""
        fid, frid = g.args
        fn = self.fns[fid]
        fr = self.frames[frid]
        gcx = Cx(fr)
        gcx.selfv = None
        cons_frames = st.frames
        self.astnodes[id(node)] = node
        gframes = st.frames + ((fid, frid, id(node)),)
        GE = mk("exc", mk("tk", "GENEXIT", frid, ()), "GeneratorExit")
        hid = ("gen", frid)
        base_loops = st.loops

        def yh(s, val):
            s.frames = cons_frames
            o = self.capture(cx, lambda: body(s, val))
            out = []
            for a in o.norm:
                a.frames = gframes
                out.append((a, NONE))
            for a, v in o.ret:
                a.pending = a.pending + ((hid, "ret", v),)
                a.frames = gframes
                self.raise_(a, GE)
            for a in o.brk:
                a.pending = a.pending + ((hid, "brk", NONE),)
                a.frames = gframes
                self.raise_(a, GE)
            for a in o.cont:
                a.frames = gframes
                out.append((a, NONE))
            for a, e in o.raises:
                # body exceptions do not go through the generator: it is closed
                a.pending = a.pending + ((hid, "raise", e),)
                a.frames = gframes
                self.raise_(a, GE)
            return out

        gcx.yh = yh
        st.frames = gframes
        self.analysed_fns.add(fid)
        o = self.capture(gcx, lambda: self.block(fn.node.body, [st], gcx))
        norm = list(o.norm) + [a for a, _ in o.ret]
        out = []
        for a in norm:
            a.frames = cons_frames
            self.drop_frame(a, fr)
            out.append(a)
        for a, e in o.raises:
            a.frames = cons_frames
            self.drop_frame(a, fr)
            if e is GE and a.pending and a.pending[-1][0] == hid:
                _, k, v = a.pending[-1]
                a.pending = a.pending[:-1]
                a.loops = base_loops
                if k == "ret":
                    cx.ret.append((a, v))
                elif k == "brk":
                    cx.brk.append(a)
                else:
                    self.raise_(a, v)
            else:
                self.raise_(a, e)
        return self.merge_states(out, join_facts=True)

    def run_genexp(self, st, g, node, cx, body):
        nid, frid = g.args[0], g.args[1]
        gnode = self.astnodes[nid]
        fr = self.frames[frid]
        gcx = Cx(fr)
        first = st.cells.get((frid, ".0"))
        cons = st.frames
        self.astnodes[id(node)] = node
        gf = st.frames + ((("gx", nid), frid, id(node)),)
        st.frames = gf
        base_loops = st.loops

        def leaf(s):
            res = []
            for a, v in self.ev(gnode.elt, s, gcx):
                a.frames = cons
                for b in body(a, v):
                    b.frames = gf
                    res.append(b)
            return res

        outs = self.comp_loops(gnode.generators, 0, st, gcx, leaf, first)
        for a in outs:
            a.frames = cons
            a.cells.pop((frid, ".0"), None)
        return outs

    def comp_loops(self, gens, i, st, cx, leaf, first=None):
        g = gens[i]
        tnames = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        if first is not None and i == 0:
            pairs = [(st, first)]
        else:
            pairs = self.ev(g.iter, st, cx)
        out = []
        for a, coll in pairs:
            def body(s, val):
                res = []
                for b in self.assign(g.target, val, s, cx):
                    cur = [b]
                    for cnd in g.ifs:
                        nxt = []
                        for c in cur:
                            for d, t in self.cond(cnd, c, cx):
                                if t:
                                    nxt.append(d)
                                else:
                                    res.append(d)
                        cur = nxt
                    for c in cur:
                        if i + 1 < len(gens):
                            res += self.comp_loops(gens, i + 1, c, cx, leaf)
                        else:
                            res += leaf(c)
                for b in res:
                    for n in tnames:
                        b.cells.pop((cx.frame.id, n), None)
                return res

            out += self.iterate(a, coll, g.iter, cx, body)
        return out

    # with -------------------------------------------------------------------
    def s_With(self, s, st, cx):
        def run(i, sts):
            if i == len(s.items):
                return self.block(s.body, sts, cx)
            it = s.items[i]
            out = []
            for st in sts:
                for a, cm in self.ev(it.context_expr, st, cx):
                    self.hold(a, cx, it, "w", cm)

                    def body(b, val):
                        if it.optional_vars is not None:
                            nb = self.assign(it.optional_vars, val, b, cx)
                        else:
                            nb = [b]
                        return run(i + 1, nb)

                    for b in self.with_(a, cx, cm, body, it.context_expr):
                        b.cells.pop(("tmp", cx.frame.id, id(it), "w"), None)
                        out.append(b)
            return out

        return run(0, [st])

    def with_(self, st, cx, cm, body, node):
        o = cm.op
        if o == "cmgen":
            return self.with_gen(st, cx, cm, body, node)
        if o == "obj":
            r = self.rec(st, cm)
            if r is not None and r.kind == "inst" and self.class_lookup(r.cls, "__enter__") is not None:
                return self.with_inst(st, cx, cm, body, node)
            if r is not None and r.kind in ("lock", "cond"):
                self.lock_acquire(st, cx, cm, node)
                outs = self.capture(cx, lambda: body(st, cm))
                for a in outs.norm:
                    self.lock_release(a, cx, cm, node)
                for a, _ in outs.ret + outs.raises:
                    self.lock_release(a, cx, cm, node)
                for a in outs.brk + outs.cont:
                    self.lock_release(a, cx, cm, node)
                if self.policy.displays:
                    outs.norm = [b for a in outs.norm for b in self.d_gap(a, cx, node)]
                    outs.ret = [(b, v) for a, v in outs.ret for b in self.d_gap(a, cx, node)]
                    outs.brk = [b for a in outs.brk for b in self.d_gap(a, cx, node)]
                    outs.cont = [b for a in outs.cont for b in self.d_gap(a, cx, node)]
                return self.reemit(cx, outs)
            if r is not None and r.kind != "inst":
                return self.with_ext(st, cx, cm, r, body, node)
            if r is not None:
                outs = self.with_file_like(st, cx, cm, r, body, node)
                if outs is not None:
                    return outs
        return self.with_opaque(st, cx, cm, body, node)

    def reemit(self, cx, outs):
        cx.ret += outs.ret
        cx.brk += outs.brk
        cx.cont += outs.cont
        self.raises += outs.raises
        return outs.norm

    def with_opaque(self, st, cx, cm, body, node):
        """user supplied context manager (e.g. progress observer)"""
        out_norm = []
        for a, ent in self.ucall(st, cx, mk("attr", cm, "__enter__"), [], node, noraise=True, kind="enter"):
            outs = self.capture(cx, lambda: body(a, ent))

            def exit_(b, exc):
                args = [("pos", exc if exc is not None else NONE)]
                return [x for x, _ in self.ucall(b, cx, mk("attr", cm, "__exit__"), args, node, noraise=True, kind="exit")]

            for b in outs.norm:
                out_norm += exit_(b, None)
            for b, v in outs.ret:
                for c in exit_(b, None):
                    cx.ret.append((c, v))
            for b in outs.brk:
                cx.brk += exit_(b, None)
            for b in outs.cont:
                cx.cont += exit_(b, None)
            for b, e in outs.raises:
                for c in exit_(b, e):
                    self.raise_(c, e)
        return out_norm

    def with_inst(self, st, cx, cm, body, node):
        out_norm = []
        for s1, ent_m in self.getattr(st, cx, cm, "__enter__", node):
            for a, ent in self.call(s1, cx, ent_m, [], node):
                outs = self.capture(cx, lambda: body(a, ent))

                def exit_(b, exc):
                    res = []
                    for c, em in self.getattr(b, cx, cm, "__exit__", node):
                        if exc is None:
                            args = [("pos", NONE)] * 3
                        else:
                            args = [("pos", mk("type", exc)), ("pos", exc), ("pos", mk("attr", exc, "__traceback__"))]
                            c.exc = c.exc + (exc,)
                        for d, rv in self.call(c, cx, em, args, node):
                            if exc is not None:
                                d.exc = d.exc[:-1]
                            res.append((d, rv))
                    return res

                for b in outs.norm:
                    out_norm += [x for x, _ in exit_(b, None)]
                for b, v in outs.ret:
                    cx.ret += [(x, v) for x, _ in exit_(b, None)]
                for b in outs.brk:
                    cx.brk += [x for x, _ in exit_(b, None)]
                for b in outs.cont:
                    cx.cont += [x for x, _ in exit_(b, None)]
                for b, e in outs.raises:
                    for c, rv in exit_(b, e):
                        for d, t in self.truth(c, rv, node, cx):
                            if t:
                                out_norm.append(d)
                            else:
                                self.raise_(d, e)
        return out_norm

    def with_gen(self, st, cx, cm, body, node):
        fid, frid = cm.args
        fn = self.fns[fid]
        fr = self.frames[frid]
        gcx = Cx(fr)
        cons = st.frames
        self.astnodes[id(node)] = node
        gframes = st.frames + ((fid, frid, id(node)),)
        hid = ("cm", frid)
        cons_exc = st.exc

        def yh(s, val):
            s.frames = cons
            gexc = s.exc
            o = self.capture(cx, lambda: body(s, val))
            out = []
            for a in o.norm:
                a.frames = gframes
                out.append((a, NONE))
            for kind, lst in (("ret", o.ret), ("brk", [(x, NONE) for x in o.brk]), ("cont", [(x, NONE) for x in o.cont])):
                for a, v in lst:
                    a.pending = a.pending + ((hid, kind, v),)
                    a.frames = gframes
                    out.append((a, NONE))
            for a, e in o.raises:
                a.frames = gframes
                a.flags = a.flags | {("thrown", frid, e)}
                self.raise_(a, e)
            return out

        gcx.yh = yh
        st.frames = gframes
        self.analysed_fns.add(fid)
        o = self.capture(gcx, lambda: self.block(fn.node.body, [st], gcx))
        norm = list(o.norm) + [a for a, _ in o.ret]
        out = []
        for a in norm:
            a.frames = cons
            self.drop_frame(a, fr)
            thrown = [f for f in a.flags if type(f) is tuple and f[0] == "thrown" and f[1] == frid]
            if thrown:
                a.flags = a.flags - set(thrown)
            if a.pending and a.pending[-1][0] == hid:
                _, k, v = a.pending[-1]
                a.pending = a.pending[:-1]
                if k == "ret":
                    cx.ret.append((a, v))
                elif k == "brk":
                    cx.brk.append(a)
                elif k == "cont":
                    cx.cont.append(a)
            else:
                out.append(a)
        for a, e in o.raises:
            a.frames = cons
            self.drop_frame(a, fr)
            thrown = [f for f in a.flags if type(f) is tuple and f[0] == "thrown" and f[1] == frid]
            if thrown:
                a.flags = a.flags - set(thrown)
            if a.pending and a.pending[-1][0] == hid:
                a.pending = a.pending[:-1]
            self.raise_(a, e)
        return self.merge_states(out, join_facts=True) if len(out) > 1 else out

    # try --------------------------------------------------------------------
    def s_Try(self, s, st, cx):
        base_frames = st.frames
        base_locks = st.locks
        base_tmp = {k for k in st.cells if k[0] == "tmp"}
        base_exc = st.exc
        base_loops = st.loops

        def core():
            lookups = any(isinstance(n, ast.Name) and n.id in ("KeyError", "LookupError") for h in s.handlers if h.type is not None for n in ast.walk(h.type))
            self.lookups_fail += lookups
            try:
                o = self.capture(cx, lambda: self.block(s.body, [st], cx))
            finally:
                self.lookups_fail -= lookups
            norm = o.norm
            cx.ret += o.ret
            cx.brk += o.brk
            cx.cont += o.cont
            if s.orelse:
                norm = self.block(s.orelse, norm, cx)
            groups = {}
            for a, e in o.raises:
                self.unhold_all(a, cx, base_tmp)
            raises = self.merge(o.raises) if len(o.raises) > 1 else o.raises
            for a, e in raises:
                a.frames = base_frames
                a.loops = base_loops
                norm += self.handle(s.handlers, a, e, cx, base_exc)
            return norm

        if not s.finalbody:
            return core()
        o = self.capture(cx, core)
        out = []

        def fin(a, rest):
            """run finalbody; rest(state) re-emits"""
            a.frames = base_frames
            for b in self.block(s.finalbody, [a], cx):
                rest(b)

        norm = self.merge_states(o.norm) if len(o.norm) > 1 else o.norm
        for a in norm:
            fin(a, out.append)
        rets = self.merge(o.ret) if len(o.ret) > 1 else o.ret
        for a, v in rets:
            fin(a, lambda b, v=v: cx.ret.append((b, v)))
        for a in o.brk:
            fin(a, cx.brk.append)
        for a in o.cont:
            fin(a, cx.cont.append)
        raises = self.merge(o.raises) if len(o.raises) > 1 else o.raises
        for a, e in raises:
            a.exc = base_exc + (e,)
            a.loops = base_loops

            def rr(b, e=e):
                b.exc = base_exc
                self.raise_(b, e)

            fin(a, rr)
        return out

    s_TryStar = s_Try

    def handle(self, handlers, st, e, cx, base_exc):
        """dispatch exception e; returns normal states; unmatched are re-raised"""
        cur = [st]
        out = []
        for h in handlers:
            nxt = []
            for a in cur:
                if h.type is None:
                    prs = [(a, True)]
                else:
                    prs = []
                    for b, ct in self.ev(h.type, a, cx):
                        prs += self.exc_match(b, e, ct)
                for b, m in prs:
                    if not m:
                        nxt.append(b)
                        continue
                    self.loc = (h._mod.path if h._mod else "client", h.lineno)
                    self.emit(b, "caught", exc=e, at=self.site(h))
                    b.exc = base_exc + (e,)
                    if h.name:
                        key = self.resolve_cell(cx, h.name)
                        b.cells[key] = e
                    o = self.capture(cx, lambda: self.block(h.body, [b], cx))
                    for lst in (o.norm, o.brk, o.cont):
                        for x in lst:
                            x.exc = base_exc
                            if h.name:
                                x.cells.pop(self.resolve_cell(cx, h.name), None)
                    for x, _ in o.ret + o.raises:
                        x.exc = base_exc
                        if h.name:
                            x.cells.pop(self.resolve_cell(cx, h.name), None)
                    self.reemit(cx, o)
                    out += o.norm
            cur = nxt
            if not cur:
                break
        for a in cur:
            a.exc = base_exc
            self.raise_(a, e)
        return out

    def exported(self):
        if self._exported is None:
            m = self.repo.modules.get("uberjob")
            self._exported = {a.asname or a.name for n in ast.walk(m.tree) if isinstance(n, ast.ImportFrom) for a in n.names} if m else set()
        return self._exported

    def exc_isinst(self, e, c):
        """exception token isinstance class: True/False/None"""
        kind = e.args[1]
        if c.op == "cls":
            # a call can raise what the package exports, say the error of a run it started itself
            return None if kind == "Exception" and c.args[0].split(".")[-1] in self.exported() else False
        if c.op != "ext":
            return None
        name = c.args[0]
        if kind not in ("Exception", "BaseException"):
            a = getattr(_pybuiltins, kind, None)
            b = self.py_class(name)
            if a is not None and b is not None:
                if issubclass(a, b):
                    return True
                return None if issubclass(b, a) else False
            return None
        if name in ("builtins.BaseException", "builtins.object"):
            return True
        if name == "builtins.Exception":
            return kind == "Exception"
        b = self.py_class(name)
        if b is not None:
            if kind == "BaseException" and issubclass(b, Exception):
                return False
            if kind == "Exception" and issubclass(b, BaseException) and not issubclass(b, Exception):
                return False
            if not issubclass(b, BaseException):
                return False
        elif kind == "BaseException":
            return False
        return None

    def exc_match(self, st, e, ct):
        if ct.op == "tup":
            out = []
            cur = [st]
            for c in ct.args:
                nxt = []
                for a in cur:
                    for b, m in self.exc_match(a, e, c):
                        if m:
                            out.append((b, True))
                        else:
                            nxt.append(b)
                cur = nxt
            return out + [(a, False) for a in cur]
        if ct.op not in ("cls", "ext"):
            return self.branch(st, mk("isinst", e, ct))
        if e.op == "exc":
            r = self.exc_isinst(e, ct)
            if r is not None:
                return [(st, r)]
            return self.branch(st, mk("isinst", e, ct))
        ts = self.typeof(st, e)
        if ts is not None:
            ts = {t for t in ts if not (t.op == "ext" and t.args[0] == "builtins.NoneType")}
            rs = {self.subclass(t, ct) for t in ts}
            if len(rs) == 1 and None not in rs:
                return [(st, rs.pop())]
        if ct.op == "ext" and ct.args[0] == "builtins.BaseException":
            return [(st, True)]
        return self.branch(st, mk("isinst", e, ct))

    def s_Match(self, s, st, cx):
        out = []
        for a, v in self.ev(s.subject, st, cx):
            cur = [a]
            for case in s.cases:
                nxt = []
                for b in cur:
                    for c, m in self.match_pat(b, cx, case.pattern, v):
                        if not m:
                            nxt.append(c)
                            continue
                        gs = self.cond(case.guard, c, cx) if case.guard else [(c, True)]
                        for d, t in gs:
                            if t:
                                out += self.block(case.body, [d], cx)
                            else:
                                nxt.append(d)
                cur = nxt
            out += cur
        return out

    def match_pat(self, st, cx, p, v):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(st, p.name, v, cx)
                return [(st, True)]
            out = []
            for a, m in self.match_pat(st, cx, p.pattern, v):
                if m and p.name:
                    self.store_name(a, p.name, v, cx)
                out.append((a, m))
            return out
        if isinstance(p, ast.MatchValue):
            out = []
            for a, w in self.ev(p.value, st, cx):
                out += self.branch(a, mk("eq", v, w))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, mk("is", v, C(p.value)))
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for a in cur:
                    for b, m in self.match_pat(a, cx, q, v):
                        (out if m else nxt).append((b, True) if m else b)
                cur = nxt
            return out + [(a, False) for a in cur]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for a, c in self.ev(p.cls, st, cx):
                out += self.branch(a, mk("isinst", v, c))
            return out
        self.unknown.append(("pattern", self.loc))
        s2 = st.fork()
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------------ expressions
    def cond(self, e, st, cx):
        """[(st,bool)]"""
        if isinstance(e, ast.BoolOp):
            out = []
            cur = [st]
            isand = isinstance(e.op, ast.And)
            for i, x in enumerate(e.values):
                nxt = []
                for a in cur:
                    for b, t in self.cond(x, a, cx):
                        if t == isand:
                            nxt.append(b)
                        else:
                            out.append((b, t))
                cur = nxt
            return out + [(a, isand) for a in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, not t) for a, t in self.cond(e.operand, st, cx)]
        out = []
        for a, v in self.ev(e, st, cx):
            out += self.truth(a, v, e, cx)
        return out

    def ev(self, e, st, cx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((type(e).__name__, self.loc))
            return [(st, mk("unknown", self.site(e)))]
        return m(e, st, cx)

    def evs(self, es, st, cx):
        res = [(st, [])]
        n = len(es)
        for i, e in enumerate(es):
            nxt = []
            for a, vs in res:
                for b, v in self.ev(e, a, cx):
                    if i + 1 < n:
                        self.hold(b, cx, e, "e", v)
                    nxt.append((b, vs + [v]))
            res = nxt
        if n > 1:
            for a, _ in res:
                for e in es:
                    a.cells.pop(("tmp", cx.frame.id, id(e), "e"), None)
        return res

    def e_Constant(self, e, st, cx):
        v = e.value
        if type(v) in (int, str, bool, float, bytes, type(None)):
            return [(st, C(v))]
        return [(st, mk("ext", "builtins." + repr(v)))]

    def e_Name(self, e, st, cx):
        return [(st, self.load_name(st, e.id, cx, e))]

    def e_Attribute(self, e, st, cx):
        out = []
        for a, v in self.ev(e.value, st, cx):
            out += self.getattr(a, cx, v, e.attr, e)
        return out

    def e_Tuple(self, e, st, cx):
        return [(a, self.build_tuple(a, vs, e, cx)) for a, vs in self.ev_star(e.elts, st, cx)]

    def build_tuple(self, st, vs, node, cx):
        """vs: list of ('pos',v)|('star',v)"""
        flat = []
        for i, (k, v) in enumerate(vs):
            if k == "pos":
                flat.append(v)
            else:
                s = self.definite_seq(st, v)
                if s is not None:
                    flat += s
                else:
                    rest = [x for x in vs[i:]]
                    if len(rest) == 1:
                        return mk("vtup", tuple(flat), v) if flat else mk("vtup", (), v)
                    return mk("spread", tuple(flat), tuple(mk(k2, v2) for k2, v2 in rest))
        return tup(*flat)

    def ev_star(self, elts, st, cx):
        res = [(st, [])]
        for x in elts:
            nxt = []
            for a, vs in res:
                if isinstance(x, ast.Starred):
                    for b, v in self.ev(x.value, a, cx):
                        for c, w in self.materialize_star(b, cx, v, x):
                            nxt.append((c, vs + [("star", w)]))
                else:
                    for b, v in self.ev(x, a, cx):
                        self.hold(b, cx, x, "e", v)
                        nxt.append((b, vs + [("pos", v)]))
            res = nxt
        for a, _ in res:
            for x in elts:
                a.cells.pop(("tmp", cx.frame.id, id(x), "e"), None)
        return res

    def materialize_star(self, st, cx, v, node):
        if v.op in ("gen", "gexp", "map", "filter"):
            return self.to_container(st, cx, v, "list", node)
        return [(st, v)]

    def e_List(self, e, st, cx):
        out = []
        for a, vs in self.ev_star(e.elts, st, cx):
            out += self.build_container(a, vs, "list", e, cx)
        return out

    def e_Set(self, e, st, cx):
        out = []
        for a, vs in self.ev_star(e.elts, st, cx):
            out += self.build_container(a, vs, "set", e, cx)
        return out

    def build_container(self, st, vs, kind, node, cx):
        o = self.new_obj(st, node, cx, Rec(kind))
        self.hold(st, cx, node, "b", o)
        sts = [st]
        i = 0
        for k, v in vs:
            if k == "pos":
                for a in sts:
                    self.add_entry(a, o, C(i) if kind == "list" else None, v)
                i += 1
            else:
                nxt = []
                for a in sts:
                    nxt += self.extend(a, cx, o, v, node)
                sts = nxt
        for a in sts:
            a.cells.pop(("tmp", cx.frame.id, id(node), "b"), None)
        return [(a, o) for a in sts]

    def e_Dict(self, e, st, cx):
        o = None
        res = [(st, None)]
        out = []
        o = self.new_obj(st, e, cx, Rec("dict"))
        self.hold(st, cx, e, "b", o)
        sts = [st]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for a in sts:
                if k is None:
                    for b, d in self.ev(v, a, cx):
                        nxt += self.dict_update(b, cx, o, d, e)
                else:
                    for b, (kk, vv) in self.evs([k, v], a, cx):
                        self.dict_set(b, o, kk, vv)
                        nxt.append(b)
            sts = nxt
        for a in sts:
            a.cells.pop(("tmp", cx.frame.id, id(e), "b"), None)
        return [(a, o) for a in sts]

    def e_ListComp(self, e, st, cx):
        return self.comp(e, st, cx, "list")

    def e_SetComp(self, e, st, cx):
        return self.comp(e, st, cx, "set")

    def e_DictComp(self, e, st, cx):
        return self.comp(e, st, cx, "dict")

    def comp_names(self, gens):
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        return names

    def comp(self, e, st, cx, kind):
        fr = self.sub_frame(cx, e, self.comp_names(e.generators))
        ccx = Cx(fr)
        ccx.yh = cx.yh
        ccx.selfv = cx.selfv
        o = self.new_obj(st, e, cx, Rec(kind))
        self.hold(st, ccx, e, "c", o)

        def leaf(s):
            if kind == "dict":
                out = []
                for a, (k, v) in self.evs([e.key, e.value], s, ccx):
                    self.dict_set(a, o, k, v)
                    self.emit(a, "cadd", obj=o, args=(k, v))
                    out.append(a)
                return out
            out = []
            for a, v in self.ev(e.elt, s, ccx):
                self.add_entry(a, o, None, v)
                self.emit(a, "cadd", obj=o, args=(v,))
                out.append(a)
            return out

        res = []
        first = None
        outs = self.comp_loops(e.generators, 0, st, ccx, leaf)
        for a in outs:
            # [x for x in coll] is a copy of coll
            a.cells.pop(("tmp", fr.id, id(e), "c"), None)
            self.drop_frame(a, fr)
            self.simplify_copy(a, o)
            res.append((a, o))
        return res

    def simplify_copy(self, st, o):
        r = st.heap.get(o)
        if r is None or r.kind not in ("list", "set", "deque") or r.base is not None or len(r.entries) != 1:
            return
        en = r.entries[0]
        if len(en.params) == 1 and en.val is en.params[0] and not en.facts and en.val.op == "elem":
            c = en.val.args[0]
            if c.op in ("view", "sym"):
                st.heap[o] = Rec(r.kind, None, None, c, ())

    def e_GeneratorExp(self, e, st, cx):
        fr = self.sub_frame(cx, e, self.comp_names(e.generators))
        self.astnodes[id(e)] = e
        out = []
        for a, first in self.ev(e.generators[0].iter, st, cx):
            a.cells[(fr.id, ".0")] = first
            if self.policy.displays:
                a.cells[("m:gexp", str(fr.id))] = NONE
            out.append((a, mk("gexp", id(e), fr.id)))
        self.mark_escape(cx.frame) if False else None
        return out

    def e_Lambda(self, e, st, cx):
        return self.make_fn(e, st, cx)

    def e_IfExp(self, e, st, cx):
        out = []
        for a, t in self.cond(e.test, st, cx):
            out += self.ev(e.body if t else e.orelse, a, cx)
        return out

    def e_NamedExpr(self, e, st, cx):
        out = []
        for a, v in self.ev(e.value, st, cx):
            c = cx
            if e.target.id not in (cx.frame.locals or ()) and cx.frame.parent is not None:
                # comprehension: bind in the enclosing function
                fr = cx.frame
                while fr.parent is not None and fr.locals is not None and e.target.id not in fr.locals:
                    fr = self.frames[fr.parent]
                a.cells[(fr.id, e.target.id)] = v
            else:
                self.store_name(a, e.target.id, v, cx)
            out.append((a, v))
        return out

    def e_BoolOp(self, e, st, cx):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for a in cur:
                for b, v in self.ev(x, a, cx):
                    if last:
                        out.append((b, v))
                        continue
                    for c, t in self.truth(b, v, x, cx):
                        if t == isand:
                            nxt.append(c)
                        else:
                            out.append((c, self.bool_value(v, t)))
            cur = nxt
        return out

    def bool_value(self, v, t):
        if v.op in ("eq", "lt", "gt", "le", "ge", "ne", "is", "isnot", "in", "notin", "not", "isinst", "callable", "any"):
            return B(t)
        return v

    def e_UnaryOp(self, e, st, cx):
        out = []
        if isinstance(e.op, ast.Not):
            return [(a, B(not t)) for a, t in self.cond(e.operand, st, cx)]
        for a, v in self.ev(e.operand, st, cx):
            if is_const(v):
                try:
                    x = cval(v)
                    r = C(-x if isinstance(e.op, ast.USub) else +x if isinstance(e.op, ast.UAdd) else ~x)
                except Exception:
                    r = mk("unknown", self.site(e))
            else:
                r = mk("neg", v) if isinstance(e.op, ast.USub) else v
            out.append((a, r))
        return out

    def e_Compare(self, e, st, cx):
        if len(e.ops) == 1:
            out = []
            for a, (l, r) in self.evs([e.left, e.comparators[0]], st, cx):
                out += self.compare(a, cx, e.ops[0], l, r, e)
            return out
        # chained: a < b < c  == a<b and b<c
        out = []
        for a, vs in self.evs([e.left] + e.comparators, st, cx):
            cur = [a]
            for i, op in enumerate(e.ops):
                nxt = []
                for b in cur:
                    for c, v in self.compare(b, cx, op, vs[i], vs[i + 1], e):
                        for d, t in self.truth(c, v, e, cx):
                            if t:
                                nxt.append(d)
                            else:
                                out.append((d, FALSE))
                cur = nxt
            out += [(b, TRUE) for b in cur]
        return out

    OPS = {
        ast.Is: "is", ast.IsNot: "isnot", ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le",
        ast.Gt: "gt", ast.GtE: "ge", ast.In: "in", ast.NotIn: "notin",
    }

    def compare(self, st, cx, op, l, r, node):
        o = self.OPS[type(op)]
        if o in ("in", "notin"):
            out = []
            for a, t in self.contains(st, cx, r, l, node):
                out.append((a, B(t == (o == "in"))))
            return out
        if is_const(l) and is_const(r):
            try:
                a, b = cval(l), cval(r)
                v = {
                    "is": lambda: a is b or (type(a) is type(b) and a == b), "isnot": lambda: not (a is b or (type(a) is type(b) and a == b)),
                    "eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
                    "gt": lambda: a > b, "ge": lambda: a >= b,
                }[o]()
                return [(st, B(v))]
            except TypeError:
                return self.raise_ext(st, "builtins.TypeError", node, cx)
        if self.policy.displays and o in ("lt", "le", "gt", "ge") and (self.unordered(st, l) or self.unordered(st, r)):
            return self.d_fail(st, cx, "TypeError", "orders values that need not be orderable", tup(l, r), node)
        # rich comparison of repo instances
        if o in ("eq", "ne", "lt", "le", "gt", "ge") and l.op == "obj":
            rl = self.rec(st, l)
            if rl is not None and rl.kind == "inst" and rl.cls.op == "cls":
                m = self.class_lookup(rl.cls, "__" + o + "__")
                if m is not None:
                    return self.call(st, cx, mk("bm", m, l), [("pos", r)], node)
                if o == "ne":
                    m = self.class_lookup(rl.cls, "__eq__")
                    if m is not None:
                        return [(a, mk("not", v) if not is_const(v) else B(not cval(v))) for a, v in self.call(st, cx, mk("bm", m, l), [("pos", r)], node)]
        if o in ("eq", "ne") and l.op == "tup" and r.op == "tup" and not any(x.op in ("star", "spread") for x in l.args + r.args):
            if len(l.args) != len(r.args) or any(is_const(x) and is_const(y) and cval(x) != cval(y) for x, y in zip(l.args, r.args)):
                return [(st, B(o == "ne"))]
            if all(x is y or is_const(x) and is_const(y) for x, y in zip(l.args, r.args)):
                return [(st, B(o == "eq"))]
        if o in ("lt", "le", "gt", "ge"):
            self.emit(st, "compare", op=o, l=l, r=r)
        if o == "eq" or o == "ne":
            self.emit(st, "compare", op=o, l=l, r=r)
        return [(st, mk(o, l, r))]

    def e_BinOp(self, e, st, cx):
        out = []
        for a, (l, r) in self.evs([e.left, e.right], st, cx):
            out += self.binop(a, cx, e.op, l, r, e)
        return out

    def e_JoinedStr(self, e, st, cx):
        res = [(st, [])]
        for p in e.values:
            nxt = []
            for a, vs in res:
                if isinstance(p, ast.Constant):
                    nxt.append((a, vs + [C(p.value)]))
                else:
                    for b, v in self.ev(p.value, a, cx):
                        if p.conversion == 114:  # !r
                            self.emit(b, "str", val=v, how="repr")
                            w = mk("repr", v)
                        else:
                            self.emit(b, "str", val=v, how="str")
                            w = v
                        if p.format_spec is not None:
                            if self.policy.displays:
                                nxt += [(c, vs + [w2]) for c, sp in self.ev(p.format_spec, b, cx) for c, w2 in self.d_format(c, cx, w, sp, p)]
                                continue
                            w = mk("format", w, self.site(p))
                        nxt.append((b, vs + [w]))
            res = nxt
        return [(a, self.cat(vs)) for a, vs in res]

    def cat(self, vs):
        parts = []
        for v in vs:
            if v.op == "cat":
                ps = v.args
            elif is_const(v):
                ps = (C(str(cval(v))),)
            else:
                ps = (v,)
            for p in ps:
                if parts and is_const(p) and is_const(parts[-1]):
                    parts[-1] = C(cval(parts[-1]) + cval(p))
                elif is_const(p) and cval(p) == "":
                    continue
                else:
                    parts.append(p)
        if not parts:
            return C("")
        if len(parts) == 1 and is_const(parts[0]):
            return parts[0]
        return mk("cat", *parts)

    def e_FormattedValue(self, e, st, cx):
        return self.ev(e.value, st, cx)

    def e_Starred(self, e, st, cx):
        return self.ev(e.value, st, cx)

    def e_Slice(self, e, st, cx):
        out = []
        for a, vs in self.evs([x if x is not None else ast.copy_location(ast.Constant(None), e) for x in (e.lower, e.upper, e.step)], st, cx):
            out.append((a, mk("slice", *vs)))
        return out

    def e_Subscript(self, e, st, cx):
        out = []
        for a, (b, i) in self.evs([e.value, e.slice], st, cx):
            out += self.getitem(a, cx, b, i, e)
        return out

    def e_Yield(self, e, st, cx):
        out = []
        prs = self.ev(e.value, st, cx) if e.value is not None else [(st, NONE)]
        for a, v in prs:
            c = cx
            if c.yh is None:
                out.append((a, mk("unknown", self.site(e))))
                continue
            saved_exc = a.exc
            out += c.yh(a, v)
        return out

    def e_YieldFrom(self, e, st, cx):
        out = []
        for a, coll in self.ev(e.value, st, cx):
            def body(s, v):
                return [x for x, _ in cx.yh(s, v)] if cx.yh else [s]

            out += [(x, NONE) for x in self.iterate(a, coll, e, cx, body)]
        return out

    def e_Await(self, e, st, cx):
        return self.ev(e.value, st, cx)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, cx):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = cx.frame
            while f is not None and not (f.fn is not None and f.fn.cls):
                f = self.frames.get(f.parent) if f.parent is not None else None
            if f is not None and f.fn.node.args.args:
                selfname = f.fn.node.args.args[0].arg
                inst = st.cells.get((f.id, selfname))
                if inst is not None:
                    return [(st, mk("super", mk("cls", f.fn.cls), inst))]
            return [(st, mk("unknown", "super"))]
        out = []
        for a, f in self.ev(e.func, st, cx):
            self.hold(a, cx, e, "f", f)
            for b, args in self.ev_args(e, a, cx):
                b.cells.pop(("tmp", cx.frame.id, id(e), "f"), None)
                self.loc = (e._mod.path if getattr(e, "_mod", None) else "client", e.lineno)
                out += self.call(b, cx, f, args, e)
        return out

    def ev_args(self, e, st, cx):
        res = [(st, [])]
        for x in e.args:
            nxt = []
            for a, vs in res:
                if isinstance(x, ast.Starred):
                    for b, v in self.ev(x.value, a, cx):
                        for c, w in self.materialize_star(b, cx, v, x):
                            seq = self.definite_seq(c, w)
                            if seq is not None:
                                nxt.append((c, vs + [("pos", y) for y in seq]))
                            elif w.op == "vtup":
                                nxt.append((c, vs + [("pos", y) for y in w.args[0]] + [("star", w.args[1])]))
                            else:
                                nxt.append((c, vs + [("star", w)]))
                else:
                    for b, v in self.ev(x, a, cx):
                        self.hold(b, cx, x, "e", v)
                        nxt.append((b, vs + [("pos", v)]))
            res = nxt
        for k in e.keywords:
            nxt = []
            for a, vs in res:
                for b, v in self.ev(k.value, a, cx):
                    if k.arg is None:
                        items = self.definite_items(b, v)
                        if items is not None and all(is_const(kk) for kk, _ in items):
                            nxt.append((b, vs + [("kw", cval(kk), vv) for kk, vv in items]))
                        elif v.op == "vkw":
                            nxt.append((b, vs + [("kw", n, x) for n, x in v.args[0]] + [("kwstar", v.args[1])]))
                        else:
                            nxt.append((b, vs + [("kwstar", v)]))
                    else:
                        self.hold(b, cx, k, "e", v)
                        nxt.append((b, vs + [("kw", k.arg, v)]))
            res = nxt
        for a, _ in res:
            for x in list(e.args) + list(e.keywords):
                a.cells.pop(("tmp", cx.frame.id, id(x), "e"), None)
        return res

    def definite_items(self, st, v):
        if v.op == "obj":
            r = self.rec(st, v)
            if r is not None and r.kind == "dict" and r.base is None and not r.mark and all(not en.params for en in r.entries) and not self.is_shared_container(v):
                return [(en.key, en.val) for en in r.entries]
        return None

    def call(self, st, cx, f, args, node):
        o = f.op
        if o == "sym" and self.policy.displays and self.hashable(st, f):
            return self.d_fail(st, cx, "TypeError", "calls a value of which nothing is known", f, node)
        if o == "phi":
            out = []
            for x in f.args:
                if x.op in ("top", "wid"):
                    return self.ucall(st, cx, f, args, node)
            for i, x in enumerate(f.args):
                s = st.fork() if i + 1 < len(f.args) else st
                out += self.call(s, cx, x, args, node)
            return out
        if o == "fn":
            return self.call_fn(st, cx, f, args, node)
        if o == "bm":
            return self.call(st, cx, f.args[0], [("pos", f.args[1])] + list(args), node)
        if o == "cmfn":
            return self.call_fn(st, cx, f.args[0], args, node, cm=True)
        if o == "cached":
            self.emit(st, "cached_call", fn=f.args[0], args=tuple(self.pack_arg(a) for a in args))
            return self.call(st, cx, f.args[0], args, node)
        if o == "static" or o == "prop":
            return self.call(st, cx, f.args[0], args, node)
        if o == "partial":
            fn, pa, pk = f.args
            full = [("pos", x) for x in pa] + [a for a in args if a[0] in ("pos", "star")] + [("kw", n, v) for n, v in pk if not any(a[0] == "kw" and a[1] == n for a in args)] + [a for a in args if a[0] in ("kw", "kwstar")]
            return self.call(st, cx, fn, full, node)
        if o == "cls":
            return self.instantiate(st, cx, f, args, node)
        if o == "ext":
            return self.call_ext(st, cx, f.args[0], args, node)
        if o == "extm":
            return self.call_extm(st, cx, f.args[0], f.args[1], args, node)
        if o == "obj":
            r = self.rec(st, f)
            if r is not None and r.kind == "inst":
                m = self.class_lookup(r.cls, "__call__")
                if m is not None:
                    return self.call(st, cx, mk("bm", m, f), args, node)
        if o == "load":
            vals = self.mayvals.get(self.genloc(f.args[0])) or []
            vals = [v for v in vals if v is not NONE]
            if len(vals) == 1 and vals[0].op in ("fn", "bm", "cls", "sym", "partial", "static"):
                return self.call(st, cx, vals[0], args, node)
        if o == "sym" and f.args[1] == "pure":
            return [(st, mk("app", f.args[0], *[a[-1] for a in args]))]
        if o == "attr" and f.args[0].op in ("ext",):
            return self.call_ext(st, cx, f.args[0].args[0] + "." + f.args[1], args, node)
        r = self.call_attr(st, cx, f, args, node)
        if r is not None:
            return r
        return self.ucall(st, cx, f, args, node)

    def pack_arg(self, a):
        if a[0] == "kw":
            return mk("kw", a[1], a[2])
        return mk(a[0], a[1])

    def ucall(self, st, cx, f, args, node, noraise=False, kind="call"):
        """call into opaque user code"""
        self.loc = (node._mod.path if getattr(node, "_mod", None) else "client", getattr(node, "lineno", 0))
        if f.op == "sym" and f.args[1] == "mark":
            # a point of the client program whose state is kept for the rules
            n = self.emit(st, "mark", name=f.args[0], args=tuple(a[-1] for a in args))
            self.marks.append((n, st.fork()))
            if f.args[0] == "OUT" and self.policy_flag("displays"):
                return [(a, NONE) for a in self.d_output(st, cx, node, args[0][-1] if args else NONE)]
            return [(st, NONE)]
        n = self.emit(st, "ucall", fn=f, args=tuple(self.pack_arg(a) for a in args), how=kind)
        name = f.args[1] if f.op == "attr" else ""
        out = []
        if self.policy.user_raises and not noraise and name not in self.policy.quiet_users:
            for k in ("Exception", "BaseException"):
                s = st.fork()
                e = mk("exc", self.tk(st, node, cx), k)
                self.purge(s, e)
                self.drop_of(s, e)
                self.emit(s, "uexc", fn=f, exc=e, call=n.id, args=n.data["args"])
                self.raise_(s, e)
        r = mk("res", self.tk(st, node, cx), f if f.op in ("attr", "sym") else mk("f"))
        self.purge(st, r)
        self.drop_of(st, r)
        self.emit(st, "uret", fn=f, val=r, call=n.id, args=n.data["args"])
        return [(st, r)]

    def drop_of(self, st, t):
        for k in [k for k in st.cells if k[0] == "of" and k[1] is t]:
            del st.cells[k]

    def bind(self, st, fn, fterm, fr, args, node, cx):
        """bind arguments into frame cells; None when impossible"""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        vals = {}
        posargs = []
        star = None
        kws = {}
        kwstar = None
        for x in args:
            if x[0] == "pos":
                if star is not None:
                    posargs.append(x[1])
                else:
                    posargs.append(x[1])
            elif x[0] == "star":
                star = x[1]
            elif x[0] == "kw":
                kws[x[1]] = x[2]
            else:
                kwstar = x[1]
        n = len(pos)
        for i, p in enumerate(pos):
            if i < len(posargs):
                vals[p] = posargs[i]
        extra = posargs[n:]
        if a.vararg:
            if star is not None:
                vals[a.vararg.arg] = mk("vtup", tuple(extra), star) if (extra or len(posargs) <= n) else tup(*extra)
            else:
                vals[a.vararg.arg] = tup(*extra)
        elif extra:
            return None
        if star is not None and not a.vararg:
            for i, p in enumerate(pos):
                if p not in vals and p not in kws:
                    vals[p] = mk("unpack", star, C(i - len(posargs)), C(n - len(posargs)))
        posonly = {x.arg for x in a.posonlyargs}
        rest = {}
        for k, v in kws.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in vals and k in pos:
                    return None
                vals[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                return None
        if a.kwarg:
            if kwstar is not None:
                vals[a.kwarg.arg] = mk("vkw", tuple(sorted(rest.items())) if rest else (), kwstar)
                if not rest:
                    vals[a.kwarg.arg] = kwstar if kwstar.op != "obj" else self.copy_container(st, kwstar, node, cx)
            else:
                d = mk("obj", "kwargs@" + self.site(node) + ":" + fn.qual, fr.id, st.loops)
                st.heap[d] = Rec("dict", None, None, None, tuple(Entry(C(k), v) for k, v in rest.items()))
                vals[a.kwarg.arg] = d
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (n - nd)
                if j >= 0:
                    vals[p] = st.cells.get(("d", fterm, "p", j), mk("unknown", "default"))
                elif kwstar is not None:
                    vals[p] = mk("dget", kwstar, C(p))
                else:
                    return None
        for i, p in enumerate(kwonly):
            if p not in vals:
                if a.kw_defaults[i] is not None:
                    vals[p] = st.cells.get(("d", fterm, "k", i), mk("unknown", "default"))
                elif kwstar is not None:
                    vals[p] = mk("dget", kwstar, C(p))
                else:
                    return None
        return vals

    def copy_container(self, st, v, node, cx):
        return v

    def call_fn(self, st, cx, f, args, node, cm=False):
        fn = self.fns[f.args[0]]
        self.analysed_fns.add(fn.fid)
        kind = self.policy.opaque.get(fn.qual)
        if kind is not None:
            if kind == "str":
                return [(st, mk("strof", fn.qual, tuple(a[-1] for a in args)))]
            return [(st, mk("opaque", kind, tuple(a[-1] for a in args), self.tk(st, node, cx)))]
        depth = sum(1 for x in st.frames if x[0] == fn.fid)
        hasint = any(a[0] == "pos" and is_const(a[1]) and type(cval(a[1])) is int for a in args)
        limit = 12 if hasint else self.policy.rec_depth
        if depth >= limit or len(st.frames) > 60:
            r = mk("rec", fn.qual, tuple(self.pack_arg(a) for a in args))
            self.emit(st, "reccall", fn=f, args=tuple(self.pack_arg(a) for a in args), val=r)
            return [(st, r)]
        fr = self.make_frame(cx.frame.id, node, fn, f.args[1])
        vals = self.bind(st, fn, f, fr, args, node, cx)
        if vals is None:
            return self.raise_ext(st, "builtins.TypeError", node, cx)
        # a fresh activation
        for k in [k for k in st.cells if k[0] == fr.id]:
            del st.cells[k]
        for p, v in vals.items():
            st.cells[(fr.id, p)] = v
        if fn.is_gen:
            return [(st, mk("cmgen" if cm else "gen", fn.fid, fr.id))]
        ncx = Cx(fr)
        caller_frames = st.frames
        st.frames = st.frames + ((fn.fid, fr.id, id(node)),)
        self.astnodes[id(node)] = node
        saved = self.loc
        self.emit(st, "enter", fn=f, fid=fn.fid, args=vals)
        if isinstance(fn.node, ast.Lambda):
            rets = self.ev(fn.node.body, st, ncx)
            o = None
            res = rets
        else:
            se = self.raises
            self.raises = []
            norm = self.block(fn.node.body, [st], ncx)
            rs = self.raises
            self.raises = se
            for a, e in rs:
                a.frames = caller_frames
                self.drop_frame(a, fr)
                self.raises.append((a, e))
            res = [(a, NONE) for a in norm] + ncx.ret
        self.loc = saved
        out = []
        for a, v in res:
            a.frames = caller_frames
            self.drop_frame(a, fr)
            out.append((a, v))
        tests = [(a, v) for a, v in out if v is TRUE or v is FALSE]
        if 1 < len(tests) <= 6 and not self.policy.concrete:
            # a predicate: what made it true matters to the caller
            return tests + self.merge([(a, v) for a, v in out if v is not TRUE and v is not FALSE], join_facts=True)
        return self.merge(out, join_facts=True)

    def drop_frame(self, st, fr):
        if fr.escapes and fr.fn is not None:
            cap = self.captured(fr.fn)
            for k in [k for k in st.cells if (k[0] == fr.id and k[1] not in cap) or (k[0] == "tmp" and k[1] == fr.id)]:
                del st.cells[k]
            return
        for k in [k for k in st.cells if k[0] == fr.id or (k[0] == "tmp" and k[1] == fr.id)]:
            del st.cells[k]

    def drop_iter(self, st, coll):
        """an iterator abandoned half-way: forget the generator's locals"""
        frs = {t.args[1] for t in subterms(coll) if t.op == "gexp"}
        if frs:
            for k in [k for k in st.cells if k[0] in frs or (k[0] == "tmp" and k[1] in frs)]:
                del st.cells[k]

    def captured(self, fn):
        """names of a function that nested scopes refer to"""
        c = self.fn_marks.get(fn.fid)
        if c is None:
            c = {".0"}
            for n in ast.walk(fn.node):
                if n is not fn.node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)):
                    for m in ast.walk(n):
                        if isinstance(m, ast.Name):
                            c.add(m.id)
                        elif isinstance(m, ast.Nonlocal):
                            c.update(m.names)
            self.fn_marks[fn.fid] = c
        return c

    def instantiate(self, st, cx, c, args, node):
        info = self.classes.get(c.args[0])
        if info is not None and self.policy.opaque.get(c.args[0].split(".")[-1]) == "exc":
            vals = [a[-1] for a in args]
            f = {"args": tup(*vals)}
            if vals:
                f["call"] = vals[0]
            o = self.new_obj(st, node, cx, Rec("inst", c, f), label=c.args[0].split(".")[-1])
            self.emit(st, "alloc", obj=o, cls=c, args=tuple(vals))
            return [(st, o)]
        if info is None:
            return [(st, mk("extcall", c, tuple(self.pack_arg(a) for a in args)))]
        new = self.class_lookup(c, "__new__")
        label = c.args[0].split(".")[-1]
        o = self.new_obj(st, node, cx, Rec("inst", c), label=label)
        self.emit(st, "alloc", obj=o, cls=c)
        if info.get("nt_fields") is not None:
            fields = {}
            names = info["nt_fields"]
            i = 0
            for a in args:
                if a[0] == "pos" and i < len(names):
                    fields[names[i]] = a[1]
                    i += 1
                elif a[0] == "kw":
                    fields[a[1]] = a[2]
            for n, d in info["annotated"]:
                if n not in fields and d is not None:
                    fields[n] = d
            st.heap[o] = Rec("inst", c, fields)
            return [(st, o)]
        init = self.class_lookup(c, "__init__")
        if init is None and any((self.classes.get(k.args[0]) or {}).get("dataclass") for k in self.mro(c) if k.op == "cls"):
            fields = {}
            ann = []
            for k in reversed(self.mro(c)):
                if k.op == "cls":
                    ann += [x for x in self.classes[k.args[0]]["annotated"] if x[0] not in [y[0] for y in ann]]
            names = [n for n, _ in ann]
            i = 0
            for a in args:
                if a[0] == "pos" and i < len(names):
                    fields[names[i]] = a[1]
                    i += 1
                elif a[0] == "kw":
                    fields[a[1]] = a[2]
            for n, d in ann:
                if n not in fields and d is not None:
                    if d.op == "extcall" and d.args[0].op == "ext" and d.args[0].args[0] == "dataclasses.field":
                        for a in d.args[1]:
                            if a.op == "kw" and a.args[0] == "default":
                                d = a.args[1]
                            elif a.op == "kw" and a.args[0] == "default_factory":
                                rs = self.call(st, cx, a.args[1], [], node)
                                d = rs[0][1]
                    fields[n] = d
            st.heap[o] = Rec("inst", c, fields)
            init = self.class_lookup(c, "__post_init__")
            if init is None:
                return [(st, o)]
            args = []
        if init is not None:
            self.hold(st, cx, node, "new", o)
            out = self.call(st, cx, mk("bm", init, o), args, node)
            for a, _ in out:
                a.cells.pop(("tmp", cx.frame.id, id(node), "new"), None)
            return [(a, o) for a, _ in out]
        eb = self.ext_bases(c)
        kind = {"builtins.list": "list", "builtins.set": "set", "builtins.dict": "dict", "builtins.frozenset": "set", "collections.deque": "deque"}.get(eb[0].args[0]) if eb else None
        if kind and new is None and len(args) <= 1 and all(a[0] == "pos" for a in args) and not any(v.op in ("fn", "prop", "static", "cmfn") for k in self.mro(c) if k.op == "cls" for v in self.classes[k.args[0]]["attrs"].values()):
            # a container of another type
            out = self.to_container(st, cx, args[0][1], kind, node) if args else [(st, self.new_obj(st, node, cx, Rec(kind), extra=":" + kind))]
            for a, x in out:
                r = a.heap.get(x) or self.rec(a, x)
                a.heap[x] = Rec(r.kind, c, r.fields, r.base, r.entries, r.mark)
            return out
        if eb and eb[0].args[0] == "builtins.tuple" and new is None and len(args) == 1 and args[0][0] == "pos":
            seq = self.definite_seq(st, args[0][1])
            if seq is not None:
                r = self.rec(st, o)
                st.heap[o] = Rec(r.kind, r.cls, {**r.fields, "$data": tup(*seq)}, r.base, r.entries, r.mark)
                return [(st, o)]
        if eb:
            return [(a, o) for a, _ in self.call_extm(st, cx, eb[0].args[0] + ".__init__", o, args, node)]
        return [(st, o)]

    # ------------------------------------------------------------------ driver
    def analyse(self, client_src, env, passes=4, threads=True):
        """interpret the client program; returns Result"""
        tree = ast.parse(client_src)

        class M:
            name = "client"
            path = "client"
            is_pkg = False

        from .loader import annotate

        m = M()
        m.tree = tree
        annotate(m)
        self.repo.modules.setdefault("client", m)
        self.repo.modules["client"] = m
        for p in range(passes):
            if self.policy.trace:
                print("pass", p, time.time())
            self.nodes = self.nodes[: self.base_node_count]
            self.threads = []
            self.thread_keys = {}
            self.marks = []
            self.iter_ends = []
            self.made = {}
            self.sym_models = env
            self.root = "main"
            self.frames.pop("m:client", None)
            f = self.mod_frame("client")
            f.mod = m
            st = self.base.fork()
            st.node = None
            self.emit(st, "root", name="main")
            st.flags = frozenset()
            cx = Cx(f)
            self.raises = []
            outs = self.block(tree.body, [st], cx)
            ends = []
            for s in outs:
                self.root = "main"
                self.emit(s, "end", how="norm")
                ends.append(s)
            for s, e in self.raises:
                self.emit(s, "end", how="raise", exc=e)
            self.raises = []
            i = 0
            while threads and i < len(self.threads):
                self.run_thread(self.threads[i])
                i += 1
            filled = len(self.filled)
            s_main, s_thr, may = self.compute_shared()
            stable = len(self.filled) == filled and s_main <= self.shared_main and s_thr <= self.shared_thr and {k: set(v) for k, v in may.items()} == {
                k: set(v) for k, v in self.mayvals.items()
            }
            self.shared_main |= s_main
            self.shared_thr |= s_thr
            self.mayvals = may
            if stable:
                break
        return Result(self)

    def run_thread(self, t):
        self.root = t["name"]
        st = t["state"].fork()
        st.loops = t["loops"]
        st.locks = ()
        st.frames = ()
        st.exc = ()
        st.pending = ()
        st.flags = frozenset({"thread"})
        st.node = None
        self.emit(st, "root", name=t["name"], thread=t["obj"])
        t["entry"] = st.node
        f = self.mod_frame("client")
        cx = Cx(f)
        node = t["node"]
        fr = self.sub_frame(cx, node, set())
        cx = Cx(fr)
        self.raises = []
        for a, v in self.call(st, cx, t["target"], t["args"], node):
            self.emit(a, "end", how="norm")
        for a, e in self.raises:
            self.emit(a, "end", how="raise", exc=e)
        self.raises = []

    def compute_shared(self):
        """locations written by threads, or by main after a thread was started"""
        shared = set()
        may = {}
        started = False
        thread_alloc = set()
        after = set()
        # main nodes reachable after the first thread_start
        succ = {}
        for n in self.nodes[self.base_node_count:]:
            for p in n.preds:
                succ.setdefault(p, []).append(n.id)
        seen = set()
        work = [n.id for n in self.nodes[self.base_node_count:] if n.kind == "thread_start"]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += succ.get(x, [])
        allocs = {}
        for n in self.nodes[self.base_node_count:]:
            if n.kind in ("setcell", "setattr", "mut", "setitem"):
                loc = n.data.get("loc")
                if loc is None:
                    continue
                inthread = n.root != "main"
                if inthread and not self.thread_local(loc, n):
                    shared.add(loc)
                if n.kind == "mut" and (inthread or n.id in seen) and not (n.data["op"] in ("delitem", "pop", "popitem", "clear", "discard", "remove") or n.data["op"] == "setitem" and len(n.data["args"]) > 1 and n.data["args"][1] is NONE):
                    self.filled.add(loc)
                if n.kind in ("setcell", "setattr"):
                    may.setdefault(loc, [])
                    if n.data["val"] not in may[loc]:
                        may[loc].append(n.data["val"])
        inthr = set(shared)
        # main writes after start to locations that threads read are shared too
        for n in self.nodes[self.base_node_count:]:
            if n.root == "main" and n.id in seen and n.kind in ("setcell", "setattr", "mut", "setitem"):
                loc = n.data.get("loc")
                if loc is not None and loc not in shared and self.loc_exists_at_start(loc) and n.id in self.after_start(n.data.get("obj"), succ, seen):
                    shared.add(loc)
        return inthr, shared, {k: v for k, v in may.items() if k in shared or k in self.shared_thr}

    def after_start(self, o, succ, seen):
        """main nodes reachable from a thread start without passing the allocation of o"""
        al = {n.id for n in self.nodes[self.base_node_count:] if n.kind == "alloc" and n.root == "main" and n.data["obj"] is o} if o is not None else None
        if o is not None and not al:
            al = self.made.get(o)  # the event before its creation
        if not al:
            return seen
        out = set()
        work = [n.id for n in self.nodes[self.base_node_count:] if n.kind == "thread_start"]
        while work:
            x = work.pop()
            if x in out or x in al:
                continue
            out.add(x)
            work += succ.get(x, [])
        return out

    def thread_local(self, loc, n):
        """location belongs to a frame/object created inside the thread root"""
        k, o, f = loc.args
        t = next((t for t in self.threads if t["name"] == n.root), None)
        if t is None:
            return False
        if k == "v":
            # cell: shared iff the cell exists in the start snapshot
            return (o, f) not in t["state"].cells
        if type(o) is T and o.op == "objsite":
            return not any(x.args[0] == o.args[0] and x.args[1] == o.args[1] for x in t["state"].heap)
        return False

    def loc_exists_at_start(self, loc):
        k, o, f = loc.args
        for t in self.threads:
            st = t["state"]
            if k == "v":
                if (o, f) in st.cells and self.cell_captured(t, o):
                    return True
            elif type(o) is T and o.op == "objsite":
                if any(x.args[0] == o.args[0] and x.args[1] == o.args[1] for x in st.heap):
                    return True
        return False

    def cell_captured(self, t, frame):
        fr = self.frames.get(frame)
        return fr is not None and fr.escapes and not isinstance(frame, str)


class Result:
    def __init__(self, it):
        self.it = it
        self.nodes = it.nodes
        self.base = it.base_node_count
        self.threads = it.threads
        self.succ = {}
        for n in self.nodes[self.base:]:
            for p in n.preds:
                self.succ.setdefault(p, []).append(n.id)

    def events(self, kind=None, root=None, **kw):
        for n in self.nodes[self.base:]:
            if kind is not None and n.kind != kind and not (type(kind) is tuple and n.kind in kind):
                continue
            if root is not None and n.root != root:
                continue
            if all(n.data.get(k) == v for k, v in kw.items()):
                yield n
