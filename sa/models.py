"""Models of the standard library used by the analysed code."""
import ast
import builtins as _pb

from .containers import Containers
from .core import CONTAINERS, Entry, Rec, rigid
from .displays import Displays
from .files import Files
from .graphs import GRAPH_CLASSES, Graphs, QUEUES
from .terms import B, C, FALSE, NONE, T, TRUE, cval, is_const, mk, subst, tup

DT_METHODS = ("astimezone", "timestamp", "utcoffset", "isoformat", "strftime", "date", "time", "timetuple", "utctimetuple", "dst", "tzname", "toordinal", "weekday")
STR_METHODS = (
    "join", "rjust", "ljust", "center", "format", "startswith", "endswith", "strip", "rstrip", "lstrip", "split",
    "rsplit", "lower", "upper", "title", "splitlines", "partition", "rpartition", "zfill", "encode", "decode",
    "removesuffix", "removeprefix", "count", "find", "replace", "isidentifier", "capitalize", "translate", "expandtabs",
)


def call_line(n):
    """the line a frame is at while it makes the call"""
    f = getattr(n, "func", None)
    if type(f) is ast.Attribute and f.end_lineno is not None:
        return f.end_lineno
    return getattr(n, "lineno", 0)


class Models(Containers, Graphs, Files, Displays):
    # ------------------------------------------------------------------ naming
    CANON = {
        "networkx.classes.multidigraph.MultiDiGraph": "networkx.MultiDiGraph",
        "networkx.classes.digraph.DiGraph": "networkx.DiGraph",
        "posixpath": "os.path",
        "pathlib.PurePath": "pathlib.Path",
        "builtins.IOError": "builtins.OSError",
        "builtins.EnvironmentError": "builtins.OSError",
        "_thread.allocate_lock": "threading.Lock",
        "collections.abc.Callable": "typing.Callable",
    }

    def canon(self, dotted):
        return self.CANON.get(dotted, dotted)

    def ext_attr(self, v, name):
        d = v.args[0]
        if name in ("__name__", "__qualname__"):
            return C(d.split(".")[-1])
        if name == "__module__":
            return C(d.rsplit(".", 1)[0])
        full = self.canon(d + "." + name)
        if full == "os.name":
            return C("posix")
        if full in ("math.inf",):
            return mk("ext", full)
        return mk("ext", full)

    def ext_getattr(self, st, cx, v, r, name, node):
        k = r.kind
        if k == "graph":
            if name in r.fields and name not in ("of",):
                return [(st, r.fields[name])]
            return [(st, self.graph_attr(st, v, name))]
        if name in r.fields:
            return [(st, r.fields[name])]
        return [(st, mk("extm", k + "." + name, v))]

    def ext_inst_attr(self, st, cx, base, v, name, node):
        """attribute of an instance of an external class"""
        if base == "threading.Thread" and name in ("ident", "native_id"):
            return [(st, mk("ident", v))]
        if base == "threading.Thread" and name in ("name", "daemon"):
            return [(st, mk("attr", v, name))]
        if base in QUEUES and name in ("queue", "unfinished_tasks", "mutex", "maxsize", "not_empty", "all_tasks_done"):
            return [(st, mk("attr", v, name))]
        if base.startswith("builtins.") and isinstance(getattr(_pb, base[9:], None), type) and issubclass(getattr(_pb, base[9:]), BaseException):
            if name in ("args", "__cause__", "__context__", "__traceback__", "__suppress_context__", "errno", "filename", "strerror"):
                r = self.rec(st, v)
                if r is not None and name in r.fields:
                    return [(st, r.fields[name])]
                if name in ("__cause__", "__context__"):
                    return [(st, NONE)]
                return [(st, mk("attr", v, name))]
            if name == "with_traceback":
                return [(st, mk("extm", "builtins.exc.with_traceback", v))]
        if base.startswith("builtins.") and name in ("args",):
            return [(st, mk("attr", v, name))]
        return [(st, mk("extm", base + "." + name, v))]

    def real_frames(self, st, node):
        """(name, path, line, first line) of the active functions, outermost first"""
        calls = [self.astnodes[x[2]] for x in st.frames] + [node]
        out = [("<module>", "client", call_line(calls[0]), 1)]
        for x, c in zip(st.frames, calls[1:]):
            if type(x[0]) is int:
                f = self.fns[x[0]]
                out.append((getattr(f.node, "name", "<lambda>"), f.mod.path if f.mod else "client", call_line(c), f.node.lineno))
            else:
                n = self.astnodes.get(x[0][1])
                m = getattr(n, "_mod", None)
                out.append(("<genexpr>", m.path if m else "client", call_line(c), getattr(n, "lineno", 1)))
        return tuple(out)

    def pyframe_attr(self, st, v, name):
        fr = v.args[0]
        if len(v.args) == 2 and v.args[1] == "real":
            n, p, l, first = fr[-1]
            if name == "f_back":
                return [(st, mk("pyframe", fr[:-1], "real") if len(fr) > 1 else NONE)]
            if name == "f_lineno":
                return [(st, C(l))]
            if name == "f_code":
                return [(st, mk("pycode", n, p, first))]
            if name == "f_globals":
                return [(st, mk("pyglobals", fr[-1][1]))]
            return [(st, mk("attr", v, name))]
        if name == "f_back":
            if fr == "user":
                return [(st, mk("pyframe", "user", v.args[1] + 1))]
            if not fr:
                return [(st, mk("pyframe", "user", 1))]
            return [(st, mk("pyframe", fr[:-1]))]
        return [(st, mk("attr", v, name))]

    # ------------------------------------------------------------------ decorators
    def decorate(self, st, cx, dv, f, node):
        if dv.op == "ext":
            d = dv.args[0]
            s = d.split(".")[-1]
            if d == "contextlib.contextmanager":
                return [(st, mk("cmfn", f))]
            if d in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
                return [(st, mk("prop", f))]
            if d == "builtins.staticmethod":
                return [(st, mk("static", f))]
            if d == "builtins.classmethod":
                return [(st, mk("clsm", f))]
            if d in ("functools.lru_cache", "functools.cache"):
                return [(st, mk("cached", f))]
            return [(st, f)]
        if dv.op == "deco":
            k = dv.args[0]
            if k == "lru_cache":
                return [(st, mk("cached", f))]
            return [(st, f)]
        if dv.op == "attr" and dv.args[1] in ("setter", "getter", "deleter"):
            return [(st, dv.args[0])]
        if dv.op in ("fn", "bm", "cls", "partial", "cached"):
            return self.call(st, cx, dv, [("pos", f)], node)
        return [(st, f)]

    # ------------------------------------------------------------------ exceptions
    def is_exc_name(self, d):
        if d.startswith("builtins."):
            x = getattr(_pb, d[9:], None)
            return isinstance(x, type) and issubclass(x, BaseException)
        s = d.split(".")[-1]
        return s.endswith(("Error", "Exception", "Cycle", "Unfeasible", "Warning")) or d in ("queue.Empty", "queue.Full")

    def new_exc(self, st, cx, d, args, node):
        f = {"args": tup(*self.pos(args))}
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", d), f), label=d.split(".")[-1])
        return [(st, o)]

    # ------------------------------------------------------------------ calls
    def call_ext(self, st, cx, d, args, node):
        d = self.canon(d)
        m = getattr(self, "x_" + d.replace(".", "_"), None)
        if m is not None:
            return m(st, cx, args, node)
        if d.startswith("networkx."):
            return self.nx_call(st, cx, d, args, node)
        if self.is_exc_name(d):
            return self.new_exc(st, cx, d, args, node)
        if d in QUEUES:
            o = self.new_obj(st, node, cx, Rec("inst", mk("ext", d)), label="queue")
            return [(st, o)]
        if d.startswith("ipywidgets.") and self.policy_flag("displays"):
            return self.d_widget(st, cx, d, args, node)
        if self.policy_flag("displays") and d in ("IPython.display.display", "IPython.core.display_functions.display"):
            k = ("m:client", "displayed")
            st.cells[k] = tup(*st.cells.get(k, tup()).args, *self.pos(args))
            self.emit(st, "extcall", name=d, args=tuple(self.pack_arg(a) for a in args))
            return [(st, NONE)]
        if self.policy_flag("displays") and d in ("sys.stdout.write", "sys.__stdout__.write"):
            return self.x_builtins_print(st, cx, [*args, ("kw", C("end"), C(""))], node)
        r = self.file_call(st, cx, d, args, node)
        if r is not None:
            return r
        p = self.pos(args)
        # unbound method call: list.append(x, y), queue.Queue.__init__(self)
        if "." in d and p and p[0].op == "obj":
            base, name = d.rsplit(".", 1)
            rr = self.rec(st, p[0])
            if rr is not None:
                if rr.kind in CONTAINERS and base in ("builtins." + rr.kind, "collections.deque", "collections.Counter"):
                    return self.container_method(st, cx, rr.kind, name, p[0], args[1:], node)
                if rr.kind == "inst" and base in QUEUES:
                    return self.queue_method(st, cx, base, name, p[0], args[1:], node)
                if rr.kind == "inst" and base == "threading.Thread":
                    return self.thread_method(st, cx, name, p[0], args[1:], node)
                if rr.kind == "graph" and base in GRAPH_CLASSES:
                    return self.graph_method(st, cx, name, p[0], args[1:], node)
        if d.startswith("builtins.str.") and p:
            return self.str_method(st, cx, name_of(d), p[0], args[1:], node)
        self.emit(st, "extcall", name=d, args=tuple(self.pack_arg(a) for a in args))
        return [(st, mk("extcall", mk("ext", d), tuple(self.pack_arg(a) for a in args)))]

    def call_extm(self, st, cx, name, o, args, node):
        base, meth = name.rsplit(".", 1)
        if base in CONTAINERS:
            return self.container_method(st, cx, base, meth, o, args, node)
        if base == "graph":
            return self.graph_method(st, cx, meth, o, args, node)
        if base == "lock" or base == "cond":
            return self.lock_method(st, cx, meth, o, args, node)
        if base in QUEUES:
            return self.queue_method(st, cx, base, meth, o, args, node)
        if base == "threading.Thread":
            return self.thread_method(st, cx, meth, o, args, node)
        if base == "view":
            return self.view_method(st, cx, meth, o, args, node)
        if base == "dview":
            if meth in ("__iter__",):
                return [(st, o)]
            return self.setop(st, cx, meth, o, self.pos(args), node)
        if base == "str":
            return self.str_method(st, cx, meth, o, args, node)
        if base == "tuple":
            return [(st, mk("int", meth, o, *self.pos(args)))]
        if base == "threading.Event":
            return self.event_method(st, cx, meth, o, args, node)
        if base == "contextlib.ExitStack":
            return self.exitstack_method(st, cx, meth, o, args, node)
        if base in ("bytes", "int", "float", "bool"):
            if base == "bytes" and meth == "decode":
                return [(st, mk("decode", o, *self.pos(args)))]
            return [(st, mk("extcall", mk("ext", name), (o, *self.pos(args))))]
        if base == "builtins.exc":
            if meth == "with_traceback":
                self.set_exc_field(st, o, "__traceback__", self.pos(args)[0])
                return [(st, o)]
        if base == "builtins.object":
            if meth == "__setattr__":
                p = self.pos(args)
                if is_const(p[0]):
                    self.setattr(st, cx, o, cval(p[0]), p[1], node)
                return [(st, NONE)]
            if meth == "__new__":
                p = self.pos(args)
                c = p[0] if p else o
                if c.op == "cls":
                    n = self.new_obj(st, node, cx, Rec("inst", c), label=c.args[0].split(".")[-1])
                    self.emit(st, "alloc", obj=n, cls=c)
                    return [(st, n)]
            return [(st, NONE)]
        if meth == "__init__":
            r = self.rec(st, o) if o.op == "obj" else None
            if r is not None and r.kind == "inst":
                if self.is_exc_name(base) or base.startswith("builtins."):
                    p = self.pos(args)
                    st.heap[o] = r.setf("args", tup(*p))
                if base == "threading.Thread":
                    self.thread_init(st, o, args)
            return [(st, NONE)]
        if meth == "__new__":
            return self.call_extm(st, cx, "builtins.object.__new__", o, args, node)
        r = self.file_method(st, cx, base, meth, o, args, node)
        if r is not None:
            return r
        if meth in ("__repr__", "__str__"):
            return [(st, mk("cat", mk("repr", o)))]
        self.emit(st, "extcall", name=name, args=(o, *[self.pack_arg(a) for a in args]))
        return [(st, mk("extcall", mk("ext", name), (o, *[self.pack_arg(a) for a in args])))]

    def call_attr(self, st, cx, f, args, node):
        """call of an opaque value; None when it is genuinely opaque user code"""
        if f.op == "view":
            return self.view_call(st, cx, f, args, node)
        if f.op == "deco":
            return self.decorate(st, cx, f, self.pos(args)[0], node)
        if f.op == "itemgetter":
            x = self.pos(args)[0]
            res = [(st, [])]
            for k in f.args:
                res = [(b, vs + [v]) for a, vs in res for b, v in self.getitem(a, cx, x, k, node)]
            return [(a, vs[0] if len(vs) == 1 else tup(*vs)) for a, vs in res]
        if f.op == "attrgetter":
            x = self.pos(args)[0]
            cur = [(st, x)]
            for part in cval(f.args[0]).split("."):
                cur = [q for a, v in cur for q in self.getattr(a, cx, v, part, node)]
            return cur
        if f.op == "methodcaller":
            x = self.pos(args)[0]
            return [q for a, m in self.getattr(st, cx, x, cval(f.args[0]), node) for q in self.call(a, cx, m, list(f.args[1]), node)]
        if f.op == "undef" or f is NONE:
            return self.raise_ext(st, "builtins.TypeError" if f is NONE else "builtins.NameError", node, cx)
        if f.op == "reprfn":
            return [(st, mk("cat", mk("repr", self.pos(args)[0])))]
        if f.op == "attr":
            v, name = f.args
            p = self.pos(args)
            if v.op == "extcall" and v.args[0].op == "ext" and v.args[0].args[0].startswith(("inspect.", "reprlib.")):
                if name == "bind":
                    out = [(st, mk("boundargs", v))]
                    s2 = st.fork()
                    self.raise_ext(s2, "builtins.TypeError", node, cx)
                    return out
                if name == "repr":
                    return [(st, mk("cat", mk("repr", p[0])))]
            if name == "bind" or name == "bind_partial":
                s2 = st.fork()
                self.raise_ext(s2, "builtins.TypeError", node, cx)
                return [(st, mk("boundargs", v))]
            if name == "astimezone":
                return self.dt_astimezone(st, cx, v, args, node)
            if name == "replace" and self.kws(args) and not p:
                kw = self.kws(args)
                t = mk("dtreplace", v, tuple(sorted(((k, x) for k, x in kw.items()), key=lambda z: z[0])))
                self.emit(st, "dtop", how="replace", val=v, res=t)
                return [(st, t)]
            if name in ("timestamp", "utcoffset", "toordinal", "date", "time", "timetuple", "utctimetuple") and not p:
                t = mk("dt_" + name, v)
                self.emit(st, "dtop", how=name, val=v, res=t)
                return [(st, t)]
            if name in ("isoformat", "strftime") and v.op != "sym":
                return [(st, mk("cat", mk("fmt", v)))]
            if v.op in ("extcall", "dtreplace", "astz", "fmt", "subs", "repr", "item_", "res_str") and name in STR_METHODS:
                return self.str_method(st, cx, name, v, args, node)
            if v.op == "sym" and v.args[1] in ("str",) and name in STR_METHODS:
                return self.str_method(st, cx, name, v, args, node)
            if name in ("rjust", "ljust", "splitlines", "startswith", "endswith", "removesuffix", "zfill") or (name in ("encode", "decode") and v.op != "res"):
                return self.str_method(st, cx, name, v, args, node)
            if v.op in ("item_", "dget", "unpack", "load", "phi", "pop", "data", "edgedata", "slice_", "sccs", "attr", "elem", "dval", "dkey", "boundargs", "extcall"):
                if v.op in ("load", "phi", "item_", "dget"):
                    pass
                if name in ("items", "keys", "values") and not args:
                    return [(st, mk({"items": "ditems", "keys": "dkeys", "values": "dvals"}[name], v))]
                if name in ("append", "add", "appendleft", "extend", "update", "discard", "remove", "clear", "insert", "pop", "popleft", "setdefault", "popitem", "sort") and v.op in ("load", "phi", "item_", "dget", "unpack", "data", "pop", "dval") or (v.op == "attr" and v.args[1] in ("queue",)):
                    vals = [x for x in (self.mayvals.get(self.genloc(v.args[0])) or [])] if v.op == "load" else list(v.args) if v.op == "phi" else []
                    vals = [x for x in vals if type(x) is T and self.crec(st, x) is not None]
                    if vals:
                        out = []
                        for i, x in enumerate(vals):
                            s = st.fork() if i + 1 < len(vals) else st
                            out += self.container_method(s, cx, self.crec(s, x).kind, name, x, args, node)
                        return out
                    self.emit(st, "mut", obj=v, op=name, args=tuple(p), loc=mk("loc", "c", v, ""), shared=False)
                    if name in ("pop", "popleft", "setdefault", "popitem"):
                        return [(st, mk("pop", v, self.tk(st, node, cx)))]
                    return [(st, NONE)]
                if name == "get" and p:
                    return [(st, mk("dget", v, p[0]))]
            if v.op == "extcall" or v.op == "ext":
                self.emit(st, "extcall", name=str(v) + "." + name, args=tuple(self.pack_arg(a) for a in args))
                return [(st, mk("extcall", f, tuple(self.pack_arg(a) for a in args)))]
            r = self.file_attr_call(st, cx, v, name, args, node)
            if r is not None:
                return r
        if f.op == "extcall":
            self.emit(st, "extcall", name=str(f), args=tuple(self.pack_arg(a) for a in args))
            return [(st, mk("extcall", f, tuple(self.pack_arg(a) for a in args)))]
        if f.op == "type":
            return [(st, mk("app", "new", f.args[0], *self.pos(args)))]
        return None

    # ------------------------------------------------------------------ datetimes
    def dt_astimezone(self, st, cx, v, args, node):
        p = self.pos(args)
        tz = p[0] if p else self.kws(args).get("tz", NONE)
        t = mk("astz", v, tz)
        self.emit(st, "dtop", how="astimezone", val=v, tz=tz, res=t)
        for k in ("OverflowError", "ValueError"):
            s2 = st.fork()
            e = mk("exc", self.tk(s2, node, cx), k)
            self.emit(s2, "dtovf", val=v, exc=e)
            self.raise_(s2, e)
        return [(st, t)]

    def x_datetime_datetime_fromtimestamp(self, st, cx, args, node):
        p = self.pos(args)
        tz = p[1] if len(p) > 1 else self.kws(args).get("tz", NONE)
        return [(st, mk("dtfromts", p[0], tz))]

    def x_datetime_datetime_utcfromtimestamp(self, st, cx, args, node):
        return [(st, mk("dtutcfromts", self.pos(args)[0]))]

    def x_datetime_datetime_utcnow(self, st, cx, args, node):
        return [(st, mk("dtnow", "utc", self.tk(st, node, cx)))]

    def x_datetime_datetime_now(self, st, cx, args, node):
        return [(st, mk("dtnow", "local", self.tk(st, node, cx)))]

    def x_time_sleep(self, st, cx, args, node):
        if self.policy_flag("displays"):
            return [(a, NONE) for a, _ in self.d_call(st, cx, "step", node)]
        self.emit(st, "extcall", name="time.sleep", args=tuple(self.pack_arg(a) for a in args))
        return [(st, NONE)]

    def x_time_time(self, st, cx, args, node):
        if self.policy_flag("displays"):
            t = self.d_clock(st)
            if t is not None:
                return [(st, t)]
        t = mk("time", self.tk(st, node, cx))
        self.emit(st, "time", val=t)
        return [(st, t)]

    def x_time_monotonic(self, st, cx, args, node):
        if self.policy_flag("displays") and self.d_clock(st) is not None:
            # another origin than time.time()
            return [(st, mk("add", self.d_clock(st), mk("sym", "MONO", "float")))]
        return self.x_time_time(st, cx, args, node)

    x_time_perf_counter = x_time_monotonic

    # ------------------------------------------------------------------ strings
    def str_method(self, st, cx, name, o, args, node):
        p = self.pos(args)
        kw = self.kws(args)
        if is_const(o) and all(is_const(x) for x in p) and not kw and name not in ("format",):
            try:
                r = getattr(cval(o), name)(*[cval(x) for x in p])
                if type(r) in (str, bool, int, bytes):
                    return [(st, C(r))]
            except Exception:
                pass
        if name == "format":
            if self.policy_flag("displays"):
                return self.d_strformat(st, cx, o, args, node)
            return self.str_format(st, o, args)
        if name == "join":
            out = []
            coll = p[0]
            for a, c in (self.to_container(st, cx, coll, "list", node) if coll.op in ("gen", "gexp", "map", "filter") else [(st, coll)]):
                seq = self.definite_seq(a, c)
                if seq is not None and self.policy_flag("displays") and any(self.hashable(a, x) or is_const(x) and x.args[0] != "str" for x in seq):
                    out += self.d_fail(a, cx, "TypeError", "join() of values that are not str", tup(*seq), node)
                elif seq is not None:
                    vs = []
                    for i, x in enumerate(seq):
                        if i:
                            vs.append(o)
                        vs.append(x)
                    out.append((a, self.cat(vs)))
                else:
                    r = self.crec(a, c)
                    ents = tuple(e.val for e in r.entries if e.val is not None) if r is not None else ()
                    out.append((a, mk("cat", mk("joined", o, c, *ents))))
            return out
        if name in ("startswith", "endswith", "isidentifier", "isdigit"):
            return [(st, mk("truthy", mk(name, o, *p)))]
        if name == "encode":
            enc = p[0] if p else kw.get("encoding", C("utf-8"))
            err = p[1] if len(p) > 1 else kw.get("errors", C("strict"))
            t = mk("encode", o, enc, err)
            self.emit(st, "encode", val=o, enc=enc, errors=err)
            if self.policy_flag("risk") and not (is_const(err) and cval(err) in ("replace", "ignore", "backslashreplace", "xmlcharrefreplace", "surrogatepass", "namereplace")):
                s2 = st.fork()
                e = mk("exc", self.tk(s2, node, cx), "UnicodeEncodeError")
                self.emit(s2, "risk", how="encode", val=o)
                self.raise_(s2, e)
            return [(st, t)]
        if name == "decode":
            enc = p[0] if p else self.kws(args).get("encoding", C("utf-8"))
            err = p[1] if len(p) > 1 else self.kws(args).get("errors", C("strict"))
            return [(st, mk("cat", mk("decode", o, enc, err)))]
        if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            return [(st, mk("item_", mk("strcall", name, o, tuple(p)), NONE))]
        if name in ("count", "find", "index"):
            return [(st, mk("int", name, o, *p))]
        return [(st, mk("cat", mk("strcall", name, o, tuple(p))))]

    def str_format(self, st, o, args):
        vs = [o]
        for a in args:
            v = a[-1]
            self.emit(st, "str", val=v, how="format")
            vs.append(v)
        if is_const(o) and all(a[0] == "pos" for a in args):
            parts = []
            rest = cval(o)
            i = 0
            pos = [a[1] for a in args]
            while True:
                j = rest.find("{}")
                if j < 0 or i >= len(pos):
                    break
                parts.append(C(rest[:j]))
                parts.append(pos[i])
                i += 1
                rest = rest[j + 2:]
            parts.append(C(rest))
            if i == len(pos) and "{" not in rest:
                return [(st, self.cat(parts))]
        return [(st, mk("cat", mk("formatted", *vs)))]

    # ------------------------------------------------------------------ views
    def view_method(self, st, cx, name, v, args, node):
        p = self.pos(args)
        if v.args[0] == "range":
            return [(st, mk("int", name, v, *p))]
        if name in ("items",):
            k = v.args[0]
            if k in ("preds", "succs"):
                return [(st, mk("ditems", v))]
            return [(st, mk("view", "nodesdata", v.args[1]))] if k == "nodes" else [(st, mk("ditems", v))]
        if name in ("keys", "__iter__"):
            return [(st, v)]
        if name == "get" and v.args[0] in ("predmap", "succmap"):
            return self.view_item(st, v, p[0])
        if name == "__len__":
            return [(st, mk("len", v))]
        if name == "__contains__":
            return [(a, B(t)) for a, t in self.contains(st, cx, v, p[0], node)]
        if name == "data":
            return [(st, mk("view", "nodesdata", v.args[1]))]
        if name in ("union", "difference", "intersection"):
            return self.setop(st, cx, name, v, p, node)
        return [(st, mk("extcall", mk("ext", "view." + name), (v, *p)))]

    # ------------------------------------------------------------------ binary operators
    def binop(self, st, cx, op, l, r, node, inplace=False):
        n = type(op).__name__
        if self.policy_flag("displays"):
            x = self.d_binop(st, cx, n, l, r, node)
            if x is not None:
                return x
        if is_const(l) and is_const(r):
            try:
                a, b = cval(l), cval(r)
                f = {
                    "Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b,
                    "Mod": lambda: a % b, "Div": lambda: a / b, "Pow": lambda: a ** b if abs(b) < 64 else None, "BitOr": lambda: a | b,
                    "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b if b < 64 else None, "RShift": lambda: a >> b,
                }[n]
                x = f()
                if type(x) in (int, str, float, bytes, bool):
                    return [(st, C(x))]
            except Exception:
                if n in ("Div", "FloorDiv", "Mod") and type(cval(r)) in (int, float) and cval(r) == 0:
                    return self.raise_ext(st, "builtins.ZeroDivisionError", node, cx)
        lr, rr = self.crec(st, l), self.crec(st, r)
        if n == "Add":
            if l.op in ("cat",) or r.op in ("cat",) or (is_const(l) and l.args[0] == "str") or (is_const(r) and r.args[0] == "str"):
                return [(st, self.cat([l, r]))]
            if l.op == "tup" and r.op == "tup":
                return [(st, tup(*l.args, *r.args))]
            if l.op == "tup" and r.op in ("vtup",):
                return [(st, mk("vtup", l.args + r.args[0], r.args[1]))]
            if l.op in ("vtup", "tup", "attr", "spread") and r.op in ("tup", "vtup", "attr", "spread") and (l.op != "attr" or r.op != "attr"):
                if l.op == "tup" and not l.args:
                    return [(st, r)]
                if r.op == "tup" and not r.args:
                    return [(st, l)]
                return [(st, mk("spread", (), (mk("star", l), mk("star", r))))]
            if lr is not None and lr.kind == "list":
                if inplace:
                    self.mutated(st, l, node, cx, "extend", (r,))
                    if self.is_shared_container(l):
                        return [(st, l)]
                    return [(a, l) for a in self.extend(st, cx, l, r, node)]
                out = []
                for a, o in self.to_container(st, cx, l, "list", node):
                    out += [(b, o) for b in self.extend(a, cx, o, r, node)]
                return out
            return [(st, mk("add", l, r))]
        if n in ("BitOr", "BitAnd", "BitXor", "Sub") and (lr is not None and lr.kind in ("set", "dict", "counter") or l.op in ("view", "dkeys", "setop") or rr is not None and rr.kind in ("set", "dict")):
            name = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}[n]
            if inplace and lr is not None:
                self.mutated(st, l, node, cx, {"union": "extend"}.get(name, name + "_update"), (r,))
                if self.is_shared_container(l):
                    return [(st, l)]
                if name == "union":
                    if lr.kind == "dict":
                        return [(a, l) for a in self.dict_update(st, cx, l, r, node)]
                    return [(a, l) for a in self.extend(st, cx, l, r, node)]
                if self.policy_flag("concrete") and lr.kind == "set":
                    x, y = self.exact_set(st, l), self.exact_set(st, r)
                    if x is not None and y is not None:
                        st.heap[l] = (st.heap.get(l) or lr).with_entries(tuple(Entry(None, v) for v in self.exact_op(name, x, y)))
                        return [(st, l)]
                self.weaken(st, l)
                return [(st, l)]
            if name == "union" and lr is not None:
                out = []
                for a, o in self.to_container(st, cx, l, lr.kind, node):
                    if lr.kind == "dict":
                        out += [(b, o) for b in self.dict_update(a, cx, o, r, node)]
                    else:
                        out += [(b, o) for b in self.extend(a, cx, o, r, node)]
                return out
            return self.setop(st, cx, name, l, [r], node)
        if n == "Mult" and l.op == "tup" and is_const(r) and type(cval(r)) is int and cval(r) * len(l.args) <= 24 and not any(x.op in ("star", "spread") for x in l.args):
            return [(st, tup(*(l.args * max(0, cval(r)))))]
        if n == "Mult" and lr is not None and lr.kind == "list" and is_const(r) and type(cval(r)) is int and self.definite_seq(st, l) is not None and cval(r) * len(lr.entries) <= 12 and not self.loops_around(st, l):
            o = self.new_obj(st, node, cx, Rec("list"), extra=":mul")
            st.heap[o] = Rec("list", None, None, None, tuple(Entry(C(i), v) for i, v in enumerate(self.definite_seq(st, l) * max(0, cval(r)))))
            return [(st, o)]
        if n == "Mult" and lr is not None and lr.kind == "list":
            o = self.new_obj(st, node, cx, Rec("list"), extra=":mul")
            q = st.heap[o]
            ents = tuple(Entry(None, e.val, e.params, e.facts) for e in lr.entries)
            st.heap[o] = Rec("list", None, {"len": r}, None, ents, "weak")
            return [(st, o)]
        if n in ("Div", "FloorDiv", "Mod") and self.policy_flag("risk"):
            if not (is_const(r) and type(cval(r)) in (int, float) and cval(r) != 0) and not (is_const(l) and l.args[0] == "str"):
                out = []
                for a, z in self.branch(st, mk("eq", r, C(0))):
                    if z:
                        self.emit(a, "risk", how="div", val=r)
                        self.raise_ext(a, "builtins.ZeroDivisionError", node, cx)
                    else:
                        out.append((a, mk({"Div": "div", "FloorDiv": "floordiv", "Mod": "mod_"}[n], l, r)))
                return out
        if n == "Div" and (l.op in ("path", "join", "tempdir") or (l.op == "sym" and l.args[1] in ("path",)) or (is_const(r) and r.args[0] == "str")):
            return [(st, mk("join", l, r))]
        if n == "Mod" and is_const(l) and l.args[0] == "str":
            return [(st, mk("cat", mk("formatted", l, r)))]
        name = {"Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "floordiv", "Mod": "mod_", "Pow": "pow", "BitOr": "bor", "BitAnd": "band", "BitXor": "bxor", "LShift": "shl", "RShift": "shr", "MatMult": "matmul"}[n]
        if l.op == "extcall" and n == "BitOr" or l.op in ("ext", "cls") and n == "BitOr" or r.op in ("ext", "cls") and n == "BitOr":
            return [(st, mk("uniontype", l, r))]
        if name in ("sub",) and l is r:
            return [(st, C(0))]
        if name == "sub" and l.op == "add" and is_const(r) and l.args[1] is r:
            return [(st, l.args[0])]
        return [(st, mk(name, l, r))]

    # ------------------------------------------------------------------ builtins
    def x_builtins_len(self, st, cx, args, node):
        v = self.pos(args)[0]
        if v.op == "sym" and self.policy_flag("displays") and self.hashable(st, v):
            return self.d_fail(st, cx, "TypeError", "len() of a value of which nothing is known", v, node)
        if v.op == "obj":
            r = self.rec(st, v)
            if r is not None and r.kind == "inst":
                m = self.class_lookup(r.cls, "__len__")
                if m is not None:
                    return self.call(st, cx, mk("bm", m, v), [], node)
        return [(st, self.len_of(st, v, node, cx))]

    def x_builtins_range(self, st, cx, args, node):
        p = self.pos(args)
        a, b, c = C(0), None, C(1)
        if len(p) == 1:
            b = p[0]
        elif len(p) == 2:
            a, b = p
        else:
            a, b, c = p
        return [(st, mk("view", "range", a, b, c))]

    def x_builtins_isinstance(self, st, cx, args, node):
        x, c = self.pos(args)
        if c.op == "tup":
            return self.multi_isinst(st, x, list(c.args))
        if c.op == "uniontype":
            def flat(t):
                return flat(t.args[0]) + flat(t.args[1]) if t.op == "uniontype" else [t]
            return self.multi_isinst(st, x, flat(c))
        return [(a, B(t)) for a, t in self.branch(st, mk("isinst", x, c))]

    def multi_isinst(self, st, x, cs):
        out = []
        cur = st
        for c in cs:
            nxt = None
            for a, t in self.branch(cur, mk("isinst", x, c)):
                if t:
                    out.append((a, TRUE))
                else:
                    nxt = a
            cur = nxt
            if cur is None:
                return out
        out.append((cur, FALSE))
        return out

    def x_builtins_issubclass(self, st, cx, args, node):
        x, c = self.pos(args)
        r = self.subclass(x, c) if x.op in ("cls", "ext") and c.op in ("cls", "ext") else None
        if r is not None:
            return [(st, B(r))]
        return [(st, mk("truthy", mk("issub", x, c)))]

    def x_builtins_type(self, st, cx, args, node):
        p = self.pos(args)
        v = p[0]
        ts = self.typeof(st, v)
        if ts is not None and len(ts) == 1:
            return [(st, next(iter(ts)))]
        return [(st, mk("type", v))]

    def x_builtins_callable(self, st, cx, args, node):
        return [(st, mk("callable", self.pos(args)[0]))]

    def x_builtins_hasattr(self, st, cx, args, node):
        p = self.pos(args)
        v = p[0]
        if v.op == "obj":
            r = self.rec(st, v)
            if r is not None and r.kind == "inst" and is_const(p[1]):
                n = cval(p[1])
                if n in r.fields or self.class_lookup(r.cls, n) is not None:
                    return [(st, TRUE)]
        return [(st, mk("truthy", mk("hasattr", *p)))]

    def x_builtins_getattr(self, st, cx, args, node):
        p = self.pos(args)
        if is_const(p[1]):
            n = cval(p[1])
            v = p[0]
            if len(p) == 3:
                if v.op in ("obj", "cls", "fn", "mod"):
                    out = []
                    for a, x in self.getattr(st, cx, v, n, node):
                        if x.op == "attr" and x.args[0] is v and v.op != "fn":
                            out.append((a, p[2]))
                        else:
                            out.append((a, x))
                    return out
                if v is NONE:
                    return [(st, p[2])]
                out = []
                for a, t in self.branch(st, mk("truthy", mk("hasattr", v, p[1]))):
                    if t:
                        out += self.getattr(a, cx, v, n, node)
                    else:
                        out.append((a, p[2]))
                return out
            return self.getattr(st, cx, v, n, node)
        return [(st, mk("getattr", *p))]

    def x_builtins_setattr(self, st, cx, args, node):
        p = self.pos(args)
        if is_const(p[1]):
            self.setattr(st, cx, p[0], cval(p[1]), p[2], node)
        else:
            self.emit(st, "setattr", obj=p[0], name="?", val=p[2], loc=None, spec=None, shared=False)
        return [(st, NONE)]

    def x_builtins_any(self, st, cx, args, node):
        return self.anyall(st, cx, self.pos(args)[0], node, True)

    def x_builtins_all(self, st, cx, args, node):
        return self.anyall(st, cx, self.pos(args)[0], node, False)

    def anyall(self, st, cx, coll, node, isany):
        base_loops = st.loops
        base_frames = st.frames
        found = []

        def body(s, v):
            cont = []
            for a, t in self.truth(s, v, node, cx):
                if t == isany:
                    found.append(a)
                else:
                    cont.append(a)
            return cont

        exits = self.iterate(st, coll, node, cx, body, "~any")
        for a in found:
            a.loops = base_loops
            a.frames = base_frames
            self.drop_iter(a, coll)
        out = [(a, B(isany)) for a in found] + [(a, B(not isany)) for a in exits]
        return out

    def maxmin(self, st, cx, args, node, which):
        kw = self.kws(args)
        p = self.pos(args)
        key = kw.get("key", NONE)
        if len(p) == 1:
            coll = p[0]
        else:
            coll = tup(*p)
        out = []
        for a, c in (self.to_container(st, cx, coll, "list", node) if self.definite_seq(st, coll) is None and coll.op != "view" else [(st, coll)]):
            seq = self.definite_seq(a, c)
            if seq is not None:
                if not seq:
                    if "default" in kw:
                        out.append((a, kw["default"]))
                    else:
                        self.raise_ext(a, "builtins.ValueError", node, cx)
                    continue
                if self.policy_flag("displays") and key is NONE and len(seq) > 1 and any(self.unordered(a, x) for x in seq):
                    out += self.d_fail(a, cx, "TypeError", which + "() of values that need not be orderable", tup(*seq), node)
                    continue
                out.append((a, self.maxterm(which, seq)))
                continue
            r = self.crec(a, c)
            ents = r.entries if r is not None else ()
            base = r.base if r is not None else c
            desc = (base if base is not None else NONE,) + tuple(mk("ent", e.val, tuple(e.params), tuple(mk("fact", f, b) for f, b in e.facts)) for e in ents)
            sure = any(not e.params for e in ents)
            val = mk(which + "of", *desc)
            if "default" in kw:
                if not sure:
                    for b, t in self.branch(a, mk("eq", mk("len", mk("bag", *desc)), C(0))):
                        out.append((b, kw["default"] if t else val))
                else:
                    out.append((a, val))
            else:
                if self.policy_flag("risk") and not sure:
                    for b, t in self.branch(a, mk("eq", self.len_of(a, c, node, cx), C(0))):
                        if t:
                            self.emit(b, "risk", how="empty max", val=c)
                            self.raise_ext(b, "builtins.ValueError", node, cx)
                        else:
                            out.append((b, val))
                else:
                    out.append((a, val))
        return out

    def maxterm(self, which, seq):
        if all(is_const(x) for x in seq):
            try:
                return C((max if which == "max" else min)(cval(x) for x in seq))
            except TypeError:
                pass
        flat = []
        for x in seq:
            for y in (x.args if x.op == which else (x,)):
                if y not in flat:
                    flat.append(y)
        if len(flat) == 1:
            return flat[0]
        return mk(which, *sorted(flat, key=lambda t: t.h))

    def x_builtins_max(self, st, cx, args, node):
        return self.maxmin(st, cx, args, node, "max")

    def x_builtins_min(self, st, cx, args, node):
        return self.maxmin(st, cx, args, node, "min")

    def x_builtins_sum(self, st, cx, args, node):
        out = []
        for a, c in self.to_container(st, cx, self.pos(args)[0], "list", node):
            seq = self.definite_seq(a, c)
            if seq is not None and all(is_const(x) for x in seq):
                out.append((a, C(sum(cval(x) for x in seq))))
            elif seq is not None and self.policy.concrete:
                acc = [(a, C(0))]
                for x in seq:
                    acc = [y for b, v in acc for y in self.binop(b, cx, ast.Add(), v, x, node)]
                out += acc
            else:
                r = self.crec(a, c)
                out.append((a, mk("int", "sum", *(e.val for e in (r.entries if r is not None else ())), c)))
        return out

    def x_builtins_sorted(self, st, cx, args, node):
        coll = self.pos(args)[0]
        kw = self.kws(args)
        out = []
        for a, c in self.to_container(st, cx, coll, "list", node):
            for b in self.sort_effect(a, cx, c, kw.get("key", NONE), node):
                r = b.heap.get(c) or self.rec(b, c)
                rev = kw.get("reverse", FALSE)
                if rev is not FALSE and rev is not C(0):
                    if rev is TRUE and "sorted" not in r.fields and self.definite_seq(b, c) is not None:
                        b.heap[c] = r.with_entries(list(reversed(r.entries)))
                    else:
                        b.heap[c] = Rec(r.kind, r.cls, {**r.fields, "sorted": mk("rev", kw.get("key", TRUE))}, r.base, r.entries, r.mark)
                out.append((b, c))
        return out

    def x_builtins_dict_fromkeys(self, st, cx, args, node):
        p = self.pos(args)
        v = p[1] if len(p) > 1 else NONE
        o = self.new_obj(st, node, cx, Rec("dict"), extra=":fromkeys")

        def body(s, x):
            self.mutated(s, o, node, cx, "setitem", (x, v))
            self.dict_set(s, o, x, v)
            return [s]

        return [(a, o) for a in self.iterate(st, p[0], node, cx, body, "~fk", keep=o)]

    def x_builtins_reversed(self, st, cx, args, node):
        return [(st, mk("rev", self.pos(args)[0]))]

    def x_builtins_enumerate(self, st, cx, args, node):
        p = self.pos(args)
        start = p[1] if len(p) > 1 else self.kws(args).get("start", C(0))
        return [(st, mk("enum", p[0], start))]

    def x_builtins_zip(self, st, cx, args, node):
        return [(st, mk("zip", *self.pos(args)))]

    def x_builtins_map(self, st, cx, args, node):
        p = self.pos(args)
        if len(p) == 2:
            return [(st, mk("map", p[0], p[1]))]
        f = p[0]
        return [(st, mk("starmap", f, mk("zip", *p[1:])))]

    def x_builtins_filter(self, st, cx, args, node):
        return [(st, mk("filter", *self.pos(args)))]

    def mkcont(kind, cls=None):
        def f(self, st, cx, args, node):
            p = self.pos(args)
            if not p:
                o = self.new_obj(st, node, cx, Rec(kind), extra=":" + kind)
                out = [(st, o)]
            else:
                out = self.to_container(st, cx, p[0], kind, node)
            if kind in ("dict", "counter"):
                for n, v in self.kws(args).items():
                    for a, o in out:
                        self.dict_set(a, o, C(n), v)
            if cls is not None:
                for a, o in out:
                    r = a.heap.get(o)
                    if r is not None:
                        a.heap[o] = Rec(r.kind, mk("ext", cls), r.fields, r.base, r.entries, r.mark)
            return out

        return f

    x_builtins_list = mkcont("list")
    x_builtins_set = mkcont("set")
    x_builtins_frozenset = mkcont("set", "builtins.frozenset")
    x_builtins_dict = mkcont("dict")
    x_collections_deque = mkcont("deque")
    x_collections_Counter = mkcont("counter")
    x_collections_OrderedDict = mkcont("dict", "collections.OrderedDict")
    x_types_MappingProxyType = mkcont("dict", "types.MappingProxyType")

    def x_collections_defaultdict(self, st, cx, args, node):
        p = self.pos(args)
        o = self.new_obj(st, node, cx, Rec("dict", mk("ext", "collections.defaultdict"), {"default_factory": p[0] if p else NONE}), extra=":dd")
        return [(st, o)]

    def x_builtins_tuple(self, st, cx, args, node):
        p = self.pos(args)
        if not p:
            return [(st, tup())]
        v = p[0]
        if v.op in ("sym",) and v.args[1].startswith(("~", "=")):
            # not iterable unless the class says so
            c = self.class_by_name.get(v.args[1][1:])
            if c is not None and self.class_lookup(c, "__iter__") is None:
                return self.raise_ext(st, "builtins.TypeError", node, cx)
        if v.op == "obj":
            r = self.rec(st, v)
            if r is not None and r.kind == "inst" and not self.ext_base(r.cls, ("builtins.tuple", "builtins.list")) and self.class_lookup(r.cls, "__iter__") is None and (self.classes.get(r.cls.args[0]) or {}).get("nt_fields") is None:
                return self.raise_ext(st, "builtins.TypeError", node, cx)
        if is_const(v) and v.args[0] not in ("str", "bytes", "tuple"):
            return self.raise_ext(st, "builtins.TypeError", node, cx)
        return self.to_tuple(st, cx, v, node)

    def x_builtins_iter(self, st, cx, args, node):
        v = self.pos(args)[0]
        if v.op == "obj":
            r = self.rec(st, v)
            if r is not None and r.kind == "inst":
                m = self.class_lookup(r.cls, "__iter__")
                if m is not None:
                    return self.call(st, cx, mk("bm", m, v), [], node)
        if len(args) == 2:
            self.unknown.append(("iter with a sentinel", self.loc))
            return [(st, mk("iter2", *self.pos(args)))]
        return [(st, mk("iter", v))]

    def x_builtins_next(self, st, cx, args, node):
        p = self.pos(args)
        v = p[0]
        while v.op in ("iter",):
            v = v.args[0]
        seq = self.definite_seq(st, v)
        if seq:
            return [(st, seq[0])]
        if v.op in ("gexp", "gen", "filter", "map"):
            found = []
            base_loops, base_frames = st.loops, st.frames

            def body(s, x):
                found.append((s, x))
                return []

            exits = self.iterate(st, v, node, cx, body, "~n")
            for a, _ in found:
                a.loops, a.frames = base_loops, base_frames
            out = list(found)
            for a in exits:
                if len(p) > 1:
                    out.append((a, p[1]))
                elif self.policy_flag("risk"):
                    self.raise_ext(a, "builtins.StopIteration", node, cx)
            return out
        opts = self.elem_options(st, v, mk("lid", self.site(node) + "~n", cx.frame.id, st.loops))
        out = []
        for i, (x, facts, e) in enumerate(opts):
            s = st.fork() if i + 1 < len(opts) or len(p) > 1 else st
            if all(self.assume(s, a, b, quiet=True) for a, b in facts):
                out.append((s, x))
        if len(p) > 1:
            out.append((st, p[1]))
        return out

    def x_builtins_str(self, st, cx, args, node):
        p = self.pos(args)
        if not p:
            return [(st, C(""))]
        v = p[0]
        self.emit(st, "str", val=v, how="str")
        if v.op == "sym" and v.args[1] in ("str", "path"):
            return [(st, v)]
        if v.op in ("cat", "join", "path"):
            return [(st, v)]
        if is_const(v):
            return [(st, C(str(cval(v))))]
        return [(st, mk("cat", v))]

    def x_builtins_repr(self, st, cx, args, node):
        v = self.pos(args)[0]
        self.emit(st, "str", val=v, how="repr")
        return [(st, mk("cat", mk("repr", v)))]

    x_builtins_ascii = x_builtins_repr

    def x_builtins_int(self, st, cx, args, node):
        p = self.pos(args)
        if p and p[0].op == "sym" and self.policy_flag("displays") and self.hashable(st, p[0]):
            return self.d_fail(st, cx, "TypeError", "int() of a value of which nothing is known", p[0], node)
        if not p:
            return [(st, C(0))]
        v = p[0]
        if is_const(v):
            try:
                return [(st, C(int(cval(v))))]
            except (TypeError, ValueError):
                return self.raise_ext(st, "builtins.TypeError", node, cx)
        if self.policy_flag("displays"):
            return [(st, mk("int", "trunc", v))]
        return [(st, v)]

    def x_builtins_float(self, st, cx, args, node):
        p = self.pos(args)
        if p and p[0].op == "sym" and self.policy_flag("displays") and self.hashable(st, p[0]):
            return self.d_fail(st, cx, "TypeError", "float() of a value of which nothing is known", p[0], node)
        return [(st, p[0] if p else C(0.0))]

    def x_builtins_bool(self, st, cx, args, node):
        p = self.pos(args)
        if not p:
            return [(st, FALSE)]
        return [(a, B(t)) for a, t in self.truth(st, p[0], node, cx)]

    def x_builtins_bytes(self, st, cx, args, node):
        return [(st, mk("bytes", *self.pos(args)))]

    def x_builtins_id(self, st, cx, args, node):
        return [(st, mk("int", "id", self.pos(args)[0]))]

    def x_builtins_hash(self, st, cx, args, node):
        x = self.pos(args)[0]
        r = self.rec(st, x) if x.op == "obj" else None
        if r is not None and r.kind == "inst" and r.cls.op == "cls":
            m = self.class_lookup(r.cls, "__hash__")
            if m is not None and m.op == "fn":
                return self.call(st, cx, mk("bm", m, x), [], node)
        return [(st, mk("int", "hash", self.pos(args)[0]))]

    def x_builtins_abs(self, st, cx, args, node):
        return [(st, mk("int", "abs", self.pos(args)[0]))]

    def x_builtins_round(self, st, cx, args, node):
        return [(st, mk("int", "round", *self.pos(args)))]

    def x_builtins_divmod(self, st, cx, args, node):
        a, b = self.pos(args)
        if is_const(b) and is_const(a):
            q = divmod(cval(a), cval(b))
            return [(st, tup(C(q[0]), C(q[1])))]
        return [(st, tup(mk("floordiv", a, b), mk("mod_", a, b)))]

    def x_builtins_print(self, st, cx, args, node):
        kw = self.kws(args)
        p = self.pos(args)
        f = kw.get("file", NONE)
        self.emit(st, "print", args=tuple(p), file=f)
        r = self.rec(st, f) if f.op == "obj" else None
        inmem = r is not None and r.kind == "inst" and r.cls.args[0] in ("io.StringIO",)
        if self.policy_flag("displays") and inmem:
            self.sio_add(st, f, self.cat([y for i, x in enumerate(p) for y in ([kw.get("sep", C(" "))] if i else []) + [x]] + [kw.get("end", C("\n"))]))
            return [(st, NONE)]
        if self.policy_flag("risk") and not inmem and not self.policy_flag("print_ok"):
            if not all(self.ascii_safe(x) for x in p):
                s2 = st.fork()
                e = mk("exc", self.tk(s2, node, cx), "UnicodeEncodeError")
                self.emit(s2, "risk", how="print", val=tup(*p))
                self.raise_(s2, e)
        if self.policy_flag("displays") and not inmem:
            return [(a, NONE) for a in self.d_output(st, cx, node, self.cat([y for i, x in enumerate(p) for y in ([kw.get("sep", C(" "))] if i else []) + [x]] + [kw.get("end", C("\n"))]))]
        return [(st, NONE)]

    def ascii_safe(self, v):
        if is_const(v):
            return not isinstance(cval(v), str) or cval(v).isascii()
        if v.op == "cat" and len(v.args) == 1:
            return self.ascii_safe(v.args[0])
        if v.op == "decode":
            return self.enc_safe(v.args[0])
        return False

    def enc_safe(self, v):
        # text that went through a lossy encode to the same stream's encoding
        return v.op == "encode" and is_const(v.args[2]) and cval(v.args[2]) in ("replace", "ignore", "backslashreplace", "namereplace", "xmlcharrefreplace")

    def x_builtins_object(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", "builtins.object")), label="object")
        return [(st, o)]

    def x_builtins_super(self, st, cx, args, node):
        p = self.pos(args)
        if len(p) == 2:
            return [(st, mk("super", p[0], p[1]))]
        return [(st, mk("unknown", "super"))]

    def x_builtins_vars(self, st, cx, args, node):
        return [(st, mk("vars", *self.pos(args)))]

    def x_builtins_slice(self, st, cx, args, node):
        p = self.pos(args)
        p = [NONE] + p if len(p) == 1 else p
        p = p + [NONE] * (3 - len(p))
        return [(st, mk("slice", *p))]

    def x_builtins_property(self, st, cx, args, node):
        return [(st, mk("prop", self.pos(args)[0]))]

    def x_builtins_staticmethod(self, st, cx, args, node):
        return [(st, mk("static", self.pos(args)[0]))]

    def x_builtins_classmethod(self, st, cx, args, node):
        return [(st, mk("clsm", self.pos(args)[0]))]

    # ------------------------------------------------------------------ functools / itertools / operator
    def x_functools_partial(self, st, cx, args, node):
        p = self.pos(args)
        return [(st, mk("partial", p[0], tuple(p[1:]), tuple(sorted(self.kws(args).items()))))]

    def x_functools_wraps(self, st, cx, args, node):
        return [(st, mk("deco", "wraps"))]

    x_functools_update_wrapper = lambda self, st, cx, args, node: [(st, self.pos(args)[0])]

    def x_functools_lru_cache(self, st, cx, args, node):
        p = self.pos(args)
        if p and p[0].op in ("fn",):
            return [(st, mk("cached", p[0]))]
        return [(st, mk("deco", "lru_cache"))]

    def x_functools_cache(self, st, cx, args, node):
        return [(st, mk("cached", self.pos(args)[0]))]

    def x_functools_total_ordering(self, st, cx, args, node):
        return [(st, self.pos(args)[0])]

    def x_functools_reduce(self, st, cx, args, node):
        p = self.pos(args)
        return [(st, mk("reduce", *p))]

    def x_contextlib_contextmanager(self, st, cx, args, node):
        return [(st, mk("cmfn", self.pos(args)[0]))]

    def x_dataclasses_dataclass(self, st, cx, args, node):
        return [(st, mk("extcall", mk("ext", "dataclasses.dataclass"), ()))]

    def x_itertools_chain(self, st, cx, args, node):
        return [(st, mk("chain", *self.pos(args)))]

    def x_itertools_chain_from_iterable(self, st, cx, args, node):
        v = self.pos(args)[0]
        seq = self.definite_seq(st, v)
        if seq is not None:
            return [(st, mk("chain", *seq))]
        return [(st, mk("chainit", v))]

    def x_itertools_product(self, st, cx, args, node):
        return [(st, mk("prod", *self.pos(args)))]

    def x_itertools_islice(self, st, cx, args, node):
        return [(st, mk("islice", *self.pos(args)))]

    def x_itertools_repeat(self, st, cx, args, node):
        p = self.pos(args)
        return [(st, mk("repeat", *p))]

    def x_itertools_count(self, st, cx, args, node):
        return [(st, mk("icount", *self.pos(args)))]

    def x_itertools_starmap(self, st, cx, args, node):
        return [(st, mk("starmap", *self.pos(args)))]

    def x_itertools_filterfalse(self, st, cx, args, node):
        return [(st, mk("filterfalse", *self.pos(args)))]

    def x_itertools_takewhile(self, st, cx, args, node):
        return [(st, mk("filter", *self.pos(args)))]

    def x_operator_itemgetter(self, st, cx, args, node):
        return [(st, mk("itemgetter", *self.pos(args)))]

    def x_operator_attrgetter(self, st, cx, args, node):
        return [(st, mk("attrgetter", *self.pos(args)))]

    def x_operator_methodcaller(self, st, cx, args, node):
        return [(st, mk("methodcaller", self.pos(args)[0], tuple(args[1:])))]

    def x_operator_getitem(self, st, cx, args, node):
        p = self.pos(args)
        return self.getitem(st, cx, p[0], p[1], node)

    # ------------------------------------------------------------------ heapq / random
    def x_heapq_heappush(self, st, cx, args, node):
        h, x = self.pos(args)
        self.mutated(st, h, node, cx, "append", (x,), heap=True)
        self.emit(st, "heapop", how="push", heap=h, item=x)
        if self.crec(st, h) is not None and not self.is_shared_container(h):
            self.add_entry(st, h, None, x)
        if self.policy_flag("ring"):
            # the heap compares its items with each other
            return [(a, NONE) for a, _ in self.compare(st, cx, ast.Lt(), x, x, node)]
        return [(st, NONE)]

    def x_heapq_heappop(self, st, cx, args, node):
        h = self.pos(args)[0]
        self.mutated(st, h, node, cx, "pop", (C(0),), heap=True)
        self.emit(st, "heapop", how="pop", heap=h, item=None)
        if self.policy_flag("ring"):
            t = mk("pop", h, self.tk(st, node, cx))
            self.emit(st, "popped", obj=h, how="heappop", args=(), val=t)
            return [(st, t)]
        if self.crec(st, h) is not None and not self.is_shared_container(h):
            out = self.pick(st, cx, h, node)
            for a, v in out:
                self.weaken(a, h)
            return out
        t = mk("pop", h, self.tk(st, node, cx))
        return [(st, t)]

    def x_heapq_heapify(self, st, cx, args, node):
        h = self.pos(args)[0]
        self.emit(st, "heapop", how="heapify", heap=h, item=None)
        return [(st, NONE)]

    def x_heapq_heappushpop(self, st, cx, args, node):
        h, x = self.pos(args)
        self.x_heapq_heappush(st, cx, args, node)
        return self.x_heapq_heappop(st, cx, [("pos", h)], node)

    def x_random_shuffle(self, st, cx, args, node):
        h = self.pos(args)[0]
        self.emit(st, "shuffle", obj=h)
        return [(st, NONE)]

    def x_random_randrange(self, st, cx, args, node):
        return [(st, mk("int", "rand", self.tk(st, node, cx), *self.pos(args)))]

    x_random_randint = x_random_randrange

    def x_random_choice(self, st, cx, args, node):
        return self.pick(st, cx, self.pos(args)[0], node)

    def x_random_sample(self, st, cx, args, node):
        p = self.pos(args)
        k = p[1] if len(p) > 1 else self.kws(args).get("k")
        n = self.len_of(st, p[0], node, cx)
        out = self.to_container(st, cx, p[0], "list", node)
        if k is not n and not (k is not None and k.op == "len"):
            for a, o in out:
                self.weaken(a, o)
        return out

    # ------------------------------------------------------------------ copy
    def x_copy_copy(self, st, cx, args, node):
        v = self.pos(args)[0]
        if v.op == "obj":
            r = self.rec(st, v)
            if r is not None:
                if r.kind in CONTAINERS:
                    return self.to_container(st, cx, v, r.kind, node)
                if r.kind == "graph":
                    # networkx graphs define no __copy__: the result shares nodes and edges with the original
                    o = self.new_obj(st, node, cx, Rec("graph", r.cls, {"of": v}), label="graph", extra=":shallow")
                    self.emit(st, "graphcopy", obj=o, src=v, how="shallow", args=())
                    return [(st, o)]
                if r.kind == "inst":
                    m = self.class_lookup(r.cls, "__copy__")
                    if m is not None:
                        return self.call(st, cx, mk("bm", m, v), [], node)
                    o = self.new_obj(st, node, cx, r, label="copy")
                    self.emit(st, "objcopy", obj=o, src=v, cls=r.cls)
                    return [(st, o)]
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", "builtins.object"), {"copyof": v}), label="copy")
        self.emit(st, "objcopy", obj=o, src=v, cls=None)
        return [(st, o)]

    def x_copy_deepcopy(self, st, cx, args, node):
        v = self.pos(args)[0]
        self.emit(st, "deepcopy", val=v)
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", "builtins.object"), {"deepcopyof": v}), label="deepcopy")
        return [(st, o)]

    # ------------------------------------------------------------------ threading
    def x_threading_Lock(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("lock", mk("ext", "threading.Lock")), label="lock")
        return [(st, o)]

    def x_threading_RLock(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("lock", mk("ext", "threading.RLock")), label="lock")
        return [(st, o)]

    def x_threading_Condition(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("cond", mk("ext", "threading.Condition")), label="cond")
        return [(st, o)]

    def x_threading_Event(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", "threading.Event")), label="event")
        return [(st, o)]

    def x_threading_Thread(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", "threading.Thread")), label="thread")
        self.thread_init(st, o, args)
        return [(st, o)]

    def event_method(self, st, cx, name, o, args, node):
        if self.policy_flag("displays"):
            return self.d_event(st, cx, name, o, args, node)
        if name == "set":
            self.emit(st, "event_set", event=o)
            return [(st, NONE)]
        if name == "clear":
            self.emit(st, "event_clear", event=o)
            return [(st, NONE)]
        if name in ("is_set", "isSet"):
            t = mk("load", mk("loc", "f", o, "flag"), self.tk(st, node, cx))
            self.purge(st, t)
            self.emit(st, "event_test", event=o, val=t)
            return [(st, mk("truthy", t))]
        if name == "wait":
            p = self.pos(args)
            to = p[0] if p else self.kws(args).get("timeout", NONE)
            self.emit(st, "event_wait", event=o, timeout=to)
            if to is NONE:
                return [(st, TRUE)]
            t = mk("load", mk("loc", "f", o, "flag"), self.tk(st, node, cx))
            self.purge(st, t)
            self.emit(st, "event_test", event=o, val=t)
            return [(a, B(b)) for a, b in self.branch(st, mk("truthy", t))]
        return [(st, NONE)]

    # ------------------------------------------------------------------ inspect / traceback / warnings / misc
    def x_inspect_currentframe(self, st, cx, args, node):
        if self.policy_flag("real_frames"):
            return [(st, mk("pyframe", self.real_frames(st, node), "real"))]
        return [(st, mk("pyframe", st.frames))]

    def x_inspect_stack(self, st, cx, args, node):
        if self.policy_flag("real_frames"):
            return [(st, self.frame_infos(self.real_frames(st, node)))]
        return [(st, mk("extcall", mk("ext", "inspect.stack"), self.tk(st, node, cx)))]

    def x_inspect_getouterframes(self, st, cx, args, node):
        f = self.pos(args)[0]
        if f.op == "pyframe" and f.args[-1] == "real":
            return [(st, self.frame_infos(f.args[0]))]
        return [(st, mk("extcall", mk("ext", "inspect.getouterframes"), f))]

    def frame_infos(self, fr):
        return tup(*(tup(mk("pyframe", fr[: i + 1], "real"), C(fr[i][1]), C(fr[i][2]), C(fr[i][0]), NONE, NONE) for i in reversed(range(len(fr)))))

    def x_traceback_walk_stack(self, st, cx, args, node):
        p = self.pos(args)
        f = p[0] if p else NONE
        if f is NONE and self.policy_flag("real_frames"):
            f = mk("pyframe", self.real_frames(st, node), "real")
        if f.op == "pyframe" and f.args[-1] == "real":
            fr = f.args[0]
            return [(st, tup(*(tup(mk("pyframe", fr[: i + 1], "real"), C(fr[i][2])) for i in reversed(range(len(fr))))))]
        return [(st, mk("extcall", mk("ext", "traceback.walk_stack"), f))]

    def x_sys__getframe(self, st, cx, args, node):
        p = self.pos(args)
        n = cval(p[0]) if p and is_const(p[0]) else 0
        if self.policy_flag("real_frames"):
            fr = self.real_frames(st, node)
            if n >= len(fr):
                return self.raise_ext(st, "builtins.ValueError", node, cx)
            return [(st, mk("pyframe", fr[: len(fr) - n], "real"))]
        fr = st.frames
        for _ in range(n):
            if not fr:
                return [(st, mk("pyframe", "user", 1))]
            fr = fr[:-1]
        return [(st, mk("pyframe", fr))]

    def x_inspect_signature(self, st, cx, args, node):
        s2 = st.fork()
        self.raise_ext(s2, "builtins.ValueError", node, cx)
        return [(st, mk("extcall", mk("ext", "inspect.signature"), tuple(self.pack_arg(a) for a in args)))]

    def x_warnings_warn(self, st, cx, args, node):
        return [(st, NONE)]

    def x_traceback_format_exception(self, st, cx, args, node):
        p = self.pos(args)
        if self.policy_flag("displays"):
            o = self.new_obj(st, node, cx, Rec("list"), extra=":tb")
            e = [x for x in p if x.op in ("obj", "exc") or x.op == "sym"][-1:] or p[:1]
            st.heap[o] = Rec("list", None, None, None, (Entry(C(0), mk("cat", mk("tbtext", *e))),))
            return [(st, o)]
        o = self.new_obj(st, node, cx, Rec("list", None, None, mk("tbtext", *p)), extra=":tb")
        return [(st, o)]

    def x_textwrap_indent(self, st, cx, args, node):
        return [(st, mk("cat", mk("strcall", "indent", self.pos(args)[0], ())))]

    def x_html_escape(self, st, cx, args, node):
        return [(st, mk("cat", mk("strcall", "escape", self.pos(args)[0], ())))]

    def x_typing_cast(self, st, cx, args, node):
        return [(st, self.pos(args)[1])]

    def x_os_cpu_count(self, st, cx, args, node):
        return [(st, mk("extcall", mk("ext", "os.cpu_count"), ()))]

    # ------------------------------------------------------------------ with
    def with_ext(self, st, cx, cm, r, body, node):
        outs = self.with_file_like(st, cx, cm, r, body, node)
        if outs is not None:
            return outs
        return self.with_simple(st, cx, cm, cm, body, node)

    def with_simple(self, st, cx, cm, val, body, node, on_exit=None):
        outs = self.capture(cx, lambda: body(st, val))
        if on_exit is not None:
            outs.norm = [y for x in outs.norm for y in on_exit(x, None)]
            outs.ret = [(y, v) for x, v in outs.ret for y in on_exit(x, None)]
            outs.brk = [y for x in outs.brk for y in on_exit(x, None)]
            outs.cont = [y for x in outs.cont for y in on_exit(x, None)]
            rs = []
            for x, e in outs.raises:
                for y in on_exit(x, e):
                    rs.append((y, e))
            outs.raises = rs + []
        return self.reemit(cx, outs)

    def x_contextlib_nullcontext(self, st, cx, args, node):
        p = self.pos(args)
        o = self.new_obj(st, node, cx, Rec("nullcm", None, {"v": p[0] if p else NONE}), label="nullcontext")
        return [(st, o)]

    def x_contextlib_suppress(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("suppress", None, {"t": tup(*self.pos(args))}), label="suppress")
        return [(st, o)]

    def x_contextlib_closing(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("closing", None, {"v": self.pos(args)[0]}), label="closing")
        return [(st, o)]

    def x_contextlib_ExitStack(self, st, cx, args, node):
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", "contextlib.ExitStack"), {}), label="ExitStack")
        return [(st, o)]

    def exitstack_method(self, st, cx, name, o, args, node):
        p = self.pos(args)
        r = self.rec(st, o)
        cur = r.fields.get("_cbs", tup())
        if name == "enter_context":
            return self.es_enter(st, cx, o, p[0], node)
        if name in ("callback", "push"):
            item = mk("cb", p[0], tuple(args[1:])) if name == "callback" else mk("excb", p[0])
            self.es_push(st, o, item)
            return [(st, p[0])]
        if name == "pop_all":
            n = self.new_obj(st, node, cx, Rec("inst", mk("ext", "contextlib.ExitStack"), dict(r.fields)), label="ExitStack", extra=":pop_all")
            f = dict(r.fields)
            f.pop("_cbs", None)
            st.heap[o] = Rec(r.kind, r.cls, f)
            return [(st, n)]
        if name in ("__exit__", "close"):
            exc = p[1] if len(p) > 1 and p[1] is not NONE else None
            return [(a, FALSE) for a in self.es_unwind(st, cx, o, exc, node)]
        if name == "__enter__":
            return [(st, o)]
        return [(st, NONE)]

    def es_push(self, st, o, item):
        r = st.heap.get(o) or self.rec(st, o)
        if r is None:
            return
        cur = r.fields.get("_cbs", tup())
        if item in cur.args:
            return
        st.heap[o] = r.setf("_cbs", tup(*cur.args, item))

    def es_enter(self, st, cx, o, cm, node):
        if cm.op == "obj":
            r = self.rec(st, cm)
            if r is not None and r.kind in ("lock", "cond"):
                self.lock_acquire(st, cx, cm, node)
                self.es_push(st, o, mk("cm", cm))
                return [(st, cm)]
            if r is not None and r.kind == "inst" and self.class_lookup(r.cls, "__enter__") is not None:
                out = []
                for s1, m in self.getattr(st, cx, cm, "__enter__", node):
                    for a, v in self.call(s1, cx, m, [], node):
                        self.es_push(a, o, mk("cm", cm))
                        out.append((a, v))
                return out
            self.es_push(st, o, mk("cm", cm))
            return [(st, cm)]
        out = []
        for a, v in self.ucall(st, cx, mk("attr", cm, "__enter__"), [], node, noraise=True, kind="enter"):
            self.es_push(a, o, mk("cm", cm))
            out.append((a, v))
        return out

    def es_unwind(self, st, cx, o, exc, node):
        r = self.rec(st, o)
        items = list(r.fields.get("_cbs", tup()).args) if r is not None else []
        f = dict(r.fields) if r is not None else {}
        f.pop("_cbs", None)
        if r is not None:
            st.heap[o] = Rec(r.kind, r.cls, f)
        sts = [st]
        for it in reversed(items):
            nxt = []
            for a in sts:
                if it.op == "cb":
                    nxt += [b for b, _ in self.call(a, cx, it.args[0], list(it.args[1]), node)]
                elif it.op == "excb":
                    x = [("pos", NONE)] * 3
                    nxt += [b for b, _ in self.call(a, cx, it.args[0], x, node)]
                else:
                    cm = it.args[0]
                    rr = self.rec(a, cm) if cm.op == "obj" else None
                    if rr is not None and rr.kind in ("lock", "cond"):
                        self.lock_release(a, cx, cm, node)
                        nxt.append(a)
                    elif rr is not None and rr.kind == "inst":
                        av = [("pos", NONE)] * 3 if exc is None else [("pos", mk("type", exc)), ("pos", exc), ("pos", NONE)]
                        for b, m in self.getattr(a, cx, cm, "__exit__", node):
                            nxt += [c for c, _ in self.call(b, cx, m, av, node)]
                    elif cm.op != "obj":
                        nxt += [c for c, _ in self.ucall(a, cx, mk("attr", cm, "__exit__"), [("pos", exc if exc is not None else NONE)], node, noraise=True, kind="exit")]
                    else:
                        nxt.append(a)
            sts = nxt
        return sts


def name_of(d):
    return d.rsplit(".", 1)[1]
