"""Models used when the progress displays are analysed (Policy displays=True): the client decides what the clock
says and what happens while the update thread waits, values of scopes are only hashable and equatable."""
import re
import string

from .core import Rec
from .terms import B, C, FALSE, NONE, T, TRUE, cval, is_const, mk, tup

WIDGET = "ipywidgets."
NUMERIC = ("IntProgress", "FloatProgress", "BoundedIntText", "IntSlider")


class Displays:
    def hashable(self, st, v):
        """may v be a value of a scope of which nothing is known"""
        return v.op == "sym" and v.args[1] == "hashable" and st.facts.get(mk("isinst", v, mk("cls", "str"))) is not True and st.facts.get(mk("isinst", v, mk("ext", "builtins.str"))) is not True

    def unordered(self, st, v, seen=()):
        """may comparing v with < another such value fail"""
        if self.hashable(st, v):
            return True
        if v.op == "tup":
            return any(self.unordered(st, x, seen) for x in v.args)
        if v.op == "type":
            return True
        if v.op == "obj" and v not in seen:
            r = self.crec(st, v)
            if r is not None:
                return any(self.unordered(st, e.val, seen + (v,)) for e in r.entries if e.val is not None)
        return False

    def d_fail(self, st, cx, name, how, val, node):
        self.emit(st, "risk", how=how, val=val)
        return self.raise_ext(st, "builtins." + name, node, cx)

    def d_format(self, st, cx, v, spec, node):
        """format(v, spec)"""
        if is_const(spec) and cval(spec) == "":
            return [(st, v)]
        if is_const(v) and is_const(spec):
            try:
                return [(st, C(format(cval(v), cval(spec))))]
            except (ValueError, TypeError):
                return self.raise_ext(st, "builtins.ValueError", node, cx)
        if self.hashable(st, v) or v is NONE or v.op in ("tup", "obj", "type"):
            return self.d_fail(st, cx, "TypeError", "a format specification for a value that need not know it", v, node)
        return [(st, mk("cat", mk("strcall", "format", v, (spec,))))]

    def d_strformat(self, st, cx, o, args, node):
        pos = [a[1] for a in args if a[0] == "pos"]
        kw = {cval(a[1]) if isinstance(a[1], T) else a[1]: a[2] for a in args if a[0] == "kw"}
        try:
            parsed = list(string.Formatter().parse(cval(o))) if is_const(o) and len(pos) + len(kw) == len(args) else None
        except ValueError:
            parsed = None
        if parsed is None or any(f is not None and not re.fullmatch(r"\d*|[A-Za-z_]\w*", f) or spec and "{" in spec for _, f, spec, _ in parsed):
            return self.str_format(st, o, args)
        res = [(st, [])]
        auto = 0
        for lit, field, spec, conv in parsed:
            if lit:
                res = [(a, vs + [C(lit)]) for a, vs in res]
            if field is None:
                continue
            if field == "":
                key, auto = auto, auto + 1
            else:
                key = int(field) if field.isdigit() else field
            if type(key) is int and key >= len(pos) or type(key) is str and key not in kw:
                return [y for a, _ in res for y in self.raise_ext(a, "builtins.IndexError" if type(key) is int else "builtins.KeyError", node, cx)]
            v = pos[key] if type(key) is int else kw[key]
            nxt = []
            for a, vs in res:
                self.emit(a, "str", val=v, how="format")
                w = mk("cat", mk("repr", v)) if conv in ("r", "a") else mk("cat", v) if conv == "s" and not is_const(v) else v
                nxt += [(b, vs + [x]) for b, x in self.d_format(a, cx, w, C(spec or ""), node)]
            res = nxt
        return [(a, self.cat(vs)) for a, vs in res]

    def d_binop(self, st, cx, n, l, r, node):
        if n == "Mod" and is_const(l) and l.args[0] == "str":
            vs = r.args if r.op == "tup" else (r,)
            parts = re.split(r"%([-#0 +]*(?:\d+)?(?:\.\d+)?)([a-zA-Z%])", cval(l))
            out, i = [], 0
            for j in range(0, len(parts), 3):
                out.append(C(parts[j]))
                if j + 2 >= len(parts):
                    break
                flags, c = parts[j + 1], parts[j + 2]
                if c == "%":
                    out.append(C("%"))
                    continue
                if i >= len(vs):
                    return self.raise_ext(st, "builtins.TypeError", node, cx)
                v = vs[i]
                i += 1
                if is_const(v):
                    try:
                        out.append(C(f"%{flags}{c}" % (cval(v),)))
                    except (TypeError, ValueError):
                        return self.raise_ext(st, "builtins.TypeError", node, cx)
                elif c in "sra":
                    out.append(mk("cat", mk("repr", v)) if c != "s" else v)
                elif self.hashable(st, v) or v.op in ("tup", "obj", "cat", "strof"):
                    return self.d_fail(st, cx, "TypeError", "a numeric format for a value that need not be a number", v, node)
                else:
                    out.append(mk("cat", mk("strcall", "format", v, (C(flags + c),))))
            if i < len(vs) and r.op == "tup":
                return self.raise_ext(st, "builtins.TypeError", node, cx)
            return [(st, self.cat(out))]
        if self.hashable(st, l) or self.hashable(st, r):
            return self.d_fail(st, cx, "TypeError", f"{n} of a value of which nothing is known", tup(l, r), node)
        if n == "Add" and (is_const(l) and l.args[0] == "str" and is_const(r) and r.args[0] != "str" or is_const(r) and r.args[0] == "str" and is_const(l) and l.args[0] != "str"):
            return self.raise_ext(st, "builtins.TypeError", node, cx)
        return None

    def client_fn(self, st, name):
        return st.cells.get(("m:client", name))

    def d_clock(self, st):
        return st.cells.get(("m:client", "clock"))

    def d_call(self, st, cx, name, node):
        f = self.client_fn(st, name)
        if f is None:
            return [(st, NONE)]
        return self.call(st, cx, f, [], node)

    def d_event(self, st, cx, name, o, args, node):
        if name == "set":
            self.emit(st, "event_set", event=o)
            r = self.rec(st, o)
            st.heap[o] = r.setf("_set", TRUE)
            return [(st, NONE)]
        if name == "clear":
            self.emit(st, "event_clear", event=o)
            return [(st, NONE)]
        if name in ("is_set", "isSet"):
            return self.d_call(st, cx, "peek", node)
        if name == "wait":
            if st.locks:
                self.emit(st, "risk", how="waits with the lock held", val=o)
            return self.d_call(st, cx, "step", node)
        return [(st, NONE)]

    def d_thread(self, st, cx, name, o, args, node):
        r = self.rec(st, o)
        if name == "start":
            self.emit(st, "thread_start", thread=o, target=r.fields.get("_t_target", NONE), daemon=r.fields.get("_t_daemon"))
            st.heap[o] = (st.heap.get(o) or r).setf("_started", TRUE)
            return [(st, NONE)]
        if name == "join":
            self.emit(st, "thread_join", thread=o, timeout=NONE)
            if r.fields.get("_ran") is TRUE or r.fields.get("_started") is not TRUE:
                return [(st, NONE)]
            st.heap[o] = (st.heap.get(o) or r).setf("_ran", TRUE)
            m = self.class_lookup(r.cls, "run") if r.cls is not None else None
            target, targs = (mk("bm", m, o), []) if m is not None else (r.fields.get("_t_target", NONE), None)
            if targs is None:
                targs = []
                a = r.fields.get("_t_args")
                if a is not None:
                    seq = self.definite_seq(st, a)
                    targs = [("pos", x) for x in seq] if seq is not None else [("star", a)]
                kwd = r.fields.get("_t_kwargs")
                for k, v in (self.definite_items(st, kwd) or ()) if kwd is not None else ():
                    targs.append(("kw", cval(k), v))
            if target is NONE:
                return [(st, NONE)]
            self.emit(st, "mark", name="THREAD", args=(o,))
            return [(b, NONE) for a, _ in self.call(st, cx, target, targs, node) for b, _ in self.d_call(a, cx, "rest", node)]
        if name == "is_alive":
            return [(st, B(r.fields.get("_started") is TRUE and r.fields.get("_ran") is not TRUE))]
        return None

    def d_output(self, st, cx, node, text=None):
        """something was shown; the client may act while it is written, unless a lock is held"""
        if text is not None:
            k = ("m:client", "shown")
            st.cells[k] = tup(*st.cells.get(k, tup()).args, tup(self.d_clock(st) or NONE, text))
        return self.d_gap(st, cx, node)

    def d_gap(self, st, cx, node):
        """a point at which the update thread holds no lock: others may act"""
        if st.locks:
            return [st]
        return [a for a, _ in self.d_call(st, cx, "during", node)]

    # ------------------------------------------------------------------ widgets
    def d_widget(self, st, cx, d, args, node):
        o = self.new_obj(st, node, cx, Rec("inst", mk("ext", d)), label=d.split(".")[-1])
        n = d.split(".")[-1]
        f = {"value": C(0), "max": C(100), "min": C(0)} if n in NUMERIC else {"value": C("")}
        st.heap[o] = Rec("inst", mk("ext", d), {**f, "layout": mk("extcall", mk("ext", WIDGET + "Layout"), (o,))})
        kw = self.kws(args)
        p = self.pos(args)
        if p:
            kw = {("children" if n in ("VBox", "HBox", "Accordion", "Box", "Tab") else "value"): p[0], **kw}
        for k in sorted(kw, key=lambda k: k == "value"):
            self.setattr(st, cx, o, k, kw[k], node)
        self.emit(st, "alloc", obj=o, cls=mk("ext", d))
        return [(st, o)]

    def d_widget_attr(self, st, o, name, val):
        """what the widget stores when the attribute is assigned"""
        r = self.rec(st, o)
        if r is None or r.kind != "inst" or r.cls is None or r.cls.op != "ext" or not str(r.cls.args[0]).startswith(WIDGET):
            return val
        if str(r.cls.args[0])[len(WIDGET) :] in NUMERIC:
            if name == "value":
                m = r.fields.get("max")
                if is_const(val) and m is not None and is_const(m) and cval(val) > cval(m):
                    return m
            if name == "max" and is_const(val):
                v = r.fields.get("value")
                if v is not None and is_const(v) and cval(v) > cval(val):
                    st.heap[o] = r.setf("value", val)
        return val
