"""Models of files, serialisers, paths and the context managers of the standard library."""
from .core import Rec
from .terms import C, FALSE, NONE, TRUE, cval, is_const, mk, tup

SER_W = {"json.dump": "json", "pickle.dump": "pickle", "marshal.dump": "marshal"}
SER_R = {"json.load": "json", "pickle.load": "pickle", "marshal.load": "marshal"}
SER_WS = {"json.dumps": "json", "pickle.dumps": "pickle"}
SER_RS = {"json.loads": "json", "pickle.loads": "pickle"}
RENAMES = {"os.replace", "os.rename", "os.renames", "shutil.move"}
REMOVES = {"os.remove", "os.unlink"}
COPIES = {"shutil.copy", "shutil.copy2", "shutil.copyfile", "os.link", "os.symlink"}
MISC = {
    "os.makedirs", "os.mkdir", "os.rmdir", "shutil.rmtree", "os.fsync", "os.utime", "os.truncate",
    "os.chmod", "os.ftruncate", "os.write",
}


class Files:
    def fault(self, st, node, cx, what, kinds=("OSError",), always=False):
        """fork failures of an operation"""
        if not (self.policy.file_faults or always):
            return
        for k in kinds:
            s = st.fork()
            e = mk("exc", self.tk(s, node, cx), k)
            self.purge(s, e)
            self.drop_of(s, e)
            self.emit(s, "fault", what=what, exc=e)
            self.raise_(s, e)

    def as_path(self, v):
        if v.op == "extcall" and v.args[0].op == "ext" and v.args[0].args[0].startswith("pathlib."):
            return v.args[1][0]
        return v

    # ------------------------------------------------------------------
    def file_call(self, st, cx, d, args, node):
        p = self.pos(args)
        kw = self.kws(args)
        if d in ("builtins.open", "io.open", "os.fdopen", "codecs.open"):
            return self.do_open(st, cx, p, kw, node, d)
        if d in SER_W:
            f = p[1] if len(p) > 1 else kw.get("fp", kw.get("file", NONE))
            v = p[0] if p else kw.get("obj", NONE)
            self.emit(st, "ser", fmt=SER_W[d], val=v, file=f, kw=kwt(kw))
            self.emit(st, "f_write", file=f, data=mk("ser", SER_W[d], v), how=d)
            self.fault(st, node, cx, d, ("Exception", "BaseException"))
            return [(st, NONE)]
        if d in SER_WS:
            v = p[0] if p else kw.get("obj", NONE)
            self.emit(st, "ser", fmt=SER_WS[d], val=v, file=NONE, kw=kwt(kw))
            self.fault(st, node, cx, d, ("Exception", "BaseException"))
            return [(st, mk("ser", SER_WS[d], v, kwt(kw)))]
        if d in SER_R:
            f = p[0] if p else kw.get("fp", kw.get("file", NONE))
            self.emit(st, "f_read", file=f, how=d)
            r = mk("deser", SER_R[d], mk("fdata", f), kwt(kw))
            self.emit(st, "deser", fmt=SER_R[d], src=mk("fdata", f), kw=kwt(kw), val=r)
            self.fault(st, node, cx, d, ("Exception", "BaseException"))
            return [(st, r)]
        if d in SER_RS:
            r = mk("deser", SER_RS[d], p[0], kwt(kw))
            self.emit(st, "deser", fmt=SER_RS[d], src=p[0], kw=kwt(kw), val=r)
            self.fault(st, node, cx, d, ("Exception", "BaseException"))
            return [(st, r)]
        if d == "pickle.Pickler":
            o = self.new_obj(st, node, cx, Rec("pickler", None, {"file": p[0]}), label="Pickler")
            return [(st, o)]
        if d == "pickle.Unpickler":
            o = self.new_obj(st, node, cx, Rec("unpickler", None, {"file": p[0]}), label="Unpickler")
            return [(st, o)]
        if d in RENAMES:
            self.fault(st, node, cx, d)
            self.emit(st, "f_replace", src=self.as_path(p[0]), dst=self.as_path(p[1]), how=d)
            return [(st, NONE)]
        if d in REMOVES:
            self.fault(st, node, cx, d, always=True)
            self.emit(st, "f_remove", path=self.as_path(p[0]))
            return [(st, NONE)]
        if d in COPIES or d == "shutil.copyfileobj":
            self.emit(st, "f_copy", src=self.as_path(p[0]), dst=self.as_path(p[1]), how=d)
            self.fault(st, node, cx, d)
            return [(st, NONE)]
        if d in MISC:
            self.emit(st, "f_misc", name=d, args=tuple(p))
            self.fault(st, node, cx, d)
            return [(st, NONE)]
        if d in ("os.path.getmtime", "os.stat", "os.path.getctime", "os.path.getatime", "os.lstat"):
            path = self.as_path(p[0])
            self.emit(st, "f_stat", path=path, how=d)
            self.fault(st, node, cx, d, always=True)
            s = mk("stat", path)
            if d in ("os.stat", "os.lstat"):
                return [(st, s)]
            return [(st, mk("attr", s, {"getmtime": "st_mtime", "getctime": "st_ctime", "getatime": "st_atime"}[d.split(".")[-1]]))]
        if d in ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.path.isdir"):
            self.emit(st, "f_stat", path=p[0], how=d)
            return [(st, mk("exists", p[0], self.tk(st, node, cx)))]
        if d in ("os.path.join",):
            return [(st, mk("pathjoin", *p))]
        if d in ("os.fspath", "os.fsdecode"):
            return [(st, p[0])]
        if d.startswith("os.path."):
            return [(st, mk("pathfn", d, *p))]
        if d in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
            if len(p) == 1:
                return [(st, p[0])]
            return [(st, mk("pathjoin", *p))]
        if d in ("tempfile.TemporaryDirectory",):
            o = self.new_obj(st, node, cx, Rec("tempdir"), label="tempdir")
            self.emit(st, "f_misc", name=d, args=tuple(p))
            self.fault(st, node, cx, d)
            return [(st, o)]
        if d == "tempfile.mkdtemp":
            self.emit(st, "f_misc", name=d, args=tuple(p))
            return [(st, mk("tempname", self.tk(st, node, cx)))]
        if d in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile"):
            path = mk("tempname", self.tk(st, node, cx))
            self.fault(st, node, cx, d)
            m = kw.get("mode", p[0] if p else C("w+b"))
            o = self.new_obj(st, node, cx, Rec("file", None, {"path": path, "mode": m, "name": path, "kw": kwt(kw)}), label="file")
            self.emit(st, "f_open", path=path, mode=m, kw=kwt(kw), obj=o, temp=kw)
            return [(st, o)]
        if d == "tempfile.mkstemp":
            path = mk("tempname", self.tk(st, node, cx))
            self.fault(st, node, cx, d)
            self.emit(st, "f_open", path=path, mode=C("wb"), kw=kwt({}), obj=NONE, temp=kw)
            return [(st, tup(mk("fd", path), path))]
        if d == "os.close":
            return [(st, NONE)]
        if d in ("io.StringIO", "io.BytesIO"):
            o = self.new_obj(st, node, cx, Rec("inst", mk("ext", d)), label="StringIO")
            for v in p[:1]:
                self.sio_add(st, o, v)
            return [(st, o)]
        if d == "io.TextIOWrapper":
            b = p[0]
            r = self.rec(st, b) if b.op == "obj" else None
            if r is not None and r.kind == "file":
                kk = dict(kw)
                if len(p) > 1:
                    kk["encoding"] = p[1]
                o = self.new_obj(st, node, cx, Rec("file", None, {"path": r.fields["path"], "mode": C(str(cval(r.fields["mode"])).replace("b", "") if is_const(r.fields["mode"]) else "w"), "kw": kwt(kk), "inner": b}), label="file")
                self.emit(st, "f_open", path=r.fields["path"], mode=self.rec(st, o).fields["mode"], kw=kwt(kk), obj=o, wrap=b)
                return [(st, o)]
        return None

    def do_open(self, st, cx, p, kw, node, d):
        names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
        kk = dict(kw)
        for n, v in zip(names, p):
            kk[n] = v
        path = kk.pop("file", NONE)
        if path.op == "fd":
            path = path.args[0]
        mode = kk.pop("mode", C("r"))
        self.fault(st, node, cx, "open")
        o = self.new_obj(st, node, cx, Rec("file", None, {"path": path, "mode": mode, "kw": kwt(kk)}), label="file")
        self.emit(st, "f_open", path=path, mode=mode, kw=kwt(kk), obj=o)
        return [(st, o)]

    def sio_add(self, st, o, v):
        r = st.heap.get(o) or self.rec(st, o)
        cur = r.fields.get("_parts", tup())
        if self.policy_flag("displays"):
            st.heap[o] = r.setf("_parts", tup(*cur.args, v))
            return
        if v not in cur.args:
            st.heap[o] = r.setf("_parts", tup(*cur.args, v))

    # ------------------------------------------------------------------
    def file_method(self, st, cx, base, meth, o, args, node):
        p = self.pos(args)
        if base in ("io.StringIO", "io.BytesIO"):
            if meth == "getvalue":
                r = self.rec(st, o)
                if self.policy_flag("displays"):
                    return [(st, self.cat(r.fields.get("_parts", tup()).args))]
                return [(st, mk("cat", mk("parts", *(r.fields.get("_parts", tup()).args if r else ()))))]
            if meth in ("write",):
                self.sio_add(st, o, p[0])
                return [(st, mk("int", "written", o))]
            return [(st, NONE)]
        r = self.rec(st, o) if o.op == "obj" else None
        if base == "file" and r is not None:
            if meth in ("write", "writelines"):
                self.emit(st, "f_write", file=o, data=p[0], how=meth)
                self.fault(st, node, cx, "write", ("Exception", "BaseException"))
                return [(st, mk("int", "written", o, p[0]))]
            if meth in ("read", "readline", "readlines", "readall", "__iter__", "readinto"):
                self.emit(st, "f_read", file=o, how=meth)
                self.fault(st, node, cx, "read", ("OSError", "Exception"))
                t = mk("fdata", o) if meth in ("read", "readall") and not p else mk("fpart", meth, o, self.tk(st, node, cx))
                return [(st, t)]
            if meth == "close":
                self.emit(st, "f_close", file=o)
                self.fault(st, node, cx, "close")
                return [(st, NONE)]
            if meth in ("flush", "truncate", "seek"):
                self.emit(st, "f_misc", name="file." + meth, args=(o, *p))
                self.fault(st, node, cx, meth)
                return [(st, NONE)]
            return [(st, mk("attr", o, meth))]
        if base == "pickler" and meth == "dump":
            f = r.fields["file"]
            self.emit(st, "ser", fmt="pickle", val=p[0], file=f, kw=kwt({}))
            self.emit(st, "f_write", file=f, data=mk("ser", "pickle", p[0]), how="pickle")
            self.fault(st, node, cx, "pickle", ("Exception", "BaseException"))
            return [(st, NONE)]
        if base == "unpickler" and meth == "load":
            f = r.fields["file"]
            self.emit(st, "f_read", file=f, how="pickle")
            t = mk("deser", "pickle", mk("fdata", f), kwt({}))
            self.emit(st, "deser", fmt="pickle", src=mk("fdata", f), kw=kwt({}), val=t)
            self.fault(st, node, cx, "unpickle", ("Exception", "BaseException"))
            return [(st, t)]
        if base == "tempdir":
            if meth == "cleanup":
                self.emit(st, "f_misc", name="tempdir.cleanup", args=(o,))
                return [(st, NONE)]
            if meth == "name":
                return [(st, mk("attr", o, "name"))]
        return None

    def pathish(self, v):
        if v.op == "sym" and v.args[1] == "path":
            return True
        if v.op in ("pathjoin", "pathop", "tempname"):
            return True
        if v.op == "cat":
            return any(self.pathish(x) for x in v.args)
        if v.op == "attr":
            return v.args[1] in ("path", "parent", "_path") or (v.args[0].op == "obj" and v.args[1] == "name")
        if v.op == "sym" and v.args[0] in ("PATH",):
            return True
        return False

    def file_attr_call(self, st, cx, v, name, args, node):
        if not self.pathish(v):
            return None
        p = self.pos(args)
        kw = self.kws(args)
        if name == "open":
            return self.do_open(st, cx, [v] + p, kw, node, "open")
        if name in ("replace", "rename") and len(p) == 1:
            self.fault(st, node, cx, name)
            self.emit(st, "f_replace", src=v, dst=p[0], how=name)
            return [(st, p[0])]
        if name == "unlink":
            missing = kw.get("missing_ok")
            self.fault(st, node, cx, name, always=True)
            self.emit(st, "f_remove", path=v)
            return [(st, NONE)]
        if name in ("read_text", "read_bytes"):
            names = ["encoding", "errors", "newline"] if name == "read_text" else []
            kk = dict(kw)
            kk.update(zip(names, p))
            out = []
            for a, f in self.do_open(st, cx, [v, C("r" if name == "read_text" else "rb")], kk, node, "open"):
                out += self.file_method(a, cx, "file", "read", f, [], node)
            return out
        if name in ("write_text", "write_bytes"):
            names = ["data", "encoding", "errors", "newline"] if name == "write_text" else ["data"]
            kk = dict(kw)
            kk.update(zip(names, p))
            data = kk.pop("data", NONE)
            out = []
            for a, f in self.do_open(st, cx, [v, C("w" if name == "write_text" else "wb")], kk, node, "open"):
                for b, n in self.file_method(a, cx, "file", "write", f, [("pos", data)], node):
                    out += [(c, n) for c, _ in self.file_method(b, cx, "file", "close", f, [], node)]
            return out
        if name == "touch":
            self.emit(st, "f_touch", path=v, kw=kwt(kw))
            self.fault(st, node, cx, name)
            return [(st, NONE)]
        if name in ("stat", "lstat"):
            self.emit(st, "f_stat", path=v, how=name)
            self.fault(st, node, cx, name, always=True)
            return [(st, mk("stat", v))]
        if name in ("exists", "is_file"):
            self.emit(st, "f_stat", path=v, how=name)
            return [(st, mk("exists", v, self.tk(st, node, cx)))]
        if name in ("mkdir", "rmdir"):
            self.emit(st, "f_misc", name=name, args=(v,))
            self.fault(st, node, cx, name)
            return [(st, NONE)]
        if name in ("with_suffix", "with_name", "joinpath", "with_stem", "resolve", "absolute", "expanduser", "relative_to", "__fspath__", "as_posix"):
            if name in ("__fspath__", "as_posix"):
                return [(st, v)]
            return [(st, mk("pathop", name, v, *p))]
        return None

    # ------------------------------------------------------------------ context managers
    def with_file_like(self, st, cx, cm, r, body, node):
        """with on an object of an external class; None when unknown"""
        k = r.kind
        if k == "file":
            def close(b, exc):
                self.emit(b, "f_close", file=cm)
                self.fault(b, node, cx, "close")
                return [b]

            return self.with_simple(st, cx, cm, cm, body, node, close)
        if k == "tempdir":
            def clean(b, exc):
                self.emit(b, "f_misc", name="tempdir.cleanup", args=(cm,))
                self.fault(b, node, cx, "cleanup")
                return [b]

            return self.with_simple(st, cx, cm, mk("attr", cm, "name"), body, node, clean)
        if k == "nullcm":
            return self.with_simple(st, cx, cm, r.fields["v"], body, node)
        if k == "closing":
            v = r.fields["v"]

            def cl(b, exc):
                out = []
                for c, m in self.getattr(b, cx, v, "close", node):
                    out += [d for d, _ in self.call(c, cx, m, [], node)]
                return out

            return self.with_simple(st, cx, cm, v, body, node, cl)
        if k == "suppress":
            outs = self.capture(cx, lambda: body(st, NONE))
            rs = []
            for a, e in outs.raises:
                for b, m in self.exc_match(a, e, r.fields["t"]):
                    if m:
                        self.emit(b, "caught", exc=e, at=self.site(node))
                        outs.norm.append(b)
                    else:
                        rs.append((b, e))
            outs.raises = rs
            return self.reemit(cx, outs)
        if k == "inst":
            names = [b.args[0] for b in self.ext_bases(r.cls)] if r.cls.op == "cls" else [r.cls.args[0]]
            if "contextlib.ExitStack" in names:
                return self.with_simple(st, cx, cm, cm, body, node, lambda b, exc: self.es_unwind(b, cx, cm, exc, node))
            if names and names[0].startswith("io."):
                return self.with_simple(st, cx, cm, cm, body, node)
        return None


def kwt(kw):
    return tup(*[mk("kw", k, v) for k, v in sorted(kw.items())])


def kwget(t, name):
    for a in t.args:
        if a.args[0] == name:
            return a.args[1]
    return None
