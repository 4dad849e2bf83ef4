"""C12: the encoder of each store's write and the decoder of its read are matched symbolically (serialiser and options, text or binary mode, encoding, error handler, newline handling, nothing added or removed); get_modified_time is None exactly on the paths where the file cannot be examined; a mounted store moves the bytes between the same local path and the store in the right order."""
from ..files import kwget
from ..terms import C, FALSE, NONE, TRUE, cval, is_const, mk, show, subterms
from .base import sym
from .c11 import PATH, same

VAL = sym("VAL", "any")
ENC = sym("ENC", "pure")
ENV = {"PATH": PATH, "VAL": VAL, "ENC": ENC}
RT = """
import uberjob.stores as S
s = S.{0}(PATH{1})
s.write(VAL)
t = S.{0}(PATH{1})
r = t.read()
u = s.read()
"""
MTIME = """
import uberjob.stores as S
t = S.{0}(PATH)
m = t.get_modified_time()
"""
LOSSY = ("ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace")
FORMAT = {"JsonFileStore": "json", "PickleFileStore": "pickle", "TextFileStore": "text", "BinaryFileStore": "bytes", "TouchFileStore": "none"}
CHANGES_TYPES = ("parse_float", "parse_int", "parse_constant", "object_hook", "object_pairs_hook", "cls")


def enc_norm(t):
    if t is None:
        return NONE
    if is_const(t) and isinstance(cval(t), str):
        s = cval(t).lower().replace("_", "-")
        return C({"utf8": "utf-8", "u8": "utf-8", "latin1": "latin-1", "iso-8859-1": "latin-1"}.get(s, s))
    return t


def strip_cat(t):
    while t.op in ("cat", "str") and len(t.args) == 1:
        t = t.args[0]
    return t


class Opened:
    def __init__(self, n):
        self.n = n
        self.mode = cval(n["mode"]) if is_const(n["mode"]) else None
        kw = n["kw"]
        self.text = None if self.mode is None else "b" not in self.mode
        self.enc = enc_norm(kwget(kw, "encoding"))
        self.errors = kwget(kw, "errors") or NONE
        self.newline = kwget(kw, "newline") or NONE


class RoundTrip:
    def __init__(self, ck, g, store, what):
        self.ck, self.g, self.store, self.what = ck, g, store, what
        self.fmt = FORMAT[store]
        self.files = {n["obj"]: Opened(n) for n in g.ev("f_open", "main")}

    def errs(self, here, t, side):
        if t is not None and is_const(t) and cval(t) in LOSSY:
            self.ck.ob("errors-strict", here, False, f"{side} with errors={cval(t)!r} loses characters")

    # every write: list of (encoding or None for bytes, where)
    def writes(self):
        ck, g = self.ck, self.g
        enc = []
        ws = g.ev("f_write", "main")
        for w in ws:
            f = self.files.get(w["file"])
            here = g.at(w)
            if f is None or f.text is None:
                ck.ob("encoder", here, None, "the written file is not understood")
                continue
            d = w["data"]
            e, errs, nl = (f.enc, f.errors, f.newline) if f.text else (None, NONE, None)
            if d.op == "encode":
                e, errs, nl = enc_norm(d.args[1]), d.args[2], None
                d = d.args[0]
            self.errs(here, errs, "writing")
            d = strip_cat(d)
            self.one_write(w, here, f, d, nl)
            if VAL in set(subterms(d)):
                enc.append((e, here))
        return enc

    def one_write(self, w, here, f, d, nl):
        ck = self.ck
        has = VAL in set(subterms(d))
        if self.fmt in ("json", "pickle"):
            if d.op == "ser":
                ck.ob("serialiser", here, d.args[0] == self.fmt and d.args[1] is VAL if d.args[1] is VAL or d.args[1].op in ("cat", "slice_") else None, f"{d.args[0]} of {show(d.args[1], 3)}")
            elif not has and is_const(d):
                ws = cval(d)
                ok = self.fmt == "json" and isinstance(ws, str) and not ws.strip()
                ck.ob("nothing-added", here, ok, f"{ws!r} is written next to the value")
            else:
                ck.ob("serialiser", here, None, show(d, 4))
        elif self.fmt in ("text", "bytes"):
            if d is VAL:
                ck.ob("value-written-unchanged", here, True, "the value itself is written")
            elif is_const(d):
                ck.ob("nothing-added", here, not cval(d), f"{cval(d)!r} is written next to the value")
            else:
                ck.ob("value-written-unchanged", here, self.changed(d, VAL), f"{show(d, 4)} is written")
            if self.fmt == "text" and nl is not None:
                bad = is_const(nl) and cval(nl) in ("\r", "\r\n")
                ck.ob("newline-kept", here, not bad, f"written with newline={show(nl)}")
        else:
            ck.ob("nothing-added", here, False, "data is written into a touch file")

    def changed(self, d, v):
        """False when d is a modification of v that loses or adds something, None when unclear"""
        d = strip_cat(d)
        if d is v:
            return True
        if d.op == "cat" and any(strip_cat(a) is v for a in d.args):
            rest = [a for a in d.args if strip_cat(a) is not v]
            if any(is_const(a) and cval(a) for a in rest):
                return False
        if d.op == "slice_" and d.args[0] is v:
            return False
        if d.op == "methcall" or d.op == "res":
            f = d.args[1] if len(d.args) > 1 and hasattr(d.args[1], "op") else None
            if f is not None and f.op == "attr" and f.args[0] is v and f.args[1] in (
                "strip", "rstrip", "lstrip", "replace", "lower", "upper", "casefold", "splitlines", "expandtabs", "removesuffix", "removeprefix", "translate", "title", "swapcase", "split"
            ):
                return False
        return None

    def serialisers(self):
        ck, g = self.ck, self.g
        for n in g.ev("ser", "main"):
            here = g.at(n)
            ck.ob("serialiser", here, n["fmt"] == self.fmt, f"{n['fmt']} used by {self.store}")
            ck.ob("value-serialised", here, True if n["val"] is VAL else self.changed(n["val"], VAL), show(n["val"], 3))
            kw = n["kw"]
            for k in ("skipkeys",):
                v = kwget(kw, k)
                if v is not None and v is not FALSE:
                    ck.ob("serialiser-options", here, None, k)
            v = kwget(kw, "ensure_ascii")
            if v is FALSE:
                f = self.files.get(n["file"])
                ok = f is not None and f.enc is C("utf-8") and not f.text
                ck.ob("serialiser-options", here, ok, "ensure_ascii=False: text that the chosen encoding cannot represent (for example a lone surrogate) is no longer stored")
            if self.fmt == "json" and kwget(kw, "cls") is not None:
                ck.ob("serialiser-options", here, None, "cls")
        for n in g.ev("deser", "main"):
            here = g.at(n)
            ck.ob("deserialiser", here, n["fmt"] == self.fmt, f"{n['fmt']} used by {self.store}")
            for k in CHANGES_TYPES:
                v = kwget(n["kw"], k)
                if v is not None and v is not NONE:
                    ck.ob("deserialiser-options", here, False if k != "cls" else None, f"{k} changes the values that are read")

    def reads(self, encs):
        ck, g = self.ck, self.g
        for name in ("r", "u"):
            for n in g.ev("setcell", "main", name=name):
                if n.loc[0] != "client":
                    continue
                self.result(n, n["val"], encs)
        ends = [n for n in g.ev("end", "main") if n["how"] == "norm"]
        ck.ob("read-returns", self.what, bool(ends), "read returns after write" if ends else "read always raises after write")

    def result(self, n, t, encs):
        ck = self.ck
        here = self.what
        if self.fmt == "none":
            ck.ob("read-value", here, t is NONE, f"read returns {show(t, 3)}")
            return
        if t is VAL:
            ck.ob("read-value", here, False, "read returns an object kept in memory instead of what is stored")
            return
        t0 = strip_cat(t)
        via = t0
        if self.fmt in ("json", "pickle"):
            if t0.op != "deser":
                inner = [x for x in subterms(t0) if x.op == "deser"]
                bad = is_const(t0) or t0.op in ("vtup", "cat", "slice_") or bool(inner) and self.changed(t0, inner[0]) is False
                ck.ob("read-value", here, False if bad else None, f"read returns {show(t, 4)}")
                return
            ck.ob("read-value", here, True, "read returns the deserialised value itself")
            via = strip_cat(t0.args[1])
        e = "?"
        if via.op == "decode":
            e = enc_norm(via.args[1])
            self.errs(here, via.args[2] if len(via.args) > 2 else None, "reading")
            via = strip_cat(via.args[0])
            nl = C("")
            decoded = True
        else:
            nl, decoded = None, False
        if via.op != "fdata":
            inner = [x for x in subterms(via) if x.op == "fdata"]
            bad = is_const(via) or bool(inner) and self.changed(via, inner[0]) is False
            ck.ob("read-value", here, False if bad else None, f"read returns {show(t, 4)}")
            return
        f = self.files.get(via.args[0])
        if f is None or f.text is None:
            ck.ob("decoder", here, None, "the file that is read is not understood")
            return
        fh = self.g.at(f.n)
        ck.ob("read-target", fh, True if same(f.n["path"]) else None, show(f.n["path"], 3))
        self.errs(fh, f.errors, "reading")
        if self.fmt in ("text", "bytes"):
            is_text = f.text or decoded
            ck.ob("read-value", fh, is_text == (self.fmt == "text"), f"read returns {'str' if is_text else 'bytes'}")
        if decoded:
            renc = e
        elif f.text:
            renc, nl = f.enc, f.newline
        elif self.fmt == "json":
            renc = C("utf-8")  # json.load detects utf-8/16/32
        else:
            renc = None
        for wenc, wh in encs:
            if (wenc is None) != (renc is None):
                ck.ob("mode-match", fh, False, "written as text, read as bytes" if renc is None else "written as bytes, read as text")
            elif wenc is not None:
                ok = wenc is renc
                if not ok and not f.text and not decoded:
                    ok = is_const(wenc) and cval(wenc) in ("utf-8", "utf-16", "utf-32")
                ck.ob("encoding-match", fh, ok, f"written with encoding {show(wenc)} and read with {show(renc)}")
        if self.fmt == "text" and nl is not None:
            bad = nl is NONE
            ck.ob("newline-kept", fh, not bad, "universal newlines turn \\r and \\r\\n in the stored text into \\n" if bad else f"newline={show(nl)}")

    def run(self):
        self.serialisers()
        encs = self.writes()
        if self.fmt in ("text", "bytes", "json", "pickle") and not encs:
            self.ck.ob("encoder", self.what, None, "no write of the value recognised")
        self.reads(encs)
        for n in self.g.ev("f_misc", "main"):
            if n["name"] == "os.utime":
                self.ck.ob("mtime-not-forged", self.g.at(n), False, "the modified time of the written file is set explicitly")


def mtime(ck, g, what, missing_raises=False):
    g_at = g.at
    stats = [n for n in g.ev("f_stat", "main")]
    faults = [n for n in g.ev("fault", "main") if "stat" in n["what"] or "time" in n["what"]]
    root = g.root_of("main")

    def missing(m):
        if m in faults:
            return True
        if m.kind == "assume" and not m["val"] and any(t.op == "exists" for t in subterms(m["atom"])):
            return True
        return False

    sets = [n for n in g.ev("setcell", "main", name="m") if n.loc[0] == "client"]
    for n in sets:
        v = n["val"]
        if v is NONE:
            p = g.path([root], lambda m: m.id == n.id, block=missing)
            ck.ob("mtime-none-only-if-missing", what, p is None, "None although the file exists: " + g.show_path(p) if p else "None only where the file cannot be examined")
            continue
        ts = set(subterms(v))
        at = [t for t in ts if t.op == "attr" and t.args[0].op == "stat"]
        bad = [t for t in at if t.args[1] not in ("st_mtime", "st_mtime_ns")]
        good = [t for t in at if t.args[1] in ("st_mtime", "st_mtime_ns") and same(t.args[0].args[0])]
        ck.ob("mtime-of-file", what, False if bad or not at and is_const(v) else True if good else None, f"reports {show(v, 4)}")
        if good:
            p = g.path([root], lambda m: m.id == n.id, block=lambda m: m in stats)
            ck.ob("mtime-current", what, p is None, "not examined on every call" if p else "")
            mono = self_contained_mono(v, good[0])
            ck.ob("mtime-monotone", what, mono, show(v, 4))
    for f in faults:
        p = g.path(g.after(f), lambda m: m.kind == "end" and m["how"] == "raise")
        if not missing_raises:
            ck.ob("mtime-missing-is-none", g_at(f), p is None, "raises instead of reporting None: " + g.show_path(p) if p else "")
        q = g.path(g.after(f), lambda m: m.kind == "setcell" and m["name"] == "m" and m["val"] is not NONE)
        ck.ob("mtime-missing-is-none", g_at(f), q is None, "a missing file gets a modified time: " + g.show_path(q) if q else "")


def self_contained_mono(v, m):
    """does v grow with m?"""
    if v is m:
        return True
    if v.op in ("dtfromts", "fromts"):
        return self_contained_mono(v.args[0], m) if hasattr(v.args[0], "op") else None
    if v.op in ("sub", "mod", "neg") and len(v.args) > 1 and m in set(subterms(v.args[1] if v.op == "sub" else v)):
        return False
    if v.op == "max":
        return None
    return None


MOUNT = """
import uberjob.stores as S

class Mounted(S.MountedStore):
    def copy_to_local(self, local_path):
        TOLOCAL(local_path)

    def copy_from_local(self, local_path):
        FROMLOCAL(local_path)

    def get_modified_time(self):
        return None

s = Mounted(CREATE)
s.write(VAL)
t = Mounted(CREATE)
r = t.read()
"""


def fname(n):
    return show(n["fn"], 5)


FIXED = {"tempfile.gettempdir", "os.getpid", "os.getcwd", "os.path.expanduser", "os.getuid", "os.getlogin", "getpass.getuser", "socket.gethostname", "os.getppid"}


def apart(t):
    """False when two threads of one process that evaluate `t` at the same time get the same path"""
    if is_const(t):
        return False
    if t.op in ("pathjoin", "cat", "pathfn", "fmt", "tuple"):
        r = [apart(x) for x in t.args if hasattr(x, "op")]
        return True if True in r else None if None in r else False
    if t.op == "extcall" and t.args[0].op == "ext":
        d = t.args[0].args[0]
        if d in FIXED:
            return False
        return True if d.split(".")[0] in ("uuid", "tempfile", "secrets") or d in ("threading.get_ident", "threading.get_native_id") else None
    if t.op == "tempname" or t.op == "attr" and t.args[1] == "name" and t.args[0].op == "obj":
        return True
    return None


def mounted(ck):
    env = {"VAL": VAL, "CREATE": sym("CREATE", "callable"), "TOLOCAL": sym("TOLOCAL", "callable"), "FROMLOCAL": sym("FROMLOCAL", "callable")}
    g = ck.analyse("MountedStore", MOUNT, env)
    calls = g.ev("ucall", "main")
    pick = lambda s: [n for n in calls if s(n)]
    write = pick(lambda n: n["fn"].op == "attr" and n["fn"].args[1] == "write")
    read = pick(lambda n: n["fn"].op == "attr" and n["fn"].args[1] == "read")
    to = pick(lambda n: n["fn"] is env["TOLOCAL"])
    fro = pick(lambda n: n["fn"] is env["FROMLOCAL"])
    rets = g.ev("uret", "main")
    ret_of = lambda n: [r for r in rets if r.get("call") == n.id]
    root = g.root_of("main")
    w = "MountedStore"
    ck.ob("mounted-parts", w, bool(write and read and to and fro) or (None if ck.unknown else False), "write, read, copy_to_local and copy_from_local are all used")
    created = {r["val"]: r for r in rets}

    def path_of(store):
        """the local path a store object was created for"""
        for n in calls:
            if n["fn"] is env["CREATE"] and any(r["val"] is store for r in ret_of(n)):
                a = n["args"][0]
                return a.args[-1] if hasattr(a, "op") and a.op in ("pos", "kw") else a
        return None

    def arg0(n):
        a = n["args"][0]
        return a.args[-1] if a.op in ("pos", "kw") else a

    for m in write + read:
        b = path_of(m["fn"].args[0])
        if b is not None:
            a = apart(b)
            ck.ob("mounted-path-not-shared", g.at(m), a, f"every mounted store of the process uses the same local path {show(b, 4)} at the same time" if a is False else f"local path {show(b, 4)}")
    for n in fro:
        okw = [r for m in write for r in ret_of(m)]
        p = g.path([root], lambda m: m.id == n.id, block=lambda m: m in okw)
        ck.ob("mounted-write-order", g.at(n), p is None, "copied into the store before the local file is written: " + g.show_path(p) if p else "")
        for m in write:
            if g.path([m], lambda z: z.id == n.id):
                a, b = arg0(n), path_of(m["fn"].args[0])
                ck.ob("mounted-same-path", g.at(n), a is b if b is not None else None, f"written at {show(b, 4) if b is not None else '?'}, copied from {show(a, 4)}")
        for m in write:
            ck.ob("mounted-value", g.at(m), arg0(m) is VAL, "")
    for m in write:
        okf = [r for n in fro for r in ret_of(n)]
        p = g.path(g.after(m), lambda z: z.kind == "setcell" and z["name"] == "t" and z.loc[0] == "client", block=lambda z: z in okf)
        ck.ob("mounted-write-complete", g.at(m), p is None, "write returns without copying the file into the store: " + g.show_path(p) if p else "")
    for m in read:
        okt = [r for n in to for r in ret_of(n)]
        p = g.path([root], lambda z: z.id == m.id, block=lambda z: z in okt)
        ck.ob("mounted-read-order", g.at(m), p is None, "read before the file is copied from the store: " + g.show_path(p) if p else "")
        for n in to:
            b = path_of(m["fn"].args[0])
            ck.ob("mounted-same-path", g.at(n), arg0(n) is b if b is not None else None, "")
    for n in g.ev("setcell", "main", name="r"):
        if n.loc[0] == "client":
            ok = any(r["val"] is n["val"] for m in read for r in ret_of(m))
            ck.ob("mounted-read-value", w, ok if ok or n["val"] is VAL or is_const(n["val"]) else None, f"read returns {show(n['val'], 3)}")


SOURCES = """
import uberjob.stores as S
a = S.LiteralSource(VAL, MT)
r = a.read()
m = a.get_modified_time()
b = S.ModifiedTimeSource(MT)
x = b.get_modified_time()
y = b.read()
c = S.PathSource(PATH, required=False)
p = c.get_modified_time()
d = S.PathSource(PATH)
q = d.get_modified_time()
e = d.read()
"""


def sources(ck):
    mt = sym("MT", "pure")
    g = ck.analyse("sources", SOURCES, {"VAL": VAL, "MT": mt, "PATH": PATH})
    want = {"r": VAL, "m": mt, "x": mt, "y": mt, "e": PATH}
    for k, v in want.items():
        for n in g.ev("setcell", "main", name=k):
            if n.loc[0] == "client":
                ok = n["val"] is v
                ck.ob("source-value", f"{k} = {show(v)}", ok if ok or is_const(n["val"]) or n["val"] in want.values() else None, f"got {show(n['val'], 3)}")
    for k in ("p", "q"):
        for n in g.ev("setcell", "main", name=k):
            if n.loc[0] == "client":
                v = n["val"]
                f = [t for t in subterms(v) if t.op == "attr" and t.args[0].op == "stat"]
                if v is NONE:
                    ck.ob("path-source-mtime", f"PathSource required={k == 'q'}", k == "p", "None although the path is required" if k == "q" else "")
                else:
                    ck.ob("path-source-mtime", f"PathSource required={k == 'q'}", bool(f) and all(t.args[1].startswith("st_mtime") for t in f) or None, show(v, 4))


def run(ck):
    for s in FORMAT:
        env = {**ENV, "VAL": NONE} if s == "TouchFileStore" else ENV
        encs = ("", ", encoding=ENC") if s in ("JsonFileStore", "TextFileStore") else ("",)
        for e in encs:
            g = ck.analyse(f"{s}{e}: write, read", RT.format(s, e), env)
            RoundTrip(ck, g, s, s).run()
        g = ck.analyse(f"{s}.get_modified_time", MTIME.format(s), env)
        mtime(ck, g, s + ".get_modified_time")
    mounted(ck)
    sources(ck)
