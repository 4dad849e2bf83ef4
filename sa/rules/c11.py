"""C11: typestate of the target and staging paths over every path of the write method of each file store (and of staged_write / staged_write_path around an arbitrary body), with every file operation and every serialiser failing as an alternative path."""
from ..terms import C, FALSE, NONE, TRUE, cval, is_const, mk, show, subterms
from .base import sym

STORES = ("JsonFileStore", "PickleFileStore", "TextFileStore", "BinaryFileStore", "TouchFileStore")

WRITE = """
import uberjob.stores as S
s = S.{0}(PATH)
s.write(VAL)
"""
READ = """
import uberjob.stores as S
s = S.{0}(PATH)
r = s.read()
"""
MTIME = """
import uberjob.stores as S
s = S.{0}(PATH)
r = s.get_modified_time()
"""
STAGED_PATH = """
import uberjob.stores as S
with S.staged_write_path(PATH) as p:
    BODY(p)
"""
STAGED = """
import uberjob.stores as S
with S.staged_write(PATH, {0!r}) as f:
    f.write(VAL)
    BODY(f)
"""
PATH = sym("PATH", "path")
ENV = {"PATH": PATH, "VAL": sym("VAL", "any"), "BODY": sym("BODY", "callable")}
DIRS = ("dirname", "parent", "split")


def sanitized(t):
    """path arguments in a canonical form: str(p), os.fspath(p) and Path(p) denote p"""
    return t


def same(t, path=PATH):
    return t is path or t.op in ("str", "cat") and len(t.args) == 1 and same(t.args[0], path)


def file_path(g, f):
    """path of a file object"""
    for n in g.ev("f_open"):
        if n["obj"] is f:
            return n["path"]
    return None


def writable(n):
    m = n["mode"]
    return not is_const(m) or any(c in str(cval(m)) for c in "wax+")


class Staging:
    def __init__(self, ck, g, what, value=None, touch=False, body=False):
        self.ck, self.g, self.what = ck, g, what
        self.value, self.touch, self.body = value, touch, body
        self.faults = [n for n in g.ev("fault", "main") if n["what"] not in ("os.remove", "unlink", "os.path.getmtime", "os.stat", "stat")]
        self.faults += g.ev("uexc", "main")
        self.replaces = g.ev("f_replace", "main")
        self.root = g.root_of("main")
        self.ends = g.ev("end", "main")

    def write(self):
        ck, g = self.ck, self.g
        self.target_untouched()
        into = [n for n in self.replaces if same(n["dst"])]
        if not into:
            others = [n for n in g.ev(("f_misc", "f_copy"), "main")]
            ck.ob("target-replaced", self.what, None if others or ck.unknown else False, "no rename of a staging file onto the target was found")
            return
        for n in into:
            self.staging_name(n)
            self.complete(n)
        if not (self.touch or self.value is None):
            pass
        # normal return means the value is in place
        p = g.path([self.root], lambda m: m.kind == "end" and m["how"] == "norm", block=lambda m: m in into)
        ck.ob("written-before-return", self.what, p is None, "returns although the target was not replaced: " + g.show_path(p) if p else "every normal return follows the rename")
        # failures never reach the rename, and are reported
        for f in self.faults:
            p = g.path(g.after(f), lambda m: m in into)
            ck.ob("no-replace-after-failure", g.at(f), p is None, "the target is replaced although the write failed: " + g.show_path(p) if p else "")
            p = g.path(g.after(f), lambda m: m.kind == "end" and m["how"] == "norm", block=lambda m: m in into)
            if f.kind == "uexc" or f["what"] not in ("fsync", "os.fsync", "os.chmod"):
                ck.ob("failure-reported", g.at(f), p is None, "a failed write returns normally: " + g.show_path(p) if p else "")
        self.cleanup(into)
        self.stale_staging(into)

    def target_untouched(self):
        ck, g = self.ck, self.g
        bad = []
        for n in g.ev("f_open", "main"):
            if same(n["path"]) and writable(n):
                bad.append((n, "the target is opened for writing in place"))
        for n in g.ev("f_copy", "main"):
            if same(n["dst"]):
                bad.append((n, "the target is overwritten by a copy, which is not atomic"))
        for n in g.ev("f_touch", "main"):
            if same(n["path"]):
                bad.append((n, "the target is touched in place"))
        for n in g.ev("f_remove", "main"):
            if same(n["path"]):
                bad.append((n, "the target is removed before the new value is in place"))
        for n in g.ev("f_replace", "main"):
            if same(n["src"]):
                bad.append((n, "the target is moved away"))
        for n in g.ev("f_misc", "main"):
            if n["name"] in ("os.utime", "os.truncate", "os.ftruncate") and n["args"] and same(n["args"][0]):
                bad.append((n, f"{n['name']} is applied to the target"))
        for n, d in bad:
            ck.ob("target-untouched", g.at(n), False, d)
        if not bad:
            ck.ob("target-untouched", self.what, True, "no operation other than the rename refers to the target path")

    def staging_name(self, n):
        ck, g = self.ck, self.g
        src = n["src"]
        here = g.at(n)
        how = n["how"]
        if how == "shutil.move":
            ck.ob("rename-atomic", here, None, "shutil.move")
        else:
            ck.ob("rename-atomic", here, True, how)
        parts = list(subterms(src))
        temp = [t for t in parts if t.op == "tempname"]
        if temp:
            opens = [m for m in g.ev("f_open", "main") if m["path"] is temp[0]]
            near = any(m.get("temp") and "dir" in m["temp"] and any(t is PATH for t in subterms(m["temp"]["dir"])) for m in opens)
            ck.ob("staging-same-directory", here, True if near else False, "staged in a temporary directory that may be on another file system")
            return
        if PATH not in parts:
            ck.ob("staging-same-directory", here, None if src.op not in ("const",) else False, f"staging path {show(src, 4)}")
            return
        if src.op == "cat":
            ok = src.args and same(src.args[0]) and any(is_const(a) and cval(a) for a in src.args[1:])
            rest_ok = not any(is_const(a) and "/" in str(cval(a)) for a in src.args[1:])
            ck.ob("staging-same-directory", here, True if ok and rest_ok else None, show(src, 4))
            return
        if src.op == "pathop" and src.args[0] in ("with_suffix", "with_name", "with_stem"):
            arg = src.args[2] if len(src.args) > 2 else None
            lost = src.args[0] in ("with_suffix", "with_name", "with_stem") and arg is not None and PATH not in set(subterms(arg))
            ck.ob("staging-own-name", here, not lost, "stores of different files share one staging file" if lost else show(src, 4))
            return
        only_dir = self.only_in_dir(src)
        ck.ob("staging-own-name", here, False if only_dir else None, "stores of different files share one staging file" if only_dir else show(src, 4))

    def only_in_dir(self, t):
        """every occurrence of the path is below dirname()/parent"""
        if t is PATH:
            return False
        if t.op == "pathfn" and t.args[0].split(".")[-1] in DIRS or t.op == "attr" and t.args[1] in DIRS:
            return True
        subs = [a for a in t.args if hasattr(a, "op") and PATH in set(subterms(a))]
        return bool(subs) and all(self.only_in_dir(a) for a in subs)

    def complete(self, n):
        """the file renamed onto the target was opened for this write, holds the whole value and is closed"""
        ck, g = self.ck, self.g
        here = g.at(n)
        src = n["src"]
        if self.body:
            rets = g.ev("uret", "main")
            p = g.path([self.root], lambda m: m.id == n.id, block=lambda m: m in rets)
            ck.ob("body-before-rename", here, p is None, "renamed before the body of the with block: " + g.show_path(p) if p else "")
        opens = [m for m in g.ev("f_open", "main") if m["path"] is src]
        if not opens and not self.body:
            ck.ob("staging-opened", here, False, f"the renamed path {show(src, 4)} was never opened for writing")
            return
        if opens:
            p = g.path([self.root], lambda m: m.id == n.id, block=lambda m: m in opens)
            ck.ob("staging-opened", here, p is None, "renamed without opening the staging file: " + g.show_path(p) if p else "")
        files = set()
        for o in opens:
            mode = cval(o["mode"]) if is_const(o["mode"]) else None
            if mode is None:
                ck.ob("staging-truncated", g.at(o), None, show(o["mode"], 3))
            else:
                ck.ob("staging-truncated", g.at(o), "w" in mode, f"mode {mode!r}" + ("" if "w" in mode else ": a staging file left by a killed process breaks or leaks into later writes"))
            f = o["obj"]
            files.add(f)
            wraps = [w["obj"] for w in g.ev("f_open", "main") if w.get("wrap") is f]
            closers = [m for m in g.ev("f_close", "main") if m["file"] is f or m["file"] in wraps]
            p = g.path(g.after(o), lambda m: m.id == n.id, block=lambda m: m in closers)
            ck.ob("closed-before-rename", g.at(o), p is None, "renamed while the staging file is still open (buffered data not written): " + g.show_path(p) if p else "")
        writes = [m for m in g.ev("f_write", "main") if m["file"] in files]
        for w in writes:
            p = g.path(g.after(n), lambda m: m.id == w.id)
            ck.ob("no-write-after-rename", g.at(w), p is None, "data is written after the rename" if p else "")
        if self.touch:
            for w in writes:
                ck.ob("touch-file-empty", g.at(w), False, "data is written into a touch file")
            return
        if self.value is not None:
            full = [w for w in writes if self.covers(w["data"])]
            some = [w for w in writes if self.value in set(subterms(w["data"]))]
            if full:
                p = g.path([self.root], lambda m: m.id == n.id, block=lambda m: m in full)
                ck.ob("complete-value", here, p is None, "renamed without the whole value: " + g.show_path(p) if p else "the whole value is written first")
            else:
                ck.ob("complete-value", here, None if some or not writes else False, "the written data do not involve the value")

    def covers(self, d):
        if d is self.value:
            return True
        if d.op == "ser":
            return d.args[1] is self.value
        if d.op in ("encoded", "methcall", "extcall", "attrcall"):
            return any(hasattr(a, "op") and self.covers(a) for a in d.args)
        return False

    def cleanup(self, into):
        """a failed write leaves no staging file"""
        ck, g = self.ck, self.g
        srcs = {n["src"] for n in into}
        if self.body and not g.ev("f_open", "main"):
            starts = g.ev("ucall", "main")
        else:
            starts = [n for n in g.ev("f_open", "main") if n["path"] in srcs]
        gone = lambda m: m.kind == "f_remove" and m["path"] in srcs or m.kind == "fault" and m["what"] in ("os.remove", "unlink") or m in into
        for o in starts:
            p = g.path(g.after(o), lambda m: m.kind == "end" and m["how"] == "raise", block=gone)
            ck.ob("staging-removed-on-failure", g.at(o), p is None, "the staging file stays behind: " + g.show_path(p) if p else "every failing path removes the staging file")

        # what is removed is closed, and removing the staging file never hides the failure
        for f in g.ev("fault", "main"):
            if f["what"] in ("os.remove", "unlink"):
                p = g.path(g.after(f), lambda m: m.kind == "end" and m["how"] == "norm", block=lambda m: m in into)
                ck.ob("failure-reported", g.at(f), p is None, "the failed write is forgotten when the staging file cannot be removed: " + g.show_path(p) if p else "")

    def stale_staging(self, into):
        """the existence of a staging file has no influence"""
        ck, g = self.ck, self.g
        srcs = {n["src"] for n in into}
        for m in g.ev("assume", "main"):
            if m["val"] and any(t.op == "exists" and t.args[0] in srcs for t in subterms(m["atom"])):
                p = g.path(g.after(m), lambda z: z.kind == "end", block=lambda z: z in into or z.kind in ("fault", "uexc"))
                ck.ob("stale-staging-ignored", g.at(m), p is None, "a left-over staging file prevents the write: " + g.show_path(p) if p else "")


def read_side(ck, name, g):
    n_open = 0
    for n in g.ev("f_open", "main"):
        n_open += 1
        ck.ob("read-target-only", g.at(n), same(n["path"]) if PATH in set(subterms(n["path"])) else None, f"reads {show(n['path'], 4)}" if not same(n["path"]) else "")
        if is_const(n["mode"]):
            ck.ob("read-mode", g.at(n), not any(c in cval(n["mode"]) for c in "wax+"), f"mode {cval(n['mode'])!r}")
    for n in g.ev(("f_remove", "f_replace", "f_touch", "f_copy"), "main"):
        ck.ob("read-changes-nothing", g.at(n), False, f"{n.kind} while reading")
    for n in g.ev("f_misc", "main"):
        if n["name"] in ("os.utime", "os.truncate"):
            ck.ob("read-changes-nothing", g.at(n), False, n["name"])
    for n in g.ev("f_stat", "main"):
        ok = same(n["path"])
        ck.ob("stat-target-only", g.at(n), ok if PATH in set(subterms(n["path"])) else None, f"looks at {show(n['path'], 4)}" if not ok else "")


def run(ck):
    for s in STORES:
        val = NONE if s == "TouchFileStore" else ENV["VAL"]
        g = ck.analyse(f"{s}.write", WRITE.format(s), {**ENV, "VAL": val}, file_faults=True)
        Staging(ck, g, s + ".write", value=None if s == "TouchFileStore" else val, touch=s == "TouchFileStore").write()
        g = ck.analyse(f"{s}.read", READ.format(s), ENV, file_faults=True)
        read_side(ck, s, g)
        g = ck.analyse(f"{s}.get_modified_time", MTIME.format(s), ENV, file_faults=True)
        read_side(ck, s, g)
    g = ck.analyse("TouchFileStore.write of a value", WRITE.format("TouchFileStore"), ENV, file_faults=True)
    for n in g.replaces if hasattr(g, "replaces") else g.ev("f_replace", "main"):
        ok = any(a.op == "is" and ENV["VAL"] in a.args and NONE in a.args and v or a.op == "eq" and ENV["VAL"] in a.args and v for a, v in n.facts.items())
        ck.ob("touch-value-none", g.at(n), True if ok else None, "")
    g = ck.analyse("staged_write_path", STAGED_PATH, ENV, file_faults=True)
    Staging(ck, g, "staged_write_path", body=True).write()
    for mode in ("w", "wb"):
        g = ck.analyse(f"staged_write {mode}", STAGED.format(mode), ENV, file_faults=True)
        Staging(ck, g, f"staged_write({mode})", value=ENV["VAL"], body=True).write()


def renewed(ck):
    """a write that returns normally has put a new file in place, so that the value counts as newer than what it was computed from"""
    for name in STORES:
        g = ck.analyse(f"{name}.write", WRITE.format(name), ENV)
        put = [n for n in g.ev("f_replace", "main") if same(n["dst"])] + [n for n in g.ev("f_open", "main") if same(n["path"]) and writable(n)] + [n for n in g.ev("f_misc", "main") if str(n["name"]).endswith(("utime", "touch"))]
        if not put:
            ck.ob("write-renews-time", name, None, "how the target is written was not understood")
            continue
        p = g.path([g.root_of("main")], lambda m: m.kind == "end" and m["how"] == "norm", block=lambda m: m in put)
        ck.ob("write-renews-time", name, p is None, "a successful write can leave the modified time as it was, so the value stays out of date: " + g.show_path(p) if p else "")
