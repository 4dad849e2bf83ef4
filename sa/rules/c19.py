"""C19: interpretation of frame inspection over client programs of every nesting depth: the chain of frames each symbolic call keeps is compared with the frames of the user's line that created it, for calls, gathers, unpacks, registry entries, the calls a run adds and the queries of the stale check; the message is compared with that chain."""
import re

from ..terms import C, NONE, T, cval, is_const, show
from .base import env, sym
from .physical import Physical, NODE_ERROR

CHUNK = 12
LIMIT = 4  # frames, then the marker

HEAD = """
import functools
import inspect
import uberjob
class S1(uberjob.ValueStore):
    def read(self):
        return READ1()
    def write(self, value):
        return WRITE1(value)
    def get_modified_time(self):
        return MTIME1()
class S2(uberjob.ValueStore):
    def read(self):
        return READ2()
    def write(self, value):
        return WRITE2(value)
    def get_modified_time(self):
        return MTIME2()
class S3(uberjob.ValueStore):
    def read(self):
        return READ3()
    def write(self, value):
        return WRITE3(value)
    def get_modified_time(self):
        return MTIME3()
plan = uberjob.Plan()
registry = uberjob.Registry()
n = plan.call(FN)
m = plan.call(FN)
def at():
    return inspect.currentframe().f_back
def h1(k):
    return k()
def h2(k):
    return h1(k)
def h3(k):
    return h2(k)
def h4(k):
    return h3(k)
def h5(k):
    return h4(k)
def h6(k):
    return h5(k)
def h7(k):
    return h6(k)
def helper(p, value):
    x = (p.call(FN, value), at())
    return x
def gen(p):
    yield (p.call(FN), at())
    yield (p.gather([n]), at())
def recursive(p, k):
    if k == 0:
        return (p.call(FN), at())
    return recursive(p, k - 1)
def decorated(f):
    @functools.wraps(f)
    def wrapper(*args):
        return f(*args)
    return wrapper
@decorated
def through(p):
    return (p.call(FN), at())
class Builder:
    def __init__(self, p):
        self.x = (p.call(FN), at())
    def build(self, p):
        return (p.unpack(n, 2), at())
    def scoped(self, p):
        with p.scope("a"):
            return (p.call(FN), at())
builder = Builder(plan)
"""
KINDS = {
    "call": "plan.call(FN)",
    "call with arguments": "plan.call(FN, n, 3, [n, (n, 1)], k={'a': n})",
    "gather": "plan.gather([n, {'k': (n, 2)}])",
    "unpack": "plan.unpack(n, 2)",
    "unpack of a structure": "plan.unpack([n, m], 2)",
    "add": "uberjob.Registry().add(plan.lit(0), S1())",
    "source": "uberjob.Registry().source(plan, S2())",
}
PROGRAMS = {
    "helper function": "helper(plan, n)",
    "helper function with a structure": "helper(plan, [n, 1])",
    "generator": "*gen(plan)",
    "recursive builder": "recursive(plan, 5)",
    "decorated helper": "through(plan)",
    "constructor": "Builder(plan).x",
    "method": "builder.build(plan)",
    "scope": "builder.scoped(plan)",
    "list comprehension": "[(plan.call(FN, i), at()) for i in (1, 2)][1]",
    "partial": "(functools.partial(plan.call, FN)(n), at())",
    "map": "(list(map(plan.call, [FN])), at())",
    "unbound": "(uberjob.Plan.call(plan, FN), at())",
}


class Chains:
    def __init__(self, g):
        self.g = g
        self.fields = {}
        self.cls = {}
        for n in g.nodes[g.base :]:
            if n.kind == "setattr":
                self.fields.setdefault((n["obj"], n["name"]), []).append(n["val"])
            elif n.kind == "alloc":
                self.cls[n["obj"]] = str(n["cls"].args[0] if type(n["cls"]) is T else n["cls"]).rsplit(".", 1)[-1]

    def isframe(self, t):
        return t.op == "obj" and (t, "line") in self.fields and (t, "path") in self.fields

    def one(self, o, f):
        v = list(dict.fromkeys(self.fields.get((o, f), ())))
        return v[0] if len(v) == 1 else None

    def decode(self, t):
        """((name, path, line)..., 'end' or 'truncated'), or None"""
        out = []
        while t is not None and self.isframe(t):
            v = [self.one(t, f) for f in ("name", "path", "line")]
            if any(x is None or not is_const(x) for x in v):
                return None
            out.append(tuple(cval(x) for x in v))
            if len(out) > 40:
                return None
            t = self.one(t, "outer")
        if t is None:
            return None
        if t is NONE:
            return tuple(out), "end"
        if t.op == "obj" and "runcated" in self.cls.get(t, str(t.args[0])):
            return tuple(out), "truncated"
        return None


def expected(frame):
    fr = tuple(x[:3] for x in reversed(frame.args[0]))
    return (fr[:LIMIT], "truncated" if len(fr) > LIMIT else "end")


def text(c):
    return " < ".join(f"{n} {p}:{l}" for n, p, l in c[0]) + (" < truncated" if c[1] == "truncated" else "") or "nothing"


def compare(ck, rule, what, got, want):
    if got is None:
        ck.ob(rule, what, None, "the frames are not understood")
    elif got == want:
        ck.ob(rule, what, True, text(got))
    else:
        ck.ob(rule, what, False, f"{what}: the frames kept are {text(got)} instead of {text(want)}")


FNS = ("FN", "READ1", "READ2", "READ3", "WRITE1", "WRITE2", "WRITE3", "MTIME1", "MTIME2", "MTIME3")
POLICY = dict(full=("get_stack_frame", "CallError"), real_frames=True, rec_depth=9, loop_heads=12)


def cenv(**kw):
    return env(**{f: sym(f, "callable") for f in FNS}, **{k: sym(k, "mark") for k in ("BEGIN", "CASE", "AFTER", "FAILED")}, **kw)


def captured(ck):
    depths = range(7) if ck.tier == "quick" else range(8)
    cases = []
    for k, e in KINDS.items():
        for d in depths:
            body = f"({e}, at())"
            cases.append((f"{k}, {d + 1} frames" if d else f"{k}, module level", f"h{d - 1}(lambda: {body})" if d > 1 else f"(lambda: {body})()" if d else body))
    for k, e in PROGRAMS.items():
        cases.append((k, e))
        cases.append((f"{k}, nested", f"h2(lambda: [{e}])"))
    for k in range(0, len(cases), CHUNK):
        captured_some(ck, cases[k : k + CHUNK])


def captured_some(ck, cases):
    src = HEAD
    for i, (_, e) in enumerate(cases):
        src += f"BEGIN({i})\nCASE({i}, [{e}])\n"
    src += "AFTER()\n"
    g = ck.analyse("frames of symbolic calls", src, cenv(), **POLICY)
    ch = Chains(g)
    marks = [(n, st) for n, st in g.it.marks]
    begin = {cval(n["args"][0]): n.id for n, _ in marks if n["name"] == "BEGIN"}
    ck.need(begin, "the plan of the client is not built")
    for i, (what, e) in enumerate(cases):
        done = [(n, st) for n, st in marks if n["name"] == "CASE" and n["args"][0] is C(i)]
        if not done:
            ck.ob("frames", what, False if i in begin else None, f"{what}: building always fails")
            break
        if len(done) > 1:
            ck.ob("frames", what, None, "several outcomes")
            continue
        n, st = done[0]
        # the frames of the line: every frame object in the value
        want = [expected(t) for t in frames_in(g, st, n["args"][1])]
        if not want:
            ck.ob("frames", what, None, "no frame of the client was taken")
            continue
        got = {}
        for m in g.nodes[begin[i] : n.id]:
            if m.kind == "alloc" and ch.cls.get(m["obj"]) == "Call":
                got.setdefault(m["obj"], None)
            if m.kind == "setattr" and (m["name"] == "stack_frame" or ch.isframe(m["val"])) and not ch.isframe(m["obj"]):
                got[m["obj"]] = m["val"]
        if not got:
            ck.ob("frames", what, None, "nothing keeps frames")
            continue
        for o, v in got.items():
            c = ch.cls.get(o, "?")
            if v is None or v is NONE:
                ck.ob("frames", f"{what}, {c}", False, f"{what}: a {c} keeps no frames")
                continue
            d = ch.decode(v)
            if d is not None and d in want:
                ck.ob("frames", f"{what}, {c}", True, text(d))
            else:
                compare(ck, "frames", f"{what}, {c}", d, want[-1])


def frames_in(g, st, t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t.op == "pyframe":
        return [t]
    out = []
    if t.op == "tup":
        for x in t.args:
            out += frames_in(g, st, x, seen)
    if t.op == "obj":
        r = g.it.crec(st, t)
        if r is not None:
            for e in r.entries:
                if e.val is not None:
                    out += frames_in(g, st, e.val, seen)
    return out


def message(ck):
    """the text of a CallError"""
    src = HEAD
    cases = []
    for d in range(8):
        body = "fail(plan.call(FN), at())"
        cases.append(f"h{d - 1}(lambda: {body})" if d > 1 else f"(lambda: {body})()" if d else body)
    src += "def fail(call, frame):\n    error = uberjob.CallError(call)\n    return (frame, call, error, error.call, error.args[0])\n"
    for i, e in enumerate(cases):
        src += f"CASE({i}, *{e})\n"
    g = ck.analyse("message of CallError", src, cenv(), **POLICY)
    for i, e in enumerate(cases):
        what = f"CallError, {i + 1} frames"
        at = [n for n, _ in g.it.marks if n["args"][0] is C(i)]
        if not at:
            ck.ob("message", what, False if i == 0 or any(n["args"][0] is C(i - 1) for n, _ in g.it.marks) else None, f"{what}: making the error always fails")
            break
        if len({n["args"] for n in at}) > 1 or len(at[0]["args"]) != 6:
            ck.ob("message", what, None, "several outcomes")
            continue
        _, frame, call, err, ecall, msg = at[0]["args"]
        ck.ob("call-of-error", what, True if ecall is call else None if ecall.op in ("load", "attr", "phi") else False, f"CallError(call).call is {show(ecall, 3)}, not the call")
        ls = lines_of(msg)
        if ls is None or frame.op != "pyframe":
            ck.ob("message", what, None, f"the message is not understood: {show(msg, 3)}")
            continue
        want, last = expected(frame)
        pos = []
        for n, p, l in want:
            at_ = [k for k, x in enumerate(ls) if p in x and re.search(rf"\b{l}\b", x) and n in x]
            pos.append(at_[0] if at_ else None)
        if None in pos:
            n, p, l = want[pos.index(None)]
            ck.ob("message", what, False, f"the message of {what} does not list the frame {n} {p}:{l}: {ls[-6:]}")
            continue
        ok = pos == sorted(pos, reverse=True) and len(set(pos)) == len(pos)
        ck.ob("message", what, ok, f"{what}: the frames of the message are not in the order outermost first: {ls[-6:]}" if not ok else "outermost first")
        other = [x for k, x in enumerate(ls) if "File " in x and k not in pos]
        marks = [k for k, x in enumerate(ls) if "truncated" in x]
        if last == "truncated":
            ok = len(marks) == 1 and marks[0] < min(pos)
            ck.ob("message", what + ", marker", ok, f"{what}: the message does not say above the frames that they are truncated: {ls[-6:]}" if not ok else "above the frames")
        else:
            ok = not marks and not other
            ck.ob("message", what + ", marker", ok, f"{what}: the message lists more than the frames: {ls[-6:]}" if not ok else "no marker")


def lines_of(t):
    if is_const(t):
        return str(cval(t)).split("\n")
    if t.op == "cat":
        s = "".join(str(cval(x)) if is_const(x) else "\0" for x in t.args)
        ls = s.split("\n")
        k = max((i for i, x in enumerate(ls) if "\0" in x), default=-1)
        # the name of the function is the only unknown part, and it is in the first line
        return None if k > 0 else ls
    return None


RUN = """
def f1():
    return (plan.call(FN), at())
def f2(x, store):
    return (registry.add(x, store), at())
def f3():
    return (registry.source(plan, S2()), at())
a, frame_a = f1()
_, frame_1 = f2(a, S1())
b, frame_2 = f3()
lit = plan.lit(0)
_, frame_3 = f2(lit, S3())
def f5(out):
    BEGIN(frame_a, frame_1, frame_2, frame_3, a, b)
    return (uberjob.run(plan, output=out, registry=registry, progress=None), AFTER(at()))
f5(OUT)
"""
STORES = {"S1": 1, "S2": 2, "S3": 3}


def runs(ck, out):
    g = ck.analyse(f"run with output {out}", HEAD + RUN.replace("OUT", out), cenv(), stub_engine=True, **POLICY)
    ch = Chains(g)
    begin = [n for n in g.ev("mark") if n["name"] == "BEGIN"]
    ck.need(begin, "run is not reached")
    args = begin[0]["args"]
    if any(x.op != "pyframe" for x in args[:4]):
        ck.ob("frames-of-run", out, None, "the frames of the client are not known")
        return
    frames = [expected(x) for x in args[:4]]
    after = [n for n in g.ev("mark") if n["name"] == "AFTER"]
    runline = expected(after[0]["args"][0]) if after and after[0]["args"][0].op == "pyframe" else None
    sets = [n for n in g.ev("setattr") if n.id > begin[0].id and ch.cls.get(n["obj"]) == "Call" and n["name"] in ("fn", "stack_frame")]
    after_run = {n.id for n in after}
    seen = {}
    for n in sets:
        if n["name"] != "fn":
            continue
        # the frames given to the same object in the same constructor
        got = [m for m in sets if m["name"] == "stack_frame" and m["obj"] is n["obj"] and m.stack == n.stack and m.root == n.root and (m.id in g.fwd([n], stop=lambda x: x.kind == "setattr" and x["obj"] is n["obj"] and x["name"] == "stack_frame") or n.id in g.fwd([m], stop=lambda x: x.kind == "setattr" and x["obj"] is n["obj"] and x["name"] == "fn"))]
        f = n["val"]
        name = None
        if f.op == "fn":
            name = g.it.fns[f.args[0]].qual
        elif f.op == "bm" and f.args[0].op == "fn":
            name = g.it.fns[f.args[0].args[0]].qual
        cls = next((c for c in STORES if name and name.startswith(c + ".")), None)
        for m in got:
            v = m["val"]
            if cls:
                want, rule, what = frames[STORES[cls]], "store-call", f"{name}, output {out}"
            elif n.root == "main" and runline is not None:
                want, rule, what = runline, "call-of-run", f"{name or show(f, 2)}, output {out}"
            else:
                want, rule, what = None, "call-of-run", f"{name or show(f, 2)} made in {n.root}"
            if v is NONE:
                ck.ob(rule, what, False, f"the call of {name or show(f, 2)} made at {g.at(n)} keeps no frames")
                continue
            d = ch.decode(v)
            if want is None:
                ck.ob(rule, what, None, "made by a worker for an unknown store")
            elif cls is None and d is not None and d != want and d in frames:
                ck.ob(rule, what, None, text(d))
            else:
                compare(ck, rule, what, d, want)
            seen.setdefault(cls, set()).add(name)
    for c, want in (("S1", {"S1.read", "S1.write"}), ("S2", {"S2.read"})):
        for w in want - seen.get(c, set()):
            ck.ob("store-call", w, None, "no such call in the physical plan")
    later = [n for n in sets if n["name"] == "stack_frame" and not n.stack[-1:] == ()]
    for n in later:
        if n["obj"] in (args[4], args[5]) and ch.decode(n["val"]) not in ((frames[0],) if n["obj"] is args[4] else (frames[2],)):
            ck.ob("frames-kept", g.at(n), False if ch.decode(n["val"]) or n["val"] is NONE else None, f"the frames of a user's call are replaced at {g.at(n)}")
    stale(ck, g, ch, frames)
    for w in g.workers():
        p = Physical(ck, g, root=w)
        p.failure_propagates()
    p.call_error()


def stale(ck, g, ch, frames):
    """a failed query of the stale check names the item, or a call with the frames of the entry of the item"""
    for w in g.workers()[:-1]:
        items = {n["item"] for n in g.ev("q_get", w)}
        errs = [n for n in g.ev("setattr", w) if n["name"] == "node" and ch.cls.get(n["obj"]) == "NodeError"]
        if not errs:
            ck.ob("query-named", w, None, "no NodeError is made")
        for n in errs:
            v = n["val"]
            if v in items:
                x = v
                # a node that is not a call has no frames
                notcall = any(a.op == "eq" and a.args[0].op == "type" and a.args[0].args[0] is x and not val and "Call" in show(a.args[1]) for a, val in n.facts.items())
                ck.ob("query-named", g.at(n), not notcall, f"the failure of a query of a node that is not a call is attributed at {g.at(n)} to the node, which keeps no frames" if notcall else "the item")
            elif ch.cls.get(v) == "Call":
                iscall = any(a.op == "eq" and a.args[0].op == "type" and a.args[0].args[0] in items and val and show(a.args[1]).endswith(".Call") for a, val in n.facts.items())
                got = [ch.decode(x) for x in ch.fields.get((v, "stack_frame"), ())]
                if iscall and got and all(d in frames[1:] for d in got):
                    ck.ob("query-named", g.at(n), False, f"the failure of a query of a call's value is attributed at {g.at(n)} to the line that registered it, {text(got[0])}, not to the line that created the call")
                else:
                    ck.ob("query-named", g.at(n), None if iscall and not got else True, "a call with the frames of the entry")
            else:
                ck.ob("query-named", g.at(n), None, show(v, 3))


def run(ck):
    captured(ck)
    message(ck)
    for out in ("[a, b]", "None") if ck.tier == "quick" else ("[a, b]", "a", "None", "[lit, (a, [b])]"):
        runs(ck, out)
