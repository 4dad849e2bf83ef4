"""C20: the displays interpreted over symbolic clocks, opaque scope values and a finite catalogue of notification histories and render points; on the resulting event graph: no client path ends in an exception, the dataflow into the last output carries the final counts, the terms shown as elapsed time sum (as affine forms over the clock) to the busy time, and the containers shared by notifications and the update thread are guarded by one lock."""
import re
from fractions import Fraction

from ..terms import C, NONE, TRUE, T, cval, is_const, mk, show, subterms
from .base import env, sym

HEAD = """
import uberjob.progress
steps = []
pos = 0
gaps = 0
gap_at = GAP
peek_at = PEEK
peeks = 0
live = False
busy = False
clock = T0
def out(value):
    OUT(value)
obs = (PROGRESS).observer()
A = (H1, "a")
B = (H2, "a")
D = (H1, H3, "d")
F = ("f", 1)
K = ("f", "1")
G = ("g", "x.y")
Z = ()
def act():
    global pos, busy
    busy = True
    k = pos
    pos = k + 1
    if k < len(steps):
        steps[k]()
    busy = False
def step():
    global live
    live = True
    act()
    return pos >= len(steps)
def peek():
    global peeks
    if live:
        peeks = peeks + 1
        if peeks == peek_at and pos < len(steps):
            act()
    return pos >= len(steps)
def during():
    global gaps
    if live and not busy:
        gaps = gaps + 1
        if gaps == gap_at and pos < len(steps):
            act()
def rest():
    while pos < len(steps):
        act()
"""
TAIL = """
BEGIN()
with obs:
    for _i in range(PRE):
        act()
AFTER()
"""
TAIL_RAISES = """
BEGIN()
try:
    with obs:
        for _i in range(PRE):
            act()
        raise E1
except BaseException:
    pass
AFTER()
"""
KINDS = {
    "console": "uberjob.progress.console_progress",
    "html": "uberjob.progress.html_progress(out)",
    "ipython": "uberjob.progress.ipython_progress",
}
PATHKIND = 'uberjob.progress.html_progress("progress.html")'
POLICY = dict(displays=True, risk=True, concrete=True, opaque={"get_elapsed_string": "str", "fully_qualified_name": "str", "get_stack_frame": "frame"})
SCOPES = {"K": ("f", "1"), "A": ("H1", "a"), "B": ("H2", "a"), "D": ("H1", "H3", "d"), "F": ("f", 1), "G": ("g", "x.y"), "Z": ()}


# -- histories: (scope, total) per section, then what happens; every action takes place at its own time
def tot(sec, sc, n):
    return ("total", sec, sc, n)


def run_(sc, sec="run"):
    return ("running", sec, sc)


def ok(sc, sec="run"):
    return ("completed", sec, sc)


def bad(sc, e="E1", sec="run"):
    return ("failed", sec, sc, e)


IDLE = ("idle",)


def many(sc, n, sec="run"):
    return [x for _ in range(n) for x in (run_(sc, sec), ok(sc, sec))]


HISTORIES = {
    "overlap, failure and idle gap": [
        [tot("run", "A", 27), tot("run", "B", 33)],
        [run_("A"), run_("B")],
        [ok("A")],
        [bad("B"), IDLE],
        [run_("B"), ok("B"), run_("A"), IDLE, ok("A")],
    ],
    "stale checks, then calls": [
        [tot("stale", "F", 2), tot("stale", "A", 1), run_("F", "stale"), run_("A", "stale")],
        [ok("F", "stale"), ok("A", "stale"), run_("F", "stale")],
        [ok("F", "stale")],
        [tot("run", "A", 1), tot("run", "B", 1), tot("run", "A", 2)],
        [run_("A"), run_("A"), run_("B"), ok("A"), ok("B")],
        [ok("A"), run_("A"), ok("A")],
    ],
    "nothing to do": [[]],
    "announced, nothing ran": [[tot("run", "A", 5), tot("run", "Z", 4)], [IDLE]],
    "several calls in a scope": [
        [tot("run", "A", 4), tot("run", "F", 12)],
        [run_("A"), run_("A"), run_("F")],
        [ok("A"), IDLE],
        [bad("A", "E2"), ok("F")],
        [IDLE, run_("A"), IDLE, bad("A")],
    ],
    "many scopes of all shapes": [
        [tot("run", s, n) for s, n in (("A", 13), ("B", 14), ("D", 15), ("F", 16), ("G", 17), ("Z", 18), ("K", 19))],
        [run_(s) for s in ("D", "F", "G", "Z")],
        [ok("D"), ok("Z"), bad("F"), ok("G"), run_("K"), ok("K")],
    ],
    "ordered scopes": [
        [tot("run", "G", 1), tot("run", "F", 25), tot("stale", "G", 36)],
        [run_("G"), run_("F")],
        [ok("G"), bad("F")],
        [run_("F"), ok("F")],
    ],
    "a scope finished, another one waits": [
        [tot("run", "A", 1), tot("run", "B", 1), run_("A")],
        [ok("A")],
        [IDLE],
        [run_("B")],
        [ok("B")],
    ],
    "only failures": [
        [tot("run", "A", 2), run_("A"), run_("A")],
        [bad("A"), bad("A", "E2")],
    ],
}


def partitions(n, tier):
    """how the n groups of a history are split over render points: lists of group sizes"""
    yield [n]
    if n > 1:
        yield [1] * n
    if n > 2:
        yield [1, n - 1]
        yield [n - 1, 1]
    if n > 3:
        yield [2] * (n // 2) + ([1] if n % 2 else [])
    if tier == "thorough":
        seen = {(n,), (1,) * n}
        for m in range(1 << (n - 1)):
            p, k = [], 1
            for i in range(n - 1):
                if m >> i & 1:
                    p.append(k)
                    k = 1
                else:
                    k += 1
            p.append(k)
            if tuple(p) not in seen:
                seen.add(tuple(p))
                yield p


def source(groups):
    """client functions s0, s1, ...: one per render point"""
    src, names, t = "", [], 0
    for i, acts in enumerate(groups):
        src += f"def s{i}():\n    global clock\n"
        for a in acts:
            t += 1
            src += f"    clock = T{t}\n"
            if a[0] == "idle":
                continue
            kw = {"total": ", amount=%s", "failed": ", exception=%s"}.get(a[0], "")
            src += f"    obs.increment_{a[0]}(section={a[1]!r}, scope={a[2]}{kw % a[3] if kw else ''})\n"
        if not acts:
            src += "    pass\n"
        names.append(f"s{i}")
    return src + f"steps = [{', '.join(names)}]\n", t


def facts_of(groups):
    """final counts per (section, scope); busy time (affine form over the clock) up to each time"""
    counts, busy, n, acc = {}, {0: {}}, 0, {}
    t = 0
    for a in [x for g in groups for x in g]:
        t += 1
        if n:
            acc = plus(acc, {f"T{t}": Fraction(1), f"T{t - 1}": Fraction(-1)})
        busy[t] = acc
        if a[0] == "idle":
            continue
        c = counts.setdefault((a[1], a[2]), [0, 0, 0])
        if a[0] == "total":
            c[2] += a[3]
        elif a[0] == "running":
            n += 1
        else:
            n -= 1
            c[0 if a[0] == "completed" else 1] += 1
    return counts, busy


# -- affine forms over the clock -----------------------------------------------
def plus(a, b, k=1):
    r = dict(a)
    for x, v in b.items():
        r[x] = r.get(x, 0) + k * v
    return {x: v for x, v in r.items() if v}


class Lossy(Exception):
    """the term drops part of the time"""


def nonneg(a):
    """a sum of spans between increasing times"""
    ks = sorted((int(x[1:]), v) for x, v in a.items() if x[:1] == "T")
    acc = 0
    for _, v in reversed(ks):
        acc += v
        if acc < 0:
            return False
    return acc == 0 and len(ks) == len(a)


def affine(t):
    if t.op in ("max", "maxof") and len(t.args) == 2:
        for x, y in (t.args, t.args[::-1]):
            if isinstance(x, T) and is_const(x) and cval(x) == 0:
                a = affine(y)
                return a if a is not None and nonneg(a) else None
    if t.op in ("min", "minof", "floordiv") or t.op == "int" and t.args[0] in ("trunc", "round"):
        if any(x.op == "sym" and str(x.args[0])[:1] == "T" for x in subterms(t)):
            raise Lossy(t)
    if is_const(t):
        v = cval(t)
        return ({"": Fraction(v)} if v else {}) if type(v) in (int, float) else None
    if t.op == "sym" and (str(t.args[0])[:1] == "T" or t.args[0] == "MONO"):
        return {t.args[0]: Fraction(1)}
    if t.op in ("add", "sub"):
        a, b = affine(t.args[0]), affine(t.args[1])
        return None if a is None or b is None else plus(a, b, 1 if t.op == "add" else -1)
    if t.op in ("mul", "div"):
        a, b = affine(t.args[0]), affine(t.args[1])
        if a is None or b is None:
            return None
        if set(b) <= {""} and (t.op == "mul" or b):
            k = b.get("", Fraction(0))
            return {x: v * k if t.op == "mul" else v / k for x, v in a.items() if v * k}
        if t.op == "mul" and set(a) <= {""}:
            k = a.get("", Fraction(0))
            return {x: v * k for x, v in b.items() if v * k}
    return None


def saff(a):
    return " + ".join(f"{v}*{x}" if x else str(v) for x, v in sorted(a.items())) or "0"


# -- what a rendering says -----------------------------------------------------
class Text:
    """a rendered text: constant parts, and placeholders for the terms in it"""

    def __init__(self, t):
        self.leaves = []
        self.idx = {}
        self.text = self.flat(t)

    def leaf(self, t):
        if t not in self.idx:
            self.idx[t] = len(self.leaves)
            self.leaves.append(t)
        return chr(0xE000 + self.idx[t])

    def flat(self, t):
        if is_const(t):
            return str(cval(t))
        if t.op == "cat":
            return "".join(self.flat(x) for x in t.args)
        if t.op == "strcall":
            return self.flat(t.args[1])
        if t.op in ("encode", "decode"):
            return self.flat(t.args[0])
        if t.op == "strof" and t.args[0] != "get_elapsed_string" and len(t.args) > 1 and type(t.args[1]) is tuple and len(t.args[1]) == 1:
            pass
        return self.leaf(t)

    def of(self, ch):
        return self.leaves[ord(ch) - 0xE000]


def is_elapsed(t):
    return t.op == "strof" and "elapsed" in str(t.args[0])


def scope_key(name):
    return ", ".join(str(x) for x in SCOPES[name])


def rows_of(text, html):
    """[(scope text, numbers text, elapsed term)] of the lines that show a scope"""
    w = Text(text)
    out = []
    s = w.text
    for ch in re.split(r"</tr>|<tr", s) if html else s.split("\n"):
        es = [c for c in ch if c >= "\uE000" and c <= "\uF8FF" and is_elapsed(w.of(c))]
        if len(es) != 1:
            continue
        if html:
            if "<td" not in ch:
                continue
            ch = ch[ch.find("<td") :]
        a, b = ch.split(es[0], 1)
        if not html and not re.search(r"\d", a):
            continue
        strip = lambda x: re.sub(r"\s+", " ", re.sub(r"<[^>]*>", "", x)).strip(" |;:\n\t")
        name = "".join(str(w.of(c).args[0]) if "\uE000" <= c <= "\uF8FF" and w.of(c).op == "sym" else c for c in strip(b)).replace("\u200B", "")
        if html and name == "Total":
            continue
        out.append((name, strip(a), w.of(es[0]).args[1]))
    return out


class Shown:
    """one path of a client: what was shown, in order"""

    def __init__(self, ck, g, kind, n, st):
        self.g, self.kind, self.st = g, kind, st
        self.pages = [(p.args[0], p.args[1]) for p in st.cells.get(("m:client", "shown"), T_EMPTY).args]
        if kind == "ipython":
            self.pages = self.widgets(st)

    def widgets(self, st):
        """the texts of the labels that hang under the displayed widget, at the end"""
        it = self.g.it
        seen, out = set(), []

        def go(o):
            if o in seen or o.op != "obj":
                return
            seen.add(o)
            r = it.rec(st, o)
            if r is None:
                return
            if r.kind == "inst" and r.cls is not None and r.cls.op == "ext":
                v = r.fields.get("value")
                if v is not None and (v.op == "cat" or is_const(v)):
                    out.append(v)
                ch = r.fields.get("children")
                if ch is not None:
                    go(ch)
            elif it.definite_seq(st, o) is not None:
                for x in it.definite_seq(st, o):
                    go(x)

        for v in st.cells.get(("m:client", "displayed"), T_EMPTY).args:
            go(v)
        t = st.cells.get(("m:client", "clock"))
        parts = []
        for v in out:
            parts += [v, C("\n")]
        return [(t, mk("cat", *parts))] if parts else []


T_EMPTY = mk("tup")


def cenv():
    return env(
        **{k: sym(k, "mark") for k in ("OUT", "BEGIN", "INSIDE", "AFTER")},
        **{f"T{i}": sym(f"T{i}", "float") for i in range(60)},
        **{f"H{i}": sym(f"H{i}", "hashable") for i in range(1, 5)},
        E1=sym("E1", "userexc"),
        E2=sym("E2", "userexc"),
    )


class Display:
    """obligations of one kind of display"""

    def __init__(self, ck, kind):
        self.ck, self.kind = ck, kind
        self.ref = {}

    def graph(self, groups, what, gap=0, peek=0, pre=0, expr=None, tail=TAIL, **policy):
        src, _ = source(groups)
        head = HEAD.replace("PROGRESS", expr or KINDS[self.kind]).replace("GAP", str(gap)).replace("PEEK", str(peek))
        return self.ck.analyse(f"{self.kind}: {what}", head + src + tail.replace("PRE", str(pre)), cenv(), **{**POLICY, "print_ok": True, **policy})

    # -- rule 1: nothing is raised
    def raises(self, g, what):
        ends = [n for n in g.ev("end", "main")]
        self.ck.need(ends, f"{what}: the client does not end")
        bad = False
        for n in ends:
            if n["how"] == "norm":
                continue
            bad = True
            x = self.cause(g, n)
            self.ck.ob("rendering-raises", g.at(x), False, f"{self.kind} display, {what}: {x.get('how', 'raise') if x.kind == 'risk' else show(x.get('exc', NONE), 3)} ends the update thread; no rendering follows")
        if not bad:
            self.ck.ob("rendering-raises", what, True)
        return bad

    def cause(self, g, end):
        """the event the exception comes from"""
        back = g.bwd([end.id])
        exc = end.get("exc")
        src = [g.nodes[x] for x in back if g.nodes[x].kind in ("raise", "uexc", "risk")]
        own = [n for n in src if n.kind != "risk" and n.get("exc") is exc]
        if own:
            first = min(own, key=lambda n: n.id)
            risk = [n for n in src if n.kind == "risk" and n.loc == first.loc]
            return max(risk, key=lambda n: n.id) if risk else first
        return max(src, key=lambda n: n.id) if src else end

    # -- rules 2 and 3: what is shown
    def shown(self, g, groups, what, exact):
        counts, busy = facts_of(groups)
        hist = what.split(" [")[0]
        last_ev = [n for n in g.ev("mark", "main") if n["name"] == "OUT"] + [n for n in g.ev("print", "main") if n["file"] is NONE]
        where = g.at(last_ev[-1]) if last_ev else f"{self.kind} display"
        ths = g.ev("thread_start", "main")
        for n, st in g.it.marks:
            if n["name"] != "AFTER":
                continue
            w = Shown(self.ck, g, self.kind, n, st)
            html = self.kind == "html"
            if not w.pages:
                self.ck.ob("final-rendering", g.at(ths[-1]) if ths else where, (False if any(m["name"] == "THREAD" for m in g.ev("mark", "main")) else None) if counts else True, f"{self.kind} display, {what}: nothing is shown")
                continue
            rows, latest, aff_ok = [], {}, True
            for k, (clock, page) in enumerate(w.pages):
                rs = rows_of(page, html)
                if self.kind != "console":
                    rows, latest = [], {}
                for nm, txt, el in rs:
                    m = re.search(r"/\s*(\d+)", txt)
                    total = int(m.group(1)) if m else None
                    rows.append((nm, total, txt))
                    latest[nm, total] = (txt, el)
                # busy time attributed so far
                t = int(clock.args[0][1:]) if clock.op == "sym" else None
                if t is not None and (exact or k == len(w.pages) - 1) and latest:
                    self.elapsed(g, what, where, latest, busy.get(t))
            final = {}
            for (sec, sc), (c, f, total) in counts.items():
                nm = scope_key(sc)
                nm = {"A": "H1, a", "B": "H2, a", "D": "H1, H3, d"}.get(sc, nm)
                r = [txt for a, b, txt in rows if a == nm and b == total]
                if not r:
                    anyrow = any(a == nm for a, b, txt in rows)
                    ok = False if anyrow or rows or hist in self.ref else None
                    self.ck.ob("final-counts", where, ok, f"{self.kind} display, {what}: the last rendering does not show scope ({nm}) of section {sec} with total {total}")
                    continue
                final[sec, sc] = r[-1]
                nums = [int(x) for x in re.findall(r"\d+", r[-1])]
                need = [c, total] + ([f] if f else [])
                ok = all(x in nums for x in need)
                self.ck.ob("final-counts", where, ok, "" if ok else f"{self.kind} display, {what}: the last rendering shows ({nm}) as {r[-1]!r}; final: {c} completed, {f} failed, total {total}")
            ref = self.ref.setdefault(hist, final)
            for k, v in final.items():
                if k in ref and ref[k] != v:
                    self.ck.ob("final-counts", where, False, f"{self.kind} display, {what}: the last rendering shows {k} as {v!r}, rendered at once it is {ref[k]!r}")

    def elapsed(self, g, what, where, latest, want):
        acc = {}
        for txt, el in latest.values():
            el = el[0] if type(el) is tuple and el else el
            try:
                a = affine(el.args[1] if el.op == "int" and el.args[0] in ("trunc", "round") else el)
            except Lossy as e:
                self.ck.ob("elapsed-adds-up", where, False, f"{self.kind} display, {what}: part of the time is dropped in {show(e.args[0], 3)}")
                return
            if a is None:
                self.ck.ob("elapsed-adds-up", where, None, f"{what}: elapsed time not an affine form over the clock")
                return
            acc = plus(acc, a)
        if want is None:
            return
        ok = acc == want
        if not ok:
            src = [n for n in g.ev("setattr", "main") if any(n["val"] in list(subterms(el[0])) for _, el in latest.values() if type(el) is tuple and not is_const(el[0]))]
            where = g.at(src[-1]) if src else where
        self.ck.ob("elapsed-adds-up", where, ok, "" if ok else f"{self.kind} display, {what}: scopes add up to {saff(acc)}, calls were running for {saff(want)}")

    def one(self, groups, what, exact=True, **kw):
        g = self.graph(groups, what, **kw)
        waited_rule(self.ck, g, self.kind, what)
        if not self.raises(g, what):
            self.shown(g, groups, what, exact)
        return g


def merge(groups, sizes):
    out, i = [], 0
    for n in sizes:
        out.append([x for g in groups[i : i + n] for x in g])
        i += n
    return out


# -- rule 4: one lock guards what notifications and the update thread share -----
def in_client_step(g, n):
    """the notification the event belongs to, or None"""
    for i, f in enumerate(n.stack):
        if type(f[0]) is int:
            q = g.it.fns[f[0]]
            if q.mod.name == "client" and re.fullmatch(r"s\d+", q.qual):
                return n.stack[: i + 2]
    return None


def locks_rule(ck, g, kind):
    thread = [n for n in g.ev("mark", "main") if n["name"] == "THREAD"]
    if not thread:
        return
    objs = lambda t: {x for x in subterms(t) if x.op == "obj"}
    begin = [n for n in g.ev("mark", "main") if n["name"] == "BEGIN"]
    old = {n["obj"] for n in g.ev("alloc", "main") if begin and n.id < begin[0].id}
    writes = {}
    evs = [n for n in g.nodes[g.base :] if n.root == "main" and n.id > thread[0].id]
    for n in evs:
        if in_client_step(g, n) is None:
            continue
        if n.kind in ("setattr", "mut", "cadd", "popped") and n["obj"].op == "obj":
            writes.setdefault(n["obj"], []).append(n)
    shared = {o for o in writes if len({in_client_step(g, n) for n in writes[o]}) > 1 or o in old}
    for o in shared:
        for n in writes[o]:
            const = n.kind == "setattr" and is_const(n["val"])
            if not n.locks and not const:
                ck.ob("guarded-update", g.at(n), False, f"{kind} display: a notification changes {show(o, 2)} without a lock; concurrent notifications lose updates")
            elif not const:
                ck.ob("guarded-update", g.at(n), True)
    for n in evs:
        # a dirty mark made before the update it announces
        if n.kind == "setattr" and is_const(n["val"]) and not n.locks and in_client_step(g, n) and n["obj"] in shared:
            s = in_client_step(g, n)
            later = [m for m in evs if m.id > n.id and in_client_step(g, m) == s and m.locks and m.kind in ("setattr", "mut", "cadd") and m["obj"] in shared]
            ck.ob("mark-then-update", g.at(n), False if later else True, f"{kind} display: {n['name']} is set outside the lock before the update at {g.at(later[0]) if later else '?'}: a rendering in between clears it and the update is never shown")
        if n.kind in ("iter", "fill", "snapshot") and in_client_step(g, n) is None:
            t = n.get("coll") or n.get("src")
            if t is None:
                continue
            for o in objs(t) & shared:
                ws = [m for m in writes[o] if m.kind in ("mut", "cadd", "popped")]
                if not ws:
                    continue
                ok = all(set(n.locks) & set(m.locks) for m in ws)
                ck.ob("guarded-iteration", g.at(n), ok, "" if ok else f"{kind} display: iterates over {show(o, 2)} while notifications change it ({g.at(ws[0])}) without a common lock")


def clamp_rule(ck, g, kind):
    """a bar's value is clamped to its maximum when it is set"""
    for o in {n["obj"] for n in g.ev("setattr", "main") if n["obj"].op == "obj"}:
        es = [n for n in g.ev("setattr", "main") if n["obj"] is o]
        names = [n["name"] for n in es]
        if "max" in names and "value" in names and "IntProgress" in show(o, 2):
            v, m = names.index("value"), names.index("max")
            early = v < m and not (is_const(es[v]["val"]) and cval(es[v]["val"]) == 0)
            ck.ob("bar-maximum-first", g.at(es[v]), not early, "" if not early else f"{kind} display: the value of a bar is set while its maximum is still the default: larger values are cut")


def joined_rule(ck, g, kind):
    """the event the update thread waits for is set before it is joined"""
    sets = g.ev("event_set", "main")
    for j in g.ev("thread_join", "main"):
        ok = any(s.id < j.id for s in sets)
        ck.ob("told-to-stop", g.at(j), True if ok else (None if not g.ev("event_set", "main") else False), "" if ok else f"{kind} display: the update thread is joined before it is told to stop")


def waited_rule(ck, g, kind, what):
    """the observer is not left while a thread that dies with the process has still to render the final state"""
    after = {n.id for n, _ in g.it.marks if n["name"] == "AFTER"}
    for t in g.ev("thread_start", "main"):
        daemon = t["daemon"] is TRUE or any(n["obj"] is t["thread"] and n["name"] == "daemon" and n["val"] is TRUE for n in g.ev("setattr", "main"))
        if not daemon:
            continue
        p = g.path([t.id], lambda m: m.id in after, block=lambda m: m.kind == "thread_join" and m["thread"] is t["thread"])
        ck.ob("final-before-exit", g.at(t), p is None, "" if p is None else f"{kind} display, {what}: left without waiting for its daemon thread: " + g.show_path(p))


def file_rule(ck, g):
    """what is written suits the mode of the file, and can be encoded"""
    opens = {n["obj"]: n for n in g.ev("f_open", "main")}
    ws = g.ev("f_write", "main")
    if not ws:
        ck.ob("written-text", "html display", None, "no write to a file found")
    for n in ws:
        o = opens.get(n["file"])
        if o is None or not is_const(o["mode"]):
            ck.ob("written-text", g.at(n), None)
            continue
        binary = "b" in cval(o["mode"])
        data = n["data"]
        if binary:
            ok = False if data.op == "cat" or is_const(data) and data.args[0] == "str" else True
            why = "text is written to a file opened for bytes"
        else:
            kw = show(o["kw"], 6)
            ok = data.op != "encode" and ("errors" in kw and "strict" not in kw)
            why = "bytes are written to a text file" if data.op == "encode" else "text that need not be encodable is written without an error handler"
        ck.ob("written-text", g.at(n), ok, "" if ok else f"html display: {why}")


def run(ck):
    th = ck.tier == "thorough"
    for kind in KINDS:
        d = Display(ck, kind)
        for hist, groups in HISTORIES.items():
            for k, sizes in enumerate(partitions(len(groups), ck.tier)):
                gs = merge(groups, sizes)
                g = d.one(gs, f"{hist} [{'+'.join(map(str, sizes))}]" if k else hist)
                if k == 0:
                    clamp_rule(ck, g, kind)
                if k == 1 and hist.startswith("overlap") or k == 0 and len(groups) == 1:
                    locks_rule(ck, g, kind)
                    joined_rule(ck, g, kind)
            n = len(groups)
            if n > 1 and (th or hist.startswith(("overlap", "stale"))):
                gs = merge(groups, [n - 1, 1])
                d.one(merge(groups, [n]), f"{hist} [before the thread waits]", pre=1)
                d.one(gs, f"{hist} [the run fails]", tail=TAIL_RAISES)
                for gap in range(1, 9 if th else 5):
                    d.one(gs, f"{hist} [last change at gap {gap}]", exact=False, gap=gap)
                    if th:
                        d.one(groups, f"{hist} [change at gap {gap}]", exact=False, gap=gap)
                for pk in range(1, 3):
                    d.one(gs, f"{hist} [last change at query {pk}]", exact=False, peek=pk)
    d = Display(ck, "console")
    g = d.graph(merge(HISTORIES["overlap, failure and idle gap"], [5]), "the console cannot encode the text", print_ok=False)
    d.raises(g, "the console cannot encode the text")
    d = Display(ck, "html")
    g = d.graph(merge(HISTORIES["overlap, failure and idle gap"], [5]), "written to a file", expr=PATHKIND)
    d.raises(g, "written to a file")
    file_rule(ck, g)
