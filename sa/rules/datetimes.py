"""Kinds of datetimes: which values denote an instant independently of the process's zone.

RAW      what a store or the caller supplied: naive local time or aware in any zone
NAIVE    a naive local time
AWARE    aware in an unknown zone
FIXED    aware, with a fixed offset (comparisons use the instant)
UTC      aware in UTC
UTCN     naive UTC
EPOCH    seconds since the epoch
OVF      the replacement for an instant that UTC cannot represent
NONE, UNKNOWN, and BAD:<reason>
"""
from ..terms import NONE, T, cval, is_const, show, subterms
from .stale import FRESH, Families, is_mtime

UTCS = ("datetime.timezone.utc", "datetime.UTC")
GROUP = {"UTC": "aware", "FIXED": "aware", "UTCN": "naive UTC", "EPOCH": "seconds since the epoch"}


def is_utc(t):
    return isinstance(t, T) and t.op in ("ext", "attr") and show(t, 6).replace("dt.", "datetime.") in UTCS


class Kinds:
    def __init__(self, g, raw):
        self.g = g
        self.raw = raw  # term -> bool
        self.fams = []  # Families of the stale check
        self.famkinds = {}
        self.ovf = None

    def is_overflow(self, t):
        """every event that computes t follows the failed conversion of the same value"""
        if self.ovf is None:
            self.ovf = {}
            for n in self.g.ev("dtop"):
                self.ovf.setdefault(n["res"], []).append(n)
        ns = self.ovf.get(t)
        if not ns:
            return False
        g = self.g
        for n in ns:
            src = self.base(t)
            root = g.root_of(n.root)
            # the value has to come from a failed conversion on every path
            if g.path([root], lambda m: m.id == n.id, block=lambda m: m.kind == "dtovf" and self.base(m["val"]) is src) is not None:
                return False
        return True

    def base(self, t):
        while t.op in ("astz", "dtreplace"):
            t = t.args[0]
        return t

    def of(self, t, facts, depth=0):
        """set of kinds of a term"""
        if depth > 30:
            return {"UNKNOWN"}
        o, a = t.op, t.args
        if t is NONE or is_const(t) and cval(t) is None:
            return {"NONE"}
        if self.raw(t):
            for f, v in facts.items():
                if f.op == "eq" and f.args[1] is NONE and f.args[0].op == "attr" and f.args[0].args[0] is t and f.args[0].args[1] == "tzinfo":
                    return {"NAIVE" if v else "AWARE"}
                if f.op == "truthy" and f.args[0].op == "attr" and f.args[0].args[0] is t and f.args[0].args[1] == "tzinfo":
                    return {"AWARE" if v else "NAIVE"}
                if f.op == "eq" and f.args[1] is NONE and f.args[0].op == "dt_utcoffset" and f.args[0].args[0] is t:
                    return {"NAIVE" if v else "AWARE"}
            return {"RAW"}
        sub = lambda x: self.of(x, facts, depth + 1)
        if o == "phi":
            return set().union(*map(sub, a))
        if o in ("max", "min"):
            return set().union(*map(sub, a))
        if o in ("maxof", "minof", "bag", "sorted_"):
            out = set()
            for e in a:
                if isinstance(e, T) and e.op == "ent":
                    fs = dict(facts)
                    for f in e.args[2]:
                        if isinstance(f, T) and f.op == "fact":
                            fs[f.args[0]] = f.args[1]
                    out |= self.of(e.args[0], fs, depth + 1)
                elif isinstance(e, T) and e.op in ("bag",):
                    out |= sub(e)
            return out
        if o == "load":
            return self.load(t)
        if o == "old":
            return sub(a[0])
        if o == "astz":
            tz = a[1]
            out = set()
            for k in sub(a[0]):
                if k in ("NONE", "UNKNOWN", "OVF") or k.startswith("BAD"):
                    out.add(k)
                elif k == "UTCN":
                    out.add("BAD:a naive UTC time is read as local time")
                elif k == "EPOCH":
                    out.add("UNKNOWN")
                elif tz is NONE:
                    out.add("FIXED")
                elif is_utc(tz):
                    out.add("UTC")
                else:
                    out.add("UNKNOWN")
            return out
        if o == "dtreplace":
            out = set()
            kw = dict(a[1])
            over = None
            for k in sub(a[0]):
                if k in ("NONE", "UNKNOWN", "OVF") or k.startswith("BAD"):
                    out.add(k)
                    continue
                if "fold" in kw and k in ("RAW", "NAIVE", "AWARE"):
                    out.add("BAD:which of the two passes of a repeated hour is meant is dropped")
                    continue
                if "tzinfo" in kw:
                    tz = kw["tzinfo"]
                    if over is None:
                        over = self.is_overflow(t)
                    if over:
                        out.add("OVF")
                    elif tz is NONE:
                        out.add({"UTC": "UTCN", "UTCN": "UTCN", "NAIVE": "NAIVE", "SHIFTED": "UTCN"}.get(k, "BAD:the zone is dropped without converting to UTC"))
                    elif is_utc(tz):
                        out.add({"UTCN": "UTC", "UTC": "UTC"}.get(k, "BAD:a time is relabelled as UTC without converting it"))
                    else:
                        out.add("UNKNOWN")
                    continue
                out.add(k)
            return out
        if o == "dt_timestamp":
            return {k if k in ("NONE", "UNKNOWN") or k.startswith("BAD") else "BAD:a naive UTC time is read as local time" if k == "UTCN" else "EPOCH" for k in sub(a[0])}
        if o in ("dt_timetuple", "dt_date", "dt_time", "dt_toordinal", "fmt") or o == "cat" and self.about(t):
            inner = sub(a[0]) if o != "cat" else {"RAW"}
            if inner & {"RAW", "NAIVE", "AWARE", "FIXED"}:
                return {"BAD:wall clock fields are used instead of the instant"}
            return {"UNKNOWN"}
        if o == "sub" and isinstance(a[1], T) and a[1].op == "dt_utcoffset" and a[1].args[0] is a[0]:
            return {"SHIFTED" if k == "AWARE" else k if k in ("NONE", "UNKNOWN") else "UNKNOWN" for k in sub(a[0])}
        if o == "dtfromts":
            return {"NAIVE"} if a[1] is NONE else {"UTC"} if is_utc(a[1]) else {"AWARE"}
        if o == "dtutcfromts":
            return {"UTCN"}
        return {"UNKNOWN"}

    def about(self, t):
        return any(self.raw(x) for x in subterms(t))

    def load(self, t):
        l = t.args[0]
        for fams in self.fams:
            for f in self.keys(fams, l):
                if fams.kind.get(f) == "mtime":
                    return self.family(fams, f)
        return {"UNKNOWN"}

    def keys(self, fams, l):
        if l.op != "loc":
            return
        if l.args[0] == "f" and isinstance(l.args[1], T) and l.args[1].op == "obj":
            yield ("f", l.args[1].args[0], l.args[2])
        if l.args[0] == "d":
            yield ("d", l.args[1])

    def family(self, fams, f):
        k = (fams.g.name, fams.root, f)
        if k in self.famkinds:
            return self.famkinds[k]
        self.famkinds[k] = set()
        for _ in range(4):
            new = set()
            for n, v in fams.writes[f]:
                new |= self.of(v, n.facts)
            if new == self.famkinds[k]:
                break
            self.famkinds[k] = new
        return self.famkinds[k]

    def temporal(self, t):
        return isinstance(t, T) and any(self.raw(x) or x.op == "load" and x.args[0].op == "loc" and any(f.kind.get(k) == "mtime" for f in self.fams for k in self.keys(f, x.args[0])) for x in subterms(t))


def verdict(kinds):
    """(ok, detail) for values that are compared with each other"""
    ks = kinds - {"NONE", "OVF"}
    bad = sorted(k[4:] for k in ks if k.startswith("BAD"))
    if bad:
        return False, "; ".join(bad)
    if "UNKNOWN" in ks:
        return None, f"kinds {sorted(ks)}"
    groups = {GROUP.get(k) for k in ks}
    if ks & {"RAW"}:
        return False, "datetimes are compared as they were supplied: naive ones with aware ones, or by wall clock"
    if "NAIVE" in ks:
        return False, "naive local times are compared by wall clock" + (f" with {sorted(ks - {'NAIVE'})}" if len(ks) > 1 else "") + ": the result depends on the local zone"
    if "AWARE" in ks:
        return False, "aware datetimes are compared as they are: within one zone Python compares the wall clock"
    if None in groups:
        return None, f"kinds {sorted(ks)}"
    if len(groups) > 1:
        return False, f"values of different kinds are compared: {sorted(groups)}"
    return True, f"all operands are {', '.join(sorted(groups)) or 'None'}"


def raw_staleness(t):
    return t is FRESH or t.op == "res" and is_mtime(t.args[1])
