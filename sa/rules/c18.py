"""C18: every datetime that reaches a comparison of the staleness check has been converted to an instant (kind inference over the terms that flow from get_modified_time and fresh_time into comparisons, through the slots that carry modified times along the graph); bundled stores report naive local or aware times."""
from ..terms import NONE, show, subterms
from . import c12, clients, stale
from .base import env, sym
from .datetimes import Kinds, raw_staleness, verdict


def operands(t):
    yield t
    for x in subterms(t):
        if x.op in ("max", "maxof", "min", "minof"):
            yield x


def staleness(ck, g):
    kinds = Kinds(g, raw_staleness)
    roots = stale.stale_roots(g)
    ck.need(roots, "no worker asks value stores for their modified times")
    for r in roots:
        kinds.fams.append(stale.Families(g, r, stale.item_of(g, r)))
    n_cmp = 0
    for n in g.ev("compare"):
        sides = [x for x in (n["l"], n["r"]) if kinds.temporal(x)]
        if not sides:
            continue
        n_cmp += 1
        ks = set()
        for x in (n["l"], n["r"]):
            ks |= kinds.of(x, n.facts)
        ok, why = verdict(ks)
        ck.ob("compared-as-instants", g.at(n), ok, why)
    seen = set()
    for n in g.ev():
        for v in n.data.values():
            if not hasattr(v, "op"):
                continue
            for x in subterms(v):
                if x.op in ("max", "maxof", "min", "minof") and x not in seen and kinds.temporal(x):
                    seen.add(x)
                    n_cmp += 1
                    ok, why = verdict(kinds.of(x, n.facts))
                    ck.ob("compared-as-instants", g.at(n), ok, f"{x.op}: " + why)
    for f in kinds.fams:
        for k in [k for k, w in f.kind.items() if w == "mtime"]:
            ok, why = verdict(kinds.family(f, k))
            ck.ob("carried-as-instants", f"{g.name}:{f.root}:{k[-1] if isinstance(k[-1], str) else 'mapping'}", ok, why)
    ck.stats["comparisons"] += n_cmp
    if not n_cmp:
        ck.ob("compared-as-instants", g.name, None, "no comparison of modified times recognised")


MT = sym("MT", "dt")
SOURCES = """
import uberjob.stores as S
x = S.LiteralSource(VAL, MT).get_modified_time()
y = S.ModifiedTimeSource(MT).get_modified_time()
m = S.PathSource(PATH).get_modified_time()
"""


def reported(ck, g, what, names):
    kinds = Kinds(g, lambda t: t is MT)
    for k in names:
        for n in g.ev("setcell", "main", name=k):
            if n.loc[0] != "client":
                continue
            ks = kinds.of(n["val"], n.facts) - {"NONE"}
            bad = sorted(x[4:] for x in ks if x.startswith("BAD"))
            if bad:
                ck.ob("reported-instant", what, False, "; ".join(bad))
            elif "UTCN" in ks:
                ck.ob("reported-instant", what, False, "reports a naive UTC time, which is read as local time")
            elif "EPOCH" in ks:
                ck.ob("reported-instant", what, False, "does not report a datetime")
            else:
                ck.ob("reported-instant", what, None if "UNKNOWN" in ks else True, f"kinds {sorted(ks)}")


def run(ck):
    for fresh in (True, False):
        g = ck.analyse("run with registry" + (" and fresh_time" if fresh else ""), clients.RUN_REG_OUT, env(FRESH=stale.FRESH) if fresh else env(), stub_engine=True)
        staleness(ck, g)
    for s in c12.FORMAT:
        e = {**c12.ENV, "VAL": NONE} if s == "TouchFileStore" else c12.ENV
        g = ck.analyse(f"{s}.get_modified_time", c12.MTIME.format(s), e)
        reported(ck, g, s + ".get_modified_time", ("m",))
    g = ck.analyse("sources", SOURCES, {"VAL": c12.VAL, "MT": MT, "PATH": c12.PATH})
    reported(ck, g, "sources", ("x", "y", "m"))
