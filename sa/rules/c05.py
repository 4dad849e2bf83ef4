"""C05: the decision table of the staleness check agrees with the specification in both directions; only out of date values get a write, only consumed values get read, nothing is required beyond writes and the output, and everything else is pruned."""
from .c11 import renewed
from .physical import Physical
from .registry import RegistryRun


def run(ck):
    r = RegistryRun(ck)
    r.stale("missed", "spurious", "time", "ends")
    r.insertion("one-read-node", "write-when-stale", "no-write-when-fresh", "up-to-date-cut", "no-needless-read", "consumers-read", "source-not-called", "output-redirected", "others-not-required")
    r.checked_graph()
    r.removals()
    r.pruning()
    r.stale_engine()
    p = Physical(ck, r.g)
    p.calls_once()
    renewed(ck)
