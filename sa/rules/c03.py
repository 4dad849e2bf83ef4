"""C03: the decision table of the staleness check never leaves out a value that is missing, older than fresh_time or older than something upstream; out of date values are rewritten from their recomputed value and read back by their consumers; the check visits every registered node after its predecessors."""
from .registry import RegistryRun


def run(ck):
    r = RegistryRun(ck)
    r.stale("missed", "time", "ends")
    r.insertion("one-read-node", "write-when-stale", "write-gets-value", "argument-edges", "read-after-write", "consumers-read", "dependents-after-write", "source-barrier", "source-not-called")
    r.checked_graph()
    r.removals()
    r.stale_engine()
