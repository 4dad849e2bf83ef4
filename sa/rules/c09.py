"""C09: edges and redirects that the registry transformation creates around every stored node, for every valuation of the node's kind and state, and the order-preserving removal of literals afterwards."""
from .registry import RegistryRun


def run(ck):
    r = RegistryRun(ck)
    r.stale("missed")
    r.insertion("one-read-node", "write-when-stale", "write-gets-value", "argument-edges", "read-after-write", "consumers-read", "dependents-after-write", "source-barrier", "source-not-called", "output-redirected")
    r.removals()
