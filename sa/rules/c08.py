"""C08: whatever prefix of the store operations happened, the staleness rule flags every value that was not rewritten (decision table), writes happen in dependency order and never on failed inputs, and file stores replace their file atomically."""
from . import c11
from .physical import Physical
from .registry import RegistryRun


def run(ck):
    r = RegistryRun(ck)
    r.stale("missed", "spurious", "time", "ends")
    r.insertion("write-when-stale", "write-gets-value", "read-after-write", "consumers-read", "dependents-after-write", "source-barrier")
    r.checked_graph()
    r.removals()
    p = Physical(ck, r.g)
    p.failure_propagates()
    c11.run(ck)
