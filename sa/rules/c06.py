"""C06: successors of a failed item are never released, the first failure is recorded and raised, and it leaves run as CallError with the failing call and its own exception."""
from . import engine
from .base import env
from .clients import RUN_PLAIN, RUN_REG_OUT
from .physical import Physical
from .surgery import Surgery


def scheds(ck):
    return ("default", "random", "cheap") if ck.tier == "thorough" else ("default", "random")


def run(ck):
    for sched in scheds(ck):
        e = engine.Engine(ck, sched)
        e.items()
        e.initial()
        e.release_in_workers()
        e.partition()
        e.no_release_after_failure()
        e.failure()
        e.stop_checked()
    g = ck.analyse("run without registry", RUN_PLAIN, env(), stub_engine=True)
    s = Surgery(ck, g)
    s.removals()
    engine.graph_passed(ck, g)
    p = Physical(ck, g)
    p.failure_propagates()
    p.call_error()
    g = ck.analyse("run with registry", RUN_REG_OUT, env(), stub_engine=True)
    p = Physical(ck, g)
    p.failure_propagates()
    p.call_error()
