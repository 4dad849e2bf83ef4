"""C01: engine release rules over the event graph of run_function_on_graph, and edge-preserving graph surgery in the pruning code."""
from . import engine
from .base import env
from .clients import RUN_PLAIN
from .surgery import Surgery


def scheds(ck):
    return ("default", "random", "cheap") if ck.tier == "thorough" else ("default", "random")


def run(ck):
    for sched in scheds(ck):
        e = engine.Engine(ck, sched)
        e.items()
        e.initial()
        e.release_in_workers()
        e.partition()
        e.no_release_after_failure()
    g = ck.analyse("run without registry", RUN_PLAIN, env(), stub_engine=True)
    s = Surgery(ck, g)
    s.removals()
    engine.graph_passed(ck, g)
