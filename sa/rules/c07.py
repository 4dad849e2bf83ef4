"""C07: termination and shutdown protocol of the engine (task accounting, sentinels, joins, worker survival, complete countdown) and the cycle test that precedes it."""
from . import engine
from .acyclic import Acyclic
from .base import env
from .clients import RUN_PLAIN
from .surgery import Surgery


def scheds(ck):
    return ("default", "random", "cheap") if ck.tier == "thorough" else ("default", "random")


def run(ck):
    for sched in scheds(ck):
        e = engine.Engine(ck, sched)
        e.items()
        e.initial()
        e.partition()
        e.release_in_workers()
        e.successors_processed()
        e.task_done()
        e.shutdown()
        e.worker_never_dies()
        e.failure()
        Acyclic(ck, e.g, e.graph).run(e.starts)
    g = ck.analyse("run without registry", RUN_PLAIN, env(), stub_engine=True)
    s = Surgery(ck, g)
    s.removals()
    engine.graph_passed(ck, g)
