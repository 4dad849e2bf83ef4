from pathlib import Path
ENG = "src/uberjob/_execution/run_function_on_graph.py"
SCH = "src/uberjob/_execution/scheduler.py"
NXU = "src/uberjob/_util/networkx_util.py"
PRU = "src/uberjob/_transformations/pruning.py"
CAC = "src/uberjob/_transformations/caching.py"
PHY = "src/uberjob/_execution/run_physical.py"
RUN = "src/uberjob/_run.py"
RETRY = "src/uberjob/_util/retry.py"

SEEDS = {
"c01-barrier-chain": dict(prop="C01", edits=[(PRU, """        plan.graph.add_edge(predecessor, successor, Dependency())
    plan.graph.remove_node(literal)""", """        if type(predecessor) is Call or type(successor) is Call:
            plan.graph.add_edge(predecessor, successor, Dependency())
    plan.graph.remove_node(literal)"""), (PRU, "from uberjob.graph import Dependency, Literal, Node", "from uberjob.graph import Call, Dependency, Literal, Node")],
needs="a dependency that runs through three consecutive order-only literals", breaks="edges between two literals are not reconnected when the literal between them is pruned, so the order of the calls at the ends of the chain is lost",
demo="""
import time, uberjob
log = []
def first():
    time.sleep(0.5)
    log.append("first done")
def second():
    log.append("second started")
plan = uberjob.Plan()
a = plan.call(first)
lits = [plan.lit(i) for i in range(3)]
b = plan.call(second)
# the middle literal is pruned first when it was created first
m = lits[0]
plan.add_dependency(a, lits[1]); plan.add_dependency(lits[1], m)
plan.add_dependency(m, lits[2]); plan.add_dependency(lits[2], b)
uberjob.run(plan, output=b, max_workers=4, progress=False)
assert log == ["first done", "second started"], log
"""),
"c01-count-unlocked": dict(prop="C01", edits=[(ENG, """                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)
""", """                    with remaining_pred_count_lock:
                        remaining = remaining_pred_count_mapping[successor] - 1
                        remaining_pred_count_mapping[successor] = remaining
                    if remaining <= max(0, len(graph.pred[successor]) - 8):
                        queue.put(successor)
""")],
needs="a call with more than eight distinct dependencies", breaks="a call with nine or more dependencies is started when eight of them have finished (and again afterwards)",
demo="""
import threading, time, uberjob
done = set()
lock = threading.Lock()
bad = []
def dep(i):
    time.sleep(0.02 * i)
    with lock:
        done.add(i)
    return i
def join(*args):
    if len(done) < 10:
        bad.append(sorted(done))
plan = uberjob.Plan()
xs = [plan.call(dep, i) for i in range(10)]
out = plan.call(join, *xs)
try:
    uberjob.run(plan, output=out, max_workers=10, progress=False)
except BaseException as e:
    bad.append(e)
assert not bad, bad
"""),
"c04-random-queue-put": dict(prop="C04", edits=[(SCH, """        i = random.randrange(len(self.queue))
        self.queue[i], self.queue[-1] = self.queue[-1], self.queue[i]""", """        i = random.randrange(len(self.queue))
        if i + 1 < len(self.queue) - 1:
            self.queue[i] = self.queue[-1]
            self.queue[-1] = self.queue[i + 1]
            self.queue[i + 1] = item
        else:
            self.queue[i], self.queue[-1] = self.queue[-1], self.queue[i]""")],
needs="the random scheduler with at least three queued items when an item is added", breaks="the online shuffle of the random scheduler drops one queued item and duplicates another",
demo="""
import random, sys, threading, uberjob
from uberjob._execution.scheduler import create_queue
import networkx as nx
import faulthandler
faulthandler.dump_traceback_later(60, exit=True)
random.seed(0)
for seed in range(30):
    random.seed(seed)
    q = create_queue(nx.MultiDiGraph(), list(range(5)), "random")
    for i in range(5, 12):
        q.put(i)
    got = sorted(q.get_nowait() for _ in range(12))
    assert got == list(range(12)), got
"""),
"c04-single-parent-parallel": dict(prop="C04", edits=[(ENG, "                if successor in single_parent_nodes:\n                    queue.put(successor)", "                if successor in single_parent_nodes:\n                    for _ in range(max(1, graph.number_of_edges(node, successor) - 2)):\n                        queue.put(successor)")],
needs="a call that uses the same predecessor for four of its arguments and depends on nothing else", breaks="a node whose only predecessor feeds it through four edges is released twice",
demo="""
import threading, uberjob
n = []
lock = threading.Lock()
def f():
    return 1
def g(*a):
    with lock:
        n.append(1)
    return sum(a)
plan = uberjob.Plan()
x = plan.call(f)
y = plan.call(g, x, x, x, x)
assert uberjob.run(plan, output=y, progress=False) == 4
assert len(n) == 1, len(n)
"""),
"c04-keep-side-calls": dict(prop="C04", edits=[(NXU, """        frontier.extend(graph.predecessors(node))
    return visited""", """        for predecessor in graph.predecessors(node):
            frontier.append(predecessor)
            if len(graph.pred[predecessor]) > 2:
                frontier.extend(
                    s for s in graph.successors(predecessor) if not graph.succ[s]
                )
    return visited""")],
needs="a needed call with more than two dependencies that has another, unneeded consumer", breaks="unneeded sinks that hang off a needed call are executed",
demo="""
import uberjob
ran = []
def f(*a):
    return 0
def side(x):
    ran.append(1)
plan = uberjob.Plan()
a, b, c = (plan.call(f) for _ in range(3))
d = plan.call(f, a, b, c)
plan.call(side, d)
out = plan.call(f, d)
uberjob.run(plan, output=out, progress=False)
assert not ran
"""),
"c06-last-error": dict(prop="C06", edits=[(ENG, """                if not first_node_error:
                    first_node_error = coerce_node_error(node, exception)
""", """                if not first_node_error or (
                    max_errors and error_count == max_errors
                ):
                    first_node_error = coerce_node_error(node, exception)
""")],
needs="max_errors >= 2 and at least that many failures with one worker", breaks="the raised error is not the first failure but the max_errors-th",
demo="""
import uberjob
order = []
def fail(i):
    order.append(i)
    raise ValueError(i)
def join(*a):
    pass
plan = uberjob.Plan()
xs = [plan.call(fail, i) for i in range(4)]
out = plan.call(join, *xs)
try:
    uberjob.run(plan, output=out, max_workers=1, max_errors=2, progress=False)
except uberjob.CallError as e:
    assert e.__cause__.args[0] == order[0], (e.__cause__, order)
else:
    assert False
"""),
"c06-cause-chain": dict(prop="C06", edits=[(PHY, """                raise NodeError(node) from exception
            finally:""", """                if type(exception.__cause__) is type(exception):
                    exception = exception.__cause__
                raise NodeError(node) from exception
            finally:""")],
needs="a call that raises an exception whose explicit cause (raise X from Y) has the same type", breaks="CallError.__cause__ is the cause of the exception the call raised, not that exception",
demo="""
import uberjob
top = ValueError("top")
def fail():
    try:
        int("k")
    except ValueError as e:
        raise top from e
plan = uberjob.Plan()
out = plan.call(fail)
try:
    uberjob.run(plan, output=out, progress=False)
except uberjob.CallError as e:
    assert e.__cause__ is top, e.__cause__
else:
    assert False
"""),
"c07-cycle-scheduler": dict(prop="C07", edits=[(ENG, "    assert_acyclic(graph)\n", "    if graph.number_of_edges() <= 4 * len(graph):\n        assert_acyclic(graph)\n")],
needs="a cyclic plan with more than four edges per node", breaks="dense graphs are not tested for cycles and run() returns a silently partial result",
demo="""
import uberjob
def f(*a):
    return 1
plan = uberjob.Plan()
a = plan.call(f)
b = plan.call(f, *[a] * 20)
plan.add_dependency(b, a)
try:
    uberjob.run(plan, output=b, progress=False)
except Exception:
    pass
else:
    assert False, "cycle not reported"
"""),
"c07-self-loop": dict(prop="C07", edits=[(NXU, """        for successor in succ[node]:
            pred_count_mapping[successor] -= 1
            if pred_count_mapping[successor] == 0:
                q.append(successor)
        yield node

    if any(pred_count_mapping.values()):""", """        for successor in succ[node]:
            pred_count_mapping[successor] -= 1
            if pred_count_mapping[successor] == 0:
                q.append(successor)
        yield node

    if not any(pred_count_mapping.values()):
        return
    if len(graph) - sum(map(bool, pred_count_mapping.values())) < len(pred) // 2:""")],
needs="a cycle that involves less than half of the nodes", breaks="small cycles in a large plan are not reported, the calls on and behind them silently never run",
demo="""
import uberjob
ran = []
def f(*a):
    ran.append(1)
plan = uberjob.Plan()
xs = [plan.call(f) for _ in range(20)]
a = plan.call(f)
b = plan.call(f, a)
plan.add_dependency(b, a)
out = plan.call(f, b, *xs)
try:
    uberjob.run(plan, output=out, progress=False)
except Exception:
    pass
else:
    assert False, "cycle not reported"
assert not ran
"""),
"c07-worker-dies": dict(prop="C07", edits=[(ENG, """        except BaseException as exception:
            with failure_lock:""", """        except (Exception, KeyboardInterrupt) as exception:
            with failure_lock:""")],
needs="a call that raises SystemExit (or another BaseException) in every worker while work is left", breaks="a BaseException other than KeyboardInterrupt kills the worker: its failure is lost, and with one worker the run hangs",
demo="""
import sys, threading, os, uberjob
def die():
    sys.exit(3)
def f(*a):
    return 1
plan = uberjob.Plan()
xs = [plan.call(die) for _ in range(4)]
out = plan.call(f, *xs)
res = []
def go():
    try:
        uberjob.run(plan, output=out, max_workers=1, max_errors=None, progress=False)
        res.append("returned")
    except uberjob.CallError:
        res.append("CallError")
t = threading.Thread(target=go, daemon=True)
t.start()
t.join(20)
if res != ["CallError"]:
    print(res)
    os._exit(1)
os._exit(0)
"""),
"c10-stale-workers": dict(prop="C10", edits=[(RUN, "                    max_workers=stale_check_max_workers,", "                    max_workers=max(stale_check_max_workers, max_workers or 1)\n                    if stale_check_max_workers\n                    else None,")],
needs="stale_check_max_workers smaller than max_workers", breaks="more than stale_check_max_workers modified-time queries run at once",
demo="""
import datetime as dt, threading, time, uberjob
from uberjob import ValueStore
lock = threading.Lock()
cur = [0]; top = [0]
class S(ValueStore):
    def read(self): return 1
    def write(self, v): pass
    def get_modified_time(self):
        with lock:
            cur[0] += 1; top[0] = max(top[0], cur[0])
        time.sleep(0.05)
        with lock:
            cur[0] -= 1
        return dt.datetime(2020, 1, 1)
plan = uberjob.Plan(); reg = uberjob.Registry()
for i in range(8):
    reg.source(plan, S())
uberjob.run(plan, registry=reg, max_workers=6, stale_check_max_workers=1, progress=False)
assert top[0] == 1, top
"""),
"c10-retry-extra": dict(prop="C10", edits=[(RETRY, """            for attempt_index in range(attempts):
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    is_last_attempt = attempt_index == attempts - 1
                    if is_last_attempt:
                        raise""", """            first_exception = None
            for attempt_index in range(attempts):
                try:
                    return f(*args, **kwargs)
                except exc_type as exception:
                    first_exception = first_exception or exception
                    is_last_attempt = attempt_index == attempts - 1
                    if is_last_attempt:
                        raise first_exception""")],
needs="retry >= 2 and a call that raises a different exception object on each attempt", breaks="the exception of the first attempt is reported instead of the last one's",
demo="""
import uberjob
n = []
def f():
    n.append(1)
    raise ValueError(len(n))
plan = uberjob.Plan()
out = plan.call(f)
try:
    uberjob.run(plan, output=out, retry=3, progress=False)
except uberjob.CallError as e:
    assert e.__cause__.args[0] == 3, e.__cause__
"""),
}
