"""Planted bugs, third round."""
import os, runpy
_s2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py"))
for _k in ("ENG", "SCH", "PRU", "CAC", "PHY", "RUN", "PLAN", "REG", "GRAPH", "REN", "FS", "JS", "BIN", "PK", "TCH", "PRG", "CMP", "STORE"):
    globals()[_k] = _s2[_k]
MNT = "src/uberjob/stores/_mounted_store.py"
BLT = "src/uberjob/_builtins.py"
ERR = "src/uberjob/_errors.py"
TB = "src/uberjob/_util/traceback.py"
RET = "src/uberjob/_util/retry.py"
NXU = "src/uberjob/_util/networkx_util.py"
GRD = "src/uberjob/_execution/greedy.py"
CON = "src/uberjob/progress/_console_progress_observer.py"
HTM = "src/uberjob/progress/_html_progress_observer.py"
IPY = "src/uberjob/progress/_ipython_progress_observer.py"

SEEDS = {
"c02-kwarg-grouping": dict(prop="C02", edits=[(GRAPH, """        elif type(edge_key) is KeywordArg:
            keyword_arg_pairs.append(None)
""", ""), (GRAPH, """            keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor
""", """            keyword_arg_pairs.append((edge_key.name, predecessor))
""")],
needs="one node passed as two keyword arguments of a call with another argument between them", breaks="keyword arguments arrive grouped by node instead of in the order given",
demo="""
import uberjob
plan = uberjob.Plan()
a = plan.call(lambda: 1); b = plan.call(lambda: 2)
c = plan.call(lambda **kw: list(kw.items()), x=a, y=b, z=a)
assert uberjob.run(plan, output=c, progress=False) == [("x", 1), ("y", 2), ("z", 1)]
"""),
"c02-unpack-whole": dict(prop="C02", edits=[(BLT, """    t = tuple(itertools.islice(iterable, length + 1))
""", """    t = tuple(itertools.islice(iterable, length))
""")],
needs="unpacking an iterable with more items than the given length", breaks="surplus items are dropped silently instead of being an error",
demo="""
import uberjob
plan = uberjob.Plan()
a, b = plan.unpack(plan.call(lambda: [1, 2, 3]), 2)
try:
    r = uberjob.run(plan, output=[a, b], progress=False)
except uberjob.CallError:
    pass
else:
    raise SystemExit(f"no error: {r}")
"""),
"c12-mtime-narrow": dict(prop="C12", edits=[(FS, """        t = os.path.getmtime(path)
    except OSError:
        return None""", """        t = os.path.getmtime(path)
    except (FileNotFoundError, PermissionError):
        return None""")],
needs="a store path below something that is a regular file", breaks="get_modified_time raises instead of saying that nothing is stored",
demo="""
import os, tempfile
from uberjob.stores import TextFileStore
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "file"); open(p, "w").close()
    assert TextFileStore(os.path.join(p, "x.txt")).get_modified_time() is None
"""),
"c12-shared-temp": dict(prop="C12", edits=[(MNT, """    with tempfile.TemporaryDirectory() as tempdir:
        yield os.path.join(tempdir, "temp")
""", """    path = os.path.join(tempfile.gettempdir(), f"uberjob-{os.getpid()}")
    try:
        yield path
    finally:
        if os.path.exists(path):
            os.remove(path)
""")],
needs="two mounted stores used at the same time by threads of one process", breaks="the local copies of two mounted stores overwrite each other",
demo="""
import os, tempfile, threading
tempfile.tempdir = tempfile.mkdtemp()
from uberjob.stores import MountedStore, TextFileStore
barrier = threading.Barrier(2, timeout=5)
class M(MountedStore):
    def __init__(self):
        super().__init__(TextFileStore); self.data = None
    def copy_from_local(self, path):
        try: barrier.wait()
        except threading.BrokenBarrierError: pass
        with open(path) as f: self.data = f.read()
    def copy_to_local(self, path):
        with open(path, "w") as f: f.write(self.data)
    def get_modified_time(self): return None
a, b = M(), M()
errors = []
def write(s, v):
    try: s.write(v)
    except Exception as e: errors.append(e)
ts = [threading.Thread(target=write, args=x) for x in ((a, "a"), (b, "b"))]
[t.start() for t in ts]; [t.join() for t in ts]
import shutil; shutil.rmtree(tempfile.tempdir)
assert not errors and a.data == "a" and b.data == "b", (errors, a.data, b.data)
"""),
"c16-lookup-captured": dict(prop="C16", edits=[(PHY, """    output_slot = result_lookup[output_node] if output_node else None
    return bound_call_lookup, output_slot
""", """    return bound_call_lookup, OutputSlot(result_lookup, output_node)
"""), (PHY, """def _create_bound_call(
""", """class OutputSlot:
    \"\"\"Gives the value of the output node once everything has run.\"\"\"

    __slots__ = ("lookup", "node")

    def __init__(self, lookup, node):
        self.lookup = lookup
        self.node = node

    @property
    def value(self):
        return self.lookup[self.node].value


def _create_bound_call(
"""), (PHY, """    return output_slot.value if output_slot else None""", """    return output_slot.value if output_node else None""")],
needs="an intermediate result whose consumers have finished while the run is still going", breaks="every result stays reachable from the output slot until the end of the run",
demo="""
import gc, weakref, uberjob
class Big: pass
refs = []
def make():
    b = Big(); refs.append(weakref.ref(b)); return b
def use(b): return 1
def check(x):
    gc.collect(); return refs[0]() is None
plan = uberjob.Plan()
out = plan.call(check, plan.call(lambda x: x, plan.call(use, plan.call(make))))
assert uberjob.run(plan, output=out, max_workers=1, progress=False)
"""),
"c19-store-frame": dict(prop="C19", edits=[(CAC, """        call = plan._call(registry_value.stack_frame, *args)
""", """        stack_frame = registry_value.stack_frame
        if type(node) is Call and node.stack_frame is not None:
            stack_frame = node.stack_frame
        call = plan._call(stack_frame, *args)
""")],
needs="a registry.add on another line than plan.call, and a failing write", breaks="store failures are attributed to the plan.call line",
demo=STORE + """
class Bad(Store):
    def write(self, value): raise OSError("disk full")
plan = uberjob.Plan(); registry = uberjob.Registry()
def build(): return plan.call(lambda: 1)
def add(x): registry.add(x, Bad())
add(build())
try:
    uberjob.run(plan, registry=registry, progress=False)
except uberjob.CallError as e:
    assert e.call.stack_frame.name == "add", str(e)
else: raise SystemExit("no error")
"""),
"c07-edge-count": dict(prop="C04", edits=[(NXU, """    return len(graph.pred[node])""", """    return graph.in_degree(node)""")],
needs="one node passed twice to the same call", breaks="the call is never executed: its number of argument edges is counted instead of its predecessors",
demo="""
import uberjob
plan = uberjob.Plan()
n = []
a = plan.call(lambda: 2)
b = plan.call(lambda x, y: n.append(x * y), a, a)
c = plan.call(lambda z: z, b)
uberjob.run(plan, output=c, progress=False)
assert n == [4], n
"""),
"c10-stale-retry": dict(prop="C10", edits=[(CAC, """        modified_time = _to_naive_utc_time(retry(value_store.get_modified_time)())
""", """        get_modified_time = value_store.get_modified_time
        if not registry.mapping[node].is_source:
            get_modified_time = retry(get_modified_time)
        modified_time = _to_naive_utc_time(get_modified_time())
""")],
needs="retry and a source whose modified-time query fails once", breaks="modified-time queries of sources are not retried",
demo=STORE + """
class Flaky(Store):
    n = 0
    def get_modified_time(self):
        self.n += 1
        if self.n == 1: raise OSError("flaky")
        return Clock.t
plan = uberjob.Plan(); registry = uberjob.Registry()
s = Flaky(); s.value = 3
x = registry.source(plan, s)
assert uberjob.run(plan, registry=registry, output=x, retry=2, progress=False) == 3
"""),
"c06-nested-run": dict(prop="C06", edits=[(PHY, """                raise NodeError(node) from exception
""", """                if isinstance(exception, CallError):
                    # Report the innermost failing call of a nested run.
                    raise NodeError(exception.call) from exception.__cause__
                raise NodeError(node) from exception
"""), (PHY, "from uberjob._errors import NodeError, create_chained_call_error", "from uberjob._errors import CallError, NodeError, create_chained_call_error")],
needs="a call that itself runs a plan whose run fails", breaks="the error names a call of the inner plan and its cause is not what the call raised",
demo="""
import uberjob
def inner():
    plan = uberjob.Plan()
    return uberjob.run(plan, output=plan.call(lambda: 1 // 0), progress=False)
plan = uberjob.Plan()
c = plan.call(inner)
try: uberjob.run(plan, output=c, progress=False)
except uberjob.CallError as e:
    assert e.call.fn is inner and isinstance(e.__cause__, uberjob.CallError), e
else: raise SystemExit("no error")
"""),
"c18-fold-lost": dict(prop="C18", edits=[(FS, """    return dt.datetime.fromtimestamp(t)
""", """    seconds, fraction = divmod(t, 1)
    return dt.datetime.fromtimestamp(seconds).replace(
        microsecond=min(int(fraction * 1000000), 999999), fold=0
    )
""")],
needs="a file modified during the second pass of the hour repeated when daylight saving ends", breaks="the modified time denotes an instant one hour earlier",
demo="""
import os, time
os.environ["TZ"] = "America/New_York"; time.tzset()
import datetime as dt, tempfile
from uberjob.stores import TextFileStore
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x"); s = TextFileStore(p); s.write("a")
    t = dt.datetime(2021, 11, 7, 6, 30, tzinfo=dt.timezone.utc).timestamp()
    os.utime(p, (t, t))
    assert s.get_modified_time().astimezone(dt.timezone.utc).timestamp() == t
"""),
"c18-fresh-wall": dict(prop="C18", edits=[(RUN, """                    fresh_time=fresh_time,
                    inplace=True,""", """                    fresh_time=fresh_time and fresh_time.replace(fold=0),
                    inplace=True,""")],
needs="an aware or naive fresh_time with fold=1", breaks="fresh_time denotes an instant one hour earlier",
demo="""
import os, time
os.environ["TZ"] = "America/New_York"; time.tzset()
import datetime as dt, uberjob
class S(uberjob.ValueStore):
    n = 0
    def read(self): return 1
    def write(self, v): self.n += 1
    def get_modified_time(self): return dt.datetime(2021, 11, 7, 5, 45, tzinfo=dt.timezone.utc)
plan = uberjob.Plan(); registry = uberjob.Registry(); s = S()
registry.add(plan.call(lambda: 1), s)
uberjob.run(plan, registry=registry, fresh_time=dt.datetime(2021, 11, 7, 1, 30, fold=1), progress=False)
assert s.n == 1
"""),
"c01-literal-shortcut": dict(prop="C01", edits=[(PRU, """    m = len(predecessors)
    n = len(successors)
""", """    # Dependencies that already hold do not have to be added again.
    predecessors = [
        predecessor
        for predecessor in predecessors
        if not any(
            plan.graph.has_edge(predecessor, successor) for successor in successors
        )
    ]
    m = len(predecessors)
    n = len(successors)
""")],
needs="a literal used as a gate between calls one of which is ordered directly before only some of the others", breaks="pruning the literal loses the order between a predecessor and those successors it has no direct edge to",
demo="""
import time, uberjob
log = []
def slow(): time.sleep(0.3); log.append("a")
plan = uberjob.Plan()
a = plan.call(slow); lit = plan.lit("gate")
b = plan.call(lambda x: log.append("b"), a)
c = plan.call(lambda: log.append("c"))
plan.add_dependency(a, lit); plan.add_dependency(lit, b); plan.add_dependency(lit, c)
out = plan.gather([b, c])
uberjob.run(plan, output=out, max_workers=4, progress=False)
assert log[0] == "a", log
"""),
"c05-read-unneeded": dict(prop="C05", edits=[(CAC, """        if write_node:
            required_nodes.add(write_node)
""", """        if write_node:
            required_nodes.add(read_node)
""")],
needs="a rebuilt stored value that nothing consumes in the run", breaks="the value is read back although no call and no output needs it",
demo=STORE + """
log = []
plan = uberjob.Plan(); registry = uberjob.Registry()
registry.add(plan.call(lambda: 1), Store("a", log))
uberjob.run(plan, registry=registry, progress=False)
assert log == [("write", "a")], log
"""),
"c08-write-late-edge": dict(prop="C08", edits=[(CAC, """                write_node = nested_call(
                    value_store.__class__.write, value_store_lit, node
                )
            plan.graph.add_edge(write_node, read_node, Dependency())
""", """                write_node = nested_call(
                    value_store.__class__.write, value_store_lit, node
                )
            if any(type(key) is not Dependency for _, _, key in out_edges):
                plan.graph.add_edge(write_node, read_node, Dependency())
            else:
                plan.graph.add_edge(node, read_node, Dependency())
""")],
needs="a stale stored value requested only as the output of a run", breaks="the output is read before the new value is written",
demo=STORE + """
import time
class Slow(Store):
    def write(self, v): time.sleep(0.2); super().write(v)
plan = uberjob.Plan(); registry = uberjob.Registry()
x = plan.call(lambda: 5); s = Slow(); registry.add(x, s)
assert uberjob.run(plan, registry=registry, output=x, max_workers=4, progress=False) == 5
"""),
"c08-failed-time": dict(prop="C08", edits=[(FS, """    try:
        yield staging_path
        os.replace(staging_path, path)
    except BaseException:
        _try_remove(staging_path)
        raise
""", """    try:
        yield staging_path
    except Exception:
        _try_remove(staging_path)
        raise
    except BaseException:
        # Keep what was written before an interruption.
        if os.path.exists(staging_path):
            os.replace(staging_path, path)
        raise
    try:
        os.replace(staging_path, path)
    except BaseException:
        _try_remove(staging_path)
        raise
""")],
needs="KeyboardInterrupt or SystemExit in the middle of a store's write", breaks="a partly written file replaces the stored value and looks up to date",
demo="""
import os, tempfile
from uberjob.stores import staged_write
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x")
    try:
        with staged_write(p) as f:
            f.write("half"); raise KeyboardInterrupt
    except KeyboardInterrupt: pass
    assert not os.path.exists(p)
"""),
"c15-total-after-prune": dict(prop="C15", edits=[(CAC, """    _update_stale_totals(plan, registry, progress_observer)
    plan = get_mutable_plan(plan, inplace=inplace)
    stale_nodes""", """    plan = get_mutable_plan(plan, inplace=inplace)
    if output_node is not None or len(registry):
        _update_stale_totals(plan, registry, progress_observer)
    stale_nodes""")],
needs="an empty registry and no output", breaks="the calls are examined without a total having been announced",
demo="""
import uberjob
from uberjob.progress import Progress, ProgressObserver
log = []
class O(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): log.append(("t", section))
    def increment_running(self, *, section, scope): log.append(("r", section))
    def increment_completed(self, *, section, scope): pass
    def increment_failed(self, *, section, scope, exception): pass
class R(uberjob.Registry):
    def __bool__(self): return True
plan = uberjob.Plan(); plan.call(lambda: 1)
uberjob.run(plan, registry=R(), progress=Progress(O))
assert not log or log[0] == ("t", "stale"), log
"""),
"c13-scope-left": dict(prop="C13", edits=[(PLAN, """        new_plan = Plan()
        new_plan.graph = self.graph.copy()
        return new_plan
""", """        new_plan = Plan()
        new_plan.graph = self.graph.copy()
        new_plan._scope_lock = self._scope_lock
        new_plan.graph.graph = self.graph.graph
        return new_plan
""")],
needs="a plan copied while another thread is inside plan.scope", breaks="copies share the scope lock and graph attributes of the original",
demo="""
import threading, uberjob
plan = uberjob.Plan()
copy = plan.copy()
copy.graph.graph["name"] = "copy"
assert "name" not in plan.graph.graph
"""),
"c17-interrupt-wrapped": dict(prop="C17", edits=[(RUN, """    except NodeError as e:
        raise CallError(e.node) from e.__cause__""", """    except NodeError as e:
        raise CallError(e.node) from e.__cause__
    except KeyboardInterrupt:
        if dry_run or not registry:
            raise
        # What has been stored so far is kept; the next run continues from there.
        return None""")],
needs="Ctrl-C during a run with a registry", breaks="KeyboardInterrupt does not reach the caller",
demo=STORE + """
import _thread, time
def f():
    _thread.interrupt_main(); time.sleep(0.3); return 1
plan = uberjob.Plan(); registry = uberjob.Registry()
x = plan.call(f); registry.add(x, Store())
try: uberjob.run(plan, registry=registry, output=x, progress=False)
except KeyboardInterrupt: pass
else: raise SystemExit("swallowed")
"""),
"c20-ipython-style": dict(prop="C20", edits=[(IPY, """                    label_widget.value = "{}; {}; {}".format(
                        scope_state.to_progress_string(),
                        scope_state.to_elapsed_string(),""", """                    percent = 100 * progress_widget.value // scope_state.total
                    progress_widget.description = f"{percent}%"
                    label_widget.value = "{}; {}; {}".format(
                        scope_state.to_progress_string(),
                        scope_state.to_elapsed_string(),""")],
needs="a scope whose announced total is zero", breaks="rendering divides by zero and the display stops",
demo="""
import sys, types
w = types.ModuleType("ipywidgets")
class W:
    def __init__(self, *a, **k): self.layout = types.SimpleNamespace(); self.value = 0
for n in ("VBox", "HBox", "Label", "HTML", "IntProgress", "Accordion", "Output"): setattr(w, n, type(n, (W,), {}))
ip = types.ModuleType("IPython"); ipd = types.ModuleType("IPython.display"); ipd.display = lambda x: None
sys.modules.update({"ipywidgets": w, "IPython": ip, "IPython.display": ipd})
from uberjob.progress._ipython_progress_observer import IPythonProgressObserver
o = IPythonProgressObserver(initial_update_delay=1, min_update_interval=1, max_update_interval=1)
o.increment_total(section="run", scope=("a",), amount=0)
o._do_render()
"""),
"c20-elapsed-share": dict(prop="C20", edits=[(PRG, """        if not scope_state.running:
            self._running_scope_states.remove(scope_state)
        scope_state.failed += 1
""", """        if self.running_count == 0:
            self._running_scope_states.clear()
        scope_state.failed += 1
""")],
needs="a scope none of whose calls is running after a failure, while another scope is still running; then a later call of it", breaks="a finished scope stays in the running set, so its next completion fails",
demo="""
from uberjob.progress._simple_progress_observer import State
s = State(0)
for x in ("a", "b"): s.increment_total("run", (x,), 2)
s.increment_running("run", ("a",)); s.increment_running("run", ("b",))
s.increment_failed("run", ("a",))
assert len(s._running_scope_states) == 1
"""),
"c11-fixed-sibling": dict(prop="C11", edits=[(FS, """    staging_path = f"{path}.STAGING"
    if isinstance(path, pathlib.Path):
        staging_path = pathlib.Path(staging_path)
    try:
        yield staging_path
        os.replace(staging_path, path)
    except BaseException:
        _try_remove(staging_path)
        raise
""", """    staging_path = f"{path}.STAGING"
    if isinstance(path, pathlib.Path):
        staging_path = pathlib.Path(staging_path)
    backup_path = f"{path}.OLD"
    try:
        yield staging_path
        if os.path.exists(path):
            os.replace(path, backup_path)
        os.replace(staging_path, path)
        _try_remove(backup_path)
    except BaseException:
        _try_remove(staging_path)
        if os.path.exists(backup_path):
            os.replace(backup_path, path)
        raise
""")],
needs="the process dying between moving the old file away and moving the new one in", breaks="for a moment the target does not exist",
demo="""
import os, tempfile
from uberjob.stores import TextFileStore
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x"); s = TextFileStore(p); s.write("old")
    real = os.replace
    def replace(a, b):
        assert os.path.exists(p), "target missing"
        real(a, b)
        assert os.path.exists(p), "target missing"
    os.replace = replace
    s.write("new")
"""),
"c09-output-memory": dict(prop="C09", edits=[(CAC, """    if output_node:
        output_node = read_node_lookup.get(output_node, output_node)
""", """    if output_node and not (output_node in stale_nodes and plan.graph.out_degree(output_node) == 1):
        output_node = read_node_lookup.get(output_node, output_node)
""")],
needs="a store that does not return the identical object, and a stale stored value requested as the output", breaks="the run's output is the in-memory result",
demo=STORE + """
class Norm(Store):
    def read(self): return ("stored", self.value)
plan = uberjob.Plan(); registry = uberjob.Registry()
x = plan.call(lambda: 5); registry.add(x, Norm())
a = uberjob.run(plan, registry=registry, output=x, progress=False)
assert a == ("stored", 5), a
"""),
}
