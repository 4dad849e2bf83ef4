"""Planted bugs, second round (written from the property texts and the code, one or two per property)."""
ENG = "src/uberjob/_execution/run_function_on_graph.py"
SCH = "src/uberjob/_execution/scheduler.py"
PRU = "src/uberjob/_transformations/pruning.py"
CAC = "src/uberjob/_transformations/caching.py"
PHY = "src/uberjob/_execution/run_physical.py"
RUN = "src/uberjob/_run.py"
PLAN = "src/uberjob/_plan.py"
REG = "src/uberjob/_registry.py"
GRAPH = "src/uberjob/graph.py"
REN = "src/uberjob/_rendering.py"
FS = "src/uberjob/stores/_file_store.py"
JS = "src/uberjob/stores/_json_file_store.py"
BIN = "src/uberjob/stores/_binary_file_store.py"
PK = "src/uberjob/stores/_pickle_file_store.py"
TCH = "src/uberjob/stores/_touch_file_store.py"
PRG = "src/uberjob/progress/_simple_progress_observer.py"
CMP = "src/uberjob/progress/_composite_progress_observer.py"

STORE = '''
import datetime as dt, uberjob
class Clock:
    t = dt.datetime(2020, 1, 1)
    @classmethod
    def tick(cls):
        cls.t += dt.timedelta(days=1)
        return cls.t
class Store(uberjob.ValueStore):
    def __init__(self, name="s", log=None):
        self.name = name; self.value = None; self.time = None; self.log = log if log is not None else []
    def read(self):
        self.log.append(("read", self.name)); return self.value
    def write(self, value):
        self.log.append(("write", self.name)); self.value = value; self.time = Clock.tick()
    def get_modified_time(self):
        return self.time
'''

SEEDS = {
"c02-shared-literals": dict(prop="C02", edits=[(PLAN, """    def lit(self, value) -> Literal:""", """    def _shared_lit(self, literals, value) -> Literal:
        try:
            if value not in literals:
                literals[value] = self.lit(value)
            return literals[value]
        except TypeError:
            return self.lit(value)

    def lit(self, value) -> Literal:"""), (PLAN, """        value = recurse(value)
        return value if isinstance(value, Node) else self.lit(value)""", """        value = recurse(value)
        if isinstance(value, Node):
            return value
        return self._shared_lit(self.__dict__.setdefault("_literals", {}), value)""")],
needs="equal but different constants (1 and True) given as arguments to calls of one plan", breaks="constants that compare equal share one literal, so a call can receive 1 where True was given",
demo="""
import uberjob
plan = uberjob.Plan()
a = plan.call(repr, 1)
b = plan.call(repr, True)
c = plan.call(repr, 1.0)
out = uberjob.run(plan, output=[a, b, c], progress=False)
assert out == ["1", "True", "1.0"], out
"""),
"c03-literal-gap": dict(prop="C03", edits=[(CAC, """            stale_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
        )""", """            stale_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
            if type(predecessor) is Call
        )""")],
needs="two stored calls ordered through a literal (add_dependency call -> literal -> call), the first of them out of date", breaks="staleness does not pass through a literal, so the second stored value is kept although the first is rebuilt",
demo=STORE + """
external = {}
n = [0]
def produce():
    n[0] += 1
    external["value"] = n[0]
    return n[0]
def consume():
    return external["value"]
plan = uberjob.Plan(); registry = uberjob.Registry()
a = plan.call(produce); lit = plan.lit("gate"); b = plan.call(consume)
plan.add_dependency(a, lit); plan.add_dependency(lit, b)
sa, sb = Store("a"), Store("b")
registry.add(a, sa); registry.add(b, sb)
uberjob.run(plan, registry=registry, progress=False)
assert sb.value == 1
sa.time = None
uberjob.run(plan, registry=registry, progress=False)
assert sb.value == 2, sb.value
"""),
"c03-first-read-only": dict(prop="C03", edits=[(CAC, """        value_store = registry.get(node)
        if value_store is None:
            modified_time_lookup[node].value = max_ancestor_modified_time
            return
""", """        value_store = registry.get(node)
        if value_store is None:
            if type(node) is Call:
                modified_time_lookup[node].value = max_ancestor_modified_time
            return
""")],
needs="a stored call that depends on a source only through a literal", breaks="modified times do not pass through an order-only literal, so the stored value is kept after the source changed",
demo=STORE + """
plan = uberjob.Plan(); registry = uberjob.Registry()
src = Store("src"); src.write(1)
s = registry.source(plan, src)
lit = plan.lit("gate"); plan.add_dependency(s, lit)
b = plan.call(lambda: src.value); plan.add_dependency(lit, b)
sb = Store("b"); registry.add(b, sb)
uberjob.run(plan, registry=registry, progress=False)
assert sb.value == 1
src.write(2)
uberjob.run(plan, registry=registry, progress=False)
assert sb.value == 2, sb.value
"""),
"c05-equal-times": dict(prop="C05", edits=[(CAC, """        ) > modified_time:
            stale_lookup[node].value = True""", """        ) > modified_time or modified_time == max_ancestor_modified_time:
            stale_lookup[node].value = True""")],
needs="a stored value with exactly the modified time of the value it was computed from", breaks="a value as old as its input is rebuilt on every run",
demo=STORE + """
t = dt.datetime(2021, 1, 1)
plan = uberjob.Plan(); registry = uberjob.Registry()
calls = []
def f(): calls.append("f"); return 1
def g(x): calls.append("g"); return x
a = plan.call(f); b = plan.call(g, a)
sa, sb = Store("a"), Store("b")
registry.add(a, sa); registry.add(b, sb)
sa.value = sb.value = 1
sa.time = sb.time = t
uberjob.run(plan, registry=registry, progress=False)
assert calls == [], calls
"""),
"c09-literal-edge": dict(prop="C09", edits=[(CAC, """        elif is_stale:
            assert dependency_type is Dependency
            plan.graph.add_edge(write_node, successor, dependency)""", """        elif is_stale and type(successor) is Call:
            plan.graph.add_edge(write_node, successor, dependency)""")],
needs="a stored call that a second call depends on through a literal", breaks="the second call can start before the stored value has been written",
demo=STORE + """
import time
class Slow(Store):
    def write(self, value):
        time.sleep(0.3); super().write(value)
log = []
plan = uberjob.Plan(); registry = uberjob.Registry()
a = plan.call(lambda: 1); s = Slow("a", log); registry.add(a, s)
lit = plan.lit("gate"); b = plan.call(lambda: log.append("b"))
plan.add_dependency(a, lit); plan.add_dependency(lit, b)
uberjob.run(plan, output=b, registry=registry, progress=False, max_workers=4)
assert log.index(("write", "a")) < log.index("b"), log
"""),
"c09-chained-sources": dict(prop="C09", edits=[(CAC, """                for predecessor in plan.graph.predecessors(node):
                    plan.graph.add_edge(predecessor, write_node, Dependency())""", """                for predecessor in plan.graph.predecessors(node):
                    if type(predecessor) is Call:
                        plan.graph.add_edge(predecessor, write_node, Dependency())""")],
needs="a dependent source that depends on its producer through a literal", breaks="the dependent source is read before the call that produces it has run",
demo=STORE + """
import time
src = Store("src")
def produce():
    time.sleep(0.3); src.write(7)
plan = uberjob.Plan(); registry = uberjob.Registry()
p = plan.call(produce); lit = plan.lit("gate"); s = registry.source(plan, src)
plan.add_dependency(p, lit); plan.add_dependency(lit, s)
out = uberjob.run(plan, output=s, registry=registry, progress=False, max_workers=4)
assert out == 7, out
"""),
"c11-small-direct": dict(prop="C11", edits=[(PK, """        with staged_write(self.path, "wb") as outputfile:
            pickle.dump(value, outputfile)""", """        data = pickle.dumps(value)
        if len(data) <= 512:
            # A single small write does not need staging.
            with open(self.path, "wb") as outputfile:
                outputfile.write(data)
            return
        with staged_write(self.path, "wb") as outputfile:
            outputfile.write(data)""")],
needs="a failure between opening and writing the file of a small pickled value", breaks="small values are written in place, so a failed write leaves a truncated file",
demo="""
import builtins, os, tempfile, uberjob
from uberjob.stores import PickleFileStore
d = tempfile.mkdtemp()
p = os.path.join(d, "v.pkl")
s = PickleFileStore(p)
s.write("old")
real = builtins.open
class Full:
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def write(self, data): raise OSError(28, "No space left on device")
def fake(path, mode="r", *a, **k):
    f = real(path, mode, *a, **k)
    return Full(f) if "w" in mode else f
builtins.open = fake
try:
    try:
        s.write("new")
    except OSError:
        pass
finally:
    builtins.open = real
assert s.read() == "old"
"""),
"c11-copy-fallback": dict(prop="C11", edits=[(FS, """    with staged_write_path(path) as staging_path:
        with open(staging_path, mode, **kwargs) as outputfile:
            yield outputfile""", """    with staged_write_path(path) as staging_path:
        if os.path.islink(path):
            # Write through the link instead of replacing it.
            with open(path, mode, **kwargs) as outputfile:
                yield outputfile
            staging_path = None
        else:
            with open(staging_path, mode, **kwargs) as outputfile:
                yield outputfile""")],
needs="a store path that is a symbolic link", breaks="the file behind a symbolic link is written in place",
demo="""
import os, tempfile
from uberjob.stores import TextFileStore
d = tempfile.mkdtemp()
real = os.path.join(d, "real.txt"); link = os.path.join(d, "link.txt")
TextFileStore(real).write("old")
os.symlink(real, link)
s = TextFileStore(link)
try:
    s.write(5)
except TypeError:
    pass
assert s.read() == "old", s.read()
"""),
"c18-naive-utc": dict(prop="C18", edits=[(FS, "    return dt.datetime.fromtimestamp(t)", "    return dt.datetime.fromtimestamp(t, dt.timezone.utc).replace(tzinfo=None)")],
needs="a local time zone other than UTC", breaks="modified times are naive UTC, which everything else takes for local time",
demo="""
import datetime as dt, os, tempfile, time
os.environ["TZ"] = "America/New_York"; time.tzset()
from uberjob.stores import TextFileStore
p = os.path.join(tempfile.mkdtemp(), "v.txt")
s = TextFileStore(p); s.write("x")
t = s.get_modified_time()
assert abs(t.timestamp() - os.path.getmtime(p)) < 1, (t, os.path.getmtime(p))
"""),
"c13-drop-missing": dict(prop="C13", edits=[(CAC, """    read_node_lookup = {}
    required_nodes = set()
    for node, registry_value in registry.mapping.items():""", """    read_node_lookup = {}
    required_nodes = set()
    for node in [node for node in registry.mapping if node.scope and node not in plan.graph]:
        del registry.mapping[node]
    for node, registry_value in registry.mapping.items():""")],
needs="a registry shared by two plans whose nodes have scopes", breaks="a run removes the other plan's entries from the caller's registry",
demo=STORE + """
registry = uberjob.Registry()
p1, p2 = uberjob.Plan(), uberjob.Plan()
with p1.scope("one"):
    a = p1.call(int, 1)
with p2.scope("two"):
    b = p2.call(int, 2)
sa, sb = Store("a"), Store("b")
registry.add(b, sb)
n = len(registry)
try:
    uberjob.run(p1, output=a, registry=registry, progress=False)
except Exception:
    pass
assert len(registry) == n, len(registry)
"""),
"c14-dry-output": dict(prop="C14", edits=[(RUN, "                return plan, redirected_output_node\n", "                return plan, (\n                    redirected_output_node\n                    if type(output_node) is Call\n                    else output_node\n                )\n")],
needs="a dry run whose output is a registered literal", breaks="the output node of the dry run is the literal itself instead of the read from its store",
demo=STORE + """
plan = uberjob.Plan(); registry = uberjob.Registry()
lit = plan.lit(5); s = Store("l"); registry.add(lit, s)
p, out = uberjob.run(plan, output=lit, registry=registry, dry_run=True, progress=False)
log = s.log
value = uberjob.run(p, output=out, progress=False)
assert ("read", "l") in log, log
"""),
"c14-dry-copy": dict(prop="C14", edits=[(RUN, """            if dry_run:
                return plan, redirected_output_node
""", """            if dry_run:
                physical_plan = Plan()
                for node in plan.graph.nodes():
                    physical_plan.graph.add_node(node)
                for source, target, key in plan.graph.edges(keys=True):
                    if not physical_plan.graph.has_edge(source, target):
                        physical_plan.graph.add_edge(source, target, key)
                return physical_plan, redirected_output_node
""")],
needs="a call that takes the same node in two arguments", breaks="the plan of a dry run has only one of several edges between two nodes, so executing it passes too few arguments",
demo="""
import operator, uberjob
plan = uberjob.Plan()
a = plan.call(int, 3)
b = plan.call(operator.sub, a, a)
p, out = uberjob.run(plan, output=b, dry_run=True, progress=False)
assert uberjob.run(p, output=out, progress=False) == 0
"""),
"c15-double-report": dict(prop="C15", edits=[(CAC, """                raise NodeError(node) from exception
            progress_observer.increment_completed(section="stale", scope=scope)""", """                raise NodeError(node) from exception
            finally:
                progress_observer.increment_completed(section="stale", scope=scope)""")],
needs="a store whose get_modified_time raises", breaks="a failed stale check is reported both failed and completed",
demo=STORE + """
from uberjob.progress import ProgressObserver, Progress
class Obs(ProgressObserver):
    def __init__(self): self.log = []
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, **k): pass
    def increment_running(self, **k): self.log.append("running")
    def increment_completed(self, **k): self.log.append("completed")
    def increment_failed(self, **k): self.log.append("failed")
class Bad(Store):
    def get_modified_time(self): raise ValueError("no")
obs = Obs()
plan = uberjob.Plan(); registry = uberjob.Registry()
registry.add(plan.call(int), Bad())
try:
    uberjob.run(plan, registry=registry, progress=Progress(lambda: obs))
except uberjob.CallError:
    pass
assert obs.log == ["running", "failed"], obs.log
"""),
"c16-failed-keeps": dict(prop="C16", edits=[(PHY, """                raise NodeError(node) from exception
            finally:
                bound_call.value = None
            progress_observer""", """                raise NodeError(node) from exception
            bound_call.value = None
            progress_observer""")],
needs="a consumer that fails in a run that goes on (max_errors)", breaks="the arguments of a failed call are kept until the end of the run",
demo="""
import gc, time, weakref, uberjob
class Big: pass
ref = []
def make():
    b = Big(); ref.append(weakref.ref(b)); return b
seen = []
def later():
    time.sleep(0.5)
    gc.collect()
    seen.append(ref[0]())
plan = uberjob.Plan()
a = plan.call(make)
b = plan.call(int, a)          # fails without a Python frame that could keep its argument
gate = plan.call(later)
plan.add_dependency(a, gate)
try:
    uberjob.run(plan, output=[b, gate], max_errors=None, max_workers=2, progress=False)
except uberjob.CallError:
    pass
assert seen == [None], seen
"""),
"c19-unpack-frame": dict(prop="C19", edits=[(PLAN, """            self._call(stack_frame, operator.getitem, t, index)
            for index in range(length)""", """            self._call(get_stack_frame(), operator.getitem, t, index)
            for index in range(length)""")],
needs="a failing call created by unpack", breaks="the items of an unpack are attributed to a line inside uberjob",
demo="""
import sys, uberjob
plan = uberjob.Plan()
a, b = plan.unpack(plan.call(list, [1, 2]), 2); line = sys._getframe().f_lineno
for n in (a, b):
    assert n.stack_frame.path == __file__ and n.stack_frame.line == line, n.stack_frame
"""),
"c20-throttled-final": dict(prop="C20", edits=[(PRG, """            first = False
            with self._lock:
                output_value = self._do_render()""", """            first = False
            if (
                self._last_render_time is not None
                and time.time() - self._last_render_time < self._min_update_interval
            ):
                continue
            with self._lock:
                output_value = self._do_render()""")],
needs="a run that ends within min_update_interval after the previous rendering", breaks="the final state is not rendered",
demo="""
import time, uberjob
from uberjob.progress._simple_progress_observer import SimpleProgressObserver
class Obs(SimpleProgressObserver):
    shown = []
    def _render(self, state, new, exceptions, elapsed):
        return {k: {s: (v.completed, v.total) for s, v in d.items()} for k, d in state.items()}
    def _output(self, value): self.shown.append(value)
o = Obs(initial_update_delay=0.2, min_update_interval=5, max_update_interval=30)
with o:
    o.increment_total(section="run", scope=("x",), amount=1)
    time.sleep(0.5)
    o.increment_running(section="run", scope=("x",))
    o.increment_completed(section="run", scope=("x",))
assert o.shown[-1] == {"run": {("x",): (1, 1)}}, o.shown
"""),
"c20-equal-scope": dict(prop="C20", edits=[(PRG, """        self.section_scope_mapping.setdefault(section, {}).setdefault(
            scope, ScopeState()
        ).total += amount""", """        scope_mapping = self.section_scope_mapping.setdefault(section, {})
        if scope in scope_mapping:
            scope_mapping[scope].total = max(scope_mapping[scope].total, amount)
        else:
            scope_mapping[scope] = ScopeState(total=amount)""")],
needs="two announcements of totals for the same scope", breaks="totals announced in several parts are not added up",
demo="""
import uberjob
from uberjob.progress._simple_progress_observer import SimpleProgressObserver
class Obs(SimpleProgressObserver):
    shown = []
    def _render(self, state, new, exceptions, elapsed):
        return {k: {s: (v.completed, v.total) for s, v in d.items()} for k, d in state.items()}
    def _output(self, value): self.shown.append(value)
o = Obs(initial_update_delay=0.2, min_update_interval=5, max_update_interval=30)
with o:
    o.increment_total(section="run", scope=("x",), amount=1)
    o.increment_total(section="run", scope=("x",), amount=1)
    for _ in range(2):
        o.increment_running(section="run", scope=("x",))
        o.increment_completed(section="run", scope=("x",))
assert o.shown[-1] == {"run": {("x",): (2, 2)}}, o.shown
"""),
"c10-stale-check-serial": dict(prop="C10", edits=[(RUN, """    if stale_check_max_workers is None:
        stale_check_max_workers = max_workers
""", """    if stale_check_max_workers is None or (
        max_workers is not None and stale_check_max_workers < max_workers
    ):
        stale_check_max_workers = max_workers
""")],
needs="stale_check_max_workers below max_workers", breaks="the stale check uses max_workers threads although fewer were allowed",
demo=STORE + """
import threading, time
lock = threading.Lock(); now = [0]; most = [0]
class Slow(Store):
    def get_modified_time(self):
        with lock:
            now[0] += 1; most[0] = max(most[0], now[0])
        time.sleep(0.05)
        with lock: now[0] -= 1
        return self.time
plan = uberjob.Plan(); registry = uberjob.Registry()
for i in range(10):
    registry.add(plan.call(int, i), Slow(str(i)))
uberjob.run(plan, registry=registry, max_workers=8, stale_check_max_workers=1, progress=False)
assert most[0] == 1, most
"""),
"c17-errors-first": dict(prop="C17", edits=[(ENG, """        if stop:
            return
        try:
            fn(node)""", """        if stop and error_count:
            return
        try:
            fn(node)""")],
needs="Ctrl-C while calls are waiting and none has failed", breaks="calls that were already queued still start after Ctrl-C",
demo="""
import os, signal, threading, time, uberjob
ran = []
lock = threading.Lock()
def f(i):
    with lock: ran.append(i)
    time.sleep(0.1)
plan = uberjob.Plan()
nodes = [plan.call(f, i) for i in range(60)]
threading.Timer(0.35, lambda: os.kill(os.getpid(), signal.SIGINT)).start()
try:
    uberjob.run(plan, output=nodes, max_workers=2, progress=False, scheduler="random")
except KeyboardInterrupt:
    pass
assert len(ran) < 40, len(ran)
"""),
"c18-file-times": dict(prop="C18", edits=[(CAC, "    fresh_time = _to_naive_utc_time(fresh_time)\n", "    fresh_time = fresh_time and _to_naive_utc_time(fresh_time.replace(fold=0))\n")],
needs="a fresh_time in the repeated hour at the end of daylight saving time", breaks="the second of two equal wall-clock times is taken for the first",
demo="""
import os, time
os.environ["TZ"] = "America/New_York"; time.tzset()
""" + STORE + """
# 2020-11-01 01:30 occurred twice; the stored value was written between the two
s = Store("a"); s.value = 1
s.time = dt.datetime(2020, 11, 1, 6, 0, tzinfo=dt.timezone.utc)
fresh = dt.datetime(2020, 11, 1, 1, 30, fold=1)     # 06:30 UTC
plan = uberjob.Plan(); registry = uberjob.Registry()
calls = []
registry.add(plan.call(lambda: calls.append(1)), s)
uberjob.run(plan, registry=registry, fresh_time=fresh, progress=False)
assert calls == [1], calls
"""),
}
