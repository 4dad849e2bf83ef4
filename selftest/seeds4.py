"""Planted bugs, fourth round."""
import os, runpy
_s = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py"))
globals().update({k: v for k, v in _s.items() if k.isupper() and k != "SEEDS"})
INI = "src/uberjob/_util/__init__.py"
MTS = "src/uberjob/stores/_modified_time_source.py"
LITS = "src/uberjob/stores/_literal_source.py"

SEEDS = {
"c02-output-falsy": dict(prop="C02", edits=[(PHY, """    return output_slot.value if output_slot else None""", """    return (output_slot and output_slot.value) or None""")],
needs="a requested output that is falsy, such as 0 or an empty list", breaks="None is returned instead of the value",
demo="""
import uberjob
plan = uberjob.Plan()
assert uberjob.run(plan, output=plan.call(lambda: 0), progress=False) == 0
"""),
"c02-gather-id-cache": dict(prop="C02", edits=[(PLAN, """            gather_fn = GATHER_LOOKUP.get(root_type)
            if gather_fn is not None:
                items = root.items() if root_type is dict else root
                children = [recurse(item) for item in items]
                if any(isinstance(child, Node) for child in children):
                    return self._call(stack_frame, gather_fn, *children)
            return root
""", """            gather_fn = GATHER_LOOKUP.get(root_type)
            if gather_fn is not None:
                if id(root) in gathered:
                    return gathered[id(root)]
                items = root.items() if root_type is dict else root
                children = [recurse(item) for item in items]
                if any(isinstance(child, Node) for child in children):
                    result = self._call(stack_frame, gather_fn, *children)
                    if root_type is not tuple:
                        gathered[id(root)] = result
                    return result
            return root
"""), (PLAN, """        self._scope = ()
        self._scope_lock = RLock()
""", """        self._scope = ()
        self._scope_lock = RLock()
        self._gathered = {}
"""), (PLAN, """        def recurse(root):
""", """        gathered = self._gathered

        def recurse(root):
""")],
needs="a list of nodes that is changed (or freed and its id reused) between two calls it is passed to", breaks="the second call receives the list as it was the first time",
demo="""
import uberjob
plan = uberjob.Plan()
xs = [plan.call(lambda: 1)]
a = plan.call(sum, xs)
xs.append(plan.call(lambda: 2))
b = plan.call(sum, xs)
assert uberjob.run(plan, output=[a, b], progress=False) == [1, 3]
"""),
"c10-pool-sources": dict(prop="C10", edits=[(ENG, """    remaining_pred_count_lock = threading.Lock()
""", """    remaining_pred_count_lock = threading.Lock()
    # No more threads than there is work for.
    worker_count = max(1, min(worker_count, len(source_nodes)))
""")],
needs="a graph with few source nodes that widens later", breaks="independent ready calls do not run in parallel although max_workers allows it",
demo="""
import threading, uberjob
b = threading.Barrier(3, timeout=5)
plan = uberjob.Plan()
a = plan.call(lambda: 1)
out = [plan.call(lambda x: b.wait(), a) for _ in range(3)]
uberjob.run(plan, output=out, max_workers=3, progress=False)
"""),
"c11-with-suffix": dict(prop="C11", edits=[(FS, """    staging_path = f"{path}.STAGING"
    if isinstance(path, pathlib.Path):
        staging_path = pathlib.Path(staging_path)
""", """    if isinstance(path, pathlib.Path):
        staging_path = path.with_suffix(STAGING_SUFFIX)
    else:
        staging_path = f"{path}{STAGING_SUFFIX}"
""")],
needs="two stores with pathlib paths that differ only in their suffix, written at the same time", breaks="both stores stage at the same path, so one target gets the other's content",
demo="""
import pathlib, tempfile
from uberjob.stores import staged_write
with tempfile.TemporaryDirectory() as d:
    a, b = pathlib.Path(d, "x.txt"), pathlib.Path(d, "x.json")
    with staged_write(a) as f:
        f.write("a")
        with staged_write(b) as g: g.write("b")
    assert a.read_text() == "a" and b.read_text() == "b"
"""),
"c18-source-strips-zone": dict(prop="C18", edits=[(MTS, """            raise TypeError("The modified_time must be a datetime or None.")
        self.modified_time = modified_time
""", """            raise TypeError("The modified_time must be a datetime or None.")
        if modified_time is not None:
            modified_time = modified_time.replace(tzinfo=None)
        self.modified_time = modified_time
""")],
needs="a ModifiedTimeSource with a timezone-aware time in a zone other than the local one", breaks="the zone is dropped, so the time denotes another instant",
demo="""
import datetime as dt
from uberjob.stores import ModifiedTimeSource
t = dt.datetime(2020, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=5)))
assert ModifiedTimeSource(t).get_modified_time().astimezone(dt.timezone.utc) == t
"""),
"c20-elapsed-order": dict(prop="C20", edits=[(PRG, """    def increment_running(self, section, scope):
        self.update_weighted_elapsed()
        scope_state = self.section_scope_mapping[section][scope]
        self._running_scope_states.add(scope_state)
        scope_state.running += 1
        self.running_count += 1
""", """    def increment_running(self, section, scope):
        scope_state = self.section_scope_mapping[section][scope]
        if not self.running_count:
            self.update_weighted_elapsed()
        self._running_scope_states.add(scope_state)
        scope_state.running += 1
        self.running_count += 1
""")],
needs="a call of one scope starting while one of another is running", breaks="the time before the second call started is partly attributed to it",
demo="""
import time
t = [0.0]; time.time = lambda: t[0]
from uberjob.progress._simple_progress_observer import State
s = State(0.0)
for x in ("a", "b"): s.increment_total("run", (x,), 1)
s.increment_running("run", ("a",)); t[0] = 10.0
s.increment_running("run", ("b",)); t[0] = 12.0
s.increment_completed("run", ("a",)); s.increment_completed("run", ("b",))
m = s.section_scope_mapping["run"]
assert (m["a",].weighted_elapsed, m["b",].weighted_elapsed) == (11.0, 1.0), (m["a",].weighted_elapsed, m["b",].weighted_elapsed)
"""),
"c20-final-skipped": dict(prop="C20", edits=[(PRG, """        while not done:
            done = self._done_event.wait(
                self._initial_update_delay if first else self._min_update_interval
            )
            first = False
            with self._lock:
""", """        while not done:
            done = self._done_event.wait(
                self._initial_update_delay if first else self._min_update_interval
            )
            if done and first:
                # The run was too short to show anything.
                break
            first = False
            with self._lock:
""")],
needs="a run shorter than the initial update delay", breaks="the final counts are never rendered",
demo="""
from uberjob.progress._simple_progress_observer import SimpleProgressObserver
out = []
class O(SimpleProgressObserver):
    def _render(self, *a): return "x"
    def _output(self, v): out.append(v)
o = O(initial_update_delay=1, min_update_interval=1, max_update_interval=1)
with o: pass
assert out
"""),
"c20-console-skip": dict(prop="C20", edits=[(CON, """                    if is_done:
                        self._skipped_sections.add(section)
                    else:
                        self._skipped_sections.discard(section)
""", """                    if is_done:
                        self._skipped_sections.add(section)
"""), (CON, """                    if not is_done or section not in self._skipped_sections:
""", """                    if section not in self._skipped_sections:
""")],
needs="a section whose total grows after everything announced so far was done (two scopes announced one after the other)", breaks="the section is never printed again, so the last rendering misses the final counts",
demo="""
from uberjob.progress._console_progress_observer import ConsoleProgressObserver
o = ConsoleProgressObserver(initial_update_delay=1, min_update_interval=1, max_update_interval=1)
o.increment_total(section="run", scope=("a",), amount=1); o.increment_running(section="run", scope=("a",)); o.increment_completed(section="run", scope=("a",))
o._do_render()
o.increment_total(section="run", scope=("b",), amount=1); o.increment_running(section="run", scope=("b",)); o.increment_completed(section="run", scope=("b",))
assert "2 /" in o._do_render() or "b" in o._do_render.__self__._render(o._state.section_scope_mapping, 0, [], 0) or False
"""),
"c13-node-scope": dict(prop="C13", edits=[(CAC, """    out_edges = list(plan.graph.out_edges(node, keys=True))
    value_store = registry_value.value_store

    with plan.scope(*node.scope):""", """    out_edges = list(plan.graph.out_edges(node, keys=True))
    value_store = registry_value.value_store
    if registry_value.stack_frame is not None and node.stack_frame is None if type(node) is Call else False:
        node.stack_frame = registry_value.stack_frame

    with plan.scope(*node.scope):""")],
needs="a registered Call constructed directly with no stack frame", breaks="the caller's node object is changed by a run",
demo=STORE + """
from uberjob.graph import Call
plan = uberjob.Plan(); registry = uberjob.Registry()
c = Call(lambda: 1); plan.graph.add_node(c)
registry.add(c, Store())
uberjob.run(plan, registry=registry, progress=False)
assert c.stack_frame is None
"""),
"c15-composite-first": dict(prop="C15", edits=[(CMP, """    def increment_failed(self, *, section: str, scope: tuple, exception: Exception):
        for progress_observer in self._progress_observers:
            progress_observer.increment_failed(
                section=section, scope=scope, exception=exception
            )
""", """    def increment_failed(self, *, section: str, scope: tuple, exception: Exception):
        if any(
            progress_observer.increment_failed(
                section=section, scope=scope, exception=exception
            )
            for progress_observer in self._progress_observers
        ):
            return
""")],
needs="a composite of observers the first of which returns something true from increment_failed", breaks="later members are not told of the failure",
demo="""
from uberjob.progress import ProgressObserver
from uberjob.progress._composite_progress_observer import CompositeProgressObserver
n = []
class O(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): pass
    def increment_running(self, *, section, scope): pass
    def increment_completed(self, *, section, scope): pass
    def increment_failed(self, *, section, scope, exception): n.append(1); return self
c = CompositeProgressObserver([O(), O()])
c.increment_failed(section="run", scope=(), exception=Exception())
assert len(n) == 2
"""),
"c16-timing-wrapper": dict(prop="C16", edits=[(PHY, """    retry = retry or identity
""", """    retry = retry or identity
    last_calls = {}

    def recorded(retry):
        def decorate(fn):
            wrapped = retry(fn)

            def wrapper(*args, **kwargs):
                # For diagnosing hangs: what every thread is working on.
                last_calls[threading.get_ident()] = fn, args
                return wrapped(*args, **kwargs)

            return wrapper

        return decorate

    retry = recorded(retry)
"""), (PHY, "from uberjob._errors import NodeError", "import threading\n\nfrom uberjob._errors import NodeError"), (PHY, """                exception.__traceback__ = exception.__traceback__.tb_next.tb_next
""", """                exception.__traceback__ = exception.__traceback__.tb_next.tb_next.tb_next
""")],
needs="a thread that is idle after running the last consumer of a result", breaks="the arguments of each thread's last call stay referenced",
demo="""
import gc, weakref, uberjob, time, threading
class Big: pass
refs = []; started = threading.Event(); used = threading.Event(); ok = []
def make():
    b = Big(); refs.append(weakref.ref(b)); return b
def use(b): return 1
def other():
    started.wait(5)
    time.sleep(0.3); gc.collect(); ok.append(refs[0]() is None)
def use2(b): started.set()
plan = uberjob.Plan()
b = plan.call(make)
uberjob.run(plan, output=[plan.call(use2, b), plan.call(other)], max_workers=2, progress=False)
assert ok == [True], ok
"""),
"c12-json-floats": dict(prop="C12", edits=[(JS, """            return json.load(inputfile)""", """            return json.load(inputfile, parse_int=_parse_int)"""), (JS, """class JsonFileStore(FileStore):""", """def _parse_int(text):
    value = int(text)
    # Other JSON tools read large integers as doubles; be consistent with them.
    return value if abs(value) <= 2**53 else float(value)


class JsonFileStore(FileStore):""")],
needs="an integer beyond 2**53", breaks="large integers come back as floats",
demo="""
import os, tempfile
from uberjob.stores import JsonFileStore
with tempfile.TemporaryDirectory() as d:
    s = JsonFileStore(os.path.join(d, "x")); s.write(2**60)
    assert type(s.read()) is int
"""),
"c05-touch-kept": dict(prop="C05", edits=[(TCH, """        with staged_write(self.path, "wb"):
            pass
""", """        if self.get_modified_time() is not None:
            # Nothing to write; the file is already there.
            return
        with staged_write(self.path, "wb"):
            pass
""")],
needs="a touch file written for the second time", breaks="writing does not advance the modified time, so the value stays out of date",
demo="""
import os, tempfile
from uberjob.stores import TouchFileStore
with tempfile.TemporaryDirectory() as d:
    s = TouchFileStore(os.path.join(d, "x")); s.write(None)
    os.utime(s.path, (1, 1)); t = s.get_modified_time()
    s.write(None)
    assert s.get_modified_time() > t
"""),
"c09-keyword-memory": dict(prop="C09", edits=[(CAC, """    for _, successor, dependency in out_edges:
        plan.graph.remove_edge(node, successor, dependency)
        dependency_type = type(dependency)
""", """    redirected = set()
    for _, successor, dependency in out_edges:
        dependency_type = type(dependency)
        if dependency_type is KeywordArg and successor in redirected:
            # Already ordered after the read.
            continue
        redirected.add(successor)
        plan.graph.remove_edge(node, successor, dependency)
""")],
needs="a stored value passed twice to the same call, the second time by keyword", breaks="the keyword argument receives the in-memory result (or nothing, when the value is up to date)",
demo=STORE + """
class Norm(Store):
    def read(self): return ("stored", self.value)
plan = uberjob.Plan(); registry = uberjob.Registry()
x = plan.call(lambda: 5); registry.add(x, Norm())
y = plan.call(lambda a, b: (a, b), x, b=x)
r = uberjob.run(plan, registry=registry, output=y, progress=False)
assert r == (("stored", 5), ("stored", 5)), r
"""),
"c03-time-of-unstored": dict(prop="C03", edits=[(CAC, """        if value_store is None:
            modified_time_lookup[node].value = max_ancestor_modified_time
            return
""", """        if value_store is None:
            if plan.graph.out_degree(node) > 0 and type(node) is Call:
                modified_time_lookup[node].value = max_ancestor_modified_time
            return
""")],
needs="two stored calls ordered through a literal, the first rewritten since", breaks="times do not pass through literals, so the second is not rebuilt",
demo=STORE + """
external = {}
n = [0]
def produce():
    n[0] += 1; external["v"] = n[0]; return n[0]
def consume(): return external["v"]
plan = uberjob.Plan(); registry = uberjob.Registry()
a = plan.call(produce); lit = plan.lit("gate"); b = plan.call(consume)
plan.add_dependency(a, lit); plan.add_dependency(lit, b)
sa, sb = Store("a"), Store("b")
registry.add(a, sa); registry.add(b, sb)
uberjob.run(plan, registry=registry, progress=False)
external["v"] = 7; sa.write(7)
uberjob.run(plan, registry=registry, progress=False)
assert sb.value == 7, sb.value
"""),
"c04-dup-release": dict(prop="C04", edits=[(ENG, """            for successor in graph.successors(node):
                if successor in single_parent_nodes:
                    queue.put(successor)
""", """            for _, successor in graph.out_edges(node):
                if successor in single_parent_nodes:
                    queue.put(successor)
""")],
needs="one node passed twice to the same call", breaks="a call is released once per argument edge",
demo="""
import uberjob
n = []
plan = uberjob.Plan()
a = plan.call(lambda: 1)
b = plan.call(lambda x, y: n.append(1), a, a)
uberjob.run(plan, output=b, max_workers=1, progress=False)
assert n == [1], n
"""),
"c07-observer-thread": dict(prop="C07", edits=[(PRG, """        self._done_event.set()
        self._thread.join()
        self._thread = None
""", """        self._done_event.set()
        if exc_type is None:
            self._thread.join()
        self._thread = None
""")],
needs="a run that fails, with a bundled progress display", breaks="the display thread can outlive the run",
demo="""
import threading, time, uberjob
from uberjob.progress import Progress
from uberjob.progress._simple_progress_observer import SimpleProgressObserver
class O(SimpleProgressObserver):
    def __init__(self): super().__init__(initial_update_delay=1, min_update_interval=1, max_update_interval=1)
    def _render(self, *a): time.sleep(0.3); return "x"
    def _output(self, v): pass
plan = uberjob.Plan()
try: uberjob.run(plan, output=plan.call(lambda: 1 // 0), progress=Progress(O))
except uberjob.CallError: pass
assert threading.active_count() == 1, threading.enumerate()
"""),
"c14-dry-totals": dict(prop="C14", edits=[(RUN, """            _update_run_totals(plan, progress_observer)

            if dry_run:
                return plan, redirected_output_node
""", """            if dry_run:
                for node in list(plan.graph.nodes()):
                    if not plan.graph.degree(node) and node is not redirected_output_node:
                        # Not connected to anything.
                        plan.graph.remove_node(node)
                return plan, redirected_output_node

            _update_run_totals(plan, progress_observer)
""")],
needs="a plan whose physical plan contains an isolated call", breaks="the dry run's plan lacks a call (and its totals are not announced)",
demo=STORE + """
plan = uberjob.Plan(); registry = uberjob.Registry()
def f(): return 1
a = plan.call(f); b = plan.call(lambda: 2); plan.add_dependency(a, b)
def drop(p, o): 
    c = p.call(f); return p, o
p, o = uberjob.run(plan, dry_run=True, output=None, transform_physical=drop, progress=False)
assert any(getattr(n, "fn", None) is f for n in p.graph.nodes())
"""),
}
