"""Larger refactorings that keep the behaviour."""
B = "src/uberjob/"
RFG = B + "_execution/run_function_on_graph.py"
SCH = B + "_execution/scheduler.py"
PRU = B + "_transformations/pruning.py"
CAC = B + "_transformations/caching.py"
PHY = B + "_execution/run_physical.py"
NXU = B + "_util/networkx_util.py"
RET = B + "_util/retry.py"
RUN = B + "_run.py"
REG = B + "_registry.py"
PLN = B + "_plan.py"
FST = B + "stores/_file_store.py"
MNT = B + "stores/_mounted_store.py"
PSO = B + "stores/_path_source.py"



def between(path, start, end):
    s = open("/repo/" + path).read()
    i = s.index(start)
    j = s.index(end, i) if end else len(s)
    return s[i:j]


ENGINE = '''class _Runner:
    """State shared by the workers of one run."""

    def __init__(self, graph, fn, max_errors, prepared, queue):
        self.graph = graph
        self.fn = fn
        self.max_errors = max_errors
        self.prepared = prepared
        self.queue = queue
        self.stop = False
        self.first_error = None
        self.error_count = 0
        self.count_lock = threading.Lock()
        self.failure_lock = threading.Lock()

    def process(self, node):
        if self.stop:
            return
        try:
            self.fn(node)
        except BaseException as exception:
            self._record_failure(node, exception)
            return
        for successor in self.graph.successors(node):
            if self._is_ready(successor):
                self.queue.put(successor)

    def _record_failure(self, node, exception):
        with self.failure_lock:
            self.error_count += 1
            if self.first_error is None:
                self.first_error = coerce_node_error(node, exception)
            if self.max_errors is not None and self.error_count > self.max_errors:
                self.stop = True

    def _is_ready(self, successor):
        if successor in self.prepared.single_parent_nodes:
            return True
        with self.count_lock:
            remaining = self.prepared.remaining_pred_count_mapping[successor] - 1
            self.prepared.remaining_pred_count_mapping[successor] = remaining
        return remaining == 0

    def finish(self, worker_count):
        self.stop = True
        for _ in range(worker_count):
            self.queue.put(DONE)


def run_function_on_graph(
    graph, fn, *, worker_count=None, max_errors=0, scheduler=None
):
    assert_acyclic(graph)
    worker_count = coerce_worker_count(worker_count)
    max_errors = coerce_max_errors(max_errors)
    prepared = prepare_nodes(graph)
    queue = create_queue(graph, prepared.source_nodes, scheduler)
    runner = _Runner(graph, fn, max_errors, prepared, queue)

    with worker_pool(
        queue, runner.process, worker_count, lambda: runner.finish(worker_count)
    ):
        queue.join()

    if runner.first_error is not None:
        raise runner.first_error
'''

STALE = '''class _StaleCheck:
    def __init__(self, plan, registry, retry, fresh_time):
        self.graph = plan.graph
        self.registry = registry
        self.retry = retry
        self.fresh_time = fresh_time
        self.stale = {node: False for node in plan.graph.nodes()}
        self.times = dict.fromkeys(plan.graph.nodes())

    def _upstream_time(self, node):
        times = [self.times[p] for p in self.graph.predecessors(node)]
        return safe_max(times)

    def _is_out_of_date(self, node, modified_time, upstream):
        if modified_time is None:
            return True
        if self.registry.mapping[node].is_source and not upstream:
            return False
        newest = safe_max(modified_time, upstream, self.fresh_time)
        return newest > modified_time

    def check(self, node):
        for predecessor in self.graph.predecessors(node):
            if self.stale[predecessor]:
                self.stale[node] = True
                return
        self._check_own_time(node)

    def _check_own_time(self, node):
        upstream = self._upstream_time(node)
        store = self.registry.get(node)
        if store is None:
            self.times[node] = upstream
            return
        modified_time = _to_naive_utc_time(self.retry(store.get_modified_time)())
        if self._is_out_of_date(node, modified_time, upstream):
            self.stale[node] = True
        else:
            self.times[node] = modified_time


def _get_stale_nodes(
    plan: Plan,
    registry: Registry,
    *,
    retry,
    max_workers: int | None = None,
    fresh_time: dt.datetime | None = None,
    progress_observer: ProgressObserver,
) -> set[Node]:
    plan = prune_source_literals(
        plan, inplace=False, predicate=lambda node: node not in registry
    )
    check = _StaleCheck(plan, registry, retry, _to_naive_utc_time(fresh_time))
    process = check.check

'''

ADD = '''def _redirect_edges(graph, node, out_edges, read_node, write_node):
    for _, successor, dependency in out_edges:
        graph.remove_edge(node, successor, dependency)
        if type(dependency) is Dependency:
            source = write_node
        else:
            source = read_node
        if source is not None:
            graph.add_edge(source, successor, dependency)


def _add_barrier(plan, node):
    barrier = plan.lit(Barrier)
    plan.graph.add_edges_from(
        [(p, barrier, Dependency()) for p in list(plan.graph.predecessors(node))]
    )
    return barrier


def _add_value_store(
    plan: Plan, node: Node, registry_value: RegistryValue, *, is_stale: bool
) -> tuple[Node | None, Node]:
    store = registry_value.value_store
    store_type = type(store)
    is_call = type(node) is Call

    def create_call(fn, *args):
        call = plan._call(registry_value.stack_frame, fn, *args)
        if is_call:
            call.scope = get_full_call_scope(node)
        return call

    out_edges = list(plan.graph.out_edges(node, keys=True))

    with plan.scope(*node.scope):
        store_node = plan.lit(store)
        read_node = create_call(store_type.read, store_node)
        if not is_stale:
            write_node = None
        elif registry_value.is_source:
            write_node = _add_barrier(plan, node)
        else:
            write_node = create_call(store_type.write, store_node, node)
        if write_node is not None:
            plan.graph.add_edge(write_node, read_node, Dependency())

    _redirect_edges(plan.graph, node, out_edges, read_node, write_node)
    return write_node, read_node


'''

SAME = [
    ("ref-engine-class", [(RFG, between(RFG, "def run_function_on_graph(", None), ENGINE)]),
    (
        "ref-scheduler-dispatch",
        [(SCH, between(SCH, "def create_queue(", "__all__"), '''def _create_greedy_queue(graph, initial_items):
    priority_mapping = greedy.get_priority_mapping(graph)

    def priority(item):
        # DONE has the highest priority.
        return priority_mapping.get(item, -1)

    return PriorityQueue(initial_items, priority)


_QUEUE_FACTORIES = {
    "cheap": lambda graph, items: create_simple_queue(items),
    "random": lambda graph, items: RandomQueue(items),
    "default": _create_greedy_queue,
}


def create_queue(graph, initial_items, scheduler):
    try:
        factory = _QUEUE_FACTORIES[scheduler or "default"]
    except KeyError:
        raise ValueError(f"Invalid scheduler {scheduler!r}") from None
    return factory(graph, initial_items)


''')],
    ),
    (
        "ref-scheduler-tuples",
        [
            (SCH, between(SCH, "@total_ordering", "class PriorityQueue"), ""),
            (SCH, between(SCH, "class PriorityQueue", "def create_queue"), '''class PriorityQueue(Queue):
    def __init__(self, initial_items, priority):
        super().__init__()
        self.priority = priority
        self.tie_breaker = itertools.count()
        self.queue = [self._entry(item) for item in initial_items]
        heapify(self.queue)
        self.unfinished_tasks = len(self.queue)

    def _entry(self, item):
        return (self.priority(item), next(self.tie_breaker), item)

    def _qsize(self):
        return len(self.queue)

    def _put(self, item):
        heappush(self.queue, self._entry(item))

    def _get(self):
        _, _, item = heappop(self.queue)
        return item


'''),
            (SCH, "from functools import total_ordering\n", ""),
            (SCH, "import random\n", "import itertools\nimport random\n"),
        ],
    ),
    (
        "ref-scheduler-dataclass",
        [
            (SCH, between(SCH, "@total_ordering", "class PriorityQueue"), '''@dataclass(order=True)
class KeyValuePair:
    key: int
    value: Any = field(compare=False)


'''),
            (SCH, "from functools import total_ordering\n", "from dataclasses import dataclass, field\n"),
            (SCH, "from queue import Queue\n", "from queue import Queue\nfrom typing import Any\n"),
        ],
    ),
    (
        "ref-prune-loops",
        [
            (PRU, '''    required_nodes = all_ancestors(plan.graph, required_nodes)
    prune_nodes = set(plan.graph.nodes()) - required_nodes
    plan.graph.remove_nodes_from(prune_nodes)

    for literal in [
        u for u in plan.graph.nodes() if type(u) is Literal and u != output_node
    ]:
        _prune_literal_if_trivial(plan, literal)

    return plan
''', '''    graph = plan.graph
    keep = all_ancestors(graph, required_nodes)
    for node in list(graph.nodes()):
        if node not in keep:
            graph.remove_node(node)

    for node in list(graph.nodes()):
        if type(node) is not Literal or node is output_node:
            continue
        _prune_literal_if_trivial(plan, node)
    return plan
'''),
            (PRU, '''    for predecessor, successor in itertools.product(predecessors, successors):
        plan.graph.add_edge(predecessor, successor, Dependency())
    plan.graph.remove_node(literal)
''', '''    plan.graph.add_edges_from(
        (predecessor, successor, Dependency())
        for predecessor in predecessors
        for successor in successors
    )
    plan.graph.remove_node(literal)
'''),
        ],
    ),
    (
        "ref-topo-deque",
        [(NXU, between(NXU, "    # Kahn's algorithm", None), '''    # Kahn's algorithm
    remaining = {node: len(graph.pred[node]) for node in graph.nodes}
    ready = collections.deque(node for node, count in remaining.items() if count == 0)
    visited_count = 0
    while ready:
        node = ready.popleft()
        visited_count += 1
        for successor in graph.succ[node]:
            remaining[successor] -= 1
            if not remaining[successor]:
                ready.append(successor)
        yield node

    if visited_count != len(remaining):
        raise nx.HasACycle("The graph contains a cycle.")
'''), (NXU, "import networkx as nx\n", "import collections\n\nimport networkx as nx\n")],
    ),
    (
        "ref-acyclic-deque",
        [(NXU, '''    for _ in topological_sort(graph):
        pass
''', '''    collections.deque(topological_sort(graph), maxlen=0)
'''), (NXU, "import networkx as nx\n", "import collections\n\nimport networkx as nx\n")],
    ),
    (
        "ref-ancestors-nx",
        [(NXU, between(NXU, "    visited = set()\n    frontier", "def predecessor_count"), '''    visited = set(sources)
    frontier = list(visited)
    while frontier:
        for predecessor in graph.pred[frontier.pop()]:
            if predecessor not in visited:
                visited.add(predecessor)
                frontier.append(predecessor)
    return visited


''')],
    ),
    (
        "ref-retry-while",
        [(RET, between(RET, "            for attempt_index in range(attempts):", "        return wrapper"), '''            for _ in range(attempts - 1):
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    continue
            return f(*args, **kwargs)

''')],
    ),
    (
        "ref-retry-remaining",
        [(RET, between(RET, "            for attempt_index in range(attempts):", "        return wrapper"), '''            remaining = attempts
            while True:
                remaining -= 1
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    if not remaining:
                        raise

''')],
    ),
    (
        "ref-run-helpers",
        [
            (RUN, between(RUN, '            if registry:\n', '            if transform_physical:'), '''            plan, redirected_output_node = _prepare(
                plan,
                registry,
                output_node,
                progress_observer,
                stale_check_max_workers,
                retry,
                fresh_time,
            )

'''),
            (RUN, "def run(\n", '''def _prepare(
    plan, registry, output_node, progress_observer, max_workers, retry, fresh_time
):
    if not registry:
        plan = prune_plan(
            plan, required_nodes=(), output_node=output_node, inplace=True
        )
        return plan, output_node
    return plan_with_value_stores(
        plan,
        registry,
        output_node=output_node,
        progress_observer=progress_observer,
        max_workers=max_workers,
        retry=retry,
        fresh_time=fresh_time,
        inplace=True,
    )


def run(
'''),
        ],
    ),
    (
        "ref-bound-dataclass",
        [
            (PHY, between(PHY, "class BoundCall:", "def _create_bound_call("), '''@dataclass
class BoundCall:
    """A bound symbolic function call."""

    args: list
    kwargs: dict
    result: Slot

    def run(self, fn, retry):
        call = retry(fn)
        self.result.value = call(
            *(arg.value for arg in self.args),
            **{name: arg.value for name, arg in self.kwargs.items()},
        )


'''),
            (PHY, "from typing import Any", "from dataclasses import dataclass\nfrom typing import Any"),
        ],
    ),
    (
        "ref-bound-loops",
        [(PHY, between(PHY, "    result_lookup = {\n", "    output_slot ="), '''    result_lookup = {}
    for node in plan.graph.nodes():
        result_lookup[node] = node if type(node) is Literal else Slot(None)
    bound_call_lookup = {}
    for node in plan.graph.nodes():
        if type(node) is not Call:
            continue
        bound_call = _create_bound_call(plan.graph, node, result_lookup)
        bound_call_lookup[node] = Slot(bound_call)
''')],
    ),
    (
        "ref-gather-module",
        [
            (PLN, between(PLN, "        def recurse(root):", "    def gather(self"), '''        value = _gather_value(self, stack_frame, value)
        if isinstance(value, Node):
            return value
        return self.lit(value)

'''),
            (PLN, "class Plan:\n", '''def _gather_value(plan, stack_frame, value):
    """Gathers containers of nodes; anything else is returned unchanged."""
    value_type = type(value)
    if value_type not in GATHER_LOOKUP:
        return value
    children = []
    is_symbolic = False
    for item in value.items() if value_type is dict else value:
        child = _gather_value(plan, stack_frame, item)
        is_symbolic = is_symbolic or isinstance(child, Node)
        children.append(child)
    if not is_symbolic:
        return value
    return plan._call(stack_frame, GATHER_LOOKUP[value_type], *children)


class Plan:
'''),
        ],
    ),
    (
        "ref-call-edges",
        [(PLN, between(PLN, "        for index, arg in enumerate(args):", "        return call\n\n    def call"), '''        keys = [PositionalArg(index) for index in range(len(args))]
        keys += [KeywordArg(name, index) for index, name in enumerate(kwargs)]
        for key, arg in zip(keys, [*args, *kwargs.values()]):
            self.graph.add_edge(self._gather(stack_frame, arg), call, key)
''')],
    ),
    (
        "ref-registry",
        [
            (REG, '''        v = self.mapping.get(node)
        return v.value_store if v else None
''', '''        try:
            return self.mapping[node].value_store
        except KeyError:
            return None
'''),
            (REG, between(REG, "        new_registry = Registry()\n", "    __copy__"), '''        new_registry = Registry()
        for node, value in self.mapping.items():
            new_registry.mapping[node] = RegistryValue(
                value.value_store,
                is_source=value.is_source,
                stack_frame=value.stack_frame,
            )
        return new_registry

'''),
        ],
    ),
    (
        "ref-staging-class",
        [
            (FST, between(FST, "@contextmanager\ndef staged_write_path(", "@contextmanager\ndef staged_write("), '''class staged_write_path:
    """
    Context manager for writing a file atomically.

    It yields a staging path which will be atomically renamed to the given path if an exception is not raised.
    If an exception is raised, the staging path will be deleted if it exists.

    :param path: The path.
    """

    def __init__(self, path: str | pathlib.Path):
        self.path = path
        staging_path = f"{path}{STAGING_SUFFIX}"
        if isinstance(path, pathlib.Path):
            staging_path = pathlib.Path(staging_path)
        self.staging_path = staging_path

    def __enter__(self) -> str | pathlib.Path:
        return self.staging_path

    def __exit__(self, exc_type, exc_value, exc_traceback):
        if exc_type is not None:
            _try_remove(self.staging_path)
            return False
        try:
            os.replace(self.staging_path, self.path)
        except BaseException:
            _try_remove(self.staging_path)
            raise
        return False


''')],
    ),
    (
        "ref-staging-flag",
        [(FST, '''    try:
        yield staging_path
        os.replace(staging_path, path)
    except BaseException:
        _try_remove(staging_path)
        raise
''', '''    replaced = False
    try:
        yield staging_path
        os.replace(staging_path, path)
        replaced = True
    finally:
        if not replaced:
            _try_remove(staging_path)
''')],
    ),
    (
        "ref-mounted-inline",
        [
            (MNT, between(MNT, "@contextmanager\n", "class MountedStore"), ""),
            (MNT, between(MNT, "    def read(self):", "    def __repr__"), '''    def _local(self, directory):
        path = os.path.join(directory, "temp")
        return path, self.create_store(path)

    def read(self):
        with tempfile.TemporaryDirectory() as directory:
            path, store = self._local(directory)
            self.copy_to_local(path)
            value = store.read()
        return value

    def write(self, value) -> None:
        with tempfile.TemporaryDirectory() as directory:
            path, store = self._local(directory)
            store.write(value)
            self.copy_from_local(path)

'''),
            (MNT, "from contextlib import contextmanager\n", ""),
        ],
    ),
    ("ref-stale-class", [(CAC, between(CAC, "def _get_stale_nodes(", "    def process_with_callbacks"), STALE), (CAC, "    return {k for k, v in stale_lookup.items() if v.value}\n", "    return {node for node, is_stale in check.stale.items() if is_stale}\n")]),
    ("ref-add-store", [(CAC, between(CAC, "def _add_value_store(", "def _update_stale_totals("), ADD)]),
    (
        "ref-worker-partial",
        [(RFG, between(RFG, "def worker_thread(", "@contextmanager"), '''def _work(queue, process_item):
    for item in iter(queue.get, DONE):
        try:
            process_item(item)
        finally:
            queue.task_done()
    queue.task_done()


def worker_thread(queue, process_item):
    return threading.Thread(target=_work, args=(queue, process_item))


''')],
    ),
    (
        "ref-exitstack-pool",
        [(RFG, between(RFG, "@contextmanager\ndef worker_pool", "class PreparedNodes"), '''@contextmanager
def worker_pool(queue, process_item, worker_count, stop_workers):
    with ExitStack() as stack:
        workers = []

        def join_workers():
            for worker in workers:
                if worker.ident is not None:
                    worker.join()

        stack.callback(join_workers)
        stack.callback(stop_workers)
        while len(workers) < worker_count:
            workers.append(worker_thread(queue, process_item))
            workers[-1].start()
        yield


'''), (RFG, "from contextlib import contextmanager\n", "from contextlib import ExitStack, contextmanager\n")],
    ),
    (
        "ref-prepare-degree",
        [(RFG, between(RFG, "    source_nodes = []\n    single_parent", "    return PreparedNodes("), '''    counts = {node: predecessor_count(graph, node) for node in graph}
    source_nodes = [node for node, count in counts.items() if not count]
    single_parent_nodes = {node for node, count in counts.items() if count == 1}
    remaining_pred_count_mapping = {
        node: count for node, count in counts.items() if count > 1
    }
''')],
    ),
    (
        "ref-dry-late",
        [(RUN, between(RUN, "            if dry_run:\n", "    except NodeError"), '''            if not dry_run:
                return run_physical(
                    plan,
                    output_node=redirected_output_node,
                    progress_observer=progress_observer,
                    max_workers=max_workers,
                    max_errors=max_errors,
                    retry=retry,
                    scheduler=scheduler,
                    inplace=True,
                )
        return plan, redirected_output_node
''')],
    ),
]


MARKED = """    visited = set(sources)
    frontier = list(visited)
    while frontier:
        node = frontier.pop()
        for predecessor in graph.pred[node]:
%s
    return visited


"""


def marked(body):
    return [(NXU, between(NXU, "    visited = set()\n    frontier", "def predecessor_count"), MARKED % "\n".join("            " + l for l in body.split("\n")))]


BUGS = [
    ("ref-mark-only", "C01,C04", marked("if predecessor not in visited:\n    visited.add(predecessor)\n    if graph.pred[predecessor]:\n        frontier.append(predecessor)\n    if graph.out_degree(predecessor) > 1:\n        break")),
    ("ref-mark-skip", "C01,C04", marked("if predecessor not in visited and type(predecessor) is not int and len(graph.succ[predecessor]) < 3:\n    visited.add(predecessor)\n    frontier.append(predecessor)")),
    ("ref-mark-return", "C01,C04", marked("if predecessor in visited:\n    return visited\nvisited.add(predecessor)\nfrontier.append(predecessor)")),
    ("ref-mark-lost", "C01,C04", marked("if predecessor not in visited:\n    visited.add(predecessor)\n    if type(predecessor).__name__ == 'Call':\n        frontier.append(predecessor)")),
    (
        "ref-tuple-no-counter",
        "C04",
        [
            (SCH, "heappush(self.queue, KeyValuePair(self.priority(item), item))", "heappush(self.queue, (self.priority(item), item))"),
            (SCH, "[KeyValuePair(priority(item), item) for item in initial_items]", "[(priority(item), item) for item in initial_items]"),
            (SCH, "heappop(self.queue).value", "heappop(self.queue)[1]"),
        ],
    ),
]
