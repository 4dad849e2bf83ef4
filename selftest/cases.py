"""(name, properties that must raise an alarm, [(file, old, new)]) and behaviour-preserving (name, edits)."""
ENG = "src/uberjob/_execution/run_function_on_graph.py"
SCH = "src/uberjob/_execution/scheduler.py"
NXU = "src/uberjob/_util/networkx_util.py"
PRU = "src/uberjob/_transformations/pruning.py"
CAC = "src/uberjob/_transformations/caching.py"
PHY = "src/uberjob/_execution/run_physical.py"
RUN = "src/uberjob/_run.py"
PLAN = "src/uberjob/_plan.py"
GRA = "src/uberjob/graph.py"
RETRY = "src/uberjob/_util/retry.py"

BUGS = [
    # ---- C01
    ("release-in-finally", "C01,C06", [(ENG, """        else:
            for successor in graph.successors(node):
                if successor in single_parent_nodes:
                    queue.put(successor)
                else:
                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)
""", """        finally:
            for successor in graph.successors(node):
                if successor in single_parent_nodes:
                    queue.put(successor)
                else:
                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)
""")]),
    ("release-before-call", "C01", [(ENG, """        try:
            fn(node)
        except""", """        try:
            for s in graph.successors(node):
                if s in single_parent_nodes:
                    queue.put(s)
            fn(node)
        except"""), (ENG, """                if successor in single_parent_nodes:
                    queue.put(successor)
                else:""", """                if successor in single_parent_nodes:
                    pass
                else:""")]),
    ("zero-test-le-one", "C01", [(ENG, "if remaining_pred_count_mapping[successor] == 0:", "if remaining_pred_count_mapping[successor] <= 1:")]),
    ("zero-test-outside-lock", "C01,C04", [(ENG, """                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)""", """                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                    if remaining_pred_count_mapping[successor] == 0:
                        queue.put(successor)""")]),
    ("no-lock", "C01,C07", [(ENG, "                    with remaining_pred_count_lock:", "                    if True:")]),
    ("lock-per-call", "C01,C07", [(ENG, "                    with remaining_pred_count_lock:", "                    with threading.Lock():")]),
    ("count-le-two", "C01", [(ENG, "elif count == 1:", "elif count <= 2:")]),
    ("count-off-by-one", "C01", [(ENG, "remaining_pred_count_mapping[node] = count", "remaining_pred_count_mapping[node] = count - 1")]),
    ("source-count-one", "C01", [(ENG, "        if count == 0:\n", "        if count <= 1:\n")]),
    ("no-routing", "C01", [(PRU, """    for predecessor, successor in itertools.product(predecessors, successors):
        plan.graph.add_edge(predecessor, successor, Dependency())
    plan.graph.remove_node(literal)""", """    plan.graph.remove_node(literal)""")]),
    ("routing-skips-literals", "C01", [(PRU, """        plan.graph.add_edge(predecessor, successor, Dependency())
""", """        if type(predecessor) is not Literal:
            plan.graph.add_edge(predecessor, successor, Dependency())
""")]),
    ("routing-zip", "C01", [(PRU, "itertools.product(predecessors, successors)", "zip(predecessors, successors)")]),
    ("prune-nonsource-literals", "C01", [(PRU, "node for node in graph if type(node) is Literal and is_source_node(graph, node)", "node for node in graph if type(node) is Literal")]),
    ("closure-skips-literal-preds", "C01,C04", [(NXU, "        frontier.extend(graph.predecessors(node))", "        if type(node).__name__ == 'Call':\n            frontier.extend(graph.predecessors(node))")]),
    # an error path which swallows
    ("failure-treated-as-success", "C01,C06", [(ENG, "        except BaseException as exception:\n", "        except LookupError:\n            pass\n        except BaseException as exception:\n"), (ENG, """        else:
            for successor""", """        if True:
            for successor""")]),
]

SAME = [
    ("inline-predecessor-count", [(ENG, "count = predecessor_count(graph, node)", "count = len(graph.pred[node])")]),
    ("extract-release", [(ENG, """                else:
                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)

    def stop""", """                elif countdown(successor):
                    queue.put(successor)

    def countdown(successor):
        with remaining_pred_count_lock:
            remaining = remaining_pred_count_mapping[successor] - 1
            remaining_pred_count_mapping[successor] = remaining
            return remaining == 0

    def stop""")]),
    ("no-single-parents", [(ENG, """        elif count == 1:
            single_parent_nodes.add(node)
""", ""), (ENG, """                if successor in single_parent_nodes:
                    queue.put(successor)
                else:
                    with""", """                if True:
                    with""")]),
    ("nested-product", [(PRU, """    for predecessor, successor in itertools.product(predecessors, successors):
        plan.graph.add_edge(predecessor, successor, Dependency())
""", """    for predecessor in predecessors:
        for successor in successors:
            plan.graph.add_edge(predecessor, successor, Dependency())
""")]),
    ("closure-rewrite", [(NXU, """    visited = set()
    frontier = list(sources)
    while frontier:
        node = frontier.pop()
        if node in visited:
            continue
        visited.add(node)
        frontier.extend(graph.predecessors(node))
    return visited""", """    seen = set()
    todo = deque(sources)
    while len(todo) > 0:
        current = todo.popleft()
        if current not in seen:
            seen.add(current)
            for parent in graph.predecessors(current):
                todo.append(parent)
    return seen"""), (NXU, "import networkx as nx", "from collections import deque\n\nimport networkx as nx")]),
    ("any-instead-of-all", [(PRU, """    if not all(
        type(dependency) is Dependency
        for _, _, dependency in plan.graph.out_edges(literal, keys=True)
    ):
        return
""", """    if any(
        type(dependency) is not Dependency
        for _, _, dependency in plan.graph.out_edges(literal, keys=True)
    ):
        return
""")]),
    ("named-worker-class", [(ENG, """def worker_thread(queue, process_item):
    def process_items():
        while True:
            item = queue.get()
            try:
                if item is DONE:
                    return
                process_item(item)
            finally:
                queue.task_done()

    return threading.Thread(target=process_items)
""", """class Worker(threading.Thread):
    def __init__(self, queue, process_item):
        super().__init__()
        self._items = queue
        self._process_item = process_item

    def run(self):
        while True:
            item = self._items.get()
            try:
                if item is DONE:
                    break
                self._process_item(item)
            finally:
                self._items.task_done()


def worker_thread(queue, process_item):
    return Worker(queue, process_item)
""")]),
    ("while-not-done", [(ENG, """        while True:
            item = queue.get()
            try:
                if item is DONE:
                    return
                process_item(item)
            finally:
                queue.task_done()
""", """        item = queue.get()
        while item is not DONE:
            try:
                process_item(item)
            finally:
                queue.task_done()
            item = queue.get()
        queue.task_done()
""")]),
    ("prepare-three-comprehensions", [(ENG, """    source_nodes = []
    single_parent_nodes = set()
    remaining_pred_count_mapping = {}
    for node in graph:
        count = predecessor_count(graph, node)
        if count == 0:
            source_nodes.append(node)
        elif count == 1:
            single_parent_nodes.add(node)
        else:
            remaining_pred_count_mapping[node] = count
""", """    counts = {node: predecessor_count(graph, node) for node in graph}
    source_nodes = [node for node, count in counts.items() if count == 0]
    single_parent_nodes = {node for node, count in counts.items() if count == 1}
    remaining_pred_count_mapping = {node: count for node, count in counts.items() if count > 1}
""")]),
    ("process-node-reordered", [(ENG, """        try:
            fn(node)
        except BaseException as exception:
            with failure_lock:
                error_count += 1
                if not first_node_error:
                    first_node_error = coerce_node_error(node, exception)
                if max_errors is not None and error_count > max_errors:
                    stop = True
        else:
            for""", """        try:
            fn(node)
        except BaseException as exception:
            node_error = coerce_node_error(node, exception)
            with failure_lock:
                if first_node_error is None:
                    first_node_error = node_error
                error_count = error_count + 1
                limit_exceeded = max_errors is not None and error_count > max_errors
                if limit_exceeded:
                    stop = True
            return
        if True:
            for""")]),
    ("cycle-sum-positive", [(NXU, '    if any(pred_count_mapping.values()):\n        raise nx.HasACycle("The graph contains a cycle.")', '    if sum(map(bool, pred_count_mapping.values())) > 0:\n        raise nx.HasACycle("The graph contains a cycle.")')]),
    ("cycle-sum-counts", [(NXU, '    if any(pred_count_mapping.values()):\n        raise nx.HasACycle("The graph contains a cycle.")', '    remaining = sum(pred_count_mapping.values())\n    if remaining:\n        raise nx.HasACycle("The graph contains a cycle.")')]),
    ("cycle-for-loop", [(NXU, '    if any(pred_count_mapping.values()):\n        raise nx.HasACycle("The graph contains a cycle.")', '    for count in pred_count_mapping.values():\n        if count != 0:\n            raise nx.HasACycle("The graph contains a cycle.")')]),
    ("cycle-list-left", [(NXU, '    if any(pred_count_mapping.values()):\n        raise nx.HasACycle("The graph contains a cycle.")', '    left = [n for n, c in pred_count_mapping.items() if c > 0]\n    if left:\n        raise nx.HasACycle("The graph contains a cycle.")')]),
    ("cycle-not-any-return", [(NXU, '    if any(pred_count_mapping.values()):\n        raise nx.HasACycle("The graph contains a cycle.")', '    if not any(pred_count_mapping.values()):\n        return\n    raise nx.HasACycle("The graph contains a cycle.")')]),
    ("cycle-visited-count", [(NXU, """    while q:
        node = q.pop()
        for successor in succ[node]:""", """    visited = 0
    while q:
        node = q.pop()
        visited += 1
        for successor in succ[node]:"""), (NXU, '    if any(pred_count_mapping.values()):\n        raise nx.HasACycle("The graph contains a cycle.")', """    if visited != len(graph):
        raise nx.HasACycle("The graph contains a cycle.")""")]),
    ("cycle-pop-count", [(NXU, """            pred_count_mapping[successor] -= 1
            if pred_count_mapping[successor] == 0:
                q.append(successor)
""", """            remaining = pred_count_mapping[successor] - 1
            if remaining:
                pred_count_mapping[successor] = remaining
            else:
                del pred_count_mapping[successor]
                q.append(successor)
"""), (NXU, "    if any(pred_count_mapping.values()):", "    if pred_count_mapping:")]),
]
