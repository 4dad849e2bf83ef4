"""Refactorings of single functions that keep the behaviour."""
from cases_refac import between, RFG, SCH, PRU, CAC, PHY, NXU, RET, RUN, REG, PLN, MNT

SPO = "src/uberjob/progress/_simple_progress_observer.py"

BUGS = [
    ("sib-stop-equal-outside", "C10", [(RFG, '''                if max_errors is not None and error_count > max_errors:
                    stop = True
''', '''            if max_errors is not None and error_count == max_errors + 1:
                stop = True
''')]),
    ("sib-stop-late", "C10", [(RFG, "error_count > max_errors", "error_count > max_errors + 1")]),
    ("sib-stop-never-zero", "C10", [(RFG, "max_errors is not None and error_count > max_errors", "max_errors and error_count > max_errors")]),
]
SAME = [
    ("sib-join-alive", [(RFG, "if worker.ident is not None:", "if worker.is_alive():")]),
    ("sib-stop-equal", [(RFG, "max_errors is not None and error_count > max_errors", "max_errors is not None and error_count == max_errors + 1")]),
    ("sib-stop-outside", [(RFG, '''                if max_errors is not None and error_count > max_errors:
                    stop = True
''', '''            if max_errors is not None and error_count > max_errors:
                stop = True
''')]),
    ("sib-ready-flag", [(RFG, '''                if successor in single_parent_nodes:
                    queue.put(successor)
                else:
                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)
''', '''                ready = successor in single_parent_nodes
                if not ready:
                    with remaining_pred_count_lock:
                        left = remaining_pred_count_mapping[successor] - 1
                        remaining_pred_count_mapping[successor] = left
                    ready = left == 0
                if ready:
                    queue.put(successor)
''')]),
    ("sib-process-parts", [(RFG, between(RFG, "    def process_node(node):", "    def stop_workers"), '''    def record_failure(node, exception):
        nonlocal stop
        nonlocal first_node_error
        nonlocal error_count
        with failure_lock:
            error_count += 1
            if first_node_error is None:
                first_node_error = coerce_node_error(node, exception)
            if max_errors is None:
                return
            if error_count > max_errors:
                stop = True

    def is_ready(successor):
        if successor in single_parent_nodes:
            return True
        with remaining_pred_count_lock:
            remaining_pred_count_mapping[successor] -= 1
            return not remaining_pred_count_mapping[successor]

    def process_node(node):
        if not stop:
            try:
                fn(node)
            except BaseException as exception:
                record_failure(node, exception)
                return
            for successor in filter(is_ready, graph.successors(node)):
                queue.put(successor)

''')]),
    ("sib-sentinel-late", [(RFG, '''            item = queue.get()
            try:
                if item is DONE:
                    return
                process_item(item)
            finally:
                queue.task_done()
''', '''            item = queue.get()
            done = item is DONE
            try:
                if not done:
                    process_item(item)
            finally:
                queue.task_done()
            if done:
                break
''')]),
    ("sib-prune-list", [(PRU, '''    prune_nodes = set(plan.graph.nodes()) - required_nodes
    plan.graph.remove_nodes_from(prune_nodes)
''', '''    graph = plan.graph
    for node in [node for node in graph if node not in required_nodes]:
        graph.remove_node(node)
''')]),
    ("sib-literal-loop", [(PRU, '''    if not all(
        type(dependency) is Dependency
        for _, _, dependency in plan.graph.out_edges(literal, keys=True)
    ):
        return
''', '''    graph = plan.graph
    for _, _, dependency in graph.out_edges(literal, keys=True):
        if type(dependency) is not Dependency:
            return
'''), (PRU, '''    m = len(predecessors)
    n = len(successors)

    if m * n > m + n:
        return
''', '''    if len(predecessors) * len(successors) > len(predecessors) + len(successors):
        return
''')]),
    ("sib-source-literals", [(PRU, between(PRU, "    source_literals = [\n", "    return plan"), '''    for node in list(graph):
        if type(node) is not Literal or not is_source_node(graph, node):
            continue
        if predicate is None or predicate(node):
            graph.remove_node(node)
''')]),
    ("sib-stale-order", [(CAC, between(CAC, "        modified_time = _to_naive_utc_time(retry", "    def process(node)"), '''        modified_time = _to_naive_utc_time(retry(value_store.get_modified_time)())
        if modified_time is None:
            is_stale = True
        elif max_ancestor_modified_time is None and registry.mapping[node].is_source:
            is_stale = False
        else:
            newest = safe_max(max_ancestor_modified_time, fresh_time)
            is_stale = newest is not None and newest > modified_time
        if is_stale:
            stale_lookup[node].value = True
        else:
            modified_time_lookup[node].value = modified_time

''')]),
    ("sib-stale-process", [(CAC, between(CAC, "        has_stale_ancestor = any(", "    def process_with_callbacks"), '''        for predecessor in plan.graph.predecessors(node):
            if stale_lookup[predecessor].value:
                stale_lookup[node].value = True
                return
        process_no_stale_ancestor(node)

''')]),
    ("sib-stale-call-split", [(CAC, between(CAC, "    def process_with_callbacks(node):", "    run_function_on_graph("), '''    def process_call(node):
        scope = _get_stale_scope(node, registry)
        progress_observer.increment_running(section="stale", scope=scope)
        try:
            process(node)
        except Exception as exception:
            # Drop internal frames
            exception.__traceback__ = exception.__traceback__.tb_next.tb_next.tb_next
            progress_observer.increment_failed(
                section="stale",
                scope=scope,
                exception=create_chained_call_error(node, exception),
            )
            raise NodeError(node) from exception
        progress_observer.increment_completed(section="stale", scope=scope)

    def process_other(node):
        try:
            process(node)
        except Exception as exception:
            # Drop internal frames
            exception.__traceback__ = exception.__traceback__.tb_next.tb_next.tb_next
            call = _create_modified_time_call(node, registry)
            raise NodeError(call) from exception

    def process_with_callbacks(node):
        (process_call if type(node) is Call else process_other)(node)

''')]),
    ("sib-totals-loop", [(RUN, '''    scope_counts = collections.Counter(
        get_full_call_scope(node) for node in plan.graph.nodes() if type(node) is Call
    )
''', '''    scope_counts = collections.defaultdict(int)
    for node in plan.graph.nodes():
        if type(node) is Call:
            scope_counts[get_full_call_scope(node)] += 1
''')]),
    ("sib-run-early", [(RUN, '''            if dry_run:
                return plan, redirected_output_node

            return run_physical(
                plan,
                output_node=redirected_output_node,
                progress_observer=progress_observer,
                max_workers=max_workers,
                max_errors=max_errors,
                retry=retry,
                scheduler=scheduler,
                inplace=True,
            )
''', '''            if not dry_run:
                return run_physical(
                    plan,
                    output_node=redirected_output_node,
                    progress_observer=progress_observer,
                    max_workers=max_workers,
                    max_errors=max_errors,
                    retry=retry,
                    scheduler=scheduler,
                    inplace=True,
                )
        return plan, redirected_output_node
''')]),
    ("sib-coerce-progress", [(RUN, between(RUN, "    if not progress:\n        return null_progress", "    if not isinstance(progress, Progress)"), '''    if not progress:
        return null_progress
    if progress is True:
        return default_progress
    try:
        members = tuple(progress)
    except TypeError:
        pass
    else:
        progress = composite_progress(*members)
''')]),
    ("sib-state-finish", [(SPO, between(SPO, "    def increment_completed(self, section, scope):", "    def update_weighted_elapsed"), '''    def _finish(self, section, scope):
        self.update_weighted_elapsed()
        self.running_count -= 1
        scope_state = self.section_scope_mapping[section][scope]
        scope_state.running -= 1
        if scope_state.running == 0:
            self._running_scope_states.discard(scope_state)
        return scope_state

    def increment_completed(self, section, scope):
        self._finish(section, scope).completed += 1

    def increment_failed(self, section, scope):
        self._finish(section, scope).failed += 1

''')]),
    ("sib-render-due", [(SPO, between(SPO, "    def _do_render(self):", "    def _run_update_thread"), '''    def _is_due(self, t):
        if self._stale or self._last_render_time is None:
            return True
        return t - self._last_render_time >= self._max_update_interval

    def _do_render(self):
        now = time.time()
        if not self._is_due(now):
            return None
        self._last_render_time = now
        self._stale = False
        state = self._state
        state.update_weighted_elapsed()
        first_new = self._new_exception_index
        self._new_exception_index = len(self._exception_tuples)
        return self._render(
            state.section_scope_mapping,
            first_new,
            self._exception_tuples,
            now - self._start_time,
        )

''')]),
    ("sib-thread-loop", [(SPO, between(SPO, "        done = False\n        first = True", "    def increment_total(self, *"), '''        delay = self._initial_update_delay
        while True:
            done = self._done_event.wait(delay)
            delay = self._min_update_interval
            with self._lock:
                output_value = self._do_render()
            if output_value is not None:
                self._output(output_value)
            if done:
                return

''')]),
    ("sib-retry-last", [(RET, '''            for attempt_index in range(attempts):
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    is_last_attempt = attempt_index == attempts - 1
                    if is_last_attempt:
                        raise
''', '''            for _ in range(attempts - 1):
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    pass
            return f(*args, **kwargs)
''')]),
    ("sib-mounted-order", [(MNT, '''            self.copy_to_local(local_path)
            return self.create_store(local_path).read()
''', '''            local_store = self.create_store(local_path)
            self.copy_to_local(local_path)
            value = local_store.read()
        return value
''')]),
    ("sib-topo-comp", [(NXU, between(NXU, "    pred_count_mapping = {}\n    q = []", "    while q:"), '''    counts = {node: len(pred[node]) for node in graph.nodes}
    q = [node for node, count in counts.items() if count == 0]
    pred_count_mapping = counts

''')]),
    ("sib-ancestors-stack", [(NXU, between(NXU, "    visited = set()\n    frontier", "    return visited"), '''    visited = set()
    frontier = set(sources)
    while frontier:
        visited |= frontier
        frontier = {
            predecessor
            for node in frontier
            for predecessor in graph.predecessors(node)
        } - visited
''')]),
    ("sib-registry-get", [(REG, '''        v = self.mapping.get(node)
        return v.value_store if v else None
''', '''        if node not in self.mapping:
            return None
        return self.mapping[node].value_store
''')]),
    ("sib-gather-flag", [(PLN, '''                items = root.items() if root_type is dict else root
                children = [recurse(item) for item in items]
                if any(isinstance(child, Node) for child in children):
                    return self._call(stack_frame, gather_fn, *children)
            return root
''', '''                children = []
                symbolic = False
                for item in root.items() if root_type is dict else root:
                    child = recurse(item)
                    symbolic = symbolic or isinstance(child, Node)
                    children.append(child)
                if symbolic:
                    return self._call(stack_frame, gather_fn, *children)
            return root
''')]),
    ("sib-bound-locals", [(PHY, between(PHY, "    args, kwargs = get_argument_nodes(graph, call)", "def _create_bound_call_lookup"), '''    positional, named = get_argument_nodes(graph, call)
    return BoundCall(
        tuple(map(result_lookup.__getitem__, positional)),
        {name: result_lookup[node] for name, node in named.items()},
        result_lookup[call],
    )


''')]),
    ("sib-physical-early", [(PHY, '''        if type(node) is Call:
            scope = get_full_call_scope(node)
            progress_observer.increment_running(section="run", scope=scope)
            bound_call = bound_call_lookup[node]
            try:
                bound_call.value.run(node.fn, retry)
            except Exception as exception:
                # Drop internal frames
                exception.__traceback__ = exception.__traceback__.tb_next.tb_next
                progress_observer.increment_failed(
                    section="run",
                    scope=scope,
                    exception=create_chained_call_error(node, exception),
                )
                raise NodeError(node) from exception
            finally:
                bound_call.value = None
            progress_observer.increment_completed(section="run", scope=scope)
''', '''        if type(node) is not Call:
            return
        bound_call = bound_call_lookup[node]
        notification = {"section": "run", "scope": get_full_call_scope(node)}
        progress_observer.increment_running(**notification)
        try:
            bound_call.value.run(node.fn, retry)
        except Exception as exception:
            # Drop internal frames
            exception.__traceback__ = exception.__traceback__.tb_next.tb_next
            call_error = create_chained_call_error(node, exception)
            progress_observer.increment_failed(**notification, exception=call_error)
            raise NodeError(node) from exception
        else:
            bound_call.value = None
        finally:
            bound_call.value = None
        progress_observer.increment_completed(**notification)
''')]),
    ("sib-add-store-edges", [(CAC, between(CAC, "    for _, successor, dependency in out_edges:\n        plan.graph.remove_edge", "    return write_node, read_node"), '''    graph = plan.graph
    graph.remove_edges_from(out_edges)
    for _, successor, dependency in out_edges:
        if type(dependency) is Dependency:
            if write_node is not None:
                graph.add_edge(write_node, successor, dependency)
        else:
            graph.add_edge(read_node, successor, dependency)

''')]),
    ("sib-random-insert", [(SCH, '''        self.queue.append(item)
        i = random.randrange(len(self.queue))
        self.queue[i], self.queue[-1] = self.queue[-1], self.queue[i]
''', '''        queue = self.queue
        queue.append(item)
        last = len(queue) - 1
        i = random.randint(0, last)
        queue[last] = queue[i]
        queue[i] = item
''')]),
]
