"""planted breaks of the Ctrl-C protocol (C17) and rewrites that keep it"""
RF = "src/uberjob/_execution/run_function_on_graph.py"
RUN = "src/uberjob/_run.py"
CA = "src/uberjob/_transformations/caching.py"
SI = "src/uberjob/progress/_simple_progress_observer.py"
CO = "src/uberjob/progress/_composite_progress_observer.py"
ST = "        stop = True\n        for _ in range(worker_count):\n            queue.put(DONE)\n"
PO = """    workers = []
    try:
        for _ in range(worker_count):
            worker = worker_thread(queue, process_item)
            workers.append(worker)
            worker.start()
        yield
    finally:
        # This must also happen when starting the workers was interrupted.
        stop_workers()
        for worker in workers:
            if worker.ident is not None:
                worker.join()
"""
WI = "    with worker_pool(queue, process_node, worker_count, stop_workers):\n        queue.join()\n"
CH = "        if stop:\n            return\n        try:\n            fn(node)\n"
EX = "                if max_errors is not None and error_count > max_errors:\n                    stop = True\n"
PG = """            item = queue.get()
            try:
                if item is DONE:
                    return
                process_item(item)
"""
NE = "    except NodeError as e:\n        raise CallError(e.node) from e.__cause__\n"
BUGS = [
    ("ki-no-flag", "C17", [(RF, ST, ST.replace("        stop = True\n", ""))]),
    ("ki-flag-after-join", "C17", [(RF, ST, ST.replace("        stop = True\n", "")), (RF, WI, WI + "    stop = True\n")]),
    ("ki-swallow", "C17", [(RF, "        queue.join()\n\n    if first", "        try:\n            queue.join()\n        except KeyboardInterrupt:\n            pass\n\n    if first")]),
    ("ki-wait-again", "C17", [(RF, "        queue.join()\n\n    if first", "        try:\n            queue.join()\n        except KeyboardInterrupt:\n            queue.join()\n            raise\n\n    if first")]),
    ("ki-start-outside", "C17", [(RF, PO, """    workers = []
    for _ in range(worker_count):
        worker = worker_thread(queue, process_item)
        workers.append(worker)
        worker.start()
    try:
        yield
    finally:
        stop_workers()
        for worker in workers:
            worker.join()
""")]),
    ("ki-no-finally", "C17", [(RF, PO, PO.replace("    try:\n", "    if True:\n").replace("    finally:\n", "    if True:\n"))]),
    ("ki-join-on-exception-only", "C17", [(RF, PO, PO.replace("        yield\n    finally:\n", "        yield\n    except Exception:\n        stop_workers()\n        raise\n    else:\n"))]),
    ("ki-daemon-nojoin", "C17", [(RF, PO, PO.replace("        for worker in workers:\n            if worker.ident is not None:\n                worker.join()\n", "")), (RF, "threading.Thread(target=process_items)", "threading.Thread(target=process_items, daemon=True)")]),
    ("ki-join-timeout", "C17", [(RF, "                worker.join()\n", "                worker.join(60)\n")]),
    ("ki-no-sentinels", "C17", [(RF, ST, "        stop = True\n        if queue.unfinished_tasks == 0:\n            for _ in range(worker_count):\n                queue.put(DONE)\n")]),
    ("ki-check-needs-error", "C17", [(RF, "        if stop:\n            return\n", "        if stop and first_node_error:\n            return\n")]),
    ("ki-check-before-get", "C17", [(RF, "        if stop:\n            return\n        try:\n            fn", "        try:\n            fn"), (RF, "    with worker_pool(queue, process_node,", "    def guarded(node):\n        process_node(node)\n\n    with worker_pool(queue, guarded,")]),
    ("ki-check-single-parent", "C17", [(RF, "        if stop:\n            return\n", "        if stop and node not in single_parent_nodes:\n            return\n")]),
    ("ki-flag-cleared", "C17", [(RF, EX, "                stop = max_errors is not None and error_count > max_errors\n")]),
    ("ki-error-wins", "C17", [(RF, WI + "\n    if first_node_error:\n        raise first_node_error\n", "    try:\n        with worker_pool(queue, process_node, worker_count, stop_workers):\n            queue.join()\n    finally:\n        if first_node_error:\n            raise first_node_error\n")]),
    ("ki-run-returns", "C17", [(RUN, NE, NE + "    except KeyboardInterrupt:\n        return None\n")]),
    ("ki-run-wraps", "C17", [(RUN, NE, NE + "    except BaseException as e:\n        raise RuntimeError('the run was cut short') from e\n")]),
    ("ki-stale-swallow", "C17", [(CA, "    run_function_on_graph(\n        plan.graph, process_with_callbacks, worker_count=max_workers, scheduler=\"cheap\"\n    )\n", "    try:\n        run_function_on_graph(\n            plan.graph, process_with_callbacks, worker_count=max_workers, scheduler=\"cheap\"\n        )\n    except KeyboardInterrupt:\n        return set(registry)\n")]),
    ("ki-observer-true", "C17", [(SI, "        self._thread.join()\n", "        self._thread.join()\n        return True\n")]),
    ("ki-composite-true", "C17", [(CO, "        self._stack.__exit__(exc_type, exc_val, exc_tb)\n", "        self._stack.__exit__(exc_type, exc_val, exc_tb)\n        return exc_type is not None\n")]),
    ("ki-observer-nojoin", "C17", [(SI, "        self._thread.join()\n", "        if exc_type is None:\n            self._thread.join()\n")]),
    ("ki-observer-not-exited", "C17", [(RUN, "        with progress_observer:\n            if registry:", "        with _observing(progress_observer):\n            if registry:"), (RUN, "def run(\n", "@contextmanager\ndef _observing(observer):\n    observer.__enter__()\n    try:\n        yield\n    except Exception as e:\n        observer.__exit__(type(e), e, e.__traceback__)\n        raise\n    observer.__exit__(None, None, None)\n\n\ndef run(\n"), (RUN, "import datetime as dt\n", "import datetime as dt\nfrom contextlib import contextmanager\n")]),
]
SAME = [
    ("same-ki-inline-pool", [(RF, WI, """    workers = []
    try:
        for _ in range(worker_count):
            worker = worker_thread(queue, process_node)
            workers.append(worker)
            worker.start()
        queue.join()
    finally:
        stop_workers()
        for worker in workers:
            if worker.ident is not None:
                worker.join()
""")], "C17,C07"),
    ("same-ki-event", [(RF, "    stop = False\n", "    stop = threading.Event()\n"), (RF, "        if stop:\n            return\n", "        if stop.is_set():\n            return\n"), (RF, EX, EX.replace("stop = True", "stop.set()")), (RF, ST, ST.replace("stop = True", "stop.set()")), (RF, "        nonlocal stop\n        stop.set()", "        stop.set()"), (RF, "        nonlocal stop\n        nonlocal first", "        nonlocal first")], "C17,C07,C10"),
    ("same-ki-box", [(RF, "    stop = False\n", "    stop = [False]\n"), (RF, "        if stop:\n            return\n", "        if stop[0]:\n            return\n"), (RF, EX, EX.replace("stop = True", "stop[0] = True")), (RF, ST, ST.replace("stop = True", "stop[0] = True"))], "C17,C07,C10"),
    ("same-ki-helper-join", [(RF, "        for worker in workers:\n            if worker.ident is not None:\n                worker.join()\n", "        join_all(workers)\n"), (RF, "@contextmanager\ndef worker_pool", "def join_all(threads):\n    for thread in threads:\n        if thread.ident is None:\n            continue\n        thread.join()\n\n\n@contextmanager\ndef worker_pool")], "C17,C07"),
    ("same-ki-stop-in-except", [(RF, "        queue.join()\n\n    if first", "        try:\n            queue.join()\n        except BaseException:\n            stop = True\n            raise\n\n    if first")], "C17,C07"),
    ("same-ki-worker-loop", [(RF, PG, """            item = queue.get()
            try:
                if item is not DONE:
                    process_item(item)
                else:
                    break
""")], "C17,C07"),
    ("same-ki-class-pool", [(RF, "@contextmanager\ndef worker_pool(queue, process_item, worker_count, stop_workers):\n" + PO, """class worker_pool:
    def __init__(self, queue, process_item, worker_count, stop_workers):
        self.queue = queue
        self.process_item = process_item
        self.worker_count = worker_count
        self.stop_workers = stop_workers
        self.workers = []

    def __enter__(self):
        try:
            for _ in range(self.worker_count):
                worker = worker_thread(self.queue, self.process_item)
                self.workers.append(worker)
                worker.start()
        except BaseException:
            self.__exit__(None, None, None)
            raise
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.stop_workers()
        for worker in self.workers:
            if worker.ident is not None:
                worker.join()
""")], "C17,C07"),
    ("same-ki-observer-finally", [(SI, "        self._thread.join()\n", "        self._thread.join()\n        return None\n")], "C17"),
]
