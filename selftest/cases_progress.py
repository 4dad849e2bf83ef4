"""wrong or missing notifications (C15), and rewrites that keep the account exact"""
RUN = "src/uberjob/_run.py"
RP = "src/uberjob/_execution/run_physical.py"
CA = "src/uberjob/_transformations/caching.py"
CO = "src/uberjob/progress/_composite_progress_observer.py"
PI = "src/uberjob/progress/__init__.py"
GR = "src/uberjob/_graph.py"
TOTALS = "            _update_run_totals(plan, progress_observer)\n\n"
COUNT = """    scope_counts = collections.Counter(
        get_full_call_scope(node) for node in plan.graph.nodes() if type(node) is Call
    )
    for scope, count in scope_counts.items():
        progress_observer.increment_total(section="run", scope=scope, amount=count)
"""
SCOUNT = """    scope_counts = collections.Counter(
        _get_stale_scope(node, registry)
        for node in plan.graph.nodes()
        if type(node) is Call
    )
"""
SLOOP = """    for scope, count in scope_counts.items():
        progress_observer.increment_total(section="stale", scope=scope, amount=count)
"""
RRUN = '            progress_observer.increment_running(section="run", scope=scope)\n'
RDONE = '            progress_observer.increment_completed(section="run", scope=scope)\n'
RFAIL = """                progress_observer.increment_failed(
                    section="run",
                    scope=scope,
                    exception=create_chained_call_error(node, exception),
                )
"""
SRUN = '            progress_observer.increment_running(section="stale", scope=scope)\n'
SDONE = '            progress_observer.increment_completed(section="stale", scope=scope)\n'
SFAIL = """                progress_observer.increment_failed(
                    section="stale",
                    scope=scope,
                    exception=create_chained_call_error(node, exception),
                )
"""
FIN = "            finally:\n                bound_call.value = None\n"
CALLRUN = "                bound_call.value.run(node.fn, retry)\n"
TRANSF = """            if transform_physical:
                plan, redirected_output_node = transform_physical(
                    plan, redirected_output_node
                )

"""
FWD = """        for progress_observer in self._progress_observers:
            progress_observer.increment_completed(section=section, scope=scope)
"""
BUGS = [
    ("pr-no-run-totals", "C15", [(RUN, TOTALS, "")]),
    ("pr-totals-before-transform", "C15", [(RUN, TOTALS, ""), (RUN, "            if registry:\n", "            if not registry:\n                _update_run_totals(plan, progress_observer)\n            if registry:\n"), (RUN, "                    inplace=True,\n                )\n            else:", "                    inplace=True,\n                )\n                _update_run_totals(plan, progress_observer)\n            else:")]),
    ("pr-totals-on-original", "C15", [(RUN, TOTALS, ""), (RUN, "            if registry:\n", "            _update_run_totals(plan, progress_observer)\n            if registry:\n")]),
    ("pr-amount-one", "C15", [(RUN, 'increment_total(section="run", scope=scope, amount=count)', 'increment_total(section="run", scope=scope, amount=1)')]),
    ("pr-set-of-scopes", "C15", [(RUN, COUNT, '    for scope in {\n        get_full_call_scope(node) for node in plan.graph.nodes() if type(node) is Call\n    }:\n        progress_observer.increment_total(section="run", scope=scope, amount=1)\n')]),
    ("pr-scope-without-fn", "C15", [(RUN, "        get_full_call_scope(node) for node", "        node.scope for node")]),
    ("pr-wrong-section-total", "C15", [(RUN, 'section="run", scope=scope, amount', 'section="stale", scope=scope, amount')]),
    ("pr-only-inner-calls", "C15", [(RUN, "if type(node) is Call\n", "if type(node) is Call and plan.graph.out_degree(node)\n")]),
    ("pr-stale-only-registered", "C15", [(CA, SCOUNT, SCOUNT.replace("if type(node) is Call\n", "if type(node) is Call and node in registry\n"))]),
    ("pr-stale-plain-scope", "C15", [(CA, SCOUNT, SCOUNT.replace("_get_stale_scope(node, registry)", "get_full_call_scope(node)"))]),
    ("pr-stale-amount", "C15", [(CA, SLOOP, SLOOP.replace("amount=count", "amount=len(scope_counts)"))]),
    ("pr-stale-total-late", "C15", [(CA, "    _update_stale_totals(plan, registry, progress_observer)\n", ""), (CA, "    read_node_lookup = {}\n", "    _update_stale_totals(plan, registry, progress_observer)\n    read_node_lookup = {}\n")]),
    ("pr-running-in-retry", "C15", [(RP, RRUN, ""), (RP, CALLRUN, "                bound_call.value.run(_announced(node.fn, scope), retry)\n"), (RP, "    def process(node):\n", "    def _announced(fn, scope):\n        def announced(*args, **kwargs):\n            progress_observer.increment_running(section=\"run\", scope=scope)\n            return fn(*args, **kwargs)\n\n        return announced\n\n    def process(node):\n")]),
    ("pr-completed-in-finally", "C15", [(RP, FIN, FIN + "    " + RDONE), (RP, "    " + "        " + 'progress_observer.increment_completed(section="run", scope=scope)\n\n    return Prep', "\n    return Prep")]),
    ("pr-no-failed", "C15", [(RP, RFAIL, "")]),
    ("pr-no-completed-single", "C15", [(RP, RDONE, "            if plan.graph.out_degree(node):\n    " + RDONE)]),
    ("pr-completed-before", "C15", [(RP, CALLRUN, "                progress_observer.increment_completed(section=\"run\", scope=scope)\n" + CALLRUN), (RP, FIN + RDONE, FIN)]),
    ("pr-failed-for-wrong-section", "C15", [(CA, SFAIL, SFAIL.replace('section="stale"', 'section="run"'))]),
    ("pr-failed-scope", "C15", [(CA, SFAIL, SFAIL.replace("scope=scope", "scope=node.scope"))]),
    ("pr-stale-early-out", "C15", [(CA, "            scope = _get_stale_scope(node, registry)\n", "            if not plan.graph.in_degree(node) and node not in registry:\n                return\n            scope = _get_stale_scope(node, registry)\n")]),
    ("pr-stale-no-running-for-plain", "C15", [(CA, SRUN, "            if node in registry:\n    " + SRUN)]),
    ("pr-exception-only-value", "C15", [(RP, "            except Exception as exception:\n", "            except (ValueError, TypeError, ArithmeticError, LookupError, OSError, RuntimeError, AttributeError) as exception:\n")]),
    ("pr-enter-late", "C15", [(RUN, "    try:\n        with progress_observer:\n            if registry:\n                plan, redirected_output_node = plan_with_value_stores(", "    try:\n        with progress_observer if not registry else progress_observer:\n            if registry:\n                plan, redirected_output_node = plan_with_value_stores("), (RUN, "            _update_run_totals(plan, progress_observer)\n\n            if dry_run:\n                return plan, redirected_output_node\n\n            return run_physical(", "            _update_run_totals(plan, progress_observer)\n\n            if dry_run:\n                return plan, redirected_output_node\n\n        if True:\n            return run_physical(")]),
    ("pr-exit-only-success", "C15", [(RUN, "        with progress_observer:\n            if registry:", "        progress_observer.__enter__()\n        if True:\n            if registry:"), (RUN, "            return run_physical(\n", "            result = run_physical(\n"), (RUN, "    except NodeError as e:\n        raise CallError(e.node) from e.__cause__", "            progress_observer.__exit__(None, None, None)\n            return result\n    except NodeError as e:\n        raise CallError(e.node) from e.__cause__")]),
    ("pr-composite-first-only", "C15", [(CO, FWD, FWD + "            break\n")]),
    ("pr-composite-completed-missing", "C15", [(CO, FWD, "        pass\n")]),
    ("pr-composite-swapped", "C15", [(CO, "            progress_observer.increment_completed(section=section", "            progress_observer.increment_running(section=section")]),
    ("pr-composite-amount", "C15", [(CO, "section=section, scope=scope, amount=amount", "section=section, scope=scope, amount=1")]),
    ("pr-composite-lazy", "C15", [(CO, "self._progress_observers = tuple(progress_observers)", "self._progress_observers = progress_observers")]),
    ("pr-composite-enter-leak", "C15", [(CO, "        with ExitStack() as stack:\n            for progress_observer in self._progress_observers:\n                stack.enter_context(progress_observer)\n            self._stack = stack.pop_all()\n", "        self._stack = ExitStack()\n        for progress_observer in self._progress_observers:\n            self._stack.enter_context(progress_observer)\n")]),
    ("pr-composite-exit-missing", "C15", [(CO, "        self._stack.__exit__(exc_type, exc_val, exc_tb)\n", "        if exc_type is None:\n            self._stack.close()\n")]),
    ("pr-coerce-first", "C15", [(RUN, "        return composite_progress(*progress)\n", "        return composite_progress(*progress[:1])\n")]),
    ("pr-observer-twice", "C15", [(RUN, "                retry=retry,\n                scheduler=scheduler,\n                inplace=True,\n", "                retry=retry,\n                scheduler=scheduler,\n                inplace=True,\n"), (RUN, "            return run_physical(\n                plan,\n                output_node=redirected_output_node,\n                progress_observer=progress_observer,\n", "            return run_physical(\n                plan,\n                output_node=redirected_output_node,\n                progress_observer=progress.observer(),\n")]),
    ("pr-scope-changes", "C15", [(RP, RDONE, RDONE.replace("scope=scope", "scope=(*node.scope, node.fn.__name__)"))]),
]
SAME = [
    ("same-pr-direct-totals", [(RUN, COUNT, '    for node in plan.graph.nodes():\n        if type(node) is Call:\n            progress_observer.increment_total(\n                section="run", scope=get_full_call_scope(node), amount=1\n            )\n')], "C15"),
    ("same-pr-dict-totals", [(RUN, COUNT, '    scope_counts = {}\n    for node in plan.graph.nodes():\n        if type(node) is Call:\n            scope = get_full_call_scope(node)\n            scope_counts[scope] = scope_counts.get(scope, 0) + 1\n    for scope in scope_counts:\n        progress_observer.increment_total(\n            section="run", scope=scope, amount=scope_counts[scope]\n        )\n')], "C15"),
    ("same-pr-defaultdict", [(RUN, COUNT, '    scope_counts = collections.defaultdict(int)\n    for node in plan.graph.nodes():\n        if type(node) is not Call:\n            continue\n        scope_counts[get_full_call_scope(node)] += 1\n    for scope, count in scope_counts.items():\n        progress_observer.increment_total(section="run", scope=scope, amount=count)\n')], "C15"),
    ("same-pr-counter-loop", [(RUN, COUNT, '    calls = [node for node in plan.graph.nodes() if type(node) is Call]\n    scope_counts = collections.Counter(map(get_full_call_scope, calls))\n    for scope, count in scope_counts.most_common():\n        progress_observer.increment_total(section="run", scope=scope, amount=count)\n')], "C15"),
    ("same-pr-counter-update", [(RUN, COUNT, '    scope_counts = collections.Counter()\n    for node in plan.graph.nodes():\n        if type(node) is Call:\n            scope_counts[get_full_call_scope(node)] += 1\n    for scope, count in scope_counts.items():\n        progress_observer.increment_total(section="run", scope=scope, amount=count)\n')], "C15"),
    ("same-pr-flat-stale-scope", [(CA, "    scope = get_full_call_scope(call)\n    value_store = registry.get(call)\n    if value_store is None:\n        return scope\n    return (*scope, fully_qualified_name(value_store.__class__))\n", "    value_store = registry.get(call)\n    if value_store is not None:\n        store_name = fully_qualified_name(type(value_store))\n        return get_full_call_scope(call) + (store_name,)\n    return get_full_call_scope(call)\n")], "C15"),
    ("same-pr-helper", [(RP, RFAIL, "                _report_failure(progress_observer, scope, node, exception)\n"), (RP, "def prep_run_physical(", "def _report_failure(progress_observer, scope, node, exception):\n    progress_observer.increment_failed(\n        section=\"run\",\n        scope=scope,\n        exception=create_chained_call_error(node, exception),\n    )\n\n\ndef prep_run_physical(")], "C15"),
    ("same-pr-else", [(RP, FIN + RDONE, "            else:\n    " + RDONE + FIN)], "C15"),
    ("same-pr-early-return", [(RP, "        if type(node) is Call:\n            scope = get_full_call_scope(node)\n            progress_observer.increment_running(section=\"run\", scope=scope)\n            bound_call = bound_call_lookup[node]\n", "        if type(node) is Call:\n            bound_call = bound_call_lookup[node]\n            scope = get_full_call_scope(node)\n            progress_observer.increment_running(scope=scope, section=\"run\")\n")], "C15"),
    ("same-pr-exitstack", [(RUN, "        with progress_observer:\n            if registry:", "        with contextlib.ExitStack() as stack:\n            stack.enter_context(progress_observer)\n            if registry:"), (RUN, "import collections\n", "import collections\nimport contextlib\n")], "C15"),
    ("same-pr-composite-list", [(CO, "self._progress_observers = tuple(progress_observers)", "self._progress_observers = list(progress_observers)")], "C15"),
    ("same-pr-composite-helper", [(CO, FWD, '        self._forward("increment_completed", section=section, scope=scope)\n\n    def _forward(self, name, **kwargs):\n        for progress_observer in self._progress_observers:\n            getattr(progress_observer, name)(**kwargs)\n')], "C15"),
    ("same-pr-composite-enter", [(CO, "        with ExitStack() as stack:\n            for progress_observer in self._progress_observers:\n                stack.enter_context(progress_observer)\n            self._stack = stack.pop_all()\n", "        stack = ExitStack()\n        with stack:\n            for observer in self._progress_observers:\n                stack.enter_context(observer)\n            self._stack = stack.pop_all()\n")], "C15"),
    ("same-pr-coerce", [(RUN, "    if type(progress) is tuple:\n        return composite_progress(*progress)\n", "    if isinstance(progress, tuple):\n        members = list(progress)\n        return composite_progress(*members)\n")], "C15"),
    ("same-pr-totals-inline", [(RUN, TOTALS, "            scope_counts = collections.Counter(\n                get_full_call_scope(node)\n                for node in plan.graph.nodes()\n                if isinstance(node, Call)\n            )\n            for scope, count in scope_counts.items():\n                progress_observer.increment_total(\n                    section=\"run\", scope=scope, amount=count\n                )\n\n")], "C15"),
]
