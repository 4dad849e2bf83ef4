"""results kept too long (C16), and rewrites that keep the release"""
RP = "src/uberjob/_execution/run_physical.py"
RF = "src/uberjob/_execution/run_function_on_graph.py"
FIN = "            finally:\n                bound_call.value = None\n"
RUNM = "        self.result.value = retry(fn)(*args, **kwargs)\n"
BC = '    __slots__ = ("args", "kwargs", "result")\n'
CB = "    result = result_lookup[call]\n    return BoundCall(args, kwargs, result)\n"
PG = """            item = queue.get()
            try:
                if item is DONE:
                    return
                process_item(item)
"""
BL = """        node: Slot(_create_bound_call(plan.graph, node, result_lookup))
        for node in plan.graph.nodes()
        if type(node) is Call
    }
    output_slot"""
BUGS = [
    ("rel-never", "C16", [(RP, FIN, "            finally:\n                pass\n")]),
    ("rel-success-only", "C16", [(RP, FIN, "            bound_call.value = None\n")]),
    ("rel-has-successors", "C16", [(RP, FIN, "            finally:\n                if plan.graph.out_degree(node):\n                    bound_call.value = None\n")]),
    ("rel-failure-only", "C16", [(RP, FIN, ""), (RP, "                # Drop internal frames\n                exception.__traceback__ = exception.__traceback__.tb_next.tb_next\n", "                bound_call.value = None\n                # Drop internal frames\n                exception.__traceback__ = exception.__traceback__.tb_next.tb_next\n")]),
    ("rel-returns-lookup", "C16", [(RP, "    return bound_call_lookup, output_slot\n", "    return bound_call_lookup, output_slot, result_lookup\n"), (RP, "    bound_call_lookup, output_slot = _create_bound", "    bound_call_lookup, output_slot, result_lookup = _create_bound"), (RP, "            progress_observer.increment_completed(section=\"run\", scope=scope)\n", "            assert node in result_lookup\n            progress_observer.increment_completed(section=\"run\", scope=scope)\n")]),
    ("rel-boundcall-lookup", "C16", [(RP, BC, '    __slots__ = ("args", "kwargs", "result", "lookup")\n'), (RP, CB, CB.replace("    return BoundCall(args, kwargs, result)\n", "    bound_call = BoundCall(args, kwargs, result)\n    bound_call.lookup = result_lookup\n    return bound_call\n"))]),
    ("rel-shadow-list", "C16", [(RP, BL, BL.replace("    }\n    output_slot", "    }\n    bound_calls = [slot.value for slot in bound_call_lookup.values()]\n    output_slot")), (RP, "    return bound_call_lookup, output_slot\n", "    return bound_call_lookup, output_slot, bound_calls\n"), (RP, "    bound_call_lookup, output_slot = _create_bound", "    bound_call_lookup, output_slot, bound_calls = _create_bound"), (RP, "    retry = retry or identity\n", "    retry = retry or identity\n    total = len(bound_calls)\n"), (RP, "    return PrepRunPhysical(bound_call_lookup, output_slot, process, plan)\n", "    return PrepRunPhysical(bound_call_lookup, output_slot, process, plan), bound_calls\n"), (RP, "    _, output_slot, process, plan = prep_run_physical(\n", "    (_, output_slot, process, plan), bound_calls = prep_run_physical(\n")]),
    ("rel-history", "C16", [(RP, "    def process(node):\n", "    history = []\n\n    def process(node):\n"), (RP, "                bound_call.value.run(node.fn, retry)\n", "                bound_call.value.run(node.fn, retry)\n                history.append(bound_call.value)\n"), (RP, RUNM, RUNM)]),
    ("rel-last-result", "C16", [(RP, "    def process(node):\n", "    last = None\n\n    def process(node):\n        nonlocal last\n"), (RP, "                bound_call.value.run(node.fn, retry)\n", "                last = bound_call.value.run(node.fn, retry)\n"), (RP, RUNM, RUNM + "        return self.result.value\n")]),
    ("rel-worker-local", "C16", [(RP, "            progress_observer.increment_completed(section=\"run\", scope=scope)\n", "            progress_observer.increment_completed(section=\"run\", scope=scope)\n            return result\n"), (RP, "                bound_call.value.run(node.fn, retry)\n", "                result = bound_call.value.run(node.fn, retry)\n"), (RP, RUNM, RUNM + "        return self.result.value\n"), (RF, "                process_item(item)\n", "                result = process_item(item)\n"), (RF, "        try:\n            fn(node)\n", "        try:\n            result = fn(node)\n"), (RF, "                            queue.put(successor)\n\n    def stop", "                            queue.put(successor)\n            return result\n\n    def stop")]),
    ("rel-node-attr", "C16", [(RP, "                bound_call.value.run(node.fn, retry)\n", "                bound_call.value.run(node.fn, retry)\n                plan.graph.nodes[node]['result'] = bound_call.value.result.value\n")]),
    ("rel-results-dict", "C16", [(RP, "    def process(node):\n", "    results = {}\n\n    def process(node):\n"), (RP, RUNM, RUNM + "        return self.result.value\n"), (RP, "                bound_call.value.run(node.fn, retry)\n", "                results[node] = bound_call.value.run(node.fn, retry)\n")]),
    ("rel-keep-small", "C16", [(RP, FIN, "            finally:\n                if bound_call.value.args or bound_call.value.kwargs:\n                    bound_call.value = None\n")]),
    ("rel-observer-arg", "C16", [(RP, FIN, "            except BaseException:\n                raise\n            else:\n                bound_call.value = None\n")]),
    ("rel-clear-args-only", "C16", [(RP, FIN, "            finally:\n                bound_call.value.args = ()\n")]),
]
SAME = [
    ("same-rel-pop", [(RP, FIN, "            finally:\n                bound_call_lookup[node] = None\n"), (RP, "            bound_call = bound_call_lookup[node]\n", "            bound_call = bound_call_lookup[node].value\n"), (RP, "                bound_call.value.run(node.fn, retry)\n", "                bound_call.run(node.fn, retry)\n")], "C16"),
    ("same-rel-dict-pop", [(RP, "            bound_call = bound_call_lookup[node]\n", "            bound_call = bound_call_lookup.pop(node)\n"), (RP, FIN, "            finally:\n                del bound_call\n")], "C16"),
    ("same-rel-clear-method", [(RP, FIN, "            finally:\n                _clear(bound_call)\n"), (RP, "def _create_bound_call(", "def _clear(slot):\n    slot.value = None\n\n\ndef _create_bound_call(")], "C16"),
    ("same-rel-take-first", [(RP, "            bound_call = bound_call_lookup[node]\n", "            slot = bound_call_lookup[node]\n            bound_call = slot.value\n            slot.value = None\n"), (RP, "                bound_call.value.run(node.fn, retry)\n", "                bound_call.run(node.fn, retry)\n"), (RP, FIN, "            finally:\n                del bound_call\n")], "C16"),
    ("same-rel-inline-run", [(RP, "                bound_call.value.run(node.fn, retry)\n", "                call = bound_call.value\n                args = [arg.value for arg in call.args]\n                kwargs = {name: arg.value for name, arg in call.kwargs.items()}\n                call.result.value = retry(node.fn)(*args, **kwargs)\n")], "C16"),
    ("same-rel-no-namedtuple", [(RP, "    return PrepRunPhysical(bound_call_lookup, output_slot, process, plan)\n", "    prep = PrepRunPhysical(\n        bound_call_lookup=bound_call_lookup,\n        output_slot=output_slot,\n        process=process,\n        plan=plan,\n    )\n    return prep\n"), (RP, "    _, output_slot, process, plan = prep_run_physical(\n", "    prep = prep_run_physical(\n"), (RP, "        progress_observer=progress_observer,\n    )\n\n    run_function", "        progress_observer=progress_observer,\n    )\n    output_slot = prep.output_slot\n    process = prep.process\n    plan = prep.plan\n\n    run_function")], "C16"),
]
