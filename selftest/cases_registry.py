CA = "src/uberjob/_transformations/caching.py"
PR = "src/uberjob/_transformations/pruning.py"
RUN = "src/uberjob/_run.py"
ANY = '''        has_stale_ancestor = any(
            stale_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
        )
        if has_stale_ancestor:
            stale_lookup[node].value = True
        else:
            process_no_stale_ancestor(node)
'''
MAXA = '''        max_ancestor_modified_time = safe_max(
            modified_time_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
        )
'''
CMP = '''        if (
            max_ancestor_modified_time or not registry.mapping[node].is_source
        ) and safe_max(
            modified_time, max_ancestor_modified_time, fresh_time
        ) > modified_time:
            stale_lookup[node].value = True
            return
        modified_time_lookup[node].value = modified_time
'''
NOSTORE = '''        if value_store is None:
            modified_time_lookup[node].value = max_ancestor_modified_time
            return
'''
MISSING = '''        if modified_time is None:
            stale_lookup[node].value = True
            return
'''
LOOP = '''    for _, successor, dependency in out_edges:
        plan.graph.remove_edge(node, successor, dependency)
        dependency_type = type(dependency)
        if dependency_type in (PositionalArg, KeywordArg):
            plan.graph.add_edge(read_node, successor, dependency)
        elif is_stale:
            assert dependency_type is Dependency
            plan.graph.add_edge(write_node, successor, dependency)
'''
STALE = '''        if is_stale:
            if registry_value.is_source:
                write_node = plan.lit(Barrier)
                for predecessor in plan.graph.predecessors(node):
                    plan.graph.add_edge(predecessor, write_node, Dependency())
            else:
                write_node = nested_call(
                    value_store.__class__.write, value_store_lit, node
                )
            plan.graph.add_edge(write_node, read_node, Dependency())
'''
REG = '''    for node, registry_value in registry.mapping.items():
        is_stale = node in stale_nodes
        write_node, read_node = _add_value_store(
            plan, node, registry_value, is_stale=is_stale
        )
        if write_node:
            required_nodes.add(write_node)
        read_node_lookup[node] = read_node
'''
RED = '''    if output_node:
        output_node = read_node_lookup.get(output_node, output_node)
'''
RET = "    return {k for k, v in stale_lookup.items() if v.value}\n"
ALL = "C03,C05,C08,C09"
BUGS = [
    ("no-ancestor-stale", "C03,C05,C08", [(CA, ANY, "        process_no_stale_ancestor(node)\n")]),
    ("all-instead-of-any", "C03,C05,C08", [(CA, "has_stale_ancestor = any(", "has_stale_ancestor = all(")]),
    ("nostore-drops-time", "C03,C05,C08", [(CA, NOSTORE, "        if value_store is None:\n            return\n")]),
    ("ge-compare", "C05", [(CA, ") > modified_time:", ") >= modified_time:")]),
    ("source-ignored", "C03,C05", [(CA, '''        if (
            max_ancestor_modified_time or not registry.mapping[node].is_source
        ) and safe_max(''', "        if not registry.mapping[node].is_source and safe_max(")]),
    ("source-fresh-time", "C05", [(CA, '''        if (
            max_ancestor_modified_time or not registry.mapping[node].is_source
        ) and safe_max(''', "        if safe_max(")]),
    ("fresh-dropped", "C03,C05", [(CA, "max_ancestor_modified_time, fresh_time\n", "max_ancestor_modified_time\n")]),
    ("missing-fresh", "C03,C05,C08", [(CA, MISSING, "        if modified_time is None:\n            return\n")]),
    ("time-is-max", "C05", [(CA, "        modified_time_lookup[node].value = modified_time\n", "        modified_time_lookup[node].value = safe_max(modified_time, max_ancestor_modified_time, fresh_time)\n")]),
    ("time-not-set", "C03,C05,C08", [(CA, "        modified_time_lookup[node].value = modified_time\n", "")]),
    ("time-ancestor-only-unstored-missing", "C03,C05", [(CA, "            for predecessor in plan.graph.predecessors(node)\n        )\n        value_store", "            for predecessor in plan.graph.predecessors(node)\n            if predecessor not in registry\n        )\n        value_store")]),
    ("stale-args-only", "C03,C05", [(CA, '''            stale_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
        )''', '''            stale_lookup[predecessor].value
            for predecessor, _, d in plan.graph.in_edges(node, keys=True)
            if type(d) is not Dependency
        )''')]),
    ("stale-registered-only", "C03,C05", [(CA, RET, "    return {k for k, v in stale_lookup.items() if v.value and type(k) is Call}\n")]),
    ("prune-registered-literals", "C03,C05", [(CA, "plan, inplace=False, predicate=lambda node: node not in registry", "plan, inplace=False")]),
    ("write-unordered", "C08,C09,C03", [(CA, "            plan.graph.add_edge(write_node, read_node, Dependency())\n", "")]),
    ("write-old-order-literal", "C09,C03", [(CA, "            plan.graph.add_edge(write_node, read_node, Dependency())\n", "            plan.graph.add_edge(node, read_node, Dependency())\n")]),
    ("dep-from-node", "C09,C08,C03", [(CA, "            plan.graph.add_edge(write_node, successor, dependency)", "            plan.graph.add_edge(node, successor, dependency)")]),
    ("dep-dropped", "C09,C08,C03", [(CA, '''        elif is_stale:
            assert dependency_type is Dependency
            plan.graph.add_edge(write_node, successor, dependency)
''', "")]),
    ("dep-fresh-kept", "C05", [(CA, '''        elif is_stale:
            assert dependency_type is Dependency
            plan.graph.add_edge(write_node, successor, dependency)
''', '''        else:
            plan.graph.add_edge(write_node or node, successor, dependency)
''')]),
    ("kwargs-not-redirected", "C09,C03,C05", [(CA, "        if dependency_type in (PositionalArg, KeywordArg):", "        if dependency_type is PositionalArg:")]),
    ("no-barrier-preds", "C09,C08,C03", [(CA, '''                for predecessor in plan.graph.predecessors(node):
                    plan.graph.add_edge(predecessor, write_node, Dependency())
''', "")]),
    ("output-not-redirected", "C09,C05", [(CA, RED, "")]),
    ("write-not-required", "C03,C05", [(CA, "            required_nodes.add(write_node)\n", "            pass\n")]),
    ("read-required", "C05", [(CA, "            required_nodes.add(write_node)\n", "            required_nodes.add(write_node)\n        required_nodes.add(read_node)\n")]),
    ("write-always", "C05", [(CA, "        is_stale = node in stale_nodes\n", "        is_stale = True\n")]),
    ("write-only-consumed", "C03,C05", [(CA, "        is_stale = node in stale_nodes\n", "        is_stale = node in stale_nodes and (plan.graph.out_degree(node) > 0 or node is output_node)\n")]),
    ("source-called", "C09,C05,C03", [(CA, "            if registry_value.is_source:\n", "            if registry_value.is_source and type(node) is Literal:\n"), (CA, "from uberjob.graph import Call,", "from uberjob.graph import Literal, Call,")]),
    ("removed-edges-not", "C05,C09", [(CA, "        plan.graph.remove_edge(node, successor, dependency)\n", "")]),
    ("write-gets-read", "C09,C03,C08", [(CA, "value_store.__class__.write, value_store_lit, node", "value_store.__class__.write, value_store_lit, read_node")]),
    ("trivial-literal-drops-edges", "C03,C08,C09", [(PR, '''    for predecessor, successor in itertools.product(predecessors, successors):
        plan.graph.add_edge(predecessor, successor, Dependency())
''', "")]),
    ("trivial-literal-zip", "C03,C08,C09", [(PR, "itertools.product(predecessors, successors)", "zip(predecessors, successors)")]),
    ("out-edges-after", "C09", [(CA, "    out_edges = list(plan.graph.out_edges(node, keys=True))\n    value_store =", "    value_store ="), (CA, "    for _, successor, dependency in out_edges:", "    out_edges = list(plan.graph.out_edges(node, keys=True))\n    for _, successor, dependency in out_edges:")]),
]
SAME = [
    ("any-as-loop", [(CA, ANY, '''        for predecessor in plan.graph.predecessors(node):
            if stale_lookup[predecessor].value:
                stale_lookup[node].value = True
                return
        process_no_stale_ancestor(node)
''')], ALL),
    ("any-as-loop-flag", [(CA, ANY, '''        has_stale_ancestor = False
        for predecessor in plan.graph.predecessors(node):
            if stale_lookup[predecessor].value:
                has_stale_ancestor = True
                break
        if not has_stale_ancestor:
            process_no_stale_ancestor(node)
            return
        stale_lookup[node].value = True
''')], ALL),
    ("any-list", [(CA, ANY, '''        predecessors = list(plan.graph.predecessors(node))
        flags = [stale_lookup[p].value for p in predecessors]
        if any(flags):
            stale_lookup[node].value = True
            return
        return process_no_stale_ancestor(node)
''')], ALL),
    ("max-as-loop", [(CA, MAXA, '''        max_ancestor_modified_time = None
        for predecessor in plan.graph.predecessors(node):
            t = modified_time_lookup[predecessor].value
            if t is None:
                continue
            if max_ancestor_modified_time is None or t > max_ancestor_modified_time:
                max_ancestor_modified_time = t
''')], ALL),
    ("max-default", [(CA, MAXA, '''        times = [
            modified_time_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
            if modified_time_lookup[predecessor].value is not None
        ]
        max_ancestor_modified_time = max(times, default=None)
''')], ALL),
    ("cmp-split", [(CA, CMP, '''        is_source = registry.mapping[node].is_source
        if is_source and not max_ancestor_modified_time:
            modified_time_lookup[node].value = modified_time
            return
        newest = safe_max(modified_time, max_ancestor_modified_time, fresh_time)
        if newest > modified_time:
            stale_lookup[node].value = True
        else:
            modified_time_lookup[node].value = modified_time
''')], ALL),
    ("cmp-no-max", [(CA, CMP, '''        has_upstream = max_ancestor_modified_time is not None
        out_of_date = False
        if has_upstream and modified_time < max_ancestor_modified_time:
            out_of_date = True
        if has_upstream or not registry.mapping[node].is_source:
            if fresh_time is not None and fresh_time > modified_time:
                out_of_date = True
        if out_of_date:
            stale_lookup[node].value = True
            return
        modified_time_lookup[node].value = modified_time
''')], ALL),
    ("dicts", [(CA, "    stale_lookup = {node: Slot(False) for node in plan.graph.nodes()}\n    modified_time_lookup = {node: Slot() for node in plan.graph.nodes()}\n", "    stale_lookup = {node: False for node in plan.graph.nodes()}\n    modified_time_lookup = {node: None for node in plan.graph.nodes()}\n"),
        (CA, ANY, ANY.replace("].value", "]")), (CA, MAXA, MAXA.replace("].value", "]")), (CA, CMP, CMP.replace("].value", "]").replace("is_source.value", "is_source")), (CA, NOSTORE, NOSTORE.replace("].value", "]")), (CA, MISSING, MISSING.replace("].value", "]")), (CA, RET, "    return {k for k, v in stale_lookup.items() if v}\n")], ALL),
    ("stale-set", [(CA, "    stale_lookup = {node: Slot(False) for node in plan.graph.nodes()}\n", "    stale = set()\n"),
        (CA, ANY, '''        if any(predecessor in stale for predecessor in plan.graph.predecessors(node)):
            stale.add(node)
        else:
            process_no_stale_ancestor(node)
'''), (CA, CMP, CMP.replace("stale_lookup[node].value = True", "stale.add(node)")), (CA, MISSING, MISSING.replace("stale_lookup[node].value = True", "stale.add(node)")), (CA, RET, "    return stale\n")], ALL),
    ("ret-loop", [(CA, RET, '''    result = set()
    for node, slot in stale_lookup.items():
        if slot.value:
            result.add(node)
    return result
''')], ALL),
    ("is-stale-helper", [(CA, CMP, '''        if _is_out_of_date(modified_time, max_ancestor_modified_time, fresh_time, registry.mapping[node].is_source):
            stale_lookup[node].value = True
        else:
            modified_time_lookup[node].value = modified_time
'''), (CA, "def _get_stale_nodes(", '''def _is_out_of_date(modified_time, upstream, fresh_time, is_source):
    if is_source and upstream is None:
        return False
    return safe_max(modified_time, upstream, fresh_time) > modified_time


def _get_stale_nodes(''')], ALL),
    ("process-inline", [(CA, ANY, ANY.replace("            process_no_stale_ancestor(node)", '''            upstream = safe_max(
                modified_time_lookup[predecessor].value
                for predecessor in plan.graph.predecessors(node)
            )
            _check_store(node, upstream)''')), (CA, "    def process_no_stale_ancestor(node):\n" + MAXA, "    def _check_store(node, max_ancestor_modified_time):\n")], ALL),
    ("predecessors-helper", [(CA, "    fresh_time = _to_naive_utc_time(fresh_time)\n", "    fresh_time = _to_naive_utc_time(fresh_time)\n    predecessors = plan.graph.predecessors\n"), (CA, ANY, ANY.replace("plan.graph.predecessors", "predecessors")), (CA, MAXA, MAXA.replace("plan.graph.predecessors", "predecessors"))], ALL),
    ("mapping-get", [(CA, "        value_store = registry.get(node)\n" + NOSTORE, '''        registry_value = registry.mapping.get(node)
        if registry_value is None:
            modified_time_lookup[node].value = max_ancestor_modified_time
            return
        value_store = registry_value.value_store
'''), (CA, "not registry.mapping[node].is_source", "not registry_value.is_source")], ALL),
    ("node-in-registry", [(CA, "        value_store = registry.get(node)\n" + NOSTORE, '''        if node not in registry:
            modified_time_lookup[node].value = max_ancestor_modified_time
            return
        value_store = registry[node]
''')], ALL),
    ("out-edges-comprehension", [(CA, "    out_edges = list(plan.graph.out_edges(node, keys=True))\n", "    out_edges = [(u, v, key) for u, v, key in plan.graph.out_edges(node, keys=True)]\n")], ALL),
    ("two-loops", [(CA, LOOP, '''    plan.graph.remove_edges_from(out_edges)
    for _, successor, dependency in out_edges:
        if type(dependency) is Dependency:
            if is_stale:
                plan.graph.add_edge(write_node, successor, dependency)
        else:
            plan.graph.add_edge(read_node, successor, dependency)
''')], ALL),
    ("loop-continue", [(CA, LOOP, '''    for _, successor, dependency in out_edges:
        plan.graph.remove_edge(node, successor, dependency)
        if type(dependency) is PositionalArg or type(dependency) is KeywordArg:
            new_source = read_node
        elif is_stale:
            new_source = write_node
        else:
            continue
        plan.graph.add_edge(new_source, successor, dependency)
''')], ALL),
    ("split-stale-helper", [(CA, STALE, '''        if is_stale:
            write_node = _add_write(plan, node, registry_value, value_store_lit, nested_call)
            plan.graph.add_edge(write_node, read_node, Dependency())
'''), (CA, "def _add_value_store(", '''def _add_write(plan, node, registry_value, value_store_lit, nested_call):
    if not registry_value.is_source:
        write = type(registry_value.value_store).write
        return nested_call(write, value_store_lit, node)
    barrier = plan.lit(Barrier)
    plan.graph.add_edges_from(
        [(predecessor, barrier, Dependency()) for predecessor in plan.graph.predecessors(node)]
    )
    return barrier


def _add_value_store(''')], ALL),
    ("read-after-write-order", [(CA, "        write_node = None\n        read_node = nested_call(value_store.__class__.read, value_store_lit)\n" + STALE, "        write_node = None\n" + STALE.replace("            plan.graph.add_edge(write_node, read_node, Dependency())\n", "") + '''        read_node = nested_call(value_store.__class__.read, value_store_lit)
        if write_node is not None:
            plan.graph.add_edge(write_node, read_node, Dependency())
''')], ALL),
    ("add-dependency", [(CA, "            plan.graph.add_edge(write_node, read_node, Dependency())\n", "            plan.add_dependency(write_node, read_node)\n")], ALL),
    ("reg-two-loops", [(CA, REG, '''    for node in registry.mapping:
        write_node, read_node = _add_value_store(
            plan, node, registry.mapping[node], is_stale=node in stale_nodes
        )
        read_node_lookup[node] = read_node
        if write_node is not None:
            required_nodes.add(write_node)
''')], ALL),
    ("reg-pairs", [(CA, REG, '''    pairs = {
        node: _add_value_store(plan, node, registry_value, is_stale=node in stale_nodes)
        for node, registry_value in registry.mapping.items()
    }
    required_nodes = {write for write, _ in pairs.values() if write}
    read_node_lookup = {node: read for node, (_, read) in pairs.items()}
''')], ALL),
    ("red-if-in", [(CA, RED, '''    if output_node is not None and output_node in read_node_lookup:
        output_node = read_node_lookup[output_node]
''')], ALL),
    ("noop-statements", [(CA, REG, REG.replace("        is_stale =", "        _ = None\n        is_stale =")), (CA, LOOP, "    _ = len(out_edges)\n" + LOOP), (CA, ANY, "        _ = 0\n" + ANY)], ALL),
    ("prune-filter-comp", [(PR, "    if predicate:\n        source_literals = [node for node in source_literals if predicate(node)]\n    for node in source_literals:\n        graph.remove_node(node)\n", "    graph.remove_nodes_from(\n        [node for node in source_literals if predicate is None or predicate(node)]\n    )\n")], ALL),
    ("product-nested", [(PR, '''    for predecessor, successor in itertools.product(predecessors, successors):
        plan.graph.add_edge(predecessor, successor, Dependency())
''', '''    for predecessor in predecessors:
        for successor in successors:
            plan.graph.add_edge(predecessor, successor, Dependency())
''')], ALL),
    ("safe-max-rewrite", [("src/uberjob/_util/__init__.py", "    iterable = args[0] if len(args) == 1 else args\n    return max((value for value in iterable if value is not None), default=None)\n", "    if len(args) == 1:\n        (args,) = args\n    values = [value for value in args if value is not None]\n    return max(values) if values else None\n")], ALL),
    ("process-callbacks-helper", [(CA, '''            progress_observer.increment_running(section="stale", scope=scope)
            try:
                process(node)
''', '''            progress_observer.increment_running(scope=scope, section="stale")
            try:
                process(node)
                _ = None
''')], ALL),
]
