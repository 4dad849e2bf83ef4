"""planted modifications of the caller's plan or registry (C13) and rewrites that keep it"""
RUN = "src/uberjob/_run.py"
PLAN = "src/uberjob/_plan.py"
REG = "src/uberjob/_registry.py"
CA = "src/uberjob/_transformations/caching.py"
PR = "src/uberjob/_transformations/pruning.py"
TR = "src/uberjob/_transformations/__init__.py"
RE = "src/uberjob/_rendering.py"
RP = "src/uberjob/_execution/run_physical.py"
GM = "    plan = get_mutable_plan(plan, inplace=False)\n"
GA = """    output_node = (
        plan._gather(get_stack_frame(), output) if output is not None else None
    )
"""
RC = "    graph = (plan.graph if isinstance(plan, Plan) else plan).copy()\n"
PC = "        new_plan.graph = self.graph.copy()\n"
RG = """        new_registry.mapping = {
            node: copy.copy(registry_value)
            for node, registry_value in self.mapping.items()
        }
"""
BUGS = [
    ("own-inplace", "C13", [(RUN, GM, GM.replace("False", "True"))]),
    ("own-inplace-noout", "C13", [(RUN, GM, GM.replace("False", "output is None"))]),
    ("own-inplace-dry", "C13", [(RUN, GM, GM.replace("False", "dry_run"))]),
    ("own-inplace-noreg", "C13", [(RUN, GM, GM.replace("False", "registry is None"))]),
    ("own-gather-first", "C13", [(RUN, GM, ""), (RUN, GA, GA + GM)]),
    ("own-copy-shares-graph", "C13", [(PLAN, PC, "        new_plan.graph = self.graph\n")]),
    ("own-copy-shallow-graph", "C13", [(PLAN, PC, "        import copy\n        new_plan.graph = copy.copy(self.graph)\n")]),
    ("own-copy-lock", "C13", [(PLAN, PC, PC + "        new_plan._scope_lock = self._scope_lock\n")]),
    ("own-render-nocopy", "C13", [(RE, RC, RC.replace(".copy()", ""))]),
    ("own-render-copy-predicate", "C13", [(RE, RC, RC.replace(".copy()", "") + "    if predicate:\n        graph = graph.copy()\n")]),
    ("own-render-copy-level", "C13", [(RE, RC, RC.replace(".copy()", "") + "    if level is not None:\n        graph = graph.copy()\n")]),
    ("own-render-graph", "C13", [(RE, RC, "    graph = plan.graph.copy() if isinstance(plan, Plan) else plan\n")]),
    ("own-registry-shares", "C13", [(REG, RG, "        new_registry.mapping = self.mapping\n")]),
    ("own-registry-return-self", "C13", [(REG, RG, ""), (REG, "        new_registry = Registry()\n", ""), (REG, "        return new_registry\n", "        return self\n")]),
    ("own-registry-empty-shared", "C13", [(REG, RG, RG.replace("= {", "= self.mapping if not self.mapping else {"))]),
    ("own-scope-all", "C13", [(CA, "        if type(node) is Call:\n            call.scope = get_full_call_scope(node)\n", "        if type(node) is Call:\n            node.scope = get_full_call_scope(node)\n            call.scope = node.scope\n")]),
    ("own-totals-scope", "C13", [(CA, "        _get_stale_scope(node, registry)\n        for node in plan.graph.nodes()\n        if type(node) is Call\n    )\n", "        _get_stale_scope(node, registry)\n        for node in plan.graph.nodes()\n        if type(node) is Call\n    )\n    for node in plan.graph.nodes():\n        node.scope = tuple(node.scope)\n")]),
    ("own-registry-readnode", "C13", [(CA, "        read_node_lookup[node] = read_node\n", "        read_node_lookup[node] = read_node\n        registry.mapping[read_node] = registry_value\n"), (CA, "in registry.mapping.items():\n        is_stale", "in list(registry.mapping.items()):\n        is_stale")]),
    ("own-registry-pop", "C13", [(CA, "        read_node_lookup[node] = read_node\n", "        read_node_lookup[node] = read_node\n        if not is_stale:\n            registry.mapping.pop(node)\n"), (CA, "in registry.mapping.items():\n        is_stale", "in list(registry.mapping.items()):\n        is_stale")]),
    ("own-registry-frame", "C13", [(CA, "    value_store = registry_value.value_store\n\n    with", "    value_store = registry_value.value_store\n    registry_value.stack_frame = getattr(node, 'stack_frame', None)\n\n    with")]),
    ("own-registry-source-flag", "C13", [(CA, "    value_store = registry_value.value_store\n\n    with", "    value_store = registry_value.value_store\n    registry_value.is_source = registry_value.is_source or not is_stale\n\n    with")]),
    ("own-run-scope", "C13", [(RUN, GM, "    with plan.scope('run'):\n        plan = get_mutable_plan(plan, inplace=False)\n")]),
    ("own-returns-original", "C13", [(RUN, GM, "    original = plan\n" + GM), (RUN, "                return plan, redirected_output_node\n", "                return original, redirected_output_node\n")]),
    ("own-transform-original", "C13", [(RUN, GM, "    original = plan\n" + GM), (RUN, "                plan, redirected_output_node = transform_physical(\n                    plan,", "                plan, redirected_output_node = transform_physical(\n                    original,")]),
    ("own-plan-cached-graph", "C13", [(PLAN, PC, "        if self.graph.number_of_nodes():\n            new_plan.graph = self.graph.copy()\n        else:\n            new_plan.graph = self.graph\n")]),
    ("own-remember-output", "C13", [(RUN, GM, "    caller_plan = plan\n" + GM), (RUN, "    redirected_output_node = output_node\n", "    redirected_output_node = output_node\n    caller_plan.last_output = output_node\n")]),
    ("own-strip-frames", "C13", [(RP, "def prep_run_physical(", "def _strip(plan):\n    for node in plan.graph.nodes():\n        if type(node) is Call:\n            node.stack_frame = None\n\n\ndef prep_run_physical("), (RP, "    _, output_slot, process, plan = prep", "    _strip(plan)\n    _, output_slot, process, plan = prep")]),
    ("own-registry-clear-frames", "C13", [(CA, "    read_node_lookup = {}\n", "    read_node_lookup = {}\n    for value in registry.mapping.values():\n        value.is_source = False\n")]),
]
SAME = [
    ("same-own-nx-ctor", [(PLAN, PC, "        new_plan.graph = Graph(self.graph)\n")], "C13"),
    ("same-own-type-ctor", [(PLAN, PC, "        new_plan.graph = type(self.graph)(self.graph)\n")], "C13"),
    ("same-own-copy-in-run", [(RUN, GM, "    plan = plan.copy()\n")], "C13"),
    ("same-own-copy-name", [(RUN, GM, "    working = get_mutable_plan(plan, inplace=False)\n    plan = working\n")], "C13"),
    ("same-own-registry-loop", [(REG, RG, "        for node, registry_value in self.mapping.items():\n            new_registry.mapping[node] = copy.copy(registry_value)\n")], "C13"),
    ("same-own-registry-dictcopy", [(REG, RG, "        new_registry.mapping = dict(self.mapping)\n")], "C13"),
    ("same-own-registry-update", [(REG, RG, "        new_registry.mapping.update(self.mapping)\n")], "C13"),
    ("same-own-registry-fresh-values", [(REG, RG, RG.replace("copy.copy(registry_value)", "RegistryValue(\n                registry_value.value_store,\n                is_source=registry_value.is_source,\n                stack_frame=registry_value.stack_frame,\n            )"))], "C13"),
    ("same-own-render-helper", [(RE, RC, "    graph = _graph_of(plan)\n"), (RE, "def render(", "def _graph_of(plan):\n    if isinstance(plan, Plan):\n        plan = plan.graph\n    return plan.copy()\n\n\ndef render(")], "C13"),
    ("same-own-render-lazy", [(RE, RC, RC.replace(".copy()", "") + "    if predicate or level is not None:\n        graph = graph.copy()\n")], "C13"),
    ("same-own-copy-new", [(PLAN, "        new_plan = Plan()\n" + PC, "        new_plan = type(self)()\n" + PC)], "C13"),
    ("same-own-cache-registry-items", [(CA, "    for node, registry_value in registry.mapping.items():\n        is_stale", "    entries = list(registry.mapping.items())\n    for node, registry_value in entries:\n        is_stale")], "C13"),
]
