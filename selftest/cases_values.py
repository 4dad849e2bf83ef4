"""C02: values of runs."""
P = "src/uberjob/_plan.py"
B = "src/uberjob/_builtins.py"
G = "src/uberjob/graph.py"
R = "src/uberjob/_execution/run_physical.py"
RUN = "src/uberjob/_run.py"
PR = "src/uberjob/_transformations/pruning.py"

ARGS = """    in_edges = graph.in_edges(call, keys=True)

    args = []
    keyword_arg_pairs = []
    for _, _, edge_key in in_edges:
        if type(edge_key) is PositionalArg:
            args.append(None)
        elif type(edge_key) is KeywordArg:
            keyword_arg_pairs.append(None)

    for predecessor, _, edge_key in in_edges:
        if type(edge_key) is PositionalArg:
            args[edge_key.index] = predecessor
        elif type(edge_key) is KeywordArg:
            keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor

    return args, dict(keyword_arg_pairs)
"""
RECURSE = """            root_type = type(root)
            gather_fn = GATHER_LOOKUP.get(root_type)
            if gather_fn is not None:
                items = root.items() if root_type is dict else root
                children = [recurse(item) for item in items]
                if any(isinstance(child, Node) for child in children):
                    return self._call(stack_frame, gather_fn, *children)
            return root
"""
BRUN = """        args = [arg.value for arg in self.args]
        kwargs = {name: arg.value for name, arg in self.kwargs.items()}
        self.result.value = retry(fn)(*args, **kwargs)
"""
BIND = """    args, kwargs = get_argument_nodes(graph, call)
    args = [result_lookup[predecessor] for predecessor in args]
    kwargs = {name: result_lookup[predecessor] for name, predecessor in kwargs.items()}
    result = result_lookup[call]
    return BoundCall(args, kwargs, result)
"""
UNPACK = """    t = tuple(itertools.islice(iterable, length + 1))
    if len(t) < length:
        raise ValueError(
            f"not enough values to unpack (expected {length}, got {len(t)})"
        )
    if len(t) > length:
        raise ValueError(f"too many values to unpack (expected {length})")
    return t
"""

BUGS = [
    # shapes
    ("gather-subclasses", "C02", [(P, "            root_type = type(root)\n            gather_fn = GATHER_LOOKUP.get(root_type)\n", "            root_type = next((t for t in GATHER_LOOKUP if isinstance(root, t)), type(root))\n            gather_fn = GATHER_LOOKUP.get(root_type)\n")]),
    ("gather-frozenset", "C02", [(P, "    set: _builtins.gather_set,\n", "    set: _builtins.gather_set,\n    frozenset: _builtins.gather_set,\n")]),
    ("gather-always-rebuilds", "C02", [(P, "                if any(isinstance(child, Node) for child in children):\n", "                if children:\n")]),
    ("gather-copies-node-free", "C02", [(P, "                    return self._call(stack_frame, gather_fn, *children)\n            return root\n", "                    return self._call(stack_frame, gather_fn, *children)\n                return gather_fn(*children)\n            return root\n")]),
    ("gather-one-level", "C02", [(P, "                children = [recurse(item) for item in items]\n", "                children = [recurse(item) if isinstance(item, (list, dict)) else item for item in items]\n")]),
    ("gather-dict-keys-only-values", "C02", [(P, "items = root.items() if root_type is dict else root\n                children = [recurse(item) for item in items]\n", "items = root.items() if root_type is dict else root\n                children = [(k, recurse(v)) for k, v in items] if root_type is dict else [recurse(item) for item in items]\n")]),
    ("gather-dedup-children", "C02", [(P, "children = [recurse(item) for item in items]\n", "children = list(dict.fromkeys(recurse(item) for item in items))\n")]),
    ("gather-first-child-decides", "C02", [(P, "if any(isinstance(child, Node) for child in children):", "if any(isinstance(child, Node) for child in children[:1]):")]),
    ("gather-tuple-as-list", "C02", [(B, "    return tuple(args)\n", "    return list(args)\n")]),
    ("gather-set-frozen", "C02", [(B, "    return set(args)\n", "    return frozenset(args)\n")]),
    ("gather-drops-none", "C02", [(B, "    return list(args)\n", "    return [a for a in args if a is not None]\n")]),
    ("gather-dict-sorted", "C02", [(P, "items = root.items() if root_type is dict else root", "items = sorted(root.items(), key=lambda kv: str(kv[0])) if root_type is dict else root")]),
    ("literal-none-dropped", "C02", [(P, "        for index, arg in enumerate(args):\n            self.graph.add_edge(\n", "        for index, arg in enumerate(args):\n            if arg is None:\n                continue\n            self.graph.add_edge(\n")]),
    ("kwargs-sorted", "C02", [(P, "enumerate(kwargs.items())", "enumerate(sorted(kwargs.items()))")]),
    ("literal-of-node-unwrapped", "C02", [(P, "        return value if isinstance(value, Node) else self.lit(value)\n", "        if isinstance(value, tuple) and len(value) == 1:\n            value = value[0]\n        return value if isinstance(value, Node) else self.lit(value)\n")]),
    ("literal-falsy-none", "C02", [(P, "        literal = Literal(value, scope=self._scope)\n", "        literal = Literal(value or None, scope=self._scope)\n")]),
    ("literal-list-copied", "C02", [(P, "        literal = Literal(value, scope=self._scope)\n", "        literal = Literal(list(value) if type(value) is list else value, scope=self._scope)\n")]),
    ("literals-shared-by-value", "C02", [(P, "        self._scope = ()\n", "        self._scope = ()\n        self._literals = {}\n"), (P, "        literal = Literal(value, scope=self._scope)\n        self.graph.add_node(literal)\n        return literal\n", "        try:\n            return self._literals[value]\n        except KeyError:\n            pass\n        except TypeError:\n            literal = Literal(value, scope=self._scope)\n            self.graph.add_node(literal)\n            return literal\n        literal = self._literals[value] = Literal(value, scope=self._scope)\n        self.graph.add_node(literal)\n        return literal\n")]),
    ("gather-memo-by-equality", "C02", [(P, "        def recurse(root):\n            root_type = type(root)\n", "        known = {}\n\n        def recurse(root):\n            root_type = type(root)\n            if root_type is tuple:\n                if root in known:\n                    return known[root]\n                known[root] = r = recurse2(root)\n                return r\n            return recurse2(root)\n\n        def recurse2(root):\n            root_type = type(root)\n")]),
    ("positional-eq-type", "C02", [(G, "        return type(other) is PositionalArg and self.index == other.index\n", "        return type(other) is PositionalArg\n"), (G, "        return hash(self.index)\n", "        return hash(PositionalArg)\n")]),
    ("keyword-eq-name-ignored-index", "C02", [(G, "            and self.index == other.index\n            and self.name == other.name\n", "            and len(self.name) == len(other.name)\n"), (G, "        return hash((self.name, self.index))\n", "        return hash(len(self.name))\n")]),
    ("unpack-no-upper-check", "C02", [(B, "    if len(t) > length:\n        raise ValueError(f\"too many values to unpack (expected {length})\")\n", "")]),
    ("unpack-islice-length", "C02", [(B, "itertools.islice(iterable, length + 1)", "itertools.islice(iterable, length)")]),
    ("unpack-pads", "C02", [(B, "    if len(t) < length:\n        raise ValueError(\n            f\"not enough values to unpack (expected {length}, got {len(t)})\"\n        )\n", "    if len(t) < length:\n        t = t + (None,) * (length - len(t))\n")]),
    ("unpack-reversed-index", "C02", [(P, "self._call(stack_frame, operator.getitem, t, index)", "self._call(stack_frame, operator.getitem, t, -index)")]),
    ("unpack-from-iterable", "C02", [(P, "self._call(stack_frame, operator.getitem, t, index)", "self._call(stack_frame, operator.getitem, iterable, index)")]),
    ("call-index-from-one-clash", "C02", [(P, "KeywordArg(name, index)", "KeywordArg(name, 0)")]),
    ("call-drops-last-kw", "C02", [(P, "for index, (name, arg) in enumerate(kwargs.items()):", "for index, (name, arg) in enumerate(list(kwargs.items())[:8 if len(kwargs) < 3 else 2]):")]),
    # from edges to arguments
    ("args-edge-order", "C02", [(G, ARGS, "    args = []\n    kwargs = {}\n    for predecessor, _, edge_key in graph.in_edges(call, keys=True):\n        if type(edge_key) is PositionalArg:\n            args.append(predecessor)\n        elif type(edge_key) is KeywordArg:\n            kwargs[edge_key.name] = predecessor\n    return args, kwargs\n")]),
    ("kwargs-edge-order", "C02", [(G, "            keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor\n\n    return args, dict(keyword_arg_pairs)\n", "            keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor\n\n    return args, {k.name: p for p, _, k in in_edges if type(k) is KeywordArg}\n")]),
    ("kwargs-name-order", "C02", [(G, "    return args, dict(keyword_arg_pairs)\n", "    return args, dict(sorted(keyword_arg_pairs, key=lambda x: x[0]))\n")]),
    ("args-reversed", "C02", [(R, "    args = [result_lookup[predecessor] for predecessor in args]\n", "    args = [result_lookup[predecessor] for predecessor in reversed(args)]\n")]),
    ("kwargs-reversed", "C02", [(R, "        kwargs = {name: arg.value for name, arg in self.kwargs.items()}\n", "        kwargs = {name: arg.value for name, arg in reversed(self.kwargs.items())}\n")]),
    ("args-read-at-bind", "C02", [(R, "        self.args = args\n", "        self.args = [arg.value for arg in args]\n"), (R, "        args = [arg.value for arg in self.args]\n", "        args = list(self.args)\n")]),
    ("kwargs-read-at-bind", "C02", [(R, "    return BoundCall(args, kwargs, result)\n", "    return BoundCall(args, {k: v.value for k, v in kwargs.items()}, result)\n"), (R, "        kwargs = {name: arg.value for name, arg in self.kwargs.items()}\n", "        kwargs = dict(self.kwargs)\n")]),
    ("kwargs-dropped", "C02", [(R, "        self.result.value = retry(fn)(*args, **kwargs)\n", "        self.result.value = retry(fn)(*args)\n")]),
    ("result-not-stored", "C02", [(R, "        self.result.value = retry(fn)(*args, **kwargs)\n", "        value = retry(fn)(*args, **kwargs)\n        if value:\n            self.result.value = value\n")]),
    ("result-overwritten-by-arg", "C02", [(R, "        self.result.value = retry(fn)(*args, **kwargs)\n", "        value = retry(fn)(*args, **kwargs)\n        self.result.value = args[0] if value is None and args else value\n")]),
    ("args-deepcopied", "C02", [(R, "        args = [arg.value for arg in self.args]\n", "        args = [copy.deepcopy(arg.value) for arg in self.args]\n"), (R, "from collections.abc import Callable\n", "import copy\nfrom collections.abc import Callable\n")]),
    ("args-none-filtered", "C02", [(R, "        args = [arg.value for arg in self.args]\n", "        args = [arg.value for arg in self.args if arg.value is not None]\n")]),
    ("bound-after-prune", "C02", [(R, "    bound_call_lookup, output_slot = _create_bound_call_lookup_and_output_slot(\n        plan, output_node\n    )\n    plan = prune_source_literals(plan, inplace=inplace)\n", "    plan = prune_source_literals(plan, inplace=inplace)\n    bound_call_lookup, output_slot = _create_bound_call_lookup_and_output_slot(\n        plan, output_node\n    )\n")]),
    ("output-truthy", "C02", [(RUN, "        plan._gather(get_stack_frame(), output) if output is not None else None\n", "        plan._gather(get_stack_frame(), output) if output else None\n")]),
    ("output-not-gathered-when-literal", "C02", [(R, "    output_slot = result_lookup[output_node] if output_node else None\n", "    output_slot = result_lookup[output_node] if type(output_node) is Call else None\n")]),
    ("slot-shared-by-fn", "C02", [(R, "    result_lookup = {\n        node: node if type(node) is Literal else Slot(None)\n        for node in plan.graph.nodes()\n    }\n", "    slot = Slot(None)\n    result_lookup = {\n        node: node if type(node) is Literal else slot\n        for node in plan.graph.nodes()\n    }\n")]),
]

SORTED = """    edges = [e for e in graph.in_edges(call, keys=True)]
    args = [u for u, _, k in sorted((e for e in edges if type(e[2]) is PositionalArg), key=lambda e: e[2].index)]
    kwargs = {k.name: u for u, _, k in sorted((e for e in edges if type(e[2]) is KeywordArg), key=lambda e: e[2].index)}
    return args, kwargs
"""
BYINDEX = """    positional = {}
    keyword = {}
    for predecessor, _, edge_key in graph.in_edges(call, keys=True):
        if type(edge_key) is PositionalArg:
            positional[edge_key.index] = predecessor
        elif type(edge_key) is KeywordArg:
            keyword[edge_key.index] = (edge_key.name, predecessor)
    args = [positional[i] for i in range(len(positional))]
    kwargs = {keyword[i][0]: keyword[i][1] for i in sorted(keyword)}
    return args, kwargs
"""
COUNTED = """    in_edges = graph.in_edges(call, keys=True)
    args = [None] * sum(type(k) is PositionalArg for _, _, k in in_edges)
    pairs = [None] * sum(type(k) is KeywordArg for _, _, k in in_edges)
    for u, _, k in in_edges:
        if type(k) is PositionalArg:
            args[k.index] = u
        elif type(k) is KeywordArg:
            pairs[k.index] = (k.name, u)
    return args, {name: u for name, u in pairs}
"""
SORTPAIRS = """    args = []
    pairs = []
    for u, _, k in graph.in_edges(call, keys=True):
        if type(k) is PositionalArg:
            args.append((k.index, u))
        elif type(k) is KeywordArg:
            pairs.append((k.index, k.name, u))
    args.sort(key=lambda p: p[0])
    pairs.sort(key=operator.itemgetter(0))
    return [u for _, u in args], {name: u for _, name, u in pairs}
"""

SAME = [
    ("args-sorted", [(G, ARGS, SORTED)]),
    ("args-by-index", [(G, ARGS, BYINDEX)]),
    ("args-counted", [(G, ARGS, COUNTED)]),
    ("args-sort-pairs", [(G, ARGS, SORTPAIRS), (G, "import networkx as nx\n", "import operator\n\nimport networkx as nx\n")]),
    ("bind-inline", [(R, BIND, "    arg_nodes, kwarg_nodes = get_argument_nodes(graph, call)\n    return BoundCall(\n        [result_lookup[p] for p in arg_nodes],\n        {k: result_lookup[p] for k, p in kwarg_nodes.items()},\n        result_lookup[call],\n    )\n")]),
    ("bind-tuple", [(R, "    args = [result_lookup[predecessor] for predecessor in args]\n", "    args = tuple(map(result_lookup.__getitem__, args))\n")]),
    ("run-loops", [(R, BRUN, "        args = []\n        for slot in self.args:\n            args.append(slot.value)\n        kwargs = {}\n        for name in self.kwargs:\n            kwargs[name] = self.kwargs[name].value\n        call = retry(fn)\n        self.result.value = call(*args, **kwargs)\n")]),
    ("run-genexp", [(R, BRUN, "        kwargs = {name: slot.value for name, slot in self.kwargs.items()}\n        self.result.value = retry(fn)(*(slot.value for slot in self.args), **kwargs)\n")]),
    ("recurse-loop", [(P, RECURSE, "            gather_fn = GATHER_LOOKUP.get(type(root))\n            if gather_fn is None:\n                return root\n            children = []\n            symbolic = False\n            for item in root.items() if type(root) is dict else root:\n                child = recurse(item)\n                symbolic = symbolic or isinstance(child, Node)\n                children.append(child)\n            if not symbolic:\n                return root\n            return self._call(stack_frame, gather_fn, *children)\n")]),
    ("recurse-ifs", [(P, RECURSE, "            if type(root) is dict:\n                children, fn = [recurse(i) for i in root.items()], _builtins.gather_dict\n            elif type(root) in (list, tuple, set):\n                children, fn = [recurse(i) for i in root], GATHER_LOOKUP[type(root)]\n            else:\n                return root\n            if not any(isinstance(child, Node) for child in children):\n                return root\n            return self._call(stack_frame, fn, *children)\n")]),
    ("recurse-precheck", [(P, "        def recurse(root):\n", "        def symbolic(root):\n            if isinstance(root, Node):\n                return True\n            if type(root) is dict:\n                return any(symbolic(k) or symbolic(v) for k, v in root.items())\n            if type(root) in (list, tuple, set):\n                return any(symbolic(x) for x in root)\n            return False\n\n        def recurse(root):\n            if not symbolic(root):\n                return root\n")]),
    ("gather-star", [(B, "    return list(args)\n", "    return [*args]\n"), (B, "    return tuple(args)\n", "    return args\n"), (B, "    return set(args)\n", "    return {*args}\n"), (B, "    return dict(args)\n", "    return {k: v for k, v in args}\n")]),
    ("unpack-list", [(B, UNPACK, "    items = list(itertools.islice(iter(iterable), length + 1))\n    n = len(items)\n    if n != length:\n        if n < length:\n            raise ValueError(f\"not enough values to unpack (expected {length}, got {n})\")\n        raise ValueError(f\"too many values to unpack (expected {length})\")\n    return tuple(items)\n")]),
    ("call-edges-loop", [(P, "        for index, arg in enumerate(args):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, PositionalArg(index)\n            )\n        for index, (name, arg) in enumerate(kwargs.items()):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, KeywordArg(name, index)\n            )\n", "        inputs = [(arg, PositionalArg(i)) for i, arg in enumerate(args)]\n        i = 0\n        for name in kwargs:\n            inputs.append((kwargs[name], KeywordArg(name, i)))\n            i += 1\n        for value, key in inputs:\n            node = self._gather(stack_frame, value)\n            self.graph.add_edge(node, call, key)\n")]),
    ("call-add-edges-from", [(P, "        for index, arg in enumerate(args):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, PositionalArg(index)\n            )\n", "        self.graph.add_edges_from(\n            [(self._gather(stack_frame, arg), call, PositionalArg(index)) for index, arg in enumerate(args)]\n        )\n")]),
    ("slots-loop", [(R, "    result_lookup = {\n        node: node if type(node) is Literal else Slot(None)\n        for node in plan.graph.nodes()\n    }\n", "    result_lookup = {}\n    for node in plan.graph.nodes():\n        if type(node) is Literal:\n            result_lookup[node] = node\n        else:\n            result_lookup[node] = Slot(None)\n")]),
    ("process-local", [(R, "                bound_call.value.run(node.fn, retry)\n", "                bound = bound_call.value\n                bound.run(node.fn, retry)\n")]),
    ("output-if", [(RUN, "    output_node = (\n        plan._gather(get_stack_frame(), output) if output is not None else None\n    )\n", "    if output is None:\n        output_node = None\n    else:\n        output_node = plan._gather(get_stack_frame(), output)\n")]),
    ("eq-tuple", [(G, "        return (\n            type(other) is KeywordArg\n            and self.index == other.index\n            and self.name == other.name\n        )\n", "        if type(other) is not KeywordArg:\n            return False\n        return (self.index, self.name) == (other.index, other.name)\n")]),
]
