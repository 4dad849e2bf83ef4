"""C19: attribution of failures."""
P = "src/uberjob/_plan.py"
T = "src/uberjob/_util/traceback.py"
G = "src/uberjob/graph.py"
RG = "src/uberjob/_registry.py"
C = "src/uberjob/_transformations/caching.py"
E = "src/uberjob/_errors.py"
RUN = "src/uberjob/_run.py"

RECURSE = """    def recurse(frame, depth):
        if not frame:
            return None
        if depth < 0:
            return TruncatedStackFrame
        return StackFrame(
            name=frame.f_code.co_name,
            path=frame.f_code.co_filename,
            line=frame.f_lineno,
            outer=recurse(frame.f_back, depth - 1),
        )

    initial_frame = inspect.currentframe()
    for _ in range(initial_depth):
        initial_frame = initial_frame.f_back
    return recurse(initial_frame, MAX_TRACEBACK_DEPTH)
"""
CHECKS = """        if not frame:
            return None
        if depth < 0:
            return TruncatedStackFrame
"""
NEST = """    def nested_call(*args):
        call = plan._call(registry_value.stack_frame, *args)
"""
RENDER = """    return "\\n".join(
        [
            "Symbolic traceback (most recent call last):",
            *(
                format_stack_frame(stack_frame)
                for stack_frame in reversed(stack_frames)
            ),
        ]
    )
"""
SRC = """        stack_frame = get_stack_frame()
        node = plan._call(stack_frame, source)
        self.mapping[node] = RegistryValue(
            value_store, is_source=True, stack_frame=stack_frame
        )
"""
MTC = """        registry_value.value_store.__class__.get_modified_time,
        scope=node.scope,
        stack_frame=registry_value.stack_frame,
"""
FRAME = """        return StackFrame(
            name=frame.f_code.co_name,
            path=frame.f_code.co_filename,
            line=frame.f_lineno,
            outer=recurse(frame.f_back, depth - 1),
        )
"""

BUGS = [
    ("depth-default-1", "C19", [(T, "initial_depth=2", "initial_depth=1")]),
    ("depth-default-3", "C19", [(T, "initial_depth=2", "initial_depth=3")]),
    ("limit-2", "C19", [(T, "MAX_TRACEBACK_DEPTH = 3", "MAX_TRACEBACK_DEPTH = 2")]),
    ("limit-off-by-one", "C19", [(T, "        if depth < 0:", "        if depth <= 0:")]),
    ("marker-at-exact-limit", "C19", [(T, CHECKS, "        if depth < 0:\n            return TruncatedStackFrame\n        if not frame:\n            return None\n")]),
    ("no-marker", "C19", [(T, "            return TruncatedStackFrame\n        return StackFrame(", "            return None\n        return StackFrame(")]),
    ("first-lineno", "C19", [(T, "line=frame.f_lineno", "line=frame.f_code.co_firstlineno")]),
    ("outer-skips", "C19", [(T, "recurse(frame.f_back, depth - 1)", "recurse(frame.f_back.f_back if frame.f_back else None, depth - 1)")]),
    ("same-file-collapsed", "C19", [(T, FRAME, "        back = frame.f_back\n        while back is not None and back.f_code is frame.f_code:\n            back = back.f_back\n        return StackFrame(\n            name=frame.f_code.co_name,\n            path=frame.f_code.co_filename,\n            line=frame.f_lineno,\n            outer=recurse(back, depth - 1),\n        )\n")]),
    ("memo-by-line", "C19", [(T, RECURSE, RECURSE.replace("        return StackFrame(", "        key = frame.f_code.co_filename, frame.f_lineno, depth\n        if key in _known:\n            return _known[key]\n        r = _known[key] = StackFrame(").replace("            outer=recurse(frame.f_back, depth - 1),\n        )\n", "            outer=recurse(frame.f_back, depth - 1),\n        )\n        return r\n")), (T, "MAX_TRACEBACK_DEPTH = 3\n", "MAX_TRACEBACK_DEPTH = 3\n_known = {}\n")]),
    ("gather-own-frame", "C19", [(P, "return self._call(stack_frame, gather_fn, *children)", "return self._call(get_stack_frame(), gather_fn, *children)")]),
    ("gather-no-frame", "C19", [(P, "return self._call(stack_frame, gather_fn, *children)", "return self._call(None, gather_fn, *children)")]),
    ("unpack-through-call", "C19", [(P, "        t = self._call(stack_frame, _builtins.unpack, iterable, length)\n", "        t = self.call(_builtins.unpack, iterable, length)\n")]),
    ("unpack-items-lazy-frame", "C19", [(P, "            self._call(stack_frame, operator.getitem, t, index)\n", "            self._call(get_stack_frame(), operator.getitem, t, index)\n")]),
    ("unpack-gathers-first", "C19", [(P, "        t = self._call(stack_frame, _builtins.unpack, iterable, length)\n", "        t = self._call(stack_frame, _builtins.unpack, self.gather(iterable), length)\n")]),
    ("call-through-helper", "C19", [(P, "        return self._call(get_stack_frame(), fn, *args, **kwargs)\n", "        return self._checked_call(fn, *args, **kwargs)\n\n    def _checked_call(self, fn, /, *args, **kwargs):\n        return self._call(get_stack_frame(), fn, *args, **kwargs)\n")]),
    ("kwargs-gather-frame", "C19", [(P, "                self._gather(stack_frame, arg), call, KeywordArg(name, index)\n", "                self.gather(arg), call, KeywordArg(name, index)\n")]),
    ("source-through-call", "C19", [(RG, "        node = plan._call(stack_frame, source)\n", "        node = plan.call(source)\n")]),
    ("source-entry-no-frame", "C19", [(RG, "            value_store, is_source=True, stack_frame=stack_frame\n", "            value_store, is_source=True, stack_frame=None\n")]),
    ("source-entry-other-depth", "C19", [(RG, "        stack_frame = get_stack_frame()\n", "        stack_frame = get_stack_frame(1)\n")]),
    ("source-calls-add", "C19", [(RG, SRC, "        stack_frame = get_stack_frame()\n        node = plan._call(stack_frame, source)\n        self.add(node, value_store)\n        self.mapping[node].is_source = True\n")]),
    ("add-frame-of-node", "C19", [(RG, "            value_store, is_source=False, stack_frame=get_stack_frame()\n", "            value_store, is_source=False, stack_frame=getattr(node, 'stack_frame', None) or get_stack_frame()\n")]),
    ("store-frame-of-node", "C19", [(C, NEST, "    def nested_call(*args):\n        stack_frame = node.stack_frame if type(node) is Call else registry_value.stack_frame\n        call = plan._call(stack_frame, *args)\n")]),
    ("write-frame-of-node", "C19", [(C, NEST, "    def nested_call(fn, *args):\n        stack_frame = registry_value.stack_frame\n        if len(args) == 2 and type(node) is Call:\n            stack_frame = node.stack_frame\n        call = plan._call(stack_frame, fn, *args)\n")]),
    ("store-call-public", "C19", [(C, "        call = plan._call(registry_value.stack_frame, *args)\n", "        call = plan.call(*args)\n")]),
    ("store-frame-last-entry", "C19", [(C, "        call = plan._call(registry_value.stack_frame, *args)\n", "        call = plan._call(_frames.setdefault(plan, registry_value.stack_frame), *args)\n"), (C, "Barrier = BarrierType()\n", "Barrier = BarrierType()\n_frames = {}\n")]),
    ("query-no-frame", "C19", [(C, MTC, MTC.replace("stack_frame=registry_value.stack_frame", "stack_frame=None"))]),
    ("query-names-literal", "C19", [(C, "                raise NodeError(\n                    _create_modified_time_call(node, registry)\n                ) from exception\n", "                raise NodeError(node) from exception\n")]),
    ("query-wraps-call", "C19", [(C, "                raise NodeError(node) from exception\n            progress_observer.increment_completed(section=\"stale\", scope=scope)\n", "                raise NodeError(\n                    _create_modified_time_call(node, registry) if node in registry else node\n                ) from exception\n            progress_observer.increment_completed(section=\"stale\", scope=scope)\n")]),
    ("output-no-frame", "C19", [(RUN, "        plan._gather(get_stack_frame(), output) if output is not None else None\n", "        plan._gather(None, output) if output is not None else None\n")]),
    ("output-own-frame", "C19", [(RUN, "        plan._gather(get_stack_frame(), output) if output is not None else None\n", "        plan.gather(output) if output is not None else None\n")]),
    ("render-not-reversed", "C19", [(T, "for stack_frame in reversed(stack_frames)", "for stack_frame in stack_frames")]),
    ("render-marker-last", "C19", [(T, RENDER, RENDER.replace("reversed(stack_frames)", "sorted(reversed(stack_frames), key=lambda s: s is TruncatedStackFrame)"))]),
    ("render-drops-marker", "C19", [(T, "            stack_frames.append(stack_frame)\n            break\n", "            break\n")]),
    ("render-no-module", "C19", [(T, "        if \"/IPython/core/\" in stack_frame.path:\n            break\n", "        if \"/IPython/core/\" in stack_frame.path or stack_frame.outer is None and stack_frames:\n            break\n")]),
    ("render-outer-line", "C19", [(T, "line {s.line}, in {s.name}'", "line {s.outer.line if s.outer is not None and s.outer is not TruncatedStackFrame else s.line}, in {s.name}'")]),
    ("error-of-first-argument", "C19", [(E, "        self.call = call\n", "        self.call = call.fn\n")]),
    ("call-keeps-inner", "C19", [(G, "        self.stack_frame = stack_frame\n", "        self.stack_frame = stack_frame.outer if stack_frame is not None and stack_frame.outer else stack_frame\n")]),
]

ITER = """    frame = inspect.currentframe()
    for _ in range(initial_depth):
        frame = frame.f_back
    frames = []
    while frame and len(frames) <= MAX_TRACEBACK_DEPTH:
        frames.append((frame.f_code.co_name, frame.f_code.co_filename, frame.f_lineno))
        frame = frame.f_back
    outer = TruncatedStackFrame if frame else None
    for name, path, line in reversed(frames):
        outer = StackFrame(name=name, path=path, line=line, outer=outer)
    return outer
"""
GETFRAME = RECURSE.replace("""    initial_frame = inspect.currentframe()
    for _ in range(initial_depth):
        initial_frame = initial_frame.f_back
    return recurse(initial_frame, MAX_TRACEBACK_DEPTH)
""", "    return recurse(sys._getframe(initial_depth), MAX_TRACEBACK_DEPTH)\n")
COUNTUP = """    def build(frame, count):
        if frame is None:
            return None
        if count > MAX_TRACEBACK_DEPTH:
            return TruncatedStackFrame
        code = frame.f_code
        outer = build(frame.f_back, count + 1)
        return StackFrame(name=code.co_name, path=code.co_filename, line=frame.f_lineno, outer=outer)

    frame = inspect.currentframe()
    while initial_depth > 0:
        frame = frame.f_back
        initial_depth -= 1
    return build(frame, 0)
"""
SAME = [
    ("frames-iterative", [(T, RECURSE, ITER)]),
    ("frames-getframe", [(T, RECURSE, GETFRAME), (T, "import inspect\n", "import sys\n")]),
    ("frames-countup", [(T, RECURSE, COUNTUP)]),
    ("frames-walk-stack", [(T, RECURSE, "    frames = list(traceback.walk_stack(inspect.currentframe()))[initial_depth:]\n    outer = TruncatedStackFrame if len(frames) > MAX_TRACEBACK_DEPTH + 1 else None\n    for frame, line in reversed(frames[: MAX_TRACEBACK_DEPTH + 1]):\n        outer = StackFrame(name=frame.f_code.co_name, path=frame.f_code.co_filename, line=line, outer=outer)\n    return outer\n"), (T, "import inspect\n", "import inspect\nimport traceback\n")]),
    ("frames-helper-depth", [(P, "        return self._call(get_stack_frame(), fn, *args, **kwargs)\n", "        return self._checked_call(fn, *args, **kwargs)\n\n    def _checked_call(self, fn, /, *args, **kwargs):\n        return self._call(get_stack_frame(3), fn, *args, **kwargs)\n")]),
    ("frames-here", [(P, "        return self._gather(get_stack_frame(), value)\n", "        stack_frame = get_stack_frame(initial_depth=2)\n        return self._gather(stack_frame, value)\n")]),
    ("unpack-list", [(P, "        return tuple(\n            self._call(stack_frame, operator.getitem, t, index)\n            for index in range(length)\n        )\n", "        items = []\n        for index in range(length):\n            items.append(self._call(stack_frame, operator.getitem, t, index))\n        return tuple(items)\n")]),
    ("add-local", [(RG, "        self.mapping[node] = RegistryValue(\n            value_store, is_source=False, stack_frame=get_stack_frame()\n        )\n", "        entry = RegistryValue(\n            value_store, stack_frame=get_stack_frame(), is_source=False\n        )\n        self.mapping[node] = entry\n")]),
    ("entry-helper", [(RG, "        self.mapping[node] = RegistryValue(\n            value_store, is_source=False, stack_frame=get_stack_frame()\n        )\n", "        self._set(node, value_store, False)\n\n    def _set(self, node, value_store, is_source):\n        self.mapping[node] = RegistryValue(\n            value_store, is_source=is_source, stack_frame=get_stack_frame(3)\n        )\n")]),
    ("nested-frame-local", [(C, NEST, "    stack_frame = registry_value.stack_frame\n\n    def nested_call(fn, *args):\n        call = plan._call(stack_frame, fn, *args)\n")]),
    ("query-positional", [(C, MTC, "        type(registry_value.value_store).get_modified_time,\n        stack_frame=registry_value.stack_frame,\n        scope=node.scope,\n")]),
    ("render-loop", [(T, RENDER, "    lines = [\"Symbolic traceback (most recent call last):\"]\n    for stack_frame in stack_frames[::-1]:\n        lines.append(format_stack_frame(stack_frame))\n    return \"\\n\".join(lines)\n")]),
    ("render-insert", [(T, RENDER, "    lines = []\n    for stack_frame in stack_frames:\n        lines.insert(0, format_stack_frame(stack_frame))\n    return \"\\n\".join([\"Symbolic traceback (most recent call last):\"] + lines)\n")]),
    ("error-text", [(E, "        super().__init__(\n            \"\\n\".join(\n                [\n                    f\"An exception was raised in a symbolic call to {fully_qualified_name(call.fn)}.\",\n                    render_symbolic_traceback(call.stack_frame),\n                ]\n            )\n        )\n        self.call = call\n", "        name = fully_qualified_name(call.fn)\n        text = render_symbolic_traceback(call.stack_frame)\n        super().__init__(f\"An exception was raised in a symbolic call to {name}.\\n{text}\")\n        self.call = call\n")]),
    ("output-gather-local", [(RUN, "        plan._gather(get_stack_frame(), output) if output is not None else None\n", "        None if output is None else plan._gather(get_stack_frame(), output)\n")]),
    ("marker-else", [(T, CHECKS + FRAME, "        if frame:\n            if depth >= 0:\n                outer = recurse(frame.f_back, depth - 1)\n                return StackFrame(\n                    name=frame.f_code.co_name,\n                    path=frame.f_code.co_filename,\n                    line=frame.f_lineno,\n                    outer=outer,\n                )\n            return TruncatedStackFrame\n        return None\n")]),
]
