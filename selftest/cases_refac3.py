"""More refactorings of single functions that keep the behaviour."""
from cases_refac import between, SCH, MNT, PSO, FST

S = "src/uberjob/stores/"
P = "src/uberjob/progress/"
TOU, JSO, CON, COM = S + "_touch_file_store.py", S + "_json_file_store.py", P + "_console_progress_observer.py", P + "_composite_progress_observer.py"
GRA, BUI, GRE, ERR = "src/uberjob/graph.py", "src/uberjob/_builtins.py", "src/uberjob/_execution/greedy.py", "src/uberjob/_errors.py"
TRB = "src/uberjob/_util/traceback.py"
SPO = P + "_simple_progress_observer.py"

BUGS = []
SAME = [
    ("kin-json-dumps", [(JSO, '''            json.dump(value, outputfile, indent=4)
''', '''            text = json.dumps(value, indent=4)
            outputfile.write(text)
''')]),
    ("kin-json-read", [(JSO, '''            return json.load(inputfile)
''', '''            text = inputfile.read()
        return json.loads(text)
''')]),
    ("kin-touch-read", [(TOU, '''        with open(self.path, "rb") as inputfile:
            if inputfile.read(1):
                raise OSError(f"The path {self.path!r} exists but is not empty.")
        return None
''', '''        with open(self.path, "rb") as inputfile:
            is_empty = not inputfile.read(1)
        if not is_empty:
            raise OSError(f"The path {self.path!r} exists but is not empty.")
''')]),
    ("kin-path-time", [(PSO, '''        modified_time = get_modified_time(self.path)
        if modified_time is None and required:
            raise OSError(
                f"Failed to get modified time of required source path {self.path!r}."
            )
        return modified_time
''', '''        modified_time = get_modified_time(self.path)
        if modified_time is not None or not required:
            return modified_time
        raise OSError(
            f"Failed to get modified time of required source path {self.path!r}."
        )
''')]),
    ("kin-mtime-else", [(FST, '''    try:
        t = os.path.getmtime(path)
    except OSError:
        return None
    return dt.datetime.fromtimestamp(t)
''', '''    try:
        status = os.stat(path)
    except OSError:
        return None
    else:
        return dt.datetime.fromtimestamp(status.st_mtime)
''')]),
    ("kin-suppress-remove", [(FST, '''    try:
        os.remove(path)
    except OSError:
        pass
''', '''    with suppress(OSError):
        os.remove(path)
'''), (FST, "from contextlib import contextmanager\n", "from contextlib import contextmanager, suppress\n")]),
    ("kin-tempdir", [(MNT, '''    with tempfile.TemporaryDirectory() as tempdir:
        yield os.path.join(tempdir, "temp")
''', '''    tempdir = tempfile.TemporaryDirectory()
    try:
        yield os.path.join(tempdir.name, "temp")
    finally:
        tempdir.cleanup()
''')]),
    ("kin-composite-each", [(COM, between(COM, "    def increment_total(self", "    def increment_failed"), '''    def _notify(self, method_name, **kwargs):
        for progress_observer in self._progress_observers:
            getattr(progress_observer, method_name)(**kwargs)

    def increment_total(self, *, section: str, scope: tuple, amount: int):
        self._notify("increment_total", section=section, scope=scope, amount=amount)

    def increment_running(self, *, section: str, scope: tuple):
        self._notify("increment_running", section=section, scope=scope)

    def increment_completed(self, *, section: str, scope: tuple):
        self._notify("increment_completed", section=section, scope=scope)

''')]),
    ("kin-console-ralign", [(CON, between(CON, "    strings = list(strings)", "def _print_section"), '''    strings = tuple(strings)
    width = max(map(len, strings), default=0)
    return [f"{s:>{width}}" for s in strings]


''')]),
    ("kin-console-section", [(CON, between(CON, "                if scope_mapping:\n", "            _print_new_exceptions(print_, new_ex"), '''                if not scope_mapping:
                    continue
                is_done = all(
                    s.total == s.completed + s.failed for s in scope_mapping.values()
                )
                if not (is_done and section in self._skipped_sections):
                    _print_section(print_, section, scope_mapping)
                (
                    self._skipped_sections.add
                    if is_done
                    else self._skipped_sections.discard
                )(section)
''')]),
    ("kin-console-exceptions", [(CON, between(CON, "    if new_exception_index < len(exception_tuples):", "class Console"), '''    new_exceptions = exception_tuples[new_exception_index:]
    if not new_exceptions:
        return
    print_("new exceptions:")
    for number, (scope, exception_tuple) in enumerate(
        new_exceptions, start=new_exception_index + 1
    ):
        print_(f"  exception {number}; {get_scope_string(scope)}")
        text = "".join(traceback.format_exception(*exception_tuple))
        print_(textwrap.indent(text, prefix=" " * 4))


''')]),
    ("kin-argument-nodes", [(GRA, between(GRA, "    in_edges = graph.in_edges(call, keys=True)", "def get_scope"), '''    positional = {}
    keyword = {}
    for predecessor, _, edge_key in graph.in_edges(call, keys=True):
        if type(edge_key) is PositionalArg:
            positional[edge_key.index] = predecessor
        elif type(edge_key) is KeywordArg:
            keyword[edge_key.index] = edge_key.name, predecessor

    args = [positional[index] for index in range(len(positional))]
    kwargs = dict(keyword[index] for index in range(len(keyword)))
    return args, kwargs


''')]),
    ("kin-unpack-compare", [(BUI, between(BUI, "    if len(t) < length:", None), '''    actual = len(t)
    if actual == length:
        return t
    if actual > length:
        raise ValueError(f"too many values to unpack (expected {length})")
    raise ValueError(
        f"not enough values to unpack (expected {length}, got {actual})"
    )
''')]),
    ("kin-queue-table", [(SCH, between(SCH, '    scheduler = scheduler or "default"', "__all__"), '''    def create_default_queue(items):
        priority_mapping = greedy.get_priority_mapping(graph)
        # The priority mapping has priorities [0, n).
        # Setting the default priority to -1 gives the DONE sentinel highest priority.
        return PriorityQueue(items, lambda node: priority_mapping.get(node, -1))

    factories = {
        "cheap": create_simple_queue,
        "random": RandomQueue,
        "default": create_default_queue,
    }
    try:
        factory = factories[scheduler or "default"]
    except KeyError:
        raise ValueError(f"Invalid scheduler {scheduler!r}") from None
    return factory(initial_items)


''')]),
    ("kin-pred-search", [(GRE, between(GRE, "    visited = set()\n    nodes.reverse()", "def get_components_graph"), '''    visited = set()
    stack = nodes[::-1]
    while stack:
        node = stack.pop()
        if node not in visited:
            visited.add(node)
            yield node
            stack.extend(graph.pred[node])


''')]),
    ("kin-frames-loop", [(TRB, between(TRB, "def get_stack_frame(initial_depth=2):", "def render_symbolic"), '''def _capture(frame, remaining):
    if frame is None:
        return None
    if remaining == 0:
        return TruncatedStackFrame
    code = frame.f_code
    return StackFrame(
        name=code.co_name,
        path=code.co_filename,
        line=frame.f_lineno,
        outer=_capture(frame.f_back, remaining - 1),
    )


def get_stack_frame(initial_depth=2):
    frame = inspect.currentframe()
    while initial_depth:
        frame = frame.f_back
        initial_depth -= 1
    return _capture(frame, MAX_TRACEBACK_DEPTH + 1)


''')]),
    ("kin-render-frames", [(TRB, between(TRB, "    stack_frames = []\n    while stack_frame:", None), '''    lines = []
    while stack_frame:
        if stack_frame is TruncatedStackFrame:
            lines.append("  ... truncated")
            break
        if "/IPython/core/" in stack_frame.path:
            break
        lines.append(
            f'  File "{stack_frame.path}", line {stack_frame.line}, in {stack_frame.name}'
        )
        stack_frame = stack_frame.outer
    lines.append("Symbolic traceback (most recent call last):")
    lines.reverse()
    return "\\n".join(lines)
''')]),
    ("kin-scope-items", [(SPO, between(SPO, "    try:\n        return sorted(", "def get_scope_string"), '''    items = list(scope_dict.items())
    try:
        items.sort(key=lambda pair: _universal_sort_key(*pair[0]))
    except Exception:
        # Scope values are not required to be orderable.
        items.sort(key=lambda pair: [(str(type(x)), str(x)) for x in pair[0]])
    return items


''')]),
    ("kin-failed-append", [(SPO, '''            if len(self._exception_tuples) < self._max_exception_count:
                self._exception_tuples.append(
                    (scope, (type(exception), exception, exception.__traceback__))
                )
''', '''            if len(self._exception_tuples) >= self._max_exception_count:
                return
            exc_info = type(exception), exception, exception.__traceback__
            self._exception_tuples.append((scope, exc_info))
''')]),
]
