"""Changes to the progress displays: BUGS break C20, SAME do not."""
S = "src/uberjob/progress/_simple_progress_observer.py"
CO = "src/uberjob/progress/_console_progress_observer.py"
H = "src/uberjob/progress/_html_progress_observer.py"
IP = "src/uberjob/progress/_ipython_progress_observer.py"

SORT_FALLBACK = '''    try:
        return sorted(
            scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0])
        )
    except Exception:
        # Scope values are not required to be orderable.
        return sorted(
            scope_dict.items(),
            key=lambda pair: [(str(type(x)), str(x)) for x in pair[0]],
        )
'''
LOOP = '''        done = False
        first = True
        while not done:
            done = self._done_event.wait(
                self._initial_update_delay if first else self._min_update_interval
            )
            first = False
            with self._lock:
                output_value = self._do_render()
            if output_value is not None:
                self._output(output_value)
'''
RENDER = '''        if (
            self._stale
            or self._last_render_time is None
            or t - self._last_render_time >= self._max_update_interval
        ):
            self._stale = False
            self._last_render_time = t
'''
RUNNING = '''    def increment_running(self, *, section: str, scope: tuple):
        with self._lock:
            self._stale = True
            self._state.increment_running(section, scope)
'''
COMPLETED = '''    def increment_completed(self, *, section: str, scope: tuple):
        with self._lock:
            self._stale = True
            self._state.increment_completed(section, scope)
'''
ST_COMPLETED = '''        self.update_weighted_elapsed()
        scope_state = self.section_scope_mapping[section][scope]
        scope_state.running -= 1
        self.running_count -= 1
        if not scope_state.running:
            self._running_scope_states.remove(scope_state)
        scope_state.completed += 1
'''
ST_RUNNING = '''        self.update_weighted_elapsed()
        scope_state = self.section_scope_mapping[section][scope]
        self._running_scope_states.add(scope_state)
        scope_state.running += 1
        self.running_count += 1
'''
UPDATE = '''        t = time.time()
        if self.running_count:
            elapsed = t - self._prev_time
            multiplier = elapsed / self.running_count
            for scope_state in self._running_scope_states:
                scope_state.weighted_elapsed += scope_state.running * multiplier
        self._prev_time = t
'''
SKIP = '''                    if not is_done or section not in self._skipped_sections:
                        _print_section(print_, section, scope_mapping)
                    if is_done:
                        self._skipped_sections.add(section)
                    else:
                        self._skipped_sections.discard(section)
'''
BUGS = [
    ("c20-sort-no-fallback", "C20", [(S, SORT_FALLBACK, "    return sorted(\n        scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0])\n    )\n")]),
    ("c20-sort-plain", "C20", [(S, SORT_FALLBACK, "    return sorted(scope_dict.items(), key=lambda pair: pair[0])\n")]),
    ("c20-fallback-raw", "C20", [(S, "(str(type(x)), str(x))", "(str(type(x)), x)")]),
    ("c20-fallback-valueerror", "C20", [(S, "    except Exception:\n        # Scope", "    except ValueError:\n        # Scope")]),
    ("c20-scope-join-raw", "C20", [(S, '", ".join(str(value) for value in scope)', '", ".join(scope)')]),
    ("c20-scope-name-attr", "C20", [(S, '", ".join(str(value) for value in scope)', '", ".join(getattr(value, "__name__", None) or value.name if not isinstance(value, str) else value for value in scope)')]),
    ("c20-scope-format-spec", "C20", [(S, '", ".join(str(value) for value in scope)', '", ".join(f"{value:s}" for value in scope)')]),
    ("c20-no-final-render", "C20", [(S, LOOP, LOOP.replace("            first = False\n", "            first = False\n            if done:\n                break\n"))]),
    ("c20-while-not-set", "C20", [(S, LOOP, '''        first = True
        while not self._done_event.is_set():
            self._done_event.wait(
                self._initial_update_delay if first else self._min_update_interval
            )
            first = False
            with self._lock:
                output_value = self._do_render()
            if output_value is not None:
                self._output(output_value)
''')]),
    ("c20-stale-never-set-completed", "C20", [(S, COMPLETED, COMPLETED.replace("            self._stale = True\n", ""))]),
    ("c20-stale-cleared-after-output", "C20", [(S, "            self._stale = False\n", ""), (S, "                self._output(output_value)\n", "                self._output(output_value)\n                self._stale = False\n")]),
    ("c20-stale-before-lock", "C20", [(S, COMPLETED, '''    def increment_completed(self, *, section: str, scope: tuple):
        self._stale = True
        with self._lock:
            self._state.increment_completed(section, scope)
''')]),
    ("c20-render-only-interval", "C20", [(S, "            self._stale\n            or self._last_render_time is None\n            or t", "            self._last_render_time is None\n            or t")]),
    ("c20-unlocked-completed", "C20", [(S, COMPLETED, '''    def increment_completed(self, *, section: str, scope: tuple):
        self._state.increment_completed(section, scope)
        with self._lock:
            self._stale = True
''')]),
    ("c20-render-unlocked", "C20", [(S, '''            with self._lock:
                output_value = self._do_render()
''', '''            output_value = self._do_render()
''')]),
    ("c20-prev-time-only-running", "C20", [(S, UPDATE, UPDATE.replace("        self._prev_time = t\n", "            self._prev_time = t\n"))]),
    ("c20-no-split", "C20", [(S, "            multiplier = elapsed / self.running_count\n", "            multiplier = elapsed\n")]),
    ("c20-split-by-scopes", "C20", [(S, "            multiplier = elapsed / self.running_count\n", "            multiplier = elapsed / len(self._running_scope_states)\n")]),
    ("c20-no-running-weight", "C20", [(S, "scope_state.weighted_elapsed += scope_state.running * multiplier", "scope_state.weighted_elapsed += multiplier")]),
    ("c20-update-after-count", "C20", [(S, ST_RUNNING, ST_RUNNING.replace("        self.update_weighted_elapsed()\n", "") + "        self.update_weighted_elapsed()\n")]),
    ("c20-no-update-on-start", "C20", [(S, ST_RUNNING, ST_RUNNING.replace("        self.update_weighted_elapsed()\n", ""))]),
    ("c20-no-update-on-completed", "C20", [(S, ST_COMPLETED, ST_COMPLETED.replace("        self.update_weighted_elapsed()\n", ""))]),
    ("c20-removed-while-running", "C20", [(S, ST_COMPLETED, ST_COMPLETED.replace("        if not scope_state.running:\n            self._running_scope_states.remove(scope_state)\n", "        self._running_scope_states.discard(scope_state)\n"))]),
    ("c20-remove-raises", "C20", [(S, ST_COMPLETED, ST_COMPLETED.replace("        if not scope_state.running:\n            self._running_scope_states.remove(scope_state)\n", "        self._running_scope_states.remove(scope_state)\n"))]),
    ("c20-failed-keeps-running", "C20", [(S, "            self._running_scope_states.remove(scope_state)\n        scope_state.failed += 1\n", "            self._running_scope_states.remove(scope_state)\n        scope_state.failed += 1\n        scope_state.running += 1\n")]),
    ("c20-render-no-update", "C20", [(S, "            self._state.update_weighted_elapsed()\n            output_value", "            output_value")]),
    ("c20-running-count-failed", "C20", [(S, '''        scope_state.running -= 1
        self.running_count -= 1
        if not scope_state.running:
            self._running_scope_states.remove(scope_state)
        scope_state.failed += 1
''', '''        scope_state.running -= 1
        if not scope_state.running:
            self._running_scope_states.remove(scope_state)
        scope_state.failed += 1
''')]),
    ("c20-failed-counts-completed", "C20", [(S, "        scope_state.failed += 1\n", "        scope_state.completed += 1\n")]),
    ("c20-div-by-done", "C20", [(H, "    completed_percentage = 100 * scope_state.completed / scope_state.total\n", "    done = scope_state.completed + scope_state.failed\n    completed_percentage = 100 * scope_state.completed / done\n")]),
    ("c20-html-state-key", "C20", [(H, "if (scope_mapping := state.get(section))", "if (scope_mapping := state[section])")]),
    ("c20-html-encode-strict", "C20", [(H, '''.encode(
            errors="xmlcharrefreplace"
        )''', ".encode()")]),
    ("c20-html-encode-latin", "C20", [(H, '''.encode(
            errors="xmlcharrefreplace"
        )''', '.encode("latin-1")')]),
    ("c20-console-encode", "C20", [(CO, '''        try:
            print(value, end="", flush=True)
        except UnicodeEncodeError:
            encoding = getattr(sys.stdout, "encoding", None) or "ascii"
            value = value.encode(encoding, errors="backslashreplace").decode(encoding)
            print(value, end="", flush=True)''', '''        print(value, end="", flush=True)''')]),
    ("c20-console-skip-first", "C20", [(CO, SKIP, '''                    if is_done:
                        self._skipped_sections.add(section)
                    if section not in self._skipped_sections:
                        _print_section(print_, section, scope_mapping)
''')]),
    ("c20-console-skip-forever", "C20", [(CO, SKIP, '''                    if section not in self._skipped_sections:
                        _print_section(print_, section, scope_mapping)
                    if all(s.running == 0 and s.completed + s.failed > 0 for s in scope_mapping.values()):
                        self._skipped_sections.add(section)
''')]),
    ("c20-console-skip-not-discarded", "C20", [(CO, '''                    is_done = all(
                        s.completed + s.failed == s.total
                        for s in scope_mapping.values()
                    )
                    if not is_done or section''', '''                    is_done = all(s.running == 0 for s in scope_mapping.values())
                    if section''')]),
    ("c20-console-done-any", "C20", [(CO, "                    is_done = all(\n", "                    is_done = any(\n")]),
    ("c20-console-only-run", "C20", [(CO, 'for section in ("stale", "run"):', 'for section in ("stale", "run") if "stale" in state and len(state) < 2 else ("run",):')]),
    ("c20-console-generator", "C20", [(CO, "    strings = list(strings)\n", "")]),
    ("c20-html-totals-generator", "C20", [(H, "_get_total_scope_state(scope_mapping.values())", "_get_total_scope_state(s for s in scope_mapping.values())"), (H, "completed_percentage = 100 * scope_state.completed / scope_state.total", "completed_percentage = 100 * scope_state.completed / scope_state.total")]),
    ("c20-ipython-max-late", "C20", [(IP, '''                    progress_widget.max = scope_state.total
                    progress_widget.value = scope_state.completed + scope_state.failed
''', '''                    progress_widget.value = scope_state.completed + scope_state.failed
                    progress_widget.max = scope_state.total
''')]),
    ("c20-ipython-title-section", "C20", [(IP, 'self._get(\n                        "section",\n                        section,\n                        "scope",\n                        scope,\n                        "label",', 'self._get(\n                        "section",\n                        "scope",\n                        scope[:1],\n                        "label",')]),
    ("c20-ipython-children-first", "C20", [(IP, "        vbox_widget = self._get(default=widgets.VBox)\n        vbox_widget.children = children\n", "        vbox_widget = self._get(default=widgets.VBox)\n        if not vbox_widget.children:\n            vbox_widget.children = children\n")]),
    ("c20-elapsed-arith-string", "C20", [(S, 'progress_string = f"{progress_string}, {failed} failed"', 'progress_string = progress_string + ", " + failed + " failed"')]),
    ("c20-exceptions-index", "C20", [(CO, "range(new_exception_index, len(exception_tuples))", "range(new_exception_index, len(exception_tuples) + 1)")]),
    ("c20-section-merged", "C20", [(S, '''        self.section_scope_mapping.setdefault(section, {}).setdefault(
            scope, ScopeState()
        ).total += amount
''', '''        self.section_scope_mapping.setdefault(section, {})[scope] = ScopeState(
            total=amount
        )
        self.section_scope_mapping = {section: self.section_scope_mapping[section]}
''')]),
    ("c20-scope-truncated", "C20", [(S, "def increment_completed(self, section, scope):\n        self.update_weighted_elapsed()\n        scope_state = self.section_scope_mapping[section][scope]", "def increment_completed(self, section, scope):\n        self.update_weighted_elapsed()\n        scope_state = self.section_scope_mapping[section][scope[:1]]")]),
    ("c20-capped-elapsed", "C20", [(S, "            elapsed = t - self._prev_time\n", "            elapsed = min(t - self._prev_time, 60)\n")]),
    ("c20-whole-seconds", "C20", [(S, "            elapsed = t - self._prev_time\n", "            elapsed = int(t - self._prev_time)\n")]),
    ("c20-html-text-file", "C20", [(H, 'with staged_write(path, mode="wb") as f:\n                    f.write(html_bytes)', 'with staged_write(path) as f:\n                    f.write(html_bytes.decode())')]),
    ("c20-exit-only-ok", "C20", [(S, "        self._done_event.set()\n        self._thread.join()\n", "        self._done_event.set()\n        if exc_type is None:\n            self._thread.join()\n"), (S, "threading.Thread(target=self._run_update_thread)", "threading.Thread(\n            target=self._run_update_thread, daemon=True\n        )")]),
    ("c20-first-element-sort", "C20", [(S, SORT_FALLBACK, "    return sorted(scope_dict.items(), key=lambda pair: str(pair[0][0]))\n")]),
    ("c20-widget-key-string", "C20", [(IP, 'key = tuple(key)', 'key = tuple(str(x) for x in key)')]),
    ("c20-widget-key-scope-string", "C20", [(IP, '                for scope, scope_state in sorted_scope_items(scope_mapping):\n                    progress', '                for scope, scope_state in sorted_scope_items(scope_mapping):\n                    scope = (get_scope_string(scope),)\n                    progress')]),
    ("c20-html-total-max", "C20", [(H, "    rendered_footer = \"\"\n    if len(scope_mapping) > 1:", "    rendered_footer = \"\"\n    longest = max(scope_mapping)\n    if len(scope_mapping) > 1:")]),
]
SAME = [
    ("c20-mixed-clocks", [(S, "        t = time.time()\n        if self.running_count:", "        t = time.monotonic()\n        if self.running_count:")]),
    ("c20-max-zero", [(S, "            elapsed = t - self._prev_time\n", "            elapsed = max(0.0, t - self._prev_time)\n")]),
    ("c20-all-monotonic", [(S, "        t = time.time()\n        if self.running_count:", "        t = time.monotonic()\n        if self.running_count:"), (S, "        self._start_time = time.time()\n", "        self._start_time = time.monotonic()\n"), (S, "        t = time.time()\n        if (", "        t = time.monotonic()\n        if (")]),
    ("c20-elapsed-int-arg", [(S, "return get_elapsed_string(self.weighted_elapsed)", "return get_elapsed_string(int(self.weighted_elapsed))")]),
    ("c20-html-file-open", [(H, 'with staged_write(path, mode="wb") as f:\n                    f.write(html_bytes)', 'mode = "w" + "b"\n                with staged_write(path, mode=mode) as stream:\n                    stream.write(html_bytes)')]),
    ("c20-setdefault-widget", [(IP, '''        widget = self._widget_cache.get(key)
        if widget is None:
            self._widget_cache[key] = widget = default()
        return widget
''', '''        try:
            return self._widget_cache[key]
        except KeyError:
            return self._widget_cache.setdefault(key, default())
''')]),
    ("c20-rename-multiplier", [(S, UPDATE, '''        now = time.time()
        count = self.running_count
        if count:
            share = (now - self._prev_time) / count
            for st in list(self._running_scope_states):
                st.weighted_elapsed = st.weighted_elapsed + share * st.running
        self._prev_time = now
''')]),
    ("c20-finish-helper", [(S, ST_COMPLETED, "        self._finish(section, scope).completed += 1\n"), (S, '''        self.update_weighted_elapsed()
        scope_state = self.section_scope_mapping[section][scope]
        scope_state.running -= 1
        self.running_count -= 1
        if not scope_state.running:
            self._running_scope_states.remove(scope_state)
        scope_state.failed += 1
''', '''        self._finish(section, scope).failed += 1

    def _finish(self, section, scope):
        self.update_weighted_elapsed()
        scope_state = self.section_scope_mapping[section][scope]
        scope_state.running -= 1
        self.running_count -= 1
        if scope_state.running == 0:
            self._running_scope_states.discard(scope_state)
        return scope_state
''')]),
    ("c20-loop-break", [(S, LOOP, '''        delay = self._initial_update_delay
        while True:
            done = self._done_event.wait(delay)
            delay = self._min_update_interval
            with self._lock:
                value = self._do_render()
            if value is not None:
                self._output(value)
            if done:
                break
''')]),
    ("c20-last-render-outside-loop", [(S, LOOP, '''        delay = self._initial_update_delay
        while not self._done_event.wait(delay):
            delay = self._min_update_interval
            self._update()
        self._update()

    def _update(self):
        with self._lock:
            output_value = self._do_render()
        if output_value is not None:
            self._output(output_value)
''')]),
    ("c20-should-render", [(S, RENDER, '''        if self._needs_render(t):
            self._last_render_time = t
            self._stale = False
'''), (S, "    def _do_render(self):\n", '''    def _needs_render(self, t):
        if self._stale or self._last_render_time is None:
            return True
        return t - self._last_render_time >= self._max_update_interval

    def _do_render(self):
''')]),
    ("c20-stale-after-update", [(S, COMPLETED, '''    def increment_completed(self, *, section: str, scope: tuple):
        with self._lock:
            self._state.increment_completed(section, scope)
            self._stale = True
''')]),
    ("c20-stale-after-lock", [(S, COMPLETED, '''    def increment_completed(self, *, section: str, scope: tuple):
        with self._lock:
            self._state.increment_completed(section, scope)
        self._stale = True
''')]),
    ("c20-sort-by-strings", [(S, SORT_FALLBACK, '''    return sorted(
        scope_dict.items(),
        key=lambda pair: [(str(type(x)), str(x)) for x in pair[0]],
    )
''')]),
    ("c20-sort-typeerror", [(S, "    except Exception:\n        # Scope", "    except TypeError:\n        # Scope")]),
    ("c20-scope-map-str", [(S, '", ".join(str(value) for value in scope)', '", ".join(map(str, scope))')]),
    ("c20-scope-format", [(S, '", ".join(str(value) for value in scope)', '", ".join([f"{value}" for value in scope])')]),
    ("c20-sections-dataclass", [(S, '''class ScopeState:
    def __init__(
        self, *, completed=0, failed=0, running=0, total=0, weighted_elapsed=0
    ):
        self.completed = completed
        self.failed = failed
        self.running = running
        self.total = total
        self.weighted_elapsed = weighted_elapsed
''', '''@dataclasses.dataclass(eq=False)
class ScopeState:
    completed: int = 0
    failed: int = 0
    running: int = 0
    total: int = 0
    weighted_elapsed: float = 0
'''), (S, "import threading\n", "import dataclasses\nimport threading\n")]),
    ("c20-console-lines", [(CO, '''        print_(f"  {progress_str} | {elapsed_str} | {get_scope_string(scope)}")
''', '''        print_("  " + " | ".join((progress_str, elapsed_str, get_scope_string(scope))))
''')]),
    ("c20-console-format", [(CO, '''        print_(f"  {progress_str} | {elapsed_str} | {get_scope_string(scope)}")
''', '''        print_("  {} | {} | {scope}".format(progress_str, elapsed_str, scope=get_scope_string(scope)))
''')]),
    ("c20-console-write", [(CO, '''            print(value, end="", flush=True)
        except''', '''            sys.stdout.write(value)
            sys.stdout.flush()
        except''')]),
    ("c20-console-buffer", [(CO, "    def _render(self, state, new_exception_index, exception_tuples, elapsed):\n        with StringIO() as buffer:\n            print_ = partial(print, file=buffer)\n", "    def _render(self, state, new_exception_index, exception_tuples, elapsed):\n        with StringIO() as buffer:\n\n            def print_(text):\n                buffer.write(text)\n                buffer.write(\"\\n\")\n\n")]),
    ("c20-console-is-done", [(CO, '''                    is_done = all(
                        s.completed + s.failed == s.total
                        for s in scope_mapping.values()
                    )
                    if not is_done or''', '''                    is_done = not any(
                        s.completed + s.failed < s.total
                        for s in scope_mapping.values()
                    )
                    if not is_done or''')]),
    ("c20-console-setattr-skip", [(CO, SKIP, '''                    shown_done = section in self._skipped_sections
                    if not (is_done and shown_done):
                        _print_section(print_, section, scope_mapping)
                    if not is_done:
                        self._skipped_sections -= {section}
                    else:
                        self._skipped_sections |= {section}
''')]),
    ("c20-html-list", [(H, '''    rendered_scopes = "\\n".join(
        _render_scope(scope, scope_state)
        for scope, scope_state in sorted_scope_items(scope_mapping)
    )
''', '''    rows = []
    for scope, scope_state in sorted_scope_items(scope_mapping):
        rows.append(_render_scope(scope, scope_state))
    rendered_scopes = "\\n".join(rows)
''')]),
    ("c20-html-percent-helper", [(H, '''    completed_percentage = 100 * scope_state.completed / scope_state.total
    running_percentage = 100 * scope_state.running / scope_state.total
    failed_percentage = 100 * scope_state.failed / scope_state.total
''', '''    completed_percentage, running_percentage, failed_percentage = (
        100 * n / scope_state.total
        for n in (scope_state.completed, scope_state.running, scope_state.failed)
    )
''')]),
    ("c20-snapshot-exceptions", [(S, "                self._exception_tuples,\n", "                list(self._exception_tuples),\n")]),
    ("c20-ipython-setdefault", [(IP, '''        widget = self._widget_cache.get(key)
        if widget is None:
            self._widget_cache[key] = widget = default()
        return widget
''', '''        if key not in self._widget_cache:
            self._widget_cache[key] = default()
        return self._widget_cache[key]
''')]),
    ("c20-acquire-release", [(S, RUNNING, '''    def increment_running(self, *, section: str, scope: tuple):
        self._lock.acquire()
        try:
            self._stale = True
            self._state.increment_running(section, scope)
        finally:
            self._lock.release()
''')]),
    ("c20-notify-helper", [(S, RUNNING, '''    def increment_running(self, *, section: str, scope: tuple):
        with self._changing() as state:
            state.increment_running(section, scope)

    @contextlib.contextmanager
    def _changing(self):
        with self._lock:
            self._stale = True
            yield self._state
'''), (S, "import threading\n", "import contextlib\nimport threading\n")]),
    ("c20-totals-defaultdict", [(S, '''        self.section_scope_mapping.setdefault(section, {}).setdefault(
            scope, ScopeState()
        ).total += amount
''', '''        scope_mapping = self.section_scope_mapping.get(section)
        if scope_mapping is None:
            scope_mapping = self.section_scope_mapping[section] = {}
        if scope not in scope_mapping:
            scope_mapping[scope] = ScopeState()
        scope_mapping[scope].total += amount
''')]),
]
