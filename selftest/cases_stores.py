FS = "src/uberjob/stores/_file_store.py"
JS = "src/uberjob/stores/_json_file_store.py"
TX = "src/uberjob/stores/_text_file_store.py"
BI = "src/uberjob/stores/_binary_file_store.py"
PK = "src/uberjob/stores/_pickle_file_store.py"
TO = "src/uberjob/stores/_touch_file_store.py"
MO = "src/uberjob/stores/_mounted_store.py"
SWP = '''    try:
        yield staging_path
        os.replace(staging_path, path)
    except BaseException:
        _try_remove(staging_path)
        raise
'''
SW = '''    with staged_write_path(path) as staging_path:
        with open(staging_path, mode, **kwargs) as outputfile:
            yield outputfile
'''
BUGS = [
    ("cleanup-exception-only", "C11", [(FS, "except BaseException:", "except Exception:")]),
    ("cleanup-oserror-only", "C11", [(FS, "except BaseException:", "except OSError:")]),
    ("replace-in-finally", "C11", [(FS, SWP, '''    try:
        yield staging_path
    finally:
        if os.path.exists(staging_path):
            os.replace(staging_path, path)
''')]),
    ("swallow", "C11", [(FS, "        _try_remove(staging_path)\n        raise\n", "        _try_remove(staging_path)\n")]),
    ("replace-before-close", "C11", [(FS, SW, '''    with staged_write_path(path) as staging_path:
        pass
    with open(path, mode, **kwargs) as outputfile:
        yield outputfile
''')]),
    ("replace-before-close2", "C11", [(FS, SW, '''    staging_path = f"{path}.STAGING"
    outputfile = open(staging_path, mode, **kwargs)
    try:
        yield outputfile
        os.replace(staging_path, path)
    except BaseException:
        _try_remove(staging_path)
        raise
    finally:
        outputfile.close()
''')]),
    ("exclusive-mode", "C11", [(FS, "open(staging_path, mode, **kwargs)", 'open(staging_path, mode.replace("w", "x"), **kwargs)')]),
    ("append-mode", "C11", [(BI, 'mode="wb"', 'mode="w+b"'), (FS, '"w" not in mode', '"w" not in mode and "a" not in mode'), (BI, 'mode="w+b"', 'mode="ab"')]),
    ("with-suffix", "C11", [(FS, '        staging_path = pathlib.Path(staging_path)', '        staging_path = path.with_suffix(".STAGING")')]),
    ("tempdir-staging", "C11", [(FS, '    staging_path = f"{path}.STAGING"\n', '    import tempfile\n    staging_path = os.path.join(tempfile.mkdtemp(), "x")\n')]),
    ("remove-first", "C11", [(FS, "        os.replace(staging_path, path)\n", "        _try_remove(path)\n        os.rename(staging_path, path)\n")]),
    ("copy", "C11", [(FS, "        os.replace(staging_path, path)\n", "        import shutil\n        shutil.copyfile(staging_path, path)\n        os.remove(staging_path)\n")]),
    ("json-direct", "C11", [(JS, "with staged_write(self.path, encoding=self.encoding) as", 'with open(self.path, "w", encoding=self.encoding) as')]),
    ("touch-direct", "C11", [(TO, 'with staged_write(self.path, "wb"):\n            pass', 'open(self.path, "wb").close()')]),
    ("touch-pathlib", "C11", [(TO, 'with staged_write(self.path, "wb"):\n            pass', 'import pathlib\n        pathlib.Path(self.path).touch()')]),
    ("skip-if-staging", "C11", [(FS, "    try:\n        yield staging_path\n", "    if os.path.exists(staging_path):\n        raise OSError('busy')\n    try:\n        yield staging_path\n")]),
    ("read-staging-fallback", "C11", [(FS, "        t = os.path.getmtime(path)\n", "        t = max(os.path.getmtime(p) for p in (path, f'{path}.STAGING') if os.path.exists(p))\n")]),
    ("utime-target", "C11", [(FS, "        yield staging_path\n        os.replace", "        os.utime(path)\n        yield staging_path\n        os.replace")]),
    ("suppress-ser", "C11", [(PK, "pickle.dump(value, outputfile)", "try:\n                pickle.dump(value, outputfile)\n            except AttributeError:\n                pass")]),
    ("orig-fix-undone", "C11", [(FS, SWP, '''    try:
        yield staging_path
    except BaseException:
        _try_remove(staging_path)
        raise
    os.replace(staging_path, path)
''')]),
    ("remove-unguarded-masks", "C11", [(FS, "        _try_remove(staging_path)\n        raise\n", "        try:\n            os.remove(staging_path)\n        except OSError:\n            return\n        raise\n")]),
]
SAME = [
    ("st-success-flag", [(FS, SWP, '''    replaced = False
    try:
        yield staging_path
        os.replace(staging_path, path)
        replaced = True
    finally:
        if not replaced:
            _try_remove(staging_path)
''')], "C11,C12"),
    ("st-else", [(FS, SWP, '''    try:
        yield staging_path
    except BaseException:
        _try_remove(staging_path)
        raise
    else:
        try:
            os.replace(staging_path, path)
        except BaseException:
            _try_remove(staging_path)
            raise
''')], "C11,C12"),
    ("st-class-cm", [(FS, '''@contextmanager
def staged_write_path(
    path: str | pathlib.Path,
) -> Generator[str | pathlib.Path, None, None]:
''', '''class _Staged:
    def __init__(self, path, staging_path):
        self.path = path
        self.staging_path = staging_path

    def __enter__(self):
        return self.staging_path

    def __exit__(self, et, e, tb):
        if et is None:
            try:
                os.replace(self.staging_path, self.path)
            except BaseException:
                _try_remove(self.staging_path)
                raise
        else:
            _try_remove(self.staging_path)
        return False


def staged_write_path(path):
'''), (FS, SWP, "    return _Staged(path, staging_path)\n")], "C11,C12"),
    ("st-suppress", [(FS, '''    try:
        os.remove(path)
    except OSError:
        pass
''', '''    import contextlib
    with contextlib.suppress(OSError):
        os.remove(path)
''')], "C11,C12"),
    ("st-pathlib", [(FS, '''    staging_path = f"{path}.STAGING"
    if isinstance(path, pathlib.Path):
        staging_path = pathlib.Path(staging_path)
''', '''    if isinstance(path, pathlib.Path):
        staging_path = path.with_name(path.name + STAGING_SUFFIX)
    else:
        staging_path = str(path) + STAGING_SUFFIX
''')], "C11,C12"),
    ("st-json-dumps", [(JS, "            json.dump(value, outputfile, indent=4)", "            outputfile.write(json.dumps(value, indent=4))")], "C11,C12"),
    ("st-helper", [(FS, SWP, '''    try:
        yield staging_path
        _commit(staging_path, path)
    except BaseException:
        _rollback(staging_path)
        raise


def _commit(staging_path, path):
    os.replace(staging_path, path)


def _rollback(staging_path):
    _try_remove(staging_path)
''')], "C11,C12"),
    ("st-one-with", [(FS, SW, '''    with staged_write_path(path) as staging_path, open(
        staging_path, mode, **kwargs
    ) as outputfile:
        yield outputfile
''')], "C11,C12"),
    ("st-fsync", [(FS, SW, '''    with staged_write_path(path) as staging_path:
        with open(staging_path, mode, **kwargs) as outputfile:
            yield outputfile
            outputfile.flush()
            os.fsync(outputfile.fileno())
''')], "C11,C12"),
    ("st-exitstack", [(FS, SW, '''    from contextlib import ExitStack
    with ExitStack() as stack:
        staging_path = stack.enter_context(staged_write_path(path))
        outputfile = stack.enter_context(open(staging_path, mode, **kwargs))
        yield outputfile
''')], "C11,C12"),
]
BUGS += [
    ("text-strip", "C12", [(TX, "return inputfile.read()", "return inputfile.read().strip()")]),
    ("text-newline-read", "C12", [(TX, 'encoding=self.encoding, newline="") as inputfile', "encoding=self.encoding) as inputfile")]),
    ("text-newline-write", "C12", [(TX, 'self.path, encoding=self.encoding, newline=""\n', 'self.path, encoding=self.encoding, newline="\\r\\n"\n')]),
    ("text-errors", "C12", [(TX, 'self.path, encoding=self.encoding, newline=""\n', 'self.path, encoding=self.encoding, errors="replace", newline=""\n')]),
    ("text-read-enc", "C12", [(TX, "open(self.path, encoding=self.encoding,", 'open(self.path, encoding="utf-8",')]),
    ("text-add-nl", "C12", [(TX, "outputfile.write(value)", 'outputfile.write(value if value.endswith("\\n") else value + "\\n")')]),
    ("text-default-enc", "C12", [(TX, "self.path, encoding=self.encoding, newline", 'self.path, encoding=self.encoding or "utf-8", newline')]),
    ("json-ensure-ascii", "C12", [(JS, "indent=4", "indent=4, ensure_ascii=False")]),
    ("json-hook", "C12", [(JS, "json.load(inputfile)", "json.load(inputfile, parse_float=int)")]),
    ("json-enc", "C12", [(JS, "open(self.path, encoding=self.encoding)", "open(self.path)")]),
    ("json-or", "C12", [(JS, "return json.load(inputfile)", "return json.load(inputfile) or None")]),
    ("bin-empty-none", "C12", [(BI, "return inputfile.read()", "return inputfile.read() or None")]),
    ("bin-cache", "C12", [(BI, "            return inputfile.read()", "            return getattr(self, 'v', None) or inputfile.read()"), (BI, "outputfile.write(value)", "outputfile.write(value)\n        self.v = value")]),
    ("pickle-bad", "C12", [(PK, "pickle.dump(value, outputfile)", "pickle.dump(str(value), outputfile)")]),
    ("mtime-ctime", "C12", [(FS, "os.path.getmtime(path)", "os.path.getctime(path)")]),
    ("mtime-raise", "C12", [(FS, "    except OSError:\n        return None\n    return", "    except FileNotFoundError:\n        return None\n    return")]),
    ("mtime-empty", "C12", [(FS, "    return dt.datetime.fromtimestamp(t)", "    if not os.path.getsize(path):\n        return None\n    return dt.datetime.fromtimestamp(t)")]),
    ("mtime-falsy", "C12", [(FS, "    return dt.datetime.fromtimestamp(t)", "    return dt.datetime.fromtimestamp(t) if t > 1 else None")]),
    ("mount-order", "C12", [(MO, "            self.create_store(local_path).write(value)\n            self.copy_from_local(local_path)", "            self.copy_from_local(local_path)\n            self.create_store(local_path).write(value)")]),
    ("mount-path", "C12", [(MO, "            self.copy_from_local(local_path)", "            self.copy_from_local(local_path + '.STAGING')")]),
    ("mount-skip", "C12", [(MO, "            self.create_store(local_path).write(value)\n", "            self.create_store(local_path).write(value)\n            if value is None:\n                return\n")]),
]
SAME += [
    ("sm-readtext-bytes", [(TX, '''        with open(self.path, encoding=self.encoding, newline="") as inputfile:
            return inputfile.read()''', '''        with open(self.path, newline="", encoding=self.encoding) as f:
            text = f.read()
        return text''')], "C11,C12"),
    ("sm-json-loads", [(JS, "return json.load(inputfile)", "return json.loads(inputfile.read())")], "C11,C12"),
    ("sm-pickle-dumps", [(PK, "pickle.dump(value, outputfile)", "data = pickle.dumps(value)\n            outputfile.write(data)"), (PK, "return pickle.load(inputfile)", "return pickle.loads(inputfile.read())")], "C11,C12"),
    ("sm-mtime-stat", [(FS, '''        t = os.path.getmtime(path)
    except OSError:
        return None
    return dt.datetime.fromtimestamp(t)''', '''        stat = os.stat(path)
    except OSError:
        return None
    else:
        return dt.datetime.fromtimestamp(stat.st_mtime)''')], "C11,C12,C18"),
    ("sm-bin-pathlib", [(BI, '''        with open(self.path, mode="rb") as inputfile:
            return inputfile.read()''', '''        import pathlib
        return pathlib.Path(self.path).read_bytes()''')], "C11,C12"),
    ("sm-mount-helper", [(MO, '''        with _path_context() as local_path:
            self.create_store(local_path).write(value)
            self.copy_from_local(local_path)''', '''        with _path_context() as local_path:
            store = self.create_store(local_path)
            store.write(value)
            self.copy_from_local(local_path)''')], "C12"),
    ("sm-mount-inline", [(MO, '''    with tempfile.TemporaryDirectory() as tempdir:
        yield os.path.join(tempdir, "temp")''', '''    directory = tempfile.TemporaryDirectory()
    try:
        yield os.path.join(directory.name, "temp")
    finally:
        directory.cleanup()''')], "C12"),
    ("sm-touch", [(TO, '''        with open(self.path, "rb") as inputfile:
            if inputfile.read(1):
                raise OSError(f"The path {self.path!r} exists but is not empty.")
        return None''', '''        with open(self.path, "rb") as inputfile:
            is_empty = not inputfile.read(1)
        if not is_empty:
            raise OSError(f"The path {self.path!r} exists but is not empty.")''')], "C11,C12"),
]
