"""Parse every module of /repo/src/uberjob (never imported, never executed)."""
import ast
import hashlib
import os


class Desugar(ast.NodeTransformer):
    """`with ExitStack() as s: a; x = s.enter_context(E); b` is `a; with E as x: b` when s has no other use"""

    def visit_With(self, n):
        self.generic_visit(n)
        it = n.items[-1]
        c = it.context_expr
        if not (isinstance(c, ast.Call) and not c.args and isinstance(it.optional_vars, ast.Name)):
            return n
        f = c.func
        if (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else "") != "ExitStack":
            return n
        name = it.optional_vars.id

        def entered(s):
            v = s.value if isinstance(s, (ast.Assign, ast.Expr)) else None
            ok = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "enter_context" and isinstance(v.func.value, ast.Name) and v.func.value.id == name and len(v.args) == 1
            return ok and (isinstance(s, ast.Expr) or len(s.targets) == 1)

        uses = sum(isinstance(x, ast.Name) and x.id == name for s in n.body for x in ast.walk(s))
        if not uses or uses != sum(entered(s) for s in n.body):
            return n

        def nest(stmts):
            for i, s in enumerate(stmts):
                if entered(s):
                    rest = nest(stmts[i + 1 :]) or [ast.copy_location(ast.Pass(), s)]
                    tgt = s.targets[0] if isinstance(s, ast.Assign) else None
                    w = ast.With(items=[ast.withitem(context_expr=s.value.args[0], optional_vars=tgt)], body=rest)
                    return stmts[:i] + [ast.copy_location(w, s)]
            return stmts

        body = nest(n.body)
        if len(n.items) > 1:
            return ast.copy_location(ast.With(items=n.items[:-1], body=body), n)
        return body


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = Desugar().visit(ast.parse(src, path))
        self.is_pkg = os.path.basename(path) == "__init__.py"


class Repo:
    def __init__(self, root="/repo", overlay=None, stubs=None):
        """overlay: {relative path: source text} replaces/adds files in memory (self tests)."""
        self.root = root
        self.modules = {}
        self.files = {}
        base = os.path.join(root, "src")
        for d, dirs, files in os.walk(os.path.join(base, "uberjob")):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    with open(p, encoding="utf-8") as fh:
                        self.files[rel] = fh.read()
        for rel, src in (overlay or {}).items():
            if src is None:
                self.files.pop(rel, None)
            else:
                self.files[rel] = src
        for rel, src in sorted(self.files.items()):
            parts = os.path.relpath(rel, "src")[:-3].split(os.sep)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            self.modules[name] = Module(name, rel, src)
        h = hashlib.sha256()
        for rel in sorted(self.files):
            h.update(rel.encode())
            h.update(self.files[rel].encode())
        self.digest = h.hexdigest()
        self.stubbed = []
        for fname, body in (stubs or {}).items():
            for m in self.modules.values():
                for n in m.tree.body:
                    if isinstance(n, ast.FunctionDef) and n.name == fname:
                        t = ast.parse(body)
                        ast.increment_lineno(t, 100000)
                        n.body = t.body
                        self.stubbed.append((m.name, fname))
        # position -> enclosing function name
        for m in self.modules.values():
            annotate(m)


def annotate(mod):
    """give every function a stable qualname and every node its module"""

    def rec(node, qual):
        for ch in ast.iter_child_nodes(node):
            q = qual
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = qual + (ch.name,)
                ch._qual = ".".join(q)
            elif isinstance(ch, ast.Lambda):
                q = qual + ("<lambda>",)
                ch._qual = ".".join(q)
            ch._mod = mod
            ch._in = ".".join(q)
            rec(ch, q)

    mod.tree._mod = mod
    mod.tree._in = ""
    rec(mod.tree, ())


# The execution engine is decided on its own (C01, C04, C06, C07, C10, C16, C17).  Clients that study what is
# run *on* the engine replace its body by this contract: fn is applied to every node on worker threads, the
# first failure is reported as a NodeError for the failing node, and the call returns only after all work ended.
ENGINE_STUB = '''
import queue as _queue
import threading as _threading
from uberjob._errors import NodeError as _NodeError
_q = _queue.Queue()
_error = _res = None
for _node in graph.nodes():
    _q.put(_node)

def _work():
    nonlocal _error, _res
    _n = _q.get()
    try:
        _res = fn(_n)
    except Exception as _e:
        if isinstance(_e, _NodeError):
            _error = _e
        else:
            _err = _NodeError(_n)
            _err.__cause__ = _e
            _error = _err

_t = _threading.Thread(target=_work)
_t.start()
_t.join()
if _error is not None:
    raise _error
'''
