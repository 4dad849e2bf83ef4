"""Obligations on what is run for each node (the function handed to the engine), analysed through uberjob.run."""
from ..terms import C, FALSE, NONE, TRUE, cval, is_const, mk, show, subterms
from .base import is_view
from .surgery import CALL, cls_name, type_fact

NODE_ERROR = "uberjob._errors.NodeError"
CALL_ERROR = "uberjob._errors.CallError"


def notcall(m, x):
    """the assumption that x is not a Call"""
    if m.kind != "assume":
        return False
    a, v = m["atom"], m["val"]
    if a.op == "eq" and a.args[0].op == "type" and a.args[0].args[0] is x or a.op == "isinst" and a.args[0] is x:
        return not v if cls_name(a.args[1]) == CALL else v
    return False


class Physical:
    """root: the worker root on which the calls of the physical plan run"""

    def __init__(self, ck, g, root=None):
        self.ck, self.g = ck, g
        ws = g.workers()
        ck.need(ws, "no engine run was reached")
        self.root = root or ws[-1]
        self.gets = [n for n in g.ev("q_get", self.root)]
        self.items = {n["item"] for n in self.gets}
        self.fnterms = {mk("attr", x, "fn") for x in self.items}
        self.ucalls = [n for n in g.ev("ucall", self.root) if self.is_fn(n["fn"])]
        self.uexc = [n for n in g.ev("uexc", self.root) if self.is_fn(n["fn"])]
        self.uret = [n for n in g.ev("uret", self.root) if self.is_fn(n["fn"])]

    def is_fn(self, f):
        return f in self.fnterms

    def calls_once(self):
        """every Call item leads to exactly one application of its function"""
        ck, g = self.ck, self.g
        if not self.ucalls:
            ck.ob("call-applied", self.root, None, "no application of the item's function was found")
            return
        for s in self.gets:
            x = s["item"]
            p = g.path(
                g.after(s),
                lambda m: m.kind == "end" and m["how"] == "norm" or m.kind == "q_get",
                block=lambda m: m in self.ucalls or notcall(m, x) or m.kind == "caught" and not self.mine(m),
            )
            ck.ob("call-applied", g.at(s), p is None, "a call is processed without running its function: " + g.show_path(p) if p else "the item's function is applied on every path")
        for u in self.uret:
            p = g.path(g.after(u), lambda m: m in self.ucalls, block=lambda m: m.kind == "q_get")
            ck.ob("call-applied-once", g.at(u), p is None, "the function of a call runs again after it succeeded: " + g.show_path(p) if p else "")
        for u in self.uexc:
            p = g.path(g.after(u), lambda m: m in self.ucalls, block=lambda m: m.kind == "q_get")
            ck.ob("call-applied-once", g.at(u), p is None, "the function of a call runs again without retry: " + g.show_path(p) if p else "")
        for u in self.ucalls:
            bad = [c for c in g.ev("ucall", self.root) if c["fn"] is not u["fn"] and any(f in c["fn"].leaves for f in ())]
            yes, no = type_fact(u.facts, u["fn"].args[0])
            ck.ob("only-calls-applied", g.at(u), True if CALL in yes else None, "the item is known to be a Call")
            ck.ob("calls-run-unlocked", g.at(u), not u.locks, "calls run while a lock is held" if u.locks else "")

    def mine(self, m):
        return True

    def failure_propagates(self):
        """a failed function makes the process function raise a NodeError for the node, caused by that failure"""
        ck, g = self.ck, self.g
        ends = [n for n in g.ev("caught", self.root) if n.loc[1] >= 100000]
        for u in self.uexc:
            e = u["exc"]
            # the exception classes an Exception handler sees
            p = g.path(g.after(u), lambda m: m.kind == "end" and m["how"] == "norm" or m.kind == "q_get", block=lambda m: m in ends or m in self.ucalls)
            ck.ob("failure-propagates", g.at(u), p is None, "a failed call is reported as successful: " + g.show_path(p) if p else "every path raises")
            sub = g.fwd(g.after(u), stop=lambda m: m in ends or m.kind == "q_get", block=lambda m: m in self.ucalls)
            for c in ends:
                if c.id not in sub:
                    continue
                x = c["exc"]
                if x is e:
                    ck.ob("failure-names-node", g.at(u), True, "raised unchanged, the engine wraps it")
                    continue
                if x.op == "obj":
                    sets = [s for s in g.ev("setattr", self.root) if s["obj"] is x and s.id in sub]
                    node = [s["val"] for s in sets if s["name"] == "node"]
                    cause = [s["val"] for s in sets if s["name"] == "__cause__"] + [r["cause"] for r in g.ev("raise", self.root) if r["exc"] is x and r.id in sub]
                    cause = [k for k in cause if k is not None]
                    cn = self.cls_of(x)
                    ck.ob("failure-names-node", g.at(u), None if not node else all(n in self.items for n in node), f"{cn} for {[show(n, 2) for n in node]}")
                    ck.ob("failure-cause", g.at(u), bool(cause) and all(k is e for k in cause), f"cause {[show(k, 3) for k in cause]}")
                else:
                    ck.ob("failure-names-node", g.at(u), None, show(x, 3))

    def cls_of(self, x):
        for n in self.g.ev("alloc"):
            if n["obj"] is x:
                return cls_name(n["cls"])
        return "?"

    def call_error(self):
        """main: an engine failure leaves run as CallError(error.node) from error.__cause__"""
        ck, g = self.ck, self.g
        ends = [m for m in g.ev("end", "main") if m["how"] == "raise"]
        eng = [m for m in g.ev("raise", "main") if m.loc[1] >= 100000]
        ck.need(eng, "engine failure not found")
        for r in eng:
            x = r["exc"]
            sub = g.fwd([r])
            p = g.path([r], lambda m: m.kind == "end" and m["how"] == "norm")
            ck.ob("failure-raised", g.at(r), p is None, "run returns although a call failed: " + g.show_path(p) if p else "")
            raised = [m for m in g.ev("raise", "main") if m.id in sub and m is not r]
            ok = False
            for m in raised:
                y = m["exc"]
                if self.cls_of(y) != CALL_ERROR:
                    continue
                ok = True
                ent = [n for n in g.ev("opaque", "main") if n.get("obj") is y] or []
                arg = self.ctor_arg(y)
                if arg is None:
                    ck.ob("error-names-call", g.at(m), None, "argument of CallError not understood")
                else:
                    good = arg.op == "attr" and arg.args[1] == "node" or arg.op == "load"
                    okn = self.names(arg)
                    ck.ob("error-names-call", g.at(m), okn, f"CallError({show(arg, 3)})")
                c = m["cause"]
                okc = None
                if c is not None:
                    okc = True if c.op == "attr" and c.args[1] == "__cause__" or c.op == "load" and "__cause__" in str(c.args[0].args) else None
                    if c is NONE:
                        okc = False
                else:
                    okc = False
                ck.ob("error-cause", g.at(m), okc, f"cause {show(c, 3) if c is not None else None}")
            p = g.path([r], lambda m: m.kind == "end" and m["how"] == "raise" and self.cls_of(m.get("exc")) != CALL_ERROR if m.kind == "end" and m.get("exc") is not None else False)
            ck.ob("failure-is-call-error", g.at(r), ok, "a failed call is not reported as CallError" if not ok else "")

    def ctor_arg(self, y):
        for n in self.g.ev(("alloc", "setattr"), "main"):
            if n["obj"] is y and n.kind == "setattr" and n["name"] == "call":
                return n["val"]
            if n["obj"] is y and n.kind == "alloc" and n.get("args"):
                return n["args"][0]
        return None

    def names(self, arg):
        """arg is the node of the recorded error"""
        if arg.op == "attr" and arg.args[1] == "node":
            return True
        if arg.op == "load" and any("node" == z for z in arg.args[0].args if type(z) is str):
            return True
        if arg in self.items:
            return True
        return None
