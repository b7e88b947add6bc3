"""Which failures leave a piece of code: whether ACT-R errors can arise in it, and how it can be left."""
import ast
import builtins

ERROR = "utilities.ACTRError"
DUNDER = {ast.Compare: ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__contains__"), ast.Subscript: ("__getitem__", "__setitem__", "__delitem__"),
          ast.For: ("__iter__", "__next__"), ast.comprehension: ("__iter__", "__next__")}
FALL, RETURN, BREAK, CONTINUE, GOOD, OTHER = "goes on", "return", "break", "continue", "an ACT-R error", "another error"


class Failures:
    def __init__(self, prog):
        self.prog = prog
        self.by_name = {}
        for q, f in prog.funcs.items():
            if not q.startswith("ref_") and not f.module.is_ref:
                self.by_name.setdefault(f.name, []).append(f)
        self.memo = {}
        self.exits_memo = {}

    # ------------------------------------------------------------ classes
    def cls(self, f, expr):
        """Names of the exception classes an expression stands for; None if it cannot be told."""
        if isinstance(expr, (ast.Tuple, ast.List)):
            out = set()
            for x in expr.elts:
                c = self.cls(f, x)
                if c is None:
                    return None
                out |= c
            return out
        try:
            d = self.prog.resolve_dotted(f.module, ast.unparse(expr))
        except Exception:
            return None
        if isinstance(expr, ast.Name) and expr.id in f.module.assigns and d == expr.id:
            v = f.module.assigns[expr.id]
            v = v[-1] if isinstance(v, list) else v
            return self.cls(f, v) if isinstance(v, ast.expr) else None
        return {d}

    def is_error(self, c):
        return c in self.prog.classes and self.prog.is_subclass_name(c, ERROR)

    def catches(self, f, h):
        """Does the handler get ACT-R errors?"""
        if h.type is None:
            return True
        cs = self.cls(f, h.type)
        return cs is not None and any(c in ("Exception", "BaseException", ERROR) or self.prog.is_subclass_name(ERROR, c) for c in cs)

    # ------------------------------------------------------------ can it raise?
    def can(self, f):
        """Can an ACT-R error arise in the function? (may: method calls are matched by name, unknown functions may be rules)"""
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = False
        while True:
            r = self.arises(f, f.node.body if isinstance(f.node.body, list) else [f.node.body])
            if r == self.memo[f.qual]:
                return r
            self.memo[f.qual] = r

    def arises(self, f, nodes, by_name=True):
        """by_name: calls of methods of unknown objects, and operators, count if any method of that name can raise one."""
        for top in nodes:
            for n in ast.walk(top):
                if isinstance(n, ast.Raise):
                    if n.exc is None:
                        continue
                    cs = self.cls(f, n.exc.func if isinstance(n.exc, ast.Call) else n.exc)
                    if cs is None or any(self.is_error(c) for c in cs):
                        return True
                elif isinstance(n, ast.Call):
                    if self.call(f, n) and (by_name or not isinstance(n.func, ast.Attribute) or self.package_object(f, n.func.value)):
                        return True
                elif not by_name:
                    continue
                elif isinstance(n, ast.Attribute) and any(g.kind in ("getter", "setter", "property") and self.can(g) for g in self.by_name.get(n.attr, ())):
                    return True
                for t, names in DUNDER.items():
                    if isinstance(n, t) and any(self.can(g) for x in names for g in self.by_name.get(x, ())):
                        return True
        return False

    def package_object(self, f, x):
        """Is this (surely) a module or class of the package, the object itself, or super()?"""
        if isinstance(x, ast.Name):
            return x.id in f.module.imports or x.id in f.module.classes or x.id == "self"
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super"

    def call(self, f, n):
        if isinstance(n.func, ast.Attribute):
            name = n.func.attr
        elif isinstance(n.func, ast.Name):
            name = n.func.id
        else:
            return True
        if name == "next":
            return True
        if name in ("type", "isinstance") or isinstance(n.func, ast.Name) and hasattr(builtins, name) and name not in f.module.funcs:
            return False
        gs = list(self.by_name.get(name, ()))
        for c in self.prog.classes.values():
            if c.name == name:
                i = self.prog.find_method(c.qual, "__init__")
                gs += [i] if i is not None else []
        return any(self.can(g) for g in gs)

    # ------------------------------------------------------------ how it is left
    def always(self, f):
        """Does every call of the function end in an ACT-R error?"""
        if f.qual not in self.exits_memo:
            self.exits_memo[f.qual] = set()
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)) or isinstance(f.node, ast.Lambda):
                self.exits_memo[f.qual] = {FALL}
            else:
                self.exits_memo[f.qual] = self.block(f, f.node.body, None)
        return self.exits_memo[f.qual] == {GOOD}

    def block(self, f, stmts, caught):
        out = {FALL}
        for s in stmts:
            if FALL not in out:
                break
            out = out - {FALL} | self.stmt(f, s, caught)
        return out

    def stmt(self, f, s, caught):
        if isinstance(s, ast.Return):
            return {RETURN}
        if isinstance(s, ast.Break):
            return {BREAK}
        if isinstance(s, ast.Continue):
            return {CONTINUE}
        if isinstance(s, ast.Raise):
            if s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id == caught:
                return {GOOD}
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(x, ast.Attribute) and x.attr == "with_traceback" and isinstance(x.value, ast.Name) and x.value.id == caught:
                return {GOOD}
            if isinstance(x, ast.Call) and isinstance(s.exc, ast.Call):
                x = x.func
            cs = self.cls(f, x)
            if cs is not None and cs and all(self.is_error(c) for c in cs):
                return {GOOD}
            g = self.callee(f, s.exc) if isinstance(s.exc, ast.Call) else None
            if g is not None and self.makes(g):
                return {GOOD}
            return {OTHER}
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            g = self.callee(f, s.value)
            return {GOOD} if g is not None and self.always(g) else {FALL}
        if isinstance(s, ast.If):
            w = self.known(f, s.test, caught)
            out = set()
            if w is not False:
                out |= self.block(f, s.body, caught)
            if w is not True:
                out |= self.block(f, s.orelse, caught)
            return out
        if isinstance(s, (ast.For, ast.While)):
            b = self.block(f, s.body, caught)
            always = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            out = b - {FALL, BREAK, CONTINUE}
            if BREAK in b or not always:
                out |= {FALL} if BREAK in b or not s.orelse else self.block(f, s.orelse, caught)
            return out
        if isinstance(s, ast.With):
            return self.block(f, s.body, caught)
        if isinstance(s, ast.Try):
            out = self.block(f, s.body, caught)
            if FALL in out and s.orelse:
                out = out - {FALL} | self.block(f, s.orelse, caught)
            for h in s.handlers:
                if self.catches(f, h):
                    out.discard(GOOD)
                out |= self.block(f, h.body, h.name)
            if s.finalbody:
                e = self.block(f, s.finalbody, None)
                out = e if FALL not in e else out | (e - {FALL})
            return out
        if isinstance(s, ast.Match):
            out = {FALL}
            for c in s.cases:
                out |= self.block(f, c.body, caught)
            return out
        return {FALL}

    def makes(self, g):
        """Does a function return nothing but ACT-R errors?"""
        rs = [n for n in ast.walk(g.node) if isinstance(n, ast.Return)]
        ok = bool(rs)
        for r in rs:
            x = r.value.func if isinstance(r.value, ast.Call) else r.value
            cs = self.cls(g, x) if x is not None else None
            ok = ok and cs is not None and bool(cs) and all(self.is_error(c) for c in cs)
        return ok

    def callee(self, f, call):
        """The function called, if there is only one it can be."""
        if isinstance(call.func, ast.Name):
            for g in self.by_name.get(call.func.id, ()):
                if g.parent is not None and (g.parent == f.qual or f.qual.startswith(g.parent)):
                    return g
            try:
                return self.prog.funcs.get(self.prog.resolve_dotted(f.module, call.func.id)) or f.module.funcs.get(call.func.id)
            except Exception:
                return None
        if isinstance(call.func, ast.Attribute):
            gs = self.by_name.get(call.func.attr, ())
            return gs[0] if len(gs) == 1 else None
        return None

    def known(self, f, test, caught):
        """Value of a test of the caught error, when it is an ACT-R error."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            v = self.known(f, test.operand, caught)
            return None if v is None else not v
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name) and test.args[0].id == caught:
            cs = self.cls(f, test.args[1])
            if cs is not None:
                return any(c in ("Exception", "BaseException", ERROR) or self.prog.is_subclass_name(ERROR, c) for c in cs)
        return None
