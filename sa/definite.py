"""Definite assignment: reads of local names that some path reaches without an assignment.

A flow analysis over the syntax tree of one function; it does not correlate
conditions, so what it reports is a may-property.
"""
import ast

ALL = None      # "every name": the value for unreachable points


def meet(*vs):
    vs = [v for v in vs if v is not ALL]
    if not vs:
        return ALL
    out = vs[0]
    for v in vs[1:]:
        out = out & v
    return out


def true(n):
    return isinstance(n, ast.Constant) and bool(n.value)


def local_names(fn):
    """Names local to a function, and its parameters."""
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    out, outer = set(params), set()
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.extend(x for x in ast.walk(n) if isinstance(x, ast.NamedExpr))
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out - outer, params


class Flow:
    def __init__(self, fn):
        self.locals, params = local_names(fn)
        self.reads = {}             # id(node) -> (node, definitely assigned?)
        self.loops = []
        self.tries = []             # what may be assigned at a point inside the try bodies around
        self.returns = []
        end = self.block(fn.body, frozenset(params & self.locals))
        self.end = end

    # ---- expressions
    def read(self, n, a):
        old = self.reads.get(id(n))
        ok = a is ALL or n.id in a
        self.reads[id(n)] = (n, ok and (old is None or old[1]))

    def expr(self, e, a):
        if e is None:
            return a
        if isinstance(e, ast.Name):
            if e.id in self.locals and isinstance(e.ctx, ast.Load):
                self.read(e, a)
            return a
        if isinstance(e, ast.NamedExpr):
            a = self.expr(e.value, a)
            return self.bind(e.target, a)
        if isinstance(e, ast.Lambda):
            self.inner(e, a)
            return a
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return self.comp(e, a)
        if isinstance(e, ast.BoolOp):
            a = self.expr(e.values[0], a)
            b = a
            for v in e.values[1:]:
                b = self.expr(v, b)
            return a
        if isinstance(e, ast.IfExp):
            a = self.expr(e.test, a)
            return meet(self.expr(e.body, a), self.expr(e.orelse, a))
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.FormattedValue, ast.comprehension)):
                a = self.expr(c.value if isinstance(c, ast.keyword) else c, a)
        return a

    def comp(self, e, a):
        bound = set()
        for i, g in enumerate(e.generators):
            a0 = a if a is ALL else a | (bound & self.locals)
            self.expr(g.iter, a0)
            bound |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            a0 = a if a is ALL else a | (bound & self.locals)
            for c in g.ifs:
                self.expr(c, a0)
        a0 = a if a is ALL else a | (bound & self.locals)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            self.expr(x, a0)
        return a

    def inner(self, f, a):
        """Reads of our names in a nested function happen later; only its defaults happen here."""
        for d in f.args.defaults + [x for x in f.args.kw_defaults if x]:
            self.expr(d, a)

    # ---- statements
    def bind(self, t, a):
        if isinstance(t, ast.Name):
            if t.id in self.locals and a is not ALL:
                a = a | {t.id}
                self.moment(a)
            return a
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                a = self.bind(x, a)
            return a
        if isinstance(t, ast.Starred):
            return self.bind(t.value, a)
        return self.expr(t, a)

    def moment(self, a):
        for t in self.tries:
            t.append(a)

    def block(self, body, a):
        for s in body:
            a = self.stmt(s, a)
        return a

    def stmt(self, s, a):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return a
            a = self.expr(s.value, a)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                a = self.bind(t, a)
            return a
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals:
                    self.read(s.target, a)
            else:
                a = self.expr(s.target, a)
            a = self.expr(s.value, a)
            return self.bind(s.target, a) if isinstance(s.target, ast.Name) else a
        if isinstance(s, ast.If):
            a = self.expr(s.test, a)
            b = self.block(s.body, ALL if isinstance(s.test, ast.Constant) and not s.test.value else a)
            c = self.block(s.orelse, ALL if true(s.test) else a)
            return meet(b, c)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            a = self.expr(s.iter, a)
            self.loops.append([])
            self.block(s.body, self.bind(s.target, a))
            brk = self.loops.pop()
            out = self.block(s.orelse, a)
            return meet(out, *brk)
        if isinstance(s, ast.While):
            a = self.expr(s.test, a)
            self.loops.append([])
            self.block(s.body, a)
            brk = self.loops.pop()
            out = self.block(s.orelse, ALL if true(s.test) else a)
            return meet(out, *brk)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                a = self.expr(i.context_expr, a)
                if i.optional_vars is not None:
                    a = self.bind(i.optional_vars, a)
            return self.block(s.body, a)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            return self.try_(s, a)
        if isinstance(s, ast.Return):
            a = self.expr(s.value, a)
            return ALL
        if isinstance(s, ast.Raise):
            self.expr(s.exc, a)
            self.expr(s.cause, a)
            return ALL
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1].append(a)
            return ALL
        if isinstance(s, ast.Continue):
            return ALL
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d, a)
            self.inner(s, a)
            return a if a is ALL else a | ({s.name} & self.locals)
        if isinstance(s, ast.ClassDef):
            return a if a is ALL else a | ({s.name} & self.locals)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return a if a is ALL else a | ({(x.asname or x.name).split(".")[0] for x in s.names} & self.locals)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals:
                        self.read(t, a)
                    a = a if a is ALL else a - {t.id}
                else:
                    a = self.expr(t, a)
            self.moment(a)
            return a
        if isinstance(s, ast.Match):
            a = self.expr(s.subject, a)
            outs, total = [], False
            for c in s.cases:
                b = a
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name and b is not ALL:
                        b = b | {n.name}
                b = self.expr(c.guard, b)
                total = total or c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None
                outs.append(self.block(c.body, b))
            return meet(*outs, *([] if total else [a]))
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                a = self.expr(c, a)
        return a

    def try_(self, s, a):
        self.tries.append([a])
        body = self.block(s.body, a)
        inside = meet(*self.tries.pop())
        outs = [self.block(s.orelse, body)]
        for h in s.handlers:
            b = inside
            self.expr(h.type, b)
            if h.name and b is not ALL:
                b = b | {h.name}
            b = self.block(h.body, b)
            outs.append(b if b is ALL or not h.name else b - {h.name})
        out = meet(*outs)
        if s.finalbody:
            # the final part also runs when something was raised anywhere before
            self.block(s.finalbody, inside)
            out = self.block(s.finalbody, out)
        return out


def unassigned_reads(fn):
    """Name nodes whose reading may find no value."""
    if isinstance(fn, ast.Lambda):
        return []
    return [n for n, ok in Flow(fn).reads.values() if not ok]
