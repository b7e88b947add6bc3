"""Statements: block(stmts, state, frame) -> [(kind, state, value)].

kind: next, return, raise, break, continue.
"""
import ast

from . import terms as tm
from .terms import mk, NONE, TRUE, FALSE
from .state import Raised, Limit, merge_pairs
from .core import scope_names


def merge_outs(outs):
    by = {}
    for k, s, v in outs:
        by.setdefault(k, []).append((s, v if v is not None else NONE))
    return [(k, s, v) for k, ps in by.items() for s, v in merge_pairs(ps)]


class Stmts:
    def block(self, stmts, st, fr):
        cur, out = [st], []
        for n in stmts:
            nxt = []
            for s in cur:
                self.tick()
                for k, y, v in self.stmt(n, s, fr):
                    if k == "next":
                        nxt.append((y, NONE))
                    else:
                        out.append((k, y, v))
            nxt = merge_pairs(nxt)
            if len(nxt) + len(out) > self.cfg.max_states:
                raise Limit(f"too many paths at {self.loc(fr, n)}")
            cur = [s for s, _ in nxt]
            if not cur:
                break
        return merge_outs(out + [("next", s, None) for s in cur])

    def stmt(self, n, st, fr):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Limit(f"statement {type(n).__name__} at {self.loc(fr, n)}")
        return m(n, st, fr)

    def lift(self, pairs, fn=None):
        """Outcomes from (state, value or Raised) pairs."""
        out = []
        for s, v in pairs:
            if isinstance(v, Raised):
                out.append(("raise", s, v))
            elif fn is None:
                out.append(("next", s, None))
            else:
                out.extend(fn(s, v))
        return out

    # ------------------------------------------------------------ simple statements
    def st_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [("next", st, None)]
        return self.lift(self.ev(n.value, st, fr))

    def st_Pass(self, n, st, fr):
        return [("next", st, None)]

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, n, st, fr):
        for al in n.names:
            nm = al.asname or al.name.split(".")[0]
            kind, obj = self.prog.resolve_import(al.name if al.asname else al.name.split(".")[0])
            self.set_name(st, fr, nm, self.imported(kind, obj))
        return [("next", st, None)]

    def st_ImportFrom(self, n, st, fr):
        base = n.module or ""
        if n.level:
            base = self.prog.package + ("." + base if base else "")
        for al in n.names:
            kind, obj = self.prog.resolve_import(base + "." + al.name)
            self.set_name(st, fr, al.asname or al.name, self.imported(kind, obj))
        return [("next", st, None)]

    def st_FunctionDef(self, n, st, fr):
        if n.decorator_list:
            raise Limit(f"decorated local function at {self.loc(fr, n)}")
        self.set_name(st, fr, n.name, self.closure(n, st, fr))
        return [("next", st, None)]

    def st_Return(self, n, st, fr):
        if n.value is None:
            return [("return", st, NONE)]
        return self.lift(self.ev(n.value, st, fr), lambda s, v: [("return", s, v)])

    def st_Break(self, n, st, fr):
        return [("break", st, None)]

    def st_Continue(self, n, st, fr):
        return [("continue", st, None)]

    def st_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raised):
                out.append(("raise", s, b))
            elif b:
                out.append(("next", s, None))
            else:
                out.append(("raise", s, Raised(mk("excv", "AssertionError"), self.loc(fr, n))))
        return out

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.frames.get(fr.fid, {}).get("<exc>")
            return [("raise", st, Raised(cur if cur is not None else mk("excv", "Exception"), self.loc(fr, n)))]

        def done(s, v):
            if v.op == "cls":
                v = mk("excv", v.args[0])
            elif v.op == "ext":
                v = mk("excv", v.args[0].split(".")[-1])
            elif v.op == "call" and v.args[0].op == "ext":
                v = mk("excv", v.args[0].args[0].split(".")[-1])
            elif v.op != "excv":
                v = mk("excv", "Exception", v)
            return [("raise", s, Raised(v, self.loc(fr, n)))]
        return self.lift(self.ev(n.exc, st, fr), done)

    # ------------------------------------------------------------ assignment
    def set_name(self, st, fr, name, val):
        f = fr
        if name in fr.globals_:
            st.attrs[(mk("mod", fr.module.name), name)] = val
            return
        if name not in f.locals:
            p = f.parent
            while p is not None and name not in p.locals:
                p = p.parent
            if p is not None:
                f = p
        st.frames.setdefault(f.fid, {})[name] = val

    def assign(self, t, val, st, fr, node):
        """[(state, NONE or Raised)]"""
        if isinstance(t, ast.Name):
            nm = self.mangle(t.id, fr)
            if nm in fr.globals_:
                st.attrs[(mk("mod", fr.module.name), nm)] = val
                self.effect(st, "store", (mk("mod", fr.module.name), nm, self.snap(st, val), val), fr, node)
            else:
                self.set_name(st, fr, nm, val)
            return [(st, NONE)]
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st, fr),
                             lambda s, o: self.store_attr(s, o, self.mangle(t.attr, fr), val, node, fr))
        if isinstance(t, ast.Subscript):
            return self.bind(self.evs([t.value, t.slice], st, fr),
                             lambda s, vs: self.store_item(s, vs[0], vs[1], val, node, fr))
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            n = len(t.elts)

            def go(s, c):
                els = list(c.args) if c.op in ("tuple", "list") else (list(c.args[2]) if c.op == "ntv" else None)
                cur = [(s, NONE)]
                if els is not None:
                    if star:
                        i = star[0]
                        k = len(els) - (n - 1)
                        if k < 0:
                            return [(s, Raised(mk("excv", "ValueError")))]
                        mid = self.new_ref(s, node, fr, "list", mk("list", *els[i:i + k]))
                        els = els[:i] + [mid] + els[i + k:]
                    elif len(els) != n:
                        return [(s, Raised(mk("excv", "ValueError")))]
                    for x, v in zip(t.elts, els):
                        x = x.value if isinstance(x, ast.Starred) else x
                        cur = self.bind(cur, lambda s2, _, x=x, v=v: self.assign(x, v, s2, fr, node))
                    return cur
                if star:
                    raise Limit("starred unpacking of an unknown value")
                r, s2 = self.fork_raise(s, mk("unpack", self.snap(s, c), tm.num(n)), ["ValueError", "TypeError"])
                cur = [(s2, NONE)] if s2 is not None else []
                for i, x in enumerate(t.elts):
                    def one(s3, _, x=x, i=i):
                        save, self.handlers = self.handlers, []
                        try:
                            vs = self.load_item(s3, c, tm.num(i), node, fr)
                        finally:
                            self.handlers = save
                        return self.bind(vs, lambda s4, v: self.assign(x, v, s4, fr, node))
                    cur = self.bind(cur, one)
                return r + cur
            return self.bind(self.as_content(st, val, node, fr), go)
        raise Limit(f"assignment target {type(t).__name__}")

    def store_item(self, st, x, k, val, node, fr):
        ty = self.type_of(x)
        if ty and not ty.startswith("nt:"):
            f = self.prog.find_method(ty, "__setitem__")
            if f is not None:
                return self.call_func(f, [k, val], [], st, node, selft=x, fr=fr)
        c = self.content(st, x)
        k = self.snap(st, k)
        if c.op == "list" and k.op == "num" and -len(c.args) <= int(k.args[0]) < len(c.args):
            l = list(c.args)
            l[int(k.args[0])] = val
            n = mk("list", *l)
        else:
            n = self.dict_set(st, c, k, val)
        st.cont[x] = n
        self.effect(st, "setitem", (x, k, self.snap(st, val), val), fr, node)
        return [(st, NONE)]

    def st_Assign(self, n, st, fr):
        def done(s, v):
            cur = [(s, NONE)]
            for t in n.targets:
                cur = self.bind(cur, lambda s2, _, t=t: self.assign(t, v, s2, fr, n))
            return self.lift(cur)
        return self.lift(self.ev(n.value, st, fr), done)

    def st_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [("next", st, None)]
        return self.lift(self.ev(n.value, st, fr), lambda s, v: self.lift(self.assign(n.target, v, s, fr, n)))

    def st_AugAssign(self, n, st, fr):
        load = ast.copy_location({
            ast.Name: lambda t: ast.Name(id=t.id, ctx=ast.Load()),
            ast.Attribute: lambda t: ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()),
            ast.Subscript: lambda t: ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())}[type(n.target)](n.target), n.target)

        def done(s, vs):
            a, b = vs
            ca = self.content(s, a)
            if isinstance(n.op, ast.Add) and (a.op == "ref" and a.args[1] == "list" or self.is_seq(ca) and ca.op != "tuple"):
                return self.lift(self.mcall(a, "extend", [b], [], s, n, fr))
            if isinstance(n.op, ast.BitOr) and (a.op == "ref" and a.args[1] in ("set", "dict")):
                return self.lift(self.mcall(a, "update", [b], [], s, n, fr))
            if isinstance(n.op, ast.Sub) and (a.op == "ref" and a.args[1] == "set"):
                return self.lift(self.mcall(a, "difference_update", [b], [], s, n, fr))
            return self.lift(self.binop(s, type(n.op), a, b, n, fr),
                             lambda s2, v: self.lift(self.assign(n.target, v, s2, fr, n)))
        return self.lift(self.evs([load, n.value], st, fr), done)

    def st_Delete(self, n, st, fr):
        cur = [(st, NONE)]
        for t in n.targets:
            def one(s, _, t=t):
                if isinstance(t, ast.Name):
                    s.frames[fr.fid].pop(t.id, None)
                    return [(s, NONE)]
                if isinstance(t, ast.Attribute):
                    def da(s2, o):
                        s2.attrs[(o, self.mangle(t.attr, fr))] = mk("deleted")
                        self.effect(s2, "store", (o, self.mangle(t.attr, fr), mk("deleted"), mk("deleted")), fr, n)
                        return [(s2, NONE)]
                    return self.bind(self.ev(t.value, s, fr), da)
                return self.bind(self.evs([t.value, t.slice], s, fr), lambda s2, vs: self.del_item(s2, vs[0], vs[1], n, fr))
            cur = self.bind(cur, one)
        return self.lift(cur)

    def del_item(self, st, x, k, node, fr):
        ty = self.type_of(x)
        if ty and not ty.startswith("nt:"):
            f = self.prog.find_method(ty, "__delitem__")
            if f is not None:
                return self.call_func(f, [k], [], st, node, selft=x, fr=fr)
        from .libs2 import _dict_without
        out = []
        if self.catches("KeyError"):
            for s, b in self.branch(st, self.in_term(st, k, x)):
                if b:
                    st = s
                else:
                    out.append((s, Raised(mk("excv", "KeyError"))))
            if out and out[0][0] is st:
                return out
        st.cont[x] = _dict_without(self, st, self.content(st, x), self.snap(st, k))
        self.effect(st, "delitem", (x, self.snap(st, k)), fr, node)
        return out + [(st, NONE)]

    # ------------------------------------------------------------ branching
    def st_If(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raised):
                out.append(("raise", s, b))
            else:
                out.extend(self.block(n.body if b else n.orelse, s, fr))
        return merge_outs(out)

    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            r = self.ev(e, st.fork(), fr)
            v = r[0][1]
            vs = list(v.args) if not isinstance(v, Raised) and v.op == "tuple" else [v]
            for v in vs:
                if isinstance(v, Raised):
                    out.append(ast.unparse(e).split(".")[-1])
                elif v.op == "cls":
                    out.append(v.args[0])
                elif v.op == "ext":
                    out.append(v.args[0].split(".")[-1])
                else:
                    out.append(ast.unparse(e).split(".")[-1])
        return out

    def st_Try(self, n, st, fr):
        names = [self.handler_names(h, st, fr) for h in n.handlers]
        alln = {x for ns in names for x in ns}
        self.handlers.append(alln)
        try:
            outs = self.block(n.body, st, fr)
        finally:
            self.handlers.pop()
        res = []
        for k, s, v in outs:
            if k == "raise":
                for h, ns in zip(n.handlers, names):
                    if any(self.exc_matches(v.cls, x) for x in ns):
                        old = s.frames.setdefault(fr.fid, {}).get("<exc>")
                        s.frames[fr.fid]["<exc>"] = v.exc
                        if h.name:
                            self.set_name(s, fr, h.name, v.exc)
                        for k2, s2, v2 in self.block(h.body, s, fr):
                            fm = s2.frames.get(fr.fid, {})
                            if old is None:
                                fm.pop("<exc>", None)
                            else:
                                fm["<exc>"] = old
                            if h.name:
                                fm.pop(h.name, None)
                            res.append((k2, s2, v2))
                        break
                else:
                    res.append((k, s, v))
            elif k == "next" and n.orelse:
                res.extend(self.block(n.orelse, s, fr))
            else:
                res.append((k, s, v))
        res = merge_outs(res)
        if n.finalbody:
            out = []
            for k, s, v in res:
                for k2, s2, v2 in self.block(n.finalbody, s, fr):
                    out.append((k, s2, v) if k2 == "next" else (k2, s2, v2))
            res = merge_outs(out)
        return res

    def exc_matches(self, exc, h):
        if exc == "$ctl":
            return False
        return h == "BaseException" or self.prog.is_subclass_name(exc, h) or self.prog.is_subclass_name(exc, h.split(".")[-1])

    def st_With(self, n, st, fr):
        cur = [(st, NONE)]
        for it in n.items:
            def one(s, _, it=it):
                def got(s2, v):
                    if it.optional_vars is None:
                        return [(s2, NONE)]
                    return self.assign(it.optional_vars, mk("entered", v), s2, fr, n)
                return self.bind(self.ev(it.context_expr, s, fr), got)
            cur = self.bind(cur, one)
        return self.lift(cur, lambda s, _: self.block(n.body, s, fr))

    # ------------------------------------------------------------ loops
    def st_For(self, n, st, fr):
        out = []
        for s, v in self.ev(n.iter, st, fr):
            if isinstance(v, Raised):
                out.append(("raise", s, v))
                continue
            for k, s2, v2 in self.iterate(n, v, s, fr, n.target, lambda s3: self.block(n.body, s3, fr)):
                if k == "break":
                    out.append(("next", s2, None))
                elif k == "next" and n.orelse:
                    out.extend(self.block(n.orelse, s2, fr))
                else:
                    out.append((k, s2, v2))
        return merge_outs(out)

    def st_While(self, n, st, fr):
        lid = (n.lineno, n.col_offset, fr.fid)
        if self.cfg.turns and any(self.turns):
            lid += tuple(f"turn {i}" for i in self.turns)

        def one(s):
            out = []
            for s2, b in self.cond(n.test, s, fr):
                if isinstance(b, Raised):
                    out.append(("raise", s2, b))
                elif b:
                    out.extend(self.block(n.body, s2, fr))
                else:
                    out.append(("exit", s2, None))
            return out
        out = []
        for k, s2, v2 in self.loop(lid, n, st, fr, one, mk("while", lid), None):
            if k == "break":
                out.append(("next", s2, None))
            elif k == "next" and n.orelse:
                out.extend(self.block(n.orelse, s2, fr))
            else:
                out.append((k, s2, v2))
        return merge_outs(out)

    def st_ClassDef(self, n, st, fr):
        self.set_name(st, fr, n.name, mk("localcls", n.name, n.lineno))
        return [("next", st, None)]
