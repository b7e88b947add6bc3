"""Expressions: ev(expr, state, frame) -> [(state, value or Raised)]."""
import ast

from . import terms as tm
from .terms import mk, const, NONE, TRUE, FALSE
from .state import Raised, Limit, merge_pairs
from .core import Fr
from . import libs

NUMOPS = {ast.Add: tm.add, ast.Sub: tm.sub, ast.Mult: tm.mul, ast.Div: tm.div, ast.Pow: tm.power}
CMP = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}


BOOLEAN = ("eq", "pos", "in", "isinst", "not", "eq0", "hasattr", "atom", "and", "or", "truth")

PLAIN = {"list", "tuple", "comp", "concat", "app", "sorted", "reversed", "range"}


def keys_only(x, node):
    """What is compared: only the keys, where that is what is asked for."""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "keys" and not node.args and x.op not in ("tuple", "list"):
        return mk("setof", x)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "items" and x.op == "mcall" and x.args[1] == "items":
        return x.args[0]
    return x


ORDERED_SETS = {"set", "setof", "sadd", "union", "setdiff", "intersect"}


class Exprs:
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Limit(f"expression {type(e).__name__} at {self.loc(fr, e)}")
        return m(e, st, fr)

    def evs(self, es, st, fr):
        """[(state, [values] or Raised)]"""
        cur = [(st, [])]
        for e in es:
            if isinstance(e, ast.Starred):
                cur = self.bind(cur, lambda s, vs, e=e: [
                    (s2, v if isinstance(v, Raised) else vs + self.spread(s2, v))
                    for s2, v in self.ev(e.value, s, fr)])
            else:
                cur = self.bind(cur, lambda s, vs, e=e: [
                    (s2, v if isinstance(v, Raised) else vs + [v]) for s2, v in self.ev(e, s, fr)])
        return cur

    def spread(self, st, v):
        c = self.content(st, v)
        if c.op in ("tuple", "list"):
            return list(c.args)
        if c.op == "ntv":
            return list(c.args[2])
        return [mk("star", v)]

    # ------------------------------------------------------------ leaves
    def ev_Constant(self, e, st, fr):
        return [(st, const(e.value))]

    def ev_Name(self, e, st, fr):
        return self.lookup(st, fr, self.mangle(e.id, fr) if e.id.startswith("__") and not e.id.endswith("__") else e.id, e)

    def ev_JoinedStr(self, e, st, fr):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]

        def done(s, vs):
            out = []
            for v, n in zip(vs, e.values):
                if isinstance(n, ast.FormattedValue) and (n.format_spec is not None or n.conversion not in (-1, 115)):
                    out.append(mk("strof", mk("formatted", self.snap(s, v))))
                else:
                    out.append(tm.strof(self.snap(s, v)))
            return [(s, tm.cat(out))]
        return self.bind(self.evs(parts, st, fr), done)

    def ev_FormattedValue(self, e, st, fr):
        return self.bind(self.ev(e.value, st, fr), lambda s, v: [(s, tm.strof(self.snap(s, v)))])

    def ev_Tuple(self, e, st, fr):
        return self.bind(self.evs(e.elts, st, fr), lambda s, vs: [(s, self.mkseq(s, "tuple", vs))])

    def mkseq(self, st, kind, vs):
        if any(v.op == "star" for v in vs):
            parts, cur = [], []
            for v in vs:
                if v.op == "star":
                    if cur:
                        parts.append(mk(kind, *cur))
                        cur = []
                    parts.append(v.args[0])
                else:
                    cur.append(v)
            if cur:
                parts.append(mk(kind, *cur))
            return mk("seq", kind, parts[0]) if len(parts) == 1 else mk("concat", *parts)
        return mk(kind, *vs)

    def ev_List(self, e, st, fr):
        return self.bind(self.evs(e.elts, st, fr),
                         lambda s, vs: [(s, self.new_ref(s, e, fr, "list", self.mkseq(s, "list", vs)))])

    def ev_Set(self, e, st, fr):
        def done(s, vs):
            c = self.mkseq(s, "set", vs)
            if c.op == "set":
                c = mk("set", *sorted(set(c.args)))
            return [(s, self.new_ref(s, e, fr, "set", c))]
        return self.bind(self.evs(e.elts, st, fr), done)

    def ev_Dict(self, e, st, fr):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)

        def done(s, vs):
            cur, i = mk("dict"), 0
            for k in e.keys:
                if k is None:
                    cur = self.dict_update(s, cur, self.content(s, vs[i]))
                    i += 1
                else:
                    cur = self.dict_set(s, cur, vs[i], vs[i + 1])
                    i += 2
            return [(s, self.new_ref(s, e, fr, "dict", cur))]
        return self.bind(self.evs(exprs, st, fr), done)

    def dict_set(self, st, c, k, v):
        k = self.snap(st, k)
        if c.op == "dict":
            items = list(c.args)
            for i, (kk, vv) in enumerate(items):
                d = st.facts.decide(tm.eq(kk, k))
                if d is True:
                    items[i] = (kk, v)
                    return mk("dict", *items)
                if d is None:
                    return mk("upd", c, k, v)
            return mk("dict", *(items + [(k, v)]))
        return tm.upd(c, k, v)

    def dict_update(self, st, c, d):
        if d.op == "dict":
            for k, v in d.args:
                c = self.dict_set(st, c, k, v)
            return c
        if d.op == "ref" and d in st.cont:
            return self.dict_update(st, c, self.inner(st, d))
        if c.op == "dict" and not c.args:
            return d
        return mk("merged", c, d)

    # ------------------------------------------------------------ attributes and items
    def ev_Attribute(self, e, st, fr):
        name = self.mangle(e.attr, fr)
        return self.bind(self.ev(e.value, st, fr), lambda s, v: self.load_attr(s, v, name, e, fr))

    def ev_Subscript(self, e, st, fr):
        return self.bind(self.evs([e.value, e.slice], st, fr),
                         lambda s, vs: self.load_item(s, vs[0], vs[1], e, fr))

    def ev_Slice(self, e, st, fr):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return self.bind(self.evs(parts, st, fr), lambda s, vs: [(s, mk("slice", *vs))])

    def load_item(self, st, x, k, node, fr):
        ty = self.type_of(x)
        if ty and not ty.startswith("nt:"):
            f = self.prog.find_method(ty, "__getitem__")
            if f is not None:
                return self.call_func(f, [k], [], st, node, selft=x, fr=fr)
        c = self.content(st, x)
        k = self.snap(st, k)
        return self.item_of(st, c, k, node, fr, x)

    def item_of(self, st, c, k, node, fr, x=None):
        if c.op == "seq" and c.args[0] in ("list", "tuple"):
            return self.item_of(st, self.inner(st, c.args[1]), k, node, fr, x)
        if c.op in ("tuple", "list", "ntv"):
            elts = c.args[2] if c.op == "ntv" else c.args
            if k.op == "num" and k.args[0].denominator == 1:
                i = int(k.args[0])
                if -len(elts) <= i < len(elts):
                    return [(st, elts[i])]
                return [(st, Raised(mk("excv", "IndexError")))]
            if k.op == "slice" and all(a is NONE or a.op == "num" for a in k.args):
                sl = slice(*[None if a is NONE else int(a.args[0]) for a in k.args])
                r = mk("tuple" if c.op == "ntv" else c.op, *elts[sl])
                return [(st, r if r.op == "tuple" else self.new_ref(st, node, fr, "list", r))]
        if c.op == "dict":
            cur, out = st, []
            for kk, vv in c.args:
                t = tm.eq(kk, k)
                d = cur.facts.decide(t)
                if d is True:
                    return out + [(cur, vv)]
                if d is False:
                    continue
                f1 = cur.facts.assume(t, True)
                f2 = cur.facts.assume(t, False)
                if f1 is not None:
                    out.append((cur.with_facts(f1), vv))
                if f2 is None:
                    return out
                cur = cur.with_facts(f2)
            out.append((cur, Raised(mk("excv", "KeyError", k))))
            return out
        if c.op == "upd":
            t = tm.eq(c.args[1], k)
            out = []
            for s, b in self.branch(st, t):
                if b:
                    out.append((s, c.args[2]))
                else:
                    out.extend(self.item_of(s, self.inner(s, c.args[0]), k, node, fr, x))
            return out
        if c.op in ("s", "cat"):
            r = self.str_item(c, k)
            if r is not None:
                return [(st, r)]
        if c.op == "item" and c.args[1].op == "slice" and k.op == "num" and k.args[0] >= 0:     # an item of the rest of a sequence
            lo, hi, by = c.args[1].args
            if hi is NONE and by is NONE and lo.op == "num" and lo.args[0] >= 0:
                return self.item_of(st, self.inner(st, c.args[0]), tm.num(lo.args[0] + k.args[0]), node, fr, x)
        if c.op == "app" and k.op == "num" and k.args[0] == -1:
            return [(st, c.args[1])]
        if k.op == "pos" and tm.contains(k, c):       # boolean mask over an array
            cond = tm.subst(k, {c: BV})
            return [(st, mk("comp", c, (((cond,), BV),)))]
        if k.op == "not" and k.args[0].op == "pos" and tm.contains(k, c):
            cond = tm.subst(k, {c: BV})
            return [(st, mk("comp", c, (((cond,), BV),)))]
        if k.op == "idx" and k.args[0] is c:
            return [(st, mk("elem", c, k.args[1]))]
        val = self.elem_item(st, c, k)
        if val is not None:
            return [(st, val)]
        val = mk("item", c, k)
        if k.op == "elem" and k.args[0].op == "range" and len(k.args[0].args) == 2:
            lo, hi = k.args[0].args         # a position of that sequence
            if lo.op == "num" and lo.args[0] >= 0 and hi is mk("len", c):
                return [(st, val)]
        if k.op == "num":
            for b, p in st.facts.lits.items():
                if p and b.op == "eq" and c in b.args:
                    o = b.args[0] if b.args[1] is c else b.args[1]
                    r = self.str_item(o, k) if o.op == "s" else None
                    if r is not None:
                        return [(st, r)]
        out = []
        if k.op != "slice" and self.catches("KeyError") and not (k.op == "num"):
            res = []
            for s, b in self.branch(st, self.in_term(st, k, c)):
                if b:
                    res.append(s)
                else:
                    out.append((s, Raised(mk("excv", "KeyError", k))))
            if not res:
                return out
            st = res[0]
        base = c
        while base.op in ("sorted", "reversed", "seq"):
            base = self.inner(st, base.args[1] if base.op == "seq" else base.args[0])
        if base is not c and base.op in ("set", "list", "tuple") and len(base.args) == 1 and k.op == "num" and k.args[0] in (0, -1):
            return out + [(st, base.args[0])]
        if k.op in ("num",) and self.catches("IndexError"):
            i = int(k.args[0])
            need = i + 1 if i >= 0 else -i
            t = tm.negate(tm.lt(mk("len", c), tm.num(need)))
            if base.op in ("set", "list", "tuple") and need == 1:
                t = tm.boolean(bool(base.args))
            elif base is not c and need == 1:
                t = self.truth_content(st, base)
            res = []
            for s, b in self.branch(st, t):
                if b:
                    res.append(s)
                else:
                    out.append((s, Raised(mk("excv", "IndexError"))))
            if not res:
                return out
            st = res[0]
        elif k.op == "num" and c.op == "elem":        # it is there: what it is taken from is not empty
            f2 = st.facts.assume(tm.truth(c))
            if f2 is None:
                return out + [(st, Raised(mk("excv", "IndexError")))]
            st = st.with_facts(f2)
        # what is indexed by a name is taken to be a mapping
        exs = [x_ for x_ in ("TypeError",) if self.catches(x_) and k.op != "s"]
        if k.op == "num" and self.catches("KeyError"):
            exs.append("KeyError")
        if exs:
            r, s2 = self.fork_raise(st, val, exs)
            out.extend(r)
            if s2 is None:
                return out
            st = s2
        out.append((st, val))
        return out

    def elem_item(self, st, c, k):
        """Items of a collection built over another one, at that one's element."""
        if c.op == "dictcomp" and k.op in ("elem",):
            coll, cases = c.args
            if k.args[0] is tm.base_of(coll) and len(cases) == 1 and not cases[0][0] and cases[0][1].op == "tuple" and cases[0][1].args[0] is BV:
                return tm.instantiate(cases[0][1].args[1], k)
        return None

    def str_item(self, c, k):
        parts = list(c.args) if c.op == "cat" else [c]
        if k.op == "num" and k.args[0] == 0 and parts[0].op == "s":
            return mk("s", parts[0].args[0][0])
        if k.op == "num" and k.args[0] == -1 and parts[-1].op == "s":
            return mk("s", parts[-1].args[0][-1])
        if c.op == "s" and k.op == "num":
            i = int(k.args[0])
            if -len(c.args[0]) <= i < len(c.args[0]):
                return mk("s", c.args[0][i])
        if k.op == "slice" and k.args[2] is NONE:
            lo, hi = k.args[0], k.args[1]
            n = 0 if lo is NONE else (int(lo.args[0]) if lo.op == "num" else None)
            m = 0 if hi is NONE else (int(hi.args[0]) if hi.op == "num" else None)
            if n is None or m is None:
                return None
            if c.op == "s":
                return mk("s", c.args[0][n:(None if hi is NONE else m)])
            if n >= 0 and hi is NONE and parts[0].op == "s" and len(parts[0].args[0]) >= n:
                p = [mk("s", parts[0].args[0][n:])] + parts[1:]
                if len([q for q in p if not (q.op == "s" and q.args[0] == "")]) == 1:
                    q = [q for q in p if not (q.op == "s" and q.args[0] == "")][0]
                    return q.args[0] if q.op == "strof" else q
                return tm.cat(p)
            if lo is NONE and m < 0 and parts[-1].op == "s" and len(parts[-1].args[0]) >= -m:
                p = parts[:-1] + [mk("s", parts[-1].args[0][:m])]
                p = [q for q in p if not (q.op == "s" and q.args[0] == "")]
                if len(p) == 1:
                    return p[0].args[0] if p[0].op == "strof" else p[0]
                return tm.cat(p)
        return None

    # ------------------------------------------------------------ operators
    def ev_BinOp(self, e, st, fr):
        def go(s, vs):
            if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd)):
                a, b = (self.snap(s, v) for v in vs)
                ka, kb = keys_only(a, e.left), keys_only(b, e.right)
                if ka.op == "setof" and ka is not a or kb.op == "setof" and kb is not b:
                    n = mk("setdiff", a, b) if isinstance(e.op, ast.Sub) else tm.union(a, b) if isinstance(e.op, ast.BitOr) \
                        else mk("intersect", *sorted([a, b]))
                    return [(s, self.new_ref(s, e, fr, "set", n))]
            return self.binop(s, type(e.op), vs[0], vs[1], e, fr)
        return self.bind(self.evs([e.left, e.right], st, fr), go)

    def binop(self, st, op, a, b, node, fr):
        ty = self.type_of(a)
        dn = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__"}.get(op)
        if ty and dn:
            f = self.prog.find_method(ty, dn)
            if f is not None:
                return self.call_func(f, [b], [], st, node, selft=a, fr=fr)
        ca, cb = self.content(st, a), self.content(st, b)
        if op is ast.Add:
            if tm.is_str(ca) or tm.is_str(cb):
                return [(st, tm.cat([ca if tm.is_str(ca) else tm.strof(ca), cb if tm.is_str(cb) else tm.strof(cb)]))]
            if self.is_seq(ca) or self.is_seq(cb):
                if ca.op in ("list", "tuple") and cb.op == ca.op:
                    c = mk(ca.op, *(ca.args + cb.args))
                else:
                    c = mk("concat", a, b)
                return [(st, c if c.op == "tuple" else self.new_ref(st, node, fr, "list", c))]
        if op is ast.Mult and (ca.op in ("list",) or cb.op in ("list",)):
            return [(st, self.new_ref(st, node, fr, "list", mk("repeat", ca, cb)))]
        if op is ast.Mod and tm.is_str(ca):
            return [(st, self.percent(st, ca, cb))]
        sa, sb = self.snap(st, a), self.snap(st, b)
        if op in NUMOPS:
            if op is ast.Sub and (ca.op in ("set", "comp", "sadd") or (a.op == "ref" and a.args[1] == "set")):
                return [(st, self.new_ref(st, node, fr, "set", mk("setdiff", sa, sb)))]
            if op is ast.Div and self.catches("ZeroDivisionError"):
                out = []
                for s, z in self.branch(st, tm.eq(sb, tm.ZERO)):
                    out.append((s, Raised(mk("excv", "ZeroDivisionError")) if z else tm.div(sa, sb)))
                return out
            v = NUMOPS[op](sa, sb)
            if op is ast.Pow:
                r, s2 = self.fork_raise(st, v, [x for x in ("RuntimeWarning",) if self.catches(x)])
                return r + ([(s2, v)] if s2 is not None else [])
            ex = [x for x in ("TypeError",) if self.catches(x) and not (tm.is_numeric(sa) and tm.is_numeric(sb))]
            if ex:
                r, s2 = self.fork_raise(st, v, ex)
                return r + ([(s2, v)] if s2 is not None else [])
            return [(st, v)]
        if op is ast.BitOr:
            return [(st, self.new_ref(st, node, fr, "set", tm.union(sa, sb)))]
        if op is ast.BitAnd:
            return [(st, self.new_ref(st, node, fr, "set", mk("intersect", *sorted([sa, sb]))))]
        nm = {ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitXor: "xor"}.get(op, op.__name__)
        return [(st, mk(nm, sa, sb))]

    def is_seq(self, c):
        return c.op in ("list", "tuple", "app", "concat", "seq", "repeat") or (c.op == "ref" and c.args[1] == "list") \
            or c.op == "comp"

    def percent(self, st, f, x):
        args = list(x.args) if x.op == "tuple" else [x]
        if f.op == "s":
            bits = f.args[0].split("%s")
            if len(bits) == len(args) + 1 and "%" not in "".join(bits):
                out = [mk("s", bits[0])]
                for a, b in zip(args, bits[1:]):
                    out += [tm.strof(self.snap(st, a)), mk("s", b)]
                return tm.cat(out)
        return mk("strof", mk("fmt", f, self.snap(st, x)))

    def ev_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return self.bind(self.ev(e.operand, st, fr), lambda s, v: [(s, tm.negate(self.truth_of(s, v)))])
        if isinstance(e.op, ast.USub):
            return self.bind(self.ev(e.operand, st, fr), lambda s, v: [(s, tm.neg(self.snap(s, v)))])
        if isinstance(e.op, ast.UAdd):
            return self.ev(e.operand, st, fr)
        return self.bind(self.ev(e.operand, st, fr), lambda s, v: [(s, mk("invert", self.snap(s, v)))])

    def ev_BoolOp(self, e, st, fr):
        is_or = isinstance(e.op, ast.Or)

        def go(s, i):
            if i == len(e.values) - 1:
                return self.ev(e.values[i], s, fr)

            def step(s2, v):
                out = []
                for s3, b in self.branch(s2, v):
                    if b is is_or:
                        out.append((s3, v if not self.boolish(v) else tm.boolean(b)))
                    else:
                        out.extend(go(s3, i + 1))
                return out
            return self.bind(self.ev(e.values[i], s, fr), step)
        return merge_pairs(go(st, 0))

    def boolish(self, v):
        return v.op in ("eq", "pos", "in", "isinst", "truth", "not", "eq0", "hasattr", "atom", "and", "or") or v in (TRUE, FALSE)

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, b in self.cond(e.test, st, fr):
            if isinstance(b, Raised):
                out.append((s, b))
            else:
                out.extend(self.ev(e.body if b else e.orelse, s, fr))
        return merge_pairs(out)

    def cond(self, e, st, fr):
        """[(state, True/False/Raised)] for a condition."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Raised) else not b) for s, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            is_or = isinstance(e.op, ast.Or)
            done, cur = [], [st]
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s, fr):
                        if isinstance(b, Raised) or b is is_or:
                            done.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            done += [(s, not is_or) for s in cur]
            return merge_pairs(done)
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.branch(s, v))
        return merge_pairs(out)

    def ev_Compare(self, e, st, fr):
        vals = [e.left] + e.comparators
        if len(e.ops) == 1:
            return self.bind(self.evs(vals, st, fr), lambda s, vs: self.compare(s, e.ops[0], vs[0], vs[1], e, fr))

        def go(s, vs):
            cur = [(s, TRUE)]
            for i, op in enumerate(e.ops):
                nxt = []
                for s2, acc in cur:
                    if isinstance(acc, Raised):
                        nxt.append((s2, acc))
                        continue
                    for s3, r in self.compare(s2, op, vs[i], vs[i + 1], e, fr):
                        nxt.append((s3, r if isinstance(r, Raised) else self.t_and([acc, self.truth_of(s3, r)])))
                cur = nxt
            return cur
        return self.bind(self.evs(vals, st, fr), go)

    def alike(self, st, t):
        """Of a kind of things of which several can be equal: whether it is the same one says more."""
        if t.op in ("c", "cls", "ref", "bi") or t is NONE or t in (TRUE, FALSE):
            return False
        if tm.is_str(t) or t.op in ("num", "poly", "tuple"):
            return True
        ty = self.type_of(t)
        return ty is not None and (ty.startswith("nt:") or ty == "chunks.Chunk")

    def compare(self, st, op, a, b, node, fr):
        if self.cfg.solid is not None and isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            if a is NONE and self.cfg.solid(b) or b is NONE and self.cfg.solid(a):
                return [(st, FALSE if isinstance(op, (ast.Eq, ast.Is)) else TRUE)]
        if isinstance(op, (ast.Is, ast.IsNot)) and self.alike(st, a) and self.alike(st, b):
            x, y = sorted((self.snap(st, a), self.snap(st, b)), key=lambda t: t.uid)
            t = TRUE if x is y and x.op == "s" else mk("atom", "is", x, y)
            return [(st, t if isinstance(op, ast.Is) else tm.negate(t))]
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.equal(st, a, b, node, fr)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return [(s, v if isinstance(v, Raised) else tm.negate(self.truth_of(s, v)))
                    for s, v in self.equal(st, a, b, node, fr)]
        if isinstance(op, (ast.In, ast.NotIn)):
            ty = self.type_of(b)
            if ty and not ty.startswith("nt:"):
                f = self.prog.find_method(ty, "__contains__")
                if f is not None:
                    r = self.call_func(f, [a], [], st, node, selft=b, fr=fr)
                else:
                    r = [(st, self.in_term(st, a, b))]
            else:
                c = self.content(st, b)
                if c.op == "genobj":
                    r = self.bind(self.as_content(st, b, node, fr), lambda s, c: [(s, self.in_term(s, a, c))])
                else:
                    r = [(st, self.in_term(st, a, b))]
            if isinstance(op, ast.NotIn):
                r = [(s, v if isinstance(v, Raised) else tm.negate(self.truth_of(s, v))) for s, v in r]
            return r
        ty = self.type_of(a)
        dn = CMP[type(op)]
        if ty and not ty.startswith("nt:"):
            f = self.prog.find_method(ty, dn)
            if f is not None:
                return self.call_func(f, [b], [], st, node, selft=a, fr=fr)
        ty = self.type_of(b)
        if ty and not ty.startswith("nt:"):
            rn = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}[dn]
            f = self.prog.find_method(ty, rn)
            if f is not None:
                return self.call_func(f, [a], [], st, node, selft=b, fr=fr)
        sa, sb = self.snap(st, a), self.snap(st, b)
        ka, kb = sa, sb
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            ka, kb = keys_only(sa, node.left), keys_only(sb, node.comparators[0])
        if sa.op in ORDERED_SETS or sb.op in ORDERED_SETS or ka is not sa or kb is not sb:
            if dn in ("__gt__", "__ge__"):
                sa, sb = sb, sa
            return [(st, tm.subset("Lt" if dn in ("__lt__", "__gt__") else "LtE", sa, sb))]
        may = [] if tm.is_numeric(sa) and tm.is_numeric(sb) else ["TypeError"]
        for x, y in ((sa, sb), (sb, sa)):
            # what is ordered with a number is a number or None
            if may and tm.is_numeric(x):
                none = st.facts.decide(tm.eq(y, NONE))
                if none is True and self.catches("TypeError"):
                    return [(st, Raised(mk("excv", "TypeError")))]
                if none is False:
                    may = []
        r, s2 = self.fork_raise(st, mk("cmp", dn, sa, sb), may)
        if s2 is None:
            return r
        v = {"__lt__": tm.lt, "__gt__": lambda x, y: tm.lt(y, x), "__le__": tm.le,
             "__ge__": lambda x, y: tm.le(y, x)}[dn](sa, sb)
        return r + [(s2, v)]

    def equal(self, st, a, b, node, fr):
        if a.op == "ref" and b.op == "ref" and a is b:
            return [(st, TRUE)]
        for x, y in ((a, b), (b, a)):
            if x.op == "ref" and y is NONE:
                return [(st, FALSE)]
            # cardinality of an emptiness comparison: d == {} is falsity of d
            if x.op == "ref" and x.args[1] in ("list", "dict", "set") and y.op != "ref":
                c = self.content(st, x)
                if c.op in ("list", "dict", "set") and not c.args:
                    return [(st, tm.negate(self.truth_of(st, y)) if y.op not in ("c", "s", "num") else FALSE)]
        x, y = self.snap(st, a), self.snap(st, b)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            x, y = keys_only(x, node.left), keys_only(y, node.comparators[0])
        if x.op == "seq" and y.op == "seq":        # the elements in order, not what else their sources are
            if not (x.args[1].op in PLAIN and y.args[1].op in PLAIN):
                x, y = (mk("inorder", z.args[1]) for z in (x, y))
        if x.op in BOOLEAN and y.op in BOOLEAN and x is not y:
            return [(st, self.t_or([self.t_and([x, y]), self.t_and([tm.negate(x), tm.negate(y)])]))]
        return [(st, tm.eq(x, y))]

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def ev_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def ev_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "gen")

    def ev_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    def comp(self, e, st, fr, kind):
        """Comprehension: iterate as a loop that appends to a hidden list."""
        cfid = self.fid(fr, e, "<comp>", st)
        cf = Fr(cfid, fr.func, fr.module, fr.cls, parent=fr, selft=fr.selft)
        cf.sink = fr.sink
        st.frames[cfid] = {}
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    cf.locals.add(n.id)
        acc = self.new_ref(st, e, fr, "acc", mk("list"))

        def level(i, s):
            if i == len(e.generators):
                if kind == "dict":
                    r = self.evs([e.key, e.value], s, cf)
                    r = [(s2, v if isinstance(v, Raised) else mk("tuple", *v)) for s2, v in r]
                else:
                    r = self.ev(e.elt, s, cf)
                out = []
                for s2, v in r:
                    if isinstance(v, Raised):
                        out.append(("raise", s2, v))
                    else:
                        s2.cont[acc] = self.list_app(s2.cont[acc], v)
                        out.append(("next", s2, None))
                return out
            g = e.generators[i]
            out = []
            for s2, c in self.ev(g.iter, s, fr if i == 0 else cf):
                if isinstance(c, Raised):
                    out.append(("raise", s2, c))
                    continue

                def body(s3):
                    cur = [(s3, True)]
                    for cnd in g.ifs:
                        cur = [y for s4, b in cur for y in
                               ([(s4, b)] if (isinstance(b, Raised) or b is False) else self.cond(cnd, s4, cf))]
                    res = []
                    for s4, b in cur:
                        if isinstance(b, Raised):
                            res.append(("raise", s4, b))
                        elif b:
                            res.extend(level(i + 1, s4))
                        else:
                            res.append(("next", s4, None))
                    return res
                out.extend(self.iterate(g.iter, c, s2, cf, g.target, body))
            return out
        res = []
        for k, s, v in level(0, st):
            s.frames.pop(cfid, None)
            c = s.cont.pop(acc, mk("list"))
            if k == "raise":
                res.append((s, v))
                continue
            res.append((s, self.comp_result(s, c, kind, e, fr)))
        return merge_pairs(res)

    def comp_result(self, s, c, kind, e, fr):
        if kind == "dict":
            if c.op == "list" and all(x.op == "tuple" for x in c.args):
                d = mk("dict")
                for x in c.args:
                    d = self.dict_set(s, d, x.args[0], x.args[1])
            elif c.op == "comp":
                d = mk("dictcomp", *c.args)
            else:
                d = mk("dictof", c)
            return self.new_ref(s, e, fr, "dict", d)
        if kind == "set":
            return self.new_ref(s, e, fr, "set", libs.converted(self, s, c, "set"))
        if kind == "gen":
            return c if c.op != "list" else mk("tuple", *c.args)
        return self.new_ref(s, e, fr, "list", c)

    def list_app(self, c, v):
        if c.op == "list":
            return mk("list", *(c.args + (v,)))
        return mk("app", c, v)

    def ev_Lambda(self, e, st, fr):
        return [(st, self.closure(e, st, fr))]

    def ev_NamedExpr(self, e, st, fr):
        def done(s, v):
            f = fr
            while e.target.id not in f.locals and f.parent is not None:
                f = f.parent
            s.frames.setdefault(f.fid, {})[e.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(e.value, st, fr), done)

    # ------------------------------------------------------------ generators
    def ev_Yield(self, e, st, fr):
        vals = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]

        def done(s, v):
            sink = self.sink_of(fr)
            if sink is not None:
                return sink(s, v)
            self.effect(s, "yield", (self.snap(s, v), v), fr, e)
            self.left(s)
            sent = mk("sent", s.count(("sent",)), tuple(self.loops_active))
            r, s2 = self.fork_raise(s, sent, ["Interrupt"])
            return r + ([(s2, sent)] if s2 is not None else [])
        return self.bind(vals, done)

    def sink_of(self, fr):
        while fr is not None:
            if fr.sink is not None:
                return fr.sink
            if fr.func is not None and fr.parent is not None and fr.parent.func is fr.func:
                fr = fr.parent
                continue
            return None
        return None

    def ev_YieldFrom(self, e, st, fr):
        def done(s, v):
            c = self.content(s, v)
            if c in self.gens:
                return self.run_gen(c, s, fr, e, self.sink_of(fr))
            sink = self.sink_of(fr)
            if sink is not None:
                if c.op in ("tuple", "list"):
                    cur = [(s, NONE)]
                    for x in c.args:
                        cur = self.bind(cur, lambda s2, _, x=x: sink(s2, x))
                    return self.bind(cur, lambda s2, _: [(s2, NONE)])
                out = []
                for k, s2, v2 in self.iterate(e, v, s, fr, None, lambda s3, el=None: [
                        ("raise", s4, r) if isinstance(r, Raised) else ("next", s4, None)
                        for s4, r in sink(s3, s3.frames[fr.fid]["<elem>"])]):
                    out.append((s2, v2 if k == "raise" else NONE))
                return out
            self.effect(s, "yieldfrom", (self.snap(s, v),), fr, e)
            self.left(s)
            f = self.prog.funcs.get(c.args[0].args[0]) if c.op == "call" and c.args[0].op == "fn" else None
            ex = [x for x in sorted(self.may_raise(f)) if self.catches(x)] if f is not None and f.is_gen else ()
            r, s = self.fork_raise(s, c, ex) if ex else ([], s)
            return r + ([(s, mk("yfret", self.snap(s, v)))] if s is not None else [])
        return self.bind(self.ev(e.value, st, fr), done)

    def ev_Await(self, e, st, fr):
        raise Limit("await")


BV = mk("bv", 0)
