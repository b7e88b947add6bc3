"""Builtins, library functions and container methods."""
import ast

from . import terms as tm
from . import facts as fx
from .terms import mk, NONE, TRUE, FALSE
from .state import Raised, Limit, merge_pairs

BV0 = mk("bv", 0)
PURE_EXT = ("math.", "re.", "copy.", "collections.", "itertools.", "operator.", "functools.", "string.", "inspect.",
            "numpy.", "pyparsing.", "fractions.", "decimal.", "statistics.", "numbers.", "typing.", "textwrap.")
PURE_METHODS = {"keys", "values", "items", "get", "split", "rsplit", "strip", "lstrip", "rstrip", "upper", "lower",
                "replace", "startswith", "endswith", "join", "count", "index", "find", "format", "isdigit", "issubset",
                "issuperset", "isdisjoint", "difference", "union", "intersection", "symmetric_difference", "title", "encode",
                "casefold", "partition", "rpartition", "splitlines", "isnumeric", "isalpha", "isalnum", "swapcase",
                "capitalize", "zfill", "removeprefix", "removesuffix", "most_common", "elements", "tolist", "sum", "max",
                "min", "mean", "astype", "item", "group", "groups", "span", "hex", "is_integer", "peek", "group"}
MUTATORS = {"append", "add", "discard", "remove", "pop", "popleft", "clear", "update", "extend", "insert", "setdefault",
            "sort", "reverse", "appendleft", "popitem", "difference_update", "intersection_update", "extendleft",
            "subtract", "move_to_end", "rotate", "fill", "resize", "put"}


def _res(A, st, t, excs):
    ex = [x for x in excs if A.catches(x)]
    if not ex:
        return [(st, t)]
    r, s2 = A.fork_raise(st, t, ex)
    return r + ([(s2, t)] if s2 is not None else [])


def _iter_content(A, st, v, node, fr):
    return A.as_content(st, v, node, fr)


def summed(A, st, c):
    """Sum over a content term."""
    c = A.inner(st, c)
    while c.op == "seq":
        c = A.inner(st, c.args[1])
    if c.op in ("tuple", "list", "set"):
        t = tm.ZERO
        for x in c.args:
            t = tm.add(t, A.snap(st, x))
        return t
    if c.op == "comp":
        return sum_term(c.args[0], c.args[1])
    if c.op == "flat":
        return sum_term(c.args[0].args[0], tuple((cond, summed(A, st, x)) for cond, x in c.args[0].args[1]))
    if c.op == "concat":
        t = tm.ZERO
        for x in c.args:
            t = tm.add(t, summed(A, st, A.content(st, x)))
        return t
    if c.op == "app":
        return tm.add(summed(A, st, A.content(st, c.args[0])), A.snap(st, c.args[1]))
    c = A.snap(st, c)
    return sum_term(c, (((), BV0),))


def sum_term(coll, cases):
    """Sum with constant factors taken out; sums of sums stay nested."""
    total = None
    for cond, e in cases:
        for c, m in tm._pm_items(e):
            out, inn = tm.num(c), tm.ONE
            for a, x in m:
                p = tm.power(a, x)
                if any(y.op == "bv" and y.args[0] == 0 for y in tm.walk(p)):
                    inn = tm.mul(inn, p)
                else:
                    out = tm.mul(out, p)
            t = tm.mul(out, mk("sum", coll, ((cond, inn),)))
            total = t if total is None else tm.add(total, t)
    return total if total is not None else tm.ZERO


def arrays_in(A, t):
    out = []
    for x in tm.walk(t):
        if A.cfg.types.get(x) == "ndarray" or x.op in ("comp", "array"):
            out.append(x)
    return [x for x in out if not any(y is not x and tm.contains(y, x) for y in out)]


def vector_sum(A, st, v):
    c = A.content(st, v)
    c = A.snap(st, c)
    if c.op in ("tuple", "list", "comp", "concat", "app", "set", "flat"):
        return summed(A, st, c)
    arr = arrays_in(A, c)
    if len(arr) == 1:
        a = arr[0]
        if a.op == "comp":
            return sum_term(a.args[0], tuple((cond, tm.subst(tm.subst(c, {a: mk("hole")}), {mk("hole"): e})) for cond, e in a.args[1]))
        return sum_term(a, (((), tm.subst(c, {a: BV0})),))
    return mk("sum", c, (((), BV0),))


# ---------------------------------------------------------------- builtins
def builtin(A, name, args, kwargs, st, node, fr):
    f = globals().get("bi_" + name)
    if f is not None:
        return f(A, args, kwargs, st, node, fr)
    if name == "print" and not kwargs and not any(a.op == "star" for a in args):
        text = []
        for i, a in enumerate(A.snaps(st, args)):
            text += ([mk("s", " ")] if i else []) + [a if tm.is_str(a) else tm.strof(a)]
        A.effect(st, "call", (mk("bi", name), (tm.cat(text) if text else mk("s", ""),), (), NONE), fr, node)
        return [(st, NONE)]
    if name in ("print", "input", "open", "exec", "eval"):
        A.effect(st, "call", (mk("bi", name), A.snaps(st, args), (), NONE), fr, node)
        return [(st, NONE)]
    return A.opaque_call(mk("bi", name), args, kwargs, st, node, fr, pure=True)


def bi_len(A, args, kw, st, node, fr):
    v = args[0]
    ty = A.type_of(v)
    if ty and not ty.startswith("nt:"):
        f = A.prog.find_method(ty, "__len__")
        if f is not None:
            return A.call_func(f, [], [], st, node, selft=v, fr=fr)

    def done(s, c):
        return _res(A, s, length(A, s, c), ["TypeError"] if c.op in ("sym", "attr", "item", "call", "elem") and c not in getattr(A, "collections", ()) else [])
    return A.bind(A.as_content(st, v, node, fr), done)


def length(A, st, c):
    c = A.inner(st, c)
    while c.op == "seq":
        c = A.inner(st, c.args[1])
    if c.op in ("tuple", "list", "dict"):
        return tm.num(len(c.args))
    if c.op == "ntv":
        return tm.num(len(c.args[2]))
    if c.op == "set" and (len(c.args) <= 1 or all(tm.is_const(x) for x in c.args)):
        return tm.num(len(c.args))
    if c.op == "s":
        return tm.num(len(c.args[0]))
    if c.op == "app":
        return tm.add(length(A, st, A.inner(st, c.args[0])), tm.ONE)
    if c.op == "concat":
        t = tm.ZERO
        for x in c.args:
            t = tm.add(t, length(A, st, A.inner(st, x)))
        return t
    if c.op == "comp" and len(c.args[1]) == 1 and not c.args[1][0][0]:
        return mk("len", c.args[0])
    if c.op in ("dictcomp",) and len(c.args[1]) == 1 and not c.args[1][0][0]:
        return mk("len", c.args[0])
    if c.op == "mcall" and c.args[1] in ("keys", "values", "items"):
        return mk("len", c.args[0])
    if c.op == "popped":
        return tm.sub(length(A, st, c.args[0]), tm.ONE)
    return mk("len", A.snap(st, c))


def bi_str(A, args, kw, st, node, fr):
    if not args:
        return [(st, mk("s", ""))]
    return [(st, tm.strof(A.snap(st, args[0])))]


def bi_repr(A, args, kw, st, node, fr):
    return [(st, mk("strof", mk("repr", A.snap(st, args[0]))))]


def bi_int(A, args, kw, st, node, fr):
    v = A.snap(st, args[0]) if args else tm.ZERO
    if v.op == "num" and v.args[0].denominator == 1:
        return [(st, v)]
    if v.op == "num":
        return [(st, tm.num(int(v.args[0])))]
    if v.op in ("int", "len"):
        return [(st, v)]
    return _res(A, st, mk("int", v), ["ValueError", "TypeError"])


def bi_float(A, args, kw, st, node, fr):
    v = A.snap(st, args[0]) if args else tm.ZERO
    if v.op == "s":
        m = {"inf": tm.INF, "-inf": tm.neg(tm.INF), "infinity": tm.INF, "nan": mk("nan")}.get(v.args[0].lower())
        if m is not None:
            return [(st, m)]
    if tm.is_numeric(v):
        return [(st, v)]
    return _res(A, st, mk("float", v), ["ValueError", "TypeError"])


def bi_bool(A, args, kw, st, node, fr):
    return [(st, A.truth_of(st, args[0]) if args else FALSE)]


def bi_abs(A, args, kw, st, node, fr):
    v = A.snap(st, args[0])
    if v.op == "num":
        return [(st, tm.num(abs(v.args[0])))]
    if tm.is_numeric(v) and v.op == "poly" and tm.lead_neg(v):
        v = tm.neg(v)
    return [(st, mk("abs", v))]


def key_function(A, st, c, kw, node, fr):
    """Keyword arguments with a key function as a term over the generic element; and what it may raise."""
    out, raises = [], []
    for n, v in kw:
        if n == "key" and v.op in ("closure", "fn", "bound", "bi"):
            e = mk("elem", c, ("key",))
            s0 = st.fork()
            s0.eff = ()
            cases = []
            for s, r in A.apply(v, [e], [], s0, node, fr):
                cond = []
                for a, p in s.facts.lits.items():
                    if st.facts.lits.get(a) != p:
                        cond.append(tm.abstract(a if p else tm.negate(a), e))
                cond = lean(cond)
                if isinstance(r, Raised):
                    raises.append((r, exists_in(c, [cond]) if cond else tm.truth(c)))
                else:
                    cases.append((cond, tm.abstract(A.snap(s, r), e)))
            cases = sorted(cases, key=lambda cv: (cv[1].uid, tuple(x.uid for x in cv[0])))
            if len(cases) == 1:
                out.append((n, mk("keyof", cases[0][1])))
            else:
                out.append((n, mk("keycases", tuple(cases))))
        else:
            out.append((n, A.snap(st, v)))
    return tuple(sorted(out)), raises


def lean(cond):
    """Conditions without those that an equality with a constant among them implies."""
    eqs = {}
    for t in cond:
        if t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                if tm.is_const(y) and not tm.is_const(x):
                    eqs[x] = y
    out = set()
    for t in cond:
        if t.op not in ("eq",) and eqs:
            b = tm.subst(t, eqs)
            if b is TRUE:
                continue
        out.add(t)
    return tuple(sorted(out))


def with_raises(st, raises, rest):
    out, cur = [], st
    for r, cond in raises:
        f = cur.facts.assume(cond, True)
        if f is not None:
            out.append((cur.with_facts(f), r))
        f = cur.facts.assume(cond, False)
        if f is None:
            return out
        cur = cur.with_facts(f)
    return out + rest(cur)


def _extreme(op):
    def f(A, args, kw, st, node, fr):
        kwd = dict(kw)
        if len(args) == 1:
            def done(s, c):
                c2 = A.snap(s, c)
                if c2.op in ("tuple", "list") and not kwd and c2.args:
                    return [(s, mk(op, *sorted(set(c2.args))) if len(set(c2.args)) > 1 else c2.args[0])]
                k, raises = key_function(A, s, c2, kw, node, fr)
                return with_raises(s, raises, lambda s2: _res(
                    A, s2, mk(op + "of", c2, k), ["ValueError", "TypeError"] if "default" not in kwd else []))
            return A.bind(A.as_content(st, args[0], node, fr), done)
        vs = A.snaps(st, args)
        if kwd:
            return [(st, mk(op + "of", mk("tuple", *vs), tuple(sorted((n, A.snap(st, v)) for n, v in kwd.items()))))]
        if all(v.op == "num" for v in vs):
            g = max if op == "max" else min
            return [(st, tm.num(g(v.args[0] for v in vs)))]
        if len(vs) == 2 and vs[0] is not vs[1]:     # the second one only where it is beyond the first
            beyond = tm.lt(vs[0], vs[1]) if op == "max" else tm.lt(vs[1], vs[0])
            return [(s, vs[1] if b else vs[0]) for s, b in A.branch(st, beyond)]
        return [(st, mk(op, *sorted(set(vs))) if len(set(vs)) > 1 else vs[0])]
    return f


bi_max, bi_min = _extreme("max"), _extreme("min")


def bi_sum(A, args, kw, st, node, fr):
    init = args[1] if len(args) > 1 else dict(kw).get("start", tm.ZERO)
    return A.bind(A.as_content(st, args[0], node, fr),
                  lambda s, c: [(s, tm.add(summed(A, s, c), A.snap(s, init)))])


def bi_sorted(A, args, kw, st, node, fr):
    def done(s, c):
        c2 = A.snap(s, c)
        k, raises = key_function(A, s, c2, kw, node, fr)
        k = downwards(k)
        if not k and c2.op in ("tuple", "list", "set") and all(x.op == "s" for x in c2.args):
            r = mk("list", *sorted(c2.args, key=lambda x: x.args[0]))
        else:
            r = mk("sorted", c2, k)
        return with_raises(s, raises, lambda s2: [(s2, A.new_ref(s2, node, fr, "list", r))])
    return A.bind(A.as_content(st, args[0], node, fr), done)


def downwards(k):
    """Sorting by a negated number is sorting by the number the other way round (equal ones keep their order in both)."""
    k = dict(k)
    v = k.get("key")
    if v is not None and v.op == "keyof" and v.args[0].op == "poly" and tm.lead_neg(v.args[0]) and k.get("reverse") in (None, TRUE, FALSE):
        k["key"] = mk("keyof", tm.neg(v.args[0]))
        k["reverse"] = FALSE if k.get("reverse") is TRUE else TRUE
    if k.get("reverse") is FALSE:
        del k["reverse"]
    return tuple(sorted(k.items()))


def bi_reversed(A, args, kw, st, node, fr):
    def done(s, c):
        if c.op in ("tuple", "list"):
            return [(s, mk("tuple", *reversed(c.args)))]
        return [(s, mk("reversed", A.snap(s, c)))]
    return A.bind(A.as_content(st, args[0], node, fr), done)


def _conv(kind):
    def f(A, args, kw, st, node, fr):
        if not args:
            if kind == "dict" and kw:
                c = mk("dict")
                for k, v in kw:
                    c = A.dict_update(st, c, A.content(st, v)) if k == "**" else A.dict_set(st, c, mk("s", k), v)
                return [(st, A.new_ref(st, node, fr, "dict", c))]
            return [(st, mk("tuple") if kind == "tuple" else A.new_ref(st, node, fr, kind, mk(kind)))]
        v = args[0]

        def done(s, c):
            r = converted(A, s, c, kind)
            if kind == "dict":
                for k, x in kw:
                    r = A.dict_update(s, r, A.content(s, x)) if k == "**" else A.dict_set(s, r, mk("s", k), x)
            if kind == "tuple":
                return [(s, r)]
            return [(s, A.new_ref(s, node, fr, kind, r))]
        ty = A.type_of(v)
        if ty and not ty.startswith("nt:") and (kind != "dict" or A.prog.find_method(ty, "keys") is None):
            f2 = A.prog.find_method(ty, "__iter__")
            if f2 is not None:
                r = A.call_func(f2, [], [], st, node, selft=v, fr=fr)
                return A.bind(r, lambda s, g: A.bind(A.as_content(s, g, node, fr), done))
        r = A.as_content(st, v, node, fr)
        if v.op in ("sym", "attr", "item", "call", "elem") and v not in getattr(A, "collections", ()) and A.catches("TypeError"):
            r2 = []
            for s, c in r:
                if isinstance(c, Raised):
                    r2.append((s, c))
                else:
                    r2.extend(_res(A, s, c, ["TypeError"]))
            r = r2
        return A.bind(r, done)
    return f


def converted(A, s, c, kind):
    c = A.inner(s, c)
    if c.op in ("tuple", "list", "set", "dict", "ntv") and kind in ("tuple", "list", "set"):
        els = [k for k, _ in c.args] if c.op == "dict" else (list(c.args[2]) if c.op == "ntv" else list(c.args))
        if kind == "set":
            return mk("set", *sorted(set(A.snap(s, x) for x in els)))
        return mk(kind, *els)
    if kind == "dict":
        if c.op == "dict":
            return c
        if c.op in ("tuple", "list") and all(x.op == "tuple" and len(x.args) == 2 for x in c.args):
            d = mk("dict")
            for x in c.args:
                d = A.dict_set(s, d, x.args[0], x.args[1])
            return d
        if c.op == "comp":
            return mk("dictcomp", *c.args)
        if c.op == "mcall" and c.args[1] == "items":
            return c.args[0]
        if c.op == "popv":                    # not known to be a mapping: pairs
            b = mk("bv", 0)
            return mk("dictcomp", c, (((), mk("tuple", mk("item", b, tm.ZERO), mk("item", b, tm.ONE))),))
        return c if c.op in ("sym", "attr", "item", "dictcomp", "upd", "merged", "call", "elem") else mk("dictof", c)
    if kind in ("list", "tuple") and c.op == "seq":
        return c
    if kind == "set":
        unique = c.op in ("set", "dict", "upd", "merged", "dictcomp", "dictof", "setof", "sadd", "union", "diff", "inter") or c in getattr(A, "collections", ()) \
            or c.op == "mcall" and c.args[1] == "keys"
        return c if unique else tm.setof(c)
    if kind == "tuple":
        return mk("seq", "tuple", c)
    return c if c.op in ("comp", "app", "concat", "sorted") else mk("seq", "list", c)


bi_list, bi_tuple, bi_set, bi_dict, bi_frozenset = (_conv(k) for k in ("list", "tuple", "set", "dict", "set"))


def bi_iter(A, args, kw, st, node, fr):
    v = args[0]
    ty = A.type_of(v)
    if ty and not ty.startswith("nt:"):
        f = A.prog.find_method(ty, "__iter__")
        if f is not None:
            return A.call_func(f, [], [], st, node, selft=v, fr=fr)
    return [(st, v)]


def bi_next(A, args, kw, st, node, fr):
    v = args[0]
    c = A.content(st, v)
    if c in A.gens or c.op in ("comp", "tuple"):
        def done(s, cc):
            first = first_of(A, s, cc)
            if first is None:
                return _res(A, s, mk("nextof", A.snap(s, cc)), ["StopIteration"]) if len(args) < 2 else [(s, mk("nextof", A.snap(s, cc), args[1]))]
            if first == ():
                return [(s, args[1])] if len(args) > 1 else [(s, Raised(mk("excv", "StopIteration")))]
            return [(s, first)]
        if c in A.gens:
            n = st.count(("next", c))
            return A.bind(A.as_content(st, v, node, fr),
                          lambda s, cc: [(s, cc.args[n])] if cc.op == "list" and n < len(cc.args) else done(s, cc))
        return done(st, c)
    if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Call) and isinstance(node.args[0].func, ast.Name) and node.args[0].func.id == "iter":
        # the first element of a collection
        def first(s, cc):
            return first_element(A, s, cc, args, node, fr)
        return A.bind(A.as_content(st, v, node, fr), first)
    n = st.count(("next", c))
    t = mk("nextof", c, n)
    A.effect(st, "call", (mk("bi", "next"), (c,), (), t), fr, node)
    if len(args) > 1:
        return [(st, mk("nextof", c, n, A.snap(st, args[1])))]
    return _res(A, st, t, ["StopIteration"])


def first_element(A, st, c, args, node, fr):
    empty = args[1:] or ([Raised(mk("excv", "StopIteration"))] if A.catches("StopIteration") else [])
    out = []
    for s, b in A.branch(st, tm.truth(A.snap(st, c))) if empty else [(st, True)]:
        if b:
            out += A.bind(bi_list(A, [c], [], s, node, fr), lambda s2, lst: A.load_item(s2, lst, tm.ZERO, node, fr))
        else:
            out.append((s, empty[0]))
    return out


def first_of(A, st, c):
    if c.op in ("tuple", "list"):
        return c.args[0] if c.args else ()
    return None


def bi_isinstance(A, args, kw, st, node, fr):
    v, c = args
    names = class_names(A, st, c)
    if names is None:
        return [(st, mk("isinst", A.snap(st, v), ("?" + tm.show(c),)))]
    ty = A.type_of(v)
    kind = {"tuple": "tuple", "s": "str", "cat": "str", "strof": "str", "num": "int", "len": "int", "float": "float"}.get(v.op)
    if v.op == "ref":
        kind = {"list": "list", "dict": "dict", "set": "set"}.get(v.args[1])
    if v.op == "c":
        kind = "NoneType" if v is NONE else "int"
    if v.op == "ntv":
        kind = "tuple"
        if any(n == v.args[0] or n.split(".")[-1] == v.args[0].split(".")[-1] for n in names):
            return [(st, TRUE)]
    if ty and ty.startswith("nt:"):
        if any(n == ty[3:] or n.split(".")[-1] == ty.split(".")[-1] for n in names):
            return [(st, TRUE)]
        kind = "tuple"
    elif ty and ty != "ndarray":
        kind = ty
    elif ty == "ndarray":
        return [(st, tm.boolean(any(n.split(".")[-1] in ("ndarray", "Iterable", "Sized", "object") for n in names)))]
    if kind:
        if any(A.prog.is_subclass_name(kind, n) or A.prog.is_subclass_name(kind, n.split(".")[-1]) for n in names):
            return [(st, TRUE)]
        return [(st, FALSE)]
    v = A.snap(st, v)
    ts = sorted({mk("isinst", v, (n.split(".")[-1] if n not in A.prog.classes else n,)) for n in names})
    return [(st, ts[0] if len(ts) == 1 else mk("or", *ts) if ts else FALSE)]


def class_names(A, st, c):
    c = A.content(st, c)
    if c.op == "cls":
        return [c.args[0]]
    if c.op == "ntcls":
        return [c.args[0]]
    if c.op in ("ext", "bi"):
        return [c.args[0]]
    if c.op == "tuple":
        out = []
        for x in c.args:
            n = class_names(A, st, x)
            if n is None:
                return None
            out += n
        return out
    if c.op == "call" and c.args[0].op == "bi" and c.args[0].args[0] == "type" and c.args[1] and c.args[1][0] is NONE:
        return ["NoneType"]
    return None


def bi_hasattr(A, args, kw, st, node, fr):
    if args[1].op == "s":
        r = A.load_attr(st, args[0], args[1].args[0], node, fr)
        if len(r) == 1 and r[0][1] is not None and not isinstance(r[0][1], Raised) and r[0][1].op != "attr":
            return [(st, TRUE)]
        if len(r) == 1 and isinstance(r[0][1], Raised):
            return [(st, FALSE)]
        return [(st, mk("hasattr", A.snap(st, args[0]), args[1].args[0]))]
    return [(st, tm.negate(mk("atom", "raises", "AttributeError", mk("getattr", A.snap(st, args[0]), A.snap(st, args[1])))))]


def bi_getattr(A, args, kw, st, node, fr):
    nm = A.snap(st, args[1])
    if nm.op == "s":
        if len(args) == 3:
            ha = bi_hasattr(A, args[:2], [], st, node, fr)[0][1]
            out = []
            for s, b in A.branch(st, ha):
                out.extend(A.load_attr(s, args[0], nm.args[0], node, fr) if b else [(s, args[2])])
            return out
        return A.load_attr(st, args[0], nm.args[0], node, fr)
    t = mk("getattr", A.snap(st, args[0]), nm)
    # a variable attribute name from a fixed table is split by its values
    for b, pol in list(st.facts.lits.items()):
        if pol and b.op == "in" and b.args[0] is nm and b.args[1].op in ("tuple", "set", "list"):
            out = []
            cur = st
            for m in b.args[1].args:
                if m.op != "s":
                    break
                f1 = cur.facts.assume(tm.eq(nm, m), True)
                if f1 is not None:
                    out.extend(A.load_attr(cur.with_facts(f1), args[0], m.args[0], node, fr))
            else:
                return out
    if len(args) == 3:
        return [(s, args[2] if b else t) for s, b in A.branch(st, mk("atom", "raises", "AttributeError", t))]
    return _res(A, st, t, ["AttributeError"])


def bi_setattr(A, args, kw, st, node, fr):
    if args[1].op == "s":
        return A.store_attr(st, args[0], args[1].args[0], args[2], node, fr)
    A.effect(st, "call", (mk("bi", "setattr"), A.snaps(st, args), (), NONE), fr, node)
    return [(st, NONE)]


def bi_type(A, args, kw, st, node, fr):
    ty = A.type_of(args[0])
    if ty and ty in A.prog.classes:
        return [(st, mk("cls", ty))]
    return [(st, mk("call", mk("bi", "type"), (A.snap(st, args[0]),), ()))]


def bi_range(A, args, kw, st, node, fr):
    a = A.snaps(st, args)
    if all(x.op == "num" for x in a):
        r = list(range(*[int(x.args[0]) for x in a]))
        if len(r) <= 24:
            return [(st, mk("tuple", *[tm.num(i) for i in r]))]
    return [(st, mk("range", *a))]


def bi_enumerate(A, args, kw, st, node, fr):
    start = args[1] if len(args) > 1 else dict(kw).get("start", tm.ZERO)

    def done(s, c):
        if c.op in ("tuple", "list"):
            return [(s, mk("tuple", *[mk("tuple", tm.add(start, tm.num(i)), x) for i, x in enumerate(c.args)]))]
        return [(s, mk("enum", args[0], start))]
    return A.bind(A.as_content(st, args[0], node, fr), done)


def bi_zip(A, args, kw, st, node, fr):
    cs = [A.content(st, a) for a in args]
    if all(c.op in ("tuple", "list") for c in cs) and cs:
        n = min(len(c.args) for c in cs)
        return [(st, mk("tuple", *[mk("tuple", *[c.args[i] for c in cs]) for i in range(n)]))]
    return [(st, mk("zip", *args))]


def _lifted(A, st, fv, coll, node, fr, filt):
    """map/filter as a comprehension."""
    acc = A.new_ref(st, node, fr, "acc", mk("list"))
    out = []
    key = "<elem>"

    def body(s):
        el = s.frames[fr.fid][key]
        res = []
        r = A.apply(fv, [el], [], s, node, fr) if fv is not NONE else [(s, el)]
        for s2, v in r:
            if isinstance(v, Raised):
                res.append(("raise", s2, v))
            elif filt:
                for s3, b in A.branch(s2, v):
                    if b:
                        s3.cont[acc] = A.list_app(s3.cont[acc], el)
                    res.append(("next", s3, None))
            else:
                s2.cont[acc] = A.list_app(s2.cont[acc], v)
                res.append(("next", s2, None))
        return res
    for k, s, v in A.iterate(node, coll, st, fr, None, body):
        c = s.cont.pop(acc, mk("list"))
        out.append((s, v if k == "raise" else (mk("tuple", *c.args) if c.op == "list" else c)))
    return merge_pairs(out)


def bi_map(A, args, kw, st, node, fr):
    if len(args) != 2:
        return [(st, mk("call", mk("bi", "map"), A.snaps(st, args), ()))]
    return _lifted(A, st, args[0], args[1], node, fr, False)


def bi_filter(A, args, kw, st, node, fr):
    return _lifted(A, st, args[0], args[1], node, fr, True)


def exists_in(coll, conds):
    """Some element of the collection meets one of the conditions."""
    ways = []
    for cond in conds:
        here = [frozenset()]
        for t in cond:
            opts = [frozenset([t])]
            if t.op == "and":
                opts = [frozenset(t.args)]
            elif t.op == "or":
                opts = [frozenset(x.args) if x.op == "and" else frozenset([x]) for x in t.args]
            if len(here) * len(opts) > 24:
                opts = [frozenset([t])]
            here = [h | o for h in here for o in opts]
        ways += here
    dis = fx._reduce({frozenset(fx.lit(t) for t in w) for w in ways})
    if dis is None or frozenset() in dis:
        return tm.truth(coll)
    bv = mk("bv", 0)
    free = [x for x in frozenset.intersection(*dis) if not any(y.op == "bv" for y in tm.walk(x[0]))]
    if free:                    # what is not about the element
        rest = exists_in(coll, [tuple(a if pol else tm.negate(a) for a, pol in d if (a, pol) not in free) for d in dis])
        return mk("and", *sorted([a if pol else tm.negate(a) for a, pol in free] + (list(rest.args) if rest.op == "and" else [rest])))
    conds = [tuple(sorted(a if pol else tm.negate(a) for a, pol in d)) for d in dis]
    if len(conds) == 1 and len(conds[0]) == 1:
        m = conds[0][0]
        if m.op == "eq" and bv in m.args:
            o = m.args[1] if m.args[0] is bv else m.args[0]
            if not any(x.op == "bv" and x.args[0] == 0 for x in tm.walk(o)):
                return mk("in", tm.instantiate(o, bv), coll)
    return mk("atom", "exists", coll, tuple(sorted(conds, key=lambda x: tuple(y.uid for y in x))))


def _quant(op):
    def f(A, args, kw, st, node, fr):
        def done(s, c):
            c = A.snap(s, c)
            if c.op in ("tuple", "list", "set"):
                ts = [A.truth_of(s, x) for x in c.args]
                return [(s, A.t_or(ts) if op == "any" else A.t_and(ts))]
            if c.op == "comp":
                cases = c.args[1]
                conds = []
                for cond, v in cases:
                    b = tm.truth(v)
                    if op == "any":
                        if b is TRUE:
                            conds.append(cond)
                        elif b is not FALSE:
                            conds.append(cond + (b,))
                    else:
                        if b is FALSE:
                            conds.append(cond)
                        elif b is not TRUE:
                            conds.append(cond + (tm.negate(b),))
                if not conds:
                    return [(s, tm.boolean(op == "all"))]
                t = exists_in(c.args[0], conds)
                return [(s, t if op == "any" else tm.negate(t))]
            b = tm.truth(mk("bv", 0))
            t = exists_in(c, [(b,)] if op == "any" else [(tm.negate(b),)])
            return [(s, t if op == "any" else tm.negate(t))]
        return A.bind(A.as_content(st, args[0], node, fr), done)
    return f


bi_any, bi_all = _quant("any"), _quant("all")


def bi_hash(A, args, kw, st, node, fr):
    v = args[0]
    ty = A.type_of(v)
    if ty and not ty.startswith("nt:"):
        f = A.prog.find_method(ty, "__hash__")
        if f is not None:
            return A.call_func(f, [], [], st, node, selft=v, fr=fr)
    return A.bind(A.as_content(st, v, node, fr), lambda s, c: [(s, mk("call", mk("bi", "hash"), (A.snap(s, c),), ()))])


def bi_round(A, args, kw, st, node, fr):
    v = A.snaps(st, args)
    if v[0].op == "num" and (len(v) == 1 or v[1].op == "num"):
        return [(st, tm.num(round(v[0].args[0], int(v[1].args[0]) if len(v) > 1 else 0)))]
    return [(st, mk("round", *v))]


def bi_pow(A, args, kw, st, node, fr):
    return A.binop(st, ast.Pow, args[0], args[1], node, fr)


def bi_callable(A, args, kw, st, node, fr):
    return [(st, mk("atom", "callable", A.snap(st, args[0])))]


def bi_super(A, args, kw, st, node, fr):
    q = args[0].args[0] if args else fr.cls.qual
    return [(st, mk("super", q, args[1] if len(args) > 1 else A.self_of(fr), q))]


def bi_object(A, args, kw, st, node, fr):
    return [(st, mk("ref", (("object", node.lineno, node.col_offset, fr.fid), st.count(("object", node.lineno))), "object"))]
