"""Library functions (math, numpy, ...) and methods of containers."""
import ast

from . import terms as tm
from .terms import mk, NONE, TRUE, FALSE
from .state import Raised, Limit, merge_pairs
from .libs import (PURE_EXT, PURE_METHODS, MUTATORS, _res, vector_sum, summed, length, converted, builtin, bi_sorted)

HALF = tm.div(tm.ONE, tm.num(2))


def external(A, name, args, kwargs, st, node, fr):
    short = name.split(".")[-1]
    key = name if name in EXT else ("numpy." + short if name.startswith("np.") else name)
    f = EXT.get(key)
    if f is not None:
        r = f(A, args, kwargs, st, node, fr)
        if r is not None:
            return r
    if name == "inspect.getfullargspec":
        return _res(A, st, mk("call", mk("ext", name), A.snaps(st, args), ()), ["TypeError"])
    pure = name.startswith(PURE_EXT) and not name.startswith("numpy.random.")
    if name == "copy.copy" or name == "copy.deepcopy":
        return copied(A, st, args[0], node, fr, deep=name.endswith("deepcopy"))
    if short == "fromkeys" and name in ("collections.OrderedDict.fromkeys", "dict.fromkeys") and args and not kwargs:
        return fromkeys(A, args, st, node, fr)
    if name.startswith("collections.") and short in ("deque", "Counter", "OrderedDict", "defaultdict", "UserDict", "UserList"):
        kind = "list" if short == "deque" else "dict"
        a = [x for x in args if not (short == "defaultdict" and x is args[0])]
        if short == "Counter" and a:
            return [(st, A.new_ref(st, node, fr, "dict", mk("counterof", A.snap(st, a[0]))))]
        r = builtin(A, kind, a[:1], [], st, node, fr)
        kw = dict(kwargs)
        if short == "deque" and (kw.get("maxlen") or len(a) > 1):
            ml = A.snap(st, kw.get("maxlen") or a[1])
            return [(s, v if isinstance(v, Raised) else A.new_ref(s, node, fr, "list", mk("bounded", s.cont[v], ml))) for s, v in r]
        return r
    return A.opaque_call(tm.mk("ext", name), args, kwargs, st, node, fr, pure=pure)


BV = mk("bv", 0)


def fromkeys(A, args, st, node, fr):
    """dict.fromkeys(collection, value)."""
    v = args[1] if len(args) > 1 else NONE

    def done(s, c):
        if c.op in ("list", "tuple", "set"):
            n = mk("dict")
            for x in c.args:
                n = A.dict_set(s, n, A.snap(s, x), v)
        else:
            n = mk("dictcomp", A.snap(s, c), (((), mk("tuple", BV, A.snap(s, v))),))
        return [(s, A.new_ref(s, node, fr, "dict", n))]
    return A.bind(A.as_content(st, args[0], node, fr), done)


def _num1(fn, raises=()):
    def f(A, args, kw, st, node, fr):
        if len(args) != 1 or kw:
            return None
        v = A.snap(st, args[0])
        return _res(A, st, fn(v), raises)
    return f


def _log(A, args, kw, st, node, fr):
    v = A.snaps(st, args)
    t = tm.log(v[0])
    if len(v) > 1:
        t = tm.div(t, tm.log(v[1]))
    return _res(A, st, t, ["ValueError", "RuntimeWarning"])


def _pow(A, args, kw, st, node, fr):
    return A.binop(st, ast.Pow, args[0], args[1], node, fr)


def _array(A, args, kw, st, node, fr):
    def done(s, c):
        c = A.snap(s, c)
        if c.op in ("tuple", "list"):
            return [(s, mk("array", mk("list", *c.args)))]
        return _res(A, s, c if c.op == "array" else mk("array", c), ["TypeError", "ValueError"])
    return A.bind(A.as_content(st, args[0], node, fr), done)


def _arr_parts(A, st, v):
    c = A.snap(st, A.content(st, v))
    if c.op == "array" and c.args[0].op == "list":
        return ("lit", c.args[0].args)
    if c.op == "array":
        return ("arr", c.args[0])
    if c.op in ("list", "tuple"):
        return ("lit", c.args)
    return ("arr", c)


def concat_arrays(parts):
    """Concatenation normal form: flat, literals joined, empties dropped."""
    out = []
    for k, v in parts:
        if k == "lit":
            if not v:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + tuple(v))
            else:
                out.append(("lit", tuple(v)))
        elif v.op == "arrcat":
            out.extend((x.args[0], x.args[1]) if False else (("lit", x.args) if x.op == "list" else ("arr", x)) for x in v.args)
        else:
            out.append((k, v))
    if not out:
        return mk("array", mk("list"))
    if len(out) == 1:
        return mk("array", mk("list", *out[0][1])) if out[0][0] == "lit" else out[0][1]
    return mk("arrcat", *[mk("list", *v) if k == "lit" else v for k, v in out])


def _append(A, args, kw, st, node, fr):
    a = _arr_parts(A, st, args[0])
    v = A.snap(st, A.content(st, args[1]))
    b = ("lit", (v,)) if v.op not in ("list", "tuple", "array", "arrcat") else _arr_parts(A, st, v)
    return _res(A, st, concat_arrays([a, b]), ["TypeError"])


def _concatenate(A, args, kw, st, node, fr):
    c = A.content(st, args[0])
    if c.op not in ("tuple", "list"):
        return None
    return _res(A, st, concat_arrays([_arr_parts(A, st, x) for x in c.args]), ["TypeError", "ValueError"])


def _hypot(A, args, kw, st, node, fr):
    a, b = A.snaps(st, args)
    return [(st, tm.power(tm.add(tm.mul(a, a), tm.mul(b, b)), HALF))]


def _dist(A, args, kw, st, node, fr):
    a, b = A.content(st, args[0]), A.content(st, args[1])
    if a.op not in ("tuple", "list") or b.op not in ("tuple", "list") or len(a.args) != len(b.args):
        return None
    t = tm.ZERO
    for x, y in zip(a.args, b.args):
        d = tm.sub(A.snap(st, x), A.snap(st, y))
        t = tm.add(t, tm.mul(d, d))
    return [(st, tm.power(t, HALF))]


def _npmax(op):
    def f(A, args, kw, st, node, fr):
        if len(args) != 1 or kw:
            return None
        return builtin(A, op, args, kw, st, node, fr)
    return f


def _partial(A, args, kw, st, node, fr):
    return [(st, mk("partial", args[0], tuple(args[1:]), tuple(kw)))]


def _opcall(fn):
    def f(A, args, kw, st, node, fr):
        if len(args) != 2:
            return None
        return fn(A, args[0], args[1], st, node, fr)
    return f


def _cmp(op):
    return _opcall(lambda A, a, b, st, node, fr: A.compare(st, op(), a, b, node, fr))


def _arith(op):
    return _opcall(lambda A, a, b, st, node, fr: A.binop(st, op, a, b, node, fr))


def _chain(A, args, kw, st, node, fr):
    cur = [(st, [])]
    for a in args:
        cur = A.bind(cur, lambda s, acc, a=a: [(s2, c if isinstance(c, Raised) else acc + [c]) for s2, c in A.as_content(s, a, node, fr)])
    out = []
    for s, cs in cur:
        if isinstance(cs, Raised):
            out.append((s, cs))
        elif all(c.op in ("tuple", "list") for c in cs):
            out.append((s, mk("tuple", *[x for c in cs for x in c.args])))
        else:
            out.append((s, mk("concat", *cs)))
    return out


def _re_sub(A, args, kw, st, node, fr):
    import re
    v = A.snaps(st, args)
    if len(v) == 3 and all(x.op == "s" for x in v):
        return [(st, mk("s", re.sub(v[0].args[0], v[1].args[0], v[2].args[0])))]
    if len(v) == 3 and v[0].op == "s" and v[1].op == "s":
        # suffix removal of a string whose ending is known
        m = re.fullmatch(r"([A-Za-z_]+)\$", v[0].args[0])
        if m and v[1].args[0] == "" and v[2].op == "cat" and v[2].args[-1].op == "s" and v[2].args[-1].args[0].endswith(m.group(1)):
            p = list(v[2].args[:-1]) + [mk("s", v[2].args[-1].args[0][:-len(m.group(1))])]
            p = [x for x in p if not (x.op == "s" and not x.args[0])]
            if len(p) == 1 and p[0].op == "strof":
                return [(st, p[0].args[0])]
            return [(st, tm.cat(p))]
    return None


def _re_findall(A, args, kw, st, node, fr):
    """Findings of a constant pattern: the pattern counts by its parse tree, not by its spelling."""
    import re._parser as parser
    v = A.snaps(st, args)
    if len(v) == 2 and not kw and v[0].op == "s":
        try:
            t = mk("s", repr(parser.parse(v[0].args[0])))
        except Exception:       # not a pattern
            return None
        return [(st, mk("extcall", "re.findall", (t, v[1])))]
    return None


EXT = {
    "re.findall": _re_findall,
    "math.log": _log, "numpy.log": _log,
    "math.exp": _num1(tm.exp, ("OverflowError",)), "numpy.exp": _num1(tm.exp),
    "math.sqrt": _num1(lambda v: tm.power(v, HALF), ("ValueError",)), "numpy.sqrt": _num1(lambda v: tm.power(v, HALF)),
    "math.pow": _pow, "numpy.power": _pow, "math.hypot": _hypot, "numpy.hypot": _hypot, "math.dist": _dist,
    "math.radians": _num1(lambda v: tm.div(tm.mul(v, tm.PI), tm.num(180))),
    "numpy.radians": _num1(lambda v: tm.div(tm.mul(v, tm.PI), tm.num(180))),
    "numpy.deg2rad": _num1(lambda v: tm.div(tm.mul(v, tm.PI), tm.num(180))),
    "math.degrees": _num1(lambda v: tm.div(tm.mul(v, tm.num(180)), tm.PI)),
    "numpy.degrees": _num1(lambda v: tm.div(tm.mul(v, tm.num(180)), tm.PI)),
    "numpy.rad2deg": _num1(lambda v: tm.div(tm.mul(v, tm.num(180)), tm.PI)),
    "math.tan": _num1(lambda v: mk("trig", "tan", v)), "numpy.tan": _num1(lambda v: mk("trig", "tan", v)),
    "math.atan": _num1(lambda v: mk("trig", "atan2", v, tm.ONE)),
    "numpy.sum": lambda A, a, k, st, n, fr: [(st, vector_sum(A, st, a[0]))] if len(a) == 1 and not k else None,
    "math.fsum": lambda A, a, k, st, n, fr: [(st, vector_sum(A, st, a[0]))],
    "numpy.max": _npmax("max"), "numpy.amax": _npmax("max"), "numpy.min": _npmax("min"),
    "numpy.array": _array, "numpy.asarray": _array, "numpy.append": _append, "numpy.concatenate": _concatenate,
    "numpy.abs": lambda A, a, k, st, n, fr: builtin(A, "abs", a, k, st, n, fr),
    "math.fabs": lambda A, a, k, st, n, fr: builtin(A, "abs", a, k, st, n, fr),
    "numpy.round": lambda A, a, k, st, n, fr: builtin(A, "round", a, k, st, n, fr),
    "functools.partial": _partial, "itertools.chain": _chain, "re.sub": _re_sub,
    "operator.eq": _cmp(ast.Eq), "operator.ne": _cmp(ast.NotEq), "operator.lt": _cmp(ast.Lt), "operator.le": _cmp(ast.LtE),
    "operator.gt": _cmp(ast.Gt), "operator.ge": _cmp(ast.GtE), "operator.add": _arith(ast.Add), "operator.sub": _arith(ast.Sub),
    "operator.mul": _arith(ast.Mult),
}


def _atan2(A, args, kw, st, node, fr):
    a, b = A.snaps(st, args)
    return [(st, mk("trig", "atan2", a, b))]


EXT["math.atan2"] = EXT["numpy.arctan2"] = _atan2


def copied(A, st, v, node, fr, deep=False):
    ty = A.type_of(v)
    if ty and not ty.startswith("nt:") and ty != "ndarray" and not deep:
        f = A.prog.find_method(ty, "copy") or A.prog.find_method(ty, "__copy__")
        if f is not None:
            return A.call_func(f, [], [], st, node, selft=v, fr=fr)
    c = A.content(st, v)
    if tm.is_const(c) or c.op in ("tuple", "ntv", "cat"):
        return [(st, v)]
    kind = v.args[1] if v.op == "ref" and v.args[1] in ("list", "dict", "set") else {"dict": "dict", "list": "list", "set": "set"}.get(c.op, "copy")
    if deep:
        c = A.snap(st, c)
    return [(st, A.new_ref(st, node, fr, kind, c))]


# ---------------------------------------------------------------- methods
def mcall(A, recv, name, args, kwargs, st, node, fr):
    """Method call on a value whose class is not in the package."""
    c = A.content(st, recv)
    if recv.op == "bi" and name == "fromkeys" and args and not kwargs:
        return fromkeys(A, args, st, node, fr)
    f = globals().get("m_" + name)
    if f is not None:
        r = f(A, recv, c, args, kwargs, st, node, fr)
        if r is not None:
            return r
    if recv.op == "super" or (c.op == "attr" and c.args[0].op == "super"):
        t = mk("mcall", recv, name, A.snaps(st, args), tuple((k, A.snap(st, v)) for k, v in kwargs))
        A.effect(st, "mut", (recv, name, A.snaps(st, args), tuple(kwargs), t), fr, node)
        return [(st, t)]
    a = A.snaps(st, args)
    k = tuple(sorted((n, A.snap(st, v)) for n, v in kwargs))
    if name in PURE_METHODS or name in A.cfg.pure_methods or tm.is_str(c):
        t = mk("mcall", A.snap(st, c), name, a, k)
        ex = A.any_caught() if c.op in ("sym", "attr", "item", "call", "elem", "lv", "mcall", "nextof", "getattr") and name not in ("keys", "values", "items", "get", "copy") else []
        ex = [e for e in ex if e in ("AttributeError", "KeyError", "IndexError", "ValueError", "Exception", "TypeError")]
        return _res(A, st, t, ex)
    n = st.count(("mcall", recv, name, a, k))
    t = mk("mcall", A.snap(st, c), name, a, k, n)
    A.effect(st, "mut", (recv, name, a, k, t), fr, node)
    A.left(st)
    if name in MUTATORS:
        st.cont[recv] = mk("after", A.snap(st, c), name, a)
    only = A.cfg.method_raises.get(name)
    return _res(A, st, t, [e for e in A.any_caught() if only is None or e in only])


def _mut(A, st, recv, name, args, newc, ret, node, fr):
    A.effect(st, "mut", (recv, name, A.snaps(st, args), (), ret if ret is not None else NONE), fr, node)
    st.cont[recv] = newc
    return [(st, ret if ret is not None else NONE)]


def m_sort(A, recv, c, args, kw, st, node, fr):
    if args or not (c.op in ("list", "comp", "concat", "sorted") or recv.op == "ref"):
        return None
    return A.bind(bi_sorted(A, [recv], kw, st, node, fr),
                  lambda s, v: _mut(A, s, recv, "sort", (), A.content(s, v), None, node, fr))


def m_append(A, recv, c, args, kw, st, node, fr):
    if c.op == "list":
        return _mut(A, st, recv, "append", args, mk("list", *(c.args + (args[0],))), None, node, fr)
    return _mut(A, st, recv, "append", args, mk("app", c, args[0]), None, node, fr)


def m_add(A, recv, c, args, kw, st, node, fr):
    if len(args) != 1 or kw:
        return None
    v = A.snap(st, args[0])
    if c.op == "set":
        return _mut(A, st, recv, "add", args, mk("set", *sorted(set(c.args + (v,)))), None, node, fr)
    return _mut(A, st, recv, "add", args, mk("sadd", c, v), None, node, fr)


def _without(A, st, c, v):
    v = A.snap(st, v)
    if c.op in ("set", "list"):
        ds = [st.facts.decide(tm.eq(A.snap(st, x), v)) for x in c.args]
        if all(d is not None for d in ds):
            keep, cut = [], False
            for x, d in zip(c.args, ds):
                if d and not (cut and c.op == "list"):
                    cut = True
                    continue
                keep.append(x)
            return mk(c.op, *keep)
    if c.op == "sadd" and c.args[1] is v:
        return mk("without", c.args[0], v)
    return mk("without", c, v)


def m_discard(A, recv, c, args, kw, st, node, fr):
    return _mut(A, st, recv, "discard", args, _without(A, st, c, args[0]), None, node, fr)


def m_remove(A, recv, c, args, kw, st, node, fr):
    kinds = {"set": ("KeyError",), "dict": ("KeyError",), "list": ("ValueError",)}.get(recv.args[1] if recv.op == "ref" else None) or ("KeyError", "ValueError")
    kinds = [e for e in kinds if A.catches(e)]
    if not kinds:
        return _mut(A, st, recv, "remove", args, _without(A, st, c, args[0]), None, node, fr)
    out = []
    for s, b in A.branch(st, A.in_term(st, args[0], recv)):
        if b:
            out.extend(_mut(A, s, recv, "remove", args, _without(A, s, c, args[0]), None, node, fr))
        else:
            out.append((s, Raised(mk("excv", kinds[0]))))
    return out


def m_index(A, recv, c, args, kw, st, node, fr):
    if len(args) != 1 or kw:
        return None
    t = mk("mcall", A.snap(st, c), "index", A.snaps(st, args), ())
    if not A.catches("ValueError"):
        return [(st, t)]
    return [(s, t if b else Raised(mk("excv", "ValueError"))) for s, b in A.branch(st, A.in_term(st, args[0], recv))]


def m_pop(A, recv, c, args, kw, st, node, fr):
    if args and (c.op in ("dict", "upd", "merged", "dictcomp", "dictof") or recv.op == "ref" and recv.args[1] == "dict" or len(args) == 2
                 or (not tm.is_numeric(args[0]))):
        out = []
        for s, b in A.branch(st, A.in_term(st, args[0], recv)):
            if not b:
                if len(args) > 1:
                    out.append((s, args[1]))
                elif A.catches("KeyError"):
                    out.append((s, Raised(mk("excv", "KeyError"))))
                else:
                    out.append((s, Raised(mk("excv", "KeyError", A.snap(s, args[0])), A.loc(fr, node))))
                continue
            for s2, v in A.item_of(s, c, A.snap(s, args[0]), node, fr, recv):
                if isinstance(v, Raised):
                    out.append((s2, v))
                    continue
                nc = _dict_without(A, s2, c, A.snap(s2, args[0]))
                out.extend(_mut(A, s2, recv, "pop", args, nc, v, node, fr))
        return out
    if not args:
        if c.op in ("list", "set"):
            if not c.args:
                return [(st, Raised(mk("excv", "KeyError" if c.op == "set" else "IndexError"), A.loc(fr, node)))]
            if c.op == "list" or len(c.args) == 1:
                return _mut(A, st, recv, "pop", args, mk(c.op, *c.args[:-1]), c.args[-1], node, fr)
        exs = [x for x in ("KeyError", "IndexError") if A.catches(x)]
        out = []
        if exs:
            for s, b in A.branch(st, A.truth_of(st, recv)):
                if b:
                    st = s
                else:
                    out.append((s, Raised(mk("excv", exs[0]))))
            if out and out[0][0] is st:
                return out
            if st.facts.decide(A.truth_of(st, recv)) is False:
                return out
        if c.op == "app":
            return out + _mut(A, st, recv, "pop", args, c.args[0], c.args[1], node, fr)
        sc = A.snap(st, c)
        return out + _mut(A, st, recv, "pop", args, mk("popped", sc), mk("popv", sc), node, fr)
    if c.op in ("list",) and args[0].op == "num" and c.args:
        i = int(args[0].args[0])
        if -len(c.args) <= i < len(c.args):
            l = list(c.args)
            v = l.pop(i)
            return _mut(A, st, recv, "pop", args, mk("list", *l), v, node, fr)
    if args[0].op == "num" and args[0].args[0] == 0:
        return m_popleft(A, recv, c, [], kw, st, node, fr)
    return None


def _dict_without(A, st, c, k):
    if c.op == "dict":
        ds = [st.facts.decide(tm.eq(kk, k)) for kk, _ in c.args]
        if all(d is not None for d in ds):
            return mk("dict", *[it for it, d in zip(c.args, ds) if not d])
    return mk("without", c, k)


def m_popleft(A, recv, c, args, kw, st, node, fr):
    if c.op == "list" and c.args:
        return _mut(A, st, recv, "popleft", args, mk("list", *c.args[1:]), c.args[0], node, fr)
    sc = A.snap(st, c)
    return _mut(A, st, recv, "popleft", args, mk("poppedleft", sc), mk("popleftv", sc), node, fr)


def m_clear(A, recv, c, args, kw, st, node, fr):
    if args or kw:
        return None
    kind = recv.args[1] if recv.op == "ref" and recv.args[1] in ("list", "set", "dict") else (c.op if c.op in ("list", "set", "dict") else "list")
    return _mut(A, st, recv, "clear", args, mk(kind), None, node, fr)


def m_extend(A, recv, c, args, kw, st, node, fr):
    def done(s, x):
        if c.op == "list" and x.op in ("list", "tuple"):
            n = mk("list", *(c.args + x.args))
        else:
            n = mk("concat", c, x)
        return _mut(A, s, recv, "extend", args, n, None, node, fr)
    return A.bind(A.as_content(st, args[0], node, fr), done)


def m_insert(A, recv, c, args, kw, st, node, fr):
    if c.op == "list" and args[0].op == "num":
        l = list(c.args)
        l.insert(int(args[0].args[0]), args[1])
        return _mut(A, st, recv, "insert", args, mk("list", *l), None, node, fr)
    return None


def is_dictlike(recv, c):
    return c.op in ("dict", "upd", "dictcomp", "dictof", "merged", "counterof") or (recv.op == "ref" and recv.args[1] == "dict")


def m_update(A, recv, c, args, kw, st, node, fr):
    if not args and not kw:
        return [(st, NONE)]

    def done(s, x):
        if not kw and not is_dictlike(recv, c) and (
                c.op in ("set", "sadd", "union") or (recv.op == "ref" and recv.args[1] == "set") or x.op in ("set", "sadd")
                or (args[0].op == "ref" and args[0].args[1] == "set")):
            if c.op == "set" and x.op in ("set", "list", "tuple"):
                n = mk("set", *sorted(set(c.args + tuple(A.snap(s, y) for y in x.args))))
            elif x.op in ("set", "list", "tuple"):
                n = c
                for y in x.args:
                    n = mk("sadd", n, A.snap(s, y))
            else:
                n = tm.union(A.snap(s, c), A.snap(s, x))
            return _mut(A, s, recv, "update", args, n, None, node, fr)
        n = c
        if args:
            if x.op == "dict":
                n = A.dict_update(s, n, x)
            elif x.op in ("list", "tuple") and all(y.op == "tuple" and len(y.args) == 2 for y in x.args) and is_dictlike(recv, c) and x.args:
                for y in x.args:
                    n = A.dict_set(s, n, y.args[0], y.args[1])
            elif x.op in ("list", "tuple"):
                for y in x.args:
                    y = A.snap(s, y)
                    if recv.op == "attr" and recv.args[1] in A.prog.counters():
                        n = A.dict_set(s, n, y, tm.add(mk("item", n, y), tm.ONE))
                    else:
                        n = mk("counted", n, y)
            elif x.op == "upd":
                n = A.dict_update(s, n, x.args[0])
                n = A.dict_set(s, n, x.args[1], x.args[2])
            elif n.op == "dictcomp" and tm.over_keys(n) is not n and tm.base_of(n) is tm.base_of(A.snap(s, x)):
                n = mk("dictcomp", tm.over_keys(n), (((), mk("tuple", BV, mk("item", A.snap(s, x), BV))),))
            else:
                n = mk("merged", n, x) if not (n.op == "dict" and not n.args) else x
        for k, v in kw:
            n = A.dict_update(s, n, A.content(s, v)) if k == "**" else A.dict_set(s, n, mk("s", k), v)
        rec = list(args) + [mk("dict", *[(mk("s", k), v) for k, v in kw if k != "**"])] if kw else args
        return _mut(A, s, recv, "update", rec, n, None, node, fr)
    if args:
        return A.bind(A.as_content(st, args[0], node, fr), done)
    return done(st, NONE)


def unhashable(k):
    return k.op in ("list", "dict", "set") or k.op == "seq" and k.args[0] in ("list", "set", "dict")


def m_setdefault(A, recv, c, args, kw, st, node, fr):
    k = A.snap(st, args[0])
    if unhashable(k):
        return [(st, Raised(mk("excv", "TypeError")))]
    d = args[1] if len(args) > 1 else NONE
    out = []
    for s, b in A.branch(st, A.in_term(st, k, recv)):
        if b:
            out.extend(A.item_of(s, c, k, node, fr, recv))
        else:
            out.extend(_mut(A, s, recv, "setdefault", args, A.dict_set(s, c, k, d), d, node, fr))
    return out


def m_get(A, recv, c, args, kw, st, node, fr):
    if not args or (recv.op in ("attr", "mod", "ext") and recv.op != "attr"):
        return None
    k = A.snap(st, args[0])
    d = args[1] if len(args) > 1 else NONE
    out = []
    for s, b in A.branch(st, A.in_term(st, k, recv)):
        if b:
            save, A.handlers = A.handlers, []
            try:
                out.extend(A.item_of(s, c, k, node, fr, recv))
            finally:
                A.handlers = save
        else:
            out.append((s, d))
    return [(s, v) for s, v in out if not (isinstance(v, Raised) and v.cls == "KeyError")]


def m_keys(A, recv, c, args, kw, st, node, fr):
    if c.op == "dict":
        return [(st, mk("tuple", *[k for k, _ in c.args]))]
    return [(st, recv if recv.op != "ref" else A.snap(st, c))]


def m_values(A, recv, c, args, kw, st, node, fr):
    if c.op == "dict":
        return [(st, mk("tuple", *[v for _, v in c.args]))]
    return [(st, mk("mcall", A.snap(st, c), "values", (), ()))]


def m_items(A, recv, c, args, kw, st, node, fr):
    if c.op == "dict":
        return [(st, mk("tuple", *[mk("tuple", k, v) for k, v in c.args]))]
    return [(st, mk("mcall", A.snap(st, c), "items", (), ()))]


def m_copy(A, recv, c, args, kw, st, node, fr):
    if args or kw:
        return None
    r = copied(A, st, recv, node, fr)
    ex = [x for x in ("AttributeError",) if A.catches(x)] if c.op in ("nextof", "sym", "call", "item") else []
    out = []
    op = mk("mcall", A.snap(st, c), "copy", (), ())
    for s, v in r:
        if isinstance(v, Raised):
            out.append((s, v))
            continue
        bad, s2 = A.fork_raise(s, op, ex) if ex else ([], s)
        out.extend(bad + ([(s2, v)] if s2 is not None else []))
    return out


def m_join(A, recv, c, args, kw, st, node, fr):
    if not tm.is_str(c):
        return None

    def done(s, x):
        if x.op in ("tuple", "list"):
            parts = []
            for i, y in enumerate(x.args):
                if i:
                    parts.append(c)
                parts.append(tm.strof(A.snap(s, y)))
            return [(s, tm.cat(parts))]
        return [(s, mk("strof", mk("mcall", c, "join", (A.snap(s, x),), ())))]
    return A.bind(A.as_content(st, args[0], node, fr), done)


def m_format(A, recv, c, args, kw, st, node, fr):
    if c.op == "s" and not kw:
        bits = c.args[0].split("{}")
        if len(bits) == len(args) + 1 and "{" not in "".join(bits):
            parts = [mk("s", bits[0])]
            for a, b in zip(args, bits[1:]):
                parts += [tm.strof(A.snap(st, a)), mk("s", b)]
            return [(st, tm.cat(parts))]
    return [(st, mk("strof", mk("mcall", c, "format", A.snaps(st, args), tuple((k, A.snap(st, v)) for k, v in kw))))]


def _strm(name, fn=None):
    def f(A, recv, c, args, kw, st, node, fr):
        v = A.snaps(st, args)
        if c.op == "s" and all(x.op == "s" for x in v) and not kw:
            r = getattr(c.args[0], name)(*[x.args[0] for x in v])
            if isinstance(r, str):
                return [(st, mk("s", r))]
            if isinstance(r, bool):
                return [(st, tm.boolean(r))]
            if isinstance(r, list):
                return [(st, A.new_ref(st, node, fr, "list", mk("list", *[mk("s", x) for x in r])))]
        if name in ("startswith",) and c.op == "cat" and c.args[0].op == "s" and v and v[0].op == "s":
            a, b = c.args[0].args[0], v[0].args[0]
            if len(a) >= len(b):
                return [(st, tm.boolean(a.startswith(b)))]
        if name in ("endswith",) and c.op == "cat" and c.args[-1].op == "s" and v and v[0].op == "s":
            a, b = c.args[-1].args[0], v[0].args[0]
            if len(a) >= len(b):
                return [(st, tm.boolean(a.endswith(b)))]
        if name == "startswith" and len(v) == 1 and v[0].op == "s" and len(v[0].args[0]) == 1:
            return [(st, tm.eq(mk("item", A.snap(st, c), tm.ZERO), v[0]))]
        return None
    return f


for _n in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "split", "startswith", "endswith"):
    globals()["m_" + _n] = _strm(_n)


def m_count(A, recv, c, args, kw, st, node, fr):
    c = A.snap(st, c)
    while c.op == "seq":
        c = A.snap(st, c.args[1])
    v = A.snap(st, args[0])
    if c.op in ("tuple", "list"):
        ds = [st.facts.decide(tm.eq(x, v)) for x in c.args]
        if all(d is not None for d in ds):
            return [(st, tm.num(sum(ds)))]
    return [(st, mk("count", c, v))]


def m__asdict(A, recv, c, args, kw, st, node, fr):
    if c.op == "ntv":
        return [(st, A.new_ref(st, node, fr, "dict", mk("dict", *[(mk("s", f), v) for f, v in zip(c.args[1], c.args[2])])))]
    ty = A.type_of(recv)
    if ty and ty.startswith("nt:"):
        return [(st, A.new_ref(st, node, fr, "dict", mk("dict", *[(mk("s", f), mk("attr", recv, f)) for f in A.nt_fields(ty)])))]
    t = mk("mcall", A.snap(st, c), "_asdict", (), ())
    return _res(A, st, A.new_ref(st, node, fr, "dict", t), ["AttributeError"])


def m__replace(A, recv, c, args, kw, st, node, fr):
    if c.op == "ntv":
        d = dict(zip(c.args[1], c.args[2]))
        d.update({k: A.snap(st, v) for k, v in kw if k != "**"})
        return [(st, mk("ntv", c.args[0], c.args[1], tuple(d[f] for f in c.args[1])))]
    ty = A.type_of(recv)
    if ty and ty.startswith("nt:"):
        fs = A.nt_fields(ty)
        d = {f: mk("attr", recv, f) for f in fs}
        d.update({k: A.snap(st, v) for k, v in kw if k != "**"})
        return [(st, mk("ntv", ty[3:], fs, tuple(d[f] for f in fs)))]
    return None


def _setop(op):
    def f(A, recv, c, args, kw, st, node, fr):
        if len(args) != 1:
            return None

        def done(s, x):
            a, b = A.snap(s, c), A.snap(s, x)
            if a.op in ("set",) and b.op in ("set", "tuple", "list"):
                if op == "union":
                    return [(s, A.new_ref(s, node, fr, "set", mk("set", *sorted(set(a.args + b.args)))))]
                if all(tm.is_const(y) for y in a.args + b.args):
                    keep = [y for y in a.args if (y in b.args) == (op == "intersection")]
                    return [(s, A.new_ref(s, node, fr, "set", mk("set", *sorted(keep))))]
            t = {"union": lambda: tm.union(a, b), "intersection": lambda: mk("intersect", *sorted([a, b])),
                 "difference": lambda: mk("setdiff", a, b)}[op]()
            return [(s, A.new_ref(s, node, fr, "set", t))]
        return A.bind(A.as_content(st, args[0], node, fr), done)
    return f


m_union, m_intersection, m_difference = (_setop(o) for o in ("union", "intersection", "difference"))


def m_issubset(A, recv, c, args, kw, st, node, fr):
    def done(s, x):
        a, b = A.snap(s, c), A.snap(s, x)
        return [(s, tm.subset("LtE", a, b))]
    return A.bind(A.as_content(st, args[0], node, fr), done)


def m_difference_update(A, recv, c, args, kw, st, node, fr):
    def done(s, x):
        a, b = A.snap(s, c), A.snap(s, x)
        if a.op == "set" and b.op in ("set", "tuple", "list") and all(tm.is_const(y) for y in a.args + b.args):
            n = mk("set", *[y for y in a.args if y not in b.args])
        else:
            n = mk("setdiff", a, b)
        return _mut(A, s, recv, "difference_update", args, n, None, node, fr)
    return A.bind(A.as_content(st, args[0], node, fr), done)


def m_sum(A, recv, c, args, kw, st, node, fr):
    if args or kw:
        return None
    return [(st, vector_sum(A, st, recv))]


def m_max(A, recv, c, args, kw, st, node, fr):
    return builtin(A, "max", [recv], [], st, node, fr) if not args and not kw else None
