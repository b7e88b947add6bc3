"""Value numbers: interned terms with a normal form.

A term stands for the value an expression has; two expressions that are equal
by the algebra below (commutativity, distribution, log/exp/power laws, string
joining, comparison mirroring ...) get the *same* interned term.  Nothing here
evaluates program code.
"""
from fractions import Fraction

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ("op", "args", "uid", "_atoms")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _COUNT[0] += 1
        t.uid = _COUNT[0]
        t._atoms = None
        _TABLE[key] = t
    return t


def fresh_id():
    _COUNT[0] += 1
    return _COUNT[0]


# ---------------------------------------------------------------- constants
def const(v):
    """Term for a Python constant."""
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, Fraction)):
        return num(Fraction(v))
    if isinstance(v, float):
        if v != v:
            return mk("nan")
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        return num(Fraction(repr(v)))
    if isinstance(v, complex):
        return mk("complex", repr(v))
    if isinstance(v, str):
        return mk("s", v)
    if isinstance(v, bytes):
        return mk("bytes", v)
    if v is Ellipsis:
        return mk("ellipsis")
    raise TypeError(v)


def num(fr):
    return mk("num", Fraction(fr))


NONE = mk("c", "None")
TRUE = mk("c", "True")
FALSE = mk("c", "False")
INF = mk("inf")
EULER = mk("euler")
PI = mk("pi")
ZERO = num(0)
ONE = num(1)


def boolean(b):
    return TRUE if b else FALSE


def is_const(t):
    return t.op in ("c", "num", "s", "bytes")


def pyval(t):
    """Python value of a constant term (num -> Fraction)."""
    if t.op == "c":
        return {"None": None, "True": True, "False": False}[t.args[0]]
    return t.args[0]


def is_str(t):
    """Known to be a string."""
    return t.op in ("s", "cat", "strof")


# ---------------------------------------------------------------- polynomials
# poly: args = tuple of (coef Fraction, tuple of (atom T, exponent T)), sorted
def _monos(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return {m: c for c, m in t.args}
    return {((t, ONE),): Fraction(1)}


def _from(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    items = sorted(((c, m) for m, c in d.items()),
                   key=lambda cm: tuple((a.uid, e.uid) for a, e in cm[1]))
    return mk("poly", *items)


def add(a, b):
    d = dict(_monos(a))
    for m, c in _monos(b).items():
        d[m] = d.get(m, Fraction(0)) + c
    return _from(d)


def neg(a):
    return _from({m: -c for m, c in _monos(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    """Multiply power products; may yield a numeric factor."""
    e = {}
    for a, x in m1 + m2:
        e[a] = add(e[a], x) if a in e else x
    coef = Fraction(1)
    extra = None
    out = []
    for a, x in e.items():
        if x is ZERO:
            continue
        if a.op == "num" and x.op == "num" and x.args[0].denominator == 1:
            coef *= a.args[0] ** int(x.args[0])
            continue
        if a.op == "poly" and x.op == "num" and x.args[0].denominator == 1 and 0 < x.args[0] <= 4:
            p = ONE
            for _ in range(int(x.args[0])):
                p = mul(p, a)
            extra = p if extra is None else mul(extra, p)
            continue
        out.append((a, x))
    out.sort(key=lambda ae: (ae[0].uid, ae[1].uid))
    return coef, tuple(out), extra


def mul(a, b):
    d = {}
    res = None
    for m1, c1 in _monos(a).items():
        for m2, c2 in _monos(b).items():
            k, m, extra = _mulmono(m1, m2)
            if extra is not None:
                t = mul(_from({m: c1 * c2 * k}), extra)
                res = t if res is None else add(res, t)
            else:
                d[m] = d.get(m, Fraction(0)) + c1 * c2 * k
    out = _from(d)
    return out if res is None else add(out, res)


def power(a, e):
    if e is ZERO:
        return ONE
    if e is ONE:
        return a
    ms = _monos(a)
    if not ms:
        return ZERO if e.op == "num" and e.args[0] > 0 else mk("poly", (Fraction(1), ((ZERO, e),)))
    if len(ms) == 1:
        (m, c), = ms.items()
        out = {}
        parts = []
        coef = Fraction(1)
        if c != 1:
            if e.op == "num" and e.args[0].denominator == 1:
                coef = c ** int(e.args[0])
            elif c == -1 or c < 0:
                # keep the whole base as an atom
                return _from({((a, e),): Fraction(1)})
            else:
                r = _root(c, e)
                if r is not None:
                    coef = r
                else:
                    parts.append((num(c), e))
        for at, x in m:
            parts.append((at, mul(x, e)))
        k, mm, extra = _mulmono(tuple(parts), ())
        t = _from({mm: coef * k})
        return t if extra is None else mul(t, extra)
    if e.op == "num" and e.args[0].denominator == 1 and 0 < e.args[0] <= 4:
        p = ONE
        for _ in range(int(e.args[0])):
            p = mul(p, a)
        return p
    # take out a common rational factor so that (2x+2y)^k == 2^k (x+y)^k
    return _from({((a, e),): Fraction(1)})


def _root(c, e):
    if e.op != "num":
        return None
    n, d = e.args[0].numerator, e.args[0].denominator
    if d > 4:
        return None

    def iroot(v):
        r = round(v ** (1.0 / d))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** d == v:
                return x
        return None
    p, q = iroot(c.numerator), iroot(c.denominator)
    if p is None or q is None or p == 0:
        return None
    return Fraction(p, q) ** n


def div(a, b):
    if b is ZERO:
        return mk("div0", a)
    return mul(a, power(b, num(-1)))


def exp(a):
    return power(EULER, a)


def log(a):
    if a is ONE:
        return ZERO
    if a is EULER:
        return ONE
    ms = _monos(a)
    if len(ms) == 1:
        (m, c), = ms.items()
        if c > 0 and (m or c != 1):
            out = ZERO if c == 1 else mk("log", num(c))
            if not m:
                return out
            for at, e in m:
                out = add(out, mul(e, ONE if at is EULER else mk("log", at)))
            return out
    return mk("log", a)


def is_numeric(t):
    return t.op in ("num", "poly", "inf", "len", "log", "sum", "pi", "euler", "round", "float", "int", "count", "trig", "abs", "max", "min")


# ---------------------------------------------------------------- strings
def cat(parts):
    out = []
    for p in parts:
        ps = p.args if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "strof" and q.args[0].op == "s":
                q = q.args[0]
            if q.op == "s" and q.args[0] == "":
                continue
            if q.op == "s" and out and out[-1].op == "s":
                out[-1] = mk("s", out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return mk("s", "")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("cat", *out)


def strof(t):
    if is_str(t):
        return t
    if t.op == "c":
        return mk("s", t.args[0])
    if t.op == "num":
        f = t.args[0]
        return mk("s", str(int(f)) if f.denominator == 1 else repr(float(f)))
    return mk("strof", t)


# ---------------------------------------------------------------- comparisons
def _norm_scale(d):
    """Divide by |leading coefficient|; returns poly term."""
    ms = _monos(d)
    if not ms:
        return d
    lead = sorted(((c, m) for m, c in ms.items()),
                  key=lambda cm: (cm[1] == (), tuple((a.uid, e.uid) for a, e in cm[1])))[0][0]
    return _from({m: c / abs(lead) for m, c in ms.items()})


def lead_neg(d):
    ms = _monos(d)
    lead = sorted(((c, m) for m, c in ms.items()),
                  key=lambda cm: (cm[1] == (), tuple((a.uid, e.uid) for a, e in cm[1])))[0][0]
    return lead < 0


def lt(a, b):
    """a < b"""
    if a.op == "s" and b.op == "s":
        return boolean(a.args[0] < b.args[0])
    d = sub(b, a)
    if d.op == "num":
        return boolean(d.args[0] > 0)
    inf = mk("inf")
    ms = _monos(d)
    if ((inf, ONE),) in ms and len(ms) == 1:
        return boolean(ms[((inf, ONE),)] > 0)
    d = _norm_scale(d)
    # lengths are non-negative integers: 0 < len(x)  <=>  x is non-empty
    ms = _monos(d)
    if len(ms) == 1 and d.op == "len":
        return truth(d.args[0])
    if len(ms) == 2 and () in ms:
        (m, c), = [(m, c) for m, c in ms.items() if m != ()]
        if len(m) == 1 and m[0][0].op == "len" and m[0][1] is ONE:
            k = ms[()]
            if c > 0 and -1 < k < 0:      # len > fraction below one
                return truth(m[0][0].args[0])
            if c < 0 and 0 < k <= 1:      # len < 1
                return negate(truth(m[0][0].args[0]))
            if c > 0 and k > 0:
                return TRUE
        if len(m) == 1 and m[0][0].op == "len" and c < 0 and ms[()] <= 0:
            return FALSE
    if len(ms) == 1 and list(ms.items())[0][1] < 0:
        (m, c), = ms.items()
        if len(m) == 1 and m[0][0].op == "len" and m[0][1] is ONE:
            return FALSE
    return mk("pos", d)


def le(a, b):
    return negate(lt(b, a))


def eq(a, b):
    if a is b:
        if a.op in ("nan",):
            return FALSE
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    if a.op == "inf" and is_const(b) or b.op == "inf" and is_const(a):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is TRUE and y.op in ("eq", "pos", "in", "isinst", "truth", "not", "eq0", "hasattr"):
            return y
        if x is FALSE and y.op in ("eq", "pos", "in", "isinst", "truth", "not", "eq0", "hasattr"):
            return negate(y)
    if a.op in ("tuple", "list") and b.op == a.op and len(a.args) == len(b.args):
        parts = [eq(x, y) for x, y in zip(a.args, b.args)]
        if any(p is FALSE for p in parts):
            return FALSE
        parts = [p for p in parts if p is not TRUE]
        if not parts:
            return TRUE
    elif a.op in _SEQ and b.op in _SEQ and a.op == b.op and a.op in ("tuple", "list"):
        return FALSE
    shapes = ("tuple", "list", "set", "dict", "ntv", "cls", "fn", "mod")
    if (a.op in shapes and (is_const(b) or b.op == "cat")) or (b.op in shapes and (is_const(a) or a.op == "cat")):
        return FALSE
    if (is_numeric(a) and (is_numeric(b) or b.op not in ("s", "c"))) or (is_numeric(b) and a.op not in ("s", "c")):
        d = _norm_scale(sub(a, b))
        if d.op == "num":
            return boolean(d.args[0] == 0)
        if lead_neg(d):
            d = neg(d)
        if d.op == "len":
            return negate(truth(d.args[0]))
        return mk("eq0", d)
    if a.op in ("c", "s") and is_numeric(b) or b.op in ("c", "s") and is_numeric(a):
        return FALSE
    if b.uid < a.uid:
        a, b = b, a
    return mk("eq", a, b)


_SEQ = ("tuple", "list")


def truth(t):
    if t.op == "c":
        return boolean(t is TRUE)
    if t.op == "num":
        return boolean(t.args[0] != 0)
    if t.op == "s":
        return boolean(t.args[0] != "")
    if t.op in ("tuple", "list", "set", "dict"):
        return boolean(len(t.args) > 0)
    if t.op in ("eq", "pos", "in", "isinst", "truth", "not", "eq0", "hasattr", "atom", "and", "or"):
        return t
    if t.op in ("cls", "fn", "mod", "bi", "ext", "closure", "genobj"):
        return TRUE
    if t.op == "len":
        return truth(t.args[0])
    if t.op == "cat" and any(p.op == "s" for p in t.args):
        return TRUE
    if t.op == "poly":
        return negate(eq(t, ZERO))
    if t.op == "setdiff":
        return negate(subset("LtE", *t.args))
    if t.op in ("seq", "copyof", "setof"):
        return mk("truth", t.args[1]) if t.op == "seq" else truth(t.args[-1])
    return mk("truth", t)


def negate(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op in ("eq", "pos", "in", "isinst", "truth", "eq0", "hasattr", "atom", "and", "or"):
        return mk("not", t)
    return mk("not", truth(t)) if truth(t).op not in ("c", "not") else negate(truth(t))


# ---------------------------------------------------------------- helpers
def walk(t):
    """All sub-terms."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                stack.extend(x)
            continue
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(x.args)


def contains(t, sub):
    return any(x is sub for x in walk(t))


def rebuild(t, f):
    """Apply f bottom-up (f gets a term with rewritten children)."""
    memo = {}

    def go(x):
        if isinstance(x, T):
            y = memo.get(x)
            if y is None:
                y = memo[x] = go1(x)
            return y
        return go1(x)

    def go1(x):
        if isinstance(x, T):
            if x.op == "poly":
                out = ZERO
                for c, m in x.args:
                    p = num(c)
                    for a, e in m:
                        p = mul(p, power(go(a), go(e)))
                    out = add(out, p)
                return f(out)
            if not x.args or all(not isinstance(a, (T, tuple)) for a in x.args):
                return f(x)
            args = tuple(go(a) for a in x.args)
            return f(remake(x.op, args))
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x
    return go(t)


def sorted_cases(cases):
    """The cases of a comprehension (exclusive: their order says nothing, nor does the order of their conditions)."""
    if not all(isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], tuple) and isinstance(c[1], T) for c in cases):
        return cases
    cases = [(tuple(sorted(set(c), key=lambda x: x.uid)), v) for c, v in cases]
    return tuple(sorted(cases, key=lambda cv: (cv[1].uid, tuple(x.uid for x in cv[0]))))


def remake(op, args):
    if op in ("comp", "dictcomp", "sum") and len(args) == 2 and isinstance(args[1], tuple):
        return mk(op, args[0], sorted_cases(args[1]))
    if op == "eq":
        return eq(*args)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "pos":
        return lt(ZERO, args[0])
    if op == "not":
        return negate(args[0])
    if op == "truth":
        return truth(args[0])
    if op == "log":
        return log(args[0])
    if op == "cat":
        return cat(args)
    if op == "strof":
        return strof(args[0])
    if op in ("or", "and"):
        zero = TRUE if op == "or" else FALSE
        out = []
        for a in args:
            for b in (a.args if a.op == op else (a,)):
                if b is zero:
                    return zero
                if b.op != "c" and b not in out:
                    out.append(b)
        if not out:
            return negate(zero)
        return out[0] if len(out) == 1 else mk(op, *sorted(out))
    if op == "set":
        return mk("set", *sorted(set(args)))
    if op == "union":
        return union(*args)
    if op == "intersect":
        return mk(op, *sorted(args))
    if op == "upd":
        return upd(*args)
    return mk(op, *args)


def upd(c, k, v):
    """A dictionary with v stored for k; keys that get the same value one after the other do so in any order."""
    keys = {k}
    while c.op == "upd" and (c.args[2] is v or c.args[1] is k):
        keys.add(c.args[1])
        c = c.args[0]
    for x in sorted(keys, key=lambda x: x.uid):
        c = mk("upd", c, x, v)
    return c


SETS = frozenset("set dict upd merged dictcomp dictof setof sadd union diff inter setdiff intersect without".split())


def union(*parts):
    """Union of sets: nested unions are opened, literal parts put together."""
    out, lits, todo = set(), set(), list(parts)
    while todo:
        p = todo.pop()
        if p.op == "union":
            todo.extend(p.args)
        elif p.op == "set":
            lits.update(p.args)
        elif p.op == "sadd":
            todo.append(p.args[0])
            lits.update(p.args[1:])
        elif p.op == "setof":
            out.add(p.args[0])
        else:
            out.add(p)
    if lits:
        out.add(mk("set", *sorted(lits)))
    if not out:
        return mk("set")
    if len(out) > 1:
        return mk("union", *sorted(out))
    p = out.pop()
    return p if p.op in SETS else setof(p)


def setof(c):
    """The set of the elements of something."""
    if c.op in ("comp", "seq") and (c.op == "seq" or c.args[1] == (((), mk("bv", 0)),)):
        return setof(c.args[1] if c.op == "seq" else c.args[0])
    return c if c.op in SETS else mk("setof", c)


def subset(kind, a, b):
    """Whether the elements of one are all among those of the other (LtE), and not the other way round too (Lt)."""
    def elements(c):
        if c.op == "dict":
            return mk("set", *sorted({k for k, _ in c.args}))
        if c.op in ("tuple", "list", "set"):
            return mk("set", *sorted(set(c.args)))
        return c.args[0] if c.op == "setof" else c
    a, b = elements(a), elements(b)
    if a.op == b.op == "set" and all(is_const(y) for y in a.args + b.args):
        return boolean(set(a.args) <= set(b.args) if kind == "LtE" else set(a.args) < set(b.args))
    return mk("atom", "subset", kind, a, b)


def subst(t, mapping):
    return rebuild(t, lambda x: mapping.get(x, x))


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 12:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == "c":
        return a[0]
    if o == "num":
        f = a[0]
        return str(f.numerator) if f.denominator == 1 else str(float(f))
    if o == "s":
        return repr(a[0])
    if o == "poly":
        out = []
        for c, m in a:
            fs = [] if c == 1 and m else [s(num(c))]
            fs += [s(x) if e is ONE else f"{s(x)}^({s(e)})" for x, e in m]
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if o == "sym":
        return a[0]
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "eq":
        return f"{s(a[0])} == {s(a[1])}"
    if o == "eq0":
        return f"{s(a[0])} == 0"
    if o == "pos":
        return f"{s(a[0])} > 0"
    if o == "in":
        return f"{s(a[0])} in {s(a[1])}"
    if o == "not":
        return f"not({s(a[0])})"
    if o == "truth":
        return f"bool({s(a[0])})"
    if o == "elem":
        return f"elem<{s(a[0])}>"
    if o == "lv":
        return f"{a[1]}@loop{a[0]}"
    if o in ("fn", "cls", "mod", "ext", "bi"):
        return str(a[0])
    if o == "call":
        return f"{s(a[0])}(" + ", ".join([s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]) + ")"
    if o == "mcall":
        return f"{s(a[0])}.{a[1]}(" + ", ".join([s(x) for x in a[2]] + [f"{k}={s(v)}" for k, v in a[3]]) + ")"
    if o == "new":
        return f"{s(a[0])}(" + ", ".join([s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]) + ")"
    return f"{o}<" + ", ".join(s(x) for x in a) + ">"


def _pm_items(p):
    """[(coefficient, ((atom, exponent), ...))] of a term."""
    return [(c, m) for m, c in _monos(p).items()]


def _shift(t, d):
    m = {x: mk("bv", x.args[0] + d) for x in walk(t) if x.op == "bv"}
    return subst(t, m) if m else t


def abstract(t, elem):
    """t as a function of elem: elem becomes bound variable 0."""
    if isinstance(t, tuple):
        return tuple(abstract(x, elem) for x in t)
    return subst(_shift(t, 1), {_shift(elem, 1): mk("bv", 0)})


def instantiate(t, x):
    """Value of an abstracted term at x."""
    if isinstance(t, tuple):
        return tuple(instantiate(y, x) for y in t)
    m = {b: mk("bv", b.args[0] - 1) for b in walk(t) if b.op == "bv" and b.args[0] > 0}
    m[mk("bv", 0)] = x
    return subst(t, m)


def over_keys(c):
    """The collection whose elements are the keys of this dictionary, in its order."""
    while True:
        if c.op == "dictcomp" and len(c.args[1]) == 1:
            cond, val = c.args[1][0]
            if not cond and val.op == "tuple" and val.args[0] is mk("bv", 0):
                c = c.args[0]
                continue
        if c.op == "mcall" and c.args[1] == "keys":
            c = c.args[0]
            continue
        return c


def base_of(c):
    """The collection with the same elements, without what only reorders it."""
    while True:
        d = over_keys(c)
        while d.op in ("sorted", "reversed") or (d.op == "seq" and d.args[0] in ("list", "tuple")):
            d = d.args[1] if d.op == "seq" else d.args[0]
        if d is c:
            return c
        c = d
