"""Path facts: what is known about values at a program point.

A fact set is a conjunction of literals over atoms plus clauses (disjunctions
of conjunctions that arise where control flow joins).  Deciding an atom uses a
fixed table of implications (equality with constants, membership, class
hierarchy, small linear combinations) - no search and no solver.
"""
import math

from . import terms as tm
from .terms import TRUE, FALSE, NONE, mk

HIERARCHY = {"super": lambda a, b: False, "disjoint": lambda a, b: False}


def lit(t):
    """(atom, polarity) of a boolean term."""
    t = tm.truth(t)
    pol = True
    while t.op == "not":
        t = t.args[0]
        pol = not pol
    return t, pol


class Facts:
    __slots__ = ("lits", "clauses", "_key", "_lin", "_monos", "_keys", "_lens", "lossy")

    def __init__(self, lits=None, clauses=(), lossy=0):
        self.lits = lits or {}
        self.lossy = lossy      # how often a merge forgot a disjunction
        self.clauses = clauses
        self._key = None
        self._lin = self._monos = self._keys = self._lens = None

    # ------------------------------------------------------------ queries
    def decide(self, t):
        """True / False / None for a boolean term."""
        a, pol = lit(t)
        if a is TRUE:
            return pol
        if a is FALSE:
            return not pol
        v = self._decide_atom(a)
        if v is None:
            return None
        return v if pol else not v

    world = None     # what the scenario under analysis fixes: atom -> True / False / None

    def _decide_atom(self, a):
        v = self.lits.get(a)
        if v is not None:
            return v
        if Facts.world is not None:
            v = Facts.world(a)
            if v is not None:
                return v
        op = a.op
        L = self.lits
        if op == "eq":
            x, y = a.args
            for p, q in ((x, y), (y, x)):
                if tm.is_const(q):
                    # p equals another constant?
                    for b, pol in L.items():
                        if pol and b.op == "eq" and (b.args[0] is p or b.args[1] is p):
                            o = b.args[1] if b.args[0] is p else b.args[0]
                            if tm.is_const(o) and o is not q:
                                return False
                        elif pol and b.op == "in" and b.args[0] is p:
                            mem = _members(b.args[1])
                            if mem is not None and all(tm.is_const(m) for m in mem) and q not in mem:
                                return False
                        elif pol and b.op == "isinst" and b.args[0] is p and q is NONE:
                            if "NoneType" not in b.args[1] and "object" not in b.args[1]:
                                return False
                    if q is NONE:
                        tv = L.get(tm.truth(p)) if tm.truth(p).op == "truth" else None
                        if tv is True:
                            return False
                        if tm.is_numeric(p) or tm.is_str(p) or p.op in ("new", "elem_chunk"):
                            return False
                    elif q.op == "s" and q.args[0] == "":
                        if L.get(tm.truth(p)) is True:
                            return False
                    elif q.op == "s" and L.get(tm.truth(p)) is False:
                        return False
            if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
                vs = [self.decide(tm.eq(m, n)) for m, n in zip(x.args, y.args)]
                if any(v is False for v in vs):
                    return False
                if all(v is True for v in vs):
                    return True
            return None
        if op == "truth":
            p = a.args[0]
            for b, pol in L.items():
                if b.op == "eq" and (b.args[0] is p or b.args[1] is p):
                    o = b.args[1] if b.args[0] is p else b.args[0]
                    if tm.is_const(o):
                        tv = tm.truth(o) is TRUE
                        if pol:
                            return tv
                elif b.op == "eq0" and b.args[0] is p:
                    return not pol
                elif b.op == "pos":
                    if pol and (b.args[0] is p or b.args[0] is tm.neg(p)):
                        return True
            if p.op in ("new", "ntv"):
                return None if p.op == "new" else True
            if any(b.op in ("pos", "eq0") for b in L):
                if L.get(mk("pos", p)) is False and L.get(mk("pos", tm.neg(p))) is False:
                    return False
                lo, hi = self._length(mk("len", p))
                return True if lo > 0 else False if hi is not None and hi <= 0 else None
            return None
        if op == "in":
            x, c = a.args
            mem = _members(c)
            if mem is not None:
                vs = [self.decide(tm.eq(x, m)) for m in mem]
                if any(v is True for v in vs):
                    return True
                if all(v is False for v in vs):
                    return False
                for b, pol in L.items():
                    if b.op == "in" and b.args[0] is x:
                        m2 = _members(b.args[1])
                        if m2 is None:
                            continue
                        if pol and set(m2) <= set(mem):
                            return True
                        if not pol and set(mem) <= set(m2):
                            return False
                        if pol and not (set(m2) & set(mem)) and all(map(tm.is_const, mem)) and all(map(tm.is_const, m2)):
                            return False
            if L.get(tm.truth(c)) is False and tm.truth(c).op == "truth":
                return False
            return None
        if op == "isinst":
            x, names = a.args
            if tm.is_str(x):
                return "str" in names or "object" in names or "Sequence" in names or "Iterable" in names or "Hashable" in names
            for b, pol in L.items():
                if b.op == "isinst" and b.args[0] is x:
                    if pol and all(any(HIERARCHY["super"](n, m) for m in names) for n in b.args[1]):
                        return True
                    if not pol and all(any(HIERARCHY["super"](n, m) for m in b.args[1]) for n in names):
                        return False
                    if pol and all(HIERARCHY["disjoint"](n, m) for n in b.args[1] for m in names):
                        return False
                if b.op == "eq" and pol and NONE in b.args and x in b.args:
                    return "NoneType" in names or "object" in names or "Hashable" in names
            return None
        if op == "hasattr":
            return None
        if op == "atom" and a.args[0] == "exists":
            mine = [frozenset(c) for c in a.args[2]]
            for b, pol in L.items():
                if b.op == "atom" and b.args[0] == "exists" and b.args[1] is a.args[1]:
                    other = [frozenset(c) for c in b.args[2]]
                    if not pol and all(any(o <= m for o in other) for m in mine):
                        return False
                    if pol and all(any(m <= o for m in mine) for o in other):
                        return True
            return False if L.get(tm.truth(a.args[1])) is False else None
        if op in ("pos", "eq0"):
            return self._linear(a)
        if op == "and":
            vs = [self.decide(x) for x in a.args]
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if op == "or":
            vs = [self.decide(x) for x in a.args]
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        return None

    # ----- linear facts: each is (poly, strict) meaning poly > 0 or poly >= 0
    def _linear_facts(self):
        if self._lin is None:
            out = []
            for b, pol in self.lits.items():
                if b.op == "pos":
                    out.append((b.args[0], True) if pol else (tm.neg(b.args[0]), False))
                elif b.op == "eq0" and pol:
                    out.append((b.args[0], False))
                    out.append((tm.neg(b.args[0]), False))
                elif b.op == "truth" and not pol and False:
                    pass
            self._lin = out
        return self._lin

    def _implied(self, p, strict):
        """p > 0 (strict) or p >= 0 implied by at most two linear facts?"""
        mp = tm._monos(p)
        d = _lower(mp)
        if d is not None and (d > 0 or d == 0 and not strict):
            return True
        fs = self._linear_facts()
        if self._monos is None:
            self._monos = [tm._monos(f) for f, _ in fs]
            self._keys = [{m for m in x if m != ()} for x in self._monos]
        ms, keys = self._monos, self._keys
        mine = {m for m in mp if m != ()}
        for i, (f, s) in enumerate(fs):
            if not keys[i] & mine:
                continue
            r = _less(mp, ms[i])
            d = _lower(r)
            if d is not None and (d > 0 or d == 0 and (s or not strict)):
                return True
            k = _ratio(p, f)
            if k is not None and k > 0 and k != 1:
                d = _lower(_less(mp, {m: k * c for m, c in ms[i].items()}))
                if d is not None and (d > 0 or d == 0 and (s or not strict)):
                    return True
            hard = {m for m, c in r.items() if m != () and c != 0}
            if not hard:
                continue
            for j in range(len(fs)):
                if j == i or not keys[j] & hard:
                    continue
                d = _lower(_less(r, ms[j]))
                if d is not None and (d > 0 or d == 0 and (s or fs[j][1] or not strict)):
                    return True
        return False

    def _length(self, n):
        """(least, most) known of the length n = len(c); most is None when unknown."""
        if self._lens is None:
            self._lens = {}
        if n in self._lens:
            return self._lens[n]
        lo, hi = 0, None
        v = self.lits.get(tm.truth(n.args[0]))
        if v is True:
            lo = 1
        elif v is False:
            hi = 0
        off = []
        for b, pol in self.lits.items():
            if b.op not in ("pos", "eq0"):
                continue
            k = _one_length(b.args[0], n)
            if k is None:
                continue
            k, c = k                # k * n + c
            x = -c / k
            if b.op == "eq0":
                if pol:
                    lo, hi = max(lo, x), x if hi is None else min(hi, x)
                else:
                    off.append(x)
            elif (k > 0) == pol:    # n > x, or n >= x
                lo = max(lo, math.floor(x) + 1 if pol else math.ceil(x))
            else:
                t = math.ceil(x) - 1 if pol else math.floor(x)
                hi = t if hi is None else min(hi, t)
        while lo in off:
            lo += 1
        while hi is not None and hi in off:
            hi -= 1
        self._lens[n] = lo, hi
        return lo, hi

    def _linear(self, a):
        p = a.args[0]
        for m in tm._monos(p):
            for x, _ in m:
                if x.op == "len":
                    k = _one_length(p, x)
                    if k is None:
                        break
                    lo, hi = self._length(x)
                    ends = [None if e is None else k[0] * e + k[1] for e in (lo, hi)]
                    low, high = ends if k[0] > 0 else ends[::-1]
                    if a.op == "pos":
                        if low is not None and low > 0:
                            return True
                        if high is not None and high <= 0:
                            return False
                    else:
                        if low is not None and low > 0 or high is not None and high < 0:
                            return False
                        if low == high == 0:
                            return True
        if len(self._linear_facts()) > 40:
            return None
        if a.op == "pos":
            if self._implied(p, True):
                return True
            if self._implied(tm.neg(p), False):
                return False
            if self.lits.get(mk("truth", p)) is False or self.lits.get(mk("truth", tm.neg(p))) is False:
                return False
            z = tm.eq(p, tm.ZERO)
            if (z.op == "eq0" and self.lits.get(z) is False or self.lits.get(mk("truth", p)) is True) and self._implied(p, False):
                return True
            return None
        # eq0
        if self._implied(p, True) or self._implied(tm.neg(p), True):
            return False
        if self._implied(p, False) and self._implied(tm.neg(p), False):
            return True
        return None

    # ------------------------------------------------------------ updates
    def assume(self, t, polarity=True):
        """Facts with t known to be `polarity`; None if contradictory."""
        a, pol = lit(t)
        if not polarity:
            pol = not pol
        return self._assume_all([(a, pol)])

    def _assume_all(self, todo):
        lits = dict(self.lits)
        clauses = self.clauses
        cur = Facts(lits, clauses, self.lossy)
        todo = list(todo)
        changed = False
        while todo:
            a, pol = todo.pop()
            if a is TRUE or a is FALSE:
                if (a is TRUE) != pol:
                    return None
                continue
            v = cur._decide_atom(a)
            if v is not None:
                if v != pol:
                    return None
                if a in lits:
                    continue
            if a.op == "and" and pol or a.op == "or" and not pol:
                for x in a.args:
                    b, q = lit(x)
                    todo.append((b, q if pol else not q))
                continue
            if a.op == "or" and pol or a.op == "and" and not pol:
                dis = []
                for x in a.args:
                    b, q = lit(x)
                    dis.append(frozenset([(b, q if pol else not q)]))
                clauses = clauses + (frozenset(dis),)
                cur = Facts(lits, clauses, self.lossy)
                changed = True
            else:
                lits[a] = pol
                cur = Facts(lits, clauses, self.lossy)
                changed = True
                todo.extend(_consequences(a, pol))
            if not todo:
                # unit propagation on clauses
                new = []
                for cl in clauses:
                    rest = []
                    sat = False
                    for dj in cl:
                        vs = [self_decide(cur, x, q) for x, q in dj]
                        if any(v is False for v in vs):
                            continue
                        if all(v is True for v in vs):
                            sat = True
                            break
                        rest.append(dj)
                    if sat:
                        continue
                    if not rest:
                        return None
                    if len(rest) == 1:
                        todo.extend(rest[0])
                        continue
                    new.append(frozenset(rest))
                clauses = tuple(new)
                cur = Facts(lits, clauses, self.lossy)
        return cur if changed else self

    def consistent_with(self, literals):
        """False when adding the literals [(term, bool)] is contradictory."""
        f = self
        for t, pol in literals:
            f = f.assume(t, pol)
            if f is None:
                return False
        return True

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.lits.items()), frozenset(self.clauses))
        return self._key

    def __repr__(self):
        out = [("" if p else "not ") + tm.show(a) for a, p in self.lits.items()]
        for c in self.clauses:
            out.append(" OR ".join("{" + " & ".join(("" if p else "not ") + tm.show(a) for a, p in d) + "}" for d in c))
        return "[" + "; ".join(out) + "]"


def self_decide(f, a, pol):
    v = f._decide_atom(a)
    if v is None:
        return None
    return v == pol


def _pm(p):
    return [(c, m) for m, c in tm._monos(p).items()]


def _consts(p):
    if p.op == "num":
        yield p.args[0]
    elif p.op in ("poly", "len", "inf"):
        # drop monomials known to be non-negative with positive coefficient
        ms = tm._monos(p)
        rest = {}
        for m, c in ms.items():
            if m != () and c > 0 and all(_nonneg(a, e) for a, e in m):
                continue
            rest[m] = c
        if all(m == () for m in rest):
            yield rest.get((), 0)


def _less(a, b):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) - c
    return d


def _lower(d):
    """A lower bound of a polynomial whose other monomials are known to be non-negative."""
    low = 0
    for m, c in d.items():
        if c == 0:
            continue
        if m == ():
            low = c
        elif not (c > 0 and all(_nonneg(a, e) for a, e in m)):
            return None
    return low


NONNEG = set()


def _nonneg(a, e):
    if a.op in ("len", "inf", "pi", "euler", "abs", "count") or a in NONNEG:
        return True
    if a.op == "num":
        return a.args[0] >= 0
    if e.op == "num" and e.args[0].denominator == 1 and int(e.args[0]) % 2 == 0:
        return True
    if e.op == "num" and e.args[0].denominator == 2:
        return True
    return False


def _one_length(p, n):
    """(k, c) when p is k * n + c."""
    k = c = 0
    for m, v in tm._monos(p).items():
        if m == ():
            c = v
        elif len(m) == 1 and m[0][0] is n and m[0][1] is tm.ONE:
            k = v
        else:
            return None
    return (k, c) if k else None


def _ratio(p, f):
    mp, mf = tm._monos(p), tm._monos(f)
    for m in mf:
        if m != () and m in mp:
            return mp[m] / mf[m]
    return None


def _members(c):
    if c.op in ("tuple", "list", "set"):
        return c.args
    if c.op == "dict":
        return tuple(k for k, v in c.args)
    return None


def _consequences(a, pol):
    out = []
    if a.op == "in" and a.args[1].op in ("tuple", "list", "set", "dict"):
        mem = _members(a.args[1])
        if not pol:
            for m in mem:
                out.append(_l(tm.eq(a.args[0], m), False))
        elif len(mem) == 1:
            out.append(_l(tm.eq(a.args[0], mem[0]), True))
    if a.op == "in" and pol and a.args[1].op not in ("tuple", "list", "set", "dict", "s"):
        out.append(_l(tm.truth(a.args[1]), True))
    if a.op == "eq" and pol:
        x, y = a.args
        for p, q in ((x, y), (y, x)):
            if tm.is_const(q) and not tm.is_const(p):
                out.append(_l(tm.truth(p), tm.truth(q) is TRUE))
        if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
            for m, n in zip(x.args, y.args):
                out.append(_l(tm.eq(m, n), True))
    return [o for o in out if not (o[0].op == "c")]


def _l(t, pol):
    a, p = lit(t)
    return a, (p if pol else not p)


EMPTY = Facts()


def merge(fs):
    """Least upper bound of several fact sets (kept as a clause)."""
    fs = list(fs)
    first = fs[0]
    if all(f is first or f.key() == first.key() for f in fs[1:]):
        return first
    common = {a: p for a, p in first.lits.items() if all(f.lits.get(a) == p for f in fs[1:])}
    dis = set()
    empty = False
    cl = set(first.clauses)
    for f in fs[1:]:
        cl &= set(f.clauses)
    lost = False
    for f in fs:
        ds = [frozenset((a, p) for a, p in f.lits.items() if a not in common)]
        for c in f.clauses:
            # clauses of this disjunct only: distributed while small
            if c in cl:
                continue
            if len(ds) * len(c) <= 12:
                ds = [d | x for d in ds for x in c]
            else:
                lost = True
        if not all(ds):
            empty = True
        dis.update(ds)
    clauses = tuple(c for c in first.clauses if c in cl)
    if not empty:
        dis = _reduce(dis)
        if dis is not None and len(dis) == 1:
            for a, p in next(iter(dis)):
                common[a] = p
        elif dis is not None and len(dis) <= 24:
            clauses = clauses + (frozenset(dis),)
        else:
            lost = True
    return Facts(common, clauses, max(f.lossy for f in fs) + lost)


def _reduce(dis):
    """Resolution of complementary disjuncts and subsumption."""
    dis = set(dis)
    changed = True
    rounds = 0
    while changed and rounds < 60:
        changed = False
        rounds += 1
        lst = sorted(dis, key=lambda d: (len(d), sorted((a.uid, p) for a, p in d)))
        for i, d in enumerate(lst):
            for e in lst[i + 1:]:
                if d <= e:
                    dis.discard(e)
                    changed = True
                    break
                diff = d ^ e
                if len(d) == len(e) and len(diff) == 2:
                    (a, p), (b, q) = tuple(diff)
                    if a is b and p != q:
                        dis.discard(d)
                        dis.discard(e)
                        n = d & e
                        if not n:
                            return None
                        dis.add(n)
                        changed = True
                        break
                # d = {x}, e = {not x, ...}: drop "not x" from e
                if len(d) == 1:
                    (a, p), = d
                    if (a, not p) in e:
                        dis.discard(e)
                        n = e - {(a, not p)}
                        if not n:
                            return None
                        dis.add(n)
                        changed = True
                        break
            if changed:
                break
    return dis
