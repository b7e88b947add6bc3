"""Does a function of the package behave as its reference says?

Both are brought to guarded value-number form by the same analysis; every pair
of outcomes whose path facts can hold together must agree in how it ends, what
it returns, which state it leaves behind and what it asks of other parts.
"""
import ast
import sys
import time

from . import terms as tm
from . import facts as fx
from . import relate
from .terms import mk, NONE, TRUE, FALSE
from .state import Raised, Limit
from .core import Config
from .loops import lvkey
from .engine import Engine, SELF, Outcome

IMPRECISE = {"rawlv", "after", "maybe", "nextof", "unbound", "formatted", "yfret", "dictof", "ntopaque"}
BOOLS = ("eq", "pos", "in", "isinst", "not", "eq0", "hasattr", "atom", "and", "or", "truth")
IGNORED = {"print", "warnings.warn", "warnings.catch_warnings", "warnings.filterwarnings"}


class Canon:
    """Names of loops, fresh objects and counters that do not depend on source positions."""

    def __init__(self, eng, state, side=None):
        self.eng, self.st, self.side = eng, state, side
        self.lids = {}
        self.busy = set()
        self.memo = {}

    def close(self, t, depth=0):
        if isinstance(t, tuple):
            return tuple(self.close(x, depth) for x in t)
        if not isinstance(t, tm.T):
            return t
        if t in self.memo:
            return self.memo[t]
        if depth > 60:
            return mk("deep")
        r = self._close(t, depth)
        if not self.busy:
            self.memo[t] = r
        return r

    def _close(self, t, depth):
        op = t.op
        st = self.st
        if op == "ref":
            if t in self.busy:
                return mk("cycle")
            self.busy.add(t)
            try:
                if t.args[1].startswith("obj:"):
                    at = sorted((a, self.close(v, depth + 1)) for (o, a), v in st.attrs.items() if o is t)
                    return mk("object", t.args[1][4:], tuple(at))
                if t in st.cont:
                    return self.close(st.cont[t], depth + 1)
                return mk("fresh", t.args[1])
            finally:
                self.busy.discard(t)
        if op in ("num", "s", "c", "sym", "cls", "fn", "mod", "ext", "bi", "ntcls", "bv", "default"):
            return t
        if op == "elem":
            c = self.close(t.args[0], depth + 1)
            return mk("elem", c, self.lid(c, t.args[1]))
        if op == "idx":
            c = self.close(t.args[0], depth + 1)
            return mk("idx", c, self.lid(c, t.args[1]))
        if op == "sent":
            ls = self.side.lids if self.side is not None else {}
            return mk("sent", t.args[0], tuple(("loop", ls[x]) if x in ls else x for x in t.args[1]))
        if op == "while":
            return mk("while", self.lid(mk("while"), t.args[0])) if t.args else t
        if op == "seq":
            return self.close(t.args[1], depth + 1)
        if op in ("list", "tuple"):
            return mk("tuple", *[self.close(a, depth + 1) for a in t.args])
        if op in ("closure", "genobj"):
            return self.callable_name(t, depth)
        if op == "poly":
            out = tm.ZERO
            for c, m in t.args:
                p = tm.num(c)
                for a, e in m:
                    p = tm.mul(p, tm.power(self.close(a, depth + 1), self.close(e, depth + 1)))
                out = tm.add(out, p)
            return out
        if op == "dict":
            items = [(self.close(k, depth + 1), self.close(v, depth + 1)) for k, v in t.args]
            return mk("dict", *sorted(items, key=lambda kv: kv[0].uid))
        if op == "maybe" and t.args[0].op != "unbound":
            return self.close(t.args[0], depth + 1)
        if op == "lv":
            side = self.side
            if side is None:
                return mk("rawlv", "", t)
            return side.lvmap.get(t.args) or mk("rawlv", side.name, t)
        if op == "dictcomp":
            c, cases = self.close(t.args[0], depth + 1), self.close(t.args[1], depth + 1)
            if len(cases) == 1 and not cases[0][0] and isinstance(cases[0][1], tm.T) and cases[0][1].op == "tuple":
                k, v = cases[0][1].args
                if k is mk("bv", 0) and v is mk("item", c, k):      # the same keys and values: a copy
                    return c
            return mk("dictcomp", c, tm.sorted_cases(cases))
        return tm.remake(op, tuple(self.close(a, depth + 1) for a in t.args))

    def callable_name(self, t, depth):
        if t.op == "genobj":
            if t not in self.eng.gens:
                return mk("gen", *[self.close(a, depth + 1) for a in t.args[:-1]])
            f, b, parent, selft = self.eng.gens[t]
            return mk("gen", f.name, tuple(sorted((k, self.close(v, depth + 1)) for k, v in b.items())))
        f, _ = self.eng.closures[t]
        return mk("closure", f.name)

    def lid(self, c, lid):
        if self.side is not None and lid in self.side.lids:
            return ("loop", self.side.lids[lid])
        d = self.lids.setdefault(c, {})
        return d.setdefault(lid, len(d))


class Summary:
    """What is observable of one outcome."""

    def __init__(self, eng, out, opts, side=None, facts=None):
        self.out = out
        st = out.state
        cn = Canon(eng, st, side)
        self.exits = {}
        if side is not None:
            for e in out.eff:
                if e.kind == "exit" and e.data[0] in side.lids:
                    self.exits[side.lids[e.data[0]]] = e.data[1] == "next"
        self.cn = cn
        self.facts = facts if facts is not None else out.facts
        self.facts = close_facts(cn, self.facts)
        if isinstance(out.value, Raised):
            self.kind = "raise"
            self.value = mk("s", short(out.value.cls))
        else:
            self.kind = "return"
            v = out.value if out.value is not None else NONE
            self.value = cn.close(eng.content(st, v)) if v in st.cont else cn.close(v)
        if self.kind == "return" and opts.get("result"):
            self.value = opts["result"](self.value)
        self.state = final_state(eng, st.attrs, st.cont, cn, st) if opts.get("state", True) else {}
        self.shapes = {(cn.close(o), a): shape(st, v) for (o, a), v in st.attrs.items()
                       if o.op != "ref" and not local_new(o)} if opts.get("state", True) else {}
        keep = opts.get("keep")
        if keep:
            self.state = {k: v for k, v in self.state.items() if keep(k)}
        self.trace = trace(eng, out.eff, cn, st, opts)

    def describe(self):
        return f"{self.kind} {self.value}"


def short(name):
    return name.split(".")[-1]


def close_facts(cn, f):
    lits = {}
    for a, p in f.lits.items():
        b, q = fx.lit(cn.close(a))
        if b.op == "c":
            continue
        lits[b] = p if q else not p
    cls = []
    for cl in f.clauses:
        ncl = []
        for d in cl:
            nd = []
            for a, p in d:
                b, q = fx.lit(cn.close(a))
                nd.append((b, p if q else not p))
            ncl.append(frozenset(nd))
        cls.append(frozenset(ncl))
    return fx.Facts(lits, tuple(cls), f.lossy)


def final_state(eng, attrs, cont, cn, st):
    out = {}
    for (o, a), v in attrs.items():
        if o.op in ("ref", "world") or local_new(o):
            continue
        key = (cn.close(o), a)
        at = mk("attr", o, a)
        if v is at:
            if at in cont:
                out[key] = cn.close(cont[at])
            continue
        val = cn.close(eng.content(st, v))
        out[key] = val
    for k, c in cont.items():
        if k.op == "ref" or local_new(k):
            continue
        if k.op == "attr":
            key = (cn.close(k.args[0]), k.args[1])
            if (k.args[0], k.args[1]) in attrs or k.args[0].op == "ref":
                continue
        else:
            key = (cn.close(k), None)
        out[key] = cn.close(c)
    for key, v in list(out.items()):
        if key[1] is not None and v is mk("attr", key[0], key[1]):
            del out[key]
    return out


def shape(st, v, depth=0):
    """Whether a stored value is a container of its own or one that is also held elsewhere, in depth."""
    if v.op == "ref" and v.args[1] in ("list", "dict", "set", "copy") and v in st.cont:
        c = st.cont[v]
        return "own", {k: shape(st, x, depth + 1) for k, x in c.args if k.op in ("s", "num")} if c.op == "dict" and depth < 4 else {}
    if v.op == "tuple" and depth < 4:
        return "tuple", {i: shape(st, x, depth + 1) for i, x in enumerate(v.args)}
    if v.op in ("attr", "item", "sym"):
        return "held", {}
    return "other", {}


def shared(a, b):
    """The code keeps a container that is also held elsewhere where the reference keeps one of its own."""
    if a[0] == "held" and b[0] == "own":
        return True
    return a[0] == b[0] and any(shared(a[1][k], b[1][k]) for k in a[1] if k in b[1])


def local_new(t):
    return t.op in ("new", "object", "copyof")


def trace(eng, effs, cn, st, opts):
    out = []
    calls = opts.get("calls")
    for e in effs:
        if e.kind == "yield":
            snap = final_state(eng, e.at[0], e.at[1], cn, st) if opts.get("state", True) else {}
            keep = opts.get("keep")
            if keep:
                snap = {k: v for k, v in snap.items() if keep(k)}
            y = e.data[1] if e.data[1].op != "ref" else e.data[0]
            view = opts.get("yields")
            if view is not None:
                y = view(y)
                if y is None:
                    continue
            out.append(("yield", cn.close(y), snap, e))
        elif e.kind == "yieldfrom":
            out.append(("yieldfrom", cn.close(e.data[0]), {}, e))
        elif e.kind == "call":
            fn = e.data[0]
            name = fn.args[0] if fn.op in ("fn", "ext", "bi") else None
            if name == "print" and opts.get("prints"):
                out.append(("call", cn.close(mk("callto", fn, e.data[1], e.data[2])), {}, e))
                continue
            if name in IGNORED:
                continue
            if calls is not None:
                if not calls(e):
                    continue
            elif fn.op == "fn" and name not in eng.cfg.impure:
                continue
            out.append(("call", cn.close(mk("callto", fn, e.data[1], e.data[2])), {}, e))
        elif e.kind == "mut":
            recv, name, args, kw, ret = e.data
            if recv.op == "ref" or recv.op == "super":
                if recv.op == "ref":
                    continue
            if calls is not None and not calls(e):
                continue
            if ret.op == "mcall":
                out.append(("call", cn.close(mk("method", recv, name, args, tuple((k, v) for k, v in kw))), {}, e))
        elif e.kind == "loop":
            sub = [p for p in e.data.paths]
            if any(loop_visible(eng, p, e.data, opts) for p in sub):
                out.append(("loop", e.data, {}, e))
    return out


def loop_visible(eng, p, info, opts):
    if p.kind in ("return", "raise"):
        return True
    for x in p.effs:
        if x.kind in ("yield", "yieldfrom"):
            view = opts.get("yields")
            if x.kind == "yield" and view is not None and view(x.data[1] if x.data[1].op != "ref" else x.data[0]) is None:
                continue
            return True
        if x.kind == "call":
            fn = x.data[0]
            name = fn.args[0] if fn.op in ("fn", "ext", "bi") else None
            if name == "print" and opts.get("prints"):
                return True
            if name in IGNORED:
                continue
            c = opts.get("calls")
            if c(x) if c is not None else not (fn.op == "fn" and name not in eng.cfg.impure):
                return True
        elif x.kind == "mut":
            if x.data[0].op != "ref" and x.data[4].op == "mcall":
                c = opts.get("calls")
                if c is None or c(x):
                    return True
            if changes_kept(x, opts):
                return True
        elif x.kind in ("store", "setitem", "delitem"):
            if changes_kept(x, opts):
                return True
        elif x.kind == "loop":
            if any(loop_visible(eng, q, x.data, opts) for q in x.data.paths):
                return True
    return False


def changes_kept(x, opts):
    """The effect changes something outside the function that is compared."""
    o = x.data[0]
    if not opts.get("state", True) or o.op == "ref" or local_new(o):
        return False
    keep = opts.get("keep")
    if keep is None:
        return True
    return bool(keep((o, x.data[1]) if x.kind == "store" else o.args if o.op == "attr" else (o, None)))


def rawlv(side, lid, k):
    return mk("rawlv", side.name, mk("lv", lid, *lvkey(k)))


def keyname(k):
    if isinstance(k, tm.T):
        return tm.show(k)
    return k[2] if k[0] == "v" else ".".join(str(x) for x in k[1:])


def initial(cn, info, k):
    return cn.close(info.init[k])


def updated(cn, p, k, info):
    u = p.updates[k] if k in p.updates else cn.eng.current(info.head, k)
    return cn.close(u)


# ---------------------------------------------------------------- equality
def imprecise(t):
    return any(x.op in IMPRECISE and not (x.op == "nextof" and len(x.args) == 2 and isinstance(x.args[1], int)) for x in tm.walk(t))


def const_map(f):
    m = {}
    for a, p in f.lits.items():
        if a.op == "eq" and p:
            x, y = a.args
            if tm.is_const(x) and not tm.is_const(y):
                m[y] = x
            elif tm.is_const(y) and not tm.is_const(x):
                m[x] = y
        elif a.op == "eq0" and p and a.args[0].op != "poly":
            m[a.args[0]] = tm.ZERO
        elif a.op in BOOLS and a.op not in ("truth",):
            m[a] = tm.boolean(p)
    return m


def alias_map(f):
    m = {}
    for a, p in f.lits.items():
        if a.op == "eq" and p and not any(tm.is_const(x) for x in a.args):
            x, y = sorted(a.args, key=lambda t: t.uid)
            m[y] = m.get(x, x)
    return m


def same(f, a, b, depth=0):
    """True, False, or None when the analysis lost track of one of the values."""
    if a is b:
        return True
    if not isinstance(a, tm.T) or not isinstance(b, tm.T):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            rs = [same(f, x, y, depth + 1) for x, y in zip(a, b)]
            return True if all(r is True for r in rs) else (False if any(r is False for r in rs) else None)
        return a == b
    if f.decide(tm.eq(a, b)) is True:
        return True
    for mp in (const_map(f), alias_map(f)):
        if mp:
            x, y = tm.subst(a, mp), tm.subst(b, mp)
            if x is y:
                return True
    if depth == 0:
        x, y = without_empty(f, a), without_empty(f, b)
        if (x is not a or y is not b) and same(f, x, y, 1):
            return True
    da, db = decide_bool(f, a), decide_bool(f, b)
    if da is not None and da is db:
        return True
    if depth < 12 and a.op == b.op and a.op not in ("num", "s", "c", "sym", "poly", "set", "or", "and") and len(a.args) == len(b.args):
        rs = [same(f, x, y, depth + 1) for x, y in zip(a.args, b.args)]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs) is False:
            return None
    if depth < 6 and a.op == b.op and a.op in ("comp", "dictcomp", "sum") and same(f, a.args[0], b.args[0], depth + 1) is True:
        if same_choice(f, a, b, depth) and same_choice(f, b, a, depth):
            return True
    if a.op == b.op == "set" and len(a.args) == len(b.args):
        left = list(b.args)
        for x in a.args:
            hit = next((y for y in left if same(f, x, y, depth + 1) is True), None)
            if hit is None:
                break
            left.remove(hit)
        if not left:
            return True
    if grown(f, a, b) or grown(f, b, a):
        return False
    if imprecise(a) or imprecise(b):
        return None
    return False


def without_empty(f, t):
    """The same value with everything made of collections known to be empty left out."""
    none = {}

    def empty(c):
        if c not in none:
            none[c] = c.op not in ("s", "num", "c", "bv") and f.decide(tm.truth(c)) is False
        return none[c]

    def go(x):
        if x.op == "concat":
            ps = [p for p in x.args if not (p.op in ("comp", "seq") and empty(p.args[0 if p.op == "comp" else 1]) or p.op in ("list", "tuple") and not p.args)]
            if len(ps) < len(x.args):
                return ps[0] if len(ps) == 1 else mk("concat", *ps) if ps else mk("tuple")
        elif x.op == "union":
            ps = [p for p in x.args if not (p.op == "comp" and empty(p.args[0]) or p.op in ("sym", "attr", "item", "call", "elem") and empty(p))]
            if len(ps) < len(x.args):
                return tm.union(*ps) if ps else mk("set")
        elif x.op == "sum" and empty(x.args[0]):
            return tm.ZERO
        elif x.op == "merged":
            a, b = x.args
            if a.op == "dict" and not a.args or empty(a):
                return b
            if b.op == "dict" and not b.args or empty(b):
                return a
        elif x.op == "without" and len(x.args) == 2 and f.decide(mk("in", x.args[1], x.args[0])) is False:
            return x.args[0]                  # it was not there
        return x
    return tm.rebuild(t, go)


def same_choice(f, a, b, depth):
    """Whenever comprehension a makes something of an element, b makes the same of it (conditions compared by what they say)."""
    it = mk("elem", a.args[0], "any")
    left = [400]
    other = [([tm.instantiate(x, it) for x in c], tm.instantiate(v, it)) for c, v in b.args[1]]

    def undecided(g, t):
        while t.op in ("and", "or", "not"):
            t = next(x for x in t.args if g.decide(x) is None)
        return t

    def covered(g, v):
        left[0] -= 1
        if left[0] < 0:
            return False
        live = None
        for c, w in other:
            ds = [g.decide(x) for x in c]
            if all(d is True for d in ds):
                return same(g, v, w, depth + 2) is True
            if live is None and not any(d is False for d in ds):
                live = c[ds.index(None)]
        if live is None:
            return False
        t = undecided(g, live)
        for pol in (True, False):
            h = g.assume(t, pol)
            if h is not None and h.clauses:
                h = propagate(h)
            if h is not None and not covered(h, v):
                return False
        return True

    for c, v in a.args[1]:
        g = f
        for x in c:
            g = g.assume(tm.instantiate(x, it)) if g is not None else None
        for h in cases(g) if g is not None else ():
            if not covered(h, tm.instantiate(v, it)):
                return False
    return True


def grown(f, a, b):
    """a is b with an element more, or one less."""
    n = 0
    while a.op == "app":
        a, n = a.args[0], n + 1
    if n and a is b:
        return True
    return a.op == "without" and len(a.args) == 2 and a.args[0] is b and f.decide(mk("in", a.args[1], b)) is not False


def decide_bool(f, t):
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op in BOOLS:
        return f.decide(t)
    return None


def joint(f, g):
    """Facts of both, or None when they exclude each other."""
    small, big = (f.lits, g.lits) if len(f.lits) < len(g.lits) else (g.lits, f.lits)
    for a, p in small.items():
        if big.get(a, p) is not p:
            return None
    h = f
    for a, p in g.lits.items():
        h = h.assume(a, p)
        if h is None:
            return None
    if g.clauses:
        h = fx.Facts(h.lits, h.clauses + tuple(c for c in g.clauses if c not in h.clauses), max(f.lossy, g.lossy))
        lits = list(h.lits.items())
        # propagate the added clauses
        h2 = propagate(h)
        if h2 is None:
            return None
        h = h2
    return h


def propagate(h):
    for _ in range(30):
        todo = []
        new = []
        for cl in h.clauses:
            rest, sat = [], False
            for dj in cl:
                vs = [fx.self_decide(h, a, p) for a, p in dj]
                if any(v is False for v in vs):
                    continue
                if all(v is True for v in vs):
                    sat = True
                    break
                rest.append(dj)
            if sat:
                continue
            if not rest:
                return None
            if len(rest) == 1:
                todo.extend(rest[0])
            else:
                new.append(cl)
        h = fx.Facts(h.lits, tuple(new), h.lossy)
        if not todo:
            return h
        for a, p in todo:
            h = h.assume(a, p)
            if h is None:
                return None
    return h


def cases(h, budget=48):
    """The alternatives left open by the disjunctions of the facts, each with what follows from it."""
    out, todo = [], [h]
    while todo:
        f = todo.pop()
        if not f.clauses or len(todo) + len(out) > budget:
            out.append(f)
            continue
        cl = min(f.clauses, key=len)
        rest = tuple(c for c in f.clauses if c is not cl)
        for dj in sorted(cl, key=str):
            g = fx.Facts(f.lits, rest, f.lossy)
            for a, p in dj:
                g = g.assume(a, p)
                if g is None:
                    break
            if g is not None:
                g = propagate(g)
            if g is not None:
                todo.append(g)
    return out


def by_cases(h, check):
    """What check(facts) finds wrong; a second look, alternative by alternative, when it finds something."""
    bad = check(h)
    if bad and h.clauses:
        bad = [b for c in cases(h) for b in check(c)]
    return bad


def split_bool(outs):
    """Outcomes returning a condition are split into True and False."""
    res = []
    for o in outs:
        v = o.value
        if not isinstance(v, Raised) and v is not None and v.op in BOOLS:
            for pol, t in ((True, TRUE), (False, FALSE)):
                f = o.facts.assume(v, pol)
                if f is not None:
                    s = o.state.fork()
                    s.facts = f
                    res.append(Outcome(s, t))
        else:
            res.append(o)
    return res


class Mismatch:
    def __init__(self, what, impl, ref, facts, loc, sure):
        self.what, self.impl, self.ref, self.facts, self.loc, self.sure = what, impl, ref, facts, loc, sure

    def text(self):
        return f"{self.what}: code gives {tm.show(self.impl) if isinstance(self.impl, tm.T) else self.impl}, " \
               f"must be {tm.show(self.ref) if isinstance(self.ref, tm.T) else self.ref}; when {self.facts}"


def compare_summaries(ai, bi, f, opts):
    out = []

    def add(what, x, y, r):
        out.append(Mismatch(what, x, y, f, None, r is False))
    if ai.kind != bi.kind:
        add("outcome", ai.describe(), bi.describe(), False)
        return out
    if opts.get("value", True):
        r = same(f, ai.value, bi.value)
        if r is not True and not (ai.kind == "return" and opts.get("ignore_value")):
            if ai.kind == "raise":
                add("exception", ai.value, bi.value, r)
            else:
                add("result", ai.value, bi.value, r)
    forever = isinstance(ai.out.value, Raised) and "Forever" in str(ai.out.value.cls)
    if ai.kind == "raise" and not opts.get("raise_state") and not forever:
        return out
    compare_state(ai.state, bi.state, f, add)
    for k in ai.state:
        if k in bi.state and k in ai.shapes and k in bi.shapes and shared(ai.shapes[k], bi.shapes[k]):
            add(f"final {tm.show(k[0])}.{k[1]}", mk("sym", "a container that is also held elsewhere"), mk("sym", "a container of its own"), False)
    compare_trace(ai, bi, ai.trace, bi.trace, f, opts, add)
    return out


def compare_state(sa, sb, f, add):
    for k in sorted(set(sa) | set(sb), key=lambda k: (k[0].uid, str(k[1]))):
        init = mk("attr", k[0], k[1]) if k[1] is not None else k[0]
        x, y = sa.get(k, init), sb.get(k, init)
        r = same(f, x, y)
        if r is not True:
            add("final " + (f"{tm.show(k[0])}.{k[1]}" if k[1] is not None else tm.show(k[0])), x, y, r)


def compare_trace(ai, bi, ta, tb, f, opts, add):
    if opts.get("unordered"):
        tb2 = list(tb)
        order = []
        for x in ta:
            j = next((i for i, y in enumerate(tb2) if y[0] == x[0] and x[0] == "call" and same(f, x[1], y[1]) is True), None)
            if j is not None:
                tb2.pop(j)
            else:
                order.append(x)
        ta, tb = order, tb2
    for i in range(max(len(ta), len(tb))):
        if i >= len(ta):
            add("missing " + tb[i][0], "nothing", show_item(tb[i]), False)
            return
        if i >= len(tb):
            add("additional " + ta[i][0] + " at " + ta[i][3].loc, show_item(ta[i]), "nothing", False)
            return
        x, y = ta[i], tb[i]
        if x[0] != y[0]:
            add(f"step {i + 1} at {x[3].loc}", show_item(x), show_item(y), None if "loop" in (x[0], y[0]) else False)
            return
        if x[0] == "loop":
            compare_loops(ai, bi, x[1], y[1], f, opts, add)
            continue
        r = same(f, x[1], y[1])
        if r is not True:
            add(f"{x[0]} at {x[3].loc}", x[1], y[1], r)
            continue
        if x[2] or y[2]:
            compare_state(x[2], y[2], f, lambda what, p, q, r2, x=x: add(f"{what} at {x[3].loc}", p, q, r2))


def show_item(x):
    return x[0] + " " + (tm.show(x[1]) if isinstance(x[1], tm.T) else repr(x[1]))


def compare_loops(ai, bi, la, lb, f, opts, add):
    ca, cb = ai.cn.close(la.coll), bi.cn.close(lb.coll)
    r = same(f, ca, cb)
    if r is not True and la.elem is not None and lb.elem is not None:     # the same things in the same order, taken differently
        r = same(f, relate.runs_over(ai.cn, la), relate.runs_over(bi.cn, lb)) or r
    if r is not True:
        r = same(f, ai.cn.close(relate.pairs_of(la.coll)), bi.cn.close(relate.pairs_of(lb.coll))) or r
    if r is not True:
        add(f"loop at {la.loc} runs over", ca, cb, None if r is None or "while" in (ca.op, cb.op) else False)
        return
    pa = loop_summaries(ai, la, opts)
    pb = loop_summaries(bi, lb, opts)
    turns = {p.turn for p in pa} == {q.turn for q in pb}
    for p in pa:
        for q in pb:
            if turns and p.turn is not q.turn:
                continue
            h = joint(p.facts, q.facts)
            if h is None:
                continue
            h = joint(h, f)
            if h is None:
                continue
            if any(p.exits[n] != q.exits[n] for n in p.exits if n in q.exits):
                continue
            for b in by_cases(h, lambda g, p=p, q=q: compare_iteration(ai, bi, la, p, q, g, opts)):
                add(*b)


def compare_iteration(ai, bi, la, p, q, h, opts):
    bad = []
    if (p.kind == "next") != (q.kind == "next"):
        return [(f"iteration of loop at {la.loc}", p.kind, q.kind, False)]
    if p.kind != q.kind:
        return []
    if p.kind in ("return", "raise"):
        r = same(h, p.value, q.value)
        if r is not True:
            bad.append((f"{p.kind} in loop at {la.loc}", p.value, q.value, r))

    def add(what, x, y, r):
        bad.append((what + f" (loop at {la.loc}, when {h})", x, y, r))
    compare_state(p.state, q.state, h, add)
    compare_trace(ai, bi, p.trace, q.trace, h, opts, add)
    return bad


class LoopSummary:
    pass


def loop_summaries(side, info, opts):
    res = []
    eng = side.cn.eng
    for p in info.paths:
        s = LoopSummary()
        cn = Canon(eng, p.state, side.cn.side)
        cn.lids = side.cn.lids
        s.kind = p.kind
        s.facts = close_facts(cn, p.facts)
        s.exits = relate.exits(side.cn.side, p.effs) if side.cn.side is not None else {}
        v = p.val
        s.value = mk("s", short(v.cls)) if isinstance(v, Raised) else (cn.close(v) if v is not None else NONE)
        st = {}
        if opts.get("state", True):
            full = final_state(eng, p.state.attrs, p.state.cont, cn, p.state)
            head = final_state(eng, info.head.attrs, info.head.cont, Canon(eng, info.head, side.cn.side), info.head)
            st = {k: v for k, v in full.items() if head.get(k) is not v}
            keep = opts.get("keep")
            if keep:
                st = {k: v for k, v in st.items() if keep(k)}
        s.state = st
        s.trace = trace(eng, p.effs, cn, p.state, opts)
        s.turn = cn.close(p.turn) if p.turn is not None else None
        res.append(s)
    return res


def parameters(f):
    """[(name, default or None)] of the positional parameters a caller gives."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    defaults = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
    out = list(zip(names, defaults))
    return out[1:] if names[:1] in (["self"], ["cls"]) else out


def bind_positions(f, g, args):
    """Parameters of the code are known by the names the reference gives to their positions."""
    a, b = f.node.args, g.node.args
    mine = [x.arg for x in a.posonlyargs + a.args]
    theirs = [x.arg for x in b.posonlyargs + b.args]
    if f.cls is not None and f.parent is None and f.kind != "static":
        mine = mine[1:]
        theirs = theirs[1:] if theirs and theirs[0] in ("self", "cls") else theirs
    elif theirs and theirs[0] == "self":
        theirs = theirs[1:]
    defaults = dict(zip(mine[len(mine) - len(a.defaults):], a.defaults)) if a.defaults else {}
    for i, name in enumerate(mine):
        if i < len(theirs):
            if theirs[i] != name:
                args[name] = args[theirs[i]] if theirs[i] in args else mk("sym", theirs[i])
        elif name in defaults and isinstance(defaults[name], ast.Constant) and name not in args:
            args[name] = tm.const(defaults[name].value)


def used(summaries):
    out = set()
    for s in summaries:
        out |= relate.raw_lvs(s.value, tuple(s.facts.lits), s.facts.clauses, s.state, tuple((x[1], x[2]) for x in s.trace))
    return out


def compare(prog, impl, ref, cfg=None, ref_cfg=None, args=None, ref_args=None, selft=None, cls=None, facts=None,
            setup=None, catch=(), instance=0, deadline=None, split=False, search=False, **opts):
    """[(Mismatch)], with the two engines for evidence."""
    mkcfg = cfg or Config
    ea, eb = Engine(prog, mkcfg()), Engine(prog, (ref_cfg or mkcfg)())
    if cls:
        ea.cfg.types[SELF] = cls
        eb.cfg.types[SELF] = cls
    ea.cfg.unroll = eb.cfg.unroll = instance
    ea.cfg.split = eb.cfg.split = split
    ea.cfg.search = eb.cfg.search = search
    ea.cfg.deadline = eb.cfg.deadline = deadline
    f = prog.funcs[impl]
    args, rargs = dict(args or {}), dict(args or {}) if ref_args is None else dict(ref_args)
    bind_positions(f, prog.funcs[ref], args)
    if f.cls is not None and f.parent is None and "self" not in rargs:
        rargs["self"] = selft or SELF
        eb.cfg.types.setdefault(selft or SELF, cls or f.cls.qual)
    oa = split_bool(ea.run(impl, args=args, selft=selft, facts=facts, setup=setup, catch=catch))
    ob = split_bool(eb.run(ref, args=rargs, facts=facts, setup=setup, catch=catch))
    A, B = relate.Side("code", ea, oa), relate.Side("ref", eb, ob)
    sa = [Summary(ea, o, opts, A) for o in oa]
    sb = [Summary(eb, o, opts, B) for o in ob]
    bad, pairs = [], 0
    if A.loops and B.loops and not instance:
        rel = relate.Relation(sys.modules[__name__], A, B, used(sa), used(sb), opts)
        rel.run()
        pairs += rel.pairs
        for m in rel.bad:
            m.loc = f.loc()
            bad.append(m)
        sa = [Summary(ea, o, opts, A) for o in oa]
        sb = [Summary(eb, o, opts, B) for o in ob]
    seen = set()
    of = set()
    for e, outs in ((ea, oa), (eb, ob)):
        of |= {u for t in e.instances for u in (t, Canon(e, outs[0].state).close(t) if outs else t)}
    for x in sa:
        hit = 0
        if instance and any(m.sure for m in bad):
            break
        if deadline is not None and time.time() > deadline:
            break
        for y in sb:
            if any(x.exits[n] != y.exits[n] for n in x.exits if n in y.exits):
                continue
            h = joint(x.facts, y.facts)
            if h is None:
                continue
            hit += 1
            pairs += 1
            ms = by_cases(h, lambda g: compare_summaries(x, y, g, opts))
            for m in ms:
                m.sure = m.sure and not (instance and hidden(of, m))
                m.loc = x.out.value.loc if isinstance(x.out.value, Raised) and x.out.value.loc else f.loc()
                key = (m.what, str(m.impl), str(m.ref))
                if key in seen:
                    continue
                seen.add(key)
                bad.append(m)
        if not hit:
            bad.append(Mismatch("coverage", "a path of the code", "no path of the reference", x.facts, f.loc(), None))
    return bad, pairs, ea, eb, sa, sb


def hidden(of, m):
    """Does a difference in an instance depend on something not spelled out for it?"""
    return not (plain(of, m.impl) and plain(of, m.ref) and all(plain(of, a) for a in m.facts.lits) and
                all(plain(of, a) for cl in m.facts.clauses for dj in cl for a, _ in dj))


def plain(of, t):
    """In an instance, a term that does not hide what depends on the elements of the collections looked at."""
    if isinstance(t, tuple):
        return all(plain(of, x) for x in t)
    if not isinstance(t, tm.T):
        return True
    if t in of or t.op in ("bv", "elem", "idx", "lv", "rawlv", "carried"):
        return False
    if t.op in ("item", "len", "truth", "isinst") and t.args[0] in of:
        return t.op != "item" or t.args[1].op == "num" or t.args[1].op == "item" and t.args[1].args[0] is t.args[0] and t.args[1].args[1].op == "num"
    if t.op == "in" and t.args[1] in of:
        return t.args[0].op == "item" and t.args[0].args[0] is t.args[1]
    return all(plain(of, x) for x in t.args)
