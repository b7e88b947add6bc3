"""Abstract states, effects and control-flow outcomes of the interpreter."""
from . import facts as fx


class Limit(Exception):
    """The analysis cannot follow the code (reported as undecided)."""


class Raised:
    __slots__ = ("exc", "loc")

    def __init__(self, exc, loc=None):
        self.exc, self.loc = exc, loc

    def __repr__(self):
        return f"Raised({self.exc})"

    @property
    def cls(self):
        return self.exc.args[0]


class Eff:
    """One observable effect.

    kind: store(obj, attr, val) setitem(obj, key, val) delitem(obj, key)
          mut(recv, method, args, kwargs) call(fn, args, kwargs) new(cls, ...)
          yield(val) yieldfrom(val) loop(LoopInfo)
    """
    __slots__ = ("kind", "data", "loc", "fn", "facts", "_k", "at")

    def __init__(self, kind, data, loc, fn, facts):
        self.kind, self.data, self.loc, self.fn, self.facts = kind, data, loc, fn, facts
        self._k = None
        self.at = None           # (attrs, cont) where control leaves the function

    def key(self):
        if self._k is None:
            d = self.data
            if self.kind == "loop":
                d = d.key()
            self._k = (self.kind, d, self.loc)
        return self._k

    def __repr__(self):
        return f"{self.kind}{self.data!r}@{self.loc}"


class IterPath:
    """One way through the body of a loop over an unknown collection."""

    def __init__(self, kind, facts, effs, updates, val, state):
        self.kind, self.facts, self.effs = kind, facts, effs
        self.updates, self.val, self.state = updates, val, state
        self.turn = None         # the element, when the collection is known to have several kinds of them

    def key(self):
        return (self.kind, tuple(e.key() for e in self.effs),
                frozenset(self.updates.items()), self.val)


class LoopInfo:
    def __init__(self, lid, coll, elem, loc, fn, carried, init, paths, head):
        self.lid, self.coll, self.elem, self.loc, self.fn = lid, coll, elem, loc, fn
        self.carried, self.init, self.paths, self.head = carried, init, paths, head
        self.final = {}

    def key(self):
        return (self.lid, self.coll, tuple(p.key() for p in self.paths))

    def __repr__(self):
        return f"<loop over {self.coll} at {self.loc}: {len(self.paths)} paths>"


class State:
    __slots__ = ("frames", "attrs", "cont", "facts", "eff", "seq")

    def __init__(self):
        self.frames, self.attrs, self.cont = {}, {}, {}
        self.facts = fx.EMPTY
        self.eff = ()
        self.seq = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.attrs = dict(self.attrs)
        s.cont = dict(self.cont)
        s.facts, s.eff = self.facts, self.eff
        s.seq = dict(self.seq)
        return s

    def with_facts(self, f):
        s = self.fork()
        s.facts = f
        return s

    def count(self, key):
        n = self.seq.get(key, 0)
        self.seq[key] = n + 1
        return n

    def key(self):
        return (frozenset((k, frozenset(v.items())) for k, v in self.frames.items()),
                frozenset(self.attrs.items()), frozenset(self.cont.items()),
                tuple(e.key() for e in self.eff))


def _vkey(v):
    if isinstance(v, Raised):
        return ("R", v.exc)
    return v


def merge_pairs(pairs):
    """Merge (state, value) pairs that differ only in their facts."""
    if len(pairs) < 2:
        return pairs
    groups = {}
    order = []
    for s, v in pairs:
        k = (s.key(), _vkey(v))
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append((s, v))
    if len(order) == len(pairs):
        return pairs
    out = []
    for k in order:
        g = groups[k]
        if len(g) == 1:
            out.append(g[0])
            continue
        s = g[0][0].fork()
        s.facts = fx.merge([x.facts for x, _ in g])
        if s.eff:
            neweff = []
            for i, e in enumerate(s.eff):
                fs = [x.eff[i].facts for x, _ in g]
                if all(f is fs[0] for f in fs):
                    neweff.append(e)
                else:
                    n = Eff(e.kind, e.data, e.loc, e.fn, fx.merge(fs))
                    n.at = e.at
                    neweff.append(n)
            s.eff = tuple(neweff)
        for x, _ in g[1:]:
            for kk, n in x.seq.items():
                if n > s.seq.get(kk, 0):
                    s.seq[kk] = n
        out.append((s, g[0][1]))
    return out
