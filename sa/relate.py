"""Loops of the code against loops of the reference: an inductive relation.

Two loops over the same collection run in step. Which carried value of one is
which of the other is searched for; the pairing counts when the values agree
before the loop and every iteration that both can take keeps them in agreement
and leaves (or stays) on both sides. Then the values carried, and hence those
after the loop, are the same on both sides, for any number of iterations.
"""
import itertools

from . import terms as tm
from . import facts as fx
from .terms import mk
from .core import EPOCH
from .state import Raised


EPOCH_KEY = ("a",) + EPOCH


def loops_in(outs, trace_of=lambda o: o.eff):
    """lid -> [(info, facts at entry)], outer loops before the ones inside them."""
    found, seen = {}, set()

    def visit(effs):
        for e in effs:
            if e.kind == "loop":
                if id(e.data) not in seen:
                    seen.add(id(e.data))
                    found.setdefault(e.data.lid, []).append((e.data, e.facts))
                    for p in e.data.paths:
                        visit(p.effs)
    for o in outs:
        visit(trace_of(o))
    return found


def raw_lvs(*things):
    out = set()

    def walk(t):
        if isinstance(t, tm.T):
            for x in tm.walk(t):
                if x.op == "rawlv":
                    out.add(x)
        elif isinstance(t, (tuple, list, set, frozenset)):
            for x in t:
                walk(x)
        elif isinstance(t, dict):
            for k, v in t.items():
                walk(k)
                walk(v)
    for t in things:
        walk(t)
    return out


class Side:
    """One function: its loops, and the shared names of what they carry."""

    def __init__(self, name, eng, outs):
        self.name, self.eng = name, eng
        self.loops = loops_in(outs)
        self.lvmap = {}          # (lid, key, kind) -> shared name
        self.lids = {}           # lid -> number of the matched loop


def exits(side, effs):
    """matched loop -> whether it ran to its end, along one path."""
    return {side.lids[e.data[0]]: e.data[1] == "next" for e in effs if e.kind == "exit" and e.data[0] in side.lids}


def pairs_of(c):
    """The dictionary whose values or items these are."""
    return c.args[0] if c.op == "mcall" and c.args[1] in ("values", "items") else c


def runs_over(cn, info):
    """What a loop goes through, however its keys and values are asked for."""
    if info.coll.op == "while":
        return mk("while")
    c = info.elem.args[0] if info.elem is not None else tm.base_of(pairs_of(info.coll))
    outer = tm.over_keys(pairs_of(info.coll))
    stripped = []
    while outer.op in ("sorted", "reversed", "bounded", "setof"):
        stripped.append(mk(outer.op, *outer.args[1:]))
        outer = tm.over_keys(pairs_of(outer.args[0]))
    return mk("over", cn.close(c), cn.close(tuple(stripped)))


class Relation:
    def __init__(self, cmpmod, A, B, used_a, used_b, opts):
        self.m, self.A, self.B, self.opts = cmpmod, A, B, opts
        self.used_a, self.used_b = used_a, used_b
        self.bad, self.n = [], 0
        self.count = 0
        self.pairs = 0

    def canon(self, side, state):
        return self.m.Canon(side.eng, state, side)

    def run(self):
        left = list(self.B.loops)
        found, bad = [], {}
        self.need_a, self.need_b = self.needed(self.A, self.used_a), self.needed(self.B, self.used_b)
        for la, ias in self.A.loops.items():
            fit = []
            dull = self.dull(ias, self.need_a[la])
            for lb in left:
                if dull and not self.dull(self.B.loops[lb], self.need_b[lb]):
                    continue                  # only makes a collection: not to take the place of a loop that does something
                pairs = self.consistent(ias, self.B.loops[lb])
                if not pairs:
                    continue
                ia, ib, f = pairs[0]
                if self.same_coll(ia, ib, f):
                    apart = abs(len(self.need_a[la]) - len(self.need_b[lb]))
                    fit.append((-self.affinity(ia, ib), apart, len(fit), lb, pairs))
            best = None
            for _, _, _, lb, pairs in sorted(fit, key=lambda x: x[:3])[:3]:
                m = self.matched(la, lb, pairs)
                b = self.match(*m)
                if best is None or len(b) < len(best[1]):
                    best = m, b
                if not b:
                    break
                del self.A.lids[la], self.B.lids[lb]
                self.unname(la, lb)
            if best:
                m, b = best
                self.A.lids[la] = self.B.lids[m[1]] = m[3]
                if b:
                    b = self.match(*m)
                found.append(m)
                bad[la] = b
                left.remove(m[1])
        for _ in range(2 if len(found) > 1 else 0):
            # later turns see the names given to the other loops
            for m in found:
                bad[m[0]] = self.match(*m)
            if not any(bad.values()):
                break
        self.bad = [b for bs in bad.values() for b in bs]

    def dull(self, infos, need):
        """Nothing happens in the loop and nothing depends on what it carries."""
        return not need and all(p.kind == "next" and not p.effs for info, _ in infos for p in info.paths)

    def affinity(self, ia, ib):
        """How many places outside the functions both loops work on, less those only one does."""
        cna, cnb = self.canon(self.A, ia.head), self.canon(self.B, ib.head)
        pa = {self.place(cna, k) for k in ia.carried} - {None}
        pb = {self.place(cnb, k) for k in ib.carried} - {None}
        return len(pa & pb) - len(pa ^ pb)

    def coll(self, side, info):
        return runs_over(self.canon(side, info.head), info)

    def same_coll(self, ia, ib, f):
        return self.m.same(f, self.coll(self.A, ia), self.coll(self.B, ib)) is True

    def consistent(self, ias, ibs):
        out = []
        for ia, fa in ias:
            ca = self.m.close_facts(self.canon(self.A, ia.head), fa)
            for ib, fb in ibs:
                h = self.m.joint(ca, self.m.close_facts(self.canon(self.B, ib.head), fb))
                if h is not None:
                    out.append((ia, ib, h))
        return out

    def needed(self, side, used):
        """loop -> carried keys on which something observable depends, across loops."""
        name, deps, need = {}, {}, set()
        for lid, infos in side.loops.items():
            for info, _ in infos:
                for k in info.carried:
                    name[self.m.rawlv(side, lid, k)] = (lid, k)
        need |= {name[t] for t in used if t in name}
        for lid, infos in side.loops.items():
            for info, _ in infos:
                for p in info.paths:
                    cn = self.canon(side, p.state)
                    need |= {name[t] for t in raw_lvs(self.m.close_facts(cn, p.facts).lits, self.m.close_facts(cn, p.facts).clauses) if t in name}
                    for item in self.m.trace(side.eng, p.effs, cn, p.state, self.opts):
                        if item[0] != "loop":
                            need |= {name[t] for t in raw_lvs(item[1], item[2]) if t in name}
                    for k, u in p.updates.items():
                        deps.setdefault((lid, k), set()).update(name[t] for t in raw_lvs(cn.close(u)) if t in name)
                cn = self.canon(side, info.head)
                for k in info.carried:
                    if k in info.init:
                        deps.setdefault((lid, k), set()).update(name[t] for t in raw_lvs(self.m.initial(cn, info, k)) if t in name)
        todo = list(need)
        while todo:
            for j in deps.get(todo.pop(), ()):
                if j not in need:
                    need.add(j)
                    todo.append(j)
        out = {lid: [] for lid in side.loops}
        for lid, k in need:
            out[lid].append(k)
        return {lid: sorted(ks, key=str) for lid, ks in out.items()}

    def matched(self, la, lb, pairs):
        n = self.n
        self.n += 1
        A, B = self.A, self.B
        A.lids[la] = B.lids[lb] = n
        ka, kb = ([k for k in ks if k != EPOCH_KEY] for ks in (self.need_a[la], self.need_b[lb]))
        self.in_places(la, lb, pairs, pairs[0][0].carried, pairs[0][1].carried, n)
        cna, cnb = self.canon(A, pairs[0][0].head), self.canon(B, pairs[0][1].head)
        # fields carried on either side are compared in any case, unless set aside
        for cn, carried, into in ((cna, pairs[0][0].carried, ka), (cnb, pairs[0][1].carried, kb)):
            into += [k for k in sorted(carried, key=str) if k != EPOCH_KEY and k not in into and self.kept(cn, k)]
        return la, lb, pairs, n, ka, kb

    def match(self, la, lb, pairs, n, ka, kb):
        A, B = self.A, self.B
        cna, cnb = self.canon(A, pairs[0][0].head), self.canon(B, pairs[0][1].head)
        fixed = self.in_places(la, lb, pairs, ka, kb, n)
        free_a = [k for k in ka if k not in [x for x, _ in fixed]]
        free_b = [k for k in kb if k not in [y for _, y in fixed]]
        alone = self.one_sided(la, lb, pairs, n, fixed, free_a, free_b)
        fixed = fixed + alone
        loc_a = [k for k in free_a if self.place(cna, k) is None]
        loc_b = [k for k in free_b if self.place(cnb, k) is None]
        best = None
        for mapping in self.mappings(loc_a, loc_b):
            full = self.in_places(la, lb, pairs, free_a, free_b, n, fixed + mapping)    # places inside what is carried
            bad = self.verify(la, lb, pairs, full, n)
            score = (sum(1 for b in bad if b.sure), len(bad))
            if best is None or score < best[0]:
                best = (score, full, bad)
            if score == (0, 0):
                break
        _, full, bad = best
        self.name(la, lb, full, n)
        whole = {k for k, _ in full} >= set(ka) and {j for _, j in full} >= set(kb)
        for b in bad:
            if not whole:
                b.sure = False
        return bad

    def in_places(self, la, lb, pairs, ka, kb, n, known=()):
        """Pairs of keys of values both sides keep in the same place outside the functions.

        What is held in a place may itself be a place, so names are given to
        those that are known before the others are looked for.
        """
        out = list(known)
        left, todo = ([k for k in ks if k != EPOCH_KEY and k not in [x[i] for x in out]] for i, ks in ((1, kb), (0, ka)))
        while True:
            self.name(la, lb, out, n)
            cna, cnb = self.canon(self.A, pairs[0][0].head), self.canon(self.B, pairs[0][1].head)
            new = []
            for k in todo:
                c = self.place(cna, k)
                hit = next((j for j in left if self.place(cnb, j) is c), None) if c is not None else None
                if hit is not None:
                    new.append((k, hit))
                    left.remove(hit)
            if not new:
                return out
            out += new
            todo = [k for k in todo if k not in [x for x, _ in new]]

    def one_sided(self, la, lb, pairs, n, fixed, free_a, free_b):
        """What only one side changes in the loop is, on the other, what it was before."""
        out = []
        for side, l, mine, theirs, keys in ((self.A, la, pairs[0][0], pairs[0][1], free_a), (self.B, lb, pairs[0][1], pairs[0][0], free_b)):
            for k in keys:
                self.name(la, lb, fixed + out, n)
                cn, co = self.canon(side, mine.head), self.canon(self.B if side is self.A else self.A, theirs.head)
                c = self.place(cn, k)
                if c is None or c.op == "held":
                    continue
                v = self.value_at(co, c, k[0])
                if side.name in {x.args[0] for x in tm.walk(v) if x.op == "rawlv"}:
                    continue
                out.append((k, v) if side is self.A else (v, k))
        return out

    def value_at(self, cn, c, kind):
        st = cn.st
        if kind == "a":
            for (o, name), v in st.attrs.items():
                if isinstance(o, tm.T) and mk("attr", cn.close(o), name) is c:
                    return cn.close(v)
            if c.args[1] in cn.eng.cfg.volatile and EPOCH in st.attrs:
                return mk("at", c, cn.close(st.attrs[EPOCH]))
            return c
        for t, v in st.cont.items():
            if cn.close(t) is c:
                return cn.close(v)
        return c

    def kept(self, cn, k):
        if not self.opts.get("state", True):
            return False
        if k[0] == "a":
            at = k[1:]
        elif k[0] == "c" and k[1].op == "attr":
            at = k[1].args
        elif k[0] == "c" and k[1].op != "ref":
            at = (k[1], None)
        else:
            at = self.holder(cn, k)
        if not at:
            return False
        return not self.opts.get("keep") or bool(self.opts["keep"]((cn.close(at[0]), at[1])))

    def holder(self, cn, k):
        """The field that holds a new object whose content is carried."""
        if k[0] != "c" or k[1].op != "ref":
            return None
        held = [a for a, v in cn.st.attrs.items() if v is k[1] and isinstance(a[0], tm.T) and a[0].op != "ref"]
        return min(held, key=str, default=None)

    def place(self, cn, k):
        """Where outside the function a carried value is kept, if anywhere."""
        if k[0] == "a":
            return mk("attr", cn.close(k[1]), k[2])
        if k[0] != "c":
            return None
        if k[1].op != "ref":
            return cn.close(k[1])
        at = self.holder(cn, k)
        return mk("held", cn.close(at[0]), at[1]) if at else None

    def mappings(self, a, b):
        """Pairings of local carried values, same names first."""
        same = [(k, next((j for j in b if j[0] == k[0] == "v" and j[2] == k[2]), None)) for k in a]
        same = [(k, j) for k, j in same if j is not None]
        ra = [k for k in a if k not in [x for x, _ in same]]
        rb = [j for j in b if j not in [y for _, y in same]]
        small = min(len(ra), len(rb))
        seen = 0
        if len(ra) <= len(rb):
            for perm in itertools.permutations(rb, small):
                yield same + list(zip(ra, perm))
                seen += 1
                if seen > 60:
                    return
        else:
            for perm in itertools.permutations(ra, small):
                yield same + list(zip(perm, rb))
                seen += 1
                if seen > 60:
                    return
        if same and len(a) <= 4:
            for perm in itertools.permutations(b, min(len(a), len(b))):
                yield list(zip(a, perm))

    def unname(self, la, lb):
        for side, l in ((self.A, la), (self.B, lb)):
            for key in [k for k in side.lvmap if k[0] == l]:
                del side.lvmap[key]

    def name(self, la, lb, full, n):
        self.unname(la, lb)
        # the moment an iteration starts: what others left behind by then is the same for both
        full = [(EPOCH_KEY, EPOCH_KEY), *full]
        for i, (k, j) in enumerate(full, -1):
            t = mk("carried", n, i)
            for side, l, key, other in ((self.A, la, k, j), (self.B, lb, j, k)):
                if isinstance(key, tuple):
                    side.lvmap[(l,) + self.m.lvkey(key)] = other if isinstance(other, tm.T) else t

    def verify(self, la, lb, pairs, full, n):
        self.name(la, lb, full, n)
        m = self.m
        bad = []
        for ia, ib, _ in pairs:
            cna, cnb = self.canon(self.A, ia.head), self.canon(self.B, ib.head)
            fa = m.close_facts(cna, ia.head.facts)
            fb = m.close_facts(cnb, ib.head.facts)
            f = m.joint(fa, fb)
            if f is None:
                continue
            for k, j in full:
                if any(isinstance(i, tuple) and i not in info.init for i, info in ((k, ia), (j, ib))):
                    continue
                x, y = (i if isinstance(i, tm.T) else m.initial(cn, info, i) for i, cn, info in ((k, cna, ia), (j, cnb, ib)))
                if any(v.op == "maybe" for v in (x, y)):
                    continue        # not assigned before the loop on one side, so not read unless assigned in it
                r = m.same(f, x, y)
                if r is not True:
                    bad.append(self.mis(f"start of the loop at {ia.loc} ({m.keyname(k)})", x, y, f, r))
            apart = different_turns(cna, cnb, ia, ib)
            for p in ia.paths:
                pa = self.canon(self.A, p.state)
                gp = m.close_facts(pa, p.facts)
                for q in ib.paths:
                    if apart(p.turn, q.turn):
                        continue
                    qb = self.canon(self.B, q.state)
                    h = m.joint(gp, m.close_facts(qb, q.facts))
                    self.pairs += 1
                    if h is None:
                        continue
                    xa, xb = exits(self.A, p.effs), exits(self.B, q.effs)
                    if any(xa[i] != xb[i] for i in xa if i in xb):
                        continue        # the loops inside are in step themselves
                    bad += m.by_cases(h, lambda g, p=p, q=q, pa=pa, qb=qb: self.iteration(ia, ib, p, q, pa, qb, full, g))
        return bad

    def iteration(self, ia, ib, p, q, pa, qb, full, h):
        m, bad = self.m, []
        if (p.kind == "next") != (q.kind == "next"):
            return [self.mis(f"iteration of the loop at {ia.loc}", p.kind, q.kind, h, False)]
        if p.kind != "next":
            return []
        for k, j in full:
            if k not in p.updates and j not in q.updates:
                continue
            x, y = (i if isinstance(i, tm.T) else m.updated(cn, path, i, info) for i, cn, path, info in ((k, pa, p, ia), (j, qb, q, ib)))
            r = m.same(h, x, y)
            if r is not True:
                bad.append(self.mis(f"what an iteration of the loop at {ia.loc} carries on ({m.keyname(k)})", x, y, h, r))
        return bad

    def mis(self, what, x, y, f, r):
        sure = r is False
        if any(a.op == "rawlv" or any(z.op == "rawlv" for z in tm.walk(a)) for a in f.lits):
            sure = False
        m = self.m.Mismatch(what, x, y, f, None, sure)
        m.loc = what
        return m


def different_turns(cna, cnb, ia, ib):
    """Iterations for different elements need not agree, when both loops run over the same kinds of elements."""
    a = {p.turn: cna.close(p.turn) for p in ia.paths if p.turn is not None}
    b = {q.turn: cnb.close(q.turn) for q in ib.paths if q.turn is not None}
    if set(a.values()) != set(b.values()):
        return lambda x, y: False
    return lambda x, y: x in a and y in b and a[x] is not b[y]
