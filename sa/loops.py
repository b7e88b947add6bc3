"""Loops: literal collections are unrolled, all others analysed by one generic
iteration whose carried values are unknown (found by a fixpoint)."""
import ast
from . import terms as tm
from . import facts as fx
from .terms import mk, NONE, TRUE, FALSE, ZERO
from .state import Raised, Limit, Eff, LoopInfo, IterPath, merge_pairs
from .libs import sum_term, exists_in

UNROLL = 24


FIXED = frozenset("isinst truth eq is lt le in not sym attr item s num c cls len slice tuple merged".split())


def lvkey(k):
    """Arguments after the loop id of the value a carried key has at the loop head."""
    if k[0] == "v":
        return k[2], "v"
    if k[0] == "c" and k[1].op == "ref":
        return ("ref",) + k[1].args, "c"
    return k[1:], k[0]


def changed_part(node):
    """The dictionary of `for key, value in dictionary.items()` when the body stores into the value."""
    it, tg = getattr(node, "iter", None), getattr(node, "target", None)
    if not (isinstance(node, ast.For) and isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and isinstance(it.func.value, (ast.Name, ast.Attribute))
            and isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and isinstance(tg.elts[1], ast.Name)):
        return None
    for x in node.body:
        for y in ast.walk(x):
            if isinstance(y, ast.Subscript) and isinstance(y.ctx, (ast.Store, ast.Del)):
                while isinstance(y, (ast.Subscript, ast.Attribute)):
                    y = y.value
                if isinstance(y, ast.Name) and y.id == tg.elts[1].id:
                    return it.func.value
    return None


class Loops:
    def iterate(self, node, v, st, fr, target, body):
        """Outcomes of running body(state) for each element of v."""
        c = self.content(st, v)
        while c.op == "seq":
            c = self.inner(st, c.args[1])

        def bound(s, el):
            if target is None:
                s.frames.setdefault(fr.fid, {})["<elem>"] = el
                r = [(s, NONE)]
            else:
                r = self.assign(target, el, s, fr, node)
            out = []
            for s2, x in r:
                out.extend([("raise", s2, x)] if isinstance(x, Raised) else body(s2))
            return out
        if c in self.gens:
            return self.iterate_gen(c, st, fr, node, bound)
        ty = self.type_of(c)
        if ty and not ty.startswith("nt:") and ty != "ndarray":
            f = self.prog.find_method(ty, "__iter__")
            if f is not None:
                out = []
                for s, g in self.call_func(f, [], [], st, node, selft=c, fr=fr):
                    if isinstance(g, Raised):
                        out.append(("raise", s, g))
                    else:
                        out.extend(self.iterate(node, g, s, fr, target, body) if not g.op == "call"
                                   else self.opaque_loop(node, c, s, fr, bound))
                return out
        els = None
        if c.op in ("tuple", "list", "set"):
            els = c.args
        elif c.op == "dict":
            els = tuple(k for k, _ in c.args)
        elif c.op == "ntv":
            els = c.args[2]
        elif c.op == "s" and len(c.args[0]) <= UNROLL:
            els = tuple(mk("s", ch) for ch in c.args[0])
        if els is not None and len(els) <= UNROLL:
            return self.unrolled(els, st, bound)
        return self.opaque_loop(node, c, st, fr, bound)

    def unrolled(self, els, st, bound):
        cur, out = [st], []
        for i, el in enumerate(els):
            nxt = []
            self.turns.append(i)
            for s in cur:
                for k, s2, v in bound(s, el):
                    if k in ("next", "continue"):
                        nxt.append((s2, NONE))
                    else:
                        out.append((k, s2, v))
            self.turns.pop()
            cur = [s for s, _ in merge_pairs(nxt)]
            if len(cur) + len(out) > self.cfg.max_states:
                raise Limit("too many paths in a loop")
            if not cur:
                break
        return out + [("next", s, None) for s in cur]

    def iterate_gen(self, g, st, fr, node, bound):
        def sink(s, x):
            out = []
            for k, s2, v in bound(s, x):
                if k in ("next", "continue"):
                    out.append((s2, NONE))
                elif k == "raise":
                    out.append((s2, v))
                else:
                    out.append((s2, Raised(mk("excv", "$ctl", mk("s", k), v if v is not None else NONE))))
            return out
        out = []
        for s, r in self.run_gen(g, st, fr, node, sink):
            if isinstance(r, Raised):
                if r.cls == "$ctl":
                    out.append((r.exc.args[1].args[0], s, r.exc.args[2]))
                else:
                    out.append(("raise", s, r))
            else:
                out.append(("next", s, None))
        return out

    # ------------------------------------------------------------ generic elements
    def elements(self, st, c, lid, depth=0):
        """Generic elements: [(assumptions, value, base element or None)]."""
        c = self.inner(st, c)
        while c.op in ("seq", "sorted", "reversed", "bounded", "setof"):
            c = self.inner(st, c.args[1] if c.op == "seq" else c.args[0])
        op = c.op
        if op in ("tuple", "list", "set"):
            return [((), x, None) for x in c.args]
        if op == "dict":
            return [((), k, None) for k, _ in c.args]
        if op == "comp":
            e = mk("elem", tm.base_of(c.args[0]), lid)
            out = []
            for cond, val in c.args[1]:
                asm = tuple(tm.instantiate(x, e) for x in cond) + (mk("in", e, tm.base_of(c.args[0])),)
                out.append((asm, tm.instantiate(val, e), e))
            return out
        if op == "dictcomp":
            e = mk("elem", tm.base_of(c.args[0]), lid)
            out = []
            for cond, val in c.args[1]:
                asm = tuple(tm.instantiate(x, e) for x in cond) + (mk("in", e, tm.base_of(c.args[0])),)
                v = tm.instantiate(val, e)
                out.append((asm, v.args[0] if v.op == "tuple" else mk("item", v, tm.ZERO), e))
            return out
        if op == "mcall" and c.args[1] == "keys":
            return self.elements(st, c.args[0], lid, depth)
        if op == "mcall" and c.args[1] in ("values", "items"):
            b = c.args[0]
            if b.op in ("dictcomp", "comp"):
                out = []
                e = mk("elem", tm.base_of(b.args[0]), lid)
                for cond, val in b.args[1]:
                    asm = tuple(tm.instantiate(x, e) for x in cond) + (mk("in", e, tm.base_of(b.args[0])),)
                    v = tm.instantiate(val, e)
                    if v.op == "tuple" and len(v.args) == 2:
                        out.append((asm, v.args[1] if c.args[1] == "values" else v, e))
                        continue
                    out.append((asm, mk("item", v, tm.ONE) if c.args[1] == "values" else v, e))
                return out
            if b.op in ("upd", "merged", "dict") and depth < 6:
                out = []
                for asm, k, e in self.elements(st, b, lid, depth + 1):
                    at = b
                    while at.op == "upd" and (tm.negate(tm.eq(k, at.args[1])) in asm or tm.eq(k, at.args[1]) is tm.FALSE):
                        at = self.inner(st, at.args[0])
                    val = at.args[2] if at.op == "upd" and at.args[1] is k else mk("item", at, k)
                    out.append((asm, val if c.args[1] == "values" else mk("tuple", k, val), e))
                return out
            e = mk("elem", b, lid)
            val = mk("item", b, e)
            return [((mk("in", e, b),), val if c.args[1] == "values" else mk("tuple", e, val), e)]
        if op == "enum":
            b = self.inner(st, c.args[0])
            return [(asm, mk("tuple", tm.add(c.args[1], mk("idx", b, lid)), x), e)
                    for asm, x, e in self.elements(st, b, lid, depth + 1)]
        if op == "zip":
            els = [self.elements(st, self.inner(st, x), lid, depth + 1) for x in c.args]
            if all(len(x) == 1 for x in els):
                return [(tuple(a for x in els for a in x[0][0]), mk("tuple", *[x[0][1] for x in els]), els[0][0][2])]
        if op == "range" and len(c.args) == 1 and c.args[0].op == "len":
            b = c.args[0].args[0]
            return [((mk("in", mk("elem", b, lid), b),), mk("idx", b, lid), mk("elem", b, lid))]
        if op in ("concat", "union", "merged", "arrcat") and depth < 6:
            out = []
            for p in c.args:
                out.extend(self.elements(st, self.inner(st, p), lid, depth + 1))
            return out
        if op in ("app", "sadd") and depth < 6:
            return self.elements(st, self.inner(st, c.args[0]), lid, depth + 1) + [((), c.args[1], None)]
        if op == "upd" and depth < 6:
            # what is stored for its key is a turn of its own
            return [(asm if e is None else asm + (tm.negate(tm.eq(x, c.args[1])),), x, e)
                    for asm, x, e in self.elements(st, self.inner(st, c.args[0]), lid, depth + 1)] + [((), c.args[1], None)]
        if op == "setdiff":
            return [(asm + (tm.negate(self.in_content(st, x, c.args[1])),), x, e)
                    for asm, x, e in self.elements(st, c.args[0], lid, depth + 1)]
        if op == "intersect":
            return [(asm + (self.in_content(st, x, c.args[1]),), x, e)
                    for asm, x, e in self.elements(st, c.args[0], lid, depth + 1)]
        if op == "without":
            return [(asm + (tm.negate(tm.eq(x, c.args[1])),), x, e)
                    for asm, x, e in self.elements(st, c.args[0], lid, depth + 1)]
        c = self.snap(st, c)
        e = mk("elem", c, lid)
        return [((mk("in", e, c),), e, e)]

    def opaque_loop(self, node, c, st, fr, bound, case=()):
        lid = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fr.fid) + case
        if self.cfg.turns and any(self.turns):             # the same loop again, in a later turn of a loop around it
            lid += tuple(f"turn {i}" for i in self.turns)
        if self.cfg.unroll:
            return self.instance_loop(lid, c, st, bound)
        els = self.elements(st, c, lid)
        bases = {e for _, _, e in els}
        coll = self.snap(st, c)
        turns = [el for _, el, _ in els]        # a turn is for its key, whether keys, values or both are gone through
        if coll.op == "mcall" and coll.args[1] in ("values", "items"):
            keys = [el for _, el, _ in self.elements(st, coll.args[0], lid)]
            if len(keys) == len(els):
                turns = keys

        part = changed_part(node) if coll.op == "mcall" and coll.args[1] == "items" and len(els) == 1 else None

        def one(s):
            out, one.turns = [], []
            for (asm, el, e), turn in zip(els, turns):
                f = s.facts
                for a in asm:
                    f = f.assume(a, True)
                    if f is None:
                        break
                if f is None:
                    continue
                s2 = s.with_facts(f)
                if part is not None and el.op == "tuple" and len(el.args) == 2:
                    got = self.ev(part, s2, fr)     # the value is changed as the part of the dictionary it is
                    if len(got) == 1 and not isinstance(got[0][1], Raised):
                        got = self.load_item(got[0][0], got[0][1], el.args[0], part, fr)
                        if len(got) == 1 and not isinstance(got[0][1], Raised):
                            s2, el = got[0][0], mk("tuple", el.args[0], got[0][1])
                ends = bound(s2, el)
                out.extend(ends)
                one.turns.extend([turn if len(els) > 1 else None] * len(ends))
            return out
        base = next(iter(bases)) if len(bases) == 1 else None
        empty = None
        if not els:
            return [("next", st, None)]
        before = []
        if self.cfg.split and base is None:   # nothing to go through, or something
            f = st.facts.assume(tm.truth(coll), False)
            if f is not None:
                before.append(("next", st.with_facts(f), None))
            f = st.facts.assume(tm.truth(coll), True)
            if f is None:
                return before
            st = st.with_facts(f)
        outs = before + self.loop(lid, node, st, fr, one, coll, base)
        info = self.last_loop
        if base is not None and len(els) == 1 and els[0][1] is base and base.args[0] is coll and info.paths \
                and all(p.kind in ("return", "break", "raise") for p in info.paths):
            return self.first_only(coll, st, bound)
        t = self.invariant(info) if self.cfg.split and base is not None else None
        if t is None:
            return outs
        out = []
        for pol in (True, False):         # what every turn decides alike is decided before the loop
            f = st.facts.assume(t, pol)
            if f is not None:
                out.extend(self.opaque_loop(node, c, st.with_facts(f), fr, bound, case + (int(pol),)))
        return out

    def first_only(self, coll, st, bound):
        """A loop that ends with the first element."""
        out = []
        for s, b in self.branch(st, tm.truth(coll)):
            out.extend([("next", s, None)] if not b else
                       [("next" if k == "break" else k, s2, v) for k, s2, v in bound(s, mk("item", coll, tm.ZERO))])
        return out

    def invariant(self, info):
        """A test that turns of the loop decide both ways although it is about nothing that varies between turns."""
        if len(info.paths) < 2 or not info.carried and not any(p.effs for p in info.paths):
            return None
        seen = {}
        for p in info.paths:
            for a, pol in p.facts.lits.items():
                if info.head.facts.lits.get(a) is None and a.op in ("isinst", "truth", "eq", "is", "lt", "le", "in"):
                    seen.setdefault(a, set()).add(pol)
        both = [a for a, ps in seen.items() if len(ps) == 2 and all(x.op in FIXED for x in tm.walk(a))]
        return min(both) if both else None

    # ------------------------------------------------------------ instances
    def instance_loop(self, lid, c, st, bound):
        """The loop when what it runs over has cfg.unroll elements (fewer where that is excluded)."""
        c, back = self.inner(st, c), False
        while c.op in ("seq", "reversed"):
            back ^= c.op == "reversed"
            c = self.inner(st, c.args[1] if c.op == "seq" else c.args[0])
        if c.op in ("sorted", "bounded", "setof"):
            b = self.snap(st, c)
            e = mk("elem", b, lid)
            els = [((mk("in", e, b),), e, e)]
        else:
            els = self.elements(st, c, lid)
        steps, sizes = [], {}
        order = []
        for asm, val, e in els:
            if order and e is not None and order[-1][0] is e:
                order[-1][1].append((asm, val))
            else:
                order.append((e, [(asm, val)]))
        f = st.facts
        for e, entries in order:
            if e is None:
                steps += [[x] for x in entries]
                continue
            b = e.args[0]
            if b not in sizes:
                g = self.sized(f, b)
                if g is None:
                    return []
                f, sizes[b] = g
                self.instances.add(b)
            for i in range(sizes[b]):
                m = {e: mk("item", b, tm.const(i)), mk("idx", b, lid): tm.const(i)}
                f = f.assume(mk("in", mk("item", b, tm.const(i)), b), True)
                if f is None:
                    return []
                steps.append([(tuple(a2 for a in asm for a2 in (tm.subst(a, m),) if not (a2.op == "in" and a2.args[1] is b)), tm.subst(val, m)) for asm, val in entries])
        if back:
            steps.reverse()
        cur, out = [st.with_facts(f)], []
        for entries in steps:
            nxt = []
            for s in cur:
                for asm, val in entries:
                    here = [s]
                    for a in asm:
                        there = []
                        for s1 in here:
                            for s2, ok in self.branch(s1, a):
                                if ok:
                                    there.append(s2)
                                elif len(entries) == 1:
                                    nxt.append((s2, NONE))
                        here = there
                    for s1 in here:
                        for k, s2, v in bound(s1, val):
                            if k in ("next", "continue"):
                                nxt.append((s2, NONE))
                            else:
                                out.append((k, s2, v))
            cur = [s for s, _ in merge_pairs(nxt)]
            if len(cur) + len(out) > self.cfg.max_states:
                raise Limit("too many paths in an instance of a loop")
            if not cur:
                break
        return out + [("next", s, None) for s in cur]

    def sized(self, f, b):
        for n in range(self.cfg.unroll, -1, -1):
            g = f.assume(tm.truth(b), n > 0)
            if g is not None:
                g = g.assume(tm.eq(mk("len", b), tm.const(n)), True)
            if g is not None:
                return g, n
        return None

    def instance_while(self, st, one):
        cur, out = [st], []
        for _ in range(self.cfg.unroll + 2):
            nxt = []
            for s in cur:
                for k, s2, v in one(s):
                    if k in ("next", "continue"):
                        nxt.append((s2, NONE))
                    else:
                        out.append(("next" if k == "exit" else k, s2, v))
            cur = [s for s, _ in merge_pairs(nxt)]
            if len(cur) + len(out) > self.cfg.max_states:
                raise Limit("too many paths in an instance of a loop")
        return out

    # ------------------------------------------------------------ the fixpoint
    def loop(self, lid, node, st, fr, one, coll, base):
        if self.cfg.unroll and coll.op == "while":
            return self.instance_while(st, one)
        carried = set()
        for _ in range(10):
            head = st.fork()
            for k in carried:
                self.havoc(head, k, lid)
            start = head.fork()
            start.eff = ()
            self.loops_active.append(lid)
            try:
                outs = one(start)
            finally:
                self.loops_active.pop()
            new = set()
            for k, s, v in outs:
                if k in ("next", "continue"):
                    new |= self.changes(head, s)
            if new <= carried:
                break
            carried |= new
        else:
            raise Limit(f"loop at {self.loc(fr, node)} does not settle")
        up = [tm.le(ZERO, t) for k in carried for t in self.counts_up(k, st, head, outs)]
        up += [a for k in carried for a in self.none_or_true(k, st, head, outs)]
        if up:
            for a in up:
                f = head.facts.assume(a, True)
                head.facts = f if f is not None else head.facts
            start = head.fork()
            start.eff = ()
            self.loops_active.append(lid)
            try:
                outs = one(start)
            finally:
                self.loops_active.pop()
        paths = []
        turns = getattr(one, "turns", None) or [None] * len(outs)
        for (k, s, v), turn in zip(outs, turns):
            ups = {c: self.current(s, c) for c in carried} if k in ("next", "continue") else {}
            paths.append(IterPath({"continue": "next"}.get(k, k), s.facts, s.eff, ups, v, s))
            paths[-1].turn = turn
        elem = base
        info = LoopInfo(lid, coll, elem, self.loc(fr, node), fr.func.qual if fr.func else "", carried,
                        {c: self.current(st, c) for c in carried}, [p for p in paths if p.kind != "exit"], head)
        eff = Eff("loop", info, self.loc(fr, node), info.fn, st.facts)
        self.last_loop = info
        quiet = not any(p.effs or p.kind not in ("next",) for p in paths) and not carried
        has_break = any(p.kind == "break" for p in paths)
        nexts = [p for p in paths if p.kind == "next"]
        if self.cfg.search and base is not None:
            r = self.search(info, base, st)
            if r is not None:
                return r
        out = []
        # exits that leave in the middle of an iteration
        for p in paths:
            if p.kind in ("next", "exit"):
                continue
            s = p.state.fork()
            s.eff = st.eff + (eff,) + tuple(p.effs) + (self.leaves(info, p.kind, fr, node),)
            out.append((p.kind, s, p.val))
        # normal exits
        if base is None and coll.op == "while":
            for p in paths:
                if p.kind == "exit":
                    s = p.state.fork()
                    s.eff = st.eff + ((eff,) if not quiet else ()) + tuple(p.effs) + \
                        ((self.leaves(info, "next", fr, node),) if not quiet else ())
                    out.append(("next", s, None))
            if not out:
                s = head.fork()
                s.eff = st.eff + (eff,)
                out.append(("raise", s, Raised(mk("excv", "Forever"))))      # never left
            return out
        s = head.fork()
        s.eff = st.eff + ((eff, self.leaves(info, "next", fr, node)) if not quiet else ())
        for p in paths:
            for kk, n in p.state.seq.items():
                if n > s.seq.get(kk, 0):
                    s.seq[kk] = n
        if base is not None and not has_break:
            for c in carried:
                t = self.accumulated(c, info, nexts, base, st)
                if t is not None:
                    self.set_current(s, c, t)
                    info.final[c] = t
        # a search that was not successful
        if base is not None:
            for p in paths:
                if p.kind in ("return", "break", "raise") and not has_break:
                    t = self.exists_term(info, p, base, head)
                    if t is not None:
                        f = s.facts.assume(t, False)
                        if f is None:
                            return out
                        s.facts = f
        out.append(("next", s, None))
        fixed = []
        for k, s2, v in out:
            if k in ("return", "break", "raise") and base is not None:
                for p in paths:
                    if p.kind == k and p.val is v and p.state.facts is s2.facts:
                        t = self.exists_term(info, p, base, head)
                        if t is not None:
                            f = s2.facts.assume(t, True)
                            if f is not None:
                                s2.facts = f
                        break
            fixed.append((k, s2, v))
        return fixed

    def counts_up(self, k, st, head, outs):
        """The carried value, when it starts at a number that is not negative and only numbers are added to it."""
        L, init = self.current(head, k), self.current(st, k)
        if L.op != "lv" or init.op != "num" or init.args[0] < 0:
            return []
        for kind, s, _ in outs:
            if kind in ("next", "continue"):
                d = tm.sub(self.current(s, k), L)
                if d.op != "num" or d.args[0] < 0:
                    return []
        return [L]

    def none_or_true(self, k, st, head, outs):
        """The carried value, when it starts as None and only true values are put there."""
        L = self.current(head, k)
        if self.cfg.solid is None or k[0] != "v" or L.op != "lv" or self.current(st, k) is not NONE:
            return []
        for kind, s, _ in outs:
            if kind in ("next", "continue"):
                v = self.current(s, k)
                if v is not L and v is not NONE and s.facts.decide(self.truth_of(s, v)) is not True:
                    return []
        return [mk("or", *sorted((tm.eq(L, NONE), tm.truth(L))))]

    def leaves(self, info, kind, fr, node):
        return Eff("exit", (info.lid, kind), self.loc(fr, node), info.fn, fx.EMPTY)

    def delta(self, p, head):
        """Conditions of an iteration path beyond those of the loop head; None if not literal."""
        out = []
        for a, pol in p.facts.lits.items():
            if head.facts.lits.get(a) == pol:
                continue
            out.append(a if pol else tm.negate(a))
        hc = set(head.facts.clauses)
        for cl in p.facts.clauses:
            if cl not in hc:
                ds = []
                for d in cl:
                    ls = sorted((a if pol else tm.negate(a)) for a, pol in d)
                    ds.append(ls[0] if len(ls) == 1 else mk("and", *ls))
                out.append(mk("or", *sorted(ds)))
        return out

    def _lid_free(self, t, lid):
        for x in tm.walk(t):
            if x.op == "lv" and x.args[0] == lid:
                return False
        return True

    def cond_of(self, p, info, base, head):
        """Path condition as a function of the element, without the membership itself."""
        if p.facts.lossy > head.facts.lossy:        # the condition is not known exactly
            return None
        out = []
        leaving = self.leaving_atoms(info) if p.kind == "next" else ()
        for t in self.delta(p, head):
            if t.op == "in" and t.args[0] is base and t.args[1] is base.args[0]:
                continue
            if t.op == "truth" and t.args[0] is base.args[0]:
                continue
            if t is tm.truth(base.args[0]):
                continue
            if t.op == "not" and t.args[0] in leaving:
                continue
            if not self._lid_free(t, info.lid):
                return None
            out.append(tm.abstract(t, base))
        return tuple(sorted(set(out)))

    def leaving_atoms(self, info):
        """Failures that always end the loop: an iteration that goes on did not have them."""
        out, stay = set(), set()
        for p in info.paths:
            s = {a for a, pol in p.facts.lits.items() if pol and a.op == "atom" and a.args[0] == "raises"}
            if p.kind == "next":
                stay |= s
            else:
                out |= s
        return out - stay

    def search(self, info, base, st):
        """A loop that only looks whether there is some element, as a question about the collection."""
        head, ends, same = info.head, [], set()
        if any(k[0] != "v" for k in info.carried):
            return None
        before = [self.current(head, k) for k in info.carried]
        for p in info.paths:
            for k in self.changes(head, p.state):
                v = self.current(p.state, k)
                if any(tm.contains(v, b) for b in before):      # something is accumulated on the way
                    return None
            if p.effs or any(k[0] != "v" for k in self.changes(head, p.state)):
                return None
            if p.kind != "next":
                val = p.val
                if isinstance(val, Raised):
                    if not self._lid_free(val.exc, info.lid) or tm.contains(val.exc, base):
                        return None
                    key = val.exc
                elif p.kind == "return":
                    key = self.snap(p.state, val)
                    if not self._lid_free(key, info.lid) or tm.contains(key, base):
                        return None
                else:
                    key = NONE
                left = ()
                if p.kind == "break":
                    left = tuple(sorted((k[1:], self.current(p.state, k)) for k in self.changes(head, p.state)))
                    left = tuple((k, v) for k, v in left if self._lid_free(v, info.lid) and not tm.contains(v, base))
                same.add((p.kind, key, left))
                ends.append(p)
        if len(same) != 1:
            return None
        conds = [self.cond_of(p, info, base, head) for p in ends]
        if any(c is None for c in conds):
            return None
        t = exists_in(base.args[0], conds)
        out = []
        f = st.facts.assume(t, True)
        if f is not None:
            p = ends[0]
            s = p.state.fork()
            s.facts, s.eff = f, st.eff
            for k in set().union(*(self.changes(head, q.state) for q in ends)):
                v = self.current(s, k)
                if not self._lid_free(v, info.lid) or tm.contains(v, base):
                    self.havoc(s, k, info.lid)      # says which element it was
            out.append((p.kind, s, p.val))
        f = st.facts.assume(t, False)
        if f is not None:
            s = head.fork()
            s.facts, s.eff = f, st.eff
            for p in info.paths:
                for kk, n in p.state.seq.items():
                    if n > s.seq.get(kk, 0):
                        s.seq[kk] = n
            out.append(("next", s, None))
        return out

    def exists_term(self, info, p, base, head):
        cond = self.cond_of(p, info, base, head)
        if cond is None:
            return None
        if cond == ():
            return tm.truth(base.args[0])
        return exists_in(base.args[0], [cond])

    def accumulated(self, key, info, nexts, base, st0):
        """Closed form of a carried value after the loop, if it is an accumulator."""
        L = self.current(info.head, key)
        coll = base.args[0]
        init = info.init[key]
        if init.op == "maybe" or L.op == "maybe":
            return None
        sums, apps, dicts = {}, {}, {}
        mode = made = None
        for p in nexts:
            u = p.updates[key]
            if u is L:
                continue
            u = self.snap(p.state, u) if key[0] != "c" else u
            cond = self.cond_of(p, info, base, info.head)
            if cond is None:
                return None
            if u.op in ("app", "sadd"):
                xs, ops = [], set()
                w = u
                while w.op in ("app", "sadd") and w is not L:
                    ops.add(w.op)
                    xs.append(self.snap(p.state, w.args[1]))
                    w = w.args[0]
                if w is not L or mode not in (None, "app"):
                    return None
                if len(ops) > 1 or made not in (None,) + tuple(ops) or len(xs) > 1 and "app" in ops:
                    return None
                made, mode = ops.pop(), "app"
                for x in reversed(xs):
                    if not self._lid_free(x, info.lid):
                        return None
                    apps.setdefault(tm.abstract(x, base), []).append((cond, p))
            elif u.op == "concat" and u.args[0] is L and mode in (None, "flat"):
                mode = "flat"
                x = u.args[1] if len(u.args) == 2 else mk("concat", *u.args[1:])
                if not self._lid_free(x, info.lid):
                    return None
                apps.setdefault(tm.abstract(x, base), []).append((cond, p))
            elif u.op == "upd" and u.args[0] is L:
                if mode not in (None, "dict"):
                    return None
                mode = "dict"
                k, v = u.args[1], self.snap(p.state, u.args[2])
                if not (self._lid_free(k, info.lid) and self._lid_free(v, info.lid)):
                    return None
                dicts.setdefault(tm.abstract(mk("tuple", k, v), base), []).append((cond, p))
            else:
                d = tm.sub(u, L)
                if not self._lid_free(d, info.lid) or mode not in (None, "sum") or not (u.op in ("poly", "num")):
                    return None
                mode = "sum"
                sums.setdefault(tm.abstract(d, base), []).append((cond, p))
        if mode is None:
            return init
        table = {"app": apps, "flat": apps, "dict": dicts, "sum": sums}[mode]
        cases = []
        for val, cps in table.items():
            if len(cps) == 1:
                cond = cps[0][0]
            else:
                m = fx.merge([q.facts for _, q in cps])
                q = IterPath("next", m, (), {}, None, cps[0][1].state)
                cond = self.cond_of(q, info, base, info.head)
                if cond is None:
                    return None
            cases.append((taken(cond, val, tm.abstract(base, base)), val))
        cases = tuple(sorted(cases, key=lambda cv: (cv[1].uid, tuple(x.uid for x in cv[0]))))
        if mode == "sum":
            return tm.add(self.snap(st0, init), sum_term(coll, cases))
        if mode == "dict":
            ci = init
            t = mk("dictcomp", coll, cases)
            return t if ci.op == "dict" and not ci.args else mk("merged", ci, t)
        t = mk("comp", coll, cases)
        if mode == "flat":
            t = mk("flat", t)
        if made == "sadd":
            t = tm.setof(t)
            ci = self.snap(st0, init)
            return t if ci.op == "set" and not ci.args else tm.union(ci, t)
        if init.op in ("list", "set", "tuple") and not init.args:
            return t
        return mk("concat", init, t)

    # ------------------------------------------------------------ carried things
    def changes(self, head, s):
        out = set()
        for fid, fm in s.frames.items():
            h = head.frames.get(fid)
            if h is None:
                continue
            for n, v in fm.items():
                if h.get(n) is not v:
                    out.add(("v", fid, n))
            for n in h:
                if n not in fm:
                    out.add(("v", fid, n))
        for k, v in s.attrs.items():
            if head.attrs.get(k, mk("attr", *k)) is not v:
                out.add(("a",) + k)
        for k, v in s.cont.items():
            if k.op == "ref" and k not in head.cont:
                continue
            if head.cont.get(k, k) is not v:
                out.add(("c", k))
        return out

    def current(self, s, key):
        if key[0] == "v":
            v = s.frames.get(key[1], {}).get(key[2])
            return v if v is not None else mk("maybe", mk("unbound"))
        if key[0] == "a":
            return s.attrs.get((key[1], key[2]), mk("attr", key[1], key[2]))
        return s.cont.get(key[1], key[1])

    def set_current(self, s, key, t):
        if key[0] == "v":
            s.frames[key[1]][key[2]] = t
        elif key[0] == "a":
            s.attrs[(key[1], key[2])] = t
        else:
            s.cont[key[1]] = t

    def havoc(self, s, key, lid):
        t = mk("lv", lid, *lvkey(key))
        if key[0] == "v":
            old = s.frames.get(key[1], {}).get(key[2])
            if old is None or old.op == "maybe":
                t = mk("maybe", t)
            s.frames.setdefault(key[1], {})[key[2]] = t
        elif key[0] == "a":
            s.attrs[(key[1], key[2])] = t
        else:
            s.cont[key[1]] = t


def taken(cond, val, x):
    """The conditions, without the one that x is not empty where something is taken from x by number."""
    full = tm.truth(x)
    if full not in cond:
        return cond
    rest = tuple(c for c in cond if c is not full)
    if any(t.op == "item" and t.args[0] is x and t.args[1].op == "num" for u in (val,) + rest for t in tm.walk(u)):
        return rest
    return cond
