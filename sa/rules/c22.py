"""ACT-R errors reach the user, and no local name is read before it has a value."""
import ast
import builtins
import collections.abc
import symtable

from .. import terms as tm
from ..core import Config
from ..definite import unassigned_reads
from ..engine import Engine
from ..failures import Failures, ERROR, FALL, GOOD
from ..state import Limit
from .common import walk_funcs, own_nodes, where, mk

SLOT_VALUES = {"utilities.check_bound_vars": (1,)}      # parameters that are values of slots


def run(ck):
    ck.rule("every handler that gets ACT-R errors its body can raise (calls followed by name) is left by an ACT-R error only, on every path; "
            "no finally block leaves early or fails in a way of its own; nothing suppresses errors or has the scheduler ignore them")
    ck.rule("every read of a local name is preceded by an assignment on every path: flow analysis of every function; the reads it cannot clear are decided by "
            "path-sensitive analysis and loop invariants (a guard that is true implies the name was assigned); "
            "every global name that is read is defined; so is every attribute of a module, of a class and of an object's own class that is read by name")
    ck.part("ACT-R errors are not swallowed", handlers, ck)
    ck.part("local names have values", locals_, ck)
    ck.part("global names exist", globals_, ck)
    ck.part("attributes exist", attributes_, ck)


# ---------------------------------------------------------------- handlers
def handlers(ck):
    fl = Failures(ck.prog)
    swallow, late, gone = "handlers let ACT-R errors through", "finally blocks let ACT-R errors through", "nothing suppresses ACT-R errors"
    ck.done += [swallow, late, gone]
    ck.must("Exception" in ck.prog.mro(ERROR) or ck.prog.is_subclass_name(ERROR, "Exception"), swallow, ERROR, "not an exception class")
    for q, f in walk_funcs(ck.prog):
        ck.reached.add(q)
        for n in own_nodes(f):
            if isinstance(n, ast.Try):
                ck.sites += 1
                can = None
                for h in n.handlers:
                    if not fl.catches(f, h):
                        continue
                    can = fl.arises(f, n.body) if can is None else can
                    if not can:
                        continue
                    bad = fl.block(f, h.body, h.name) - {GOOD}
                    ck.must(not bad, swallow, where(f, h), f"a handler of {ast.unparse(h.type) if h.type else 'everything'} can be left by: {', '.join(sorted(bad))}")
                    break       # later handlers do not get them
                if n.finalbody and (fl.arises(f, n.body) or any(fl.arises(f, h.body) for h in n.handlers)):
                    bad = fl.block(f, n.finalbody, None) - {FALL, GOOD}
                    ck.must(not bad, late, where(f, n.finalbody[0]), f"the block can be left by: {', '.join(sorted(bad))}")
                    risky = {id(x) for x in unassigned_reads(f.node)}
                    hit = [x for s in n.finalbody for x in ast.walk(s) if id(x) in risky] if fl.arises(f, n.body, by_name=False) else []
                    ck.must(not hit, late, where(f, n.finalbody[0]), f"reads {sorted({x.id for x in hit})}, which the failing block may not have assigned")
            elif isinstance(n, ast.withitem) and isinstance(n.context_expr, ast.Call):
                name = ast.unparse(n.context_expr.func).split(".")[-1]
                if name == "suppress":
                    cs = [fl.cls(f, a) or set() for a in n.context_expr.args]
                    bad = any(c in ("Exception", "BaseException", ERROR) or ck.prog.is_subclass_name(ERROR, c) for s in cs for c in s)
                    ck.must(not bad, gone, where(f, n.context_expr), ast.unparse(n.context_expr))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == "defused":
                ck.must(False, gone, where(f, n), ast.unparse(n) + " is set: the scheduler ignores the failure")


# ---------------------------------------------------------------- definite assignment
def locals_(ck):
    what = "local names are read after an assignment only"
    ck.done.append(what)
    for q, f in walk_funcs(ck.prog):
        reads = [n for n in unassigned_reads(f.node) if not guarded(f, n)]
        ck.paths += 1
        if reads and not callers_expect(ck, f):
            ck.part(f"{what}: {q}", decide, ck, what, f, reads)


def guarded(f, n):
    """Read in a try block that expects a name without a value."""
    for t in own_nodes(f):
        if isinstance(t, ast.Try) and any(n is x for s in t.body for x in ast.walk(s)) and any(expects(h) for h in t.handlers):
            return True
    return False


def expects(h):
    return h.type is not None and any(isinstance(x, ast.Name) and x.id in ("NameError", "UnboundLocalError") for x in ast.walk(h.type))


def callers_expect(ck, f):
    """Every call of the function is in a try block that expects a name without a value."""
    calls = []
    for _, g in walk_funcs(ck.prog):
        for n in own_nodes(g):
            if isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name:
                calls.append(guarded(g, n))
    return bool(calls) and all(calls)


def decide(ck, what, f, reads):
    top = f
    while top.parent is not None:
        top = ck.prog.funcs[top.parent]
    types = {}
    for i in SLOT_VALUES.get(top.qual, ()):
        names = [a.arg for a in top.node.args.posonlyargs + top.node.args.args]
        if i < len(names):
            types[mk("sym", names[i])] = "nt:utilities.VarvalClass"
    todo = {id(n): n for n in reads}
    found = {}
    for kind in ("alone", "with what it calls", "one element", "two elements"):
        if not todo or kind == "one element" and all(any(x[0] == "unassigned" for x in found.get(k, ())) for k in todo):
            break
        cut = kind != "with what it calls"
        e = Engine(ck.prog, Config(types=dict(types), cut_pred=(lambda g: not within(ck.prog, g, top)) if cut else None,
                                   cuts=() if cut else {"chunks.Chunk.__init__"}, returns=results(ck) if cut else None,
                                   unroll={"one element": 1, "two elements": 2}.get(kind, 0)))
        e.lookups = {}
        try:
            outs = e.run(top.qual, catch=("UnboundLocalError", ERROR))
        except Limit:
            continue
        ck.note(e, outs)
        loops = {}
        for o in outs:
            gather(o.eff, loops)
        for k, n in list(todo.items()):
            seen = e.lookups.get(k)
            if not seen:
                continue
            bad = [(s, v, fa) for s, v, fa in seen if s == "unassigned" or s == "maybe" and not invariant(v, fa, loops)]
            if kind.endswith(("element", "elements")):      # collections of one size: finds differences, clears nothing
                if any(s == "unassigned" for s, _, _ in bad):
                    found[k] = found.get(k, []) + bad
            elif not bad:
                del todo[k]
                found.pop(k, None)
            else:
                found[k] = found.get(k, []) + bad
    for k, n in todo.items():
        at = where(f, n)
        bad = found.get(k)
        if not bad:
            ck.must(None, what, at, f"{n.id}: not followed")
            continue
        sure = [b for b in bad if b[0] == "unassigned" and not vague(b[2])]
        ck.must(False if sure else None, what, at, f"{n.id} has no value when {(sure or bad)[0][2]}"[:600])


def within(prog, g, top):
    while g.parent is not None:
        if g.parent == top.qual:
            return True
        g = prog.funcs[g.parent]
    return g is top


def vague(facts):
    """Conditions that may be contradictory although the analyser cannot tell."""
    for a in facts.lits:
        for x in tm.walk(a):
            if x.op == "getattr" and x.args[1].op != "s":
                return True
    return False


def gather(effs, out):
    for x in effs:
        if x.kind == "loop" and x.data.lid not in out:
            out[x.data.lid] = x.data
            for p in x.data.paths:
                gather(p.effs, out)


def invariant(v, facts, loops):
    """The name has a value whenever another value carried by the loop is true (or false), which it is here."""
    if v.op != "maybe" or v.args[0].op != "lv":
        return False
    info = loops.get(v.args[0].args[0])
    if info is None:
        return False
    mine = [k for k in info.carried if lv(info, k) is v.args[0]]
    for g in info.carried:
        if g in mine or not mine:
            continue
        t = tm.truth(lv(info, g))
        side = facts.decide(t)
        if side is None:
            continue
        if facts_of_init(info, g) is not (not side):
            continue
        if all(kept(p, mine[0], g, side, info) for p in info.paths if p.kind == "next"):
            return True
    return False


def lv(info, k):
    from ..loops import lvkey
    return mk("lv", info.lid, *lvkey(k))


def facts_of_init(info, g):
    from ..facts import EMPTY
    v = info.init[g]
    return EMPTY.decide(tm.truth(v)) if isinstance(v, tm.T) else None


def kept(p, y, g, side, info):
    new = p.updates.get(y)
    if new is not None and new.op != "maybe":
        return True
    x = p.updates.get(g)
    if x is None or x is lv(info, g):
        return True                 # neither changed
    return p.facts.decide(tm.truth(x)) is (not side)


def results(ck):
    """Class of the value a function returns, where it always makes one: function -> class (computed on demand)."""
    memo = {}

    def of(q):
        if q not in memo:
            memo[q] = None
            f = ck.prog.funcs.get(q)
            if f is None or f.parent is not None or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                return None
            rs = [n.value for n in own_nodes(f) if isinstance(n, ast.Return)]
            kinds = {made(f, v) for v in rs}
            if len(kinds) == 1 and rs and ends(f):
                memo[q] = kinds.pop()
        return memo[q]

    def made(f, v):
        if isinstance(v, ast.Name):
            vals = [n.value for n in own_nodes(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
            other = [n for n in own_nodes(f) if isinstance(n, ast.Name) and n.id == v.id and not isinstance(n.ctx, ast.Load)]
            ks = {made(f, x) for x in vals}
            return ks.pop() if len(ks) == 1 and len(other) == len(vals) else None
        if isinstance(v, ast.Call):
            try:
                d = ck.prog.resolve_dotted(f.module, ast.unparse(v.func))
            except Exception:
                return None
            if d in ck.prog.classes:
                return d
            d = d if d in ck.prog.funcs else f"{f.module.name}.{d}"
            return of(d)
        return None

    def ends(f):
        fl = Failures(ck.prog)
        return FALL not in fl.block(f, f.node.body, None)
    return of


# ---------------------------------------------------------------- global names
def globals_(ck):
    what = "global names are defined"
    ck.done.append(what)
    given = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__class__", "__annotations__", "__module__", "__qualname__"}
    for m in ck.prog.modules.values():
        if m.is_ref or any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
            continue
        table = symtable.symtable(m.source, m.path, "exec")
        scopes, todo = [], [table]
        while todo:
            t = todo.pop()
            scopes.append(t)
            todo += t.get_children()
        top = {s.get_name() for s in table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} | given
        top |= {s.get_name() for t in scopes for s in t.get_symbols() if s.is_declared_global() and s.is_assigned()}
        for t in scopes:
            for s in t.get_symbols():
                if s.is_global() and s.is_referenced():
                    ck.sites += 1
                    ck.must(s.get_name() in top, what, f"{m.name}.{t.get_name()} (pyactr/{m.name}.py:{t.get_lineno()})", f"{s.get_name()} is defined nowhere")


# ---------------------------------------------------------------- attributes
def attributes_(ck):
    """Attributes that are read by name are given a value somewhere: in the class, its ancestors or heirs, or from outside."""
    what = "attributes that are read are given a value somewhere"
    ck.done.append(what)
    prog = ck.prog
    mods = [m for m in prog.modules.values() if not m.is_ref]
    stored, own = set(), {}                 # X of any other object; class -> X of its own objects
    expected = set()                        # loads whose absence is expected
    for m in mods:
        inside = {}
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                for n in ast.walk(c):
                    inside[n] = c           # the innermost class is visited last
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not getattr(n, "aug", None):
                if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and n in inside:
                    own.setdefault(inside[n].name, set()).add(n.attr)
                else:
                    stored.add(n.attr)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                n.target.aug = n
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                if isinstance(n.args[1], ast.Constant):
                    stored.add(n.args[1].value)
                else:
                    return ck.must(None, what, m.name, "an attribute is set whose name is computed")
            elif isinstance(n, ast.Try) and any(expects_missing(h) for h in n.handlers):
                expected |= {x for b in n.body for x in ast.walk(b)}
            elif isinstance(n, ast.Delete):
                expected |= set(n.targets)
    for m in mods:
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not (isinstance(n.ctx, ast.Load) or getattr(n, "aug", None)) or n in expected:
                continue
            if isinstance(n.value, ast.Name) and n.value.id == "self":
                c = owner(prog, m, n)
                names = class_names(prog, c, own) if c is not None else None
            else:
                try:
                    kind, obj = prog.resolve_import(m.imports[n.value.id]) if isinstance(n.value, ast.Name) and n.value.id in m.imports else \
                        ("cls", prog.classes[prog.resolve_dotted(m, ast.unparse(n.value))]) if isinstance(n.value, (ast.Name, ast.Attribute)) and prog.resolve_dotted(m, ast.unparse(n.value)) in prog.classes else (None, None)
                except (KeyError, AttributeError, TypeError):
                    continue
                if kind == "mod" and obj is not None:
                    names = set(obj.funcs) | set(obj.classes) | set(obj.imports) | set(obj.assigns) | {q.rsplit(".", 1)[-1] for q in prog.modules}
                    names |= {x.id for x in ast.walk(obj.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                elif kind == "cls":
                    names = class_names(prog, obj, own)
                else:
                    continue
            if names is None:
                continue
            ck.sites += 1
            mine = owner(prog, m, n) if n.attr.startswith("__") and not n.attr.endswith("__") else None
            ck.must(n.attr in names or n.attr in stored or mine is not None and f"_{mine.name.lstrip('_')}{n.attr}" in names, what, f"pyactr/{m.name}.py:{n.lineno}", f"{ast.unparse(n)}: nothing gives {n.attr} a value")


def expects_missing(h):
    names = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else list(h.type.elts) if h.type is not None else []
    return h.type is None or any(isinstance(x, ast.Name) and x.id in ("AttributeError", "Exception", "BaseException") for x in names)


def owner(prog, m, n):
    """The class in whose body the expression stands."""
    best = None
    for c in prog.classes.values():
        if c.module is m and c.node.lineno <= n.lineno <= c.node.end_lineno and (best is None or best.node.lineno < c.node.lineno):
            best = c
    return best


def class_names(prog, c, own):
    """Names an object of the class, or the class, may have; None when ancestors are not known."""
    names = set(dir(object)) | {"data", "__dict__", "__name__", "__qualname__", "__module__"}
    line = [c.qual] + [x.qual for x in prog.classes.values() if c.qual in prog.mro(x.qual)]
    for q in line + prog.mro(c.qual):
        k = prog.classes.get(q)
        if k is None:
            last = q.rsplit(".", 1)[-1]
            ext = getattr(collections.abc, last, None) or getattr(collections, last, None) or getattr(builtins, last, None)
            if ext is None:
                return None
            names |= set(dir(ext))
            continue
        if "__getattr__" in k.methods or "__getattribute__" in k.methods:
            return None
        names |= set(k.methods) | set(k.props) | set(k.setters) | set(k.attrs) | set(k.nested) | own.get(k.name, set())
    return names
