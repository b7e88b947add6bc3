"""Which state a set of functions can change: a modular effect analysis over everything they can reach."""
from ..engine import Engine
from .common import Config, tm, where

PURE_NAMES = {"get", "keys", "values", "items", "copy", "index", "count", "split", "join", "startswith", "endswith", "format", "strip", "_asdict", "lower", "upper", "issubset"}


def root(t):
    """The object a changed place belongs to, and the field it hangs on."""
    fields = []
    while True:
        if t.op in ("attr",):
            fields.append(t.args[1])
            t = t.args[0]
        elif t.op in ("item", "get", "upd", "getattr"):
            t = t.args[0]
        elif t.op == "elem":
            t = t.args[0]
        elif t.op == "lv":
            k = t.args[1]
            k = k[0] if isinstance(k, tuple) and k and isinstance(k[0], tm.T) else k
            if not isinstance(k, tm.T):
                return t, fields
            t = k
        else:
            return t, fields


def changes(e, outs):
    """(root object, field, facts, description) of everything changed outside the run, and the calls made."""
    out, calls, seen = [], [], set()

    def visit(effs, facts):
        for x in effs:
            if x.kind == "loop":
                if id(x.data) in seen:
                    continue
                seen.add(id(x.data))
                for p in x.data.paths:
                    visit(p.effs, p.facts)
            elif x.kind == "store":
                obj, name = x.data[0], x.data[1]
                if obj.op != "ref":
                    out.append((obj, name, x.facts or facts, f"{tm.show(obj)}.{name} = {tm.show(x.data[2])[:80]}", x.loc))
            elif x.kind in ("setitem", "delitem"):
                r, fs = root(x.data[0])
                if r.op not in ("ref", "list", "dict", "set", "tuple"):
                    out.append((r, fs[-1] if fs else None, x.facts or facts, f"{x.kind} on {tm.show(x.data[0])[:80]}", x.loc))
            elif x.kind == "mut":
                recv, name = x.data[0], x.data[1]
                if x.data[4].op == "mcall":
                    calls.append((name, None, x.loc))
                    continue
                r, fs = root(recv)
                if r.op not in ("ref", "super", "list", "dict", "set", "tuple"):
                    out.append((r, fs[-1] if fs else None, x.facts or facts, f"{tm.show(recv)[:80]}.{name}(...)", x.loc))
            elif x.kind == "call":
                fn = x.data[0]
                calls.append((fn.args[0] if fn.op in ("fn", "ext", "bi") else None, fn, x.loc))
    for o in outs:
        visit(o.eff, o.facts)
    return out, calls


def closure_effects(ck, what, seeds, allowed, methods_of):
    """Everything the seeds can reach changes only what `allowed(function, object, field, facts)` admits."""
    ck.done.append(what)
    todo, done = list(seeds), set()
    by_name = {}
    for q, f in ck.prog.funcs.items():
        if not q.startswith("ref_") and not f.module.is_ref and f.cls is not None and f.parent is None and f.cls.qual in methods_of:
            by_name.setdefault(f.name, []).append(q)
    while todo:
        q = todo.pop()
        if q in done or q not in ck.prog.funcs:
            continue
        done.add(q)
        f = ck.prog.funcs[q]
        e, outs = ck.run(q, cfg=Config(cut_pred=lambda g, q=q: g.qual != q and not g.qual.startswith(q + ".")))
        chg, calls = changes(e, outs)
        for obj, field, facts, text, loc in chg:
            ok = allowed(f, obj, field, facts)
            if not ok:
                ck.violation(what, where(f), f"{text} at {loc}") if ok is False else ck.undecide(what, f"{q}: {text}")
        for name, fn, loc in calls:
            if fn is None:
                todo += by_name.get(name, [])
            elif fn.op == "fn":
                todo.append(fn.args[0])
            elif fn.op == "ext" and name and ("random" in name):
                ck.violation(what, where(f), f"draws random numbers: {name} at {loc}")
        # what the syntax names as attribute may be a property
    return done
