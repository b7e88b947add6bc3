"""Queries shared by the rules."""
import ast

from .. import terms as tm
from ..terms import mk
from ..core import Config
from ..engine import SELF, effects
from ..report import Skip


def buffer_classes(prog):
    return [c for c in prog.classes if not c.startswith("ref_") and "buffers.Buffer" in prog.mro(c)]


def own_methods(prog, cls):
    """name -> function, as an object of the class finds them."""
    out = {}
    for c in reversed(prog.mro(cls)):
        for q, f in prog.funcs.items():
            if f.cls is not None and f.cls.qual == c and f.parent is None:
                out[f.name + (".setter" if f.kind == "setter" else "")] = f
    return out


def outside(classes):
    """Everything but the methods of these classes is left symbolic."""
    names = set(classes)
    return lambda f: not (f.cls is not None and f.cls.qual in names)


def field(e, o, name, obj=SELF):
    at = mk("attr", obj, name)
    return e.content(o.state, o.state.attrs.get((obj, name), at))


def walk_funcs(prog):
    for q, f in prog.funcs.items():
        if not q.startswith("ref_") and not f.module.is_ref:
            yield q, f


def own_nodes(f):
    """Nodes of a function without those of functions nested in it."""
    todo = list(ast.iter_child_nodes(f.node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def where(f, node=None):
    return f"{f.qual} ({f.loc(node)})"


class NotConstant(Exception):
    pass


def to_python(e, v):
    """The Python value of a constant term."""
    if v.op == "c":
        return {"None": None, "True": True, "False": False}[v.args[0]]
    if v.op in ("s", "num"):
        return v.args[0]
    if v.op in ("tuple", "list"):
        return tuple(to_python(e, x) for x in v.args)
    if v.op == "set":
        return frozenset(to_python(e, x) for x in v.args)
    if v.op == "dict":
        return {to_python(e, k): to_python(e, x) for k, x in v.args}
    raise NotConstant(tm.show(v))


def constant(ck, owner, name):
    """Value of a module- or class-level constant, computed from the syntax tree."""
    from ..engine import Engine
    e = Engine(ck.prog, Config())
    if owner in ck.prog.classes:
        for q in ck.prog.mro(owner):
            c = ck.prog.classes.get(q)
            if c is not None and name in c.attrs:
                return to_python(e, e.class_attr(c, name))
        raise Skip(f"{owner} has no attribute {name}")
    m = ck.prog.modules.get(owner)
    if m is None or name not in m.assigns:
        raise Skip(f"{owner} has no constant {name}")
    return to_python(e, e.module_var(m, name))


def same_constant(ck, what, owner, name, expected):
    """A constant has the expected value."""
    try:
        got = constant(ck, owner, name)
    except NotConstant as x:
        ck.must(None, what, f"{owner}.{name}", f"not a constant: {x}")
        return None
    except Skip as x:
        ck.must(None, what, f"{owner}.{name}", str(x))
        return None
    ck.must(got == expected, what, f"{owner}.{name}", f"is {got!r}, expected {expected!r}")
    return got


def mentions(prog):
    """name -> functions that mention it (as a name or an attribute)."""
    out = {}
    for q, f in walk_funcs(prog):
        for n in own_nodes(f):
            if isinstance(n, ast.Attribute):
                out.setdefault(n.attr, set()).add(q)
            elif isinstance(n, ast.Name):
                out.setdefault(n.id, set()).add(q)
            elif isinstance(n, ast.Lambda):
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute):
                        out.setdefault(x.attr, set()).add(q)
    return out


def parts_of(prog, compared):
    """The compared functions and those that only they (or such functions) call or contain: followed when they are analysed."""
    by_name, inside = mentions(prog), set(compared)
    grew = True
    while grew:
        grew = False
        for q, f in walk_funcs(prog):
            if q in inside:
                continue
            users = by_name.get(f.name, set()) - {q}
            if f.parent in inside or users and users <= inside:
                inside.add(q)
                grew = True
    return inside


def writes_of(f, attr=None, key=None):
    """Statements of a function that store in an attribute of this name, or under this constant key, or change what is there in place."""
    def target(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(target(x) for x in t.elts)
        if isinstance(t, ast.Starred):
            return target(t.value)
        if attr is not None and isinstance(t, ast.Attribute) and t.attr == attr:
            return True
        if isinstance(t, ast.Subscript):
            if key is not None and isinstance(t.slice, ast.Constant) and t.slice.value == key:
                return True
            return attr is not None and is_attr(t.value)
        return False

    def is_attr(e):
        return isinstance(e, ast.Attribute) and e.attr == attr or isinstance(e, ast.Subscript) and is_attr(e.value)
    for n in own_nodes(f):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            if any(target(t) for t in ts):
                yield n
        elif isinstance(n, (ast.For, ast.comprehension)) and target(n.target):
            yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and attr is not None and is_attr(n.func.value):
            yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and attr is not None \
                and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == attr:
            yield n


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft"}


def written_only_in(ck, what, compared, attr=None, key=None):
    """Nothing but the compared functions (and their parts) writes there."""
    inside, n = parts_of(ck.prog, compared), 0
    for q, f in walk_funcs(ck.prog):
        for x in writes_of(f, attr, key):
            n += 1
            ck.must(q in inside, what, where(f, x), ast.unparse(x)[:120])
    ck.must(n > 0 or None, what, attr or repr(key), "no write found")
