"""Source model: modules, classes, functions of the analysed package."""
import ast
import os

from . import facts as facts_mod

BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "TypeError": "Exception", "ValueError": "Exception",
    "UnicodeError": "ValueError", "StopIteration": "Exception", "RuntimeError": "Exception",
    "RecursionError": "RuntimeError", "NotImplementedError": "RuntimeError", "OSError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "Warning": "Exception",
    "RuntimeWarning": "Warning", "UserWarning": "Warning", "DeprecationWarning": "Warning",
    "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "MemoryError": "Exception", "BufferError": "Exception", "EOFError": "Exception",
    "StopAsyncIteration": "Exception", "Interrupt": "Exception", "EmptySchedule": "Exception",
    "ParseException": "Exception", "Empty": "Exception",
}


class Func:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual, self.node, self.module, self.cls, self.parent = qual, node, module, cls, parent
        self.is_gen = _is_generator(node)
        self.kind = "function"
        for d in getattr(node, "decorator_list", []):
            nm = _dec_name(d)
            if nm == "property":
                self.kind = "property"
            elif nm.endswith(".setter"):
                self.kind = "setter"
            elif nm.endswith(".deleter"):
                self.kind = "deleter"
            elif nm == "staticmethod":
                self.kind = "static"
            elif nm == "classmethod":
                self.kind = "class"
            elif nm in ("functools.lru_cache", "functools.wraps", "lru_cache", "abstractmethod"):
                pass
            else:
                self.kind = "decorated"

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.module.relpath}:{n.lineno}"


def _dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return "?"


def own_nodes(node):
    """AST nodes of a function without those of nested functions/classes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _one_iteration(tree):
    """What __iter__ goes through, however it is said: a loop that yields the elements."""
    for f in ast.walk(tree):
        if not (isinstance(f, ast.FunctionDef) and f.name == "__iter__" and f.body):
            continue
        last = f.body[-1]
        over = None
        if isinstance(last, ast.Return) and isinstance(last.value, ast.Call) and isinstance(last.value.func, ast.Name) \
                and last.value.func.id == "iter" and len(last.value.args) == 1:
            over = last.value.args[0]
        elif isinstance(last, ast.Return) and isinstance(last.value, ast.GeneratorExp):
            over = last.value
        elif isinstance(last, ast.Expr) and isinstance(last.value, ast.YieldFrom):
            over = last.value.value
        if over is None or any(isinstance(n, ast.Return) for x in f.body[:-1] for n in ast.walk(x)):
            continue
        target, value, tests, it = ast.Name("<element>", ast.Store()), ast.Name("<element>", ast.Load()), [], over
        if isinstance(over, ast.GeneratorExp) and len(over.generators) == 1:
            g = over.generators[0]
            target, value, tests, it = g.target, over.elt, g.ifs, g.iter
        body = ast.Expr(ast.Yield(value))
        for t in reversed(tests):
            body = ast.If(t, [body], [])
        loop = ast.For(target, it, [body], [])
        for n in ast.walk(loop):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, last)
        f.body[-1] = ast.copy_location(loop, last)
    return tree


def _iterating(tree):
    """`while True: try: x = next(it) except StopIteration: leave` is going through what is left of an iterator."""
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for parent in ast.walk(f):
            for field in ("body", "orelse", "finalbody"):
                block = getattr(parent, field, None)
                if isinstance(block, list):
                    block[:] = [_as_for(n, f) or n for n in block]
    return tree


def _as_for(n, f):
    if not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value is True and not n.orelse
            and n.body and isinstance(n.body[0], ast.Try)):
        return None
    t = n.body[0]
    if len(t.body) != 1 or t.finalbody or len(t.handlers) != 1:
        return None
    get, h = t.body[0], t.handlers[0]
    if not (isinstance(get, ast.Assign) and len(get.targets) == 1 and isinstance(get.targets[0], ast.Name)
            and isinstance(get.value, ast.Call) and isinstance(get.value.func, ast.Name) and get.value.func.id == "next"
            and len(get.value.args) == 1 and not get.value.keywords and isinstance(get.value.args[0], ast.Name)):
        return None
    if not (isinstance(h.type, ast.Name) and h.type.id == "StopIteration") or h.name or len(h.body) != 1 \
            or not isinstance(h.body[0], (ast.Return, ast.Break)):
        return None
    it = get.value.args[0].id
    rest = t.orelse + n.body[1:]
    if any(isinstance(x, ast.Name) and x.id == it for r in rest for x in ast.walk(r)):
        return None
    # taking from a list again and again would start anew, so it has to be an iterator: what the function was given,
    # or what it made by calling something, and used with next
    out = [] if isinstance(h.body[0], ast.Break) else list(h.body)
    loop = ast.For(get.targets[0], get.value.args[0], rest or [ast.copy_location(ast.Pass(), n)], out)
    return ast.copy_location(loop, n)


def _is_generator(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))


class Cls:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.methods, self.props, self.setters, self.attrs = {}, {}, {}, {}
        self.base_nodes = node.bases
        self.bases = []      # names: package qual or external dotted name
        self.nested = {}

    @property
    def name(self):
        return self.node.name


class Module:
    def __init__(self, name, path, relpath, source):
        self.name, self.path, self.relpath = name, path, relpath
        self.source = source
        self.is_ref = False
        self.tree = _iterating(_one_iteration(ast.parse(source)))
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}


class Program:
    def __init__(self, root="/repo", package="pyactr", refs=True, overrides=None):
        self.root, self.package = root, package
        self.modules, self.funcs, self.classes = {}, {}, {}
        pdir = os.path.join(root, package)
        for dp, dn, fns in os.walk(pdir):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__"))
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, pdir)[:-3].replace(os.sep, ".")
                name = rel[:-9] if rel.endswith(".__init__") else rel
                if name == "__init__":
                    name = ""
                if overrides and path in overrides:
                    src = overrides[path]
                else:
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                m = Module(name or package, path, os.path.relpath(path, root), src)
                self.modules[m.name] = m
        rdir = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref")
        for fn in sorted(os.listdir(rdir)) if refs else []:
            if fn.endswith(".py"):
                path = os.path.join(rdir, fn)
                with open(path, encoding="utf-8") as fh:
                    m = Module("ref_" + fn[:-3], path, "ref/" + fn, fh.read())
                m.is_ref = True
                self.modules[m.name] = m
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            self._imports(m)
        for c in self.classes.values():
            c.bases = [self.resolve_class_name(c, b) for b in c.base_nodes]
        facts_mod.HIERARCHY["super"] = self.is_subclass_name
        facts_mod.HIERARCHY["disjoint"] = self.disjoint_names

    # ------------------------------------------------------------ indexing
    def _index(self, m):
        def visit(body, prefix, cls):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{prefix}.{n.name}"
                    f = Func(q, n, m, cls)
                    if cls is not None:
                        name = n.name
                        if name.startswith("__") and not name.endswith("__"):
                            name = "_" + cls.name.lstrip("_") + name
                        if f.kind == "property":
                            cls.props[name] = f
                        elif f.kind == "setter":
                            cls.setters[name] = f
                            q += ".setter"
                            f.qual = q
                        elif f.kind != "deleter":
                            cls.methods[name] = f
                    else:
                        m.funcs[n.name] = f
                    self.funcs[q] = f
                    self._nested(n, q, m, cls)
                elif isinstance(n, ast.ClassDef):
                    q = f"{prefix}.{n.name}"
                    c = Cls(q, n, m)
                    self.classes[q] = c
                    if cls is not None:
                        cls.nested[n.name] = c
                    else:
                        m.classes[n.name] = c
                    visit(n.body, q, c)
                elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in tgts:
                        for nm in _target_names(t):
                            (cls.attrs if cls is not None else m.assigns).setdefault(nm, []).append(n)
                elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for sub in _bodies(n):
                        visit(sub, prefix, cls)
        visit(m.tree.body, m.name, None)

    def _nested(self, node, q, m, cls):
        for n in own_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                qq = f"{q}.{n.name}"
                f = Func(qq, n, m, cls, parent=q)
                self.funcs[qq] = f
                self._nested(n, qq, m, cls)

    def _imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    nm = a.asname or a.name.split(".")[0]
                    m.imports[nm] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    base = self.package + ("." + base if base else "")
                for a in n.names:
                    m.imports[a.asname or a.name] = base + "." + a.name

    def resolve_import(self, dotted):
        """('mod'|'cls'|'fn'|'var'|'ext', object) for a dotted import path."""
        if dotted == self.package:
            return "mod", self.modules.get(self.package)
        if dotted.startswith(self.package + "."):
            rest = dotted[len(self.package) + 1:]
            if rest in self.modules:
                return "mod", self.modules[rest]
            if "." in rest:
                mn, nm = rest.rsplit(".", 1)
            else:
                mn, nm = self.package, rest
            m = self.modules.get(mn)
            if m is not None:
                if nm in m.classes:
                    return "cls", m.classes[nm]
                if nm in m.funcs:
                    return "fn", m.funcs[nm]
                if nm in m.imports and m.imports[nm] != dotted:
                    return self.resolve_import(m.imports[nm])
                return "var", (m, nm)
        return "ext", dotted

    def resolve_class_name(self, c, node):
        try:
            txt = ast.unparse(node)
        except Exception:
            return "?"
        return self.resolve_dotted(c.module, txt)

    def resolve_dotted(self, m, txt):
        parts = txt.split(".")
        if parts[0] in m.classes and len(parts) == 1:
            return m.classes[parts[0]].qual
        if parts[0] in m.imports:
            kind, obj = self.resolve_import(m.imports[parts[0]])
            for p in parts[1:]:
                if kind == "mod" and obj is not None:
                    if p in obj.classes:
                        kind, obj = "cls", obj.classes[p]
                    elif p in obj.funcs:
                        kind, obj = "fn", obj.funcs[p]
                    else:
                        kind, obj = "var", (obj, p)
                elif kind == "ext":
                    obj = obj + "." + p
                elif kind == "cls" and p in obj.nested:
                    obj = obj.nested[p]
                else:
                    return txt
            if kind in ("cls", "fn"):
                return obj.qual
            if kind == "ext":
                return obj
        return txt

    def rebound(self):
        """Names of class attributes that are set again somewhere through the class itself."""
        if self._rebound is None:
            self._rebound = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                    for t in ts:
                        if not isinstance(t, ast.Attribute):
                            continue
                        b = t.value
                        via = isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type" \
                            or isinstance(b, ast.Attribute) and b.attr == "__class__" or isinstance(b, ast.Name) and b.id == "cls"
                        if via or isinstance(b, (ast.Name, ast.Attribute)) and self.resolve_dotted(m, ast.unparse(b)) in self.classes:
                            self._rebound.add(t.attr)
        return self._rebound

    _rebound = None

    # ------------------------------------------------------------ classes
    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            if q in out:
                continue
            out.append(q)
            c = self.classes.get(q)
            if c:
                todo.extend(c.bases)
        return out

    def find_method(self, qual, name, start_after=None):
        ms = self.mro(qual)
        if start_after in ms:
            ms = ms[ms.index(start_after) + 1:]
        for q in ms:
            c = self.classes.get(q)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, qual, name, setter=False, start_after=None):
        for q in self.mro(qual):
            c = self.classes.get(q)
            if c is None:
                continue
            d = c.setters if setter else c.props
            if name in d:
                return d[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def counters(self):
        """Attributes that hold collections.Counter objects."""
        if not hasattr(self, "_counters"):
            self._counters = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ("collections.Counter", "Counter"):
                        self._counters |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
        return self._counters

    def find_classattr(self, qual, name):
        for q in self.mro(qual):
            c = self.classes.get(q)
            if c and name in c.attrs:
                return c, c.attrs[name]
            own = "_" + q.split(".")[-1].lstrip("_") + "__"
            if c and name.startswith(own) and "__" + name[len(own):] in c.attrs:
                return c, c.attrs["__" + name[len(own):]]
        return None

    def is_subclass_name(self, n, m):
        """class named n is (a subclass of) class named m?"""
        if n == m or m == "object":
            return True
        if n in BUILTIN_EXC:
            k = n
            while k:
                if k == m:
                    return True
                k = BUILTIN_EXC.get(k)
            return False
        if n in self.classes:
            for q in self.mro(n)[1:]:
                if q == m or q.split(".")[-1] == m.split(".")[-1]:
                    return True
                if q in BUILTIN_EXC and self.is_subclass_name(q, m):
                    return True
                for k in _ABC.get(q.split(".")[-1], ()):
                    if k == m.split(".")[-1]:
                        return True
        for k in _ABC.get(n.split(".")[-1], ()):
            if k == m.split(".")[-1]:
                return True
        return False

    def tuple_classes(self):
        """The names given to classes of named tuples."""
        if not hasattr(self, "_ntnames"):
            self._ntnames = {t.id for m in self.modules.values() for s in m.tree.body
                             if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == "namedtuple"
                             for t in s.targets if isinstance(t, ast.Name)}
        return self._ntnames

    def disjoint_names(self, n, m):
        if self.is_subclass_name(n, m) or self.is_subclass_name(m, n):
            return False
        if n in self.classes and m in self.classes:
            # disjoint unless some class derives from both
            return not any(self.is_subclass_name(q, n) and self.is_subclass_name(q, m) for q in self.classes)
        for a, b in ((n, m), (m, n)):
            if a in self.tuple_classes() and b in self.classes:
                return not any(a in ast.unparse(x) for c in self.classes.values() for x in c.node.bases)
        prim = {"str", "int", "float", "NoneType", "list", "tuple", "dict", "set"}
        if n in prim and m in prim:
            return True
        if (n in prim and m in self.classes) or (m in prim and n in self.classes):
            return True
        return False


_ABC = {
    "str": ("Sequence", "Iterable", "Hashable", "Sized", "Collection", "Container"),
    "list": ("Sequence", "MutableSequence", "Iterable", "Sized"),
    "tuple": ("Sequence", "Iterable", "Hashable", "Sized"),
    "dict": ("Mapping", "MutableMapping", "Iterable", "Sized"),
    "set": ("Set", "MutableSet", "Iterable", "Sized"),
    "Sequence": ("Iterable", "Sized", "Container", "Collection"),
    "MutableSequence": ("Sequence", "Iterable"),
    "MutableMapping": ("Mapping", "Iterable", "Sized"),
    "Mapping": ("Iterable", "Sized"),
    "MutableSet": ("Set", "Iterable", "Sized"),
    "UserDict": ("MutableMapping", "Mapping", "Iterable"),
    "NoneType": ("Hashable",), "int": ("Hashable",), "float": ("Hashable",),
}


def _target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from _target_names(e)
    elif isinstance(t, ast.Starred):
        yield from _target_names(t.value)


def _bodies(n):
    for f in ("body", "orelse", "finalbody"):
        if getattr(n, f, None):
            yield getattr(n, f)
    for h in getattr(n, "handlers", []):
        yield h.body
