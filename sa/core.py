"""Interpreter core: scopes, names, attributes, truth, containers."""
import ast
import time

from . import terms as tm
from . import facts as fx
from .terms import mk, const, NONE, TRUE, FALSE
from .state import State, Raised, Eff, Limit, merge_pairs
from .program import own_nodes, _target_names

BI = {"len", "str", "int", "float", "abs", "max", "min", "sum", "sorted", "list", "tuple", "set", "dict",
      "frozenset", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "range", "enumerate", "zip", "filter", "map",
      "next", "iter", "hash", "repr", "round", "any", "all", "print", "super", "type", "callable", "bool",
      "reversed", "object", "property", "staticmethod", "classmethod", "id", "divmod", "pow", "ord", "chr",
      "delattr", "vars", "input", "open", "bytes", "complex", "slice", "format", "eval", "exec", "globals", "locals",
      "NotImplemented", "Ellipsis", "__name__", "__file__"}


class Fr:
    __slots__ = ("fid", "func", "module", "cls", "selft", "parent", "locals", "sink", "globals_", "nonlocals", "keep")

    def __init__(self, fid, func, module, cls, parent=None, selft=None):
        self.fid, self.func, self.module, self.cls, self.parent, self.selft = fid, func, module, cls, parent, selft
        self.sink = None
        self.locals, self.globals_, self.nonlocals = set(), set(), set()
        self.keep = False


def scope_names(node):
    """(locals, globals, nonlocals) of a function node."""
    c = getattr(node, "_sa_scope", None)
    if c:
        return c
    loc, glo, non = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        loc.add(x.arg)
    comps = set()
    for n in own_nodes(node):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for m in ast.walk(g.target):
                    comps.add(id(m))
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comps:
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            loc.add(n.name)
    loc -= glo | non
    node._sa_scope = (loc, glo, non)
    return node._sa_scope


EPOCH = (mk("world"), "epoch")


def always_true(t):
    """Values given by check_bound_vars: tuples of four."""
    if t.op == "call":
        return t.args[0] is BOUND
    if t.op == "item" and t.args[0].op == "dictcomp":
        return bool(t.args[0].args[1]) and all(v.op == "tuple" and len(v.args) == 2 and always_true(v.args[1]) for _, v in t.args[0].args[1])
    return False


BOUND = mk("fn", "utilities.check_bound_vars")


class Config:
    """What a rule tells the interpreter about its context."""

    def __init__(self, cuts=(), types=None, attr_types=None, inline_new=(), max_states=3000,
                 singletons=(), impure=(), max_depth=14, pure_methods=(), cut_pred=None, observe_calls=False, volatile=(), unroll=0, deadline=None, returns=None,
                 method_raises=None, solid=None, optional=None, turns=False):
        self.turns = turns                    # loops within loops over fixed values are told apart by the turn they are in
        self.solid = solid or always_true     # term -> it is never empty, zero or None
        self.optional = optional              # term -> it is None or a value that is not empty or zero
        self.returns = returns                # function -> class of what a call of it gives
        self.deadline = deadline              # when to give up (time.time())
        self.method_raises = dict(method_raises or {})                   # exceptions a method of some name may raise; any, when not listed
        self.search = False                   # loops that only look for some element become questions about it
        self.split = False                    # tests about nothing that varies in a loop are decided before it
        self.unroll = unroll                  # look at collections of this size only, to find definite differences
        self.volatile = set(volatile)         # attributes that others change whenever control leaves the function
        self.observe_calls = observe_calls
        self.cuts = set(cuts)
        self.types = dict(types or {})
        self.attr_types = dict(attr_types or {})
        self.inline_new = set(inline_new)
        self.max_states = max_states
        self.singletons = set(singletons)
        self.impure = set(impure)
        self.max_depth = max_depth
        self.pure_methods = set(pure_methods)
        self.cut_pred = cut_pred


class Core:
    def __init__(self, prog, cfg=None):
        self.prog = prog
        self.lookups = None          # id of a name's node -> what reading it found, when recorded
        self.cfg = cfg or Config()
        self.handlers = []        # stack of sets of exception class names
        self.stack = []           # call stack of Func quals
        self.globals_cache = {}
        self.closures = {}        # closure term -> (Func, Fr)
        self.gens = {}            # genobj term -> (Func, selft, bound args dict, Fr parent)
        self.instances = set()    # collections looked at in one size only
        self.loops_active = []    # loops around the statement, outermost first
        self.turns = []           # the turns of the unrolled loops around the statement
        self.work = 0
        self.notes = []
        self.reached = set()      # function quals analysed
        self.call_sites = 0

    # ------------------------------------------------------------ utilities
    def tick(self, n=1):
        self.work += n
        if self.work > 400000:
            raise Limit("too much work")

    def catches(self, exc):
        for hs in self.handlers:
            for h in hs:
                if self.prog.is_subclass_name(exc, h) or h == "BaseException":
                    return True
        return False

    def fork_raise(self, st, op, excs):
        """Fork on whether the operation with term `op` raises; returns
        (list of raised results, continuing state or None)."""
        out = []
        cur = st
        for e in excs:
            if not self.catches(e):
                continue
            at = mk("atom", "raises", e, op)
            v = cur.facts.decide(at)
            if v is False:
                continue
            if v is True:
                out.append((cur, Raised(mk("excv", e))))
                return out, None
            f1 = cur.facts.assume(at, True)
            f2 = cur.facts.assume(at, False)
            if f1 is not None:
                s1 = cur.fork()
                s1.facts = f1
                out.append((s1, Raised(mk("excv", e))))
            if f2 is None:
                return out, None
            cur = cur.with_facts(f2)
        return out, cur

    def bind(self, pairs, fn):
        out = []
        for s, v in pairs:
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(fn(s, v))
        self.tick(len(out))
        if len(out) > self.cfg.max_states:
            out = merge_pairs(out)
            if len(out) > self.cfg.max_states:
                raise Limit("too many paths")
        return out

    def branch(self, st, t):
        """[(state, bool)] for a condition value t."""
        b = self.truth_of(st, t)
        v = st.facts.decide(b)
        if v is not None:
            return [(st, v)]
        if self.cfg.deadline is not None and time.time() > self.cfg.deadline:
            raise Limit("out of time")
        out = []
        f1 = st.facts.assume(b, True)
        f2 = st.facts.assume(b, False)
        if f1 is not None:
            out.append((st.with_facts(f1), True))
        if f2 is not None:
            out.append((st.with_facts(f2), False))
        return out

    def loc(self, fr, node):
        return f"{fr.module.relpath}:{getattr(node, 'lineno', 0)}"

    def effect(self, st, kind, data, fr, node):
        e = Eff(kind, data, self.loc(fr, node), fr.func.qual if fr.func else fr.module.name, st.facts)
        if kind in ("yield", "yieldfrom") or (kind == "call" and self.cfg.observe_calls):
            e.at = (dict(st.attrs), dict(st.cont))
        st.eff = st.eff + (e,)

    def left(self, st):
        """Control leaves the function for a while: what others may change is no longer known."""
        if not self.cfg.volatile:
            return
        epoch = tm.add(st.attrs.get(EPOCH, tm.ZERO), tm.ONE)
        st.attrs[EPOCH] = epoch
        for o, n in list(st.attrs):
            if n in self.cfg.volatile:
                st.attrs[(o, n)] = mk("at", mk("attr", o, n), epoch)

    def aged(self, st, obj, name):
        t = mk("attr", obj, name)
        if name in self.cfg.volatile and EPOCH in st.attrs:
            return mk("at", t, st.attrs[EPOCH])
        return t

    # ------------------------------------------------------------ types
    def type_of(self, t):
        """Package class of a term, when known."""
        ty = self.cfg.types.get(t)
        if ty:
            return ty
        if t.op == "ref" and isinstance(t.args[1], str) and t.args[1].startswith("obj:"):
            return t.args[1][4:]
        if t.op == "new" and t.args[0].op == "cls":
            return t.args[0].args[0]
        if t.op == "call" and self.cfg.returns is not None and t.args[0].op == "fn":
            return self.cfg.returns(t.args[0].args[0])
        if t.op == "at" and t.args[0].op == "attr":
            t = t.args[0]
        if t.op == "attr":
            bt = self.type_of(t.args[0])
            if bt:
                for q in self.prog.mro(bt):
                    ty = self.cfg.attr_types.get((q, t.args[1]))
                    if ty:
                        return ty
        return None

    # ------------------------------------------------------------ containers
    def new_ref(self, st, node, fr, kind, content):
        key = ("ref", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fr.fid, kind)
        n = st.count(key)
        r = mk("ref", (key, n), kind)
        st.cont[r] = content
        return r

    def content(self, st, t):
        """Content term of a container value."""
        return self.inner(st, st.cont.get(t, t))

    def inner(self, st, c):
        """Resolve references inside a content term (other keys mean their first content)."""
        n = 0
        while c.op == "ref" and c in st.cont and n < 50:
            c = st.cont[c]
            n += 1
        return c

    def snap(self, st, t, depth=0):
        """Replace references by what they hold now."""
        if not isinstance(t, tm.T):
            if isinstance(t, tuple):
                return tuple(self.snap(st, x, depth) for x in t)
            return t
        if depth > 25:
            return t
        if t.op == "ref":
            if t in st.cont:
                return self.snap(st, st.cont[t], depth + 1)
            return t
        if t.op in ("num", "s", "c", "sym", "cls", "fn", "mod", "ext", "bi", "closure", "genobj", "ntcls"):
            return t
        if not any(x.op == "ref" for x in tm.walk(t)):
            return t
        if t.op == "poly":
            m = {x: self.snap(st, x, depth + 1) for x in tm.walk(t) if x.op == "ref"}
            return tm.subst(t, m)
        return tm.remake(t.op, tuple(self.snap(st, x, depth + 1) for x in t.args))

    def truth_of(self, st, t):
        if t.op == "ref":
            if t.args[1].startswith("obj:"):
                return TRUE
            c = self.content(st, t)
            return self.truth_content(st, c)
        if t in st.cont:
            return self.truth_content(st, st.cont[t])
        if t.op in ("not", "truth") and t.args[0].op in ("ref",):
            b = self.truth_of(st, t.args[0])
            return tm.negate(b) if t.op == "not" else b
        if self.cfg.solid is not None and self.cfg.solid(t):
            return TRUE
        if self.cfg.optional is not None and self.cfg.optional(t):
            return tm.negate(tm.eq(t, NONE))
        ty = self.type_of(t)
        if ty and t.op != "new":
            f = self.prog.find_method(ty, "__len__") or self.prog.find_method(ty, "__bool__")
            if f is not None and f.qual not in self.stack and f.qual not in self.cfg.cuts:
                r = self.call_func(f, [], [], st.fork(), f.node, selft=t)
                if len(r) == 1 and not isinstance(r[0][1], Raised):
                    return tm.truth(self.snap(st, r[0][1]))
            if f is None and t.op == "call":    # made by a function known to return an object of this class
                return TRUE
        if t.op == "ntv":
            return TRUE
        if t.op == "new" and t.args[0].op == "cls" and t.args[0].args[0] == "chunks.Chunk":     # a chunk with a slot is true
            if any(k != "**" or self.truth_content(st, v) is TRUE for k, v in t.args[2]):
                return TRUE
        return tm.truth(t)

    def truth_content(self, st, c):
        if c.op in ("app", "sadd", "upd"):
            return TRUE
        if c.op in ("seq", "setof"):
            return self.truth_content(st, c.args[-1])
        if c.op == "ref" and c in st.cont:
            return self.truth_content(st, self.inner(st, c))
        if c.op == "concat":
            ts = [self.truth_content(st, x) for x in c.args]
            if any(x is TRUE for x in ts):
                return TRUE
            ts = [x for x in ts if x is not FALSE]
            return ts[0] if len(ts) == 1 else (FALSE if not ts else mk("or", *sorted(ts)))
        return tm.truth(c)

    def in_term(self, st, x, c):
        """Boolean term for x in c."""
        return self.in_content(st, x, self.content(st, c))

    def in_content(self, st, x, cc):
        cc = self.inner(st, cc)
        if cc.op in ("seq", "setof"):
            return self.in_content(st, x, cc.args[-1])
        if cc.op in ("app", "sadd"):
            return self.t_or([self.in_content(st, x, cc.args[0]), tm.eq(x, cc.args[1])])
        if cc.op == "upd":
            return self.t_or([self.in_content(st, x, cc.args[0]), tm.eq(x, cc.args[1])])
        if cc.op == "concat":
            return self.t_or([self.in_content(st, x, p) for p in cc.args])
        if cc.op == "merged":
            return self.t_or([self.in_content(st, x, p) for p in cc.args])
        if cc.op == "mcall" and cc.args[1] == "keys":
            return self.in_content(st, x, cc.args[0])
        if cc.op in ("tuple", "list", "set", "dict"):
            mem = [k for k, v in cc.args] if cc.op == "dict" else list(cc.args)
            mem = [self.snap(st, m) for m in mem]
            x = self.snap(st, x)
            vs = [tm.eq(x, m) for m in mem]
            if any(v is TRUE for v in vs):
                return TRUE
            rest = [m for m, v in zip(mem, vs) if v is not FALSE]
            if not rest:
                return FALSE
            if len(rest) == 1:
                return tm.eq(x, rest[0])
            if len(set(rest)) <= 4 and all(tm.is_const(m) for m in rest):
                return self.t_or([tm.eq(x, m) for m in rest])       # the same as one comparison after the other
            return mk("in", x, mk("set", *sorted(set(rest))))
        if cc.op == "s" and x.op == "s":
            return tm.boolean(x.args[0] in cc.args[0])
        if cc.op == "comp" and cc.args[1] and all(v is mk("bv", 0) for _, v in cc.args[1]):      # a filter
            x = self.snap(st, x)
            return self.t_and([self.in_content(st, x, cc.args[0]), self.t_or([self.t_and([tm.instantiate(a, x) for a in cond]) for cond, _ in cc.args[1]])])
        if cc.op == "ntv":
            return self.t_or([tm.eq(x, v) for v in cc.args[2]])
        return mk("in", self.snap(st, x), self.snap(st, cc))

    def t_or(self, ts):
        out = []
        for t in ts:
            if t is TRUE:
                return TRUE
            if t is FALSE or t in out:
                continue
            if t.op == "or":
                out.extend(a for a in t.args if a not in out)
            else:
                out.append(t)
        if not out:
            return FALSE
        if len(out) == 1:
            return out[0]
        return mk("or", *sorted(out))

    def t_and(self, ts):
        return tm.negate(self.t_or([tm.negate(t) for t in ts]))

    # ------------------------------------------------------------ names
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def lookup(self, st, fr, name, node):
        """[(state, value)] for reading a variable."""
        f = fr
        if name in f.locals or (f.func is None and name in st.frames.get(f.fid, {})):
            v = st.frames[f.fid].get(name)
            if self.lookups is not None:
                self.lookups.setdefault(id(node), []).append(("unassigned" if v is None else "maybe" if v.op == "maybe" else "assigned", v, st.facts))
            if v is None:
                return [(st, Raised(mk("excv", "UnboundLocalError"), self.loc(fr, node)))]
            if v.op == "maybe":
                r, s2 = self.fork_raise(st, v, ["UnboundLocalError"])
                if s2 is not None:
                    r = r + [(s2, v.args[0])]
                return r
            return [(st, v)]
        f = fr.parent
        while f is not None and name not in fr.globals_:
            if name in f.locals or name in st.frames.get(f.fid, {}):
                v = st.frames.get(f.fid, {}).get(name)
                if v is None:
                    return [(st, Raised(mk("excv", "NameError"), self.loc(fr, node)))]
                if v.op == "maybe":
                    v = v.args[0]
                return [(st, v)]
            f = f.parent
        v = self.global_name(fr.module, name, fr.cls if fr.func is None else None)
        if v is None:
            return [(st, Raised(mk("excv", "NameError"), self.loc(fr, node)))]
        return [(st, v)]

    def global_name(self, m, name, cls=None):
        if cls is not None and name in cls.attrs:
            return self.class_attr(cls, name)
        if name in m.assigns:
            return self.module_var(m, name)
        if name in m.classes:
            return mk("cls", m.classes[name].qual)
        if name in m.funcs:
            return mk("fn", m.funcs[name].qual)
        if name in m.imports:
            kind, obj = self.prog.resolve_import(m.imports[name])
            return self.imported(kind, obj)
        if name in self.prog_exc():
            return mk("cls", name)
        if name in BI:
            return mk("bi", name)
        return None

    def prog_exc(self):
        from .program import BUILTIN_EXC
        return BUILTIN_EXC

    def imported(self, kind, obj):
        if kind == "mod":
            return mk("mod", obj.name)
        if kind == "cls":
            return mk("cls", obj.qual)
        if kind == "fn":
            return mk("fn", obj.qual)
        if kind == "var":
            m, nm = obj
            v = self.global_name(m, nm)
            return v if v is not None else mk("ext", m.name + "." + nm)
        return ext(obj)

    def module_var(self, m, name):
        key = (m.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        self.globals_cache[key] = mk("gvar", m.name, name)
        nodes = m.assigns[name]
        if len(nodes) == 1 and isinstance(nodes[0], (ast.Assign, ast.AnnAssign)) and nodes[0].value is not None and name not in self.prog.rebound():
            v = self.eval_static(nodes[0].value, m, None, name, nodes[0])
            if v is not None:
                self.globals_cache[key] = v
        return self.globals_cache[key]

    def class_attr(self, c, name):
        own = "_" + c.name.lstrip("_") + "__"
        if name not in c.attrs and name.startswith(own):
            name = "__" + name[len(own):]
        key = (c.qual, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        opaque = mk("attr", mk("cls", c.qual), name)
        self.globals_cache[key] = opaque
        nodes = c.attrs[name]
        if len(nodes) == 1 and isinstance(nodes[0], (ast.Assign, ast.AnnAssign)) and nodes[0].value is not None and name not in self.prog.rebound():
            v = self.eval_static(nodes[0].value, c.module, c, name, nodes[0])
            if v is not None and not (v.op in ("dict", "set", "list") and not v.args):
                self.globals_cache[key] = v
        return self.globals_cache[key]

    def eval_static(self, expr, m, c, name, stmt):
        """Value of a module- or class-level constant expression."""
        if isinstance(stmt, ast.Assign) and not any(isinstance(t, ast.Name) for t in stmt.targets):
            return None
        if isinstance(expr, ast.Call):
            try:
                fn = ast.unparse(expr.func)
            except Exception:
                fn = ""
            if fn.split(".")[-1] == "namedtuple" and len(expr.args) >= 2:
                fa = expr.args[1]
                if isinstance(fa, ast.Constant) and isinstance(fa.value, str):
                    fields = fa.value.replace(",", " ").split()
                elif isinstance(fa, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in fa.elts):
                    fields = [x.value for x in fa.elts]
                else:
                    return None
                return mk("ntcls", f"{m.name}.{name}", tuple(fields))
        st = State()
        fr = Fr(f"static:{m.name}:{c.qual if c else ''}", None, m, c)
        st.frames[fr.fid] = {}
        save = (self.handlers, self.stack)
        self.handlers, self.stack = [], []
        try:
            r = self.ev(expr, st, fr)
        except Limit:
            return None
        finally:
            self.handlers, self.stack = save
        if len(r) != 1 or isinstance(r[0][1], Raised):
            return None
        return self.snap(r[0][0], r[0][1])

    # ------------------------------------------------------------ attributes
    def load_attr(self, st, obj, name, node, fr):
        op = obj.op
        if op == "mod":
            m = self.prog.modules[obj.args[0]]
            v = self.global_name(m, name)
            if v is None or v.op == "bi":
                if name in self.prog.modules:
                    v = mk("mod", name)
            if v is None:
                v = mk("ext", obj.args[0] + "." + name)
            return [(st, v)]
        if op == "ext":
            return [(st, ext(obj.args[0] + "." + name))]
        if op == "ntcls":
            if name == "_fields":
                return [(st, mk("tuple", *[mk("s", f) for f in obj.args[1]]))]
            return [(st, mk("attr", obj, name))]
        if op == "cls":
            q = obj.args[0]
            if (obj, name) in st.attrs:
                return [(st, st.attrs[(obj, name)])]
            f = self.prog.find_method(q, name)
            if f is not None:
                return [(st, mk("fn", f.qual))]
            ca = self.prog.find_classattr(q, name)
            if ca is not None:
                return [(st, self.class_attr(ca[0], name))]
            for qq in self.prog.mro(q):
                c = self.prog.classes.get(qq)
                if c and name in c.nested:
                    return [(st, mk("cls", c.nested[name].qual))]
            if name == "__name__":
                return [(st, mk("s", q.split(".")[-1]))]
            return [(st, mk("attr", obj, name))]
        if op == "super":
            q, selft, after = obj.args
            f = self.prog.find_method(q, name, start_after=after)
            if f is not None:
                return [(st, mk("bound", selft, mk("fn", f.qual)))]
            return [(st, mk("attr", obj, name))]
        if op == "ntv":
            if name == "_fields":
                return [(st, mk("tuple", *[mk("s", f) for f in obj.args[1]]))]
            if name in obj.args[1]:
                return [(st, obj.args[2][obj.args[1].index(name)])]
            return self.attr_error(st, obj, name)
        if op in ("fn", "closure"):
            if name == "__name__":
                f = self.prog.funcs.get(obj.args[0]) if op == "fn" else None
                return [(st, mk("s", f.name))] if f else [(st, mk("attr", obj, name))]
            return [(st, mk("attr", obj, name))]
        if op == "genobj" and name == "__name__":
            return [(st, mk("s", self.gens[obj][0].name))]
        if op == "mod":
            return [(st, mk("attr", obj, name))]
        if (obj, name) in st.attrs:
            v = st.attrs[(obj, name)]
            if v.op == "deleted":
                return self.attr_error(st, obj, name)
            return [(st, v)]
        if name in self.cfg.volatile and EPOCH in st.attrs:
            return [(st, self.aged(st, obj, name))]
        ty = self.type_of(obj) or (self.nt_checked(st, obj) if name == "_fields" else None)
        if ty:
            if ty.startswith("nt:"):
                fields = self.nt_fields(ty)
                if name == "_fields":
                    return [(st, mk("tuple", *[mk("s", f) for f in fields]))]
                if name in fields:
                    return [(st, mk("attr", obj, name))]
            p = self.prog.find_prop(ty, name)
            if p is not None:
                if p.qual in self.cfg.cuts:
                    return [(st, mk("attr", obj, name))]
                return self.call_func(p, [], [], st, node, selft=obj, fr=fr)
            f = self.prog.find_method(ty, name)
            if f is not None:
                return [(st, mk("bound", obj, mk("fn", f.qual)))]
            ca = self.prog.find_classattr(ty, name)
            if ca is not None and not self.instance_assigned(ty, name):
                return [(st, self.class_attr(ca[0], name))]
            for q in self.prog.mro(ty):
                c = self.prog.classes.get(q)
                if c and name in c.nested:
                    return [(st, mk("cls", c.nested[name].qual))]
            if self.instance_assigned(ty, name) or obj.op == "ref":
                return [(st, mk("attr", obj, name))]
        if op in ("s", "num", "c", "tuple", "list", "set", "dict", "cat", "strof") and self.catches("AttributeError"):
            kind = {"cat": "s", "strof": "s", "c": "c"}.get(op, op)
            import builtins
            pt = {"s": str, "num": float, "tuple": tuple, "list": list, "set": set, "dict": dict, "c": type(None)}[kind]
            if not hasattr(pt, name):
                return [(st, Raised(mk("excv", "AttributeError")))]
            return [(st, mk("attr", obj, name))]
        return self.attr_error(st, obj, name, soft=True)

    def nt_checked(self, st, obj):
        """Named tuple class of a value that was checked with isinstance."""
        o = self.snap(st, obj)
        for a, pol in st.facts.lits.items():
            if pol and a.op == "isinst" and a.args[0] is o and len(a.args[1]) == 1:
                short = a.args[1][0].split(".")[-1]
                for m in self.prog.modules.values():
                    if short in m.assigns and self.nt_fields("nt:%s.%s" % (m.name, short)):
                        return "nt:%s.%s" % (m.name, short)
        return None

    def nt_fields(self, ty):
        v = None
        m, nm = ty[3:].rsplit(".", 1)
        v = self.global_name(self.prog.modules[m], nm)
        return v.args[1] if v is not None and v.op == "ntcls" else ()

    def attr_error(self, st, obj, name, soft=False):
        if not soft:
            return [(st, Raised(mk("excv", "AttributeError")))]
        t = mk("attr", obj, name)
        if not self.catches("AttributeError") or obj.op in ("ref",) and not obj.args[1].startswith("obj:"):
            return [(st, t)]
        for a, pol in st.facts.lits.items():
            if pol and a.op == "isinst" and a.args[0] is obj and all(self.always_has(c, name) for c in a.args[1]):
                return [(st, t)]
        at = mk("hasattr", obj, name)
        out = []
        for s, v in self.branch(st, at):
            out.append((s, t if v else Raised(mk("excv", "AttributeError"))))
        return out

    def always_has(self, c, name):
        """Every object of the class has the attribute: its constructor assigns it whatever happens."""
        qs = [q for q in self.prog.classes if not q.startswith("ref_") and q.split(".")[-1] == c.split(".")[-1]]
        if len(qs) != 1:
            return False
        if self.prog.find_prop(qs[0], name) is not None:
            return False
        f = self.prog.find_method(qs[0], "__init__")
        if f is None or not f.node.args.args:
            return False
        me = f.node.args.args[0].arg
        return any(isinstance(n, (ast.Assign, ast.AnnAssign)) and any(
            isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == me
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target])) for n in f.node.body)

    def instance_assigned(self, ty, name):
        key = ("ia", ty)
        d = self.globals_cache.get(key)
        if d is None:
            d = set()
            for q in self.prog.mro(ty):
                c = self.prog.classes.get(q)
                if not c:
                    continue
                for f in list(c.methods.values()) + list(c.setters.values()) + list(c.props.values()):
                    a = f.node.args.args
                    sn = a[0].arg if a else None
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == sn:
                            nm = n.attr
                            if nm.startswith("__") and not nm.endswith("__"):
                                nm = "_" + c.name.lstrip("_") + nm
                            d.add(nm)
            self.globals_cache[key] = d
        return name in d

    def store_attr(self, st, obj, name, val, node, fr):
        """[(state, None or Raised)]"""
        ty = self.type_of(obj)
        if ty:
            p = self.prog.find_prop(ty, name, setter=True)
            if p is not None and p.qual not in self.cfg.cuts:
                return self.call_func(p, [val], [], st, node, selft=obj, fr=fr)
        st = st.fork()
        st.attrs[(obj, name)] = val
        st.cont.pop(mk("attr", obj, name), None)
        self.effect(st, "store", (obj, name, self.snap(st, val), val), fr, node)
        return [(st, NONE)]


def ext(dotted):
    consts = {"math.pi": tm.PI, "numpy.pi": tm.PI, "math.e": tm.EULER, "numpy.e": tm.EULER,
              "math.inf": tm.INF, "numpy.inf": tm.INF, "math.nan": mk("nan"), "numpy.nan": mk("nan")}
    return consts.get(dotted) or mk("ext", dotted)
