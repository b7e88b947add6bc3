"""Grammars built with pyparsing, computed from the syntax tree of the functions that build them."""
import ast
import string

from .common import constant, NotConstant, Skip

SETS = {"alphas": string.ascii_letters, "nums": string.digits, "alphanums": string.ascii_letters + string.digits, "hexnums": string.hexdigits,
        "printables": "".join(c for c in string.printable if c not in string.whitespace), "punc8bit": None}


class Unknown(Exception):
    pass


def flat(kind, parts):
    out = []
    for p in parts:
        out.extend(p[1] if p[0] == kind else (p,))
    return (kind, tuple(out)) if len(out) != 1 else out[0]


class Reader:
    """Evaluates straight-line grammar code: names, constants, constructors, + and |."""

    def __init__(self, ck, depth=0):
        self.ck, self.prog, self.depth = ck, ck.prog, depth

    def function(self, qual, args=()):
        f = self.prog.funcs.get(qual)
        if f is None or self.depth > 6:
            raise Unknown(f"{qual} is not there")
        names = [a.arg for a in f.node.args.args]
        env = dict(zip(names, args))
        r = Reader(self.ck, self.depth + 1)
        done = r.body(f, f.node.body, env)
        if done is None:
            raise Unknown(f"{qual} returns no grammar")
        return done[0]

    def body(self, f, stmts, env):
        for s in stmts:
            if isinstance(s, ast.Return):
                return (self.value(f, s.value, env),)
            if isinstance(s, ast.Assign):
                v = self.value(f, s.value, env)
                for t in s.targets:
                    if not isinstance(t, ast.Name):
                        raise Unknown(ast.unparse(s)[:80])
                    env[t.id] = v
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                env[s.target.id] = self.binary(s.op, env[s.target.id], self.value(f, s.value, env))
            elif isinstance(s, (ast.Pass, ast.Assert)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                env[s.target.id] = self.value(f, s.value, env)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                self.statement(f, s.value, env)
            elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse:
                for x in self.seq(self.value(f, s.iter, env)):
                    env[s.target.id] = x
                    if self.body(f, s.body, env) is not None:
                        raise Unknown("return in a loop")
            else:
                raise Unknown(ast.unparse(s)[:80])
        return None

    def statement(self, f, c, env):
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.attr in ("append", "extend") and isinstance(env.get(c.func.value.id), list):
            v = self.value(f, c.args[0], env)
            env[c.func.value.id] = env[c.func.value.id] + ([v] if c.func.attr == "append" else list(self.seq(v)))
            return
        if isinstance(c.func, ast.Attribute) and c.func.attr in ("set_name", "setName", "set_debug"):
            return
        raise Unknown(ast.unparse(c)[:80])

    def seq(self, v):
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, set, frozenset, str)) and not is_grammar(v):
            return list(v)
        raise Unknown(f"not a sequence: {v!r}"[:80])

    def name(self, f, n, env):
        if n in env:
            return env[n]
        m = f.module
        if n in m.assigns:
            return self.const(m.name, n)
        if n in m.imports:
            kind, obj = self.prog.resolve_import(m.imports[n])
            if kind == "ext":
                return ("ext", obj)
            if kind == "mod":
                return ("mod", obj)
            if kind == "var":
                return self.const(obj[0].name, obj[1])
            if kind == "fn":
                return ("fn", obj.qual)
        if n in m.funcs:
            return ("fn", m.funcs[n].qual)
        if n in ("list", "tuple", "set", "sorted", "dict", "str", "frozenset"):
            return ("py", n)
        raise Unknown(n)

    def const(self, owner, n):
        try:
            return constant(self.ck, owner, n)
        except (NotConstant, Skip) as x:
            raise Unknown(f"{owner}.{n}: {x}")

    def value(self, f, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.name(f, e.id, env)
        if isinstance(e, (ast.List, ast.Tuple)):
            out = [self.value(f, x, env) for x in e.elts]
            return out
        if isinstance(e, ast.Set):
            return frozenset(self.value(f, x, env) for x in e.elts)
        if isinstance(e, ast.JoinedStr):
            return "".join(str(self.value(f, x.value if isinstance(x, ast.FormattedValue) else x, env)) for x in e.values)
        if isinstance(e, ast.Attribute):
            v = self.value(f, e.value, env)
            if isinstance(v, tuple) and v and v[0] == "ext":
                nm = v[1] + "." + e.attr
                short = nm.split(".")[-1]
                if nm.startswith("pyparsing.") and short in SETS:
                    return SETS[short]
                if nm.startswith("string."):
                    return getattr(string, short)
                return ("ext", nm)
            if isinstance(v, tuple) and v and v[0] == "mod":
                m = v[1]
                if e.attr in m.funcs:
                    return ("fn", m.funcs[e.attr].qual)
                return self.const(m.name, e.attr)
            return ("method", v, e.attr)
        if isinstance(e, ast.BinOp):
            return self.binary(e.op, self.value(f, e.left, env), self.value(f, e.right, env))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1 and isinstance(e.generators[0].target, ast.Name):
            g, out = e.generators[0], []
            for x in self.seq(self.value(f, g.iter, env)):
                env2 = dict(env)
                env2[g.target.id] = x
                if all(self.test(f, t, env2) for t in g.ifs):
                    out.append(self.value(f, e.elt, env2))
            return out
        if isinstance(e, ast.Call):
            return self.call(f, e, env)
        if isinstance(e, ast.Subscript):
            v, i = self.value(f, e.value, env), self.value(f, e.slice, env)
            if isinstance(v, (dict, list, str)) and not is_grammar(v):
                return v[i]
            if is_grammar(v) and i is Ellipsis:
                return ("many", v, 0)
        raise Unknown(ast.unparse(e)[:80])

    def test(self, f, t, env):
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.value(f, t.left, env), self.value(f, t.comparators[0], env)
            for k, r in ((ast.Eq, lambda: a == b), (ast.NotEq, lambda: a != b), (ast.In, lambda: a in b), (ast.NotIn, lambda: a not in b)):
                if isinstance(t.ops[0], k):
                    return r()
        raise Unknown(ast.unparse(t)[:80])

    def binary(self, op, a, b):
        if isinstance(op, ast.Add):
            if is_grammar(a) or is_grammar(b):
                return flat("and", (gr(a), gr(b)))
            if isinstance(a, (str, list)) and type(a) is type(b):
                return a + b
        if isinstance(op, ast.BitOr) and (is_grammar(a) or is_grammar(b)):
            return flat("first", (gr(a), gr(b)))
        if isinstance(op, ast.BitXor) and (is_grammar(a) or is_grammar(b)):
            return flat("longest", (gr(a), gr(b)))
        raise Unknown(f"{type(op).__name__}")

    def call(self, f, e, env):
        fn = self.value(f, e.func, env)
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unknown(ast.unparse(e)[:80])
        args = [self.value(f, a, env) for a in e.args]
        kw = {k.arg: self.value(f, k.value, env) for k in e.keywords}
        if fn[0] == "fn":
            if kw:
                raise Unknown(ast.unparse(e)[:80])
            return self.function(fn[1], args)
        if fn[0] == "py":
            if fn[1] == "str":
                return str(args[0])
            return sorted(self.seq(args[0])) if fn[1] == "sorted" else list(self.seq(args[0])) if args else []
        if fn[0] == "method":
            return self.method(fn[1], fn[2], args, kw, e)
        if fn[0] == "ext" and fn[1].startswith("pyparsing."):
            return self.construct(fn[1].split(".")[-1], args, kw, e)
        raise Unknown(ast.unparse(e)[:80])

    def method(self, v, name, args, kw, e):
        if isinstance(v, str) and name == "join":
            return v.join(self.seq(args[0]))
        if isinstance(v, dict) and name in ("keys", "values", "items", "copy"):
            return list(getattr(v, name)())
        if is_grammar(v) and name in ("set_name", "setName", "set_results_name", "setResultsName", "copy", "streamline"):
            return v
        if is_grammar(v) and name == "suppress":
            return ("suppress", v)
        raise Unknown(ast.unparse(e)[:80])

    def construct(self, name, args, kw, e):
        def text(x):
            if isinstance(x, str):
                return x
            if isinstance(x, (list, set, frozenset)):
                return "".join(x)
            raise Unknown(ast.unparse(e)[:80])
        if name == "Word" and set(kw) <= {"init_chars", "body_chars", "min", "initChars", "bodyChars"} and kw.get("min", 1) == 1:
            init = frozenset(text(args[0] if args else kw.get("init_chars", kw.get("initChars"))))
            b = args[1] if len(args) > 1 else kw.get("body_chars", kw.get("bodyChars"))
            if len(args) < 3:
                return ("word", init, frozenset(text(b)) if b else init)
        if name in ("one_of", "oneOf") and not (set(kw) - {"strs"}):
            v = args[0] if args else kw["strs"]
            return ("one", frozenset(v.split() if isinstance(v, str) else self.seq(v)))
        if name in ("Literal",) and len(args) == 1:
            return ("one", frozenset([args[0]]))
        if name == "QuotedString":
            q = args[0] if args else kw.get("quote_char", kw.get("quoteChar"))
            rest = {("unquote" if k in ("unquoteResults", "unquote_results") else k): v for k, v in kw.items() if k not in ("quote_char", "quoteChar")}
            if len(args) <= 1:
                return ("quoted", q, tuple(sorted((k, v) for k, v in rest.items() if not (k == "unquote" and v is True))))
        if name in ("OneOrMore", "ZeroOrMore") and len(args) == 1 and not kw:
            return ("many", gr(args[0]), 1 if name == "OneOrMore" else 0)
        if name in ("Group", "Optional", "Opt", "Suppress") and len(args) == 1 and not kw:
            return ({"Opt": "optional"}.get(name, name.lower()), gr(args[0]))
        if name in ("And", "MatchFirst", "Or") and len(args) == 1:
            return flat({"And": "and", "MatchFirst": "first", "Or": "longest"}[name], [gr(x) for x in self.seq(args[0])])
        raise Unknown(ast.unparse(e)[:80])


KINDS = {"word", "one", "quoted", "many", "group", "optional", "suppress", "and", "first", "longest"}


def is_grammar(v):
    return isinstance(v, tuple) and bool(v) and v[0] in KINDS


def gr(v):
    if isinstance(v, str):
        return ("one", frozenset([v]))
    if not is_grammar(v):
        raise Unknown(f"not a grammar: {v!r}"[:80])
    return v


def show(g):
    k = g[0]
    if k == "word":
        return f"word({''.join(sorted(g[1]))[:20]}.., {len(g[2])} signs)"
    if k == "one":
        return "{" + " ".join(sorted(g[1])) + "}"
    if k == "quoted":
        return f"quoted({g[1]})"
    if k == "many":
        return show(g[1]) + ("+" if g[2] else "*")
    if k in ("and", "first", "longest"):
        return "(" + {"and": " ", "first": " | ", "longest": " ^ "}[k].join(show(x) for x in g[1]) + ")"
    return f"{k}[{show(g[1])}]"


def differ(a, b, path=""):
    """The first place at which two grammars differ."""
    if a == b:
        return None
    if a[0] != b[0]:
        return f"{show(a)[:120]} for {show(b)[:120]}"
    if a[0] in ("group", "optional", "suppress"):
        return differ(a[1], b[1])
    if a[0] == "many":
        return differ(a[1], b[1]) or f"{show(a)[:100]} for {show(b)[:100]}"
    if a[0] in ("and", "first", "longest"):
        if len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                d = differ(x, y)
                if d:
                    return d
        return f"{show(a)[:150]} for {show(b)[:150]}"
    if a[0] == "word":
        return f"signs {''.join(sorted(a[1] ^ b[1]))!r} at the start, {''.join(sorted(a[2] ^ b[2]))!r} further on, differ"
    return f"{show(a)[:120]} for {show(b)[:120]}"
