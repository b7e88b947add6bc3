"""Calls: package functions, classes, methods, closures, generators."""
import ast

from . import terms as tm
from .definite import unassigned_reads
from .terms import mk, NONE, TRUE, FALSE
from .state import Raised, Limit, Eff, merge_pairs
from .core import Fr, scope_names
from . import libs, libs2


def acts(eff):
    """Is it more than a loop in which nothing happens?"""
    return eff.kind != "loop" or any(acts(x) for p in eff.data.paths for x in p.effs)


class Calls:
    def fid(self, fr, node, what, st):
        key = (fr.fid if fr else None, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), what)
        n = st.count(("fid", key))
        return self.fids.setdefault((key, n), len(self.fids) + 1)

    def closure(self, node, st, fr):
        key = ("closure", node.lineno, node.col_offset, fr.fid)
        t = mk("closure", key)
        q = f"{fr.func.qual if fr.func else fr.module.name}.{getattr(node, 'name', '<lambda>')}"
        f = self.prog.funcs.get(q)
        if f is None or f.node is not node:
            from .program import Func
            f = Func(q, node, fr.module, fr.cls, parent=fr.func.qual if fr.func else None)
        self.closures[t] = (f, fr)
        p = fr
        while p is not None:
            p.keep = True
            p = p.parent
        return t

    # ------------------------------------------------------------ call expressions
    def ev_Call(self, e, st, fr):
        self.call_sites += 1
        kwn = [k.arg if k.arg is not None else "**" for k in e.keywords]
        kwe = [k.value for k in e.keywords]
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and fr.cls is not None:
            return [(st, mk("super", fr.cls.qual, self.self_of(fr), fr.cls.qual))]

        def with_args(s, fv):
            if len(e.args) == 1 and not kwn and isinstance(e.args[0], ast.GeneratorExp) and fv in (mk("bi", "any"), mk("bi", "all")):
                return self.quantified(e, s, fr, fv)
            return self.bind(self.evs(list(e.args) + kwe, s, fr), lambda s2, vs: self.apply(
                fv, vs[:len(vs) - len(kwe)] if kwe else vs, list(zip(kwn, vs[len(vs) - len(kwe):])) if kwe else [], s2, e, fr))

        if isinstance(e.func, ast.Attribute):
            name = self.mangle(e.func.attr, fr)

            def on_recv(s, recv):
                if recv is tm.NONE or (recv.op in ("attr", "sym", "call", "item") and s.facts.decide(tm.eq(recv, tm.NONE)) is True):
                    return [(s, Raised(mk("excv", "AttributeError", mk("s", name)), self.loc(fr, e)))]
                m = self.method_ref(s, recv, name)
                if m is not None:
                    return with_args(s, m)
                return self.bind(self.evs(list(e.args) + kwe, s, fr), lambda s2, vs: self.mcall(
                    recv, name, vs[:len(vs) - len(kwe)] if kwe else vs,
                    list(zip(kwn, vs[len(vs) - len(kwe):])) if kwe else [], s2, e, fr))
            return self.bind(self.ev(e.func.value, st, fr), on_recv)
        return self.bind(self.ev(e.func, st, fr), with_args)

    def quantified(self, e, st, fr, fv):
        """any and all of a generator; where testing an element has effects, the ones after the deciding one are not tested."""
        gen = e.args[0]
        r = self.bind(self.evs([gen], st.fork(), fr), lambda s, vs: self.apply(fv, vs, [], s, e, fr))
        if len(gen.generators) > 1 or not any(acts(x) for s, _ in r for x in s.eff[len(st.eff):]):
            return r
        g, stop = gen.generators[0], fv.args[0] == "any"
        cfid = self.fid(fr, gen, "<comp>", st)
        cf = Fr(cfid, fr.func, fr.module, fr.cls, parent=fr, selft=fr.selft)
        cf.sink = fr.sink
        st.frames[cfid] = {"<decided>": tm.FALSE}
        cf.locals.update(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name))

        def tests(s, which):
            if not which:
                for s2, b in self.cond(gen.elt, s, cf):
                    if isinstance(b, Raised):
                        yield "raise", s2, b
                    elif b == stop:
                        s2.frames[cfid]["<decided>"] = tm.TRUE
                        yield "break", s2, None
                    else:
                        yield "next", s2, None
                return
            for s2, b in self.cond(which[0], s, cf):
                if isinstance(b, Raised):
                    yield "raise", s2, b
                elif b:
                    yield from tests(s2, which[1:])
                else:
                    yield "next", s2, None
        out = []
        for s, c in self.ev(g.iter, st, fr):
            if isinstance(c, Raised):
                out.append((s, c))
                continue
            for k, s2, v in self.iterate(gen, c, s, cf, g.target, lambda s3: list(tests(s3, g.ifs))):
                t = s2.frames.pop(cfid, {}).get("<decided>", tm.FALSE)
                out.append((s2, v if k == "raise" else t if stop else tm.negate(t)))
        return out

    def self_of(self, fr):
        while fr is not None:
            if fr.selft is not None:
                return fr.selft
            fr = fr.parent
        return mk("sym", "self")

    def method_ref(self, st, recv, name):
        """Callable term for recv.name when it is resolved without effects."""
        op = recv.op
        if op in ("mod", "ext", "cls", "super", "ntcls"):
            r = self.load_attr(st, recv, name, None, None)
            v = r[0][1]
            if isinstance(v, Raised) or v.op == "attr":
                return None
            return v
        if (recv, name) in st.attrs:
            return st.attrs[(recv, name)]
        ty = self.type_of(recv)
        if ty and not ty.startswith("nt:"):
            f = self.prog.find_method(ty, name)
            if f is not None:
                return mk("bound", recv, mk("fn", f.qual))
            p = self.prog.find_prop(ty, name)
            if p is not None:
                return None
            if self.instance_assigned(ty, name):
                return mk("attr", recv, name)
            for q in self.prog.mro(ty):
                c = self.prog.classes.get(q)
                if c and name in c.nested:
                    return mk("cls", c.nested[name].qual)
                if c and name in c.attrs:
                    v = self.class_attr(c, name)
                    return v if v.op in ("ntcls", "cls", "ext", "bi") else None
        return None

    # ------------------------------------------------------------ applying a value
    def apply(self, fv, args, kwargs, st, node, fr):
        op = fv.op
        if op == "fn":
            f = self.prog.funcs[fv.args[0]]
            if f.kind == "class":
                return self.call_func(f, args, kwargs, st, node, selft=mk("cls", f.cls.qual), fr=fr)
            return self.call_func(f, args, kwargs, st, node, fr=fr)
        if op == "bound":
            f = self.prog.funcs[fv.args[1].args[0]]
            if f.kind == "static":
                return self.call_func(f, args, kwargs, st, node, fr=fr)
            if f.kind == "class":
                return self.call_func(f, args, kwargs, st, node, selft=mk("cls", f.cls.qual), fr=fr)
            return self.call_func(f, args, kwargs, st, node, selft=fv.args[0], fr=fr)
        if op == "closure":
            f, parent = self.closures[fv]
            return self.call_func(f, args, kwargs, st, node, fr=fr, parent=parent, cterm=fv)
        if op == "cls":
            return self.construct(fv, args, kwargs, st, node, fr)
        if op == "ntcls":
            return self.make_nt(fv, args, kwargs, st, node, fr)
        if op == "bi":
            return libs.builtin(self, fv.args[0], args, kwargs, st, node, fr)
        if op == "ext":
            return libs2.external(self, fv.args[0], args, kwargs, st, node, fr)
        if op == "attr" and fv.args[0].op not in ("cls",):
            return self.mcall(fv.args[0], fv.args[1], args, kwargs, st, node, fr)
        if op == "partial":
            return self.apply(fv.args[0], list(fv.args[1]) + args, list(fv.args[2]) + kwargs, st, node, fr)
        ty = self.type_of(fv)
        if ty and not ty.startswith("nt:"):
            f = self.prog.find_method(ty, "__call__")
            if f is not None:
                return self.call_func(f, args, kwargs, st, node, selft=fv, fr=fr)
        return self.opaque_call(fv, args, kwargs, st, node, fr)

    def snaps(self, st, args):
        return tuple(self.snap(st, a) for a in args)

    def opaque_call(self, fv, args, kwargs, st, node, fr, pure=False, raises=()):
        a = self.snaps(st, args)
        k = tuple(sorted((n, self.snap(st, v)) for n, v in kwargs))
        if pure:
            t = mk("call", fv, a, k)
        else:
            n = st.count(("call", fv, a, k))
            t = mk("call", fv, a, k, n)
            self.effect(st, "call", (fv, a, k, t), fr, node)
        ex = [x for x in (raises or ())]
        if not raises:
            ex = self.any_caught()
            if fv.op == "ext":      # a library raises none of the exceptions defined here
                ex = [x for x in ex if x not in self.prog.classes]
        r, s2 = self.fork_raise(st, t, ex) if ex else ([], st)
        return r + ([(s2, t)] if s2 is not None else [])

    def any_caught(self):
        """Exceptions worth forking on for a call to unknown code."""
        out = []
        for hs in self.handlers:
            for h in hs:
                h = "Exception" if h == "BaseException" else h
                if h not in out and h != "Interrupt":      # thrown in at a yield only
                    out.append(h)
        return out

    # ------------------------------------------------------------ constructing
    def construct(self, fv, args, kwargs, st, node, fr):
        q = fv.args[0]
        if self.prog.is_subclass_name(q, "BaseException") or q in self.prog_exc():
            return [(st, mk("excv", q, *self.snaps(st, args)))]
        if q in self.cfg.inline_new:
            key = ("obj", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fr.fid if fr else 0)
            ref = mk("ref", (key, st.count(key)), "obj:" + q)
            self.effect(st, "new", (fv, ref), fr, node)
            init = self.prog.find_method(q, "__init__")
            if init is None:
                return [(st, ref)]
            return [(s, v if isinstance(v, Raised) else ref)
                    for s, v in self.call_func(init, args, kwargs, st, node, selft=ref, fr=fr)]
        init = self.prog.find_method(q, "__init__")
        a, k = list(args), list(kwargs)
        if init is not None:
            b = self.bind_args(init, a, k, st, selft=mk("sym", "self"))
            if b is not None and not init.node.args.vararg and not init.node.args.kwarg:
                names = self.param_names(init)[1:]
                a, k = [b[n] for n in names], []
            elif b is not None and not init.node.args.vararg:
                names = self.param_names(init)[1:]
                kw = self.content(st, b[init.node.args.kwarg.arg])
                a = [b[n] for n in names]
                k = [("**", kw)]
        sa = self.snaps(st, a)
        sk = tuple(sorted((n, self.snap(st, v)) for n, v in k))
        t = mk("new", fv, sa, sk)
        self.effect(st, "new", (fv, sa, sk, t), fr, node)
        ex = [x for x in self.ctor_raises(q) if self.catches(x)]
        r, s2 = self.fork_raise(st, t, ex) if ex else ([], st)
        return r + ([(s2, t)] if s2 is not None else [])

    def ctor_raises(self, q):
        f = self.prog.find_method(q, "__init__")
        return sorted(self.may_raise(f)) if f is not None else ()

    def may_raise(self, f, seen=None):
        """Names of the exception classes raised explicitly below f."""
        c = self.mayraise_cache.get(f.qual)
        if c is not None:
            return c
        seen = seen or set()
        if f.qual in seen:
            return set()
        seen.add(f.qual)
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                try:
                    out.add(self.prog.resolve_dotted(f.module, ast.unparse(x)))
                except Exception:
                    pass
            elif isinstance(n, ast.Call):
                try:
                    d = self.prog.resolve_dotted(f.module, ast.unparse(n.func))
                except Exception:
                    continue
                g = self.prog.funcs.get(d)
                if g is None and d in self.prog.classes:
                    g = self.prog.find_method(d, "__init__")
                if g is not None:
                    out |= self.may_raise(g, seen)
        if unassigned_reads(f.node):
            out.add("UnboundLocalError")
        out = {x for x in out if x in self.prog_exc() or x in self.prog.classes}
        self.mayraise_cache[f.qual] = out
        return out

    def make_nt(self, fv, args, kwargs, st, node, fr):
        name, fields = fv.args
        vals = {}
        for i, a in enumerate(args):
            if a.op == "star":
                return [(st, mk("ntopaque", fv, self.snap(st, a)))]
            if i >= len(fields):
                return [(st, Raised(mk("excv", "TypeError")))]
            vals[fields[i]] = a
        for k, v in kwargs:
            if k == "**":
                c = self.content(st, v)
                if c.op == "dict" and all(kk.op == "s" for kk, _ in c.args):
                    for kk, vv in c.args:
                        vals[kk.args[0]] = vv
                else:
                    d = self.expand_updates(c)
                    if d is not None and set(d) >= set(fields):
                        for f in fields:
                            vals[f] = d[f]
                    else:
                        for f in fields:
                            if f not in vals:
                                vals[f] = mk("item", self.snap(st, c), mk("s", f))
            else:
                vals[k] = v
        if set(vals) != set(fields):
            return [(st, Raised(mk("excv", "TypeError")))]
        return [(st, mk("ntv", name, fields, tuple(vals[f] for f in fields)))]

    def expand_updates(self, c):
        d = {}
        while c.op == "upd":
            if c.args[1].op != "s":
                return None
            d.setdefault(c.args[1].args[0], c.args[2])
            c = c.args[0]
        if c.op == "dict" and all(k.op == "s" for k, _ in c.args):
            for k, v in c.args:
                d.setdefault(k.args[0], v)
        return d

    # ------------------------------------------------------------ calling functions
    def param_names(self, f):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def bind_args(self, f, args, kwargs, st, selft=None):
        """Parameter name -> value, or None when the call does not fit."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        out = {}
        vals = ([selft] if selft is not None and f.kind != "static" else []) + list(args)
        extra = []
        for i, v in enumerate(vals):
            if v.op == "star":
                rest = pos[i:]
                for j, p in enumerate(rest):
                    out[p] = mk("item", self.snap(st, v.args[0]), tm.num(j))
                extra = [v] if a.vararg else []
                break
            if i < len(pos):
                out[pos[i]] = v
            elif a.vararg:
                extra.append(v)
            else:
                return None
        kwrest, opaque = [], None
        for k, v in kwargs:
            if k == "**":
                c = self.content(st, v)
                if c.op == "dict" and all(kk.op == "s" for kk, _ in c.args):
                    items = [(kk.args[0], vv) for kk, vv in c.args]
                else:
                    opaque = v
                    continue
            else:
                items = [(k, v)]
            for kk, vv in items:
                if (kk in pos or kk in kwo) and kk not in out:
                    out[kk] = vv
                elif a.kwarg:
                    kwrest.append((mk("s", kk), vv))
                else:
                    return None
        if a.vararg:
            out[a.vararg.arg] = self.mkseq(st, "tuple", extra)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({n: d for n, d in zip(kwo, a.kw_defaults) if d is not None})
        for p in pos + kwo:
            if p not in out:
                if p in defaults:
                    out[p] = self.default_value(f, p, defaults[p])
                elif opaque is not None:
                    out[p] = mk("item", self.snap(st, opaque), mk("s", p))
                else:
                    return None
        if a.kwarg:
            d = mk("dict", *kwrest)
            if opaque is not None:
                oc = self.content(st, opaque)
                d = self.snap(st, oc) if not kwrest else mk("merged", d, self.snap(st, oc))
            out[a.kwarg.arg] = d
        return out

    def default_value(self, f, name, expr):
        key = ("default", f.qual, name)
        if key not in self.globals_cache:
            v = self.eval_static(expr, f.module, None, name, expr)
            if v is None or v.op in ("list", "dict", "set"):
                v = mk("default", f.qual, name) if v is None or v.args or True else v
            self.globals_cache[key] = v
        return self.globals_cache[key]

    def call_func(self, f, args, kwargs, st, node, selft=None, fr=None, parent=None, cterm=None):
        b = self.bind_args(f, args, kwargs, st, selft)
        if b is None:
            if self.catches("TypeError"):
                return [(st, Raised(mk("excv", "TypeError")))]
            return [(st, Raised(mk("excv", "TypeError", mk("s", f"call of {f.qual} does not fit")), f.loc()))]
        a = f.node.args
        names = self.param_names(f) + [x.arg for x in (a.vararg, a.kwarg) if x]
        fnt = cterm if cterm is not None else mk("fn", f.qual)
        cut = f.qual in self.cfg.cuts or (self.cfg.cut_pred is not None and self.cfg.cut_pred(f)) \
            or f.qual in self.stack or len(self.stack) >= self.cfg.max_depth
        if cut:
            vals = self.snaps(st, [b[n] for n in names])
            if f.qual in self.cfg.impure or f.is_gen:
                n = st.count(("call", fnt, vals))
                t = mk("call", fnt, vals, (), n)
            else:
                t = mk("call", fnt, vals, ())
            raw = tuple(b[n] for n in names)
            self.effect(st, "call", (fnt, vals, (), t, raw), fr or Fr(0, f, f.module, f.cls), node)
            ex = [x for x in sorted(self.may_raise(f)) if self.catches(x)] if not f.is_gen else ()    # a generator fails when it runs
            r, s2 = self.fork_raise(st, t, ex) if ex else ([], st)
            return r + ([(s2, t)] if s2 is not None else [])
        if f.is_gen:
            key = (fnt, tuple(b[n] for n in names), st.count(("gen", fnt, tuple(b[n] for n in names))))
            t = mk("genobj", *key)
            self.gens[t] = (f, b, parent, selft)
            return [(st, t)]
        return self.run_body(f, b, st, node, fr, parent, selft)

    def enter(self, f, b, st, node, fr, parent, selft):
        self.reached.add(f.qual)
        nf = Fr(self.fid(fr, node, f.qual, st), f, f.module, f.cls, parent=parent,
                selft=selft if selft is not None else None)
        loc, glo, non = scope_names(f.node)
        nf.locals, nf.globals_, nf.nonlocals = loc, glo, non
        st.frames[nf.fid] = dict(b)
        return nf

    def run_body(self, f, b, st, node, fr, parent=None, selft=None, sink=None):
        nf = self.enter(f, b, st, node, fr, parent, selft)
        nf.sink = sink
        self.stack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                res = [("return" if not isinstance(v, Raised) else "raise", s, v) for s, v in self.ev(f.node.body, st, nf)]
            else:
                res = self.block(f.node.body, st, nf)
        finally:
            self.stack.pop()
        out = []
        for k, s, v in res:
            if not nf.keep:
                s.frames.pop(nf.fid, None)
            if k == "next":
                out.append((s, NONE))
            elif k in ("return", "raise"):
                out.append((s, v))
            else:
                raise Limit(f"{k} outside loop in {f.qual}")
        return merge_pairs(out)

    def run_gen(self, g, st, fr, node, sink):
        """Run a generator's body with its yields going to sink."""
        f, b, parent, selft = self.gens[g]
        if f.qual in self.stack and self.stack.count(f.qual) > 1:
            raise Limit(f"recursive generator {f.qual}")
        return self.run_body(f, b, st, node, fr, parent, selft, sink=sink)

    def as_content(self, st, v, node, fr):
        """[(state, content)] of an iterable value; generators are collected."""
        c = self.content(st, v)
        if c not in self.gens:
            return [(st, c)]
        acc = self.new_ref(st, node, fr, "acc", mk("list"))

        def sink(s, x):
            s.cont[acc] = self.list_app(s.cont[acc], x)
            return [(s, NONE)]
        out = []
        for s, r in self.run_gen(c, st, fr, node, sink):
            cc = s.cont.pop(acc, mk("list"))
            out.append((s, r if isinstance(r, Raised) else cc))
        return merge_pairs(out)

    def mcall(self, recv, name, args, kwargs, st, node, fr):
        return libs2.mcall(self, recv, name, args, kwargs, st, node, fr)
