"""The analyser: all interpreter parts together, and the entry points used by rules."""
from . import terms as tm
from . import facts as fx
from .terms import mk
from .core import Core, Config, Fr
from .exprs import Exprs
from .calls import Calls
from .stmts import Stmts
from .loops import Loops
from .state import State, Raised, Limit, Eff

SELF = mk("sym", "self")


class Outcome:
    """One way a function can end."""

    def __init__(self, state, value):
        self.state, self.value = state, value

    @property
    def raised(self):
        return isinstance(self.value, Raised)

    @property
    def facts(self):
        return self.state.facts

    @property
    def eff(self):
        return self.state.eff

    def __repr__(self):
        return f"<{'raise ' if self.raised else ''}{self.value} {self.facts}>"


class Engine(Exprs, Calls, Stmts, Loops, Core):
    def __init__(self, prog, cfg=None):
        Core.__init__(self, prog, cfg)
        self.fids = {}
        self.mayraise_cache = {}

    def run(self, qual, args=None, selft=None, setup=None, facts=None, kwargs=None, catch=()):
        """Analyse one function; parameters not given are opaque symbols."""
        f = self.prog.funcs[qual]
        a = f.node.args
        st = State()
        if facts is not None:
            st.facts = facts
        b = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and f.kind not in ("static",) and f.parent is None and names:
            b[names[0]] = selft if selft is not None else (mk("cls", f.cls.qual) if f.kind == "class" else SELF)
            if f.kind != "class" and b[names[0]] not in self.cfg.types and b[names[0]].op != "ref":
                self.cfg.types[b[names[0]]] = f.cls.qual
            selft = b[names[0]]
            names = names[1:]
        for x in names + [y.arg for y in a.kwonlyargs]:
            b[x] = mk("sym", x)
        if a.vararg:
            b[a.vararg.arg] = mk("sym", a.vararg.arg)
        if a.kwarg:
            b[a.kwarg.arg] = mk("sym", a.kwarg.arg)
        self.collections = {b[x.arg] for x in (a.vararg, a.kwarg) if x}     # always a tuple, a dictionary
        if args:
            if isinstance(args, dict):
                b.update(args)
            else:
                b.update(dict(zip(names, args)))
        if setup:
            setup(st, b)
        self.handlers, self.stack = ([set(catch)] if catch else []), []
        root = Fr(0, f, f.module, f.cls)
        st.frames[0] = {}
        return [Outcome(s, v) for s, v in self.run_body(f, b, st, f.node, root, None, selft)]


def effects(eff, loops=True, path=()):
    """All effects, flattened: yields (effect, enclosing loop paths)."""
    for e in eff:
        yield e, path
        if e.kind == "loop" and loops:
            for p in e.data.paths:
                if p.kind == "next" or p.kind == "exit":
                    yield from effects(p.effs, True, path + (p,))
