"""Obligations, verdicts and evidence of one property's check."""
import ast
import json
import os
import time

from . import terms as tm
from .state import Limit, Raised
from .core import Config
from .engine import Engine, SELF
from . import compare as cmp
from . import facts as fx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """An obligation cannot be stated on this source (reported as undecided)."""


# other forms two programs are compared in: tests about nothing that varies in a loop decided before it;
# loops that only look for some element as questions about the collection
FORMS = ({"split": True}, {"search": True}, {"split": True, "search": True})


class Check:
    def __init__(self, prog, prop, tier="quick", seed=1):
        self.prog, self.prop, self.tier, self.seed = prog, prop, tier, seed
        self.violations, self.undecided, self.done = [], [], []
        self.reached, self.paths, self.pairs, self.sites = set(), 0, 0, 0
        self.start = time.time()
        self.rules = []

    # ------------------------------------------------------------ recording
    def rule(self, text):
        self.rules.append(text)

    def violation(self, what, where, detail=""):
        v = {"what": what, "where": where, "detail": str(detail)[:3000]}
        if v not in self.violations:
            self.violations.append(v)

    def undecide(self, what, why):
        u = {"what": what, "why": str(why)[:600]}
        if u not in self.undecided:
            self.undecided.append(u)

    def must(self, ok, what, where, detail=""):
        """One obligation: ok is True, False or None (not decided)."""
        self.done.append(what)
        if ok is None:
            self.undecide(what, detail)
        elif not ok:
            self.violation(what, where, detail)
        return ok

    def part(self, what, fn, *a, **k):
        """Run one part of a rule; analysis limits make that part undecided."""
        try:
            return fn(*a, **k)
        except (Limit, Skip, RecursionError) as e:
            self.undecide(what, f"{type(e).__name__}: {e}")
        except Exception as e:
            # the analyser does not understand this source: no verdict
            if os.environ.get("SA_DEBUG"):
                raise
            self.undecide(what, f"analysis stopped: {type(e).__name__}: {e}")
        return None

    # ------------------------------------------------------------ analyses
    def method(self, cls, name):
        f = self.prog.find_method(cls, name) or self.prog.find_prop(cls, name)
        if f is None:
            raise Skip(f"{cls} has no method {name}")
        return f

    def func(self, qual):
        f = self.prog.funcs.get(qual)
        if f is None:
            raise Skip(f"no function {qual}")
        return f

    def run(self, qual, cfg=None, cls=None, **k):
        """Outcomes of one function, with the engine that found them."""
        self.func(qual)
        e = Engine(self.prog, cfg or Config())
        if cls:
            e.cfg.types[SELF] = cls
        outs = e.run(qual, **k)
        self.note(e, outs)
        return e, outs

    def note(self, e, outs=()):
        self.reached |= {q for q in e.reached if not q.startswith("ref_")}
        self.paths += len(outs)
        self.sites += e.call_sites

    def unsaid(self, what, impl, ref):
        """What a call leaves out is what the reference has for it."""
        mine, theirs = cmp.parameters(self.prog.funcs[impl]), cmp.parameters(self.prog.funcs[ref])
        for (name, here), (_, there) in zip(mine, theirs):
            if not isinstance(there, ast.Constant):
                continue
            where = f"{impl} ({self.prog.funcs[impl].loc()})"
            if here is None:
                self.violation(what, where, f"calls have to give {name}, which used to be {there.value!r} when left out")
            elif isinstance(here, ast.Constant) and (type(here.value), here.value) != (type(there.value), there.value):
                if here.value is None:
                    self.undecide(what, f"{impl}: {name} left out is told apart")
                elif here.value != there.value or bool in (type(here.value), type(there.value)):
                    self.violation(what, where, f"{name} is {here.value!r} when left out, must be {there.value!r}")

    def compare(self, what, impl, ref, also=(), **k):
        """The function does what its reference says."""
        self.done.append(what)

        def go():
            self.func(impl)
            self.unsaid(what, impl, ref)
            k.setdefault("catch", ("utilities.ACTRError",))
            fx.Facts.world = k.pop("world", None)
            try:
                return decide()
            finally:
                fx.Facts.world = None

        def decide():
            bad, pairs, ea, eb, sa, sb = cmp.compare(self.prog, impl, ref, **k)
            self.note(ea, sa)
            self.pairs += pairs
            for r in (ref,) + tuple(also) if bad else ():     # another way of doing it that is as good
                for form in FORMS if r is ref else ({},) + FORMS:
                    if other_form(r, form):
                        return sa, sb
            for m in bad:
                if m.sure:
                    self.violation(what, f"{impl} ({m.loc})", m.text())
                else:
                    self.undecide(what, f"{impl}: {m.text()[:500]}")
            if bad and not any(m.sure for m in bad):
                instance()
            return sa, sb

        def other_form(ref, form):
            """Do they agree in this form?"""
            end = self.start + 400
            try:
                self.other = cmp.compare(self.prog, impl, ref, deadline=end, **form, **k)[0]
                return not self.other and time.time() < end
            except (Limit, Skip, RecursionError):
                return False

        def instance():
            """Not decided for collections of any size: is there a difference for some of a given size?"""
            for n in (2, 1):
                try:
                    bad = cmp.compare(self.prog, impl, ref, instance=n, deadline=min(time.time() + 60, self.start + 500), **k)[0]
                except (Limit, Skip, RecursionError):
                    continue
                for m in bad:
                    if m.sure:
                        self.violation(what, f"{impl} ({m.loc})", f"with {n} elements: " + m.text())
                if any(m.sure for m in bad):
                    return
        return self.part(what, go)

    # ------------------------------------------------------------ verdict
    def finish(self, out=print):
        known = load_known(self.prop)
        ev = os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        left = []
        stale = os.path.join(ev, f"{self.prop}.violations.json")
        if os.path.exists(stale):
            os.remove(stale)
        for v in self.violations:
            k = next((k for k in known if k in v["what"] + " " + v["where"] + " " + v["detail"]), None)
            if k:
                out(f"KNOWN-FINDING: property={self.prop} {v['what']} at {v['where']}")
            else:
                left.append(v)
        for u in self.undecided:
            out(f"UNDECIDED property={self.prop} {u['what']}: {u['why'][:300]}")
        if left:
            path = os.path.join(ev, f"{self.prop}.violations.json")
            with open(path, "w", encoding="utf-8") as fh:
                json.dump(left, fh, indent=1)
            for v in left[:10]:
                out(f"  {v['what']}\n    at {v['where']}\n    {v['detail'][:700]}")
            out(f"VIOLATION property={self.prop} replay={path}")
        self.evidence(ev, left)
        n = len(set(self.done))
        out(f"{self.prop}: {n} obligations, {len(left)} violations, {len(self.undecided)} undecided; "
            f"{len(self.reached)} functions, {self.paths} paths, {time.time() - self.start:.1f}s")
        return 1 if left else 0

    def evidence(self, ev, left):
        data = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo/pyactr read at this run: abstract interpretation to guarded value-number "
                               "form and syntax queries; nothing is executed. Each obligation is decided on every path of the functions listed.",
                "rules": self.rules,
                "obligations": len(set(self.done)),
                "obligation_list": sorted(set(self.done))[:400],
                "functions_analysed": sorted(self.reached),
                "paths": self.paths, "outcome_pairs_compared": self.pairs, "call_sites": self.sites,
                "undecided": self.undecided,
            },
            "wall_s": round(time.time() - self.start, 3),
            "assumptions": [
                "Python semantics as modelled in sa/ (no monkey patching of package classes, no exotic operator overloading)",
                "user-supplied objects passed to the package behave like the built-in type the package uses them as",
            ],
            "violations": [v["what"] + " at " + v["where"] for v in left],
        }
        if getattr(self, "sensitivity", None):
            data["coverage"]["sensitivity"] = self.sensitivity
        with open(os.path.join(ev, f"{self.prop}.json"), "w", encoding="utf-8") as fh:
            json.dump(data, fh, indent=1)


def load_known(prop):
    """Substrings that identify the listed findings of a property."""
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                if line.startswith("finding:") and f"property={prop} " in line and " match=" in line:
                    out.append(line.split(" match=", 1)[1].strip())
    return out
