"""Model parameters are validated, private to the model, and all effective."""
import ast
from fractions import Fraction

from .common import Config, mk, tm, SELF, effects, walk_funcs, own_nodes, where, same_constant, parts_of, Skip
from .purity import root, changes

M = "model.ACTRModel"
PR = "productions.ProductionRules"
HERE = "model_parameters"
DEFAULTS = {"subsymbolic": False, "rule_firing": 0.05, "latency_factor": 0.1, "latency_exponent": 1.0, "decay": 0.5, "baselevel_learning": True,
            "optimized_learning": False, "instantaneous_noise": 0, "retrieval_threshold": 0, "buffer_spreading_activation": {},
            "spreading_activation_restricted": False, "strength_of_association": 0, "association_only_from_chunks": True, "partial_matching": False,
            "mismatch_penalty": 1, "activation_trace": False, "utility_noise": 0, "utility_learning": False, "utility_alpha": 0.2,
            "motor_prepared": False, "strict_harvesting": False, "production_compilation": False, "automatic_visual_search": True, "emma": True,
            "emma_noise": True, "emma_landing_site_noise": False, "eye_mvt_angle_parameter": 1, "eye_mvt_scaling_parameter": 0.01}

# (function called, position of the argument, parameter handed over there)
FLOWS = {
    ("chunks.Chunk.match", 3): "mismatch_penalty",
    ("utilities.baselevel_learning", 2): "baselevel_learning", ("utilities.baselevel_learning", 3): "decay", ("utilities.baselevel_learning", 5): "optimized_learning",
    ("utilities.retrieval_latency", 1): "latency_factor", ("utilities.retrieval_latency", 2): "latency_exponent",
    ("utilities.retrieval_success", 1): "retrieval_threshold",
    ("utilities.spreading_activation", 3): "buffer_spreading_activation", ("utilities.spreading_activation", 4): "strength_of_association",
    ("utilities.spreading_activation", 5): "spreading_activation_restricted", ("utilities.spreading_activation", 6): "association_only_from_chunks",
    ("utilities.calculate_delay_visual_attention", 1): "eye_mvt_scaling_parameter", ("utilities.calculate_delay_visual_attention", 2): "eye_mvt_angle_parameter",
    ("utilities.calculate_delay_visual_attention", 3): "emma_noise", ("utilities.calculate_execution_time", 1): "emma_noise",
    ("utilities.calculate_landing_site", 2): "emma_landing_site_noise", ("utilities.calculate_preparation_time", 0): "emma_noise",
}
NOISE = {"declarative": "instantaneous_noise", "productions": "utility_noise"}      # handed to calculate_instantaneous_noise in these modules

# parameter -> module in which it has its effect
EFFECT = {"subsymbolic": ("declarative", "productions"), "rule_firing": ("declarative", "productions"), "latency_factor": ("declarative",), "latency_exponent": ("declarative",),
          "decay": ("declarative",), "baselevel_learning": ("declarative",), "optimized_learning": ("declarative",), "instantaneous_noise": ("declarative",),
          "retrieval_threshold": ("declarative",), "buffer_spreading_activation": ("declarative",), "spreading_activation_restricted": ("declarative",),
          "strength_of_association": ("declarative",), "association_only_from_chunks": ("declarative",), "partial_matching": ("declarative",),
          "mismatch_penalty": ("declarative",), "activation_trace": ("declarative",), "utility_noise": ("productions",), "utility_learning": ("productions",),
          "utility_alpha": ("productions", "utilities"), "motor_prepared": ("productions",), "strict_harvesting": ("productions",), "production_compilation": ("productions",),
          "automatic_visual_search": ("productions",), "emma": ("vision",), "emma_noise": ("vision",), "emma_landing_site_noise": ("vision",),
          "eye_mvt_angle_parameter": ("vision",), "eye_mvt_scaling_parameter": ("vision",)}


def aliases(f):
    """Local names that hold the parameters (or a copy of them)."""
    names, grew = {HERE}, True

    def holds(e):
        if isinstance(e, ast.Name):
            return e.id in names
        if isinstance(e, ast.Attribute):
            return e.attr == HERE
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "deepcopy"):
            return holds(e.func.value) or any(holds(a) for a in e.args)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict":
            return any(holds(a) for a in e.args)
        if isinstance(e, ast.Dict):
            return any(k is None and holds(v) for k, v in zip(e.keys, e.values))
        if isinstance(e, ast.BinOp):
            return holds(e.left) or holds(e.right)
        if isinstance(e, ast.IfExp):
            return holds(e.body) or holds(e.orelse)
        return False
    while grew:
        grew = False
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and holds(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id not in names:
                        names.add(t.id)
                        grew = True
    return holds


def reads(f):
    """(key or None, node) of every reading of a parameter."""
    known = aliases(f)

    def about(e, k):                          # a documented name is a parameter whatever the dictionary is called
        return known(e) or isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value in DEFAULTS
    for n in own_nodes(f):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and about(n.value, n.slice):
            yield (n.slice.value if isinstance(n.slice, ast.Constant) else None), n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault", "__getitem__") and n.args and about(n.func.value, n.args[0]):
            yield (n.args[0].value if isinstance(n.args[0], ast.Constant) else None), n


def inside(t, seen, out):
    """Keys under which something is looked up in a term, and calls in it."""
    if isinstance(t, (tuple, list, frozenset)):
        for x in t:
            inside(x, seen, out)
        return
    if isinstance(t, dict):
        for x in list(t) + list(t.values()):
            inside(x, seen, out)
        return
    if not isinstance(t, tm.T) or t in seen:
        return
    seen.add(t)
    k = looked_up(t)
    if k is not None:
        out[0].add(k)
    if t.op == "call" and t.args[0].op == "fn":
        out[1].add(t)
    for a in t.args:
        inside(a, seen, out)


def looked_up(t):
    """The parameter a term is, if it is one."""
    if t.op in ("item", "get", "getitem") and len(t.args) > 1 and isinstance(t.args[1], tm.T) and t.args[1].op == "s" and t.args[1].args[0] in DEFAULTS:
        return t.args[1].args[0]


def terms_of(o, e):
    yield from o.state.attrs.values()
    yield from o.state.cont.values()
    v = getattr(o, "value", None)
    if v is not None:
        yield v

    def facts(fa):
        yield from fa.lits
        yield fa.clauses
    yield from facts(o.facts)

    def effs(es):
        for x in es:
            if x.kind == "loop":
                for p in x.data.paths:
                    yield from effs(p.effs)
                    yield from facts(p.facts)
                    for u in ("updates", "env", "attrs", "result", "value"):
                        yield getattr(p, u, ())
                yield getattr(x.data, "result", ())
            else:
                yield x.data
            if x.facts is not None:
                yield from facts(x.facts)
    yield from effs(o.eff)


def analysed(ck):
    """function -> (parameters its behaviour depends on, what it hands to other functions)."""
    out = {}
    for q, f in walk_funcs(ck.prog):
        if f.module.name.endswith("model") or not any(True for _ in reads(f)):
            continue
        e, outs = ck.run(q, cfg=Config(cut_pred=lambda g, q=q: g.qual != q and not g.qual.startswith(q + ".")))
        seen, got = set(), (set(), set())
        for o in outs:
            for t in terms_of(o, e):
                inside(t, seen, got)
        out[q] = got
    return out


def effective(ck, table):
    what = "every parameter is read where it has its effect, and what is read decides something there"
    by = {}
    for q, (keys, _) in table.items():
        mod = ck.prog.funcs[q].module.name.split(".")[-1]
        for k in keys:
            by.setdefault(k, set()).add(mod)
    read = {}
    for q, f in walk_funcs(ck.prog):
        for k, n in reads(f):
            read.setdefault(k, []).append((f, n))
    for p, mods in EFFECT.items():
        sites = [f for f, n in read.get(p, ()) if not f.module.name.endswith("model")]
        if not sites:
            dynamic = read.get(None)
            ck.must(None if dynamic else False, what, M, f"the parameter {p} is never read")
            continue
        live = by.get(p, set())
        for m in mods:
            there = [f for f in sites if f.module.name.split(".")[-1] == m]
            ck.must(m in live or (None if live - set(mods) else False), what, where((there or sites)[0]), f"{p} decides nothing in {m}")
    what = "no parameter is read that is not documented"
    for k, sites in read.items():
        for f, n in sites:
            if k is None and not any(isinstance(x, (ast.For, ast.comprehension)) for x in own_nodes(f)):
                ck.must(None, what, where(f, n), "read under a computed name")
            else:
                ck.must(k is None or k in DEFAULTS, what, where(f, n), f"{k!r} is read")


def handed(ck, table):
    what = "every parameter is handed to the computation it belongs to"
    for q, (_, calls) in table.items():
        f = ck.prog.funcs[q]
        for t in calls:
            callee = t.args[0].args[0]
            for i, a in enumerate(t.args[1]):
                if not isinstance(a, tm.T):
                    continue
                want = FLOWS.get((callee, i))
                if callee == "utilities.calculate_instantaneous_noise":
                    want = NOISE.get(f.module.name.split(".")[-1])
                if want is None:
                    continue
                got = looked_up(a)
                if got is not None:
                    ck.must(got == want, what, where(f), f"{callee} is given {got} for {want}")
                elif a.op in ("c", "num", "s"):
                    ck.must(False, what, where(f), f"{callee} is given {tm.show(a)} for {want}")
    for (callee, i), want in FLOWS.items():
        if callee in ck.prog.funcs and not any(t.args[0].args[0] == callee for _, calls in table.values() for t in calls):
            ck.must(True, what, callee, "")


def unchanged(ck):
    """Nothing writes into the parameters of a model, nor into their defaults."""
    what = "parameters are changed nowhere but where the model is made"
    ck.done.append(what)
    for q, f in walk_funcs(ck.prog):
        names = {n.attr for n in own_nodes(f) if isinstance(n, ast.Attribute)} | {n.id for n in own_nodes(f) if isinstance(n, ast.Name)} | {a.arg for a in f.node.args.args}
        if HERE not in names and "MODEL_PARAMETERS" not in names:
            continue
        for n in own_nodes(f):      # bound anew
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr in (HERE, "MODEL_PARAMETERS"):
                    ck.must(f.name == "__init__" and t.attr == HERE, what, where(f, n), ast.unparse(n)[:100])
        e, outs = ck.run(q, cfg=Config(cut_pred=lambda g, q=q: g.qual != q and not g.qual.startswith(q + ".")))
        chg, _ = changes(e, outs)
        for obj, field, facts, text, loc in chg:
            names = []
            if field is not None:
                names.append(field)
            if obj.op == "sym":
                names.append(obj.args[0])
            if " = " in text and field == HERE and "." + HERE + " = " in text:
                continue        # bound anew: above
            bad = HERE in names or "MODEL_PARAMETERS" in names or obj.op in ("clsattr", "gvar") and "MODEL_PARAMETERS" in tm.show(obj)
            if bad and f.qual == M + ".__init__" and "MODEL_PARAMETERS" not in text:
                continue
            ck.must(not bad, what, f"{q} ({loc})", text[:200])


def own(ck):
    """The parameters of a model are an object of its own, down to the values in it."""
    what = "a model's parameters are shared with no other model"
    q = M + ".__init__"
    e, outs = ck.run(q, cls=M, cfg=Config(cut_pred=lambda g: True))
    n = 0
    for o in outs:
        v = o.state.attrs.get((SELF, HERE))
        if v is not None:
            n += 1
            ck.must(v.op == "ref" if v.op in ("ref", "dict", "sym", "attr", "clsattr", "gvar") else None, what, q, f"they are {tm.show(v)[:100]} itself")
    ck.must(n > 0 or None, what, q, "no parameters are set")
    for p in sorted(parts_of(ck.prog, {q})):
        f = ck.prog.funcs[p]
        for x in own_nodes(f):
            src = shallow(x, f.module)
            if src is not None and any(isinstance(y, (ast.Name, ast.Attribute)) and (y.attr if isinstance(y, ast.Attribute) else y.id) == "MODEL_PARAMETERS" for y in ast.walk(src)):
                ck.must(False, what, where(f, x), f"{ast.unparse(x)[:100]} copies the table only, and the default of buffer_spreading_activation is shared")


def shallow(n, module):
    """What an expression makes a shallow copy of."""
    def table(e):
        return e if isinstance(e, (ast.Name, ast.Attribute)) else None
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and n.args:
            return table(n.args[0])
        name = n.func.attr if isinstance(n.func, ast.Attribute) else module.imports.get(n.func.id, "").split(".")[-1] if isinstance(n.func, ast.Name) else ""
        if name == "copy":
            return table(n.args[0]) if n.args else table(n.func.value)
        if name == "update" and n.args and isinstance(n.func, ast.Attribute):
            return table(n.args[0])
    if isinstance(n, ast.Dict):
        for k, v in zip(n.keys, n.values):
            if k is None and table(v) is not None:
                return v
    return None


def documented(ck):
    """The defaults written in the class description are the ones used."""
    what = "the documented defaults are the defaults"
    c = ck.prog.classes.get(M)
    doc = ast.get_docstring(c.node) if c is not None else None
    if not doc or "{" not in doc:
        raise Skip("the model class has no description of its parameters")
    text, depth = doc[doc.index("{"):], 0
    for i, x in enumerate(text):
        depth += (x == "{") - (x == "}")
        if depth == 0:
            text = text[:i + 1]
            break
    try:
        said = ast.literal_eval(text)
    except (ValueError, SyntaxError):
        raise Skip("the description of the parameters cannot be read")
    ck.must(said == DEFAULTS or None, what, M, f"documented otherwise: {sorted(k for k in set(said) | set(DEFAULTS) if said.get(k) != DEFAULTS.get(k))}")


def given_on(ck):
    """The rules of a simulation use the very parameters of the model."""
    what = "a simulation runs with the parameters of its model"
    e, outs = ck.run(M + ".simulation", cls=M, cfg=Config(cut_pred=lambda g: g.qual != M + ".simulation"))
    mine, n = mk("attr", SELF, HERE), 0
    for o in outs:
        for x, _ in effects(o.state.eff):
            if x.kind == "new" and x.data[0].op == "cls" and x.data[0].args[0] == PR:
                given = dict(zip(("rules", "buffers", "dm", HERE), x.data[1]))
                given.update(dict(x.data[2]) if len(x.data) > 3 else {})
                n += 1
                got = given.get(HERE)
                ok = got is not None and (got is mine or got.op in ("copyof", "dcopy", "copy") and got.args[0] is mine)
                ck.must(ok if got is None or got is mine or got.op in ("dict", "c", "attr") else (True if ok else None), what, f"{M}.simulation ({x.loc})",
                        f"the rules are given {tm.show(got) if got is not None else 'nothing'}")
    ck.must(n > 0 or None, what, M + ".simulation", "no rules are made")
    ck.compare("the rules keep the parameters they are given", PR + ".__init__", "ref_procedural.init", cls=PR, keep=lambda k: k[1] == HERE, calls=lambda e: False)


def run(ck):
    ck.rule("making a model agrees with the reference: unknown parameters are refused, given ones replace the defaults in a deep copy of these")
    ck.rule("constants: the table of defaults; nothing changes it or a model's parameters afterwards (effect analysis of every function that mentions them)")
    ck.rule("def-use: every documented parameter is looked up in the module it belongs to and some outcome there depends on it; none other is looked up")
    ck.rule("what is handed over for a parameter to another function is that parameter (argument positions of all calls found on all paths)")
    ck.compare("making a model", M + ".__init__", "ref_model.init", cls=M, keep=lambda k: k[1] == HERE, calls=lambda e: False)
    same_constant(ck, "the defaults of the parameters", M, "MODEL_PARAMETERS",
                  {k: Fraction(str(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else v for k, v in DEFAULTS.items()})
    ck.part("documentation", documented, ck)
    ck.part("simulation", given_on, ck)
    ck.part("parameters of its own", own, ck)
    table = {}
    ck.part("reading functions", lambda: table.update(analysed(ck)))
    ck.part("effects of parameters", effective, ck, table)
    ck.part("parameters handed over", handed, ck, table)
    ck.part("changes of parameters", unchanged, ck)
