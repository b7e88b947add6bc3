"""The procedural cycle against its reference, facet by facet."""
from .common import Config, mk, tm

PR = "productions.ProductionRules."
CUT = {PR + "LHStest", PR + "update", PR + "compile_rules", "utilities.modify_utilities", "utilities.calculate_instantaneous_noise"}


def a_rule(t):
    """Names of rules are not empty."""
    if t.op not in ("elem", "item"):
        return False
    t = t.args[0]
    while t.op in ("sorted", "seq", "comp", "reversed", "setof", "slice"):
        t = t.args[1] if t.op == "seq" else t.args[0]
    if t.op in ("tuple", "list"):
        return all(a_rule(x) for x in t.args)
    return t.op == "attr" and t.args[1] == "ordered_rulenames"


def last_rule(t):
    return t.op == "attr" and t.args[1] == "last_rule"


def compare_cycle(ck, what, **facet):
    facet.setdefault("keep", lambda k: k[1] != "used_rulename")
    ck.compare(what, PR + "procedural_process", "ref_procedural.procedural_process", cfg=lambda: Config(cuts=CUT, impure=CUT, solid=a_rule, optional=last_rule), **facet)


def only_calls(*names):
    return lambda e: e.data[0].op == "fn" and e.data[0].args[0].split(".")[-1] in names
