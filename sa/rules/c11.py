"""Conflict resolution fires the matching rule of highest utility."""
from .procedural import compare_cycle, only_calls, PR
from .actions import part_of_event
from .common import Config


def run(ck):
    ck.rule("procedural_process agrees with the reference on which rule is selected: order of candidates (sorted by current utility), the "
            "comparison with the best so far, noise, the condition test and the early end of the search, by induction over the candidates")
    compare_cycle(ck, "the rule that is selected, reported and fired", state=False, yields=part_of_event("action", "proc"),
                  calls=only_calls("LHStest", "update", "calculate_instantaneous_noise"))
    compare_cycle(ck, "candidates are all rules, by decreasing current utility", keep=lambda k: k[1] == "ordered_rulenames", yields=lambda t: None, calls=lambda e: False)
    ck.compare("a compiled rule becomes a candidate", PR + "compile_rules", "ref_procedural.compile_rules",
               cfg=lambda: Config(cuts={"productions.Productions.compile_rules"}, impure={"productions.Productions.compile_rules"},
                                  attr_types={("productions.ProductionRules", "rules"): "productions.Productions"}))
    ck.compare("every rule is a candidate from the start", PR + "__init__", "ref_procedural.init", keep=lambda k: k[1] == "ordered_rulenames")
