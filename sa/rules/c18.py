"""Utility learning credits every rule used since the last reward."""
from .procedural import compare_cycle, only_calls, PR
from .common import tm, written_only_in, same_constant

P, S = "productions.Production.", "productions.Productions."
COMPARED = {"utilities.modify_utilities", PR + "procedural_process", S + "__init__", S + "__setitem__", P + "__init__", P + "__setitem__", "model.ACTRModel.simulation"}


def run(ck):
    ck.rule("modify_utilities agrees with the reference: for every recorded rule and every time it was selected, the utility moves by alpha * (reward - elapsed - utility), to 4 digits")
    ck.rule("the cycle records the selected rule with its time, learns exactly when learning is on and the fired rule has a reward, and then empties the record")
    ck.rule("a new simulation and a new rule set start with an empty record; nothing else writes utilities or the record")
    ck.compare("utilities are moved towards the reward", "utilities.modify_utilities", "ref_utility.modify_utilities")
    compare_cycle(ck, "what is recorded, when it is learned from and when it is emptied", keep=lambda k: k[1] == "used_rulenames" or "used_rulenames" in tm.show(k[0]),
                  yields=lambda t: None, calls=only_calls("modify_utilities"), value=False)
    for cls, m, r in ((P, "__init__", "rule_init"), (P, "__getitem__", "rule_get"), (P, "__setitem__", "rule_set"), (S, "__init__", "rules_init"),
                      (S, "__getitem__", "rules_get"), (S, "__setitem__", "rules_set"), (S, "__iter__", "rules_iter"), (S, "__len__", "rules_len"),
                      (S, "__contains__", "rules_contains"), (S, "__delitem__", "rules_delete")):
        ck.compare(f"rules keep their utility and reward: {m}", cls + m, "ref_utility." + r, cls=cls[:-1])
    ck.compare("a simulation starts with an empty record", "model.ACTRModel.simulation", "ref_model.simulation", cls="model.ACTRModel",
               keep=lambda k: k[1] == "used_rulenames", value=False, calls=lambda e: False)
    ck.part("who writes the record", written_only_in, ck, "the record of selections is written only where it is checked", COMPARED, attr="used_rulenames")
    ck.part("who writes utilities", written_only_in, ck, "utilities are written only where it is checked", COMPARED | {S + "compile_rules"}, key="utility")
