"""Rules are compiled only when enabled and only when it is safe."""
from .actions import compare_actions, ACTIONS, config, nothing, no_events
from .procedural import compare_cycle, only_calls, PR
from .common import Config, mk, tm, written_only_in

S = "productions.Productions."
PARTS = {S + n for n in ("__check_valid_compilation__", "__rename__", "__substitute__", "__collapse__")} | {"utilities.match", "utilities.make_chunkparts_with_new_vars"}
BOOKS = ("compile", "last_rule", "last_rule_slotvals", "current_slotvals")


def books(k):
    return k[1] in BOOKS or k[1] is None and any(b in tm.show(k[0]) for b in BOOKS)


def run(ck):
    ck.rule("compile_rules of the procedural module compiles only with production_compilation on and a recorded pair; the cycle records the pair of the last two different rules, with the slots "
            "the first one left, compiles it once when the next rule fires and forgets it")
    ck.rule("the safety test refuses exactly the unsafe pairs of the reference (every pair of an action of the first rule with a condition or an action of the second)")
    ck.rule("Productions.compile_rules gives up on unsafe pairs, on a retrieval still in its buffer and on one the second rule does not test; an equal compiled rule is found again, otherwise a new name is taken")
    types = {("productions.ProductionRules", "rules"): "productions.Productions"}
    ck.compare("compilation is tried only when enabled and when two rules fired in a row", PR + "compile_rules", "ref_procedural.compile_rules",
               cfg=lambda: Config(cuts={S + "compile_rules"}, impure={S + "compile_rules"}, attr_types=types))
    compare_cycle(ck, "the pair of rules that is recorded for compilation", keep=books, yields=lambda t: t if "compile_rules" in tm.show(t) else None, value=False, calls=only_calls("compile_rules"))
    ck.compare("which pairs are refused as unsafe", S + "__check_valid_compilation__", "ref_compilation.unsafe", cls=S[:-1])
    ck.compare("when a new rule is stored, and under which name", S + "compile_rules", "ref_compilation.compile_rules", cls=S[:-1],
               cfg=lambda: Config(cuts=PARTS, impure={"utilities.match"}))
    ck.compare("no pair is recorded before rules fired", PR + "__init__", "ref_procedural.init", keep=books)
    names = [n for n in ACTIONS if n in ("modify", "modify_request", "overwrite", "set_goal", "set_location", "set_visual", "set_manual", "retrieve", "clear", "extra_test", "execute")]
    compare_actions(ck, names, "slots recorded for compilation", keep=books, yields=lambda t: None, calls=nothing, value=False, raise_state=False)
    ck.part("who records", written_only_in, ck, "the pair to compile is written only where it is checked", {PR + "procedural_process", PR + "__init__"}, attr="compile")
