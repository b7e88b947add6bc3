"""Every rule symbol is carried out, in the ACT-R order."""
from .procedural import compare_cycle
from .actions import compare_actions, ACTIONS, config, nothing, no_events, PR
from .common import constant, same_constant, NotConstant, Skip

CLS = "productions.ProductionRules"
RHS = {"?": "extra_test", "=": "modify", "+": "retrieveorset", "!": "execute", "~": "clear", "@": "overwrite", "*": "modify_request"}
LHS = {"=": "test", "?": "query"}


def run(ck):
    ck.rule("symbol tables (condition symbols, action symbols, interruptible operations) are the documented ones and are what update and "
            "LHStest dispatch on; the order of actions and the refusal of other symbols agree with the reference on every path")
    ck.rule("each operation makes, in order, the buffer operations of its reference and no others (module work symbolic, events set aside)")
    same_constant(ck, "action symbols", CLS, "_RHSCONVENTIONS", RHS)
    same_constant(ck, "condition symbols", CLS, "_LHSCONVENTIONS", LHS)
    same_constant(ck, "operations that run as interruptible processes", CLS, "_INTERRUPTIBLE", frozenset({"retrieveorset", "modify_request"}))
    for owner, name, want in (("utilities", "_RHSCONVENTIONS", RHS), ("utilities", "_LHSCONVENTIONS", LHS),
                              ("utilities", "_RHSCONVENTIONS_REVERSED", {v: k for k, v in RHS.items()}),
                              ("utilities", "_LHSCONVENTIONS_REVERSED", {v: k for k, v in LHS.items()})):
        same_constant(ck, f"table {name}", owner, name, want)
    for m in list(RHS.values()) + list(LHS.values()):
        ck.must(ck.prog.find_method(CLS, m) is not None, f"operation {m} exists", CLS, "no such method")
    actions = {PR + m for m in RHS.values()}
    ck.compare("update: which operation is run for which symbol, on which buffer, and in which order", PR + "update", "ref_actions.update",
               cfg=lambda: config(ck.prog, extra=actions), keep=lambda k: k[1] == "procs", raise_state=False)
    tests = {PR + m for m in LHS.values()}
    ck.compare("LHStest: which operation is run for which symbol", PR + "LHStest", "ref_actions.LHStest",
               cfg=lambda: config(ck.prog, extra=tests), state=False)
    for n in ("test", "query"):
        ck.compare(f"{n}: the buffer operations it consists of", PR + n, "ref_actions." + n, cfg=lambda: config(ck.prog), state=False)
    names = [n for n in ACTIONS if n not in ("motorcontinue", "visualcontinue", "automatic_search", "automatic_buffering")]
    compare_actions(ck, names, "the operations it consists of, in order", state=False, yields=no_events, value=False)
    compare_cycle(ck, "extra tests of rules fired before are dropped", keep=lambda k: k[1] == "extra_tests", calls=nothing)
