"""A rule acts only if its conditions still hold when it fires."""
from .procedural import compare_cycle, only_calls, PR
from .common import Config


def run(ck):
    ck.rule("procedural_process agrees with the reference after selection: events and their times, the second condition test, actions only if "
            "it succeeds, and the list of processes handed to the scheduler")
    compare_cycle(ck, "selection, re-test, firing or stopping, and what is handed on", keep=lambda k: k[1] in ("procs", "extra_tests"),
                  calls=only_calls("LHStest", "update", "modify_utilities", "compile_rules"))
    ck.compare("LHStest decides on every condition", PR + "LHStest", "ref_actions.LHStest",
               cfg=lambda: Config(cuts={PR + "test", PR + "query"}), state=False)
