"""Module states go busy and come back free or error."""
from .actions import compare_actions, ACTIONS, STATES, keep_fields, bare_events, nothing, PR
from .actions import config
from .c14 import RHS


def run(ck):
    ck.rule("at every event of every module action, and at its end, the status fields of the buffer (state, preparation, processor, "
            "execution, autoattending) are those of the reference, on every path (states compared in value-numbered form)")
    compare_actions(ck, ACTIONS, "status of the module at each event and at the end", keep=keep_fields(*STATES), yields=bare_events, calls=nothing)
    ck.compare("a module is busy before the first event of the action", PR + "update", "ref_actions.update", cfg=lambda: config(ck.prog, extra={PR + m for m in RHS.values()}),
               keep=keep_fields(*STATES), calls=nothing, raise_state=False)
