"""The right-hand side of a rule uses bound variables only, and negation only in searches."""
import ast

from . import c24, c25
from .actions import compare_actions
from .common import Config, mk, tm, walk_funcs, own_nodes, parts_of, where
from .memory import RETRIEVE, cfg, scenario, component
from .procedural import PR, compare_cycle, only_calls

RESOLVE = "utilities.check_bound_vars"
COMPARED = {RETRIEVE, "vision.VisualLocation.find", "buffers.Buffer.modify", "goals.Goal.create", "motor.Motor.create", "vision.Visual.shift", PR + "retrieveorset"}
OPERATIONS = ("modify", "create", "find", "retrieve", "shift", "visualshift", "motorset", "retrieveorset", "overwrite", "modify_request")


def run(ck):
    ck.rule("check_bound_vars agrees with the reference for searches and for anything else, on every path: variables replaced by their bindings, unbound ones, "
            "two values and (outside searches) negations refused")
    ck.rule("every operation that takes a request resolves each of its used slots with the bindings it is given: agreement with its reference, in which "
            "only the two searches allow negations; no other function resolves values")
    ck.rule("the actions hand the operations the request and the bindings of the rule that fired: agreement of their calls with the references")
    parts = {mk("sym", "elem"): "nt:utilities.VarvalClass"}
    for name, neg in (("a search", tm.FALSE), ("anything else", tm.TRUE)):
        ck.compare(f"the value a rule gives to {name}", RESOLVE, "ref_bound.check_bound_vars", cfg=lambda: Config(types=parts), args={"negative_impossible": neg})
    cuts = {RESOLVE, "chunks.Chunk.removeunused"}
    kept = dict(keep=lambda k: k[1] == "_data", raise_state=True)
    ck.compare("modification of a buffer", "buffers.Buffer.modify", "ref_buffers.modify", cfg=lambda: Config(cuts=set(cuts)), **kept)
    ck.compare("creation of a goal", "goals.Goal.create", "ref_buffers.goal_create", cfg=lambda: Config(cuts=set(cuts)), **kept)
    ck.compare("a motor command", "motor.Motor.create", "ref_motor.create", also=("ref_motor.create_checked_as_asked",), cfg=lambda: Config(cuts=cuts | {"chunks.Chunk.__init__"}))
    ck.compare("a retrieval", RETRIEVE, "ref_memory.retrieve", cfg=cfg, world=scenario(False, recent="absent"), result=component(0), state=False)
    ck.compare("a shift of attention", "vision.Visual.shift", "ref_vision.shift", cfg=c25.cfg, world=c25.mappings, state=False)
    for x in ("absent", "number", "text"):
        ck.compare(f"a visual search with {x} x position", "vision.VisualLocation.find", "ref_vision.find", cfg=lambda: Config(cuts=set(c24.CUT)),
                   world=c24.request(x, "absent"), state=False)
    compare_actions(ck, ("modify", "modify_request", "overwrite", "set_goal", "set_location", "set_visual", "set_manual", "set_retrieval", "retrieve", "visualshift",
                         "motorset"), "the request and the bindings handed on", calls=only_calls(*OPERATIONS), yields=lambda t: None, state=False)
    ck.compare("update: the request and the bindings handed on", PR + "update", "ref_actions.update", calls=only_calls(*OPERATIONS), state=False,
               cfg=lambda: Config(cuts={PR + "clear", PR + "execute"} | {PR + x for x in OPERATIONS}))
    compare_cycle(ck, "the bindings of the rule that fires reach its actions", state=False, yields=lambda t: None, value=False, calls=only_calls("LHStest", "update"))
    ck.part("who resolves values", callers, ck)


def callers(ck):
    """Nobody but the operations above asks for negations to be allowed."""
    what = "no other function allows negated values"
    ck.done.append(what)
    inside = parts_of(ck.prog, COMPARED)
    for q, f in walk_funcs(ck.prog):
        if q in inside:
            continue
        for n in own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
            if name != "check_bound_vars":
                continue
            given = list(n.args[2:]) + [k.value for k in n.keywords if k.arg in ("negative_impossible", None)]
            for v in given:
                ck.must(None if not isinstance(v, ast.Constant) else bool(v.value), what, where(f, n), ast.unparse(n))
