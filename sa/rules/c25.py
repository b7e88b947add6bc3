"""Attention shifts encode the stimulus at the target with EMMA timing."""
from .actions import compare_actions, part_of_event
from .common import Config, mk

EMMA = ("calculate_visual_angle", "calculate_delay_visual_attention", "calculate_preparation_time", "calculate_execution_time", "calculate_landing_site",
        "calculate_distance", "calculate_pythagorean_distance", "calculate_onedimensional_distance")


def cfg():
    cuts = {"utilities." + n for n in EMMA} | {"utilities.check_bound_vars", "chunks.Chunk.removeunused", "vision.chunk_from_stimulus"}
    return Config(cuts=cuts, impure={"utilities." + n for n in EMMA if n.startswith("calculate_") and "noise" in n},
                  optional=lambda t: t is PARAMETERS)


PARAMETERS = mk("sym", "model_parameters")        # what is given is a model's full table


def mappings(a):
    """Scenario: stimuli are mappings, as environments make sure."""
    if a.op == "atom" and a.args[:2] == ("raises", "AttributeError") and a.args[2].op == "mcall" and a.args[2].args[1] in ("copy", "get", "update", "items", "keys") \
            and a.args[2].args[0].op == "item" and a.args[2].args[0].args[0].op == "attr" and a.args[2].args[0].args[0].args[1] == "stimulus":
        return False
    if a.op == "hasattr" and a.args[1] in ("environment", "stimulus") and a.args[0].op in ("sym", "attr"):
        return True
    return None


def run(ck):
    ck.rule("Visual.shift, move_eye and automatic_buffering agree with the reference on the stimulus chosen, the chunk, the three times, the landing site, "
            "what is refused and what is written, on every path")
    ck.rule("each EMMA function equals its equation (value numbering over real arithmetic)")
    ck.rule("visualshift, visualcontinue and visualencode agree with the reference on every event with its time, every buffer operation in order, and the focus")
    V = "vision.Visual."
    ck.compare("attention no longer drawn automatically", "vision.Visual.stop_automatic_buffering", "ref_assembly.stop_attending", cls="vision.Visual")
    ck.compare("which stimulus is encoded, how long it takes and where the eyes land", V + "shift", "ref_vision.shift", cfg=cfg, world=mappings)
    ck.compare("the eyes move to the landing site", V + "move_eye", "ref_vision.move_eye", cfg=cfg)
    ck.compare("automatic buffering encodes the given stimulus", V + "automatic_buffering", "ref_vision.automatic_buffering", cfg=cfg)
    for n in EMMA:
        ck.compare(f"equation of {n}", "utilities." + n, "ref_vision." + n)
    compare_actions(ck, ("visualshift", "visualcontinue", "visualencode", "set_visual"), "events, times, focus, buffer operations and continuation",
                    keep=lambda k: k[1] in ("current_focus", "last_mvt", "attend_automatic"), yields=part_of_event("time", "action"))
