"""A visual-location search finds only a stimulus meeting all criteria."""
import itertools

from .actions import compare_actions, bare_events
from .common import Config, same_constant, tm

V = "vision.VisualLocation."
DIST = {"utilities.calculate_pythagorean_distance", "utilities.calculate_onedimensional_distance"}
CUT = DIST | {"utilities.check_bound_vars", "chunks.Chunk.removeunused", "vision.chunk_from_stimulus", "chunks.Chunk.__le__", "chunks.Chunk.__eq__", "chunks.Chunk.__ne__"}
WORDS = ("lowest", "highest", "closest", "onewayclosest")
KINDS = ("absent", "empty", "number", "<", ">") + WORDS + ("text",)


def slot_of(t):
    """'screen_x' or 'screen_y' if t is the requested value of that slot."""
    if t.op == "attr" and t.args[1] == "values" and t.args[0].op == "attr" and t.args[0].args[1] in ("screen_x", "screen_y"):
        return t.args[0].args[1]
    return None


ATTENDED = ("absent", "false", "'False'", "other", "no tests")


def request(x, y, attended="absent", bound=True):
    """Scenario: what kind of value the request has in its position slots, and which attended test there is."""
    kind = {"screen_x": x, "screen_y": y}

    def is_attended(t):
        return t.op == "item" and t.args[1].op == "s" and t.args[1].args[0] == "attended" or t.op == "get" and "attended" in tm.show(t)

    def world(a):
        if a.op == "hasattr":
            if a.args[1] == "values" and a.args[0].op == "attr" and a.args[0].args[1] in kind:
                return kind[a.args[0].args[1]] != "absent"
            if a.args[1] in kind:
                return True
        elif a.op == "truth":
            s = slot_of(a.args[0])
            if s:
                return kind[s] != "empty"
            if is_attended(a.args[0]):
                return attended == "'False'" or (None if attended == "other" else False)
        elif a.op == "in" and a.args[0].op == "s" and a.args[0].args[0] == "attended" and a.args[1].op != "dict":
            return attended != "absent"
        elif a.op == "eq":
            for u, v in (a.args, a.args[::-1]):
                if is_attended(u):
                    if v is tm.FALSE:
                        return attended == "false"
                    if v.op == "s" and v.args[0] == "False":
                        return attended == "'False'"
                if u.op == "sym" and v is tm.NONE:
                    if u.args[0] == "extra_tests":
                        return attended == "no tests"
                    if u.args[0] == "actrvariables":
                        return not bound
                s = slot_of(u)
                if s and v.op == "s":
                    return kind[s] == v.args[0] if v.args[0] in WORDS else None
                if s and tm.is_const(v) and v.op == "c" and v.args[0] == "None":
                    return kind[s] == "empty"
                if u.op == "item" and u.args[1].op == "num" and u.args[1].args[0] == 0 and v.op == "s" and slot_of(u.args[0]):
                    return kind[slot_of(u.args[0])][0] == v.args[0] if v.args[0] in "<>" else None
        elif a.op == "atom" and a.args[0] == "raises":
            t = a.args[2]
            if t.op in ("int", "float") and t.args and slot_of(t.args[0]):
                k = kind[slot_of(t.args[0])]
                return {"number": False, "empty": a.args[1] == "TypeError"}.get(k, a.args[1] == "ValueError")
            if t.op in ("item", "slice") and slot_of(t.args[0]):
                return kind[slot_of(t.args[0])] == "empty" and a.args[1] == "TypeError"
        return None
    return world


def comparable(a):
    """Scenario: distances are numbers."""
    return False if a.op == "atom" and a.args[:2] == ("raises", "TypeError") and a.args[2].op == "cmp" else None


def run(ck):
    ck.rule("VisualLocation.find agrees with the reference for every kind of position request (absent, empty, exact, smaller, greater, lowest, highest, "
            "closest, one-way closest, other text) in each slot: result, attended stimulus and refusals, for any number of stimuli, by induction over the search loop")
    ck.rule("the automatic search, the record of attended stimuli (its order and bound) and what the request action does with the result agree with their references")

    def cfg():
        return Config(cuts=set(CUT))
    if ck.tier == "quick":
        pairs = [(k, "absent") for k in KINDS] + [("absent", k) for k in KINDS[1:]] + [(k, k) for k in WORDS] + [("number", "number"), ("<", ">"), (">", "number")]
    else:
        pairs = list(itertools.product(KINDS, KINDS))
    for a in ATTENDED[1:]:
        ck.compare(f"search with attended test: {a}", V + "find", "ref_vision.find", cfg=cfg, world=request("absent", "absent", a))
    ck.compare("search without bindings", V + "find", "ref_vision.find", cfg=cfg, world=request("absent", "absent", "absent", False))
    for x, y in pairs:
        ck.compare(f"search with {x} x and {y} y position", V + "find", "ref_vision.find", cfg=cfg, world=request(x, y))
    ck.compare("automatic search finds the closest stimulus not recently attended", V + "automatic_search", "ref_vision.location_search", cfg=cfg, world=comparable)
    for n, w in (("VISIONSMALLER", "<"), ("VISIONGREATER", ">"), ("VISIONLOWEST", "lowest"), ("VISIONHIGHEST", "highest"), ("VISIONCLOSEST", "closest"),
                 ("VISIONONEWAYCLOSEST", "onewayclosest"), ("VISUALLOCATION", "_visuallocation")):
        same_constant(ck, f"meaning of {n}", "utilities", n, w)
    for n in ("calculate_pythagorean_distance", "calculate_onedimensional_distance"):
        ck.compare(f"equation of {n}", "utilities." + n, "ref_vision." + n)
    for n in ("add", "modify"):
        ck.compare(f"{n}: the stimulus is recorded as attended, at most finst are remembered", V + n, "ref_vision.location_" + n,
                   cfg=lambda: Config(cuts={"buffers.Buffer." + n, V + "clear"}, impure={"buffers.Buffer." + n, V + "clear"}), keep=lambda k: k[1] != "_data")
    compare_actions(ck, ("set_location", "automatic_search"), "what is searched for, put into the buffer and recorded as attended", state=False,
                    yields=bare_events)
