"""The module actions of production rules against their references, facet by facet."""
from .common import buffer_classes, Config, mk, tm

PR = "productions.ProductionRules."
# reference -> (method, parameter that is the buffer, class of that buffer)
ACTIONS = {
    "extra_test": ("extra_test", "tested", None),
    "clear": ("clear", "cleared", None),
    "execute": ("execute", "executed", None),
    "modify": ("modify", "modified", None),
    "modify_request": ("modify_request", "modified", None),
    "overwrite": ("overwrite", "updated", "goals.Goal"),
    "visualencode": ("visualencode", "visualbuffer", "vision.Visual"),
    "set_goal": ("retrieveorset", "updated", "goals.Goal"),
    "set_location": ("retrieveorset", "updated", "vision.VisualLocation"),
    "set_visual": ("retrieveorset", "updated", "vision.Visual"),
    "set_manual": ("retrieveorset", "updated", "motor.Motor"),
    "set_retrieval": ("retrieveorset", "updated", "declarative.DecMemBuffer"),
    "retrieve": ("retrieve", "retrieval", "declarative.DecMemBuffer"),
    "automatic_search": ("automatic_search", "visualbuffer", "vision.VisualLocation"),
    "automatic_buffering": ("automatic_buffering", "visualbuffer", "vision.Visual"),
    "visualshift": ("visualshift", "visualbuffer", "vision.Visual"),
    "visualcontinue": ("visualcontinue", "visualbuffer", "vision.Visual"),
    "motorset": ("motorset", "motorbuffer", "motor.Motor"),
    "motorcontinue": ("motorcontinue", "motorbuffer", "motor.Motor"),
}
WORK = ("add", "clear", "create", "modify", "find", "shift", "retrieve", "move_eye", "automatic_search", "automatic_buffering",
        "stop_automatic_buffering", "discard")
STATES = ("state", "preparation", "processor", "execution", "autoattending")


def config(prog, types=(), extra=()):
    bufs = buffer_classes(prog)
    cuts = {q for q, f in prog.funcs.items() if not q.startswith("ref_") and f.cls is not None
            and f.cls.qual in bufs + ["chunks.Chunk"] and f.name != "__init__" and f.kind == "function" and f.parent is None}
    cuts |= {"utilities.check_bound_vars", "utilities.calculate_distance"} | set(extra)
    impure = {q for q in cuts if prog.funcs.get(q) is not None and prog.funcs[q].name in WORK}
    # clear of a buffer complains in the ways it does in the package: other kinds of buffer, no memory for the chunk
    return Config(cuts=cuts, impure=impure, types={mk("sym", "otherchunk"): "chunks.Chunk", **dict(types)},
                  method_raises={"clear": ("AttributeError", "utilities.ACTRError")})


def part_of_event(*names):
    """View of a yielded event that keeps some of its components only."""
    def view(t):
        if t.op == "ntv" and t.args[0] == "utilities.Event":
            return mk("event", tuple(v for n, v in zip(t.args[1], t.args[2]) if n in names))
        return t
    return view


def no_events(t):
    return None if t.op == "ntv" and t.args[0] == "utilities.Event" else t


def bare_events(t):
    return mk("event") if t.op == "ntv" and t.args[0] == "utilities.Event" else t


def nothing(e):
    return False


def compare_actions(ck, names, what, only=None, **facet):
    for n in names:
        meth, param, cls = ACTIONS[n]
        types = {mk("sym", param): cls} if cls else {}
        ck.compare(f"{n}: {what}", PR + meth, "ref_actions." + n, cfg=lambda types=types: config(ck.prog, types), **facet)


def keep_fields(*names):
    return lambda k: k[1] in names
