"""How models and their buffers are put together."""
from .common import Config, SELF, effects, tm

M = "model.ACTRModel."
BUFFERS = {"buffers.Buffer": "made", "goals.Goal": "made_goal", "declarative.DecMemBuffer": "made_retrieval",
           "vision.VisualLocation": "made_location", "vision.Visual": "made_visual", "motor.Motor": "made_motor"}
SETTINGS = (("buffers.Buffer", "dm", "get_memory", "set_memory"),
            ("goals.Goal", "default_harvest", "get_memory", "set_harvest"), ("declarative.DecMemBuffer", "decmem", "get_memory", "set_harvest"),
            ("vision.VisualLocation", "default_harvest", "get_memory", "set_harvest"), ("vision.Visual", "default_harvest", "get_memory", "set_harvest"),
            ("goals.Goal", "delay", "get_delay", "set_delay"), ("declarative.DecMemBuffer", "finst", "get_finst_dm", "set_finst_dm"),
            ("vision.VisualLocation", "finst", "get_finst", "set_finst"))
MODEL = (("retrieval", "only_retrieval"), ("decmem", "only_memory"), ("goal", "only_goal"),
         ("retrieval.setter", "name_retrieval"), ("decmem.setter", "name_memory"), ("goal.setter", "name_goal"),
         ("set_retrieval", "set_retrieval"), ("set_goal", "set_goal"), ("set_decmem", "set_memory_of"), ("visualBuffer", "visual_buffers"), ("set_productions", "rules_of"))
MADE = {"retrieval", "goals", "retrievals", "decmems", "visbuffers", "_ACTRModel__buffers", "_ACTRModel__env"}
REFUSED = ("utilities.ACTRError", "ValueError", "AssertionError")


def run(ck):
    ck.rule("making a buffer, its settings and its copy agree with the references: what is given is what is kept, impossible settings are refused")
    ck.rule("every method of a model that makes, names or gives a part agrees with its reference: the same new object is registered for the rules, in the model's table, and returned")
    ck.rule("a simulation gives memories to buffers, and adds the manual and visual buffers, as the reference does")
    for c, r in BUFFERS.items():
        ck.compare(f"a new {c}", c + ".__init__", "ref_assembly." + r, cls=c, catch=REFUSED)
    for c, name, get, put in SETTINGS:
        ck.compare(f"{name} of {c} as it is read", f"{c}.{name}", "ref_assembly." + get, cls=c, catch=REFUSED)
        ck.compare(f"{name} of {c} as it is set", f"{c}.{name}.setter", "ref_assembly." + put, cls=c, catch=REFUSED)
    ck.compare("a copied goal", "goals.Goal.copy", "ref_assembly.copy_goal", cls="goals.Goal", catch=REFUSED)
    ck.compare("a copied retrieval buffer", "declarative.DecMemBuffer.copy", "ref_assembly.copy_retrieval", cls="declarative.DecMemBuffer", catch=REFUSED,
               cfg=lambda: Config(cuts={"declarative.DecMem.copy"}))
    for name, r in MODEL:
        ck.compare(f"{name} of a model", M + name, "ref_assembly." + r, cls=M[:-1], catch=REFUSED)
    ck.compare("a new model", M + "__init__", "ref_model.init", cls=M[:-1], keep=lambda k: k[1] in MADE, calls=lambda e: False)
    ck.compare("memories and buffers of a simulation", M + "simulation", "ref_model.simulation", cls=M[:-1], catch=REFUSED,
               keep=lambda k: k[1] in MADE | {"_Buffer__dm", "dm", None}, calls=lambda e: False)
    for c, dm in (("goals.Goal", ()), ("declarative.DecMemBuffer", ("declarative.DecMem.copy",))):
        ck.part("copies share nothing", separate, ck, c, dm)
    for name, kinds in ONE_EACH.items():
        ck.part("one object under all its names", made_once, ck, name, kinds)


# what a method makes, and what it keeps and gives is that
ONE_EACH = {"__init__": ("goals.Goal", "declarative.DecMemBuffer", "declarative.DecMem"), "set_retrieval": ("declarative.DecMemBuffer",),
            "set_goal": ("goals.Goal",), "set_decmem": ("declarative.DecMem",), "visualBuffer": ("vision.Visual", "vision.VisualLocation")}


def separate(ck, c, cuts):
    f = ck.method(c, "copy")
    what = f"the content of a copied {c} is its own"
    _, outs = ck.run(f.qual, cfg=Config(cuts=set(cuts), inline_new={c}), catch=REFUSED)
    for o in outs:
        if o.raised:
            continue
        held = o.state.attrs.get((o.value, "_data")) if o.value.op == "ref" else None
        if held is None:
            ck.must(None, what, f.loc(), f"{tm.show(o.value)} not followed")
            continue
        ck.must(held.op == "ref" and held in o.state.cont, what, f"{f.qual} ({f.loc()})", f"the copy keeps {tm.show(held)} itself")


def made_once(ck, name, kinds):
    f = ck.method(M[:-1], name)
    _, outs = ck.run(f.qual, selft=SELF, catch=REFUSED)
    for o in outs:
        if o.raised:
            continue
        new = [e.data[0].args[0] for e, _ in effects(o.state.eff) if e.kind == "new"]
        for k in kinds:
            n = new.count(k)
            ck.must(n <= 1, f"{name}: what is registered, kept and given is one object", f"{f.qual} ({f.loc()})", f"{n} objects of {k} are made")
