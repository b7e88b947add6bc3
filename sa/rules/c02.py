"""A chunk that leaves a buffer is stored in declarative memory."""
from .actions import compare_actions, nothing, no_events, config, PR
from .common import Config, SELF, mk, tm

DM = {("buffers.Buffer", "_Buffer__dm"): "declarative.DecMem"}
ADD = "declarative.DecMem.add"
MEMORIES = {  # scenario -> (setup of the own memory, class of it or None)
    "own memory": "declarative.DecMem", "no own memory": None}


def cfg(extra=()):
    return Config(cuts={ADD} | set(extra), impure={ADD} | set(extra), attr_types=dict(DM), types={mk("sym", "harvest"): "declarative.DecMem"})


def run(ck):
    ck.rule("clear of every harvesting buffer: on each path at most one add of the held chunk, to the given memory if any, else to the own one, "
            "with the time of the clearing; the chunk stays when no memory accepts it (memory operations symbolic, their order compared)")
    ck.rule("each action that replaces a buffer's chunk calls clear once, before the new chunk comes in, on every path where the reference does")
    ck.rule("strict harvesting in update: exactly the tested buffers without an action of their own get a clear process")
    for c in ("goals.Goal", "vision.VisualLocation", "vision.Visual"):
        for h in ("given", "none"):
            for m, k in MEMORIES.items():
                if h == "given" and k is None:
                    continue
                ck.part(f"{c}.clear ({h} memory, {m})", clear, ck, c, h, m, k, "clear")
    for m, k in MEMORIES.items():
        ck.part(f"DecMemBuffer.clear ({m})", clear, ck, "declarative.DecMemBuffer", None, m, k, "clear_own")
    adds(ck)
    compare_actions(ck, ["clear"], "which clear of the buffer is called, and once", state=False, yields=no_events)
    compare_actions(ck, ["set_goal", "set_location", "retrieve", "visualencode", "overwrite", "automatic_search", "automatic_buffering"],
                    "the held chunk is cleared before it is replaced", state=False, yields=no_events, value=False)
    update(ck)


def clear(ck, c, h, m, k, ref):
    what = f"{c}.clear stores the held chunk ({'memory ' + h + ', ' if h else ''}{m})"
    f = ck.method(c, "clear")
    args, ra = {}, {}
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    if h == "none":
        if len(names) > 2:
            args[names[2]] = tm.NONE
        ra["harvest"] = tm.NONE

    def setup(st, b):
        if k is None:
            st.attrs[(SELF, "_Buffer__dm")] = tm.NONE
    ck.compare(what, f.qual, "ref_harvest." + ref, cls=c, cfg=cfg, setup=setup, raise_state=k is not None, args=args,
               keep=lambda k: k[1] == "_data" or k[1] is None)


def adds(ck):
    for c, ref in (("declarative.DecMemBuffer", "add_own"), ("vision.VisualLocation", "add_location"), ("vision.Visual", "add_visual")):
        f = ck.prog.find_method(c, "add")
        g = ck.prog.find_method(c, "clear")
        if f is None or g is None:
            ck.undecide(f"{c}.add", "no such method")
            continue
        ck.compare(f"{c}.add clears what was held before", f.qual, "ref_harvest." + ref, cls=c,
                   cfg=lambda g=g: cfg({g.qual, "buffers.Buffer.add"}), keep=lambda k: k[1] == "_data")


def update(ck):
    cuts = {PR + n for n in ("extra_test", "clear", "execute", "modify", "modify_request", "overwrite", "retrieveorset")}
    ck.compare("update: processes started, strict harvesting included", PR + "update", "ref_actions.update",
               cfg=lambda: config(ck.prog, extra=cuts), keep=lambda k: k[1] == "procs", yields=no_events)
