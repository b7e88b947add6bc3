"""Spreading activation follows fan and association strength."""
from .common import Config, field, mk, tm, where
from .memory import RETRIEVE, cfg, scenario, U

FUNCS = ("find_chunks", "splitting", "calculate_strength_association", "weigh_buffer")
EQ = {"chunks.Chunk.__eq__", "chunks.Chunk.__ne__"}
DM = "declarative.DecMem."


def run(ck):
    ck.rule("sources, weights, association strengths, fan counts and the sum over buffers agree with their references on every path, for any number of buffers, "
            "slots and chunks, by induction over the loops")
    ck.rule("the cached fan counts: filled by counting, kept up as chunks are added (every slot of a new chunk once), dropped as one is deleted, copied with the memory")

    def less(*own):
        return lambda: Config(cuts={U + n for n in FUNCS if n not in own} | EQ, types={mk("sym", "dm"): "declarative.DecMem"})
    ck.compare("weight of a source", U + "weigh_buffer", "ref_memory.weigh_buffer", cfg=less("weigh_buffer"))
    ck.compare("which slot values are sources", U + "find_chunks", "ref_memory.find_chunks", cfg=less("find_chunks"))
    ck.compare("association strength and fan", U + "calculate_strength_association", "ref_memory.association", cfg=less("calculate_strength_association"))
    ck.compare("sum over buffers and sources", U + "spreading_activation", "ref_memory.spreading_activation", cfg=less())
    ck.compare("fan counts follow additions", DM + "__setitem__", "ref_memory.set_item", cfg=less(), keep=lambda k: "number_chunks" in str(k))
    ck.part("fan counts are made anew after a deletion", deletion, ck, less())
    ck.compare("fan counts of a copy", DM + "copy", "ref_memory.copy",
               cfg=lambda: Config(cuts=EQ | {DM + "__setitem__"}, impure={DM + "__setitem__"}, inline_new={"declarative.DecMem"}))
    ck.compare("no counts at the start", DM + "__init__", "ref_memory.init", keep=lambda k: "number_chunks" in str(k[1]),
               cfg=lambda: Config(cuts={DM + "__setitem__"} | EQ))
    ck.compare("what is spread to a candidate", RETRIEVE, "ref_memory.retrieve", cfg=cfg, world=scenario(True, False, "absent", matches=True), value=False,
               state=False, unordered=True, calls=lambda e: e.data[0].op == "fn" and e.data[0].args[0] == U + "spreading_activation")


def deletion(ck, cfg):
    """Counts kept while a chunk goes are those of the memory with it."""
    f = ck.prog.funcs[DM + "__delitem__"]
    e, outs = ck.run(f.qual, cfg=cfg(), cls="declarative.DecMem")
    for o in outs:
        gone = field(e, o, "_data")
        for a in ("restricted_number_chunks", "unrestricted_number_chunks"):
            v = field(e, o, a)
            kept = v.op == "attr" and v.args[1] == a
            empty = v.op in ("dict", "list", "set", "tuple") and not v.args
            ck.must(True if empty or (kept and gone.op == "attr") else False if kept else None, "fan counts are made anew after a deletion", where(f),
                    f"{a} is {tm.show(v)} once the memory is {tm.show(gone)}, when {o.facts}")
