"""Similarities are symmetric, non-positive and belong to their model."""
from .common import Config, mk, tm, SELF, effects, written_only_in
from .memory import RETRIEVE, cfg, scenario
from .. import facts as fx

M = "model.ACTRModel."
MATCH = "chunks.Chunk.match"


def handed_over(ck):
    """Every chunk that is matched in a retrieval looks similarities up in the buffer's own table."""
    what = "a retrieval matches with the similarities of its buffer"

    def config():
        c = cfg()
        c.impure |= {MATCH}
        c.observe_calls = True
        return c
    mine = mk("attr", SELF, "similarities")
    n = 0
    fx.Facts.world = scenario(True, True, "absent", competition=True)
    try:
        e, outs = ck.run(RETRIEVE, cfg=config(), cls="declarative.DecMemBuffer")
    finally:
        fx.Facts.world = None
    for o in outs:
        for f, _ in effects(o.state.eff):
            if f.kind == "call" and f.data[0].op == "fn" and f.data[0].args[0] == MATCH:
                n += 1
                got = f.at[0].get((f.data[4][0], "_similarities"))
                ck.must(got is mine, what, f.loc, f"matched with {tm.show(got) if got is not None else 'the table shared by all chunks'}")
    ck.must(n > 0 or None, what, RETRIEVE, "no partial match found")


def run(ck):
    ck.rule("set_similarities stores the value for both orders and refuses positive ones; get_similarity gives minus the mismatch penalty for other pairs (agreement with the references)")
    ck.rule("a model's table is created by the model, given to every declarative buffer of its simulations, and what a retrieval matches is given the table of its buffer; nothing else writes these")
    ck.compare("setting a similarity", M + "set_similarities", "ref_model.set_similarities", cls=M[:-1], catch=("utilities.ACTRError", "TypeError"))
    ck.compare("looking a similarity up", "utilities.get_similarity", "ref_matching.get_similarity")
    ck.compare("a model starts with a table of its own", M + "__init__", "ref_model.init", cls=M[:-1], keep=lambda k: k[1] == "_ACTRModel__similarities", calls=lambda e: False)
    ck.compare("a simulation uses the table of its model", M + "simulation", "ref_model.simulation", cls=M[:-1], keep=lambda k: k[1] == "similarities", value=False, calls=lambda e: False)
    ck.part("who is given the table", handed_over, ck)
    ck.part("who writes the model's table", written_only_in, ck, "the table of a model is written only where it is checked", {M + "__init__", M + "set_similarities"}, attr="__similarities")
    ck.part("who writes a buffer's table", written_only_in, ck, "the table of a buffer is set only where it is checked", {"declarative.DecMemBuffer.__init__", M + "simulation"}, attr="similarities")
    ck.part("who writes a chunk's table", written_only_in, ck, "the table of a chunk is set only where it is checked", {RETRIEVE}, attr="_similarities")
