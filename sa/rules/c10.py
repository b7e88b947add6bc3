"""Ill-formed slot values are refused when a chunk is made."""
from .common import Config, same_constant, written_only_in

SPECIAL = {"_manual": "cmd, key", "_visual": "cmd, value, color, screen_pos", "_visuallocation": "screen_x, screen_y, color, value"}


def cfg(cuts=()):
    return Config(cuts={"chunks.chunktype"} | set(cuts))


def parsed(a):
    """What a grammar finds are sequences of texts (or of such sequences), none of them empty: a number indexes them."""
    if a.op == "atom" and a.args[:2] == ("raises", "KeyError"):
        return False
    if a.op == "truth" and a.args[0].op == "item":
        return True
    return None


def run(ck):
    ck.rule("a text is split into values, variables, negated values and negated variables as the reference does (patterns compared by their parse trees); "
            "more than one value or variable is an ACT-R error")
    ck.rule("a new chunk agrees with the reference: every slot value checked by kind (chunk, combination, text-like), the same errors on the same paths, "
            "slots left out are empty, additional slots extend the type")
    ck.rule("makechunk and createchunkdict (texts of chunks and of rules) agree with the reference; chunk types: built-in ones cannot be redefined, "
            "included ones contribute their slots; nothing else writes the table of types, the table of named chunks or the slots of a chunk")
    ck.compare("the parts of a text", "utilities.stringsplitting", "ref_chunk.text_parts", cfg=cfg)
    ck.compare("a new chunk", "chunks.Chunk.__init__", "ref_chunk.new_chunk", cfg=cfg)
    ck.compare("makechunk", "chunks.makechunk", "ref_chunk.makechunk", cfg=lambda: cfg({"chunks.Chunk.__init__"}))
    ck.compare("slots read from a text", "chunks.createchunkdict", "ref_chunk.createchunkdict", cfg=cfg, world=parsed, keep=lambda k: k[1] is not None)
    ck.compare("a new chunk type", "chunks.chunktype", "ref_chunk.chunktype", cfg=lambda: Config())
    same_constant(ck, "the slots of the built-in types", "utilities", "SPECIALCHUNKTYPES", SPECIAL)
    written_only_in(ck, "chunk types are made in one place", ["chunks.chunktype"], attr="_chunktypes")
    written_only_in(ck, "named chunks are recorded in one place", ["chunks.makechunk"], attr="_chunks")
    written_only_in(ck, "the slots of a chunk are given once", ["chunks.Chunk.__init__"], attr="actrchunk")
