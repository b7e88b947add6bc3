"""Pattern matching binds variables consistently and respects negation."""
import itertools

from .actions import config
from .common import Config, mk, tm
from .procedural import PR

PARTS = ("variables", "negvariables", "values", "negvalues")
CUT = {"utilities.get_similarity", "utilities.splitting", "chunks.Chunk.__eq__"}


def only(free):
    """Scenario: slot conditions have at most these parts."""
    absent = set(PARTS) - set(free)

    def world(a):
        if a.op == "truth" and a.args[0].op == "attr" and a.args[0].args[1] in absent:
            return False
        return None
    return world


def cfg(extra=()):
    return Config(cuts=CUT | set(extra), types={mk("sym", "otherchunk"): "chunks.Chunk"})


def run(ck):
    ck.rule("Chunk.match agrees with the reference (result, score and variable bindings; both modes) for slot conditions of one kind and of "
            "each two kinds, for any number of slots: loops of code and reference are related by induction over their carried values")
    ck.rule("<= and < are equality or strict matching; splitting and get_similarity agree with their references")
    sizes = (1, 2) if ck.tier == "quick" else (1, 2, 3)
    for r in sizes:
        for free in itertools.combinations(PARTS, r):
            ck.compare(f"match with {' and '.join(free)} in the slots", "chunks.Chunk.match", "ref_matching.match", cfg=cfg, world=only(free))
    for n in ("lt", "le"):
        ck.compare(f"__{n}__", f"chunks.Chunk.__{n}__", "ref_matching." + n, cfg=lambda: cfg({"chunks.Chunk.match"}))
    ck.compare("an empty slot condition has no parts", "utilities.splitting", "ref_matching.splitting")
    ck.compare("similarity of a failed condition", "utilities.get_similarity", "ref_matching.get_similarity")
    for n in ("test", "LHStest"):
        ck.compare(f"{n}: a buffer is matched under the bindings given", PR + n, "ref_actions." + n, cfg=lambda n=n: config(ck.prog, extra={PR + x for x in ("test", "query") if x != n}))
