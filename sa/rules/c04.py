"""A retrieval returns only an admissible chunk of declarative memory."""
from .actions import compare_actions
from .memory import RETRIEVE, RECENT, cfg, scenario, component
from .procedural import only_calls


def run(ck):
    ck.rule("DecMemBuffer.retrieve returns exactly the chunks the reference admits, for memories of any size, by induction over the candidate loop: without the "
            "subsymbolic system for every kind of recency test; with it, in the scenario where every admissible chunk wins the competition, with and without partial matching")
    ck.rule("the list of recent retrievals: appended and bounded as in the reference, empty at the start; finst only non-negative; the action searches the buffer's memory")
    keep = {"keep": lambda k: k[1] in ("recent", "dm", "_Buffer__dm")}
    for r in RECENT:
        ck.compare(f"instantaneous retrieval, recency test {r}", RETRIEVE, "ref_memory.retrieve", cfg=cfg, world=scenario(False, recent=r),
                   result=component(0), **keep)
        for p in (False, True):
            ck.compare(f"subsymbolic retrieval, {'partial' if p else 'full'} matching, recency test {r}: who is admitted", RETRIEVE, "ref_memory.retrieve", cfg=cfg,
                       world=scenario(True, p, r, competition=True), result=component(0), **keep)
    ck.compare("nothing is recent at the start", "declarative.DecMemBuffer.__init__", "ref_memory.init_buffer", keep=lambda k: k[1] in ("recent", "_DecMemBuffer__finst"))
    ck.compare("the number remembered is the given one", "declarative.DecMemBuffer.finst", "ref_memory.finst")
    ck.compare("only non-negative numbers can be remembered", "declarative.DecMemBuffer.finst.setter", "ref_memory.set_finst", catch=("utilities.ACTRError", "ValueError"))
    compare_actions(ck, ("retrieve",), "what is asked of the memory buffer, and what is put into it", calls=only_calls("retrieve", "add"), yields=lambda t: None,
                    state=False)
