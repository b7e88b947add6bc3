"""The most active chunk above threshold wins, at its own latency."""
from .memory import RETRIEVE, cfg, scenario, component


def run(ck):
    ck.rule("DecMemBuffer.retrieve: winner, recorded activation and time taken agree with the reference for any number and order of candidates and any "
            "activations, by induction over the candidate loop (running maximum), with full and partial matching")
    ck.rule("time of a retrieval without the subsymbolic system agrees with the reference")
    keep = {"keep": lambda k: k[1] == "activation"}
    for p in (False, True):
        ck.compare(f"competition among candidates, {'partial' if p else 'full'} matching", RETRIEVE, "ref_memory.retrieve", cfg=cfg,
                   world=scenario(True, p, "absent", matches=True), **keep)
    ck.compare("time of an instantaneous retrieval", RETRIEVE, "ref_memory.retrieve", cfg=cfg, world=scenario(False, recent="absent"), result=component(1), **keep)
    for n in ("retrieval_success", "retrieval_latency"):
        ck.compare(n, "utilities." + n, "ref_memory." + n)
