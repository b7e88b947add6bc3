"""Base-level activation, latency and noise follow the ACT-R equations."""
from .common import same_constant, constant
from .memory import RETRIEVE, cfg, scenario, component, U


def run(ck):
    ck.rule("each equation agrees with its reference as an exact symbolic expression (polynomials over logarithms, exponentials and sums of powers), on every path, "
            "including the paths on which a presentation happens at the current moment")
    ck.rule("the retrieval calls them with the chunk's own record and manually set activation, and the parameters of those names")
    ck.compare("base-level learning", U + "baselevel_learning", "ref_memory.base_level", catch=("UnboundLocalError",))
    ck.compare("instantaneous noise", U + "calculate_instantaneous_noise", "ref_memory.instantaneous_noise", catch=("AssertionError",))
    for n in ("retrieval_success", "retrieval_latency"):
        ck.compare(n, U + n, "ref_memory." + n)
    wanted = {U + n for n in ("baselevel_learning", "calculate_instantaneous_noise", "retrieval_latency")}
    for p in (False, True):
        ck.compare(f"what the equations are applied to, {'partial' if p else 'full'} matching", RETRIEVE, "ref_memory.retrieve", cfg=cfg,
                   world=scenario(True, p, "absent", matches=True), value=False, state=False, unordered=True,
                   calls=lambda e: e.data[0].op == "fn" and e.data[0].args[0] in wanted)
