"""Shared by the rules on declarative memory: what is left symbolic, and scenarios of a retrieval."""
from .common import Config, mk, tm

U = "utilities."
PARTS = {U + n for n in ("baselevel_learning", "spreading_activation", "calculate_instantaneous_noise", "retrieval_success", "retrieval_latency", "check_bound_vars")}
CHUNK = {"chunks.Chunk." + n for n in ("removeunused", "match", "__le__", "__lt__", "__eq__", "__ne__")}
RETRIEVE = "declarative.DecMemBuffer.retrieve"
RECENT = ("absent", "False", "'False'", "other")


def cfg():
    dm = mk("attr", mk("sym", "self"), "dm")
    return Config(cuts=PARTS | CHUNK, impure={U + "calculate_instantaneous_noise"}, types={dm: "declarative.DecMem"})


def setting(name, a):
    return a.op == "truth" and a.args[0].op in ("item", "get") and a.args[0].args[1].op == "s" and a.args[0].args[1].args[0] == name


def scenario(subsymbolic, partial=None, recent=None, matches=None, competition=None):
    """What a retrieval finds: parameter settings, the kind of recency test, whether chunks match, whether they win."""
    def world(a):
        if setting("subsymbolic", a):
            return subsymbolic
        if setting("partial_matching", a):
            return partial
        if a.op == "in" and a.args[0].op == "s" and a.args[0].args[0] == "recently_retrieved" and a.args[1].op != "dict" and recent is not None:
            return recent != "absent"
        if a.op == "eq" and recent is not None:
            for u, v in (a.args, a.args[::-1]):
                if u.op == "item" and u.args[1].op == "s" and u.args[1].args[0] == "recently_retrieved":
                    if v is tm.FALSE:
                        return recent == "False"
                    if v.op == "s" and v.args[0] == "False":
                        return recent == "'False'"
        if a.op == "truth" and a.args[0].op == "call" or a.op == "truth" and a.args[0].op == "mcall":
            t = tm.show(a.args[0])
            if matches is not None and t.startswith("chunks.Chunk.__le__"):
                return matches
        if competition:
            t = tm.show(a)
            if a.op == "truth" and a.args[0].op in ("call", "mcall") and tm.show(a.args[0]).startswith(U + "retrieval_success"):
                return True
            if a.op == "truth" and tm.show(a.args[0]).startswith("math.isnan") or a.op == "atom" and a.args[0] == "raises" and "baselevel_learning" in t:
                return False
            if a.op == "pos" and "baselevel_learning" in t:
                return True
        return None
    return world


def component(i):
    """View of a returned tuple that keeps one component."""
    def view(t):
        return t.args[i] if t.op == "tuple" and len(t.args) > i else t
    return view
