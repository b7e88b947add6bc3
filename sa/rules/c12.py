"""Testing a rule has no side effects."""
from .common import buffer_classes, own_methods, Config, mk, tm
from .procedural import compare_cycle, PR
from .actions import config
from .purity import closure_effects

SELF = mk("sym", "self")
KEPT = "_ProductionRules__actrvariables"
PATTERN = {"boundvars", "_Chunk__hash", "_Chunk__empty", "_Chunk__unused"}   # the pattern's bindings, and memos


def allowed(f, obj, field, facts):
    if f.cls is not None and f.cls.qual == "chunks.Chunk" and obj is SELF:
        return field in PATTERN
    if f.qual == PR + "test":
        return obj.op == "sym" and obj.args[0] == [a.arg for a in f.node.args.args][3] and field == "boundvars"
    if f.qual == PR + "LHStest":
        names = [a.arg for a in f.node.args.args]
        if obj.op == "sym" and obj.args[0] == names[2] and field is None:
            return True
        if obj is SELF and field == "_ProductionRules__actrvariables":
            return facts.decide(tm.truth(mk("sym", names[3]))) is True
    return False


def run(ck):
    bufs = buffer_classes(ck.prog)
    ck.rule("effect analysis of everything LHStest, test, query and the buffers' test methods and properties can reach: the only places written are the pattern chunk's "
            "own bindings and memoised hash, the bindings handed in, and, only for the rule that fires, the bindings kept for its actions; no random draw")
    ck.rule("the cycle hands every test a fresh copy of the bindings kept from the start of the cycle (alias analysis of the argument), and keeps bindings as the reference does")
    seeds = [PR + "LHStest", PR + "test", PR + "query"]
    for c in bufs:
        for n, f in own_methods(ck.prog, c).items():
            if f.kind in ("getter", "property") or n in ("test", "test_buffer", "__len__", "__iter__", "__contains__", "__bool__"):
                seeds.append(f.qual)
    for n in ("__eq__", "__hash__", "__lt__", "__le__", "__iter__", "match", "__getattr__", "__ne__", "__str__", "__repr__"):
        f = ck.prog.find_method("chunks.Chunk", n)
        if f is not None:
            seeds.append(f.qual)
    ck.part("tests change nothing but bindings", closure_effects, ck, "tests change nothing but bindings", seeds, allowed, set(bufs) | {"chunks.Chunk"})
    ck.part("bindings handed to a test", fresh_bindings, ck)
    compare_cycle(ck, "bindings kept through a cycle", keep=lambda k: k[1] == "_ProductionRules__actrvariables", yields=lambda t: None, value=False,
                  calls=lambda e: e.data[0].op == "fn" and e.data[0].args[0] == PR + "LHStest")
    for n in ("LHStest", "test", "query"):
        ck.compare(f"{n}: bindings taken over from a test", PR + n, "ref_actions." + n, cfg=lambda n=n: config(ck.prog, extra={PR + x for x in ("test", "query") if x != n}))


def fresh_bindings(ck):
    """Selection tests get bindings no one else holds."""
    what = "bindings handed to a test of a rule are a fresh copy"
    cut = {PR + n for n in ("LHStest", "update", "compile_rules")} | {"utilities.modify_utilities", "utilities.calculate_instantaneous_noise"}
    q = PR + "procedural_process"
    f = ck.func(q)
    e, outs = ck.run(q, cfg=Config(cuts=cut, impure=cut))
    from ..engine import effects
    n = 0
    for o in outs:
        kept = {v for k, v in o.state.attrs.items() if k == (SELF, KEPT)} | {mk("attr", SELF, KEPT)}
        kept |= {v for x, _ in effects(o.eff) if x.kind == "store" and x.data[0] is SELF and x.data[1] == KEPT for v in x.data[2:]}
        for x, _ in effects(o.eff):
            if x.kind == "call" and x.data[0].op == "fn" and x.data[0].args[0] == PR + "LHStest":
                n += 1
                given = x.data[4][2]
                ck.must(given.op == "ref" and given not in kept, what, f"{q} ({x.loc})", f"the test gets {tm.show(given)}, which outlives it")
    ck.must(n > 0 or None, what, q, "no test of a rule found in the cycle")
