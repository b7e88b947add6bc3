"""Rule and chunk text is parsed completely or refused."""
import ast

from .common import Config, mk, tm, SELF, same_constant, walk_funcs, own_nodes, where, constant, NotConstant, Skip
from .grammar import Reader, Unknown, differ, SETS

LETTERS, BOTH = frozenset(SETS["alphas"]), frozenset(SETS["alphanums"])
LHS = {"=": "test", "?": "query"}
RHS = {"?": "extra_test", "=": "modify", "+": "retrieveorset", "!": "execute", "~": "clear", "@": "overwrite", "*": "modify_request"}


M = "model.ACTRModel"
PS = M + ".productionstring"


def word(init, body):
    return ("word", frozenset(init), frozenset(body))


def chunk_grammar():
    slot = word(LETTERS | {"_"}, BOTH | {"_"})
    plain = word(BOTH | set('_:|.,%&$`*-'), BOTH | set('_:|.,%&$`*-'))
    special = ("group", ("and", (("one", frozenset(["=", "~=", "~", ">", "<", ">=", "<="])), word(BOTH | set("_\"'"), BOTH | set("_\"'")))))
    quotes = tuple(("quoted", q, (("unquote", False),)) for q in ('"', "'"))
    value = ("first", (plain, special) + quotes)
    return ("many", ("group", ("and", (slot, value))), 1)


def rule_grammar():
    name = word(LETTERS, BOTH | {"_"})

    def side(signs):
        return ("group", ("many", ("group", ("and", (("one", frozenset(signs)), name, ("one", frozenset([">"])), ("group", ("optional", chunk_grammar()))))), 1))
    return ("and", (side(LHS), ("one", frozenset(["==>"])), side(RHS)))


def same_grammar(ck, what, qual, want):
    ck.func(qual)
    try:
        got = Reader(ck).function(qual)
    except Unknown as x:
        ck.must(None, what, qual, f"not followed: {x}")
        return
    d = differ(got, want)
    ck.must(d is None, what, qual, d or "")


def carried_out(ck):
    """Every symbol stands for something the engine does."""
    what = "every symbol a rule may use is carried out"
    for table, want in (("_LHSCONVENTIONS", LHS), ("_RHSCONVENTIONS", RHS)):
        got = same_constant(ck, f"the symbols of {table}", "utilities", table, want)
        same_constant(ck, f"the symbols of {table}_REVERSED", "utilities", table + "_REVERSED", {v: k for k, v in want.items()})
        for sign, name in (got or {}).items():
            f = ck.prog.find_method("productions.ProductionRules", name)
            ck.must(f is not None, what, f"utilities.{table}", f"{sign} stands for {name}, which the rules do not have")


def whole(ck):
    """All parsing takes in the whole text."""
    what = "text is parsed to its end"
    n = 0
    for q, f in walk_funcs(ck.prog):
        for x in own_nodes(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("parse_string", "parseString", "scan_string", "search_string", "transform_string", "scanString", "searchString"):
                n += 1
                al = [k.value for k in x.keywords if k.arg in ("parse_all", "parseAll")] + x.args[1:2]
                ok = bool(al) and isinstance(al[0], ast.Constant) and bool(al[0].value) and x.func.attr in ("parse_string", "parseString")
                unknown = bool(al) and not isinstance(al[0], ast.Constant)
                ck.must(ok or (None if unknown else False), what, where(f, x), ast.unparse(x)[:100])
    ck.must(n > 0 or None, what, "parse_string", "no parsing found")


def mentions_name(ck):
    """The error for a rule that cannot be parsed says which rule it is."""
    what = "a rule that cannot be parsed is refused by name"
    e, outs = ck.run(PS, cls=M, catch=("pyparsing.ParseException",), cfg=Config(cut_pred=lambda g: g.qual != PS))
    name, n = [a.arg for a in ck.func(PS).node.args.args][1], 0
    for o in outs:
        r = o.value
        if getattr(r, "cls", None) != "utilities.ACTRError" or len(r.exc.args) < 2:
            continue
        n += 1
        ck.must(any(x.op == "sym" and x.args[0] == name or x.op == "s" and "unnamed" in str(x.args[0]) for x in tm.walk(r.exc)), what, f"{PS} ({r.loc if hasattr(r, 'loc') else ''})", tm.show(r.exc)[:120])
    ck.must(n > 0 or None, what, PS, "no refusal found")


def cfg():
    cut = {"utilities.getrule", "utilities.getchunk", "chunks.createchunkdict", "chunks.makechunk"}
    return Config(cuts=cut, impure={"chunks.makechunk"}, types={mk("sym", "model"): M})


def run(ck):
    ck.rule("the grammars of rules and chunks, computed from the functions that build them (constant evaluation of the combinators), are the ones specified; "
            "their symbols are exactly those the engine has an action for")
    ck.rule("every use of a grammar takes in the whole text; productionstring and chunkstring agree with their references, and a parse failure becomes an ACT-R error naming the rule")
    ck.part("grammar of a chunk", same_grammar, ck, "the grammar of a chunk", "utilities.getchunk", chunk_grammar())
    ck.part("grammar of a rule", same_grammar, ck, "the grammar of a rule", "utilities.getrule", rule_grammar())
    ck.part("symbols", carried_out, ck)
    ck.part("whole text", whole, ck)
    ck.part("refusal", mentions_name, ck)
    ck.compare("a rule given as text", PS, "ref_model.productionstring", cls=M, cfg=cfg, catch=("pyparsing.ParseException",))
    ck.compare("what a rule given as text tests and does", "ref_model.parts_of_rule", "ref_model.parts_of_rule_expected", cfg=cfg)
    ck.compare("a chunk given as text", "chunks.chunkstring", "ref_model.chunkstring", cfg=cfg)
