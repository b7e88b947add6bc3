"""How two rules become one when they are compiled."""
from .c19 import PARTS
from .common import Config, tm

U, S = "utilities.", "productions.Productions."


def run(ck):
    ck.rule("renaming, substituting and merging the content of a slot, and finding which variables and values belong together, agree with the references on every path")
    ck.rule("the renamed, the substituted and the joint rule, read to their end, have the conditions and actions of the reference, for any two rules and for rules given outright")
    plain = lambda: Config(cuts={"utilities.splitting"})
    ck.compare("renaming the variables of a slot", U + "make_chunkparts_without_varconflicts", "ref_merging.renamed", cfg=plain)
    ck.compare("putting what was matched into a slot", U + "make_chunkparts_with_new_vars", "ref_merging.substituted", cfg=plain)
    ck.compare("merging what two rules say of a slot", U + "merge_chunkparts", "ref_merging.merged", cfg=plain)
    ck.compare("which variables and values belong together", U + "match", "ref_merging.match", cfg=plain)
    parts = lambda: Config(cuts={U + n for n in ("make_chunkparts_without_varconflicts", "make_chunkparts_with_new_vars", "merge_chunkparts")} | {S + "__getitem__"},
                           inline_new={"productions.Production"}, types={tm.mk("sym", "rules"): "productions.Productions"}, impure={U + "make_chunkparts_with_new_vars"})
    for what, r in (("renaming the variables of a rule", "parts_renamed"), ("putting what was matched into a rule", "parts_substituted")):
        ck.compare(what, "ref_merging." + r, f"ref_merging.{r}_expected", cfg=parts)
    ck.compare("putting two rules together", "ref_merging.parts_collapsed", "ref_merging.parts_collapsed_expected", cfg=parts)
    for what, r in (("queries of both rules", "case_queries"), ("queries of buffers the first acts on", "case_dropped"), ("actions of both rules", "case_actions")):
        ck.compare(what, "ref_merging." + r, f"ref_merging.{r}_expected", cfg=parts)
    ck.compare("which parts of which rule go together", S + "compile_rules", "ref_compilation.compile_rules", cls=S[:-1], cfg=lambda: Config(cuts=PARTS, impure={"utilities.match"}))
