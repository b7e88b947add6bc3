"""Writes /verif/MANIFEST.json from the rules that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "abstract interpretation of every buffer method (buffer size and element class), effect query on who writes buffer content",
    "C02": "value-numbering comparison of clear/add/update paths with reference semantics",
    "C08": "relational abstract interpretation: inductive comparison of the matching loops with reference semantics",
    "C11": "relational abstract interpretation of the conflict-resolution loop against reference semantics",
    "C12": "effect analysis of the condition tests and alias analysis of the bindings passed to them",
    "C13": "relational abstract interpretation of the procedural cycle against reference semantics",
    "C14": "constant evaluation of the symbol tables and path comparison of the dispatch and of each operation",
    "C16": "typestate of module status fields: per-path comparison at every event",
    "C17": "symbolic time stamps of every event on every path against reference semantics, rounding rule",
    "C20": "taint/effect query: every call of a random source and its guarding conditions",
    "C21": "definition/use query over model parameters, path comparison of the parameter merge",
    "C22": "exception-flow analysis of handlers and definite-assignment analysis of locals",
    "C36": "path comparison of renaming, substituting, merging and collapsing of rules with reference semantics, the rules' readings included",
    "C37": "path comparison of the questions buffers answer, of the texts made and of the prints of a retrieval with reference semantics",
    "C35": "path comparison of constructors, settings and model assembly with reference semantics, allocation-site and ownership queries",
    "C30": "grammar query (accepted symbols, parse-all) and path comparison of the parse front ends",
}
DEFAULT = "abstract interpretation (guarded value numbering) of every path, compared with reference semantics"
NOTE = ("Decides every path of the named functions from the syntax tree, for all inputs, to the precision of the abstract domain; trusts the "
        "analyser's model of Python and library calls, and the references in sa/ref as the meaning of the property. Parts of the code the "
        "analyser cannot follow are listed as undecided in the evidence, not reported as held.")
NA = {
    "C31": "Equivalence of a compiled rule with its sources depends on the text of user rules and on run-time buffer contents; the construction "
           "in __rename__/__substitute__ is a data transformation whose correctness no static argument in reach decides (known to be incomplete).",
    "C32": "Distributional property of drawn numbers; a static argument can only establish which numpy generator is called with which "
           "parameters, which is checked under C06, C20 and C25.",
    "C33": "Depends on Tk, threads and wall-clock timing at run time; tkinter is not installed here and no static rule in reach bounds the interleavings.",
    "C34": "Termination depends on user rules, which can be arbitrary generators; no static argument over the package alone decides it.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sa", "rules", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 -m sa {i}", "thorough_cmd": f"python3 -m sa {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "static analysis: " + TECH.get(i, DEFAULT), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
     "notes": "Pure static analysis in Python (standard library only); see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable:", [x["property"] for x in na if x["property"] not in NA])
