"""Thorough tier: how the rule reacts to small changes of the functions it read.

Each change is made to the syntax tree in memory (never to /repo, never run) and
the rule is decided again on the changed source. The outcome is reported as
numbers in the evidence; it does not affect the verdict.
"""
import ast
import copy
import os
import random
import time

FLIP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.And: ast.Or, ast.Or: ast.And}


def changes(fn):
    """Paths to nodes of one function and what can be done to them."""
    out = []

    def visit(node, path):
        if isinstance(node, ast.Compare) and type(node.ops[0]) in FLIP:
            out.append((path, "flip"))
        elif isinstance(node, (ast.BinOp, ast.BoolOp)) and type(node.op) in FLIP:
            out.append((path, "op"))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            out.append((path, "number"))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((path, "bool"))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            out.append((path, "negate"))
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.stmt):
                        doc = isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                        if not doc and not isinstance(x, (ast.Pass, ast.FunctionDef)):
                            out.append((path + [(field, i)], "drop"))
                    if isinstance(x, ast.AST):
                        visit(x, path + [(field, i)])
            elif isinstance(val, ast.AST):
                visit(val, path + [(field, None)])
    for i, s in enumerate(fn.body):
        doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
        if not doc:
            out.append(([("body", i)], "drop"))
            visit(s, [("body", i)])
    return out


def get(node, path):
    for f, i in path:
        node = getattr(node, f) if i is None else getattr(node, f)[i]
    return node


def apply(fn, path, what):
    n = get(fn, path)
    if what == "drop":
        f, i = path[-1]
        getattr(get(fn, path[:-1]), f)[i] = ast.copy_location(ast.Pass(), n)
    elif what == "flip":
        n.ops[0] = FLIP[type(n.ops[0])]()
    elif what == "op":
        n.op = FLIP[type(n.op)]()
    elif what == "number":
        n.value = n.value + 1
    elif what == "bool":
        n.value = not n.value
    elif what == "negate":
        n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)


def measure(ck, mod, root, budget=480, limit=240):
    from .program import Program
    from .report import Check
    todo = []
    for q in sorted(ck.reached):
        f = ck.prog.funcs.get(q)
        if f is None or not isinstance(f.node, ast.FunctionDef):
            continue
        todo += [(q, p, w) for p, w in changes(f.node)]
    random.Random(ck.seed).shuffle(todo)
    todo = todo[:limit]
    start = time.time()
    jobs = min(8, os.cpu_count() or 1)
    pipes = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q, p, what in todo[j::jobs]:
                    if time.time() - start > budget:
                        break
                    os.write(w, (one(ck, mod, root, q, p, what, Program, Check) + "\n").encode())
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    got = []
    for pid, r in pipes:
        with os.fdopen(r) as fh:
            got += [line.strip() for line in fh if line.strip()]
        os.waitpid(pid, 0)
    n = {k: sum(1 for g in got if g.startswith(k)) for k in ("reported", "undecided", "quiet", "error")}
    quiet = sorted(g.split(" ", 1)[1] for g in got if g.startswith(("quiet", "error")))
    ck.sensitivity = {"changes_possible": len(todo), "changes_tried": len(got), **n, "not_reported_examples": quiet[:400],
                      "note": "dropped statements, flipped operators and shifted constants in the functions read, many of which do not "
                              "touch this property or change nothing; decided statically on the changed source"}


def one(ck, mod, root, q, path, what, Program, Check):
    f = ck.prog.funcs[q]
    tree = copy.deepcopy(f.module.tree)
    line = (f.node.lineno, f.node.col_offset)
    fn = next(n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and (n.lineno, n.col_offset) == line)
    at = getattr(get(fn, path), "lineno", fn.lineno)
    apply(fn, path, what)
    name = f"{q}:{at} {what}"
    try:
        prog = Program(root, overrides={f.module.path: ast.unparse(ast.fix_missing_locations(tree))})
        c = Check(prog, ck.prop, "quick", ck.seed)
        mod.run(c)
    except Exception as e:
        return f"error {name} {type(e).__name__} {str(e)[:80]}".replace("\n", " ")
    return ("reported " if c.violations else "undecided " if c.undecided else "quiet ") + name
