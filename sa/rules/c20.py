"""Randomness comes from numpy's global generator only, and only while a noise parameter is switched on."""
import ast

from .common import Config, mk, tm, effects, walk_funcs, own_nodes, where, parts_of

DRAWS = {"beta", "binomial", "bytes", "chisquare", "choice", "dirichlet", "exponential", "f", "gamma", "geometric", "gumbel", "hypergeometric",
         "laplace", "logistic", "lognormal", "logseries", "multinomial", "multivariate_normal", "negative_binomial", "noncentral_chisquare",
         "noncentral_f", "normal", "pareto", "permutation", "poisson", "power", "rand", "randint", "randn", "random", "random_integers",
         "random_sample", "ranf", "rayleigh", "sample", "shuffle", "standard_cauchy", "standard_exponential", "standard_gamma",
         "standard_normal", "standard_t", "triangular", "uniform", "vonmises", "wald", "weibull", "zipf"}
ELSEWHERE = ("random", "secrets", "uuid", "datetime", "scipy.stats", "scipy.random", "socket", "platform", "tempfile", "getpass", "hashlib")
SINGLE = {"os.urandom", "os.getpid", "os.getppid", "os.times", "os.environ", "os.getenv", "os.getrandom", "os.stat", "os.listdir", "time.time", "time.time_ns",
          "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns", "time.process_time", "time.process_time_ns",
          "time.clock", "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "time.thread_time", "sys.getrefcount", "sys.hash_info",
          "threading.get_ident", "threading.get_native_id", "os.scandir", "os.getcwd", "os.cpu_count"}
NOISES = {"instantaneous_noise", "utility_noise", "emma_noise", "emma_landing_site_noise"}


def sources(prog):
    """(dotted name, function or None, module, node) of everything the package takes from outside it by name."""
    for m in prog.modules.values():
        if getattr(m, "is_ref", False) or m.name.startswith("ref_"):
            continue
        owner = {}
        for q, f in prog.funcs.items():
            if f.module is m:
                for n in own_nodes(f):
                    owner[n] = f
        inner = set()
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Attribute, ast.Name)) or n in inner or not isinstance(getattr(n, "ctx", None), ast.Load):
                continue
            parts, x = [], n
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
                inner.add(x)
            if not isinstance(x, ast.Name):
                continue
            parts.append(x.id)
            parts.reverse()
            if x.id in m.imports:
                base = prog.resolve_import(m.imports[x.id])
                if base[0] == "ext":
                    yield ".".join([base[1]] + parts[1:]), owner.get(n), m, n
            elif len(parts) == 1 and x.id in ("id", "hash", "input"):
                yield x.id, owner.get(n), m, n
            elif parts[0] == "__import__":
                yield "__import__", owner.get(n), m, n


def kinds(name):
    """'draw' from numpy's global generator; 'other' source of chance; None."""
    if name.startswith("numpy.random."):
        return "draw" if name.split(".")[2] in DRAWS else "other"
    if name in ("numpy.random", "__import__", "id", "input"):
        return "other"
    if any(name == s or name.startswith(s + ".") for s in SINGLE) or any(name == s or name.startswith(s + ".") for s in ELSEWHERE):
        return "other"
    return None


def only_numpy(ck, found):
    what = "no source of chance but the draws of numpy's global generator"
    inside = parts_of(ck.prog, {q for q, f in walk_funcs(ck.prog) if f.name in ("__hash__", "__eq__", "__ne__")})
    for name, f, m, n in found:
        at = where(f, n) if f else f"{m.name}:{n.lineno}"
        if name == "hash":
            ok = f is not None and f.qual in inside
            ck.must(ok, what, at, "the hash of text differs from one run of Python to the next; outside of hashing an object nothing may depend on it")
        else:
            ck.must(kinds(name) != "other", what, at, f"{name} is used")


def imported(ck):
    """Nothing is taken from another source by importing it under its own name either."""
    what = "no source of chance is imported"
    for m in ck.prog.modules.values():
        if getattr(m, "is_ref", False) or m.name.startswith("ref_"):
            continue
        for nm, dotted in m.imports.items():
            k = kinds(dotted)
            if k == "other" and dotted != "numpy.random":
                ck.must(False, what, f"{m.name}", f"imports {dotted} as {nm}")
            else:
                ck.must(True, what, m.name, "")


def allowed_switches(name, root):
    """Which parameters a draw may hang on."""
    last = name.split(".")[-1]
    if root.module.name.endswith("vision"):
        return {"emma_landing_site_noise"} if "normal" in last else {"emma_noise"} if last == "gamma" else {"emma_noise", "emma_landing_site_noise"}
    if root.module.name.endswith("declarative"):
        return {"instantaneous_noise"}
    if root.module.name.endswith("productions"):
        return {"utility_noise"}
    return set(NOISES)


def switched_on(facts, names):
    def sub(t, out, seen):
        if t in seen:
            return
        seen.add(t)
        if t.op in ("item", "get", "getitem") and len(t.args) > 1 and isinstance(t.args[1], tm.T) and t.args[1].op == "s" and t.args[1].args[0] in names:
            out.append(t)
        for a in t.args:
            if isinstance(a, tm.T):
                sub(a, out, seen)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, tm.T):
                        sub(b, out, seen)
    out, seen = [], set()
    for l in facts.lits:
        sub(l[0] if isinstance(l, tuple) else l, out, seen)
    return any(facts.decide(tm.truth(t)) is True for t in out)


def visit(o, ext):
    """The draws on a path, with the facts known where they are made."""
    for eff, facts in effects(o.state.eff):
        if eff.kind == "call" and eff.data[0].op == "ext" and eff.data[0].args[0] == ext:
            yield eff, (eff.facts or facts or o.facts)


def guarded(ck, found):
    what = "a number is drawn only when its noise parameter is switched on"
    callers = {}
    for q, f in walk_funcs(ck.prog):
        names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in own_nodes(f) if isinstance(n, (ast.Attribute, ast.Name))}
        for nm in names:
            callers.setdefault(nm, set()).add(q)
    for name, f, m, n in found:
        if kinds(name) != "draw":
            continue
        if f is None:
            ck.must(False, what, f"{m.name}:{n.lineno}", f"{name} is drawn when the module is loaded")
            continue
        climb(ck, what, name, n, [f], callers)


def climb(ck, what, name, node, chain, callers):
    """Prove the draw guarded in the outermost function of the chain, or else in every one that is seen to call it.  False when this one does not call it."""
    root = chain[0]
    inline = {g.qual for g in chain}
    users = sorted(q for q in callers.get(root.name, ()) if q != root.qual and q not in inline)
    users = [q for q in users if not ck.prog.funcs[q].qual.startswith("ref_")]
    if root.parent and root.parent not in inline and root.parent not in users:
        users.append(root.parent)
    e, outs = ck.run(root.qual, cfg=Config(cut_pred=lambda g: g.qual not in inline))
    hits, bad = 0, None
    for o in outs:
        for eff, facts in visit(o, name):
            hits += 1
            if not switched_on(facts, allowed_switches(name, root)):
                bad = eff
    if not hits:
        if len(chain) == 1:
            ck.must(None, what, where(chain[-1], node), f"the draw of {name} was not met on any path")
        return False
    if bad is None:
        ck.must(True, what, where(chain[-1], node), "")
        return True
    if users and len(chain) < 4 and [1 for q in users if climb(ck, what, name, node, [ck.prog.funcs[q]] + chain, callers)]:
        return True
    ck.must(False, what, where(chain[-1], node), f"{name} is drawn by way of {' -> '.join(g.qual for g in chain)} without {' or '.join(sorted(allowed_switches(name, root)))} being switched on")
    return True


# ---------------------------------------------------------------- choices left to the order of a set

def is_set(e, known):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return not (isinstance(e, ast.Set) and len(e.elts) < 2)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
            return not e.args or not (isinstance(e.args[0], (ast.List, ast.Tuple)) and len(e.args[0].elts) < 2)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "difference", "intersection", "symmetric_difference", "copy"):
            return is_set(e.func.value, known)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, known) or is_set(e.right, known)
    return isinstance(e, ast.Name) and e.id in known


def handed_sets(prog):
    """function -> parameters that are given a set at every call found (one round: sets made by the caller)."""
    calls = {}
    for q, f in walk_funcs(prog):
        known = local_sets(f)
        for n in own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                calls.setdefault(nm, []).append([is_set(a, known) for a in n.args])
    out = {}
    for q, f in walk_funcs(prog):
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and f.parent is None:
            names = names[1:]
        for i, nm in enumerate(names):
            given = calls.get(f.name, [])
            if given and all(len(g) > i and g[i] for g in given):
                out.setdefault(q, set()).add(nm)
    return out


def local_sets(f, handed=()):
    """Names that hold a set whenever they are used."""
    given = {}
    for n in own_nodes(f):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    given.setdefault(t.id, []).append(n.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            given.setdefault(x.id, []).append(None)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    given.setdefault(x.id, []).append(None)
    known = {n for n in handed if n not in given}
    for _ in range(3):
        known |= {k for k, vs in given.items() if all(v is not None and is_set(v, known) or empty_set(v) for v in vs)}
    return known


def empty_set(v):
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "frozenset") and not v.args


def first_wins(loop):
    """What a loop does that depends on which element comes first or last."""
    names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    todo, inner = [(s, False) for s in loop.body], []
    while todo:
        n, nested = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Break) and not nested:
            inner.append(n)
        uses = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} & names
        if isinstance(n, ast.Return) and uses:
            return n
        if isinstance(n, (ast.Yield, ast.YieldFrom)) and uses:
            return n
        if isinstance(n, ast.Assign) and uses and all(isinstance(t, ast.Name) for t in n.targets) and inner:
            return n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "appendleft") and uses:
            return n
        todo += [(c, nested or isinstance(n, (ast.For, ast.While))) for c in ast.iter_child_nodes(n)]
    if inner and any(isinstance(n, ast.Assign) and {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & names for s in loop.body for n in ast.walk(s)):
        return inner[0]
    return None


def tells_apart(key):
    """The key of two different elements is different: the element itself is part of it."""
    if not isinstance(key, ast.Lambda) or len(key.args.args) != 1:
        return False
    x = key.args.args[0].arg
    parts = key.body.elts if isinstance(key.body, ast.Tuple) else [key.body]
    return any(isinstance(p, ast.Name) and p.id == x for p in parts)


def set_order(ck):
    """Which element of a set comes first differs from run to run: it decides nothing."""
    what = "nothing is decided by the order in which a set happens to be stored"
    ck.done.append(what)
    handed = handed_sets(ck.prog)
    for q, f in walk_funcs(ck.prog):
        known = local_sets(f, handed.get(q, ()))
        for n in own_nodes(f):
            if isinstance(n, ast.For) and is_set(n.iter, known):
                w = first_wins(n)
                ck.must(w is None, what, where(f, n), f"{ast.unparse(n.iter)[:80]}: {ast.unparse(w)[:80] if w is not None else ''}")
            elif isinstance(n, ast.Call) and n.args and isinstance(n.func, ast.Name) and is_set(n.args[0], known):
                keyed = any(k.arg == "key" and not tells_apart(k.value) for k in n.keywords)
                if n.func.id in ("sorted", "min", "max"):
                    ck.must(not keyed, what, where(f, n), f"{ast.unparse(n)[:120]}: equals are taken in the order of the set")
                elif n.func.id in ("next", "iter", "enumerate", "zip"):
                    ck.must(False, what, where(f, n), ast.unparse(n)[:120])
            elif isinstance(n, ast.Call) and not n.args and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and is_set(n.func.value, known):
                ck.must(False, what, where(f, n), ast.unparse(n)[:120])
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("list", "tuple") \
                    and n.value.args and is_set(n.value.args[0], known):
                ck.must(False, what, where(f, n), ast.unparse(n)[:120])


def run(ck):
    ck.rule("every name taken from outside the package is resolved; none is a source of chance except the drawing functions of numpy.random (its global generator, never seeded or replaced here); "
            "hash() of text is used for nothing but hashing")
    ck.rule("on every path to a draw, the noise parameter it belongs to is known to be switched on (path facts, followed through the callers where the switch is handed in)")
    found = list(sources(ck.prog))
    ck.part("sources of chance", only_numpy, ck, found)
    ck.part("imports", imported, ck)
    ck.part("switches", guarded, ck, found)
    ck.rule("no loop, sorting by a key, or picking from a set lets the order of a set (which changes with Python's hash seed) decide anything")
    ck.part("order of sets", set_order, ck)
