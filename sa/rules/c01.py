"""A buffer holds at most one chunk, and nothing but chunks."""
import ast

from .common import buffer_classes, own_methods, outside, field, walk_funcs, own_nodes, where, SELF, Config, mk, tm

CHUNK = "chunks.Chunk"


def size(v, facts):
    """Upper bound of the number of elements, or None."""
    if v.op == "set":
        return len(v.args)
    if v.op == "attr" and v.args[1] == "_data":
        return 1
    if v.op == "popped":
        n = size(v.args[0], facts)
        return None if n is None else max(n - 1, 0)
    if v.op == "sadd":
        n = size(v.args[0], facts)
        return None if n is None else n + 1
    if v.op == "without":
        return size(v.args[0], facts)
    for n in (0, 1):
        if facts.decide(tm.le(mk("len", v), tm.num(n))) is True:
            return n
    return None


def foreign(e, v, facts):
    """Elements put in that are not known to be chunks."""
    if v.op == "set":
        els = v.args
    elif v.op == "sadd":
        els = v.args[1:]
    else:
        return []
    bad = [] if v.op == "set" else foreign(e, v.args[0], facts)
    for x in els:
        if e.type_of(x) == CHUNK or (x.op == "new" and x.args[0] == CHUNK):
            continue
        if any(a.op == "isinst" and a.args[0] is x and CHUNK in str(a.args[1]) and p for a, p in facts.lits.items()):
            continue
        bad.append(x)
    return bad


def run(ck):
    prog = ck.prog
    bufs = buffer_classes(prog)
    ck.rule("every method of every Buffer subclass, run on a buffer of at most one chunk, leaves at most one element, a chunk "
            "(abstract interpretation of each method, chunk construction kept symbolic)")
    ck.rule("add: exactly {the element} and only under isinstance(element, Chunk), refusal otherwise; Motor.add always refuses")
    ck.rule("modify agrees with the reference modify in content and on refusal")
    ck.rule("no code outside the buffer classes assigns to or mutates the content field of a buffer")

    def cfg():
        return Config(cut_pred=outside(bufs))
    for c in bufs:
        for name, f in own_methods(prog, c).items():
            ck.part(f"{c}.{name} keeps at most one chunk", method, ck, c, name, f, cfg)
    ck.compare("modify keeps unmentioned slots, sets mentioned ones, keeps the chunk when refused", "buffers.Buffer.modify", "ref_buffers.modify",
               cfg=lambda: Config(cuts={"utilities.check_bound_vars", "chunks.Chunk.removeunused"}), raise_state=True,
               keep=lambda k: k[1] == "_data")
    for c in ("vision.VisualLocation", "vision.Visual"):
        ck.part(f"{c}.modify", sub_modify, ck, c)
    ck.part("Goal.create", create, ck)
    encapsulation(ck, bufs)


def method(ck, c, name, f, cfg):
    what = f"{c}.{name} keeps at most one chunk"
    if name in ("add", "__init__"):
        return add(ck, c, f, cfg, what) if name == "add" else init(ck, c, f, cfg, what)
    e, outs = ck.run(f.qual, cfg=cfg(), cls=c, catch=("utilities.ACTRError",))
    for o in outs:
        v = field(e, o, "_data")
        n = size(v, o.facts)
        ck.must(None if n is None and cmp_imprecise(v) else n is not None and n <= 1, what, where(f), f"leaves {tm.show(v)} when {o.facts}")
        bad = foreign(e, v, o.facts)
        ck.must(not bad, what + " (elements are chunks)", where(f), f"holds {[tm.show(b) for b in bad]}")


def cmp_imprecise(v):
    from ..compare import imprecise
    return imprecise(v)


def init(ck, c, f, cfg, what):
    e, outs = ck.run(f.qual, cfg=cfg(), cls=c)
    for o in outs:
        if o.raised:
            continue
        v = field(e, o, "_data")
        n = size(v, o.facts)
        if n is None and v.op == "sym":
            asserted = any(isinstance(x, ast.Assert) for x in own_nodes(ck.prog.funcs["buffers.Buffer.__init__"]))
            ok = asserted
        else:
            ok = n is not None and n <= 1
        ck.must(ok, what, where(f), f"starts with {tm.show(v)} when {o.facts}")


def add(ck, c, f, cfg, what):
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    if len(names) < 2:
        ck.undecide(what, "add takes no element")
        return
    elem = mk("sym", names[1])
    e, outs = ck.run(f.qual, cfg=cfg(), cls=c)
    good = 0
    for o in outs:
        if o.raised:
            continue
        good += 1
        v = field(e, o, "_data")
        exact = v.op == "set" and len(v.args) == 1 and (v.args[0] is elem)
        ck.must(None if cmp_imprecise(v) else exact, what + ": holds exactly the added chunk", where(f), f"holds {tm.show(v)} when {o.facts}")
        if exact:
            ck.must(not foreign(e, v, o.facts), what + ": refuses anything but a chunk", where(f), f"accepts {tm.show(elem)} when {o.facts}")
    if c == "motor.Motor":
        ck.must(good == 0, what + ": the manual buffer refuses every addition", where(f), f"{good} paths do not raise")
    else:
        ck.must(good > 0, what + ": accepts a chunk", where(f), "every path raises")
        # a chunk is always accepted
        st = ck.run(f.qual, cfg=cfg(), cls=c, setup=lambda st, b: None, args={names[1]: CH})[1]
        for o in st:
            if o.raised and not o.facts.lits:
                ck.must(False, what + ": accepts a chunk", where(f), f"raises {o.value}")


CH = mk("sym", "some_chunk")


def sub_modify(ck, c):
    """Modification of a visual buffer changes its content only through the general modification."""
    m = ck.method(c, "modify")
    what = f"{c}.modify is the general modification"
    if m.cls.qual == "buffers.Buffer":
        return
    ck.compare(what, m.qual, "ref_buffers.modify_" + ("location" if c.endswith("Location") else "visual"), cls=c,
               cfg=lambda: Config(cuts={"buffers.Buffer.modify"}, impure={"buffers.Buffer.modify"}), keep=lambda k: k[1] == "_data")


def create(ck):
    ck.compare("Goal.create puts in the requested chunk", "goals.Goal.create", "ref_buffers.goal_create",
               cfg=lambda: Config(cuts={"utilities.check_bound_vars", "chunks.Chunk.removeunused"}), keep=lambda k: k[1] == "_data", raise_state=True)


MUTATORS = {"add", "pop", "clear", "remove", "discard", "update"}


def encapsulation(ck, bufs):
    """Content fields of buffers are touched by buffer classes only."""
    what = "buffer content is changed by the buffer's own methods only"
    ck.done.append(what)
    allowed = set(bufs) | {"declarative.DecMem"}
    for q, f in walk_funcs(ck.prog):
        if f.cls is not None and f.cls.qual in allowed:
            continue
        g = f
        while g.parent is not None:
            g = ck.prog.funcs[g.parent]
        if g.cls is not None and g.cls.qual in allowed:
            continue
        for n in own_nodes(f):
            hit = None
            if isinstance(n, ast.Attribute) and n.attr == "_data":
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    hit = n
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "_data":
                hit = n
            if hit is not None:
                base = n.value if isinstance(n, ast.Attribute) else n.func.value.value
                if isinstance(base, ast.Name) and base.id == "self" and g.cls is not None and not any("buffers.Buffer" in ck.prog.mro(s) for s in [g.cls.qual]):
                    continue
                ck.violation(what, where(f, n), ast.unparse(n))
