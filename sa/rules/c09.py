"""Chunks are immutable values with a consistent equality and hash."""
import ast

from .common import Config, walk_funcs, own_nodes, where, written_only_in

OWN = {"chunks.Chunk.__eq__"}
COMPARED = (("hash", "__hash__", "chunk_hash", OWN | {"chunks.Chunk.removeempty"}), ("equality", "__eq__", "chunk_eq", set()),
            ("slots with a value", "removeempty", "removeempty", OWN), ("slots that are used", "removeunused", "removeunused", OWN),
            ("slots as a dictionary", "_asdict", "chunk_asdict", OWN), ("slot by position", "__getitem__", "getitem", OWN),
            ("slots in order", "__iter__", "chunk_iter", OWN), ("number of slots", "__len__", "chunk_len", OWN),
            ("slot by name", "__getattr__", "getattribute", OWN))
EMPTY = (("equality of the empty value", "__eq__", "empty_eq"), ("hash of the empty value", "__hash__", "empty_hash"), ("a new empty value", "__init__", "empty_new"))
FIELDS = ("actrchunk", "_Chunk__hash", "_Chunk__empty", "_Chunk__unused")


def cfg(cuts=()):
    return Config(cuts={"utilities.splitting", "chunks.chunktype"} | set(cuts))


def run(ck):
    ck.rule("hash, equality and the views of a chunk's slots agree with their references for any slots and bindings; in particular the remembered hash is "
            "returned only under the bindings it was computed with, which are kept as a copy")
    ck.rule("a new chunk remembers nothing; its slots, type and remembered views are written by its own methods only, the slots once; "
            "no code reaches them with setattr, delattr, __dict__ or object.__setattr__")
    for what, n, r, cuts in COMPARED:
        ck.compare(what, "chunks.Chunk." + n, "ref_chunk." + r, cfg=lambda cuts=cuts: cfg(cuts))
    for what, n, r in EMPTY:
        ck.compare(what, "chunks.Chunk.EmptyValue." + n, "ref_chunk." + r, cfg=cfg)
    ck.compare("a new chunk", "chunks.Chunk.__init__", "ref_chunk.new_chunk", cfg=cfg)
    written_only_in(ck, "the slots of a chunk are given once", ["chunks.Chunk.__init__"], attr="actrchunk")
    written_only_in(ck, "the type of a chunk is given once", ["chunks.Chunk.__init__"], attr="typename")
    written_only_in(ck, "the remembered hash is a chunk's own", ["chunks.Chunk.__init__", "chunks.Chunk.__hash__"], attr="__hash")
    written_only_in(ck, "the remembered slots are a chunk's own", ["chunks.Chunk.__init__", "chunks.Chunk.removeempty"], attr="__empty")
    written_only_in(ck, "the remembered used slots are a chunk's own", ["chunks.Chunk.__init__", "chunks.Chunk.removeunused"], attr="__unused")
    n = 0
    for q, f in walk_funcs(ck.prog):
        for x in own_nodes(f):
            n += 1
            if indirect(x, f.node):
                ck.must(False, "fields are not written indirectly", where(f, x), ast.unparse(x)[:120])
    ck.must(True if n else None, "fields are not written indirectly", "all functions", f"{n} nodes")


def texts(e, fn):
    """The constants a name may be: what it is assigned everywhere in the function, or what it runs over."""
    if isinstance(e, ast.Constant):
        return {e.value}
    if not isinstance(e, ast.Name):
        return None
    out, stores = set(), 0
    for n in ast.walk(fn):
        stores += isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, (ast.Store, ast.Del)) or isinstance(n, ast.arg) and n.arg == e.id
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and n.target.id == e.id \
                and isinstance(n.iter, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(c, ast.Constant) for c in n.iter.elts):
            out |= {c.value for c in n.iter.elts}
            stores -= 1
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id \
                and isinstance(n.value, ast.Constant):
            out.add(n.value.value)
            stores -= 1
    return out if out and not stores else None


def indirect(x, within):
    if isinstance(x, ast.Call):
        fn = x.func
        if isinstance(fn, ast.Name) and fn.id in ("setattr", "delattr") and len(x.args) > 1:
            names = texts(x.args[1], within)
            return names is None or bool(names & set(FIELDS))
        if isinstance(fn, ast.Attribute) and fn.attr in ("__setattr__", "__delattr__"):
            return True
    if isinstance(x, ast.Delete):
        return any(isinstance(t, ast.Attribute) and t.attr in ("actrchunk", "typename") for t in x.targets)
    return False
