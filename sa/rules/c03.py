"""Declarative memory keeps every presentation of every chunk."""
import ast

from .common import Config, own_nodes, walk_funcs, where, tm

D = "declarative.DecMem."
EQ = {"chunks.Chunk.__eq__", "chunks.Chunk.__ne__"}
FIELDS = ("_data", "activations", "restricted_number_chunks", "unrestricted_number_chunks")


def cfg():
    return Config(cuts={D + "__setitem__"} | EQ, impure={D + "__setitem__"})


def copying():
    c = cfg()
    c.inline_new = {"declarative.DecMem"}
    return c


def run(ck):
    ck.rule("DecMem.add stores, for the chunk or for each chunk of the collection and nothing else, the old record with the new presentation(s) appended, on every path")
    ck.rule("DecMem.__setitem__ accepts only chunks and stores the given record, single numbers rounded to 4 digits")
    ck.rule("DecMem.copy: contents of every field agree with the reference and no field of the copy is an object shared with the original; records are never changed in place")
    ck.compare("add appends to the record of each given chunk", D + "add", "ref_memory.add", cfg=cfg)
    ck.compare("a record is stored for chunks only", D + "__setitem__", "ref_memory.set_item",
               cfg=lambda: Config(cuts=EQ | {"utilities.splitting"}), keep=lambda k: k[1] == "_data" or k[1] is None and "_data" in str(k[0]))
    ck.compare("a new memory has the given content", D + "__init__", "ref_memory.init", cfg=cfg)
    for m, r in (("__contains__", "contains"), ("__getitem__", "get_item"), ("__iter__", "iterate"), ("__len__", "length"), ("add_activation", "add_activation")):
        ck.compare(m, D + m, "ref_memory." + r, cfg=cfg, catch=("KeyError", "AttributeError"))
    ck.compare("deleting a chunk drops its record only", D + "__delitem__", "ref_memory.del_item", cfg=cfg, catch=("KeyError",),
               keep=lambda k: "number_chunks" not in str(k))
    ck.compare("copy has the same content", D + "copy", "ref_memory.copy", cfg=copying)
    ck.part("copy shares nothing", shares_nothing, ck)
    ck.part("records are replaced, not changed in place", in_place, ck)
    ck.compare("the memory made by a model holds the given data", "model.ACTRModel.set_decmem", "ref_memory.set_decmem", cfg=lambda: Config(cuts={D + "__init__"}),
               state=False)


def shares_nothing(ck):
    f = ck.func(D + "copy")
    what = "a copied memory shares no field with its original"
    e, outs = ck.run(f.qual, cfg=copying())
    for o in outs:
        if o.raised:
            continue
        new = o.value
        if new.op != "ref":
            ck.must(None, what, where(f), f"result {tm.show(new)} not followed")
            continue
        held = {k[1]: v for k, v in o.state.attrs.items() if k[0] is new}
        for n in FIELDS:
            v = held.get(n)
            ck.must(None if v is None else v.op == "ref" and v in o.state.cont, f"{what}: {n}", where(f), f"{n} of the copy is {tm.show(v) if v is not None else 'unknown'}")


IN_PLACE = {"sort", "fill", "resize", "itemset", "put", "append", "extend", "insert", "partition"}


def in_place(ck):
    """No code changes a stored record: element assignment or in-place operation on what a memory gives."""
    what = "records are replaced, not changed in place"
    for q, f in walk_funcs(ck.prog):
        for n in own_nodes(f):
            t = None
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Subscript) and is_memory(x.value.value):
                        t = x
                    if isinstance(n, ast.AugAssign) and isinstance(x, ast.Subscript) and is_memory(x.value):
                        t = x
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in IN_PLACE \
                    and isinstance(n.func.value, ast.Subscript) and is_memory(n.func.value.value):
                t = n
            if t is not None:
                ck.violation(what, where(f, t), ast.unparse(t))


def is_memory(e):
    """A name by which declarative memory, or the records in it, are known."""
    return isinstance(e, ast.Attribute) and (e.attr in ("dm", "decmem") or e.attr == "_data" and isinstance(e.value, ast.Name) and e.value.id == "self") \
        or isinstance(e, ast.Name) and e.id in ("dm", "decmem")
