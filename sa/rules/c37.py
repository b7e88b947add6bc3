"""What buffers answer and texts show is what is there."""
from .common import Config, buffer_classes
from .memory import RETRIEVE, cfg, scenario

B = "buffers.Buffer"
ASKED = (("__contains__", "contains"), ("__iter__", "iterate"), ("__len__", "length"), ("__repr__", "buffer_text"), ("discard", "discard"),
         ("test_buffer", "full_or_empty"), ("show", "show"))
TEXTS = (("utilities.varval_repr", "varval_text", None), ("chunks.Chunk.__repr__", "chunk_text", "chunks.Chunk"),
         ("productions.Production.__repr__", "production_text", "productions.Production"),
         ("productions.Productions.__repr__", "rules_text", "productions.Productions"))


def run(ck):
    ck.rule("the questions a buffer answers (full, empty, its chunk, how many, its states) agree with the references in every class of buffers")
    ck.rule("the text of a slot, a chunk, a rule and a set of rules is put together from the parts the references put together, in the same order")
    for n, r in ASKED:
        ck.compare(f"{n} of a buffer", f"{B}.{n}", "ref_showing." + r, cls=B, prints=n == "show", also=("ref_showing.show_next", "ref_showing.show_first", "ref_showing.show_last") if n == "show" else ())
    for c in buffer_classes(ck.prog):
        f = ck.prog.find_method(c, "test")
        if f is not None:
            ck.compare(f"the states of {c}", f.qual, "ref_showing.state_is", cls=c)
        for n, _ in ASKED:
            g = ck.prog.find_method(c, n)
            ck.must(g is not None and g.qual == f"{B}.{n}", f"{n} of {c} is that of buffers", c, f"it is {g.qual if g else 'missing'}")
    for q, r, c in TEXTS:
        ck.compare(f"the text made by {q}", q, "ref_showing." + r, cls=c, cfg=lambda: Config(turns=True))
    ck.part("what a retrieval prints", retrievals, ck)
    for field, other in (("negvalues", "negvariables"), ("negvariables", "negvalues")):
        for plain in (False, True):
            ck.compare(f"the text of {'one' if plain else 'some'} of the {field}", "utilities.varval_repr", "ref_showing.varval_text", world=only(field, other, plain), cfg=lambda: Config(turns=True))


def only(field, other, plain):
    """Nothing but this is in the slot."""
    def world(a):
        if a.op == "truth" and a.args[0].op == "attr" and a.args[0].args[1] in ("values", "variables", other, field):
            return a.args[0].args[1] == field
        if a.op == "isinst" and a.args[0].op == "attr" and a.args[0].args[1] == field and tuple(a.args[1]) == ("str",):
            return plain
        if a.op == "eq" and not plain and apart(*a.args[:2]):
            return False   # the text of a collection is not the text of what it holds
        return None
    return world


def parts_shown(t, out):
    if t.op == "strof":
        out.append(t.args[0])
    elif t.op == "cat":
        for x in t.args:
            parts_shown(x, out)
    return out


def apart(x, y):
    xs, ys = parts_shown(x, []), parts_shown(y, [])
    return any(p.op == "item" and p.args[0] in qs for ps, qs in ((xs, ys), (ys, xs)) for p in ps)


def retrievals(ck):
    for p in (False, True):
        ck.compare(f"what a retrieval prints, {'partial' if p else 'full'} matching", RETRIEVE, "ref_memory.retrieve", cfg=cfg, prints=True, state=False, value=False, raise_state=False,
                   calls=lambda e: False, world=scenario(True, p, "absent", matches=True))
    ck.compare("what a retrieval prints without the subsymbolic system", RETRIEVE, "ref_memory.retrieve", cfg=cfg, prints=True, state=False, value=False, raise_state=False,
               calls=lambda e: False, world=scenario(False, recent="absent"))
