"""How two rules become one (read by the analyser, never run)."""
import collections.abc
from pyactr import chunks, utilities
from pyactr.productions import Productions
from pyactr.utilities import ACTRError, VarvalClass, splitting


def renamed(chunkpart, rule_name, variables):
    parts = splitting(chunkpart)
    mine = None
    if parts.variables:
        new = str(parts.variables) + "__rule__" + rule_name
        if "=" + new in variables:
            raise ACTRError("clash")
        mine = new
    nots = set()
    for x in parts.negvariables:
        if "=" + str(x) + "__rule__" + rule_name in variables:
            raise ACTRError("clash")
        nots.add(str(x) + "__rule__" + rule_name)
    return VarvalClass(variables=mine, values=parts.values, negvariables=tuple(nots), negvalues=parts.negvalues)


def substituted(chunkpart, variable_dict, val_dict):
    parts = splitting(chunkpart)
    variable, value = None, parts.values
    if parts.variables:
        if parts.variables not in val_dict:
            variable = variable_dict.setdefault(parts.variables, parts.variables)
        elif parts.values:
            if val_dict[parts.variables] != parts.values:
                raise ACTRError("two values")
        else:
            value = val_dict[parts.variables]
    nots, notvalues = set(), set(parts.negvalues)
    for x in parts.negvariables:
        if x not in val_dict:
            nots.add(variable_dict.setdefault(x, x))
        else:
            notvalues.add(val_dict[x])
    return VarvalClass(variables=variable, values=value, negvariables=tuple(nots), negvalues=tuple(notvalues))


def merged(first, second):
    one, two = splitting(first), splitting(second)
    if not any(one):
        one = two
    return VarvalClass(variables=one.variables, values=one.values, negvariables=one.negvariables, negvalues=one.negvalues)


def tie(names, value, matched, valued):
    if value:
        valued.update({x: value for x in names})
    elif names:
        shortest = sorted(names, key=lambda x: (len(x), x))[0]
        matched.update({x: shortest for x in names})


def match(conditions, slotvals, first, second):
    matched = {}
    valued = {}
    left = slotvals.copy()
    for key in conditions:
        buff = key[1:]
        if key[0] not in {"=", "+", "*", "@"}:
            continue
        tested = conditions.get(key)._asdict()
        made = left.pop(buff) if buff in left else tested
        if isinstance(made, collections.abc.MutableSequence):
            for slot in tested:
                there = splitting(tested[slot])
                try:
                    here = splitting(made[0][slot])
                except KeyError:
                    here = splitting(None)
                try:
                    value = getattr(made[1], slot).values
                except AttributeError:
                    value = None
                names = set()
                if there.variables:
                    names.add(there.variables)
                if here.variables:
                    names.add(here.variables)
                tie(names, value, matched, valued)
            slotvals.pop(buff)
        else:
            for slot in tested:
                there = splitting(tested[slot])
                try:
                    here = splitting(made[slot])
                except (KeyError, TypeError):
                    here = splitting(None)
                names = set()
                if there.variables:
                    names.add(there.variables)
                if here.variables:
                    names.add(here.variables)
                if there.values and here.values and there.values != here.values:
                    raise ACTRError("two values")
                tie(names, there.values if there.values else here.values if here.values else None, matched, valued)
    return matched, valued


WITH_SLOTS = {"=", "+", "*", "@"}
WITHOUT_SLOTS = {"execute", "clear", "extra_test"}


def parts_renamed(rules, name, variables):
    yield from Productions.__rename__(rules, name, variables)["rule"]()


def parts_renamed_expected(rules, name, variables):
    for part in rules[name]["rule"]():
        for key in part:
            if key[0] in WITH_SLOTS:
                part[key] = chunks.Chunk(part[key].typename, **{slot[0]: utilities.make_chunkparts_without_varconflicts(slot[1], name, variables) for slot in part[key]})
        yield part


def parts_substituted(rules, rule, variable_dict, val_dict):
    yield from Productions.__substitute__(rules, rule, variable_dict, val_dict)["rule"]()


def parts_substituted_expected(rules, rule, variable_dict, val_dict):
    for part in rule["rule"]():
        for key in part:
            if key[0] in WITH_SLOTS:
                slots = {}
                for slot in part[key]:
                    slots[slot[0]] = utilities.make_chunkparts_with_new_vars(slot[1], variable_dict, val_dict)
                part[key] = chunks.Chunk(part[key].typename, **slots)
        yield part


def parts_collapsed(rules, rule1, rule2, slotvals, retrieval):
    yield from Productions.__collapse__(rules, rule1, rule2, slotvals, retrieval)["rule"]()


def sets(slotvals, buff, slot):
    try:
        return slotvals[buff][slot].values or slotvals[buff][slot].variables
    except (KeyError, AttributeError, TypeError):
        return None


def parts_collapsed_expected(rules, rule1, rule2, slotvals, retrieval):
    reading1, reading2 = rule1["rule"](), rule2["rule"]()
    conditions, others = next(reading1).copy(), next(reading2).copy()
    for key in conditions:
        buff = key[1:]
        if utilities._LHSCONVENTIONS[key[0]] == "query" or key not in others:
            continue
        asked = others.pop(key)._asdict()
        mine = conditions[key]._asdict()
        slots = {}
        if buff in slotvals:
            for slot in asked:
                slots[slot] = mine[slot] if sets(slotvals, buff, slot) else utilities.merge_chunkparts(mine[slot], asked[slot])
        elif buff == retrieval:
            continue
        else:
            for slot in asked:
                slots[slot] = utilities.merge_chunkparts(mine[slot], asked[slot])
        conditions[key] = chunks.Chunk(conditions[key].typename, **slots)
    for key in others:
        buff = key[1:]
        if utilities._LHSCONVENTIONS[key[0]] == "query":
            again = rule1["rule"]()
            next(again)
            if not any(utilities._RHSCONVENTIONS[act[0]] not in {"modify", "extra_test"} and act[1:] == buff for act in next(again)):
                conditions.setdefault(key, {}).update(others[key])
            continue
        asked = others[key]._asdict()
        if buff in slotvals:
            slots = {}
            for slot in asked:
                if not sets(slotvals, buff, slot):
                    slots[slot] = asked[slot]
        elif buff == retrieval:
            continue
        else:
            slots = asked.copy()
        conditions[key] = chunks.Chunk(others[key].typename, **slots)
    yield conditions
    firsts, actions = next(reading1).copy(), next(reading2).copy()
    for key in actions:
        buff = key[1:]
        if utilities._RHSCONVENTIONS[key[0]] in WITHOUT_SLOTS or buff not in slotvals:
            continue
        made = slotvals[buff]
        wanted = actions[key]._asdict()
        slots = {}
        for slot in wanted:
            if made and slot in made:
                slots[slot] = utilities.merge_chunkparts(wanted[slot], made[slot])
            else:
                slots[slot] = wanted[slot]
        actions[key] = chunks.Chunk(actions[key].typename, **slots)
    for key in firsts:
        buff = key[1:]
        if any(other[1:] == buff for other in actions) or buff == retrieval:
            continue
        if utilities._RHSCONVENTIONS[key[0]] in WITHOUT_SLOTS:
            actions[key] = firsts[key]
        else:
            actions[key] = chunks.Chunk(firsts[key].typename, **firsts[key]._asdict())
    yield actions


def case(rules, first, second, acts1, acts2, slotvals, retrieval):
    """Two rules given outright; what they say is symbolic."""
    def one():
        yield first
        yield acts1

    def two():
        yield second
        yield acts2
    yield from Productions.__collapse__(rules, {"rule": one}, {"rule": two}, slotvals, retrieval)["rule"]()


def case_queries(rules, p, q, c):
    yield from case(rules, {"?b": {"state": p}, "?d": {"state": p}}, {"?b": {"buffer": q}, "?e": {"state": q}}, {"=g": c}, {"~g": None}, {}, None)


def case_queries_expected(rules, p, q, c):
    yield {"?b": {"state": p, "buffer": q}, "?d": {"state": p}, "?e": {"state": q}}
    yield {"~g": None}


def case_dropped(rules, p, q, r, c):
    yield from case(rules, {"?k": {"state": p}}, {"?b": {"buffer": q}, "?d": {"state": q}, "?e": {"state": q}, "?h": {"state": r}, "?i": {"state": r}},
                    {"~b": None, "!d": c, "=e": c, "?h": c}, {"~g": None}, {}, None)


def case_dropped_expected(rules, p, q, r, c):
    yield {"?k": {"state": p}, "?e": {"state": q}, "?h": {"state": r}, "?i": {"state": r}}
    yield {"~g": None, "~b": None, "!d": c, "=e": chunks.Chunk(c.typename, **c._asdict()), "?h": c}


def case_actions(rules, c, d, f, retrieval):
    yield from case(rules, {"=x": c}, {}, {"~a": None, "!b": c, "?h": f, "=k": d, "+retrieval": c}, {"!c": d, "~b": None}, {}, "retrieval")


def case_actions_expected(rules, c, d, f, retrieval):
    yield {"=x": c}
    yield {"!c": d, "~b": None, "~a": None, "?h": f, "=k": chunks.Chunk(d.typename, **d._asdict())}
