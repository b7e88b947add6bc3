"""When rules are compiled (read by the analyser, never run)."""
import collections.abc
from pyactr import declarative, motor, utilities, vision
from pyactr.productions import Productions


def unsafe(self, first, second, buffers):
    one = self[first]["rule"]()
    next(one)
    actions = next(one)
    two = self[second]["rule"]()
    conditions = next(two)
    later = next(two)
    for key in actions:
        buff = key[1:]
        if key[0] == "+":
            for other in later:
                if other[0] == "+" and other[1:] == buff and buff not in {x for x in buffers.keys() if isinstance(buffers[x], declarative.DecMemBuffer)}:
                    return True
            if buff in {x for x in buffers.keys() if isinstance(buffers[x], motor.Motor)}:
                for other in later:
                    if other[0] == "+" and other[1:] == buff:
                        return True
                for other in conditions:
                    if other[0] == "?" and other[1:] == buff and conditions[other] != {"state": "busy"}:
                        return True
            elif buff in {x for x in buffers.keys() if isinstance(buffers[x], vision.VisualLocation) or isinstance(buffers[x], vision.Visual)}:
                for other in later:
                    if other[0] == "+" and other[1:] == buff:
                        return True
                for other in conditions:
                    if other[0] == "?" and other[1:] == buff and conditions[other] != {"state": "busy"}:
                        return True
                    elif other[0] == "=" and other[1:] == buff:
                        return True
            elif buff in {x for x in buffers.keys() if isinstance(buffers[x], declarative.DecMemBuffer)}:
                for other in conditions:
                    if other[0] == "?" and other[1:] == buff and conditions[other].get("state") == "error":
                        return True
    return False


def compile_rules(self, first, second, slotvals, buffers, model_parameters):
    slotvals = slotvals.copy()
    if Productions.__check_valid_compilation__(self, first, second, buffers):
        return False, False
    taken = set()
    retrieval = None
    for buff in slotvals:
        if slotvals[buff]:
            if isinstance(slotvals[buff], collections.abc.MutableSequence):
                retrieval = buff
                if buffers[buff]:
                    return False, False
            else:
                for slot in slotvals[buff]:
                    if slotvals[buff][slot] != None:
                        var = slotvals[buff][slot].variables
                        if var != None:
                            taken.add(var)
    two = Productions.__rename__(self, second, taken)
    generator = two["rule"]()
    conditions = next(generator)
    matched, valued = utilities.match(conditions, slotvals, first, second)
    if any(isinstance(slotvals[buff], collections.abc.MutableSequence) for buff in slotvals):
        return False, False
    one = Productions.__substitute__(self, self[first], matched, valued)
    two = Productions.__substitute__(self, two, matched, valued)
    for buff in slotvals:
        changed = {}
        if slotvals[buff]:
            for slot in slotvals[buff]:
                changed[slot] = utilities.make_chunkparts_with_new_vars(slotvals[buff][slot], matched, valued)
            slotvals[buff] = changed
    rule = Productions.__collapse__(self, one, two, slotvals, retrieval)
    i = 0
    how = "CREATED"
    while True:
        if i > 0:
            name = " ".join([str(first), "and", str(second), str(i)])
        else:
            name = " ".join([str(first), "and", str(second)])
        if self.__getitem__(name):
            old = self[name]["rule"]()
            new = rule["rule"]()
            if next(old) == next(new) and next(old) == next(new):
                how = "RE-CREATED"
                if model_parameters["utility_learning"]:
                    self[name]["utility"] = round(self[name]["utility"] + model_parameters["utility_alpha"] * (self[first]["utility"] - self[name]["utility"]), 4)
                break
            i += 1
        else:
            self[name] = rule
            break
    return name, how
