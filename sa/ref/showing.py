"""What buffers answer, and what the texts of things show (read by the analyser, never run)."""
from pyactr import utilities
from pyactr import chunks as package


def contains(self, elem):
    return elem in self._data


def iterate(self):
    for elem in self._data:
        yield elem


def length(self):
    return len(self._data)


def buffer_text(self):
    return repr(self._data)


def discard(self, elem):
    self._data.discard(elem)


def full_or_empty(self, inquiry):
    if self._data:
        return inquiry == "full"
    return inquiry == "empty"


def state_is(self, state, inquiry):
    return getattr(self, state) == inquiry


def show(self, attr):
    chunk = self._data.copy().pop() if self._data else None
    try:
        print(str(attr) + " " + str(getattr(chunk, attr)))
    except AttributeError:
        print(attr)


def show_next(self, attr):
    chunk = next(iter(self._data)) if self._data else None
    try:
        print(str(attr) + " " + str(getattr(chunk, attr)))
    except AttributeError:
        print(attr)


def show_first(self, attr):
    chunk = list(self._data)[0] if self._data else None
    try:
        print(str(attr) + " " + str(getattr(chunk, attr)))
    except AttributeError:
        print(attr)


def show_last(self, attr):
    chunk = None
    for held in self._data:
        chunk = held
    try:
        print(str(attr) + " " + str(getattr(chunk, attr)))
    except AttributeError:
        print(attr)


def varval_text(self):
    text = str(self.values) if self.values else ""
    if self.variables:
        text = text + "=" + str(self.variables)
    for sign, excluded in (("~", self.negvalues), ("~=", self.negvariables)):
        if excluded:
            if isinstance(excluded, str):
                text = text + sign + excluded
            else:
                for each in excluded:
                    text = text + sign + str(each)
    return text


def chunk_text(self):
    text = ""
    for slot, value in self:
        if isinstance(value, utilities.VarvalClass):
            value = str(value)
        elif isinstance(value, self.EmptyValue):
            value = ""
        if text:
            text = text + ", " + f"{slot}= {value}"
        elif slot:
            text = f"{slot}= {value}"
        else:
            text = value
    return self.typename + "(" + text + ")"


def empty_text(self):
    return repr(self.value)


def production_text(self):
    production = self["rule"]()
    text = f"{next(production)}\n==>\n{next(production)}"
    if self["utility"]:
        text = text + f"\nUtility: {self['utility']}\n"
    if self["reward"]:
        text = text + f"Reward: {self['reward']}\n"
    return text


def rules_text(self):
    text = ""
    for name in self.rules:
        text = f"{text}{name}{self.rules[name]}\n"
    return text
