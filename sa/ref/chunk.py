"""Chunks (read by the analyser, never run)."""
import collections
import collections.abc
import re
import warnings

from pyactr import utilities
from pyactr import chunks as package


class Driver:
    """One scenario: the class body of the package with a reference in place of a method."""


def chunk_hash(self):
    if self._Chunk__hash[0] and self.boundvars == self._Chunk__hash[1]:
        return self._Chunk__hash[0]

    def marks():
        for pair in self.removeempty():
            slot = pair[0]
            parts = utilities.splitting(pair[1])
            positive = set()
            negative = set()
            if parts.variables:
                name = parts.variables
                try:
                    positive.add(self.boundvars["=" + name])
                except KeyError:
                    yield (slot, ("variables", hash(name))) if slot else ("variables", hash(name))
            if parts.negvariables:
                for name in parts.negvariables:
                    try:
                        negative.add(self.boundvars["=" + name])
                    except KeyError:
                        yield (slot, ("negvariables", hash(name))) if slot else ("negvariables", hash(name))
            if parts.values != self._Chunk__emptyvalue:
                positive.add(parts.values)
            if positive:
                for value in positive:
                    yield (slot, ("values", hash(value))) if slot else ("values", hash(value))
            negative = negative | set(parts.negvalues)
            if negative:
                for value in negative:
                    yield (slot, ("negvalues", hash(value))) if slot else ("negvalues", hash(value))

    self._Chunk__hash = (hash(frozenset(marks())), self.boundvars.copy())
    return self._Chunk__hash[0]


def chunk_eq(self, otherchunk):
    return hash(self) == hash(otherchunk)


def removeempty(self):
    if not self._Chunk__empty:
        kept = []
        for pair in self:
            try:
                if pair[1].removeempty():
                    if pair[1] != self._Chunk__emptyvalue:
                        kept.append(pair)
            except AttributeError:
                try:
                    if pair[1].values != self._Chunk__emptyvalue or pair[1].variables or pair[1].negvariables or pair[1].negvalues:
                        kept.append(pair)
                except AttributeError:
                    pass
        self._Chunk__empty = tuple(kept)
    return self._Chunk__empty


def removeunused(self):
    if not self._Chunk__unused:
        kept = []
        for pair in self:
            try:
                if pair[1].removeunused():
                    if pair[1] != None:
                        kept.append(pair)
            except AttributeError:
                try:
                    if pair[1].values != None or pair[1].variables or pair[1].negvariables or pair[1].negvalues:
                        kept.append(pair)
                except AttributeError:
                    pass
        self._Chunk__unused = tuple(kept)
    return self._Chunk__unused


def chunk_asdict(self):
    slots = {}
    values = self.actrchunk._asdict()
    for name in values:
        slots[re.sub("_$", "", name)] = values[name]
    return slots


def getitem(self, pos):
    return (re.sub("_$", "", self.actrchunk._fields[pos]), self.actrchunk[pos])


def chunk_iter(self):
    for name, value in zip(self.actrchunk._fields, self.actrchunk):
        yield re.sub("_$", "", name), value


def chunk_len(self):
    return len(self.actrchunk)


def getattribute(self, name):
    if hasattr(self.actrchunk, name + "_"):
        return getattr(self.actrchunk, name + "_")
    raise AttributeError("")


def empty_eq(self, val):
    return val == None or val == "None"


def empty_hash(self):
    return hash(self.value)


def empty_new(self):
    self.value = None


def text_parts(info, empty=True):
    """What a text says: =x a variable, ~=x a negated variable, !x a value, ~!x a negated value; a text that says none of them is a value."""
    found = {"variables": set(re.findall("(?<=(?<!~)=).*?(?=$|~|!|=)", info)),
             "values": set(re.findall("(?<=(?<!~)!).*?(?=$|~|!|=)", info)),
             "negvariables": set(re.findall("(?<=~=).*?(?=$|~|!|=)", info)),
             "negvalues": set(re.findall("(?<=~!).*?(?=$|~|!|=)", info))}
    if not any(found.values()):
        found["values"] = {info}
    if len(found["values"]) > 1 or len(found["variables"]) > 1:
        raise utilities.ACTRError("")
    return found


def only_of(found):
    try:
        return found.pop()
    except KeyError:
        return None


def plain(text):
    """A value that is a text: at most one value, at most one variable."""
    found = text_parts(str(text))
    return utilities.VarvalClass(values=only_of(found["values"]), variables=only_of(found["variables"]),
                                 negvalues=tuple(found["negvalues"]), negvariables=tuple(found["negvariables"]))


def new_chunk(self, typename, **dictionary):
    self.typename = typename
    self.boundvars = {}
    slots = {}
    for slot in dictionary:
        value = dictionary[slot]
        if isinstance(value, package.Chunk):
            dictionary[slot] = utilities.VarvalClass(variables=None, values=value, negvariables=(), negvalues=())
        elif isinstance(value, utilities.VarvalClass):
            for part in value._fields:
                it = getattr(value, part)
                if part in {"values", "variables"}:
                    if not isinstance(it, str) and it != self._Chunk__emptyvalue and not isinstance(it, package.Chunk):
                        raise TypeError("")
                elif part in {"negvariables", "negvalues"}:
                    if not isinstance(it, collections.abc.Sequence) or isinstance(it, collections.abc.MutableSequence):
                        raise TypeError("")
        elif (isinstance(value, collections.abc.Iterable) and not isinstance(value, str)) or not isinstance(value, collections.abc.Hashable):
            raise ValueError("")
        else:
            dictionary[slot] = plain(value)
        slots[slot + "_"] = dictionary[slot]
    try:
        for slot in self._chunktypes[typename]._fields:
            if slot not in slots:
                slots[slot] = self._Chunk__emptyvalue
                dictionary[slot[:-1]] = self._Chunk__emptyvalue
        if set(self._chunktypes[typename]._fields) != set(slots.keys()):
            package.chunktype(typename, dictionary.keys())
            warnings.warn("")
    except KeyError:
        package.chunktype(typename, dictionary.keys())
        warnings.warn("")
    self.actrchunk = self._chunktypes[typename](**slots)
    self._Chunk__empty = None
    self._Chunk__unused = None
    self._Chunk__hash = (None, self.boundvars.copy())


def makechunk(nameofchunk="", typename="", **dictionary):
    name = nameofchunk if nameofchunk else "unnamedchunk"
    if not typename:
        typename = "undefined" + str(package.Chunk._undefinedchunktypecounter)
        package.Chunk._undefinedchunktypecounter = package.Chunk._undefinedchunktypecounter + 1
    for slot in dictionary:
        if not isinstance(dictionary[slot], package.Chunk) and not isinstance(dictionary[slot], utilities.VarvalClass):
            dictionary[slot] = plain(dictionary[slot])
    made = package.Chunk(typename, **dictionary)
    package.Chunk._chunks[name] = made
    return made


def createchunkdict(chunk):
    kinds = {"=": "variables", "~": "negvalues", "~=": "negvariables", "!": "values", "~!": "negvalues"}
    slots = {}
    for entry in chunk:
        parts = slots.get(entry[0], {"values": set(), "variables": set(), "negvalues": set(), "negvariables": set()})
        for idx in range(1, len(entry)):
            one = entry[idx]
            try:
                if one[0][0] == ">" or one[0][0] == "<":
                    if one[0][-1] == "=":
                        parts["variables"].add(one[1])
                        what = one[0][0]
                    else:
                        what = one[0] + one[1]
                    kind = "values"
                else:
                    quoted = one[1][0] == "'" or one[1][0] == '"'
                    kind = kinds[one[0]]
                    what = one[1][1:-1] if quoted else one[1]
            except (KeyError, IndexError):
                kind = "values"
                if one[0] == "'" or one[0] == '"':
                    what = one[1:-1]
                elif one in package.Chunk._chunks:
                    what = package.Chunk._chunks[one]
                else:
                    what = one
            parts[kind].add(what)
        slots[entry[0]] = parts
    for slot in slots:
        slots[slot]["negvalues"] = tuple(slots[slot]["negvalues"])
        slots[slot]["negvariables"] = tuple(slots[slot]["negvariables"])
        for kind in ["values", "variables"]:
            if len(slots[slot][kind]) > 1:
                raise utilities.ACTRError("")
            if len(slots[slot][kind]) == 1:
                slots[slot][kind] = slots[slot][kind].pop()
            else:
                slots[slot][kind] = None
        slots[slot] = utilities.VarvalClass(**slots[slot])
    name = ""
    for isa in ("isa", "ISA", "Isa"):
        if isa in slots:
            name = slots.pop(isa).values
    return name, slots


def chunktype(cls_name, field_names, defaults=None, include=None):
    if cls_name in utilities.SPECIALCHUNKTYPES and (field_names != utilities.SPECIALCHUNKTYPES[cls_name] or include):
        raise utilities.ACTRError("")
    try:
        field_names = field_names.replace(",", " ").split()
    except AttributeError:
        pass
    names = tuple(sorted(name + "_" for name in field_names))
    for name in names:
        if name == "ISA_" or name == "isa_":
            raise utilities.ACTRError("")
    if include:
        parents = [include] if isinstance(include, str) else include
        inherited = []
        for parent in parents:
            try:
                inherited = inherited + list(package.Chunk._chunktypes[parent]._fields)
            except KeyError:
                raise utilities.ACTRError("")
            names = tuple(sorted(set(names) | set(inherited)))
    try:
        package.Chunk._chunktypes[cls_name] = collections.namedtuple(cls_name, names, defaults=defaults)
    except TypeError:
        package.Chunk._chunktypes[cls_name] = collections.namedtuple(cls_name, names)
