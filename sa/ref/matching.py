"""Pattern matching (read by the analyser, never run)."""
from pyactr import utilities


def match(self, otherchunk, partialmatching, mismatch_penalty=1):
    score = 0
    if self == otherchunk:
        return score if partialmatching else True
    for slot, condition in self:
        try:
            value = getattr(otherchunk.actrchunk, slot + "_")
        except AttributeError:
            value = None
        if isinstance(value, utilities.VarvalClass):
            value = value.values
        condition = utilities.splitting(condition)
        if condition.variables:
            name = condition.variables
            for excluded in self.boundvars.get("~=" + name, set()):
                if excluded == value:
                    if not partialmatching:
                        return False
                    score = score + utilities.get_similarity(self._similarities, excluded, value, mismatch_penalty)
            try:
                bound = self.boundvars["=" + name]
                if bound != value:
                    if not partialmatching:
                        return False
                    score = score + utilities.get_similarity(self._similarities, bound, value, mismatch_penalty)
            except KeyError:
                self.boundvars["=" + name] = value
        if condition.negvariables:
            for name in condition.negvariables:
                try:
                    bound = self.boundvars["=" + name]
                    if bound == value:
                        if not partialmatching:
                            return False
                        score = score + utilities.get_similarity(self._similarities, bound, value, mismatch_penalty)
                except KeyError:
                    pass
                self.boundvars.setdefault("~=" + name, set()).add(value)
        if condition.values:
            if condition.values is not None and condition.values != value:
                if not partialmatching:
                    return False
                score = score + utilities.get_similarity(self._similarities, condition.values, value, mismatch_penalty)
        if condition.negvalues:
            for refused in condition.negvalues:
                if refused == value or (refused in {self._Chunk__emptyvalue, "None"} and value == self._Chunk__emptyvalue):
                    if not partialmatching:
                        return False
                    score = score + utilities.get_similarity(self._similarities, refused, value, mismatch_penalty)
    if partialmatching:
        return score
    return True


def lt(self, otherchunk):
    return not self == otherchunk and self.match(otherchunk, partialmatching=False)


def le(self, otherchunk):
    return self == otherchunk or self.match(otherchunk, partialmatching=False)


def splitting(info):
    if info == utilities.EMPTYVALUE:
        return utilities.VarvalClass(variables=None, values=None, negvariables=(), negvalues=())
    return info


def get_similarity(d, val1, val2, mismatch_penalty=1):
    return d.get((val2, val1), -mismatch_penalty)
