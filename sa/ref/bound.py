"""Values written by the right-hand side of a rule (read by the analyser, never run)."""
from pyactr import utilities
from pyactr.utilities import ACTRError


def check_bound_vars(actrvariables, elem, negative_impossible=True):
    parts = utilities.splitting(elem)
    value = None
    if parts.values:
        value = parts.values
    if parts.variables:
        if "=" + parts.variables not in actrvariables:
            raise ACTRError("not bound")
        bound = actrvariables["=" + parts.variables]
        if isinstance(bound, str) and (value and bound in {">", "<"} or value in {">", "<"}):
            value = "".join(sorted([bound, value], reverse=True))
        elif value and bound != value:
            raise ACTRError("two values")
        else:
            value = bound
    if negative_impossible and (parts.negvariables or parts.negvalues):
        raise ACTRError("negative")
    refused = set()
    if parts.negvariables:
        for name in parts.negvariables:
            if "=" + name not in actrvariables:
                raise ACTRError("not bound")
            refused.add(actrvariables["=" + name])
    if parts.negvalues:
        for text in parts.negvalues:
            refused.add(text)
    return utilities.VarvalClass(variables=None, values=value, negvariables=(), negvalues=tuple(refused))
