"""What the manual module must do (read by the analyser, never run)."""
from pyactr import chunks, utilities
from pyactr.utilities import ACTRError


def create(self, otherchunk, actrvariables=None):
    if actrvariables == None:
        actrvariables = {}
    try:
        request = {slot: utilities.check_bound_vars(actrvariables, val) for slot, val in otherchunk.removeunused()}
    except ACTRError:
        raise ACTRError("")
    asked = chunks.Chunk(self._MANUAL, **request)
    if "cmd" not in request or request["cmd"].values != utilities.CMDPRESSKEY:
        raise ACTRError("")
    try:
        key = asked.key.values.upper()
    except AttributeError:
        raise ACTRError("")
    request["key"] = key
    press = chunks.Chunk(self._MANUAL, **request)
    if key not in self.LEFT_HAND and press.key.values not in self.RIGHT_HAND:
        raise ACTRError("")
    return press


def create_checked_as_asked(self, otherchunk, actrvariables=None):
    if actrvariables == None:
        actrvariables = {}
    try:
        request = {slot: utilities.check_bound_vars(actrvariables, val) for slot, val in otherchunk.removeunused()}
    except ACTRError:
        raise ACTRError("")
    asked = chunks.Chunk(self._MANUAL, **request)
    if "cmd" not in request or request["cmd"].values != utilities.CMDPRESSKEY:
        raise ACTRError("")
    try:
        key = asked.key.values.upper()
    except AttributeError:
        raise ACTRError("")
    request["key"] = key
    press = chunks.Chunk(self._MANUAL, **request)
    if key not in self.LEFT_HAND and key not in self.RIGHT_HAND:
        raise ACTRError("")
    return press


def init(self):
    self.last_key = [None, 0]
