"""What the buffer operations must do (read by the analyser, never run)."""
from pyactr import chunks, utilities
from pyactr.buffers import Buffer


def add(self, elem):
    if isinstance(elem, chunks.Chunk):
        self._data = {elem}
    else:
        raise TypeError("not a chunk")


def modify(self, otherchunk, actrvariables=None):
    if actrvariables == None:
        actrvariables = {}
    try:
        new = {slot: utilities.check_bound_vars(actrvariables, val) for slot, val in otherchunk.removeunused()}
    except utilities.ACTRError:
        raise utilities.ACTRError("")
    held = self._data.pop()
    self._data.add(chunks.Chunk(otherchunk.typename, **{**{slot: val for slot, val in held}, **new}))


def modify_location(self, otherchunk, found_stim, actrvariables=None):
    Buffer.modify(self, otherchunk, actrvariables)


def modify_visual(self, otherchunk, actrvariables=None):
    Buffer.modify(self, otherchunk, actrvariables)


def goal_create(self, otherchunk, harvest=None, actrvariables=None):
    try:
        new = {slot: utilities.check_bound_vars(actrvariables, val) for slot, val in otherchunk.removeunused()}
    except utilities.ACTRError:
        raise utilities.ACTRError("")
    self._data = {chunks.Chunk(otherchunk.typename, **new)}
