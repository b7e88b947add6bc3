"""Harvesting: what leaves a buffer goes to memory (read by the analyser, never run)."""
from pyactr.buffers import Buffer


def clear(self, time=0, harvest=None):
    if harvest is not None:
        memory = harvest
    else:
        memory = self.dm
    if self._data:
        memory.add(self._data.pop(), time)


def clear_own(self, time=0):
    memory = self.dm
    if self._data:
        memory.add(self._data.pop(), time)


def add_own(self, elem, time=0):
    self.clear(time)
    Buffer.add(self, elem)


def add_location(self, elem, found_stim, time=0, harvest=None):
    self.clear(time, harvest)
    Buffer.add(self, elem)


def add_visual(self, elem, time=0, harvest=None):
    self.clear(time, harvest)
    Buffer.add(self, elem)


def strict(self, RHSdictionary, time, kept):
    """Buffers to clear: tested ones (bound by name) that no action mentions."""
    for key in kept:
        name = key[1:]
        if name in self.buffers:
            self.procs.append((name, self.clear(name, self.buffers[name], None, self._ProductionRules__actrvariables, time)))
