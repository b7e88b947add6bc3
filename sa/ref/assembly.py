"""How buffers and models are made (read by the analyser, never run)."""
import collections
import collections.abc
from pyactr import declarative, goals, productions, vision
from pyactr.utilities import ACTRError


def set_memory(self, value):
    if value and not isinstance(value, collections.abc.MutableMapping):
        raise ValueError("not a memory")
    self._Buffer__dm = value


def get_memory(self):
    return self._Buffer__dm


def set_harvest(self, value):
    if value and not isinstance(value, collections.abc.MutableMapping):
        raise ACTRError("not a memory")
    self._Buffer__dm = value


def set_finst(self, value):
    if not value >= 0:
        raise ValueError("negative")
    self._VisualLocation__finst = value


def get_finst(self):
    return self._VisualLocation__finst


def set_finst_dm(self, value):
    if not value >= 0:
        raise ValueError("negative")
    self._DecMemBuffer__finst = value


def get_finst_dm(self):
    return self._DecMemBuffer__finst


def set_delay(self, value):
    if not value >= 0:
        raise ValueError("negative")
    self._Goal__delay = value


def get_delay(self):
    return self._Goal__delay


def made(self, dm=None, data=None):
    set_memory(self, dm)
    self.state = "free"
    self._data = set() if data == None else data
    assert len(self._data) <= 1


def made_goal(self, data=None, default_harvest=None, delay=0):
    made(self, default_harvest, data)
    set_delay(self, delay)


def made_retrieval(self, decmem=None, data=None, finst=0):
    made(self, decmem, data)
    self.recent = collections.deque()
    self._DecMemBuffer__finst = finst
    self.activation = None
    self.similarities = {}
    self.model_parameters = {}


def made_location(self, environment, default_harvest=None, finst=4):
    made(self, default_harvest, None)
    self.environment = environment
    self.recent = collections.deque()
    set_finst(self, finst)


def made_visual(self, environment, default_harvest=None):
    made(self, default_harvest, None)
    self.environment = environment
    self.current_focus = environment.current_focus
    self.preparation = "free"
    self.processor = "free"
    self.execution = "free"
    self.autoattending = "free"
    self.attend_automatic = True
    self.last_mvt = 0
    self.model_parameters = {}


def made_motor(self):
    made(self, None, None)
    self.preparation = "free"
    self.processor = "free"
    self.execution = "free"
    self.last_key = [None, 0]


def stop_attending(self):
    self.attend_automatic = False


def copy_goal(self, harvest=None):
    return goals.Goal(self._data.copy(), self._Buffer__dm if harvest == None else harvest, self.delay)


def copy_retrieval(self, dm=None):
    if dm == None and self._Buffer__dm != None:
        dm = self._Buffer__dm.copy()
    return declarative.DecMemBuffer(dm, self._data.copy(), self._DecMemBuffer__finst)


def only_retrieval(self):
    if len(self.retrievals) != 1:
        raise ValueError("not one")
    return list(self.retrievals.values())[0]


def only_memory(self):
    if len(self.decmems) != 1:
        raise ValueError("not one")
    return list(self.decmems.values())[0]


def only_goal(self):
    if len(self.goals) != 1:
        raise ValueError("not one")
    return list(self.goals.values())[0]


def set_retrieval(self, name):
    if not isinstance(name, str):
        raise ValueError("a name")
    new = declarative.DecMemBuffer()
    self._ACTRModel__buffers[name] = new
    self.retrievals[name] = new
    return new


def name_retrieval(self, name):
    set_retrieval(self, name)


def set_goal(self, name, delay=0):
    if not isinstance(name, str):
        raise ValueError("a name")
    new = goals.Goal(delay=delay)
    self._ACTRModel__buffers[name] = new
    self.goals[name] = new
    return new


def name_goal(self, name):
    set_goal(self, name, 0)


def set_memory_of(self, data=None):
    new = declarative.DecMem(data)
    if len(self.decmems) > 1:
        self.decmems["decmem" + str(len(self.decmems))] = new
    else:
        self.decmems["decmem"] = new
    return new


def name_memory(self, data):
    set_memory_of(self, data)


def visual_buffers(self, name_visual, name_visual_location, default_harvest=None, finst=4):
    what = vision.Visual(self._ACTRModel__env, default_harvest)
    place = vision.VisualLocation(self._ACTRModel__env, default_harvest, finst)
    self.visbuffers[name_visual] = what
    self.visbuffers[name_visual_location] = place
    return what, place


def status(self, state, inquiry):
    return getattr(self, state) == inquiry


def rules_of(self, *rules):
    self.productions = productions.Productions(*rules)
    return self.productions
