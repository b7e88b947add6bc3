"""What environments show (read by the analyser, never run)."""
import collections.abc
from pyactr import utilities
from pyactr.utilities import Event, ACTRError


def one(x):
    return isinstance(x, str) or not isinstance(x, collections.abc.Iterable)


def environment_process(self, stimuli=None, triggers=None, times=1, start_time=0):
    if one(stimuli) or isinstance(stimuli, collections.abc.Mapping):
        stimuli = [stimuli]
    for i in range(len(stimuli)):
        if not isinstance(stimuli[i], collections.abc.Mapping):
            stimuli[i] = {stimuli[i]: {"position": (320, 180)}}
        else:
            for key in stimuli[i]:
                if not isinstance(stimuli[i][key], collections.abc.Mapping):
                    raise ACTRError("stimuli")
    if one(triggers):
        triggers = [triggers]
    if one(times):
        times = [times]
    if len(stimuli) != len(triggers):
        if len(stimuli) == 1:
            stimuli = stimuli * len(triggers)
        elif len(triggers) == 1:
            triggers = triggers * len(stimuli)
        else:
            raise ACTRError("triggers")
    if len(stimuli) != len(times):
        if len(times) != 1:
            raise ACTRError("times")
        times = times * len(stimuli)
    self.stimuli = stimuli
    try:
        self.triggers = []
        for t in triggers:
            self.triggers.append({"SPACE"} if isinstance(t, str) and t.upper() == "SPACE" else {x.upper() for x in t})
    except (TypeError, AttributeError):
        raise ACTRError("triggers")
    self.times = times
    time = self.initial_time - start_time
    yield Event(utilities.roundtime(time), self._ENV, "STARTING ENVIRONMENT")
    for i, stimulus in enumerate(self.stimuli):
        self.run_time = self.times[i]
        self.trigger = self.triggers[i]
        time += self.times[i]
        self.output(stimulus)
        yield Event(utilities.roundtime(time), self._ENV, "PRINTED NEW STIMULUS")


def init(self, size=(640, 360), simulated_display_resolution=(1366, 768), simulated_screen_size=(50, 28), viewing_distance=50, focus_position=None):
    self.gui = True
    self.size = size
    try:
        if focus_position and len(focus_position) != 2:
            raise ACTRError("focus")
    except TypeError:
        raise ACTRError("focus")
    self._Environment__current_focus = list(focus_position) if focus_position else [size[0] / 2, size[1] / 2]
    self.stimuli = self.triggers = self.times = None
    self.stimulus = self.trigger = None
    self.simulated_display_resolution = simulated_display_resolution
    self.simulated_screen_size = simulated_screen_size
    self.viewing_distance = viewing_distance
    self.initial_time = 0


def focus(self, value):
    if not (isinstance(value, collections.abc.Iterable) and len(value) == 2):
        raise ValueError("two numbers")
    self._Environment__current_focus = list(value)


def output(self, stimulus):
    self.stimulus = stimulus
