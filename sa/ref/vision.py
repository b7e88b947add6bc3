"""What the visual modules must do (read by the analyser, never run)."""
import collections
import math

import numpy as np

from pyactr import buffers, chunks, utilities
from pyactr.utilities import ACTRError
from pyactr.vision import chunk_from_stimulus


def shift(self, otherchunk, harvest=None, actrvariables=None, model_parameters=None):
    parameters = {} if model_parameters == None else model_parameters
    parameters = parameters.copy()
    parameters.update(self.model_parameters)
    bound = {} if actrvariables == None else actrvariables
    try:
        request = {slot: utilities.check_bound_vars(bound, val) for slot, val in otherchunk.removeunused()}
    except ACTRError:
        raise ACTRError("")
    vis_delay = None
    stim = None
    for each in self.environment.stimulus:
        try:
            there = (float(request["screen_pos"].values.screen_x.values), float(request["screen_pos"].values.screen_y.values))
            if self.environment.stimulus[each]["position"] == there:
                vis_delay = self.environment.stimulus[each].get("vis_delay")
                stim = self.environment.stimulus[each].copy()
                stim.update({"cmd": request["cmd"]})
        except (AttributeError, KeyError):
            raise ACTRError("")
    if stim is None:
        raise ACTRError("")
    seen = chunk_from_stimulus(stim, "visual", position=False)
    x = float(seen.screen_pos.values.screen_x.values)
    y = float(seen.screen_pos.values.screen_y.values)
    if parameters["emma"]:
        angle = utilities.calculate_visual_angle(self.environment.current_focus, [x, y], self.environment.size, self.environment.simulated_screen_size, self.environment.viewing_distance)
        encoding = utilities.calculate_delay_visual_attention(angle_distance=angle, K=parameters["eye_mvt_scaling_parameter"], k=parameters["eye_mvt_angle_parameter"], emma_noise=parameters["emma_noise"], vis_delay=vis_delay)
        preparation = utilities.calculate_preparation_time(emma_noise=parameters["emma_noise"])
        execution = utilities.calculate_execution_time(angle, emma_noise=parameters["emma_noise"])
        site = utilities.calculate_landing_site([x, y], angle, emma_landing_site_noise=parameters["emma_landing_site_noise"])
        return seen, (encoding, preparation, execution), site
    return seen, (0.085, 0, 0.085), (x, y)


def automatic_buffering(self, stim, model_parameters):
    parameters = model_parameters.copy()
    parameters.update(self.model_parameters)
    seen = chunk_from_stimulus(stim, "visual", position=False)
    if seen:
        angle = 2 * utilities.calculate_visual_angle(self.environment.current_focus, (stim["position"][0], stim["position"][1]), self.environment.size, self.environment.simulated_screen_size, self.environment.viewing_distance)
        encoding = utilities.calculate_delay_visual_attention(angle_distance=angle, K=parameters["eye_mvt_scaling_parameter"], k=parameters["eye_mvt_angle_parameter"], emma_noise=parameters["emma_noise"], vis_delay=stim.get("vis_delay"))
    return seen, encoding


def move_eye(self, position):
    self.environment.current_focus = [int(position[0]), int(position[1])]
    self.current_focus = self.environment.current_focus


def stop_automatic_buffering(self):
    self.attend_automatic = False


def calculate_visual_angle(start_position, final_position, screen_size, simulated_screen_size, viewing_distance):
    start, final = list(start_position), list(final_position)
    dx = float(final[0]) - float(start[0])
    dy = float(final[1]) - float(start[1])
    pixels = math.sqrt(dx ** 2 + dy ** 2)
    return math.atan2(pixels / (float(screen_size[0]) / float(simulated_screen_size[0])), viewing_distance)


def calculate_distance(angle_degree, screen_size, simulated_screen_size, viewing_distance):
    return float(screen_size[0]) / float(simulated_screen_size[0]) * math.tan(angle_degree * math.pi / 180) * viewing_distance


def calculate_pythagorean_distance(x, y):
    x, y = list(x), list(y)
    return math.sqrt((float(x[0]) - float(y[0])) ** 2 + (float(x[1]) - float(y[1])) ** 2)


def calculate_onedimensional_distance(x, y, horizontal=True):
    x, y = list(x), list(y)
    if horizontal:
        return abs(float(x[0]) - float(y[0]))
    return abs(float(x[1]) - float(y[1]))


def calculate_delay_visual_attention(angle_distance, K, k, emma_noise, vis_delay=None):
    delay = K * float(vis_delay) * math.exp(k * float(angle_distance)) if vis_delay else 0
    return np.random.gamma(shape=9, scale=delay / 9) if emma_noise else delay


def calculate_preparation_time(emma_noise):
    return np.random.gamma(shape=9, scale=0.135 / 9) if emma_noise else 0.135


def calculate_execution_time(angle_distance, emma_noise):
    time = 0.07 + 0.002 * (180 * angle_distance / math.pi)
    return np.random.gamma(shape=9, scale=time / 9) if emma_noise else time


def calculate_landing_site(position, angle_distance, emma_landing_site_noise):
    position = list(position)
    position[0], position[1] = float(position[0]), float(position[1])
    degrees = 180 * angle_distance / math.pi
    if emma_landing_site_noise and degrees:
        return tuple(np.random.multivariate_normal(position, [[0.1 * degrees, 0], [0, 0.1 * degrees]]))
    return tuple(position)


def find(self, otherchunk, actrvariables=None, extra_tests=None):
    tests = {} if extra_tests == None else extra_tests
    bound = {} if actrvariables == None else actrvariables
    try:
        request = {slot: utilities.check_bound_vars(bound, val, negative_impossible=False) for slot, val in otherchunk.removeunused()}
    except ACTRError:
        raise ACTRError("")
    wanted = chunks.Chunk(utilities.VISUALLOCATION, **request)
    found = None
    found_stim = None
    closest = float("inf")
    x_closest = float("inf")
    y_closest = float("inf")
    current_x = None
    current_y = None
    for each in self.environment.stimulus:
        stim = self.environment.stimulus[each]
        try:
            if tests["attended"] == False or tests["attended"] == "False":
                if self.finst and stim in self.recent:
                    continue
            elif self.finst and stim not in self.recent:
                continue
        except KeyError:
            pass
        if wanted.value != wanted.EmptyValue() and wanted.value.values != stim["text"]:
            continue
        position = (int(stim["position"][0]), int(stim["position"][1]))
        try:
            if wanted.screen_x.values and int(wanted.screen_x.values) != position[0]:
                continue
        except (TypeError, ValueError, AttributeError):
            pass
        try:
            if wanted.screen_y.values and int(wanted.screen_y.values) != position[1]:
                continue
        except (TypeError, ValueError, AttributeError):
            pass
        try:
            if wanted.screen_x.values[0] == "<" and int(wanted.screen_x.values[1:]) <= position[0]:
                continue
            elif wanted.screen_x.values[0] == ">" and int(wanted.screen_x.values[1:]) >= position[0]:
                continue
        except (TypeError, IndexError, AttributeError):
            pass
        try:
            if wanted.screen_y.values[0] == "<" and int(wanted.screen_y.values[1:]) <= position[1]:
                continue
            elif wanted.screen_y.values[0] == ">" and int(wanted.screen_y.values[1:]) >= position[1]:
                continue
        except (TypeError, IndexError, AttributeError):
            pass
        try:
            if wanted.screen_x.values == "lowest" and current_x != None and position[0] > current_x:
                continue
            elif wanted.screen_x.values == "highest" and current_x != None and position[0] < current_x:
                continue
        except (TypeError, AttributeError):
            pass
        try:
            if wanted.screen_y.values == "lowest" and current_y != None and position[1] > current_y:
                continue
            elif wanted.screen_y.values == "highest" and current_y != None and position[1] < current_y:
                continue
        except (TypeError, AttributeError):
            pass
        try:
            if (wanted.screen_x.values == "closest" or wanted.screen_y.values == "closest") \
                    and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
                continue
        except (TypeError, AttributeError):
            pass
        try:
            if wanted.screen_x.values == "onewayclosest" and utilities.calculate_onedimensional_distance(self.environment.current_focus, position, horizontal=True) > x_closest:
                continue
        except (TypeError, AttributeError):
            pass
        try:
            if wanted.screen_y.values == "onewayclosest" and utilities.calculate_onedimensional_distance(self.environment.current_focus, position, horizontal=False) > y_closest:
                continue
        except (TypeError, AttributeError):
            pass
        visible = chunk_from_stimulus(stim, "visual_location", position=False)
        if visible <= wanted:
            found_stim = stim
            found = chunk_from_stimulus(stim, "visual_location", position=True)
            current_x = position[0]
            current_y = position[1]
            closest = utilities.calculate_pythagorean_distance(self.environment.current_focus, position)
            x_closest = utilities.calculate_onedimensional_distance(self.environment.current_focus, position, horizontal=True)
            y_closest = utilities.calculate_onedimensional_distance(self.environment.current_focus, position, horizontal=False)
    return found, found_stim


def location_search(self, stim):
    new_chunk = None
    found = None
    closest = float("inf")
    for st in stim:
        if st in self.recent:
            continue
        try:
            if utilities.calculate_pythagorean_distance(self.environment.current_focus, st["position"]) > closest:
                continue
        except TypeError:
            pass
        closest = utilities.calculate_pythagorean_distance(self.environment.current_focus, st["position"])
        new_chunk = chunk_from_stimulus(st, "visual_location")
        found = st
    return new_chunk, found


def remember(self, found_stim):
    if self.finst and found_stim:
        self.recent.append(found_stim)
        if self.finst < len(self.recent):
            self.recent.popleft()


def location_add(self, elem, found_stim, time=0, harvest=None):
    self.clear(time, harvest)
    buffers.Buffer.add(self, elem)
    remember(self, found_stim)


def location_modify(self, otherchunk, found_stim, actrvariables=None):
    buffers.Buffer.modify(self, otherchunk, actrvariables)
    remember(self, found_stim)


def stimulus_chunk(stimulus, buffer_name, position=True):
    if buffer_name == "visual_location":
        typename = stimulus.get("visual_location_typename", utilities.VISUALLOCATION)
        listed = []
        try:
            listed += stimulus.get("externally_visible", [])
        except AttributeError:
            raise ValueError("a list of names")
        shown = {key: stimulus[key] for key in stimulus if key in listed}
    elif buffer_name == "visual":
        typename = stimulus.get("visual_typename", utilities.VISUAL)
        shown = {key: stimulus[key] for key in stimulus
                 if key not in ["text", "position", "vis_delay", "visual_location_typename", "visual_typename", "externally_visible"]}
    else:
        raise ValueError("a visual buffer")
    if position:
        shown["screen_x"] = int(stimulus["position"][0])
        shown["screen_y"] = int(stimulus["position"][1])
    if buffer_name == "visual":
        shown["screen_pos"] = chunk_from_stimulus(stimulus, "visual_location")
        shown["value"] = stimulus.get("text", "")
    return chunks.Chunk(typename, **shown)
