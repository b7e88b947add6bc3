"""What declarative memory must do (read by the analyser, never run)."""
import collections
import collections.abc
import math
import warnings

import numpy as np

from pyactr import buffers, chunks, declarative, utilities
from pyactr.utilities import ACTRError


def retrieve(self, time, otherchunk, actrvariables, buffers, extra_tests, model_parameters):
    parameters = model_parameters.copy()
    parameters.update(self.model_parameters)
    bound = {} if actrvariables == None else actrvariables
    try:
        request = {slot: utilities.check_bound_vars(bound, val, negative_impossible=False) for slot, val in otherchunk.removeunused()}
    except ACTRError:
        raise ACTRError("")
    wanted = chunks.Chunk(otherchunk.typename, **request)
    wanted._similarities = self.similarities
    best = float("-inf")
    winner = None
    latency = None
    for chunk in self.dm:
        if "recently_retrieved" in extra_tests and self._DecMemBuffer__finst:
            fresh = extra_tests["recently_retrieved"] == False or extra_tests["recently_retrieved"] == "False"
            if fresh == (chunk in self.recent):
                continue
        if not parameters["subsymbolic"]:
            if wanted <= chunk and self.dm[chunk][0] != time:
                winner = chunk
                latency = 0
            continue
        penalty = 0
        if parameters["partial_matching"]:
            penalty = wanted.match(chunk, partialmatching=True, mismatch_penalty=parameters["mismatch_penalty"])
        elif not wanted <= chunk:
            continue
        try:
            base = utilities.baselevel_learning(time, self.dm[chunk], parameters["baselevel_learning"], parameters["decay"],
                                                self.dm.activations.get(chunk), optimized_learning=parameters["optimized_learning"])
        except UnboundLocalError:
            continue
        if math.isnan(base):
            raise ACTRError("")
        spread = utilities.spreading_activation(chunk, buffers, self.dm, parameters["buffer_spreading_activation"], parameters["strength_of_association"],
                                                parameters["spreading_activation_restricted"], parameters["association_only_from_chunks"])
        noise = utilities.calculate_instantaneous_noise(parameters["instantaneous_noise"])
        total = base + spread + penalty + noise
        if utilities.retrieval_success(total, parameters["retrieval_threshold"]) and best < total:
            best = total
            self.activation = total
            winner = chunk
            latency = utilities.retrieval_latency(total, parameters["latency_factor"], parameters["latency_exponent"])
            if parameters["activation_trace"]:
                print("(Partially) matching chunk:", chunk)
                print("Base level learning:", base)
                print("Spreading activation", spread)
                print("Partial matching", penalty)
                print("Noise:", noise)
                print("Total activation", total)
                print("Time to retrieve", latency)
    if not winner:
        if parameters["subsymbolic"]:
            latency = utilities.retrieval_latency(parameters["retrieval_threshold"], parameters["latency_factor"], parameters["latency_exponent"])
        else:
            latency = parameters["rule_firing"]
    if self._DecMemBuffer__finst:
        self.recent.append(winner)
        if self._DecMemBuffer__finst < len(self.recent):
            self.recent.popleft()
    return winner, latency


def retrieval_success(activation, threshold):
    return activation >= threshold


def retrieval_latency(activation, latency_factor, latency_exponent):
    return latency_factor * math.exp(-latency_exponent * activation)


def init_buffer(self, decmem=None, data=None, finst=0):
    buffers.Buffer.__init__(self, decmem, data)
    self.recent = collections.deque()
    self._DecMemBuffer__finst = finst


def finst(self):
    return self._DecMemBuffer__finst


def set_finst(self, value):
    if value < 0:
        raise ValueError("")
    self._DecMemBuffer__finst = value


# ---------------------------------------------------------------- equations
def base_level(current_time, times, bll, decay, activation=None, optimized_learning=False):
    if bll:
        if len(times) > 0:
            with warnings.catch_warnings(record=True):
                warnings.filterwarnings("error")
                if optimized_learning:
                    try:
                        B = math.log(len(times) / (1 - decay)) - decay * math.log(current_time - np.max(times))
                    except (RuntimeWarning, ValueError):
                        before = times[times < current_time]
                        if len(before) > 0:
                            B = math.log(len(before) / (1 - decay)) - decay * math.log(current_time - np.max(before))
                else:
                    try:
                        B = math.log(np.sum((current_time - times) ** (-decay)))
                    except RuntimeWarning:
                        before = times[times < current_time]
                        if len(before) > 0:
                            B = math.log(np.sum((current_time - before) ** (-decay)))
    else:
        B = 0
    if activation != None:
        try:
            B = math.log(math.exp(B) + math.exp(activation))
        except NameError:
            B = activation
    return B


def instantaneous_noise(instantaneous_noise):
    assert instantaneous_noise >= 0
    if instantaneous_noise == 0:
        return 0
    return np.random.logistic(0, instantaneous_noise, 1)[0]


# ---------------------------------------------------------------- spreading activation
def weigh_buffer(chunk, weight_k, only_chunks=True):
    sources = utilities.find_chunks(chunk, only_chunks)
    if len(sources) == 0:
        return 0
    return weight_k / len(sources)


def find_chunks(chunk, only_chunks=True):
    sources = {}
    for slot in chunk:
        try:
            val = utilities.splitting(slot[1]).values
        except AttributeError:
            continue
        if val != utilities.EMPTYVALUE and val != str(utilities.EMPTYVALUE) and (not only_chunks or not isinstance(val, str)):
            sources[slot[0]] = val
    return sources


def association(chunk, otherchunk, dm, strength_of_association, restricted="", only_chunks=True):
    found = utilities.find_chunks(otherchunk, only_chunks)
    if chunk != otherchunk and chunk not in found.values():
        return 0
    if restricted:
        if (restricted, chunk) not in found.items():
            return 0
        if (restricted, chunk) in dm.restricted_number_chunks:
            fan = dm.restricted_number_chunks[(restricted, chunk)]
        else:
            fan = 1
            for each in dm:
                for slot in each:
                    if slot[0] == restricted and utilities.splitting(slot[1]).values and chunk == utilities.splitting(slot[1]).values:
                        fan += 1
            dm.restricted_number_chunks.update({(restricted, chunk): fan})
    elif chunk in dm.unrestricted_number_chunks:
        fan = dm.unrestricted_number_chunks[chunk]
    else:
        fan = 1
        for each in dm:
            for slot in each:
                if utilities.splitting(slot[1]).values and chunk == utilities.splitting(slot[1]).values:
                    fan += 1
        dm.unrestricted_number_chunks.update({chunk: fan})
    occurrences = list(found.values()).count(chunk)
    return strength_of_association - math.log(fan / max(1, occurrences))


def spreading_activation(chunk, buffers, dm, buffer_spreading_activation, strength, restricted=False, only_chunks=True):
    total = 0
    for name in buffer_spreading_activation:
        try:
            held = list(buffers[name])[0]
        except IndexError:
            continue
        weight = utilities.weigh_buffer(held, buffer_spreading_activation[name], only_chunks)
        summed = 0
        for source in utilities.find_chunks(held, only_chunks).items():
            if restricted:
                summed += utilities.calculate_strength_association(source[1], chunk, dm, strength, source[0], only_chunks)
            else:
                summed += utilities.calculate_strength_association(source[1], chunk, dm, strength, only_chunks=only_chunks)
        total += weight * summed
    return total


# ---------------------------------------------------------------- the memory itself
def set_item(self, key, time):
    if key not in self:
        if self.unrestricted_number_chunks:
            for slot in key:
                val = utilities.splitting(slot[1]).values
                if val and val in self.unrestricted_number_chunks:
                    self.unrestricted_number_chunks.update([val])
        if self.restricted_number_chunks:
            for slot in key:
                val = utilities.splitting(slot[1]).values
                if val and (slot[0], val) in self.restricted_number_chunks:
                    self.restricted_number_chunks.update([(slot[0], val)])
    if not isinstance(key, chunks.Chunk):
        raise ACTRError("")
    if isinstance(time, np.ndarray):
        self._data[key] = time
    else:
        try:
            self._data[key] = np.array([round(float(time), 4)])
        except TypeError:
            self._data[key] = np.array(time)


def add(self, element, time=0):
    if isinstance(element, collections.abc.Hashable) and isinstance(element, collections.abc.Iterable) and not isinstance(element, (chunks.Chunk, str)):
        element = list(element)
    if isinstance(time, collections.abc.Iterable):
        try:
            self[element] = np.concatenate((self.setdefault(element, np.array([])), np.array(time)))
        except TypeError:
            for one in element:
                self[one] = np.concatenate((self.setdefault(one, np.array([])), np.array(time)))
    else:
        try:
            self[element] = np.append(self.setdefault(element, np.array([])), round(float(time), 4))
        except TypeError:
            for one in element:
                self[one] = np.append(self.setdefault(one, np.array([])), round(float(time), 4))


def del_item(self, key):
    del self._data[key]


def copy(self):
    dm = declarative.DecMem(self._data.copy())
    dm.activations = self.activations.copy()
    dm.restricted_number_chunks = self.restricted_number_chunks.copy()
    dm.unrestricted_number_chunks = self.unrestricted_number_chunks.copy()
    return dm


def init(self, data=None):
    self._data = {}
    self.restricted_number_chunks = collections.Counter()
    self.unrestricted_number_chunks = collections.Counter()
    self.activations = {}
    if data is not None:
        if isinstance(data, collections.abc.Mapping):
            self.update(data)
        else:
            self.update({chunk: 0 for chunk in data})


def contains(self, elem):
    return elem in self._data


def get_item(self, key):
    return self._data[key]


def iterate(self):
    for chunk in self._data:
        yield chunk


def length(self):
    return len(self._data)


def add_activation(self, element, activation):
    if element not in self:
        raise AttributeError("")
    self.activations[element] = activation


def set_decmem(self, data=None):
    return declarative.DecMem(data)
