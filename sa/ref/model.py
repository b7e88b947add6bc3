"""Putting a model together (read by the analyser, never run)."""
import copy
import pyparsing
from pyactr import chunks, declarative, goals, motor, productions, simulation as sim, utilities, vision
from pyactr.utilities import ACTRError


def init(self, environment=None, **model_parameters):
    self.chunktype = chunks.chunktype
    self.chunkstring = chunks.chunkstring
    self.visbuffers = {}
    goal = goals.Goal()
    retrieval = declarative.DecMemBuffer()
    self.goals = {"g": goal}
    self.retrievals = {"retrieval": retrieval}
    self._ACTRModel__buffers = {"g": goal, "retrieval": retrieval}
    self.decmems = {"decmem": declarative.DecMem()}
    self.productions = productions.Productions()
    self._ACTRModel__similarities = {}
    self.model_parameters = copy.deepcopy(self.MODEL_PARAMETERS)
    if not set(model_parameters.keys()).issubset(set(self.MODEL_PARAMETERS.keys())):
        unknown = set(model_parameters.keys()).difference(set(self.MODEL_PARAMETERS.keys()))
        raise ACTRError(f"Incorrect {unknown}")
    self.model_parameters.update(model_parameters)
    self._ACTRModel__env = environment


def set_similarities(self, chunk, otherchunk, value):
    if value > 0:
        raise ACTRError("not positive")
    self._ACTRModel__similarities[(chunk, otherchunk)] = value
    self._ACTRModel__similarities[(otherchunk, chunk)] = value


def simulation(self, realtime=False, trace=True, gui=True, initial_time=0, environment_process=None, **kwargs):
    if len(self.decmems) == 1:
        for key in self._ACTRModel__buffers:
            self._ACTRModel__buffers[key].dm = self.decmem
    elif len([x for x in self.decmems.values() if x]) == 1:
        for key in self._ACTRModel__buffers:
            if self._ACTRModel__buffers[key].dm == None:
                self._ACTRModel__buffers[key].dm = [x for x in self.decmems.values() if x][0]
    decmem = {name: self._ACTRModel__buffers[name].dm for name in self._ACTRModel__buffers if self._ACTRModel__buffers[name].dm != None}
    self._ACTRModel__buffers["manual"] = motor.Motor()
    if self._ACTRModel__env:
        self._ACTRModel__env.initial_time = initial_time
        if self.visbuffers:
            self._ACTRModel__buffers.update(self.visbuffers)
        else:
            dm = list(decmem.values())[0]
            self._ACTRModel__buffers["visual"] = vision.Visual(self._ACTRModel__env, dm)
            self._ACTRModel__buffers["visual_location"] = vision.VisualLocation(self._ACTRModel__env, dm)
    self.productions.used_rulenames = {}
    rules = productions.ProductionRules(self.productions, self._ACTRModel__buffers, decmem, self.model_parameters)
    for key in self._ACTRModel__buffers:
        if isinstance(self._ACTRModel__buffers[key], declarative.DecMemBuffer):
            self._ACTRModel__buffers[key].similarities = self._ACTRModel__similarities
    return sim.Simulation(self._ACTRModel__env, realtime, trace, gui, self._ACTRModel__buffers, rules, initial_time, environment_process, **kwargs)


def productionstring(self, name="", string="", utility=0, reward=None):
    if not name:
        name = "unnamedrule" + str(productions.Productions._undefinedrulecounter)
        productions.Productions._undefinedrulecounter += 1
    reader = utilities.getrule()
    try:
        rule = reader.parse_string(string, parse_all=True)
    except pyparsing.ParseException as e:
        raise ACTRError(f"{name} {e}")
    lhs, rhs = {}, {}

    def func():
        for part in rule[0]:
            key = part[0] + part[1]
            if part[0] == "?":
                lhs[key] = {x[0]: x[1] for x in part[3]}
            else:
                try:
                    kind, slots = chunks.createchunkdict(part[3])
                except ACTRError as e:
                    raise ACTRError(f"{name} {e}")
                lhs[key] = chunks.makechunk("", kind, **slots)
        yield lhs
        for part in rule[2]:
            key = part[0] + part[1]
            if part[0] == "?":
                rhs[key] = {x[0]: x[1] for x in part[3]}
            elif part[0] == "~":
                rhs[key] = None
            elif part[0] == "!":
                rhs[key] = part[3]
            else:
                try:
                    kind, slots = chunks.createchunkdict(part[3])
                except ACTRError as e:
                    raise ACTRError(f"{name} {e}")
                rhs[key] = chunks.makechunk("", kind, **slots)
        yield rhs
    self.productions.update({name: {"rule": func, "utility": utility, "reward": reward}})
    return self.productions[name]


def chunkstring(name="", string=""):
    reader = utilities.getchunk()
    chunk = reader.parse_string(string, parse_all=True)
    try:
        kind, slots = chunks.createchunkdict(chunk)
    except ACTRError as e:
        raise ACTRError(f"{string} {e}")
    return chunks.makechunk(name, kind, **slots)


def parts_of_rule(model, name, string, utility, reward):
    yield from model.productionstring(name, string, utility, reward)["rule"]()


def parts_of_rule_expected(model, name, string, utility, reward):
    yield from productionstring(model, name, string, utility, reward)["rule"]()
