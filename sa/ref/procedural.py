"""The cycle of the procedural module (read by the analyser, never run)."""
from pyactr import utilities
from pyactr.utilities import ACTRError, Event, roundtime
from pyactr.productions import ProductionRules


def procedural_process(self, start_time=0):
    time = start_time
    self.procs.append(self._PROCEDURAL)
    self._ProductionRules__actrvariables = {}
    yield Event(roundtime(time), self._PROCEDURAL, "CONFLICT RESOLUTION")
    best = float("-inf")
    chosen = None
    self.extra_tests = {}
    self.last_rule_slotvals = self.current_slotvals.copy()
    self.ordered_rulenames = sorted((x for x in self.ordered_rulenames if x in self.rules), key=lambda x: self.rules[x]["utility"], reverse=True)
    for name in self.ordered_rulenames:
        self.used_rulename = name
        production = self.rules[name]["rule"]()
        utility = self.rules[name]["utility"]
        conditions = next(production)
        if self.model_parameters["subsymbolic"]:
            utility = utility + utilities.calculate_instantaneous_noise(self.model_parameters["utility_noise"])
        if best <= utility and ProductionRules.LHStest(self, conditions, self._ProductionRules__actrvariables.copy()):
            best = utility
            chosen = name
            if not self.model_parameters["subsymbolic"] or not self.model_parameters["utility_noise"]:
                break
    if not chosen:
        self.procs.remove(self._PROCEDURAL)
        yield Event(roundtime(time), self._PROCEDURAL, "NO RULE FOUND")
        yield self.procs
        return
    self.used_rulename = chosen
    production = self.rules[chosen]["rule"]()
    self.rules.used_rulenames.setdefault(chosen, []).append(time)
    yield Event(roundtime(time), self._PROCEDURAL, f"RULE SELECTED: {chosen}")
    time = time + self.model_parameters["rule_firing"]
    yield Event(roundtime(time), self._PROCEDURAL, self._UNKNOWN)
    conditions = next(production)
    if not ProductionRules.LHStest(self, conditions, self._ProductionRules__actrvariables.copy(), True):
        yield Event(roundtime(time), self._PROCEDURAL, f"RULE STOPPED FROM FIRING: {chosen}")
    else:
        if self.model_parameters["utility_learning"] and self.rules[chosen]["reward"] is not None:
            utilities.modify_utilities(time, self.rules[chosen]["reward"], self.rules.used_rulenames, self.rules, self.model_parameters)
            self.rules.used_rulenames = {}
        compiled, how = ProductionRules.compile_rules(self)
        self.compile = []
        if how:
            yield Event(roundtime(time), self._PROCEDURAL, f"RULE {how}: {compiled}")
        self.current_slotvals = {key: None for key in self.buffers}
        yield Event(roundtime(time), self._PROCEDURAL, f"RULE FIRED: {chosen}")
        try:
            yield from ProductionRules.update(self, next(production), time)
        except ACTRError:
            raise ACTRError("")
        if self.last_rule and self.last_rule != chosen:
            self.compile = [self.last_rule, chosen, self.last_rule_slotvals.copy()]
            self.last_rule_slotvals = {key: None for key in self.buffers}
        self.last_rule = chosen
    yield self.procs


def compile_rules(self):
    if not self.model_parameters["production_compilation"] or not self.compile:
        return None, None
    compiled, how = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
    if compiled:
        self.ordered_rulenames.append(compiled)
    return compiled, how


def init(self, rules, buffers, dm, model_parameters):
    self._ProductionRules__actrvariables = {}
    self.rules = rules
    self.ordered_rulenames = sorted(rules.keys(), key=lambda x: rules[x]["utility"], reverse=True)
    self.last_rule = None
    self.last_rule_slotvals = {key: None for key in buffers}
    self.current_slotvals = {key: None for key in buffers}
    self.compile = []
    self.buffers = buffers
    self.procs = []
    self.dm = dm
    self.env_interaction = set()
    self.model_parameters = model_parameters
