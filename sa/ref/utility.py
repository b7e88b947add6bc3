"""Utilities of rules and their learning (read by the analyser, never run)."""
import collections.abc
import inspect
from pyactr import utilities
from pyactr.productions import Production, Productions


def modify_utilities(time, reward, rulenames, rules, model_parameters):
    for name in rulenames:
        for selected in rulenames[name]:
            old = rules[name]["utility"]
            rules[name]["utility"] = round(old + model_parameters["utility_alpha"] * (reward - (time - selected) - old), 4)


def rule_init(self, rule, utility, reward):
    self.rule = {"rule": rule, "utility": utility, "reward": reward}
    self.utility = utility
    self.reward = reward


def rule_get(self, key):
    return self.rule[key]


def rule_set(self, key, value):
    assert key in {"rule", "utility", "reward"}, "only these"
    self.rule[key] = value


def rules_init(self, *rules):
    self.rules = {}
    for rule in rules:
        try:
            spec = inspect.getfullargspec(rule)
            utility = spec.defaults[0 - (len(spec.args) - spec.args.index("utility"))]
        except ValueError:
            utility = 0
        try:
            spec = inspect.getfullargspec(rule)
            reward = spec.defaults[0 - (len(spec.args) - spec.args.index("reward"))]
        except ValueError:
            reward = None
        self.update({rule.__name__: {"rule": rule, "utility": utility, "reward": reward}})
    self.used_rulenames = {}


def rules_set(self, key, value):
    if isinstance(value, collections.abc.MutableMapping):
        self.rules[key] = Production(**value)
    else:
        self.rules[key] = Production(rule=value["rule"], utility=0, reward=None)


def rules_get(self, key):
    return self.rules.get(key)


def rules_iter(self):
    for name in self.rules:
        yield name


def rules_len(self):
    return len(self.rules)


def rules_contains(self, name):
    return name in self.rules


def rules_delete(self, key):
    del self.rules[key]
