"""Environments show their stimuli in order, with matching triggers."""
from .common import Config, written_only_in
from .c28 import config, S

E = "environment.Environment."


def run(ck):
    ck.rule("environment_process agrees with the reference on every path: how stimuli, triggers and times are made to correspond or refused, the order of stimuli, the trigger set and the end of each")
    ck.rule("the simulation waits for the end of the display or for the environment lock, which is released exactly when a pressed key is in the current trigger set, and has the visual buffers look at what is new")
    ck.compare("the stimuli, triggers and times shown", E + "environment_process", "ref_environment.environment_process", cls=E[:-1],
               cfg=lambda: Config(cuts={E + "output"}, impure={E + "output"}))
    ck.compare("what is shown", E + "output", "ref_environment.output", cls=E[:-1], calls=lambda e: False, keep=lambda k: k[1] is not None, catch=())
    ck.compare("a new environment", E + "__init__", "ref_environment.init", cls=E[:-1])
    ck.compare("moving the focus", E + "current_focus.setter", "ref_environment.focus", cls=E[:-1])
    for m, r, what in (("__envGenerator__", "environment", "one stimulus after the other, and what happens when it appears"),
                       ("__envprocess__", "one_stimulus", "the wait for the end of a stimulus"),
                       ("__localprocess__", "one_process", "a pressed key that is in the trigger set ends the display")):
        ck.compare(what, S + m, "ref_scheduling." + r, cfg=lambda m=m: config(m), catch=())
    ck.compare("an environment starts with the initial time of the simulation", "model.ACTRModel.simulation", "ref_model.simulation", cls="model.ACTRModel",
               keep=lambda k: k[1] == "initial_time", value=False, calls=lambda e: False)
    for a in ("trigger", "triggers", "times", "stimuli"):
        ck.part(f"who sets {a}", written_only_in, ck, f"{a} of an environment is set only where it is checked", {E + "__init__", E + "environment_process"}, attr=a)
