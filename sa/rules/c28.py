"""The scheduler: events, waking of the rules, interruption, stepping."""
from .common import Config, written_only_in

S = "simulation.Simulation."
PROCESSES = {S + n for n in ("__procprocessGenerator__", "__extraprocessGenerator__", "__envGenerator__")}
CUT = {S + n for n in ("__activate__", "__printevent__", "__printenv__", "__localprocess__", "__envprocess__", "step", "__runGUI__")}
# what other processes may change while one waits
SHARED = {"triggered", "now", "current_event", "env_interaction", "trigger", "stimulus"} | {
    "_Simulation__" + n for n in ("procs_started", "interruptibles", "dict_extra_proc_activate", "environment_activate", "proc_activate")}
PARTS = (("__init__", "init", "which processes and locks a simulation starts with, and when its clock starts"),
         ("now", "now", "the time that is reported"),
         ("show_time", "show_time", "the time that is shown"),
         ("__activate__", "activate", "which events wake the procedural module"),
         ("__printevent__", "show_event", "which events become the current event and are printed"),
         ("__printenv__", "note_environment", "which environment events become the current event"),
         ("__localprocess__", "one_process", "events of a process take effect at their time, in order, until it ends or is interrupted"),
         ("__extraprocessGenerator__", "module", "a module runs the process requested of it, its second phase, and gives way when interrupted"),
         ("__procprocessGenerator__", "procedural", "the procedural module starts what rules requested, interrupts what is replaced, and looks again when woken"),
         ("run", "run", "running to a time limit"),
         ("step", "step", "stepping stops at the next visible event"),
         ("steps", "steps", "several steps"))


def config(part=None):
    return Config(cuts=(CUT | PROCESSES if part == "__init__" else CUT) - {S + str(part)}, impure=CUT | PROCESSES, volatile=SHARED, observe_calls=True,
                  attr_types={("simulation.Simulation", n): "nt:utilities.Event" for n in ("current_event", "_Simulation__last_event")})


def run(ck):
    ck.rule("every part of the scheduler agrees with its reference on every path; at each point where control is given up, what other processes may change is unknown afterwards")
    ck.rule("nothing but these parts sets the current event; a model's simulation is given the initial time")
    for m, r, what in PARTS:
        ck.compare(what, S + m, "ref_scheduling." + r, cfg=lambda m=m: config(m), catch=(), prints=m == "__printevent__")
    ck.compare("a simulation is made with the time, buffers and environment of the model", "model.ACTRModel.simulation", "ref_model.simulation", cls="model.ACTRModel",
               state=False, calls=lambda e: False)
    ck.part("who sets the current event", written_only_in, ck, "the current event is set only where it is checked", {S + n for n in ("__init__", "__printevent__", "__printenv__")}, attr="current_event")
