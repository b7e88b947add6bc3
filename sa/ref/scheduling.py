"""How simulations run (read by the analyser, never run)."""
import warnings
import simpy
from pyactr import simulation, utilities, vision
from pyactr.utilities import Event
from pyactr.simulation import Simulation


def now(self):
    return self._Simulation__simulation.now


def activate(self, event):
    if event.action != self._Simulation__pr._UNKNOWN and event.proc != self._Simulation__pr._PROCEDURAL:
        if not self._Simulation__proc_activate.triggered:
            self._Simulation__proc_activate.succeed()


def show_event(self, event):
    if event.action != self._Simulation__pr._UNKNOWN:
        self.current_event = event
        if self._Simulation__trace and not self.gui:
            print(event[0:3])


def note_environment(self, event):
    if event.action != self._Simulation__pr._UNKNOWN:
        self.current_event = event


def one_process(self, name, generator):
    while True:
        try:
            event = next(generator)
        except StopIteration:
            return
        if not isinstance(event, Event):
            return event
        try:
            yield self._Simulation__simulation.timeout(event.time - round(self._Simulation__simulation.now, 4))
        except simpy.Interrupt:
            return
        Simulation.__printevent__(self, event)
        Simulation.__activate__(self, event)
        try:
            if self._Simulation__env.trigger and self._Simulation__pr.env_interaction.intersection(self._Simulation__env.trigger):
                self._Simulation__environment_activate.succeed(value=(self._Simulation__env.trigger, self._Simulation__pr.env_interaction))
            self._Simulation__pr.env_interaction = set()
        except AttributeError:
            pass


def one_stimulus(self, event):
    try:
        yield self._Simulation__simulation.timeout(event.time - self._Simulation__simulation.now)
    except simpy.Interrupt:
        pass
    else:
        Simulation.__printenv__(self, event)
    finally:
        Simulation.__activate__(self, event)


def module(self, name):
    while True:
        try:
            _, proc = next(filter(lambda x: x[0] == name, self._Simulation__procs_started))
        except StopIteration:
            if name in self._Simulation__interruptibles:
                self._Simulation__interruptibles.pop(name)
            yield self._Simulation__dict_extra_proc_activate[name]
            self._Simulation__dict_extra_proc_activate[name] = self._Simulation__simulation.event()
        else:
            self._Simulation__procs_started.remove((name, proc))
            if not self._Simulation__dict_extra_proc_activate[name].triggered:
                self._Simulation__dict_extra_proc_activate[name].succeed()
            pro = self._Simulation__simulation.process(Simulation.__localprocess__(self, name, proc))
            try:
                cont = yield pro
            except simpy.Interrupt:
                if not pro.triggered:
                    warnings.warn(f"Process in {name} interrupted")
                    pro.interrupt()
            else:
                if cont:
                    pro = self._Simulation__simulation.process(Simulation.__localprocess__(self, name, cont))
                    try:
                        yield pro
                    except simpy.Interrupt:
                        pass


def procedural(self):
    pro = self._Simulation__simulation.process(Simulation.__localprocess__(self, self._Simulation__pr._PROCEDURAL, self._Simulation__pr.procedural_process(self._Simulation__simulation.now)))
    self._Simulation__procs_started = yield pro
    while True:
        try:
            self._Simulation__procs_started.remove(self._Simulation__pr._PROCEDURAL)
        except ValueError:
            yield self._Simulation__proc_activate
        else:
            for proc in self._Simulation__procs_started:
                name = proc[0]
                if not self._Simulation__dict_extra_proc_activate[name].triggered:
                    if proc[1].__name__ in self._Simulation__pr._INTERRUPTIBLE:
                        self._Simulation__interruptibles[name] = proc[1]
                    self._Simulation__dict_extra_proc_activate[name].succeed()
                elif name in self._Simulation__interruptibles and proc[1] != self._Simulation__interruptibles[name]:
                    self._Simulation__interruptibles[name] = proc[1]
                    self._Simulation__dict_extra_proc[name].interrupt()
        for _ in range(5):
            yield self._Simulation__simulation.timeout(0)
        pro = self._Simulation__simulation.process(Simulation.__localprocess__(self, self._Simulation__pr._PROCEDURAL, self._Simulation__pr.procedural_process(self._Simulation__simulation.now)))
        self._Simulation__procs_started = yield pro
        self._Simulation__proc_activate = self._Simulation__simulation.event()


def environment(self, ep, **kwargs):
    generator = ep(**kwargs)
    event = next(generator)
    while True:
        pro = self._Simulation__simulation.process(Simulation.__envprocess__(self, event))
        yield pro | self._Simulation__environment_activate
        if self._Simulation__environment_activate.triggered:
            self._Simulation__environment_activate = self._Simulation__simulation.event()
            pro.interrupt()
        try:
            event = next(generator)
        except StopIteration:
            break
        for name in self._Simulation__buffers:
            buff = self._Simulation__buffers[name]
            if isinstance(buff, vision.VisualLocation) and buff.environment == self._Simulation__env:
                proc = (name, self._Simulation__pr.automatic_search(name, buff, list(self._Simulation__env.stimulus.values()), self._Simulation__simulation.now))
            elif isinstance(buff, vision.Visual) and buff.environment == self._Simulation__env and buff.attend_automatic:
                proc = (name, self._Simulation__pr.automatic_buffering(name, buff, list(self._Simulation__env.stimulus.values()), self._Simulation__simulation.now))
            else:
                continue
            self._Simulation__procs_started.append(proc)
            if not self._Simulation__dict_extra_proc_activate[name].triggered:
                self._Simulation__interruptibles[name] = proc[1]
                self._Simulation__dict_extra_proc_activate[name].succeed()
            elif proc[1] != self._Simulation__interruptibles[name]:
                self._Simulation__interruptibles[name] = proc[1]
                self._Simulation__dict_extra_proc[name].interrupt()


def run(self, max_time=1):
    if not self.gui:
        self._Simulation__simulation.run(max_time)
    else:
        Simulation.__runGUI__(self)
    if self._Simulation__simulation.peek() == float("inf"):
        self._Simulation__pr.compile_rules()


def show_time(self):
    try:
        t = self._Simulation__simulation.now
    except AttributeError:
        raise AttributeError("No simulation is running")
    return t


def step(self):
    while True:
        self._Simulation__simulation.step()
        if self.current_event and self.current_event.action != self._UNKNOWN and self.current_event != self._Simulation__last_event:
            self._Simulation__last_event = self.current_event
            break
        if self._Simulation__simulation.peek() == float("inf"):
            self._Simulation__pr.compile_rules()


def steps(self, count):
    count = int(count)
    assert count > 0, "a positive number"
    for _ in range(count):
        Simulation.step(self)


def init(self, environment, realtime, trace, gui, buffers, used_productions, initial_time=0, environment_process=None, **kwargs):
    if gui:
        if not environment:
            warnings.warn("no environment")
            warnings.warn("no GUI")
        if not simulation.GUI:
            warnings.warn("no tkinter")
            warnings.warn("no GUI")
    self.gui = environment and gui and simulation.GUI
    start = round(initial_time, 4)
    self._Simulation__simulation = simpy.Environment(initial_time=start)
    self._Simulation__env = environment
    if environment:
        environment.gui = gui and simulation.GUI
    self._Simulation__realtime = realtime
    if realtime and not self.gui:
        self._Simulation__simulation = simpy.RealtimeEnvironment(initial_time=start)
    self._Simulation__trace = trace
    self._Simulation__buffers = buffers
    self._Simulation__pr = used_productions
    self._Simulation__simulation.process(Simulation.__procprocessGenerator__(self))
    self._Simulation__interruptibles = {}
    self._Simulation__dict_extra_proc_activate = {}
    self._Simulation__dict_extra_proc = {name: None for name in buffers}
    for name in self._Simulation__dict_extra_proc:
        if name != self._Simulation__pr._PROCEDURAL:
            self._Simulation__dict_extra_proc[name] = self._Simulation__simulation.process(Simulation.__extraprocessGenerator__(self, name))
            self._Simulation__dict_extra_proc_activate[name] = self._Simulation__simulation.event()
    self._Simulation__proc_activate = self._Simulation__simulation.event()
    self._Simulation__procs_started = []
    if self._Simulation__env:
        self._Simulation__proc_environment = self._Simulation__simulation.process(Simulation.__envGenerator__(self, ep=environment_process, **kwargs))
        self._Simulation__environment_activate = self._Simulation__simulation.event()
    self._Simulation__last_event = None
    self.current_event = None
