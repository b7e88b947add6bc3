"""What the module actions of a production rule must do (read by the analyser, never run)."""
import collections

from pyactr import chunks, goals, motor, utilities, vision
from pyactr.utilities import ACTRError, Event, roundtime
from pyactr.productions import ProductionRules


def extra_test(self, name, tested, test, temp_actrvariables, time):
    tested.state = tested._BUSY
    self.extra_tests[name] = test
    tested.state = tested._FREE
    yield Event(roundtime(time), name, "EXTRA TEST ADDED")


def clear(self, name, cleared, optional, temp_actrvariables, time, freeing=True):
    cleared.state = cleared._BUSY
    try:
        cleared.clear(time)
    except AttributeError:
        if len(self.dm) == 1:
            cleared.clear(time, list(self.dm.values())[0])
        elif optional:
            cleared.clear(time, self.dm[optional])
        else:
            try:
                cleared.clear(time, self.dm[name])
            except KeyError:
                raise ACTRError("")
    yield Event(roundtime(time), name, "CLEARED")
    if freeing:
        cleared.state = cleared._FREE


def execute(self, name, executed, executecommand, temp_actrvariables, time):
    executed.state = executed._BUSY
    for each in executecommand:
        try:
            getattr(executed, each[0])(*each[1])
        except TypeError:
            getattr(executed, each[0])(each[1])
    executed.state = executed._FREE
    yield Event(roundtime(time), name, "EXECUTED")


def slots_after(self, name, otherchunk):
    given = {slot: val for slot, val in otherchunk._asdict().items() if val != chunks.Chunk.EmptyValue()}
    production = self.rules[self.used_rulename]["rule"]()
    try:
        slots = next(production)[utilities._LHSCONVENTIONS_REVERSED["test"] + name]._asdict()
    except KeyError:
        slots = {}
    slots.update(given)
    return slots


def modify(self, name, modified, otherchunk, temp_actrvariables, time):
    modified.state = modified._BUSY
    if self.model_parameters["production_compilation"]:
        self.current_slotvals[name] = slots_after(self, name, otherchunk)
    modified.modify(otherchunk, temp_actrvariables)
    modified.state = modified._FREE
    yield Event(roundtime(time), name, "MODIFIED")


def modify_request(self, name, modified, otherchunk, temp_actrvariables, time):
    modified.state = modified._BUSY
    time = time + utilities.calculate_setting_time(modified)
    yield Event(roundtime(time), name, self._UNKNOWN)
    if self.model_parameters["production_compilation"]:
        self.current_slotvals[name] = slots_after(self, name, otherchunk)
    modified.modify(otherchunk, temp_actrvariables)
    modified.state = modified._FREE
    yield Event(roundtime(time), name, "MODIFIED")


def overwrite(self, name, updated, otherchunk, temp_actrvariables, time):
    updated.state = updated._BUSY
    time = time + utilities.calculate_setting_time(updated)
    yield Event(roundtime(time), name, self._UNKNOWN)
    if self.model_parameters["production_compilation"]:
        self.current_slotvals[name] = dict(otherchunk._asdict())
    updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
    created_elem = list(updated)[0]
    updated.state = updated._FREE
    yield Event(roundtime(time), name, f"WROTE A CHUNK: {str(created_elem)}")


def visualencode(self, name, visualbuffer, chunk, temp_actrvariables, time, extra_time, site):
    visualbuffer.state = visualbuffer._BUSY
    time = time + extra_time
    visualbuffer.current_focus = site
    yield from ProductionRules.clear(self, name, visualbuffer, None, temp_actrvariables, time, freeing=False)
    visualbuffer.add(chunk, time)
    visualbuffer.state = visualbuffer._FREE
    yield Event(roundtime(time), name, f"ENCODED VIS OBJECT:'{str(chunk)}'")


def set_goal(self, name, updated, otherchunk, temp_actrvariables, time):
    updated.state = updated._BUSY
    yield from ProductionRules.clear(self, name, updated, otherchunk, temp_actrvariables, time, freeing=False)
    time = time + utilities.calculate_setting_time(updated)
    yield Event(roundtime(time), name, self._UNKNOWN)
    if self.model_parameters["production_compilation"]:
        self.current_slotvals[name] = dict(otherchunk._asdict())
    updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
    created_elem = list(updated)[0]
    updated.state = updated._FREE
    yield Event(roundtime(time), name, f"CREATED A CHUNK: {str(created_elem)}")


def set_location(self, name, updated, otherchunk, temp_actrvariables, time):
    updated.state = updated._BUSY
    time = time + utilities.calculate_setting_time(updated)
    yield Event(roundtime(time), name, self._UNKNOWN)
    chunk, stim = updated.find(otherchunk, actrvariables=temp_actrvariables, extra_tests=self.extra_tests.get(name, {}))
    if chunk:
        yield from ProductionRules.clear(self, name, updated, None, temp_actrvariables, time, freeing=False)
        updated.add(chunk, stim, time)
        updated.state = updated._FREE
    else:
        updated.state = updated._ERROR
    yield Event(roundtime(time), name, f"ENCODED LOCATION:'{str(chunk)}'")


def set_visual(self, name, updated, otherchunk, temp_actrvariables, time):
    updated.state = updated._BUSY
    request = {slot: utilities.check_bound_vars(temp_actrvariables, val) for slot, val in otherchunk.removeunused()}
    if "cmd" not in request or not request["cmd"].values or request["cmd"].values not in utilities.CMDVISUAL:
        raise ACTRError("")
    if request["cmd"].values == utilities.CMDMOVEATTENTION:
        ret = yield from ProductionRules.visualshift(self, name, updated, otherchunk, temp_actrvariables, time)
        yield ret
    elif request["cmd"].values == utilities.CMDCLEAR:
        updated.stop_automatic_buffering()
        updated.state = updated._FREE
        yield Event(roundtime(time), name, "VISUAL STOPPED FROM AUTOMATIC BUFFERING AT ITS CURRENT FOCUS")
    else:
        updated.state = updated._FREE


def set_manual(self, name, updated, otherchunk, temp_actrvariables, time):
    updated.state = updated._BUSY
    ret = yield from ProductionRules.motorset(self, name, updated, otherchunk, temp_actrvariables, time)
    yield ret


def set_retrieval(self, name, updated, otherchunk, temp_actrvariables, time):
    updated.state = updated._BUSY
    yield from ProductionRules.retrieve(self, name, updated, otherchunk, temp_actrvariables, time)


def retrieve(self, name, retrieval, otherchunk, temp_actrvariables, time):
    yield Event(roundtime(time), name, "START RETRIEVAL")
    retrieved_elem, extra_time = retrieval.retrieve(time, otherchunk, temp_actrvariables, self.buffers, self.extra_tests.get(name, {}), self.model_parameters)
    time = time + extra_time
    yield Event(roundtime(time), name, self._UNKNOWN)
    if retrieved_elem:
        yield Event(roundtime(time), name, "CLEARED")
        retrieval.add(retrieved_elem, time)
        retrieval.state = retrieval._FREE
    else:
        retrieval.state = retrieval._ERROR
    if self.model_parameters["production_compilation"]:
        self.current_slotvals[name] = [{slot: val for slot, val in otherchunk._asdict().items() if val != chunks.Chunk.EmptyValue()}, retrieved_elem]
    yield Event(roundtime(time), name, f"RETRIEVED: {str(retrieved_elem)}")


def automatic_search(self, name, visualbuffer, stim, time):
    visualbuffer.state = visualbuffer._BUSY
    newchunk = None
    if self.model_parameters["automatic_visual_search"]:
        newchunk, stim = visualbuffer.automatic_search(stim)
    if newchunk:
        if visualbuffer:
            visualbuffer.modify(newchunk, stim)
        else:
            visualbuffer.add(newchunk, stim, time)
        visualbuffer.state = visualbuffer._FREE
        yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
    else:
        visualbuffer.state = visualbuffer._FREE
        yield Event(roundtime(time), name, self._UNKNOWN)


def automatic_buffering(self, name, visualbuffer, stim, time):
    visualbuffer.state = visualbuffer._BUSY
    visualbuffer.autoattending = visualbuffer._BUSY
    fovea = utilities.calculate_distance(1, visualbuffer.environment.size, visualbuffer.environment.simulated_screen_size, visualbuffer.environment.viewing_distance)
    focus = tuple(visualbuffer.current_focus)
    newchunk = None
    encoding = 0
    for st in stim:
        if st["position"][0] > focus[0] - fovea and st["position"][0] < focus[0] + fovea \
                and st["position"][1] > focus[1] - fovea and st["position"][1] < focus[1] + fovea:
            if (not visualbuffer) or list(visualbuffer)[0].value.values != st["text"]:
                newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
    time = time + encoding
    yield Event(roundtime(time), name, self._UNKNOWN)
    visualbuffer.state = visualbuffer._FREE
    visualbuffer.autoattending = visualbuffer._FREE
    if newchunk:
        if visualbuffer:
            visualbuffer.modify(newchunk)
        else:
            visualbuffer.add(newchunk, time)
        yield Event(roundtime(time), name, f"AUTOMATIC BUFFERING: {str(newchunk)}")


def visualshift(self, name, visualbuffer, otherchunk, temp_actrvariables, time):
    newchunk, extra_time, site = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
    encoding, preparation, execution = extra_time[0], extra_time[1], extra_time[2]
    visualbuffer.preparation = visualbuffer._BUSY
    visualbuffer.processor = visualbuffer._BUSY
    visualbuffer.state = visualbuffer._BUSY
    yield Event(roundtime(time), name, "PREPARATION TO SHIFT VISUAL ATTENTION STARTED")
    if encoding <= preparation:
        yield from ProductionRules.visualencode(self, name, visualbuffer, newchunk, temp_actrvariables, time, encoding, site)
    yield Event(roundtime(time + preparation), name, "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED")
    if encoding > preparation and encoding <= preparation + execution:
        yield from ProductionRules.visualencode(self, name, visualbuffer, newchunk, temp_actrvariables, time, encoding, site)
    yield ProductionRules.visualcontinue(self, name, visualbuffer, newchunk, temp_actrvariables, time + preparation, extra_time, site)


def visualcontinue(self, name, visualbuffer, otherchunk, temp_actrvariables, time, extra_time, landing_site):
    visualbuffer.preparation = visualbuffer._FREE
    visualbuffer.execution = visualbuffer._BUSY
    if visualbuffer.last_mvt > time:
        time = visualbuffer.last_mvt
    encoding, preparation, execution = extra_time[0], extra_time[1], extra_time[2]
    time = time + execution
    visualbuffer.last_mvt = time
    yield Event(roundtime(time), name, self._UNKNOWN)
    visualbuffer.move_eye(landing_site)
    yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
    if encoding > preparation + execution:
        newchunk, again, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
        left = (1 - (preparation + execution) / encoding) * again[0]
        yield from ProductionRules.visualencode(self, name, visualbuffer, otherchunk, temp_actrvariables, time, left, landing_site)
    visualbuffer.processor = visualbuffer._FREE
    visualbuffer.execution = visualbuffer._FREE
    visualbuffer.state = visualbuffer._FREE
    visualbuffer.attend_automatic = True


def motorset(self, name, motorbuffer, otherchunk, temp_actrvariables, time):
    newchunk = motorbuffer.create(otherchunk, temp_actrvariables)
    time_presses = None
    for elem in motorbuffer.TIME_PRESSES.keys():
        if str(newchunk.key) in elem:
            time_presses = motorbuffer.TIME_PRESSES[elem]
    if not time_presses:
        time_presses = motorbuffer.TIME_PRESSES[()]
    last = motorbuffer.last_key[0]
    preparation = time_presses[0]
    if newchunk.key == last or (self.model_parameters["motor_prepared"] and not last):
        preparation = 0
    elif last and (newchunk.key.values in motorbuffer.PRESSING) == (last.values in motorbuffer.PRESSING):
        if (newchunk.key.values in motorbuffer.LEFT_HAND) == (last.values in motorbuffer.LEFT_HAND):
            preparation = preparation - 0.1
        else:
            preparation = preparation - 0.05
    motorbuffer.state = motorbuffer._BUSY
    motorbuffer.preparation = motorbuffer._BUSY
    motorbuffer.processor = motorbuffer._BUSY
    yield Event(roundtime(time), name, f"COMMAND: {str(newchunk.cmd)}")
    time = time + preparation
    yield Event(roundtime(time), name, "PREPARATION COMPLETE")
    yield ProductionRules.motorcontinue(self, name, motorbuffer, newchunk, temp_actrvariables, time, time_presses)


def motorcontinue(self, name, motorbuffer, otherchunk, temp_actrvariables, time, time_presses):
    if motorbuffer.last_key[1]:
        time = motorbuffer.last_key[1]
    motorbuffer.preparation = motorbuffer._FREE
    motorbuffer.execution = motorbuffer._BUSY
    motorbuffer.last_key[0] = otherchunk.key
    time = time + time_presses[1]
    motorbuffer.last_key[1] = time + time_presses[2] + time_presses[3]
    yield Event(roundtime(time), name, "INITIATION COMPLETE")
    motorbuffer.processor = motorbuffer._FREE
    time = time + time_presses[2]
    yield Event(roundtime(time), name, self._UNKNOWN)
    self.env_interaction.add(otherchunk.key.values)
    yield Event(roundtime(time), name, f"KEY PRESSED: {str(otherchunk.key)}")
    time = time + time_presses[3]
    yield Event(roundtime(time), name, "MOVEMENT FINISHED")
    self.env_interaction.discard(otherchunk.key.values)
    motorbuffer.state = motorbuffer._FREE
    motorbuffer.execution = motorbuffer._FREE
    motorbuffer.last_key[1] = 0


def update(self, RHSdictionary, time):
    bound = dict(self._ProductionRules__actrvariables)
    rank = {"!": 0, "?": 0, "=": 1, "@": 2, "*": 3, "+": 4, "~": 5}
    try:
        ordered = collections.OrderedDict.fromkeys(sorted(RHSdictionary, key=lambda item: rank[item[0]]))
    except KeyError:
        raise ACTRError("")
    ordered.update(RHSdictionary)
    for key in ordered:
        name = key[1:]
        try:
            bound.pop("=" + name)
        except KeyError:
            pass
        buffer = self.buffers[name]
        production = getattr(self, self._RHSCONVENTIONS[key[0]])(name, buffer, ordered[key], self._ProductionRules__actrvariables, time)
        buffer.state = buffer._BUSY
        if production.__name__ in self._INTERRUPTIBLE:
            self.procs.append((name, production))
        else:
            yield from production
    if self.model_parameters["strict_harvesting"]:
        for key in bound:
            name = key[1:]
            if name in self.buffers:
                self.procs.append((name, ProductionRules.clear(self, name, self.buffers[name], None, self._ProductionRules__actrvariables, time)))


def LHStest(self, dictionary, actrvariables, update=False):
    for key in dictionary:
        name = key[1:]
        code = key[0]
        if code not in self._LHSCONVENTIONS:
            raise ACTRError("")
        result = getattr(self, self._LHSCONVENTIONS[code])(name, self.buffers.get(name), dictionary[key], actrvariables)
        if not result[0]:
            return False
        actrvariables.update(result[1])
    if update:
        self._ProductionRules__actrvariables = actrvariables
    return True


def test(self, submodule_name, tested, testchunk, temp_actrvariables):
    if not tested:
        return False, None
    variable = "=" + submodule_name
    held = list(self.buffers[submodule_name])[0]
    if variable in temp_actrvariables and held != temp_actrvariables[variable]:
        return False, None
    for chunk in tested:
        testchunk.boundvars = dict(temp_actrvariables)
        if testchunk <= chunk:
            new = dict(testchunk.boundvars)
            new[variable] = list(self.buffers[submodule_name])[0]
            return True, new
        return False, None


def query(self, submodule_name, tested, testdict, temp_actrvariables):
    for each in testdict:
        if each == "buffer":
            if not tested.test_buffer(testdict.get(each)):
                return False, dict(temp_actrvariables)
        elif not tested.test(each, testdict.get(each)):
            return False, dict(temp_actrvariables)
    return True, dict(temp_actrvariables)
