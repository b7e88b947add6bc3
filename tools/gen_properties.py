"""Writes /verif/properties.jsonl (the property catalogue) from one table."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["pyactr/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "A buffer holds at most one chunk, and nothing but chunks",
  "After any sequence of operations on a goal, retrieval, visual or visual-location buffer, the buffer contains at most one element and that element is a chunk; adding a chunk leaves exactly the added chunk, and adding anything else is refused with an error (the manual buffer refuses every addition). Modifying a buffer keeps each slot of the held chunk that the modification does not mention and gives each mentioned slot its new value; a modification that is refused leaves the held chunk in place.",
  ["inputs", "histories"], "all buffer classes, all buffer contents (empty / one chunk), all arguments, all call sequences",
  "TestBuffers tries a handful of add/clear/modify calls; the invariant is over every method of every buffer class and every order of calls.",
  ["buffers.py", "goals.py", "declarative.py", "vision.py", "motor.py"],
  [("Buffer.add resets the set", "buffers.py Buffer.add"), ("Buffer.modify replaces the element", "buffers.py Buffer.modify"), ("subclass add/clear overrides", "declarative.py, goals.py, vision.py")],
  [("_data", "content of a buffer", "buffers.py Buffer.__init__")])

p("C02", "A chunk that leaves a buffer is stored in declarative memory",
  "When a buffer is cleared (by a clear action, by strict harvesting, by a new retrieval, by a new goal request, by a newly found location or a newly encoded visual object), the chunk it held is added exactly once to the memory the buffer harvests into, with the time of the clearing, and no longer stays in the buffer; an explicitly given memory takes precedence over the buffer's own. Clearing an empty buffer stores nothing. With strict harvesting on, every buffer tested by the fired rule and not mentioned in its actions is cleared this way; with it off, none is.",
  ["inputs", "histories", "configurations"], "every buffer class and content, every time, every memory argument, every rule shape",
  "Tests observe a few clearings of g and retrieval; strict harvesting is off in nearly all of them and times are rarely looked at.",
  ["declarative.py", "goals.py", "vision.py", "productions.py"],
  [("clear()", "DecMemBuffer.clear, Goal.clear, Visual.clear, VisualLocation.clear"), ("ProductionRules.clear", "productions.py"), ("strict harvesting block", "productions.py ProductionRules.update")])

p("C03", "Declarative memory keeps every presentation of every chunk",
  "Adding a chunk (or each chunk of a collection) to declarative memory at a time keeps all presentation times recorded for it before and appends the new one, a single number being stored to a tenth of a millisecond; other chunks' records are not touched, and deleting a chunk drops its record only. Only chunks are accepted as elements. A copied memory is independent of its original: nothing later done to one shows in the other.",
  ["inputs", "histories"], "every chunk, every time (number or sequence of times), every previous content",
  "Tests add single chunks at single integral times; sequences of times, repeated additions and copies are hardly touched.",
  ["declarative.py"],
  [("DecMem.add", "declarative.py"), ("DecMem.__setitem__", "declarative.py"), ("DecMem.copy", "declarative.py")],
  [("_data", "chunk -> array of presentation times", "declarative.py DecMem")])

p("C04", "A retrieval returns only an admissible chunk of declarative memory",
  "Whatever a retrieval returns is a chunk of the buffer's declarative memory that matches the request (except that partial matching may admit mismatches at a penalty) and satisfies the recently-retrieved test of the rule: with recently_retrieved False no chunk on the list of recent retrievals, with any other value only chunks on it, as far as the buffer keeps such a list. Without the subsymbolic system, a chunk whose first presentation is at the very moment of the request is not returned. The list of recent retrievals receives each retrieval's result and never grows beyond the buffer's finst.",
  ["inputs", "histories", "configurations"], "every memory content, request, finst, recently_retrieved value and parameter setting",
  "Tests retrieve from memories of a few chunks, mostly with finst 0 and one match.",
  ["declarative.py"],
  [("candidate loop", "DecMemBuffer.retrieve"), ("recent deque", "DecMemBuffer.retrieve")],
  [("recent", "recently retrieved chunks", "DecMemBuffer.__init__")])

p("C05", "The most active chunk above threshold wins, at its own latency",
  "With the subsymbolic system on, the chunk retrieved is the candidate whose total activation is highest among those reaching the retrieval threshold, the total activation being base level plus spreading activation plus partial-matching penalty plus noise, and the time the retrieval takes is the latency of that same activation. When no candidate reaches the threshold nothing is retrieved and the time taken is the latency of the threshold. With the subsymbolic system off, a successful retrieval takes no time and a failed one takes the rule-firing time.",
  ["inputs", "configurations"], "every memory, every order of chunks in it, every activation value and parameter setting",
  "Tests fix one or two chunks and one order; the winner must be right for every order and number of competitors.",
  ["declarative.py", "utilities.py"],
  [("running maximum", "DecMemBuffer.retrieve"), ("retrieval_success / retrieval_latency", "utilities.py")])

p("C06", "Base-level activation, latency and noise follow the ACT-R equations",
  "Base-level activation is ln(sum over presentations of (now - t)^-decay), or with optimized learning ln(n/(1-decay)) - decay*ln(now - latest presentation), and 0 when base-level learning is off; a manually set activation is combined as ln(e^B + e^activation); presentations happening at the current moment are left out. A retrieval succeeds exactly when activation is at least the threshold, and its latency is factor * e^(-exponent*activation). Instantaneous noise is 0 for a noise parameter of 0, logistic with mean 0 and that scale otherwise, and a negative parameter is refused.",
  ["inputs", "configurations"], "all times, decays, activations and parameters",
  "Tests evaluate the formulas at a few points with default parameters.",
  ["utilities.py"],
  [("baselevel_learning", "utilities.py"), ("retrieval_latency, retrieval_success", "utilities.py"), ("calculate_instantaneous_noise", "utilities.py")])

p("C07", "Spreading activation follows fan and association strength",
  "A chunk receives from each spreading buffer the buffer's weight divided by the number of sources in it, times the summed association of these sources; the association of a source with a chunk is strength - ln(fan/occurrences) when the source is the chunk or one of its slot values (in the same slot, when spreading is restricted) and 0 otherwise, occurrences being the number of slots of the chunk holding the source and at least 1. The fan is one plus the number of slots in declarative memory holding the source (only that slot, when restricted), and stays equal to it as chunks are added and deleted. Sources are chunks only, unless spreading from plain values is switched on.",
  ["inputs", "histories", "configurations"], "all memories, buffers, association settings; all interleavings of additions and retrievals",
  "Tests check spreading on fixed memories; the cached fan counts make the result depend on the history of additions.",
  ["utilities.py", "declarative.py"],
  [("spreading_activation, weigh_buffer, find_chunks, calculate_strength_association", "utilities.py"), ("fan counters", "DecMem.__setitem__")],
  [("restricted_number_chunks / unrestricted_number_chunks", "cached fan counts", "declarative.py DecMem.__init__")])

p("C08", "Pattern matching binds variables consistently and respects negation",
  "A chunk pattern matches another chunk exactly when every slot condition holds: a given value equals the other chunk's value, a variable has either no binding yet (it is then bound to that value) or a binding equal to it, a negated value or a negated bound variable differs from it, and a variable's value is none of those already excluded for it; a slot the pattern leaves empty imposes nothing, and a slot the other chunk lacks counts as empty. Under partial matching nothing is rejected: each failed condition instead adds its similarity to the score, and every satisfied condition adds 0.",
  ["inputs"], "all patterns, chunks, bindings and similarity settings",
  "TestChunks enumerates some dozens of pattern/chunk pairs; the rule is over all combinations of conditions, slots and prior bindings.",
  ["chunks.py", "utilities.py"],
  [("Chunk.match", "chunks.py"), ("get_similarity", "utilities.py")],
  [("boundvars", "bindings of a pattern", "Chunk.__init__")])

p("C09", "Chunks are immutable values with a consistent equality and hash",
  "Once created, a chunk's type and slot values never change, so a chunk stored in memory or in a buffer stays what it was. Two chunks are equal exactly when they have the same hash, the hash covers all non-empty slots (name and value, with bound variables replaced by their values and negated values kept apart from positive ones) and does not depend on the order in which several negated values are written; a remembered hash is used only while the variable bindings are those it was computed with.",
  ["inputs", "histories"], "all chunks, slot orders, bindings and later operations",
  "Tests compare a few chunk pairs; immutability is over every function that can reach a chunk.",
  ["chunks.py"],
  [("Chunk.__hash__ / __eq__", "chunks.py"), ("actrchunk assigned once", "Chunk.__init__")],
  [("actrchunk", "slot values", "Chunk.__init__"), ("__hash", "memoised hash and the bindings it holds for", "Chunk.__init__")])

p("C10", "Ill-formed slot values are refused when a chunk is made",
  "A slot value of a chunk is a chunk, a single plain value turned into text, or a combination of at most one value, at most one variable and any number of negated values and variables: a chunk cannot be created with an unhashable or iterable non-string slot value (makechunk first turns whatever is neither a chunk nor such a combination into its text), with two values or two variables in one slot, or with values or variables that are neither text, chunks nor empty; creation raises an error instead. Slots of the chunk's type that are not given are empty. The slots of the built-in manual, visual and visual-location chunk types cannot be redefined, no type has a slot isa, and a type that includes another has all of its slots.",
  ["inputs"], "all slot values, given as strings, objects or parsed text",
  "Tests create well-formed chunks almost exclusively.",
  ["chunks.py", "utilities.py"],
  [("Chunk.__init__ value checks", "chunks.py"), ("stringsplitting", "utilities.py"), ("createchunkdict", "chunks.py"), ("chunktype", "chunks.py")])

p("C11", "Conflict resolution fires the matching rule of highest utility",
  "In every cycle the rule selected is one whose conditions all hold at that moment and, among the rules whose conditions hold, one of highest current utility (with the subsymbolic system and utility noise on, after adding noise to each; learned utilities count as soon as they are learned). If no rule's conditions hold, no rule is selected.",
  ["inputs", "histories", "configurations"], "all rule sets, buffer contents, utilities and learning histories",
  "Tests have few competing rules and never a learned utility overtaking another within one run.",
  ["productions.py"],
  [("conflict resolution loop", "ProductionRules.procedural_process"), ("ordered_rulenames", "ProductionRules.__init__")],
  [("ordered_rulenames", "rules in order of utility", "ProductionRules.__init__")])

p("C12", "Testing a rule has no side effects",
  "Evaluating the conditions of a rule changes no buffer, no declarative memory, no module state and no model parameter, and bindings made while testing one rule are not visible when another is tested. Only the bindings of the rule that actually fires are kept for its actions.",
  ["inputs", "histories"], "all rules and buffer contents; all orders of testing",
  "Tests observe selected rules, not what unselected rules left behind.",
  ["productions.py", "chunks.py", "buffers.py"],
  [("LHStest works on copies of the bindings", "ProductionRules.procedural_process / LHStest / test"), ("query methods only compare", "test_buffer, test of each buffer")])

p("C13", "A rule acts only if its conditions still hold when it fires",
  "A selected rule fires exactly one rule-firing time after its selection, and its conditions are tested again at that moment: its actions are carried out only if they still hold, otherwise it is reported as stopped and nothing is changed. A cycle that fires or stops a rule leaves the procedural module scheduled to go on; a cycle that finds no rule does not.",
  ["schedules", "histories", "configurations"], "all interleavings of the procedural module with other modules during the firing time",
  "Tests seldom let another module change a buffer between selection and firing.",
  ["productions.py"],
  [("second LHStest", "ProductionRules.procedural_process"), ("procs list", "ProductionRules.procedural_process")])

p("C14", "Every rule symbol is carried out, in the ACT-R order",
  "Every condition or action symbol that rule syntax accepts is carried out by the operation it stands for on the buffer it names, and any other symbol makes the rule be refused with an error. Actions of one rule are carried out in the order: extra tests and executed commands, modifications, overwritings, modification requests, retrieval/setting requests, clearings - independently of the order in which they are written. Requests run as separate interruptible module processes; all other actions take effect within the firing of the rule. An extra test added for a buffer applies to the requests its rule makes of that buffer, not to those of rules selected later.",
  ["inputs", "programs"], "all rules over all symbols and buffers, all orders of writing",
  "Tests use few combinations of actions in one rule.",
  ["productions.py", "utilities.py", "model.py"],
  [("dispatch tables", "utilities.py _RHSCONVENTIONS/_LHSCONVENTIONS"), ("ordering in update", "ProductionRules.update"), ("grammar", "utilities.getrule")])

p("C15", "Actions use only bound variables and positive values",
  "When an action builds a chunk or a request, each variable stands for exactly the value it was bound to in the conditions; an unbound variable, or two different values for one slot, is refused with an ACT-R error. Negated values and variables are accepted only in requests that search memory or the visual scene and refused with an ACT-R error in every other action.",
  ["inputs"], "all slot contents and bindings, all kinds of actions",
  "Tests run well-formed rules only.",
  ["utilities.py", "buffers.py", "goals.py", "declarative.py", "motor.py", "vision.py", "productions.py"],
  [("check_bound_vars", "utilities.py"), ("its call sites", "Buffer.modify, Goal.create, Motor.create, DecMemBuffer.retrieve, VisualLocation.find, Visual.shift, retrieveorset")])

p("C16", "Module states go busy and come back free or error",
  "A module's state is busy from the moment an action on it starts until the action completes; on completion it is error if a retrieval or a visual-location search found nothing and free in every other case. For the visual and manual modules, preparation, processor and execution are likewise busy only during their phase and free again once the movement is finished.",
  ["schedules", "histories", "inputs"], "all actions, outcomes and interleavings",
  "Tests query state in a few rules; a state left busy shows only in a rule that asks for it later.",
  ["productions.py"],
  [("state assignments", "all action generators of ProductionRules")],
  [("state, preparation, processor, execution, autoattending", "module status", "buffers.py, vision.py, motor.py")])

p("C17", "Simulated time never runs backwards within a process",
  "Within one module process, each event is stamped with a time not earlier than that of the event before, starting at the time the process was started; stamps are given to a tenth of a millisecond and the stamp of each event includes all delays the process has incurred up to it.",
  ["schedules", "inputs", "configurations"], "all processes, parameters and interleavings",
  "Tests compare stamps along single traces.",
  ["productions.py", "utilities.py", "environment.py"],
  [("time accumulation and Event construction", "all generators of ProductionRules, Environment.environment_process"), ("roundtime", "utilities.py")])

p("C18", "Utility learning credits every rule used since the last reward",
  "When a rule with a reward fires and utility learning is on, the utility of every rule selected since the previous reward is moved, for each of its selections, by alpha * (reward - time elapsed since that selection - current utility), to four decimals; then the record of selections is emptied. With learning off, or for a rule without reward, no utility changes. Starting a new simulation starts with an empty record.",
  ["histories", "configurations"], "all sequences of selections and rewards, all rewards (including 0) and parameters",
  "The one learning test has a single reward pattern.",
  ["productions.py", "utilities.py", "model.py"],
  [("modify_utilities", "utilities.py"), ("used_rulenames", "ProductionRules.procedural_process, ACTRModel.simulation")])

p("C19", "Rules are compiled only when enabled and only when it is safe",
  "New rules are created only with production compilation on, and only from two different rules that fired one directly after the other. No rule is created when both rules make a request in the same buffer other than retrieval, when the second queries a motor or visual buffer requested by the first for anything but being busy or tests such a visual buffer, or when it queries a retrieval requested by the first for error, or when what the first retrieved is still in its buffer at the end or is not tested by the second. A pair compiled before to the same rule is not stored twice.",
  ["histories", "programs", "configurations"], "all rule pairs and firing sequences",
  "TestCompilation covers twelve rule pairs.",
  ["productions.py"],
  [("__check_valid_compilation__", "Productions"), ("compile bookkeeping", "ProductionRules.procedural_process / compile_rules")])

p("C20", "Randomness enters only through switched-on noise, from one seedable source",
  "All randomness of a simulation comes from numpy's global generator, and it is drawn on only when the corresponding noise parameter (instantaneous noise, utility noise, EMMA noise, EMMA landing-site noise) is switched on. With all noise off no random number is drawn; a model's behaviour then depends on nothing but the model, and with noise on it is reproducible by seeding numpy.",
  ["configurations", "inputs"], "all models and parameter settings",
  "A test cannot show the absence of an entropy source on paths it does not run.",
  ["utilities.py", "vision.py", "declarative.py", "productions.py", "simulation.py"],
  [("noise functions", "utilities.py calculate_instantaneous_noise, calculate_delay_visual_attention, calculate_preparation_time, calculate_execution_time, calculate_landing_site")])

p("C21", "Model parameters are validated, private to the model and all effective",
  "Creating a model with an unknown parameter is refused with an error naming it; a given parameter takes the given value and every other one its documented default. Every documented parameter influences the simulation, none is read that is not documented, and the settings of one model are never changed by another model or by running a simulation.",
  ["configurations", "histories"], "all parameter combinations, any number of models and simulations",
  "Tests set a few parameters on single models.",
  ["model.py", "declarative.py", "vision.py", "productions.py", "utilities.py"],
  [("MODEL_PARAMETERS", "model.py ACTRModel"), ("parameter reads", "productions.py, declarative.py, vision.py")])

p("C22", "Errors in models surface as ACT-R errors and are never swallowed",
  "An ACT-R error raised anywhere in the package always reaches the user as an ACT-R error: no handler drops it, replaces it by a different kind of failure or turns it into a default value. No input makes the package fail because one of its own names (a local name, a name of a module or class, or an attribute of its own objects) was never given a value.",
  ["inputs", "fault_sequences"], "all call paths through all handlers, all inputs",
  "Tests run correct models; error paths are hardly executed.",
  ["utilities.py", "chunks.py", "productions.py", "model.py", "motor.py", "vision.py", "goals.py", "declarative.py", "environment.py", "buffers.py"],
  [("except ACTRError handlers", "all modules"), ("definite assignment", "all functions")])

p("C23", "Key presses are validated, timed and reported by the motor rules",
  "A manual command other than pressing a key, or a key the hands cannot reach, is refused with an ACT-R error; keys are case-insensitive. A press takes the preparation, initiation, action and finishing times of its key's class; preparation drops to zero for a repeated key or (once) when the motor module starts prepared, and by 100 ms (same hand) or 50 ms (other hand) when the previous key was of the same class; a movement in progress is waited for. The key is handed to the environment at the moment of the press, after the action time.",
  ["inputs", "histories"], "all keys, key sequences and parameter settings",
  "The motor test presses a few keys of one hand.",
  ["motor.py", "productions.py"],
  [("Motor.create", "motor.py"), ("motorset, motorcontinue", "productions.py"), ("TIME_PRESSES, LEFT_HAND, RIGHT_HAND", "motor.py")],
  [("last_key", "last key and end of its movement", "Motor.__init__"), ("env_interaction", "keys handed to the environment", "ProductionRules.__init__")])

p("C24", "A visual-location search finds only a stimulus meeting all criteria",
  "A location returned by a visual search belongs to a stimulus on the screen that meets every criterion of the request: its text, exact, greater-than or smaller-than positions, the attended test as far as the buffer keeps such a list, and, among those that do, the lowest/highest/closest one asked for. The stimulus recorded as attended is the one whose location was returned; if nothing qualifies, neither is returned. The list of attended stimuli never grows beyond the buffer's finst.",
  ["inputs", "histories"], "all scenes, orders of stimuli, requests and histories of attention",
  "Tests search scenes of one to three stimuli.",
  ["vision.py"],
  [("VisualLocation.find", "vision.py"), ("automatic_search", "vision.py"), ("recent deque", "VisualLocation.add / modify")],
  [("recent", "recently attended stimuli", "VisualLocation.__init__")])

p("C25", "Attention shifts encode the stimulus at the target with EMMA timing",
  "Moving attention encodes the stimulus found at the requested screen position and no other; with EMMA on, encoding, preparation and execution times and the landing site follow the EMMA equations from the current eye position, with EMMA off they are 85 ms, 0 and 85 ms and the eyes land on the target. The object is encoded once per shift, when its encoding time has elapsed, and the eyes are at the landing site when the shift is reported complete. A request whose position matches no stimulus is refused with an ACT-R error. Once told to stop buffering automatically, a visual buffer no longer attends by itself until attention is moved.",
  ["inputs", "configurations", "schedules"], "all scenes, positions, vis_delay values and parameters",
  "Tests run EMMA with noise off on a few positions; the three encoding/eye-movement orders are not all reached.",
  ["vision.py", "productions.py", "utilities.py"],
  [("Visual.shift, move_eye", "vision.py"), ("visualshift, visualcontinue, visualencode", "productions.py"), ("calculate_* functions", "utilities.py")])

p("C26", "Chunks made from stimuli show what is visible and only that",
  "A visual chunk carries the stimulus' text as value, its screen position and every attribute of the stimulus except control keys (text, position, delay, type names, list of visible keys); a visual-location chunk carries the position (when asked for) and only those attributes the stimulus lists as externally visible. The chunk has the stimulus' own chunk type if it names one for that buffer and the built-in type otherwise, and the stimulus itself is not changed.",
  ["inputs"], "all stimuli dictionaries and buffers",
  "Tests use stimuli with text and position, and one extended one.",
  ["vision.py"],
  [("chunk_from_stimulus", "vision.py")])

p("C27", "The environment shows its stimuli in order, with matching triggers",
  "An environment process shows the given stimuli one after the other, each together with its own trigger set (upper-cased) and its own duration, which are made to correspond one to one or refused with an ACT-R error; the next stimulus comes when the durations of the stimuli so far have passed since the start, or earlier when a key of the current trigger set is pressed, and only then. When a stimulus appears, the visual buffers of that environment are told to look at it.",
  ["inputs", "schedules"], "all lists of stimuli, triggers and times; all timings of key presses",
  "Tests use one or two stimuli with fixed timing.",
  ["environment.py", "simulation.py"],
  [("environment_process", "environment.py"), ("__envGenerator__, __localprocess__", "simulation.py")])

p("C28", "The scheduler reports every visible event and wakes the rules after it",
  "Each event yielded by a module process takes effect at its time stamp, becomes the current event (and, if tracing, is printed) unless it is an internal one, and every visible event of a non-procedural module makes the procedural module look for a rule again. The clock starts at the given initial time and the reported time is the simulated one. Stepping stops at the next visible event that differs from the last one. A request to a busy module interrupts the process running there (except the execution of a movement, which is carried on); an interrupted process makes no further changes.",
  ["schedules", "histories"], "all interleavings of module processes and requests",
  "Tests follow single traces without competing requests.",
  ["simulation.py"],
  [("__localprocess__, __printevent__, __activate__, __extraprocessGenerator__, __procprocessGenerator__, step", "simulation.py")],
  [("current_event", "last visible event", "Simulation.__init__")])

p("C29", "Similarities are symmetric, non-positive and belong to their model",
  "A similarity set between two chunks holds in both directions and cannot be positive; a pair without one has minus the mismatch penalty. Each model's simulations use that model's similarities, whatever other models exist.",
  ["inputs", "histories"], "all pairs and values; all numbers of models and orders of creating and running simulations",
  "Tests have at most one model with similarities alive at a time.",
  ["model.py", "utilities.py", "chunks.py"],
  [("set_similarities, simulation", "model.py"), ("get_similarity", "utilities.py"), ("Chunk._similarities", "chunks.py")])

p("C30", "Rule and chunk text is parsed completely or refused",
  "Text given as a rule or a chunk is accepted only if all of it is parsed: the symbols accepted in a rule are exactly the condition and action symbols the engine carries out, trailing unparsed text is never ignored, and a rule that cannot be parsed is refused with an ACT-R error naming it. A rule may be given without a name and then gets one of its own.",
  ["inputs"], "all rule and chunk strings",
  "Tests parse well-formed, named rules.",
  ["model.py", "utilities.py", "chunks.py"],
  [("getrule, getchunk", "utilities.py"), ("productionstring", "model.py"), ("chunkstring", "chunks.py")])

p("C35", "A model and its buffers are put together as asked, with the memories due",
  "A new model has a goal buffer g, a retrieval buffer retrieval and one declarative memory. A buffer made through the model is registered under the name given, which must be text, for the rules and in the model's own table, and that same buffer is returned; the model's goal, retrieval and decmem give the only one of their kind and are refused unless there is exactly one. A simulation adds a manual buffer and, with an environment, the model's visual buffers or else default ones that harvest into its memory. With one memory every buffer of the model uses it; with several of which one is filled, the buffers without a memory use that one. A buffer starts free, with the content, memory, delay or finst it was given, reads back what was set, and refuses negative delays, negative finst values and memories that are none. A copied buffer has the same content and settings, and what later happens to its content does not show in the original; a copied retrieval buffer has a copy of the memory unless given another. Setting the productions of a model makes exactly those its rules.",
  ["inputs", "configurations", "histories"], "all names, numbers and contents of memories and buffers, all settings",
  "Tests use the default buffers and one memory; copies, several memories and refused settings are not tried.",
  ["model.py", "buffers.py", "goals.py", "declarative.py", "vision.py", "motor.py"],
  [("set_goal, set_retrieval, visualBuffer, set_decmem, simulation", "model.py"), ("constructors, setters, copy", "buffers.py, goals.py, declarative.py, vision.py, motor.py")])

p("C36", "Compiling keeps the conditions and actions due of both rules",
  "The rule made of two has the first's conditions plus those of the second, and the second's actions plus the first's actions on buffers the second does not act on. A slot the first rule sets to something is not tested on the second's behalf; a query of the second is dropped when the first clears, sets or requests in that buffer; a test of what the first retrieved, the first's request of it, and what the second says of its slots where the first has said anything of them are dropped (an action's slot keeps the second's content unless empty). Before that the second's variables are all renamed the same way and nothing else of it changes. A variable matched with a value is replaced by it, values retrieved by the first rule included, one matched with a variable by the shortest of those matched; one not matched stays. A slot that is to have two different values is refused with ACTRError. No source rule is changed.",
  ["programs", "inputs"], "all pairs of rules and slot contents",
  "TestCompilation compares the text of twelve pairs; kept conditions, conflicts and negations are not varied.",
  ["productions.py", "utilities.py"],
  [("__collapse__, __rename__, __substitute__", "productions.py"), ("match, merge_chunkparts, make_chunkparts_*", "utilities.py")])

p("C37", "Buffers answer truthfully and texts and printed traces show what is there",
  "A buffer says it is full exactly when it holds a chunk and empty exactly when it does not, yields the chunk it holds and no other, counts what it holds, and its module answers a state test by the state it is in. The text of a chunk names its type and each slot with its value, its variable and every value and variable excluded, in the notation of rules; the text of a rule shows its conditions, actions, utility and reward. With the activation trace on, a retrieval prints the parts of the activation of each new best candidate; otherwise it prints nothing.",
  ["inputs", "histories"], "all buffer contents and states, all chunks and rules, all candidates of a retrieval",
  "Tests print little and compare the text of a few chunks; excluded values and variables and a trace of activations are not compared.",
  ["buffers.py", "chunks.py", "utilities.py", "productions.py", "declarative.py", "goals.py", "vision.py", "motor.py"],
  [("contains, iteration, length, discard, show, test", "buffers.py"), ("__repr__", "chunks.py, productions.py"), ("varval_repr", "utilities.py"), ("printing in retrieve", "declarative.py")])

p("C31", "A compiled rule does what its two source rules do in sequence",
  "Firing a compiled rule leaves buffers and memory as firing its two source rules one after the other would, for every buffer content in which the pair applies.",
  ["programs", "histories"], "all compilable rule pairs and contents",
  "Twelve pairs are tested on the text of the compiled rule, none on equivalence of effect.",
  ["productions.py", "utilities.py"], [("__collapse__, __rename__, __substitute__", "productions.py"), ("match, merge_chunkparts", "utilities.py")])

p("C32", "Noise has the distribution its parameter states",
  "Over many draws, instantaneous and utility noise are logistic with variance pi^2/3 * s^2, EMMA times are gamma distributed with shape 9 and the stated means, and landing sites are normal around the target with the stated variance.",
  ["inputs"], "all parameter values; the distribution of draws",
  "Tests draw a few values at most.",
  ["utilities.py"], [("np.random calls", "utilities.py")])

p("C33", "The graphical environment mirrors the simulation",
  "With the graphical environment on, the window shows every stimulus and focus of the simulation in the order they occur, in real time if asked, and closing or ending it ends the worker.",
  ["schedules"], "all interleavings of worker thread and event loop",
  "No test opens a window.",
  ["simulation.py"], [("__runGUI__, __workerThread1__, GuiPart", "simulation.py")])

p("C34", "Every simulation step terminates",
  "A simulation whose environment is finite and whose rules stop applying comes to an end, and each step of any simulation returns or raises.",
  ["schedules", "programs"], "all models", "Tests run terminating models.",
  ["simulation.py"], [("step, run", "simulation.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
