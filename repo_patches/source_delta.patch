From 352ae04b5cdcf688c9eb8bb652c3a4a6aa114536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 01/37] fix: give a rule made without a name a name instead of
 failing with a TypeError

---
 pyactr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index c2c4197..d3e1fbb 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -232,7 +232,7 @@ class ACTRModel:
         {'=g': example(value= two)}
         """
         if not name:
-            name = "unnamedrule" + productions.Productions._undefinedrulecounter
+            name = "unnamedrule" + str(productions.Productions._undefinedrulecounter)
             productions.Productions._undefinedrulecounter += 1
         temp_dictRHS = {v: k for k, v in utilities._RHSCONVENTIONS.items()}
         temp_dictLHS = {v: k for k, v in utilities._LHSCONVENTIONS.items()}
-- 
2.43.0


From 2665c8079d8e3440c2931abdd2c0fe469b3ffd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/37] fix: report an unbound negated variable as an ACTRError

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3381c09..66eb6bd 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -293,7 +293,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     try:
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
-                        raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+                        raise ACTRError(f"Object '{neg_var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
             result = "".join(sorted([temp_result, result], reverse=True))
         elif result and temp_result != result:
-- 
2.43.0


From dc01e78b1c0fd4aa40a1af4f867e42db52eb8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 03/37] fix: resolve variables bound to an empty slot and
 variables in relative screen positions

---
 pyactr/utilities.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 66eb6bd..5f28d70 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -294,21 +294,15 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
                         raise ACTRError(f"Object '{neg_var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
-        if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
+        if x not in {"values", "variables"} or not getattr(varval, x): #no new positive value, nothing to combine
+            continue
+        if isinstance(temp_result, str) and (result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}):
             result = "".join(sorted([temp_result, result], reverse=True))
         elif result and temp_result != result:
             raise ACTRError(f"It looks like in '{elem}', one slot would have to carry two values at the same time; this is illegal in ACT-R")
         else:
-            try:
-                result = temp_result
-            except UnboundLocalError: #temp_result wasn't used
-                pass
-    try:
-        if temp_result:
-            returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
-    except UnboundLocalError: #temp_result was never used, which means that no values were defined
-        returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
-    return returned_tuple
+            result = temp_result
+    return VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
 
 def match(dict2, slotvals, name1, name2):
     """
-- 
2.43.0


From dabcb2d93f416759387b8c11d132107b2305af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 04/37] fix: leave out all traces of the current moment in
 base-level learning, also when optimized

---
 pyactr/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 5f28d70..f98e799 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -427,17 +427,17 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
                         B = math.log(np.sum((current_time - times) ** (-decay)))
                     #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
                     except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
+                        temp_times = times[times < current_time]
                         if len(temp_times) > 0:
                             B = math.log(np.sum((current_time - temp_times) ** (-decay)))
                 else:
                     try:
                         B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
                     #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
+                    except (RuntimeWarning, ValueError):
+                        temp_times = times[times < current_time]
                         if len(temp_times) > 0:
-                            B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(temp_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
+                            B = math.log(len(temp_times)/(1-decay)) - decay*math.log(current_time - np.max(temp_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
     else:
         B = 0
 
-- 
2.43.0


From 2d87c844661c9867ec9f537e818b5e8e914c46f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 05/37] fix: keep the motor_prepared parameter of the model
 when its simulation presses a key

---
 pyactr/productions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 50cd31e..adf2578 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -905,8 +905,7 @@ class ProductionRules:
         preparation = time_presses[0]
 
         #preparation can be modified if previous key was the same or similar -- see if-clauses below
-        if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
-            self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
+        if newchunk.key == motorbuffer.last_key[0] or (self.model_parameters["motor_prepared"] and not motorbuffer.last_key[0]): #motor_prepared is only used for the 1st key press
             preparation = 0
         elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
             if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
-- 
2.43.0


From 0316a21908d269b11cd459683c1c2d2a80ce0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 06/37] fix: compare the keys themselves when preparing a key
 press

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index adf2578..83c433c 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -907,8 +907,8 @@ class ProductionRules:
         #preparation can be modified if previous key was the same or similar -- see if-clauses below
         if newchunk.key == motorbuffer.last_key[0] or (self.model_parameters["motor_prepared"] and not motorbuffer.last_key[0]): #motor_prepared is only used for the 1st key press
             preparation = 0
-        elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
-            if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
+        elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
+            if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
                 preparation -= 0.1 #the same hand, same mvt cuts down by 100 ms; Lisp ACT-R also has the same finger which cuts down by 150 ms; this is not currently implemented
             else:
                 preparation -= 0.05 #a different hand, same mvt cuts down by 50 ms
-- 
2.43.0


From dd661b6560da62a92e32b3e5387205526bdc23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 07/37] fix: withdraw the pressed key from the environment
 after the movement

---
 pyactr/productions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 83c433c..42b5a70 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -957,7 +957,7 @@ class ProductionRules:
 
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
-        self.env_interaction.discard(otherchunk.key)
+        self.env_interaction.discard(otherchunk.key.values)
         motorbuffer.state = motorbuffer._FREE
         motorbuffer.execution = motorbuffer._FREE
         motorbuffer.last_key[1] = 0
-- 
2.43.0


From a3fa75abe7afd85c57560dd04cc986ee690404ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 08/37] fix: remember as attended only the stimulus whose
 location was found

---
 pyactr/vision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5e7a2bd..1f675e8 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -194,10 +194,10 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            found_stim = self.environment.stimulus[each]
-            visible_chunk = chunk_from_stimulus(found_stim, "visual_location", position=False)
+            visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
+                found_stim = self.environment.stimulus[each]
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
                 current_y = position[1]
-- 
2.43.0


From c390610dda0747c959c48d1a1d4d9dfd734f2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 09/37] fix: refuse to move attention to a position without a
 stimulus with an ACTRError

---
 pyactr/vision.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 1f675e8..277944a 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -333,6 +333,7 @@ class Visual(buffers.Buffer):
             raise ACTRError(f"Shifting towards the chunk '{otherchunk}' is impossible; {arg}")
 
         vis_delay = None
+        stim = None
 
         for each in self.environment.stimulus:
             try:
@@ -343,6 +344,9 @@ class Visual(buffers.Buffer):
             except (AttributeError, KeyError):
                 raise ACTRError("The chunk in the visual buffer is not defined correctly. It is not possible to move attention.")
 
+        if stim is None:
+            raise ACTRError(f"There is no stimulus at the position specified in the chunk '{otherchunk}'. It is not possible to move attention.")
+
         new_chunk = chunk_from_stimulus(stim, "visual", position=False) #creates new chunk
 
         if model_parameters['emma']:
-- 
2.43.0


From 9143b916824586fb674866cd2a8c066ae9295b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 10/37] fix: free the visual location buffer after an automatic
 search

---
 pyactr/productions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 42b5a70..b218db3 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -802,8 +802,10 @@ class ProductionRules:
                 visualbuffer.modify(newchunk, stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, self._UNKNOWN)
 
     def automatic_buffering(self, name, visualbuffer, stim, time):
-- 
2.43.0


From ff34551932993377c01eb3957ee83acdaaafae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 11/37] fix: refuse a manual command without a key press or
 without a key with an ACTRError

---
 pyactr/motor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyactr/motor.py b/pyactr/motor.py
index bb7b718..20e8ff8 100644
--- a/pyactr/motor.py
+++ b/pyactr/motor.py
@@ -52,13 +52,17 @@ class Motor(buffers.Buffer):
 
         new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
 
-        if new_chunk.cmd.values not in utilities.CMDMANUAL:
-            raise ACTRError(f"Motor module received an invalid command: '{new_chunk.cmd.values}'. The valid commands are: '{utilities.CMDMANUAL}'")
+        cmd = mod_attr_val["cmd"].values if "cmd" in mod_attr_val else utilities.EMPTYVALUE
 
-        if new_chunk.cmd.values == utilities.CMDPRESSKEY:
+        if cmd != utilities.CMDPRESSKEY:
+            raise ACTRError(f"Motor module received no command or an invalid command: '{cmd}'. The valid command is: '{utilities.CMDPRESSKEY}'")
+
+        try:
             pressed_key = new_chunk.key.values.upper() #change key into upper case
-            mod_attr_val["key"] = pressed_key
-            new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
+        except AttributeError:
+            raise ACTRError(f"Motor module received no key or an invalid key in the chunk '{otherchunk}'")
+        mod_attr_val["key"] = pressed_key
+        new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
         if pressed_key not in self.LEFT_HAND and new_chunk.key.values not in self.RIGHT_HAND:
             raise ACTRError(f"Motor module received an invalid key: {pressed_key}")
 
-- 
2.43.0


From b04aacad4654bf8e0b3e3921cf48e2ed2c5a4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 12/37] fix: refuse a visual request without a command with an
 ACTRError

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index b218db3..181885b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -751,8 +751,8 @@ class ProductionRules:
             yield Event(roundtime(time), name, f"ENCODED LOCATION:'{str(chunk)}'")
         elif isinstance(updated, vision.Visual):
             mod_attr_val = {x[0]: utilities.check_bound_vars(temp_actrvariables, x[1]) for x in otherchunk.removeunused()}
-            if (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
-                raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val['cmd'].values}'. The valid commands are: '{utilities.CMDVISUAL}'")
+            if ('cmd' not in mod_attr_val) or (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
+                raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val.get('cmd')}'. The valid commands are: '{utilities.CMDVISUAL}'")
             if mod_attr_val['cmd'].values == utilities.CMDMOVEATTENTION:
                 ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
                 yield ret #visual action returns value, namely, its continuation method
-- 
2.43.0


From b4e74e1884de1c3d488b95fca0df733a3a8d1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 13/37] fix: free the visual buffer after an empty command

---
 pyactr/productions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 181885b..fc15f7f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -760,6 +760,8 @@ class ProductionRules:
                 updated.stop_automatic_buffering()
                 updated.state = updated._FREE
                 yield Event(roundtime(time), name, "VISUAL STOPPED FROM AUTOMATIC BUFFERING AT ITS CURRENT FOCUS")
+            else:
+                updated.state = updated._FREE #empty command, nothing to be done
         elif isinstance(updated, motor.Motor):
             ret = yield from self.motorset(name, updated, otherchunk, temp_actrvariables, time)
             yield ret #motor action returns value, namely, its continuation method
-- 
2.43.0


From 4b76db217a4ce9039cc1aeeb436c49ef650ce572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 14/37] fix: accept a collection of chunks with two slots as
 the initial declarative memory

---
 pyactr/declarative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 17c5eea..0fdc629 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -21,9 +21,9 @@ class DecMem(collections.abc.MutableMapping):
         self.unrestricted_number_chunks = collections.Counter() # counter for chunks, used to store strength association
         self.activations  = {}
         if data is not None:
-            try:
+            if isinstance(data, collections.abc.Mapping):
                 self.update(data)
-            except ValueError:
+            else:
                 self.update({x:0 for x in data})
 
     def __contains__(self, elem):
-- 
2.43.0


From a4c73cdfbe22498051b8dd9de6f56451d8f020b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 15/37] fix: add the chunks of a tuple to declarative memory

---
 pyactr/declarative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 0fdc629..256809d 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -82,6 +82,8 @@ class DecMem(collections.abc.MutableMapping):
 
         element can be either one chunk, or an iterable of chunks.
         """
+        if isinstance(element, collections.abc.Hashable) and isinstance(element, collections.abc.Iterable) and not isinstance(element, (chunks.Chunk, str)):
+            element = list(element) #hashable iterables of chunks (e.g., tuples) are collections of chunks, too
         if isinstance(time, collections.abc.Iterable):
             try:
                 new = np.concatenate((self.setdefault(element, np.array([])), np.array(time)))
-- 
2.43.0


From fa7583c77e412a3b5e461a72149d090cbf4bba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 16/37] fix: make the hash of a chunk independent of the order
 of its negated values

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 58ea8f2..add038f 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -206,7 +206,7 @@ class Chunk(Sequence):
                             else:
                                 yield tuple([key, hash(value)])
 
-        self.__hash = hash(tuple(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
+        self.__hash = hash(frozenset(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
         return self.__hash[0]
 
     def __iter__(self):
-- 
2.43.0


From 86e71c58f334b6447cdaee9529eaa31083f44e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 17/37] fix: keep the chunk of a buffer when its modification
 is refused

---
 pyactr/buffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 875ada4..258bdc9 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -99,11 +99,11 @@ class Buffer(collections.abc.MutableSet):
         """
         if actrvariables == None:
             actrvariables = {}
-        elem = self._data.pop()
         try:
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1]) for x in otherchunk.removeunused()} #creates dict of attr-val pairs according to otherchunk
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
+        elem = self._data.pop()
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
         mod_chunk = chunks.Chunk(otherchunk.typename, **elem_attr_val) #creates new chunk
-- 
2.43.0


From 88f1936dab53a19d370095bdec92f08df90264e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 18/37] fix: let the attribute now of a simulation give its
 current time

---
 pyactr/simulation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9460268..e4b65dd 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -86,7 +86,13 @@ class Simulation:
 
         #here below -- simulation values, accessible by user
         self.current_event = None
-        self.now = self.__simulation.now
+
+    @property
+    def now(self):
+        """
+        Current time in simulation.
+        """
+        return self.__simulation.now
 
     def __activate__(self, event):
         """
-- 
2.43.0


From 49cb08798ccf2674b9654317dec9af6f43d1585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 19/37] fix: start real-time simulations at the initial time
 asked for

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index e4b65dd..04ed5eb 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -51,7 +51,7 @@ class Simulation:
         self.__realtime = realtime
 
         if not self.gui and realtime:
-            self.__simulation = simpy.RealtimeEnvironment()
+            self.__simulation = simpy.RealtimeEnvironment(initial_time=round(initial_time, 4))
 
         self.__trace = trace
 
-- 
2.43.0


From b4f02fd435bcf4542200ab0d441b9112f648d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 20/37] fix: do not share the default of
 buffer_spreading_activation among models

---
 pyactr/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index d3e1fbb..cb743a9 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -2,6 +2,8 @@
 ACT-R Model.
 """
 
+import copy
+
 import pyparsing
 
 from pyactr import chunks, declarative, goals, motor, productions, simulation, utilities, vision
@@ -97,7 +99,7 @@ class ACTRModel:
         self.productions = productions.Productions()
         self.__similarities = {}
 
-        self.model_parameters = self.MODEL_PARAMETERS.copy()
+        self.model_parameters = copy.deepcopy(self.MODEL_PARAMETERS)
 
         try:
             if not set(model_parameters.keys()).issubset(set(self.MODEL_PARAMETERS.keys())):
-- 
2.43.0


From d0bb76121b54da8af2f2a9fc2f488f4e0e4ac184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 21/37] fix: let learned utilities decide which rule is
 selected

---
 pyactr/productions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index fc15f7f..76c9f71 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -497,6 +497,7 @@ class ProductionRules:
         
         self.last_rule_slotvals = self.current_slotvals.copy()
 
+        self.ordered_rulenames = sorted((x for x in self.ordered_rulenames if x in self.rules), key=lambda x: self.rules[x]["utility"], reverse=True) #utilities might have changed due to utility learning and production compilation
         for rulename in self.ordered_rulenames:
             self.used_rulename = rulename
             production = self.rules[rulename]["rule"]()
-- 
2.43.0


From cea2ada95ff095f7344aa78c709f2233e61a8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 22/37] fix: let each model retrieve with its own similarities

---
 pyactr/declarative.py | 4 ++++
 pyactr/model.py       | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 256809d..a827d1f 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -122,6 +122,9 @@ class DecMemBuffer(buffers.Buffer):
         self.__finst = finst
         self.activation = None #activation of the last retrieved element
 
+        #similarities between chunks (set by the model, used in partial matching)
+        self.similarities = {}
+
         #parameters
         self.model_parameters = {}
 
@@ -196,6 +199,7 @@ class DecMemBuffer(buffers.Buffer):
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"Retrieving the chunk '{otherchunk}' is impossible; {arg}")
         chunk_tobe_matched = chunks.Chunk(otherchunk.typename, **mod_attr_val)
+        chunk_tobe_matched._similarities = self.similarities
 
         max_A = float("-inf")
 
diff --git a/pyactr/model.py b/pyactr/model.py
index cb743a9..3dc8330 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -324,6 +324,8 @@ class ACTRModel:
 
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
 
-        chunks.Chunk._similarities = self.__similarities
+        for key in self.__buffers:
+            if isinstance(self.__buffers[key], declarative.DecMemBuffer):
+                self.__buffers[key].similarities = self.__similarities
 
         return simulation.Simulation(self.__env, realtime, trace, gui, self.__buffers, used_productions, initial_time, environment_process, **kwargs)
-- 
2.43.0


From 85075905a7e8386614e42cd955ae7d143f8bd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 23/37] fix: rules are not compiled when the second queries its
 retrieval for error among other things

---
 pyactr/productions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 76c9f71..d0fead2 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -368,7 +368,7 @@ class Productions(collections.UserDict):
                             return True
                 elif buff in {x for x in buffers.keys() if isinstance(buffers[x], declarative.DecMemBuffer)}:
                     for key2 in pro21:
-                        if key2[0] == utilities._LHSCONVENTIONS_REVERSED["query"] and key2[1:] == buff and pro21[key2] == {"state": "error"}:
+                        if key2[0] == utilities._LHSCONVENTIONS_REVERSED["query"] and key2[1:] == buff and pro21[key2].get("state") == "error":
                             return True
 
         return False
-- 
2.43.0


From 60436307fff003d88b68ce61c71dc382a2292a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 24/37] fix: rules are not compiled when the second does not
 use the finished retrieval of the first

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index d0fead2..d1d2508 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -410,6 +410,9 @@ class Productions(collections.UserDict):
 
         matched, valued = utilities.match(pro2, slotvals, rule_name1, rule_name2)
 
+        if any(isinstance(slotvals[buff], collections.abc.MutableSequence) for buff in slotvals):
+            return False, False #rule_name2 does not test the retrieval, so there is nothing that can replace it
+
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
         
         new_2rule = self.__substitute__(new_2rule, matched, valued)
-- 
2.43.0


From 69d8ed991463494a6c6c83736caa45d73d3e2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 25/37] fix: choose between equally long variable names
 alphabetically when compiling rules

The choice was left to the order of a set of names, which changes with Python's
hash seed, so that the same model gave differently named compiled rules from one
run to the next.
---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index f98e799..69d2a50 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -317,7 +317,7 @@ def match(dict2, slotvals, name1, name2):
             valued.update({x: temp_val for x in temp_set})
         else:
             try:
-                temp_var = sorted(temp_set, key=lambda x:len(x))[0]
+                temp_var = sorted(temp_set, key=lambda x: (len(x), x))[0] #alphabetically if equally long, since the order of a set changes from run to run
             except IndexError:
                 pass
             else:
-- 
2.43.0


From d33c630006fc024b31a35ce29db98ad706ea2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 26/37] fix: the hash of a chunk uses the whole name of a
 variable, not its letters

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index add038f..936cc2a 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -186,7 +186,7 @@ class Chunk(Sequence):
                 temp_varval = {"values": set(), "negvalues": set()}
                 for key in ["variables", "negvariables"]:
                     if getattr(varval, key):
-                        for value in getattr(varval, key):
+                        for value in getattr(varval, key) if key == "negvariables" else [varval.variables]: #negvariables has several names, variables is one name
                             try:
                                 temp_varval[re.sub("variables", "values", key)].add(self.boundvars[utilities.ACTRVARIABLE + value]) #add (neg)value based on the (neg)variable
                             except KeyError:
-- 
2.43.0


From 8204804a17120c327f649f4de09862e64fe50f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 27/37] fix: a refused slot of a built-in chunk type is an
 ACT-R error, not replaced by a TypeError

---
 pyactr/chunks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 936cc2a..b95d710 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -147,8 +147,7 @@ class Chunk(Sequence):
             chunktype(typename, dictionary.keys())  #If chunktype completely missing, it is created first
             warnings.warn(f"Chunk type {typename} was not defined; added automatically")
 
-        finally:
-            self.actrchunk = self._chunktypes[typename](**kwargs)
+        self.actrchunk = self._chunktypes[typename](**kwargs)
 
         self.__empty = None #this will store what the chunk looks like without empty values (the values will be stored on the first call of the relevant function)
         self.__unused = None #this will store what the chunk looks like without unused values
-- 
2.43.0


From d80eaf0c73d51de7fd3ad3bdc08ac8bc12cf9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 28/37] fix: the slot 'isa' is refused in a chunk type, as
 documented

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index b95d710..3dda8c4 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -30,7 +30,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
         pass  # assume it's already a sequence of identifiers
     field_names = tuple(sorted(name + "_" for name in field_names))
     for each in field_names:
-        if each == "ISA" or each == "isa":
+        if each == "ISA_" or each == "isa_":
             raise ACTRError("You cannot use the slot 'isa' in your chunk. That slot is used to define chunktypes.")
 
     # If an ancestor was specified, union the field names and re-sort
-- 
2.43.0


From 6d018f5c49bf07ffcef6715688534b816c34fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 29/37] fix: the type of a chunk text is read from ISA and Isa
 too, as from isa

---
 pyactr/chunks.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 3dda8c4..306c12d 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -418,12 +418,9 @@ def createchunkdict(chunk):
                 chunk_dict[key][x] = None
         chunk_dict[key] = utilities.VarvalClass(**chunk_dict[key])
     type_chunk = ""
-    try:
-        type_chunk = chunk_dict.pop("isa").values #change this - any combination of capital/small letters
-        type_chunk = chunk_dict.pop("ISA").values
-        type_chunk = chunk_dict.pop("Isa").values
-    except KeyError:
-        pass
+    for isa in ("isa", "ISA", "Isa"): #change this - any combination of capital/small letters
+        if isa in chunk_dict:
+            type_chunk = chunk_dict.pop(isa).values
     return type_chunk, chunk_dict
 
 def makechunk(nameofchunk="", typename="", **dictionary):
-- 
2.43.0


From e91fa11c70d9b7db95600221dc07830177e57690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 30/37] fix: keep the ACT-R error raised while a rule is read
 again for compilation

A finally block updated a local that was never assigned when re-reading the
rule failed, so the user saw UnboundLocalError instead of the ACT-R error.
---
 pyactr/productions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index d1d2508..a9a8818 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -658,8 +658,7 @@ class ProductionRules:
                 slotvaldict = next(production)[code+name]._asdict()
             except KeyError:
                 slotvaldict = {}
-            finally:
-                slotvaldict.update(RHSdict)
+            slotvaldict.update(RHSdict)
             self.current_slotvals[name] = slotvaldict
 
         modified.modify(otherchunk, temp_actrvariables) #time variable is currently not used - needed if modification would cost time
@@ -683,8 +682,7 @@ class ProductionRules:
                 slotvaldict = next(production)[code+name]._asdict()
             except KeyError:
                 slotvaldict = {}
-            finally:
-                slotvaldict.update(RHSdict)
+            slotvaldict.update(RHSdict)
             self.current_slotvals[name] = slotvaldict
 
         modified.modify(otherchunk, temp_actrvariables)
-- 
2.43.0


From eb7f65dac57beaba062648d6d3fba59dc690f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 31/37] fix: with several memories of which one is filled,
 buffers without a memory get that one

---
 pyactr/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index 3dc8330..4145b16 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -303,8 +303,8 @@ class ACTRModel:
                 self.__buffers[key].dm = self.decmem #if only one dm, let all buffers use it
         elif len([x for x in self.decmems.values() if x]) == 1:
             for key in self.__buffers:
-                if not self.__buffers[key].dm:
-                    self.__buffers[key].dm = self.decmem #if only one non-trivial dm, let buffers use it that do not have a dm specified
+                if self.__buffers[key].dm == None:
+                    self.__buffers[key].dm = [x for x in self.decmems.values() if x][0] #if only one non-trivial dm, let buffers use it that do not have a dm specified
 
         decmem = {name: self.__buffers[name].dm for name in self.__buffers\
                 if self.__buffers[name].dm != None} #dict of declarative memories used; more than 1 decmem might appear here
-- 
2.43.0


From 7c56fbbeb82f2dad741a427dcafa291c7e6d27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 32/37] fix: a copied buffer keeps its delay or finst, and a
 copied retrieval buffer gets a copy of its memory

---
 pyactr/declarative.py | 6 +++---
 pyactr/goals.py       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index a827d1f..86df4de 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -174,9 +174,9 @@ class DecMemBuffer(buffers.Buffer):
         """
         Copy buffer, along with its declarative memory, unless dm is specified. You need to specify new dm if 2 buffers share the same dm - only one of them should copy dm then.
         """
-        if dm == None:
-            dm = self.dm 
-        copy_buffer = DecMemBuffer(dm, self._data.copy())
+        if dm == None and self.dm != None:
+            dm = self.dm.copy()
+        copy_buffer = DecMemBuffer(dm, self._data.copy(), self.finst)
         return copy_buffer
 
     def test(self, state, inquiry):
diff --git a/pyactr/goals.py b/pyactr/goals.py
index 1b33b29..900ef2b 100644
--- a/pyactr/goals.py
+++ b/pyactr/goals.py
@@ -68,7 +68,7 @@ class Goal(buffers.Buffer):
         """
         if harvest == None:
             harvest = self.dm
-        copy_goal = Goal(self._data.copy(), harvest)
+        copy_goal = Goal(self._data.copy(), harvest, self.delay)
         return copy_goal
     
     def test(self, state, inquiry):
-- 
2.43.0


From 0c80ac80b71e3e7b2cfc2fc5b712736ca73b7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:09 +0000
Subject: [PATCH 33/37] fix: a compiled rule no longer tests slots that its
 first rule sets

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index a9a8818..5bdda70 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -151,7 +151,7 @@ class Productions(collections.UserDict):
                 if buff in slotvals:
                     for slot in pro2buff:
                         try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
+                            slotvals_slot = slotvals[buff][slot].values or slotvals[buff][slot].variables
                         except (KeyError, AttributeError, TypeError):
                             slotvals_slot = None
                         if not slotvals_slot:
@@ -192,7 +192,7 @@ class Productions(collections.UserDict):
                 if buff in slotvals:
                     for slot in pro2buff:
                         try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
+                            slotvals_slot = slotvals[buff][slot].values or slotvals[buff][slot].variables
                         except (KeyError, AttributeError, TypeError):
                             slotvals_slot = None
                         if not slotvals_slot:
-- 
2.43.0


From a32c747eb51ceac940da83de4ccb8c341a0aced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 34/37] fix: fan counts stayed as they were when a chunk was
 deleted from declarative memory

---
 pyactr/declarative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 86df4de..89d6d56 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -31,6 +31,9 @@ class DecMem(collections.abc.MutableMapping):
     
     def __delitem__(self, key):
         del self._data[key]
+        #the counters used for strength of association are calculated anew when needed
+        self.restricted_number_chunks.clear()
+        self.unrestricted_number_chunks.clear()
 
     def __iter__(self):
         for elem in self._data:
-- 
2.43.0


From 5952865185aa0bd63adfd33bbb09f588037c2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:57 +0000
Subject: [PATCH 35/37] fix: matching a chunk with an equal one without partial
 matching gave 0, which is no match

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 306c12d..1188a88 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -248,7 +248,7 @@ class Chunk(Sequence):
         """
         similarity = 0
         if self == otherchunk:
-            return similarity
+            return similarity if partialmatching else True
         #below starts the check that self is proper part of otherchunk. __emptyvalue is ignored. 4 cases have to be checked separately, =x, ~=x, !1, ~!1. Also, variables and their values have to be saved in boundvars. When self is not part of otherchunk the loop adds to (dis)similarity.
         for x in self:
 
-- 
2.43.0


From b8106be8a44824ca0deb98dbd12e65e7f430b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:16 +0000
Subject: [PATCH 36/37] fix: a built-in chunk type could be given more slots by
 including another type

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 1188a88..96ea3b2 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -21,7 +21,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
     :param include: a string or list of strings naming existing chunk type(s) to inherit slot names from
     :param defaults: default values for the slots, given as an iterable, counting from the last element
     """
-    if cls_name in utilities.SPECIALCHUNKTYPES and field_names != utilities.SPECIALCHUNKTYPES[cls_name]:
+    if cls_name in utilities.SPECIALCHUNKTYPES and (include or field_names != utilities.SPECIALCHUNKTYPES[cls_name]):
         raise ACTRError(f"You cannot redefine slots of the chunk type '{cls_name}'; you can only use the slots '{utilities.SPECIALCHUNKTYPES[cls_name]}'")
 
     try:
-- 
2.43.0


From 4d287b66d2b8aeb8d1f260b6fbb3549563eef04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:56 +0000
Subject: [PATCH 37/37] fix: a clash of a renamed excluded variable is looked
 for under its new name

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 69d2a50..9767357 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -187,7 +187,7 @@ def make_chunkparts_without_varconflicts(chunkpart, rule_name, variables):
     temp_negvar = set()
     for x in varval.negvariables:
         new_name = "".join([str(x), "__rule__", rule_name])
-        if "".join(["=", "new_name"]) in variables:
+        if "".join(["=", new_name]) in variables:
             raise ACTRError(f"A name clash appeared when trying to compile two rules. Try to rename variables in the rule '{rule_name}'")
         else:
             temp_negvar.add(new_name)
-- 
2.43.0

