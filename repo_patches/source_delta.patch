From e521db72fc143d892fa68c15bbdd1760c168de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/85] fix: deactivate_all_mimic_states only lets go of the
 given task's mimics

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9cb8282..c37729c 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -531,7 +531,7 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states):
+        for state in list(self._mimic_states_by_task[task]):
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From c65a7bed8ec735125803f2e4eb1298e76c0ed785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 02/85] fix: values from before or inside a routine no longer
 leak into or out of it

A routine started after an event that had a value was sent that value
(TypeError on a just-started generator), and a routine that returned nothing
handed the value of its last event to the task.
---
 src/upstage_des/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 158e30a..4f3779a 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -493,8 +493,8 @@ class Task(SettableEnv):
                         except StopIteration as e:
                             generators.pop()
                             gen_objs.pop()
-                            if e.value is not None:
-                                return_item = e.value
+                            # The value of a routine's yield is what it returned.
+                            return_item = e.value
                             if not generators:
                                 stop_run = True
                                 break
@@ -505,6 +505,8 @@ class Task(SettableEnv):
                         if isinstance(next_event, Routine):
                             generators.append(next_event._run())
                             gen_objs.append(next_event)
+                            # The new generator can't be sent the last value
+                            return_item = None
                             continue
 
                         if isinstance(next_event, Process):
-- 
2.43.0


From a86e2682801b93e4f50f7d57bac43ab777590c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:42 +0000
Subject: [PATCH 03/85] fix: cancelling a request granted at that same instant
 gives back what it took

The item, amount or resource slot was lost: the request was no longer in a
queue, and the interrupted task (or loser of an Any) never received it.
---
 src/upstage_des/events.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f345f1e..b113d86 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -274,14 +274,24 @@ class BaseRequestEvent(BaseEvent):
         """
         super().__init__(rehearsal_time_to_complete=rehearsal_time_to_complete)
         self._request_event: SIM_REQ_EVTS | None = None
+        self._gave_back: bool = False
 
     def cancel(self) -> None:
         """Cancel the Request."""
         if self._request_event is None:
             return
-        if not self.is_complete():
+        if self.is_complete():
+            return
+        if self._request_event.triggered:
+            # Granted at this instant, but nobody got to see it.
+            if not self._gave_back:
+                self._gave_back = True
+                self._give_back()
+        else:
             self._request_event.cancel()
-        # TODO: Do we put it back?
+
+    def _give_back(self) -> None:
+        """Return what a granted, but not completed, request took."""
 
     def is_complete(self) -> bool:
         """Test if the request is finished.
@@ -297,7 +307,7 @@ class BaseRequestEvent(BaseEvent):
                 )
             return self.done_rehearsing
         assert self._request_event is not None
-        return self._request_event.processed
+        return self._request_event.processed and not self._gave_back
 
 
 class Put(BaseRequestEvent):
@@ -594,6 +604,13 @@ class Get(BaseRequestEvent):
             )
         return self._request_event
 
+    def _give_back(self) -> None:
+        """Put the item or amount back."""
+        if isinstance(self._request_event, ContainerGet):
+            self.get_location.put(self._request_event.amount)
+        elif self._request_event is not None:
+            self.get_location.put(self._request_event.value)
+
     def get_value(self) -> tyAny:
         """Get the value returned when the request is complete.
 
@@ -710,6 +727,11 @@ class ResourceHold(BaseRequestEvent):
             return self._request_event
         raise UpstageError(f"Bad stage for Resource Hold: {self._stage}")
 
+    def _give_back(self) -> None:
+        """Release a slot that was granted, but not completed."""
+        if isinstance(self._request_event, Request):
+            self.resource.release(self._request_event)
+
 
 class FilterGet(Get):
     """A Get for a FilterStore."""
-- 
2.43.0


From 3d7add135896c4a6f9c4527114677f67b02a7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 04/85] fix: ending a task does not fail on pending events that
 are already done

Cancelling an Any/All that triggered at that same instant, or one holding an
Event that already succeeded, raised instead of ending the task.
---
 src/upstage_des/events.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index b113d86..40fa7d0 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -435,8 +435,9 @@ class MultiEvent(BaseEvent):
         """Cancel the multi event and propagate it to the sub-events."""
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
-        self._simpy_event.defused = True
-        self._simpy_event.fail(Exception("defused"))
+        if not self._simpy_event.triggered:
+            self._simpy_event.defused = True
+            self._simpy_event.fail(Exception("defused"))
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
@@ -876,7 +877,11 @@ class Event(BaseEvent):
         """Cancel the event.
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
+
+        An event that already succeeded has nothing left to cancel.
         """
+        if self._event.triggered and not self._event.defused:
+            return
         try:
             self._event.defused = True
             self._event.succeed()
-- 
2.43.0


From 204323b6398594d8b8eca9aaada47fa399b52461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 05/85] fix: ending a task that awaits a process finishing at
 that instant does not fail

---
 src/upstage_des/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 4f3779a..4b723d5 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -454,7 +454,9 @@ class Task(SettableEnv):
                         actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
                 next_event.cancel()
             elif isinstance(next_event, Process):
-                next_event.interrupt(cause=interrupt.cause)
+                # It may have finished at this same instant.
+                if next_event.is_alive:
+                    next_event.interrupt(cause=interrupt.cause)
             else:
                 raise SimulationError(f"Bad event passed: {next_event}")
         elif _interrupt_action != InterruptStates.IGNORE:
-- 
2.43.0


From def881b01451b6b942f187e78eb68931c032990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 06/85] fix: a second interrupt does not break a routine's
 clean up

Two interrupts at one instant (e.g. two nucleus states changing) raised the
second one out of the task while the routine's cancel() was still running.
---
 src/upstage_des/routines.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1a6ac68..3c7b340 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -62,7 +62,14 @@ class Routine(SettableEnv):
         # This can be very unsafe - if a store/container can't handle a put
         # or a get of some kind, it will hold forever.
         for evt in self.cancel():
-            yield evt.as_event()
+            simpy_event = evt.as_event()
+            while True:
+                try:
+                    yield simpy_event
+                    break
+                except SIM.Interrupt:
+                    # The task is already being stopped; let the clean up finish.
+                    continue
 
     def rehearse(self) -> tuple[float, Any | None]:
         """Rehearse the Routine.
-- 
2.43.0


From 4e70cdd896b19a253060b3fa03de0f5b79f25542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 07/85] fix: an Event whose waiting task was stopped can be
 waited on and succeeded again

Ending or restarting a task left its pending Event succeeded: the restarted
task ran straight through it, and the real succeed() was refused.
---
 src/upstage_des/events.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 40fa7d0..72d7b50 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -834,7 +834,9 @@ class Event(BaseEvent):
         Returns:
             SIM.Event
         """
-        if self.is_complete():
+        if self._was_cancelled():
+            self.reset()
+        elif self.is_complete():
             if self._auto_reset:
                 self.reset()
             else:
@@ -849,6 +851,8 @@ class Event(BaseEvent):
         """
         if self.is_complete():
             raise SimulationError("Event has already completed")
+        if self._was_cancelled():
+            self.reset()
         self._payload = kwargs
         self._event.succeed()
 
@@ -858,7 +862,15 @@ class Event(BaseEvent):
         Returns:
             bool
         """
-        return self._event.processed
+        return self._event.processed and not self._was_cancelled()
+
+    def _was_cancelled(self) -> bool:
+        """If the event was only released by a cancel, and never succeeded.
+
+        Returns:
+            bool
+        """
+        return self._event.triggered and self._event.defused
 
     def get_payload(self) -> dict[str, tyAny]:
         """Get any payload from the call to succeed().
@@ -878,9 +890,9 @@ class Event(BaseEvent):
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
 
-        An event that already succeeded has nothing left to cancel.
+        An event that is already over has nothing left to cancel.
         """
-        if self._event.triggered and not self._event.defused:
+        if self._event.processed or (self._event.triggered and not self._was_cancelled()):
             return
         try:
             self._event.defused = True
-- 
2.43.0


From fa68f1d118ba15cdfa564b1ef2d7b70ed8ae0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 08/85] fix: a withdrawn request no longer holds up the
 requests behind it

SimPy's cancel only removes the request from the queue, so a small container
request behind a large one that was withdrawn kept waiting.
---
 src/upstage_des/events.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 72d7b50..f9d7ef6 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -289,6 +289,10 @@ class BaseRequestEvent(BaseEvent):
                 self._give_back()
         else:
             self._request_event.cancel()
+            # SimPy only removes the request. Requests it was holding up, such as smaller
+            # ones on a container, need to be looked at now.
+            self._request_event.resource._trigger_put(None)
+            self._request_event.resource._trigger_get(None)
 
     def _give_back(self) -> None:
         """Return what a granted, but not completed, request took."""
-- 
2.43.0


From a94896b219c2f463abd17ae94e0f2ee362060936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 09/85] fix: yields inside a routine evaluate to the event's
 value

Routine bodies always got None from their yields, so 'item = yield Get(store)'
lost the item; the same happened when rehearsing.
---
 src/upstage_des/routines.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 3c7b340..f0421e2 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -45,11 +45,12 @@ class Routine(SettableEnv):
     def _run(self) -> ROUTINE_GEN:
         try:
             gen = self.run()
+            value = None
             while True:
-                evt = next(gen)
+                evt = gen.send(value)
                 if not isinstance(evt, BaseEvent):
                     raise SimulationError("Routines only support BaseEvent subclasses.")
-                yield evt
+                value = yield evt
         except StopIteration as e:
             return e.value
         except GeneratorExit:
@@ -87,10 +88,14 @@ class Routine(SettableEnv):
             tuple[float, Any | None]: Time and value of rehearsal.
         """
         time = 0.0
-        for evt in self._run():
-            t, _ = evt.rehearse()
-            time += t
-        return time, None
+        gen = self._run()
+        value = None
+        try:
+            while True:
+                t, value = gen.send(value).rehearse()
+                time += t
+        except StopIteration:
+            return time, None
 
 
 class WindowedGet(Routine):
-- 
2.43.0


From 5bf1452c1d0ae9ca3e22029570fa7d0efaa4a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 10/85] fix: resetting a pending Event keeps the tasks that
 wait on it

Event.reset() replaced an event that had not been succeeded yet, so tasks already
waiting on it were never released.
---
 src/upstage_des/events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f9d7ef6..edcf84b 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -886,6 +886,9 @@ class Event(BaseEvent):
 
     def reset(self) -> None:
         """Reset the event to allow it to be held again."""
+        if not self._event.triggered:
+            # It is still pending, and tasks may be waiting on it.
+            return
         assert isinstance(self.env, SIM.Environment)
         self._event = SIM.Event(self.env)
 
-- 
2.43.0


From 6b31b8b03aabdc96c3762a99af307b624bad6bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 11/85] fix: a refused second succeed() does not replace an
 Event's payload

Succeeding an Event twice at one instant raised an error, but the waiting tasks
got the payload of the refused call.
---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index edcf84b..a0175e0 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -857,8 +857,8 @@ class Event(BaseEvent):
             raise SimulationError("Event has already completed")
         if self._was_cancelled():
             self.reset()
-        self._payload = kwargs
         self._event.succeed()
+        self._payload = kwargs
 
     def is_complete(self) -> bool:
         """Is the event done?
-- 
2.43.0


From 3ff8688a05637be1095e67eaa37c8581d705a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 12/85] fix: an interrupted WindowedGet returns the item it got
 at that instant

An item obtained at the instant of the interrupt, but not yet collected by the
routine, was neither in the result nor put back in the store.
---
 src/upstage_des/routines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index f0421e2..26d8dc8 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -169,10 +169,15 @@ class WindowedGet(Routine):
             need_wait = True
             obj = incoming.get_value()
             self.result.append(obj)
+            self._evt = None
         return self.result
 
     def cancel(self) -> ROUTINE_GEN:
         """Return all the items to the store and cancel the get."""
+        if self._evt is not None and self._evt.is_complete():
+            # Obtained at the instant of the interrupt, but not collected yet.
+            self.result.append(self._evt.get_value())
+            self._evt = None
         while self.result:
             yield Put(self.store, self.result.pop(0))
 
-- 
2.43.0


From 3e2c65caf9ae439c4e59bcc49bacc2edfb0455e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 13/85] fix: assigning an active linear state restarts the line
 at the assignment

Setting an active LinearChangingState or SharedLinearChangingState that had not
been read at that instant applied the rate to the new value for the time before
the assignment as well.
---
 src/upstage_des/state_sharing.py | 14 ++++++++++++++
 src/upstage_des/states.py        | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 5867c2f..f2d6249 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -50,6 +50,20 @@ class SharedLinearChangingState(ActiveState[float]):
         )
         self.IGNORE_LOCK: bool = True
 
+    def __set__(self, instance: Actor, value: float) -> None:
+        """Set the state's value.
+
+        While the state is active, it keeps changing from the new value on.
+
+        Args:
+            instance (Actor): The actor instance of the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        data = instance.get_active_state_data(self.name, without_update=True)
+        if data:
+            data["_last_time"] = instance.env.now
+
     def _active(self, instance: Actor) -> float | None:
         """Return a value to set based on time or some other criteria.
 
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d70d72..9523df8 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -477,6 +477,20 @@ class LinearChangingState(ActiveState[float]):
     >>>     )
     """
 
+    def __set__(self, instance: "Actor", value: float) -> None:
+        """Set the state's value.
+
+        While the state is active, it keeps changing from the new value on.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        data = instance.get_active_state_data(self.name, without_update=True)
+        if data:
+            data["started_at"] = instance.env.now
+
     def _active(self, instance: "Actor") -> float | None:
         """Return a value to set based on time or some other criteria."""
         data = self.get_activity_data(instance)
-- 
2.43.0


From 3135eaf52b80e2bcd6e9d60d6e3e28496a738718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 14/85] fix: reading a Cartesian mover on arrival does not fail
 at large clock times

---
 src/upstage_des/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 9523df8..4f0e533 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -615,7 +615,8 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         t: float
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-12):
+            # Clock times carry rounding errors that grow with their size
+            if time_elapsed <= (sum_t + 1e-6):
                 return i, sum_t - t
         raise SimulationError(
             "CartesianLocation active state exceeded travel time: "
-- 
2.43.0


From 5213232dac22b036a2a1114d2d40b9027b36bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 15/85] fix: a zero-length leg does not divide by zero when a
 mover is read

---
 src/upstage_des/states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 4f0e533..93a0161 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -674,7 +674,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
             path_vector: list[float] = path_data["vectors"][wypt_index]
-            time_frac = time_along / path_time
+            time_frac = time_along / path_time if path_time else 1.0
             direction_amount = [time_frac * v for v in path_vector]
             new_point = _vector_add(path_start._as_array(), direction_amount)
 
@@ -879,7 +879,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             path_dist: float = path_data["distances"][wypt_index]
             path_bearing: float = path_data["bearings"][wypt_index]
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
-            moved_distance = (time_along / path_time) * path_dist
+            time_frac = time_along / path_time if path_time else 1.0
+            moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
                 (path_start.lat, path_start.lon),
                 path_bearing,
@@ -889,7 +890,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             # update the altitude
             waypoint: GeodeticLocation = data["waypoints"][wypt_index]
             alt_shift = waypoint.alt - path_start.alt
-            alt_shift *= time_along / path_time
+            alt_shift *= time_frac
             new_alt = path_start.alt + alt_shift
             # make the right kind of location object
             lat, lon = new_point[0], new_point[1]
-- 
2.43.0


From cb3adab54a939a9f35aa34a4b7d86e6154795a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 16/85] fix: moving between locations given in radians

---
 src/upstage_des/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 93a0161..400b2fe 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -765,8 +765,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         starts: list[GeodeticLocation] = []
         for wypt in waypoints:
             dist, bear = STAGE.stage_model.distance_and_bearing(
-                (current.lat, current.lon),
-                (wypt.lat, wypt.lon),
+                current.latlon(),
+                wypt.latlon(),
                 units=STAGE.distance_units,
             )
             time = dist / speed
@@ -882,7 +882,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             time_frac = time_along / path_time if path_time else 1.0
             moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
-                (path_start.lat, path_start.lon),
+                path_start.latlon(),
                 path_bearing,
                 moved_distance,
                 STAGE.distance_units,
-- 
2.43.0


From 660dad50c720b8ec3009a34b575640261caf4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 17/85] fix: longitude term of the WGS84 direct problem

---
 src/upstage_des/geography/wgs84.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 662b52c..306e983 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -237,7 +237,7 @@ class WGS84(WGS84Conversions):
         )
         C = f / 16 * cos_sq_alpha * (4 + f * (4 - 3 * cos_sq_alpha))
         L = lam - (1 - C) * f * sin_alpha * (
-            sigma + C * sin_alpha * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
+            sigma + C * sin_sigma * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
         )
         lambda_2 = lambda_1 + L
 
-- 
2.43.0


From f0079f57f125d4fae27dd787c45edd12298bb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:11 +0000
Subject: [PATCH 18/85] fix: activating a state that cannot be active does not
 leave it locked

---
 src/upstage_des/actor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index c37729c..4e746af 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -332,6 +332,8 @@ Args:
         """
         if state not in self._state_defs:
             raise SimulationError(f"No state named '{state}' to activate")
+        if not isinstance(self._state_defs[state], ActiveState):
+            raise SimulationError(f"State '{state}' is not an active type state.")
         self._lock_state(state=state, task=task)
         self._set_active_state_data(state_name=state, started_at=self.env.now, task=task, **kwargs)
         # any initialization in the state needs to be called via attribute access
-- 
2.43.0


From ad9378eb4b13bb941ba0e5c4fcdfeebf07e053ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:30 +0000
Subject: [PATCH 19/85] fix: a task cannot stop the mimic of another task

---
 src/upstage_des/actor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 4e746af..024ce99 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -518,6 +518,8 @@ Args:
             self_state (str): State name
             task (Task): Task it's running in.
         """
+        if self_state not in self._mimic_states_by_task[task]:
+            raise SimulationError(f"State '{self_state}' is not mimicking for '{task}'.")
         getattr(self, self_state)
         mimic_actor, mimic_state = self._mimic_states[self_state]
         state = self._state_defs[self_state]
-- 
2.43.0


From f5cd6c04ef164c5c3a09721f22fba7ea746a8861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 20/85] fix: a recording mimic of a mimicking state records the
 changes too

---
 src/upstage_des/actor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 024ce99..d4fb616 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -508,6 +508,8 @@ Args:
             def recorder(instance: Actor, value: Any) -> None:
                 if instance is mimic_actor:
                     state._do_record(self, value)
+                    # This state may itself be mimicked by others.
+                    state._do_callback(self, value)
 
             mimic_actor._add_callback_to_state(self_state_name, recorder, mimic_state)
 
-- 
2.43.0


From 2869f2a447faea1c35e9e8c36ba5d81a8b211d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:35 +0000
Subject: [PATCH 21/85] fix: a moving state records its value when it is
 activated

---
 src/upstage_des/states.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 400b2fe..69bb895 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -666,7 +666,9 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             # Can probably only happen if active state is set incorrectly
             raise SimulationError(f"Cannot set state '{self.name}' start time in the future!")
         elif elapsed == 0:
-            return_value: CartesianLocation = data["value"]  # pragma: no cover
+            return_value: CartesianLocation = data["value"]
+            self._do_record(instance, return_value)
+            self._do_callback(instance, return_value)
         else:
             # Get the location along the waypoint path
             wypt_index, wypt_start = self._get_index(path_data, elapsed)
@@ -870,7 +872,9 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             # Can probably only happen if active state is set incorrectly
             raise SimulationError(f"Cannot set state '{self.name}' start time in the future!")
         elif elapsed == 0:
-            return_value: GeodeticLocation = data["value"]  # pragma: no cover
+            return_value: GeodeticLocation = data["value"]
+            self._do_record(instance, return_value)
+            self._do_callback(instance, return_value)
         else:
             # Get the location along the waypoint path
             wypt_index, wypt_start = self._get_index(path_data, elapsed)
-- 
2.43.0


From 3c47539cb2a3606fa25edb002f0a98b497e9de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 22/85] fix: a shared state records when its last user
 deactivates it

---
 src/upstage_des/state_sharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index f2d6249..1c147ea 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -139,4 +139,4 @@ class SharedLinearChangingState(ActiveState[float]):
         getattr(instance, self.name)
         if rate_tasks:
             return True
-        return False
+        return super().deactivate(instance, task)
-- 
2.43.0


From 72e8d41caa37376613903eab92ad2b559f43017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 23/85] fix: recording functions are not given activation marks

---
 src/upstage_des/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 69bb895..efb9e63 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -206,7 +206,9 @@ class State(Generic[ST]):
         ):
             instance._state_histories[self.name].append(to_append)
 
-        self._do_record_funcs(instance, *to_append)
+        # Activation marks are not values of the state
+        if override is None:
+            self._do_record_funcs(instance, *to_append)
 
     def _do_callback(self, instance: "Actor", value: ST) -> None:
         """Run callbacks for the state change.
-- 
2.43.0


From ed94809f65c2e9cf9b13215c1c5cbee868a9bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 24/85] fix: every actor gets its own object of a recording
 class

---
 src/upstage_des/actor.py  |  1 +
 src/upstage_des/states.py | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index d4fb616..cbb4c1a 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -146,6 +146,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
         self._debug_log: list[tuple[float | int, str]] = []
 
         self._state_histories: dict[str, list[tuple[float, Any]]] = {}
+        self._recording_objects: dict[str, Callable[[float, Any], Any]] = {}
 
         # Task Network Nucleus hook-ins
         self._state_listener: TaskNetworkNucleus | None = None
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index efb9e63..913e5af 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -155,11 +155,8 @@ class State(Generic[ST]):
         if recording_functions is not None:
             for thing, name in recording_functions:
                 if isinstance(thing, type):
-                    use = thing()
-                    assert isinstance(use, RecordClass)
-                    self._recording_functions.append((use, name))
-                else:
-                    self._recording_functions.append((thing, name))
+                    assert issubclass(thing, RecordClass)
+                self._recording_functions.append((thing, name))
 
         self._types: tuple[type, ...]
 
@@ -173,6 +170,11 @@ class State(Generic[ST]):
 
     def _do_record_funcs(self, instance: "Actor", now: float, value: ST) -> None:
         for func, name in self._recording_functions:
+            if isinstance(func, type):
+                # Every actor has its own object of a recording class
+                if name not in instance._recording_objects:
+                    instance._recording_objects[name] = func()
+                func = instance._recording_objects[name]
             result = func(now, value)
             new_append = (now, result)
             if name not in instance._state_histories:
-- 
2.43.0


From 495520011fb37954d844a1333a3b32eb721f85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 25/85] fix: a frozen state that was set to None stays frozen

---
 src/upstage_des/states.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 913e5af..7ac2d2c 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -253,13 +253,12 @@ class State(Generic[ST]):
             instance (Actor): The actor holding the state
             value (Any): The state's value
         """
-        if self._frozen:
-            old_value = instance.__dict__.get(self.name, None)
-            if old_value is not None:
-                raise SimulationError(
-                    f"State '{self}' on '{instance}' has already been frozen "
-                    f"to value of {old_value}. It cannot be changed once set!"
-                )
+        if self._frozen and self.name in instance.__dict__:
+            old_value = instance.__dict__[self.name]
+            raise SimulationError(
+                f"State '{self}' on '{instance}' has already been frozen "
+                f"to value of {old_value}. It cannot be changed once set!"
+            )
 
         self._type_check(value, throw=True)
 
-- 
2.43.0


From 0be6acec424e5ef892636a93cc3ce83feabed832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 26/85] fix: default states are set in the order of their
 declaration

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index cbb4c1a..2bd992f 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -76,7 +76,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
             else:
                 raise UpstageError(f"Input to {self} was not expected: {state}={value}")
         exist = set(self._state_defs.keys())
-        unseen = exist - seen
+        unseen = [state_name for state_name in self._state_defs if state_name not in seen]
         for state_name in unseen:
             _state = self._state_defs[state_name]
             if _state.has_default():
-- 
2.43.0


From cfec1c6e992513d44ba186b98bf78315e495fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 27/85] fix: CommunicationStore does not change the input it is
 given

---
 src/upstage_des/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 7ac2d2c..e6b4426 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1179,7 +1179,8 @@ class CommunicationStore(ResourceState[Store]):
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
         if isinstance(value, dict) and "modes" in value:
-            modes = value.pop("modes")
+            modes = value["modes"]
+            value = {k: v for k, v in value.items() if k != "modes"}
         super().__set__(instance, value)
         if modes is None:
             raise SimulationError(
-- 
2.43.0


From 384e3a54aab779361737cd6d9c2b00567095324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 28/85] fix: key/value states honour record_duplicates

---
 src/upstage_des/states.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e6b4426..902d5c3 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1219,11 +1219,10 @@ class _KeyValueBase(State):
             frozen=True,
             valid_types=valid_types,
             recording=False,
-            record_duplicates=False,
+            record_duplicates=record_duplicates,
             recording_functions=recording_functions,
         )
         self._record_indiv = recording
-        self._record_indiv_dupe = record_duplicates
 
     def _record_single(self, instance: "Actor", time: float, key: str, value: Any) -> None:
         name = f"{self.name}.{key}"
-- 
2.43.0


From ae9c411a469cb693bdf897e02ba3cef6eace1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 29/85] fix: record_state records key/value states

---
 src/upstage_des/states.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 902d5c3..c229124 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1258,6 +1258,16 @@ class _KeyValueBase(State):
 
         self._do_record_funcs(instance, now, instance.__dict__[self.name])
 
+    def _do_record(self, instance: "Actor", value: Any, override: Any = None) -> None:
+        """Record every key of the state.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (Any): State value
+            override (Any, optional): Unused for key/value states.
+        """
+        self._record_state(instance, all=True)
+
     def _make_clone(self, instance: "Actor") -> Any:
         raise NotImplementedError()
 
-- 
2.43.0


From 4a205e42f0cb3861285bfc613d85c80c38bd2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 30/85] fix: a dictionary state keeps its old content when a
 value is refused

---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index fb6304c..7a0409e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -27,9 +27,9 @@ class _DictionaryProxy(Generic[VTD]):
         self._wrapped = wrapped
 
     def __setitem__(self, key: str, value: VTD) -> None:
-        self._wrapped[key] = value
         if not self.descriptor._type_check(value, throw=False):
             raise TypeError(f"Bad type for dictionary: {key}: {value}")
+        self._wrapped[key] = value
         self.descriptor._record_state(self.instance, key, all=False)
 
     def setdefault(self, key: str, value: VTD) -> VTD:
-- 
2.43.0


From 9b6d74801a98d19041fb72bc0595a3ea498e160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 31/85] fix: key/value states of equal content compare equal

---
 src/upstage_des/state_proxies.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7a0409e..dd2ca1a 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -85,9 +85,11 @@ class _DictionaryProxy(Generic[VTD]):
         return len(self._wrapped)
 
     def __eq__(self, other: Any) -> bool:
+        if isinstance(other, _DictionaryProxy):
+            other = other._wrapped
         if not isinstance(other, dict):
             return False
-        return other == self._wrapped
+        return cast(bool, other == self._wrapped)
 
     def __repr__(self) -> str:
         return repr(self._wrapped)
@@ -136,6 +138,8 @@ class _DataclassProxy(Generic[TDC]):
                 self._descr._record_state(self._inst, name, all=False)
 
     def __eq__(self, other: Any) -> bool:
+        if isinstance(other, _DataclassProxy):
+            other = other._wrapped
         if not is_dataclass(other):
             return False
         return other == self._wrapped
-- 
2.43.0


From 7ffb08c0ee4770774450319170952603696c4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 32/85] fix: dataclass states accept inherited fields and every
 kind of type hint

---
 src/upstage_des/state_proxies.py | 43 ++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index dd2ca1a..e5e765b 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -1,8 +1,20 @@
 """Helpers and proxies for States."""
 
 from collections.abc import ItemsView, Iterable, KeysView, ValuesView
-from dataclasses import is_dataclass
-from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast
+from dataclasses import fields, is_dataclass
+from types import UnionType
+from typing import (
+    TYPE_CHECKING,
+    Any,
+    Generic,
+    Literal,
+    TypeVar,
+    Union,
+    cast,
+    get_args,
+    get_origin,
+    get_type_hints,
+)
 
 VTD = TypeVar("VTD")
 TDC = TypeVar("TDC")
@@ -13,6 +25,25 @@ if TYPE_CHECKING:
     from .states import _KeyValueBase  # pragma: no cover
 
 
+def _is_of_type(value: Any, hint: Any) -> bool:
+    """Check a value against a type hint, without looking into the value.
+
+    Args:
+        value (Any): The value
+        hint (Any): The type hint
+
+    Returns:
+        bool: If the value matches the hint
+    """
+    origin = get_origin(hint)
+    if origin in (Union, UnionType):
+        return any(_is_of_type(value, h) for h in get_args(hint))
+    if origin is Literal:
+        return value in get_args(hint)
+    use = hint if origin is None else origin
+    return isinstance(value, use) if isinstance(use, type) and use is not Any else True
+
+
 class _DictionaryProxy(Generic[VTD]):
     """An in-between way to have dictionary-like access on descriptors."""
 
@@ -109,8 +140,8 @@ class _DataclassProxy(Generic[TDC]):
         return self._wrapped.__dataclass_fields__
 
     def _typecheck(self, name: str, value: Any) -> None:
-        field_type = self._wrapped.__annotations__[name]
-        if not isinstance(value, field_type):
+        field_type = get_type_hints(type(self._wrapped))[name]
+        if not _is_of_type(value, field_type):
             raise TypeError(
                 f"Dataclass value {value} for field {name} doesn't match type: {field_type}."
             )
@@ -132,10 +163,12 @@ class _DataclassProxy(Generic[TDC]):
         if name in ["_wrapped", "_descr", "_inst"]:
             super().__setattr__(name, value)
         elif is_dataclass(self._wrapped):
-            if hasattr(self._wrapped, name):
+            if any(name == f.name for f in fields(self._wrapped)):
                 self._typecheck(name, value)
                 setattr(self._wrapped, name, value)
                 self._descr._record_state(self._inst, name, all=False)
+            else:
+                setattr(self._wrapped, name, value)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, _DataclassProxy):
-- 
2.43.0


From 4540e3f4e5ef557967ceeb91808dfbdaec91df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 33/85] fix: create_table skips states that have not been set
 yet

---
 src/upstage_des/data_utils/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b4eef68..0c17d36 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -101,6 +101,9 @@ def _actor_state_data(
     for state_name, state in actor._state_defs.items():
         if skip_locations and isinstance(state, LOCATION_TYPES):
             continue
+        if state_name not in actor.__dict__ and state_name not in actor._state_histories:
+            # Nothing was ever set
+            continue
         _value = actor.__dict__[state_name]
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
-- 
2.43.0


From 77ad1f3c686f7a56893a206c181f2823be5c9262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 34/85] fix: create_table accepts dictionary keys that were not
 recorded

---
 src/upstage_des/data_utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 0c17d36..4709c80 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -116,7 +116,9 @@ def _actor_state_data(
         elif is_prefilled:
             for key in _key_list(_value):
                 sname = f"{state_name}.{key}"
-                assert sname in actor._state_histories
+                if sname not in actor._state_histories:
+                    # Added to the raw object, which doesn't record
+                    continue
                 data.extend(
                     _state_history_to_table(
                         name, kind, sname, is_active, actor._state_histories[sname]
-- 
2.43.0


From 9a6ec78aae57169473f309de6e54c2809954c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 35/85] fix: the location table includes plain states that hold
 locations

---
 src/upstage_des/data_utils/data_utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 4709c80..77b2f7e 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -99,7 +99,7 @@ def _actor_state_data(
     name, kind = actor.name, actor.__class__.__name__
 
     for state_name, state in actor._state_defs.items():
-        if skip_locations and isinstance(state, LOCATION_TYPES):
+        if skip_locations and _is_location_state(actor, state_name):
             continue
         if state_name not in actor.__dict__ and state_name not in actor._state_histories:
             # Nothing was ever set
@@ -142,6 +142,21 @@ def _actor_state_data(
     return data, resources
 
 
+def _is_location_state(actor: Actor, state_name: str) -> bool:
+    """Test if a state holds locations.
+
+    Args:
+        actor (Actor): The actor.
+        state_name (str): Name of the state.
+
+    Returns:
+        bool: If it is a location state, or a plain state with a location.
+    """
+    return isinstance(actor._state_defs.get(state_name, None), LOCATION_TYPES) or isinstance(
+        actor.__dict__.get(state_name, None), ACTUAL_LOCATION
+    )
+
+
 def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """Get actor location data, if it exists.
 
@@ -161,7 +176,7 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
     name, kind = actor.name, actor.__class__.__name__
     for state_name, state_data in actor._state_histories.items():
         _state = actor._state_defs.get(state_name, None)
-        if not isinstance(_state, LOCATION_TYPES):
+        if _state is None or not _is_location_state(actor, state_name):
             continue
         value: ACTUAL_LOCATION | ActiveStatus
         is_active = isinstance(_state, ActiveState)
@@ -176,6 +191,8 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
                 is_xyz = False
             elif isinstance(value, CartesianLocation):
                 row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
+            else:
+                continue
             data.append(cast(LOCATION_DATA_ROW, row))
     cols = ["X", "Y", "Z"] if is_xyz else ["Lat", "Lon", "Alt"]
     return data, cols
-- 
2.43.0


From f1af81ab257e38080e3cd0052b5334d59513aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:28 +0000
Subject: [PATCH 36/85] fix: location table columns do not depend on actors
 without locations

---
 src/upstage_des/data_utils/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 77b2f7e..f663f1d 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -277,7 +277,10 @@ def create_location_table() -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """
     _base = UpstageBase()
     data: list[LOCATION_DATA_ROW] = []
+    cols = ["X", "Y", "Z"]
     for actor in _base.get_actors():
-        _data, cols = _actor_location_data(actor)
+        _data, _cols = _actor_location_data(actor)
+        if _data:
+            cols = _cols
         data.extend(_data)
     return data, COLUMN_NAMES + cols + [ACTIVATION_STATUS_COL]
-- 
2.43.0


From 0945fdb84bfbe1593daaf4cccbb404bc105ab3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:44 +0000
Subject: [PATCH 37/85] fix: clones are not listed as entities of the
 simulation

---
 src/upstage_des/actor.py | 21 +++++++++++++++++++++
 src/upstage_des/base.py  | 30 +++++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 2bd992f..d93f694 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -23,6 +23,7 @@ from .base import (
     SettableEnv,
     SimulationError,
     UpstageError,
+    untracked_entities,
 )
 from .data_types import CartesianLocation, GeodeticLocation
 from .states import (
@@ -986,6 +987,26 @@ Args:
                 Defaults to None.
             new_states (Any): New states to add to the actor when cloning.
 
+        Returns:
+            Actor: The cloned actor of the same type
+        """
+        # The clone and its resources aren't entities of the simulation.
+        with untracked_entities():
+            return self._clone(new_env, knowledge, new_states)
+
+    def _clone(
+        self,
+        new_env: MockEnvironment | None,
+        knowledge: dict[str, Any] | None,
+        new_states: dict[str, Any],
+    ) -> Self:
+        """Create the clone, see ``clone``.
+
+        Args:
+            new_env (Optional[MockEnvironment]): Environment for cloning.
+            knowledge (Optional[dict[str, Any]]): Knowledge for the clone.
+            new_states (dict[str, Any]): New states to add to the actor when cloning.
+
         Returns:
             Actor: The cloned actor of the same type
         """
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index d952c44..553e81a 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -6,7 +6,8 @@
 """Base classes and exceptions for UPSTAGE."""
 
 from collections import defaultdict
-from collections.abc import Generator, Iterable
+from collections.abc import Generator, Iterable, Iterator
+from contextlib import contextmanager
 from contextvars import ContextVar, Token
 from dataclasses import dataclass, field
 from math import floor
@@ -452,6 +453,33 @@ class NamedUpstageEntity(UpstageBase):
         cls._entity_groups = entity_groups
 
 
+@contextmanager
+def untracked_entities() -> Iterator[None]:
+    """Keep anything created in this context out of the tracked entities.
+
+    Existing entities are still visible, but those created (such as clones for
+    rehearsing) won't be listed once the context is left.
+    """
+    special = SPECIAL_ENTITY_CONTEXT_VAR.get(None)
+    entities = ENTITY_CONTEXT_VAR.get(None)
+    special_token = entity_token = None
+    if special is not None:
+        temporary = SpecialContexts(
+            list(special.actors), list(special.monitored), list(special.data_recorded)
+        )
+        special_token = SPECIAL_ENTITY_CONTEXT_VAR.set(temporary)
+    if entities is not None:
+        groups = defaultdict(list, {k: list(v) for k, v in entities.items()})
+        entity_token = ENTITY_CONTEXT_VAR.set(groups)
+    try:
+        yield
+    finally:
+        if special_token is not None:
+            SPECIAL_ENTITY_CONTEXT_VAR.reset(special_token)
+        if entity_token is not None:
+            ENTITY_CONTEXT_VAR.reset(entity_token)
+
+
 class SettableEnv(UpstageBase):
     """A mixin class for allowing the instance's environment to change."""
 
-- 
2.43.0


From daeb8a2e46081eccd9e18af3cb64cf009bdabfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:23 +0000
Subject: [PATCH 38/85] fix: cloning an actor does not change it and supports
 every kind of state

---
 src/upstage_des/actor.py  | 55 ++++++++++++++++++++++++++++-----
 src/upstage_des/states.py | 64 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 107 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index d93f694..10ed3aa 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -994,6 +994,41 @@ Args:
         with untracked_entities():
             return self._clone(new_env, knowledge, new_states)
 
+    def _state_is_set(self, state: str) -> bool:
+        """Test if a state has a value.
+
+        Args:
+            state (str): The state name
+
+        Returns:
+            bool: If the state can be read.
+        """
+        if state in self._mimic_states:
+            actor, name = self._mimic_states[state]
+            return actor._state_is_set(name)
+        return state in self.__dict__
+
+    def _peek_state(self, state: str) -> Any:
+        """Get the value of a state without updating or recording it.
+
+        Args:
+            state (str): The state name
+
+        Returns:
+            Any: The present value of the state.
+        """
+        if state in self._mimic_states:
+            actor, name = self._mimic_states[state]
+            return actor._peek_state(name)
+        if state not in self._active_states:
+            return getattr(self, state)
+        # Updates of an active state land on this stand-in.
+        stand_in = copy(self)
+        stand_in._active_states = {k: dict(v) for k, v in self._active_states.items()}
+        stand_in._state_listener = None
+        stand_in._recording_paused = True
+        return getattr(stand_in, state)
+
     def _clone(
         self,
         new_env: MockEnvironment | None,
@@ -1014,14 +1049,18 @@ Args:
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
         states: dict[str, Any] = {}
-        for state in self.states:
-            state_obj = self._state_defs[state]
+        no_init_states: dict[str, Any] = {}
+        for state, state_obj in self._state_defs.items():
             if isinstance(state_obj, ResourceState):
                 states[state] = state_obj._make_clone(self, getattr(self, state))
             elif isinstance(state_obj, _KeyValueBase):
                 states[state] = state_obj._make_clone(self)
+            elif not self._state_is_set(state):
+                continue
+            elif state_obj._no_init:
+                no_init_states[state] = copy(self._peek_state(state))
             else:
-                states[state] = copy(getattr(self, state))
+                states[state] = copy(self._peek_state(state))
         states.update(new_states)
 
         self._num_clones += 1
@@ -1033,8 +1072,9 @@ Args:
             **states,
         )
         clone.env = new_env
+        clone.__dict__.update(no_init_states)
 
-        ignored_attributes = list(states.keys()) + ["env", "stage"]
+        ignored_attributes = list(self._state_defs) + ["env", "stage"]
 
         for attribute_name, attribute in self.__class__.__dict__.items():
             if not any(
@@ -1042,14 +1082,13 @@ Args:
                     attribute_name in ignored_attributes,
                     attribute_name.startswith("_"),
                     callable(attribute),
+                    hasattr(attribute, "__get__"),
                 )
             ):
                 setattr(clone, attribute_name, attribute)
 
         # update the state histories
-        for state_name in self._state_defs:
-            if state_name in self._state_histories:
-                clone._state_histories[state_name] = deepcopy(self._state_histories[state_name])
+        clone._state_histories = {k: deepcopy(v) for k, v in self._state_histories.items()}
 
         clone._knowledge = {}
         for name, data in self._knowledge.items():
@@ -1058,7 +1097,7 @@ Args:
         for name, data in knowledge.items():
             clone._knowledge[name] = copy(data)
 
-        clone._task_queue = copy(self._task_queue)
+        clone._task_queue = {name: list(queue) for name, queue in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
 
         if clone._debug_logging:
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index c229124..7f186c8 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -7,9 +7,10 @@
 
 from abc import abstractmethod
 from collections.abc import Callable, Iterable
-from copy import deepcopy
-from dataclasses import fields, replace
+from copy import copy, deepcopy
+from dataclasses import dataclass, fields, replace
 from enum import Enum
+from types import MethodType
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
 from simpy import Container, Environment, Store
@@ -192,7 +193,7 @@ class State(Generic[ST]):
             value (ST): State value
             override (Any, optional): If given, record the override value
         """
-        if not self._recording:
+        if not self._recording or getattr(instance, "_recording_paused", False):
             return
         if getattr(instance, "env", None) is None:
             raise SimulationError(
@@ -939,6 +940,29 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
 T = TypeVar("T", bound=Store | Container)
 
 
+def _copy_resource(resource: Any) -> Any:
+    """Copy a store or container, without those who wait at it.
+
+    Args:
+        resource (Any): The store or container
+
+    Returns:
+        Any: A copy with the same contents.
+    """
+    new = copy(resource)
+    new.put_queue = resource.PutQueue()
+    new.get_queue = resource.GetQueue()
+    # The request methods of simpy resources are bound to the instance
+    for name, value in list(new.__dict__.items()):
+        if isinstance(value, MethodType) and value.__self__ is resource:
+            setattr(new, name, MethodType(value.__func__, new))
+    if isinstance(resource, Store) and isinstance(new, Store):
+        new.items = list(resource.items)
+    if hasattr(resource, "_quantities"):
+        setattr(new, "_quantities", list(resource._quantities))
+    return new
+
+
 class ResourceState(State, Generic[T]):
     """A State class for States that are meant to be Stores or Containers.
 
@@ -1103,16 +1127,28 @@ class ResourceState(State, Generic[T]):
             T: The copied store or container
         """
         base_class = type(copy)
-        memory: dict[str, Any] = instance.__dict__[f"_memory_for_{self.name}"]
+        memory: dict[str, Any] | None = instance.__dict__.get(f"_memory_for_{self.name}")
+        if memory is None:
+            return cast(T, _copy_resource(copy))
         new = base_class(instance.env, **memory)  # type: ignore [arg-type]
         if isinstance(copy, Store) and isinstance(new, Store):
             new.items = list(copy.items)
         if isinstance(copy, Container) and isinstance(new, Container):
             # This is a particularity of simpy containers
             new._level = float(copy.level)
+        if hasattr(copy, "_quantities"):
+            setattr(new, "_quantities", list(copy._quantities))
         return cast(T, new)
 
 
+@dataclass
+class _CloneOfStore:
+    """A copy of a communications store, with the modes it was created for."""
+
+    store: Store
+    modes: list[str]
+
+
 class CommunicationStore(ResourceState[Store]):
     """A State class for communications inputs.
 
@@ -1178,6 +1214,9 @@ class CommunicationStore(ResourceState[Store]):
     def __set__(self, instance: "Actor", value: dict | Any) -> None:
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
+        if isinstance(value, _CloneOfStore):
+            modes = value.modes
+            value = value.store
         if isinstance(value, dict) and "modes" in value:
             modes = value["modes"]
             value = {k: v for k, v in value.items() if k != "modes"}
@@ -1193,6 +1232,19 @@ class CommunicationStore(ResourceState[Store]):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
         instance.__dict__[self._modename] = set(modes)
 
+    def _make_clone(self, instance: "Actor", copy: Store) -> Any:
+        """Method to support cloning a communications store.
+
+        Args:
+            instance (Actor): The owning actor
+            copy (Store): The store to copy
+
+        Returns:
+            _CloneOfStore: The copied store and its modes
+        """
+        new = super()._make_clone(instance, copy)
+        return _CloneOfStore(new, sorted(instance.__dict__[self._modename]))
+
 
 class _KeyValueBase(State):
     """A base state for holding key/value pairs.
@@ -1555,6 +1607,10 @@ class MultiStoreState(DictionaryState[T]):
 
         super().__set__(instance, use)
 
+    def _make_clone(self, instance: "Actor") -> dict[str, T]:
+        resources: dict[str, T] = instance.__dict__[self.name]
+        return {name: _copy_resource(resource) for name, resource in resources.items()}
+
     def has_default(self) -> bool:
         # Force the state to be defined.
         return False
-- 
2.43.0


From fabae4a4ce24f991e9f87cc76175672e99be74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 39/85] fix: rehearsing nested events marks all the completed
 sub-events

---
 src/upstage_des/events.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index a0175e0..e99cb9e 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -497,6 +497,18 @@ class MultiEvent(BaseEvent):
                 )
             event._start_rehearsal()
 
+    def _finish_sub_rehearsals(self, time_to_finish: float) -> None:
+        """Finish rehearsing the sub-events, and those below them.
+
+        Args:
+            time_to_finish (float): The time the rehearsed event takes.
+        """
+        _, event_times = self.calc_time_to_complete_with_sub()
+        for event, event_end_time in event_times.items():
+            event._finish_rehearsal(complete=event_end_time <= time_to_finish)
+            if isinstance(event, MultiEvent):
+                event._finish_sub_rehearsals(time_to_finish)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
@@ -509,11 +521,9 @@ class MultiEvent(BaseEvent):
         self._start_rehearsal()
 
         event_response = None
-        time_to_finish, event_times = self.calc_time_to_complete_with_sub()
-
-        for event, event_end_time in event_times.items():
-            event._finish_rehearsal(complete=event_end_time <= time_to_finish)
+        time_to_finish = self.calculate_time_to_complete()
 
+        self._finish_sub_rehearsals(time_to_finish)
         self._finish_rehearsal(complete=True)
 
         return time_to_finish, event_response
-- 
2.43.0


From 9e3a2e465f9298f839ad9eadc1cd41187364d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 40/85] fix: detectability changes in a rehearsal don't reach
 the motion manager

---
 src/upstage_des/states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 7f186c8..394c44d 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -377,6 +377,8 @@ class DetectabilityState(State[bool]):
         if self.name not in instance.__dict__:
             was_set = False
         super().__set__(instance, value)
+        if getattr(instance, "_is_rehearsing", False):
+            return
         if hasattr(instance.stage, "motion_manager") and was_set:
             mgr = instance.stage.motion_manager
             if not value:
-- 
2.43.0


From 5445cc9c576e575e0a2f30b10647d0861569fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 41/85] fix: a failed network rehearsal restores the network

---
 src/upstage_des/task_network.py | 60 +++++++++++++++++----------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 3c0c8c6..ea60045 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -164,35 +164,37 @@ class TaskNetwork:
         # pre-clone the actor to get a hold of the new environment
         new_actor = actor.clone(knowledge=knowledge)
         task_idx = 0
-        while True:
-            if task_idx < num_tasks:
-                task_name = task_name_list[task_idx]
-            elif end_task is None:
-                break
-            else:
-                # Grab the default or one from the queue, clearing the queue to prevent loops
-                task_name = self._next_task_name(task_name, new_actor, clear_queue=True)
-            if end_task is not None and end_task == task_name:
-                break  # pragma: no cover
-            self._current_task_name = task_name
-            self._current_task_inst = self.task_classes[task_name]()
-            self._current_task_inst._set_network_name(self.name)
-            new_actor = self._current_task_inst.rehearse(
-                actor=new_actor,
-                cloned_actor=True,
-            )
-            # The next name should be feasible
-            if task_idx < num_tasks - 1:
-                follow_on = task_name_list[task_idx + 1]
-                if not self.is_feasible(task_name, follow_on):
-                    raise SimulationError(  # pragma: no cover
-                        f"Task {follow_on} not allowed after '{task_name}' in network"
-                    )
-            task_idx += 1
-        # reset the internal parameters
-        self._current_task_name = _old_name
-        self._current_task_inst = _old_inst
-        self._current_task_proc = _old_proc
+        try:
+            while True:
+                if task_idx < num_tasks:
+                    task_name = task_name_list[task_idx]
+                elif end_task is None:
+                    break
+                else:
+                    # Grab the default or one from the queue, clearing the queue to prevent loops
+                    task_name = self._next_task_name(task_name, new_actor, clear_queue=True)
+                if end_task is not None and end_task == task_name:
+                    break  # pragma: no cover
+                self._current_task_name = task_name
+                self._current_task_inst = self.task_classes[task_name]()
+                self._current_task_inst._set_network_name(self.name)
+                new_actor = self._current_task_inst.rehearse(
+                    actor=new_actor,
+                    cloned_actor=True,
+                )
+                # The next name should be feasible
+                if task_idx < num_tasks - 1:
+                    follow_on = task_name_list[task_idx + 1]
+                    if not self.is_feasible(task_name, follow_on):
+                        raise SimulationError(  # pragma: no cover
+                            f"Task {follow_on} not allowed after '{task_name}' in network"
+                        )
+                task_idx += 1
+        finally:
+            # reset the internal parameters
+            self._current_task_name = _old_name
+            self._current_task_inst = _old_inst
+            self._current_task_proc = _old_proc
         return new_actor
 
     def __repr__(self) -> str:
-- 
2.43.0


From 4fb3bbb95c0c00c730de49c429a85d4c1878a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 42/85] fix: rehearsals restore the task and events, also after
 errors

---
 src/upstage_des/events.py   | 19 +++++++++++
 src/upstage_des/routines.py |  8 ++++-
 src/upstage_des/task.py     | 68 +++++++++++++++++++++----------------
 3 files changed, 64 insertions(+), 31 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index e99cb9e..6466340 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -130,6 +130,9 @@ class BaseEvent(UpstageBase):
             )
         self._done_rehearsing = complete
 
+    def _leave_rehearsal(self) -> None:
+        """Run when the task or routine that rehearsed the event is done rehearsing."""
+
     def rehearse(self) -> tuple[float, tyAny | None]:
         """Run the event in 'rehearsal' mode without changing the real environment.
 
@@ -509,6 +512,12 @@ class MultiEvent(BaseEvent):
             if isinstance(event, MultiEvent):
                 event._finish_sub_rehearsals(time_to_finish)
 
+    def _leave_rehearsal(self) -> None:
+        """Run when the task or routine that rehearsed the event is done rehearsing."""
+        for event in self.events:
+            if isinstance(event, BaseEvent):
+                event._leave_rehearsal()
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
@@ -876,6 +885,8 @@ class Event(BaseEvent):
         Returns:
             bool
         """
+        if self._rehearsing:
+            return self._done_rehearsing
         return self._event.processed and not self._was_cancelled()
 
     def _was_cancelled(self) -> bool:
@@ -926,3 +937,11 @@ class Event(BaseEvent):
         """
         time_advance, _ = super().rehearse()
         return time_advance, PLANNING_FACTOR_OBJECT
+
+    def _leave_rehearsal(self) -> None:
+        """Run when the task or routine that rehearsed the event is done rehearsing.
+
+        The event may be in use outside of the rehearsal.
+        """
+        self._rehearsing = False
+        self._done_rehearsing = False
diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 26d8dc8..e6eb754 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -90,12 +90,18 @@ class Routine(SettableEnv):
         time = 0.0
         gen = self._run()
         value = None
+        rehearsed: list[BaseEvent] = []
         try:
             while True:
-                t, value = gen.send(value).rehearse()
+                event = gen.send(value)
+                rehearsed.append(event)
+                t, value = event.rehearse()
                 time += t
         except StopIteration:
             return time, None
+        finally:
+            for event in rehearsed:
+                event._leave_rehearsal()
 
 
 class WindowedGet(Routine):
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 4b723d5..cff67f5 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -357,8 +357,8 @@ class Task(SettableEnv):
         Returns:
             Actor: Cloned actor
         """
-        mocked_env = MockEnvironment.mock(self.env)
-        self.env = mocked_env
+        # A clone may be at another time than this task.
+        mocked_env = MockEnvironment.mock(actor.env)
         understudy = actor.clone(
             new_env=mocked_env,
             knowledge=knowledge,
@@ -395,31 +395,37 @@ class Task(SettableEnv):
         mocked_env: MockEnvironment = understudy.env
 
         self._rehearsing = True
-        generator = self.task(actor=understudy, **kwargs)
-        returned_item = None
-        while True:
-            try:
-                if returned_item is None:
-                    next_event = next(generator)
-                else:
-                    next_event = generator.send(returned_item)
-                    returned_item = None
-                if not issubclass(next_event.__class__, BaseEvent | Routine):
-                    msg = f"Task {self} event {next_event}"
-                    if isinstance(next_event, Process):
-                        raise SimulationError(msg + " cannot be a process during rehearsal.")
-                    raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
-                time_advance, returned_item = next_event.rehearse()
-                mocked_env.now += time_advance
-
-            except StopIteration:
-                # warn(f"Stopping rehearsal of task '{self.__class__.__name__}' "
-                #      f"for actor '{actor}'! [Rehearsal duration: "
-                #      f"{self.env.now - _old_env.now:.3g}]")
-                break
-
-        self.env = _old_env
-        self._rehearsing = False
+        rehearsed: list[BaseEvent] = []
+        try:
+            generator = self.task(actor=understudy, **kwargs)
+            returned_item = None
+            while True:
+                try:
+                    if returned_item is None:
+                        next_event = next(generator)
+                    else:
+                        next_event = generator.send(returned_item)
+                        returned_item = None
+                    if not issubclass(next_event.__class__, BaseEvent | Routine):
+                        msg = f"Task {self} event {next_event}"
+                        if isinstance(next_event, Process):
+                            raise SimulationError(msg + " cannot be a process during rehearsal.")
+                        raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
+                    if isinstance(next_event, BaseEvent):
+                        rehearsed.append(next_event)
+                    time_advance, returned_item = next_event.rehearse()
+                    mocked_env.now += time_advance
+
+                except StopIteration:
+                    # warn(f"Stopping rehearsal of task '{self.__class__.__name__}' "
+                    #      f"for actor '{actor}'! [Rehearsal duration: "
+                    #      f"{self.env.now - _old_env.now:.3g}]")
+                    break
+        finally:
+            for event in rehearsed:
+                event._leave_rehearsal()
+            self.env = _old_env
+            self._rehearsing = False
         return understudy
 
     def _handle_interruption(
@@ -603,9 +609,11 @@ class DecisionTask(Task):
 
         self._rehearsing = True
 
-        self.rehearse_decision(actor=understudy)
-        self.env = _old_env
-        self._rehearsing = False
+        try:
+            self.rehearse_decision(actor=understudy)
+        finally:
+            self.env = _old_env
+            self._rehearsing = False
         return understudy
 
     @process
-- 
2.43.0


From 5ccdf33e903c5f38780fba124e2d3dd948e2e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:35 +0000
Subject: [PATCH 43/85] fix: succeeding a knowledge event in a rehearsal does
 not resume real waiters

---
 src/upstage_des/actor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 10ed3aa..42fe78e 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1266,6 +1266,10 @@ Args:
         if not isinstance(event, Event):
             raise SimulationError(f"Knowledge {name} is not an Event.")
         self.clear_knowledge(name, "actor.succeed_knowledge_event")
+        if self._is_rehearsing:
+            # Others may be waiting on the event outside of the rehearsal.
+            event._payload = kwargs
+            return
         event.succeed(**kwargs)
 
     def get_remaining_waypoints(
-- 
2.43.0


From 8ec7950171f438e342a92d7ba7660ffcd6e4d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 44/85] fix: resource states do not keep the actors of past
 simulations alive

---
 src/upstage_des/states.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 394c44d..ed65f98 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1041,7 +1041,6 @@ class ResourceState(State, Generic[T]):
             valid_types=valid_types,
         )
         self._default_kwargs = default_kwargs.copy() if default_kwargs is not None else {}
-        self._been_set: set[Actor] = set()
 
     def __set__(self, instance: "Actor", value: dict | Any) -> None:
         """Set the state value.
@@ -1050,7 +1049,7 @@ class ResourceState(State, Generic[T]):
             instance (Actor): The actor instance
             value (dict | Any): Either a dictionary of resource data OR an actual resource
         """
-        if instance in self._been_set:
+        if self.name in instance.__dict__:
             raise UpstageError(
                 f"State '{self}' on '{instance}' has already been created "
                 "It cannot be changed once set!"
@@ -1061,7 +1060,6 @@ class ResourceState(State, Generic[T]):
             if not isinstance(value, self._types):
                 raise UpstageError(f"Resource object: '{value}' is not an expected type.")
             instance.__dict__[self.name] = value
-            self._been_set.add(instance)
             return
 
         resource_type = value.get("kind", self._default)
@@ -1091,7 +1089,6 @@ class ResourceState(State, Generic[T]):
             raise UpstageError(f"Exception in ResourceState init: {e}")
 
         instance.__dict__[self.name] = resource_obj
-        self._been_set.add(instance)
         # remember what we did for cloning
         instance.__dict__["_memory_for_" + self.name] = kwargs.copy()
 
-- 
2.43.0


From f7c75511289beb36f2d3277bdc77bef362f62ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 45/85] fix: asking a resource hold for its time does not
 change its stage

---
 src/upstage_des/events.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 6466340..ea5508d 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -720,13 +720,21 @@ class ResourceHold(BaseRequestEvent):
             float: Time
         """
         if self._stage == "request":
-            # assume the stage will switch on the next call
-            self._stage = "release"
             return self.rehearsal_time_to_complete
         elif self._stage == "release":
             return 0.0
         raise UpstageError(f"Resource request stage is wrong: {self._stage}")
 
+    def _finish_rehearsal(self, complete: bool) -> None:
+        """Finish rehearsing the event, which switches to the next stage.
+
+        Args:
+            complete (bool): Indicates if the event was successful during the test.
+        """
+        super()._finish_rehearsal(complete)
+        if complete and self._stage == "request":
+            self._stage = "release"
+
     def as_event(self) -> Request | Release:
         """Create the simpy event for the right state of Resource usage.
 
-- 
2.43.0


From 94713b5942ceafc34030ea05ffcb2c5fa27c6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 46/85] fix: routines see the rehearsed clock while they are
 rehearsed

---
 src/upstage_des/routines.py | 9 ++++++++-
 src/upstage_des/task.py     | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index e6eb754..1f28f70 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -5,7 +5,7 @@ from typing import Any
 
 import simpy as SIM
 
-from upstage_des.base import SIMPY_GEN, SettableEnv, SimulationError
+from upstage_des.base import SIMPY_GEN, MockEnvironment, SettableEnv, SimulationError
 from upstage_des.events import Any as AnyEvent
 from upstage_des.events import BaseEvent, Get, Put, Wait
 
@@ -90,6 +90,9 @@ class Routine(SettableEnv):
         time = 0.0
         gen = self._run()
         value = None
+        # Code in run() sees the rehearsed clock; the caller advances it for good.
+        env = self.env
+        start = env.now
         rehearsed: list[BaseEvent] = []
         try:
             while True:
@@ -97,9 +100,13 @@ class Routine(SettableEnv):
                 rehearsed.append(event)
                 t, value = event.rehearse()
                 time += t
+                if isinstance(env, MockEnvironment):
+                    env.now = start + time
         except StopIteration:
             return time, None
         finally:
+            if isinstance(env, MockEnvironment):
+                env.now = start
             for event in rehearsed:
                 event._leave_rehearsal()
 
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index cff67f5..272a250 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -396,6 +396,7 @@ class Task(SettableEnv):
 
         self._rehearsing = True
         rehearsed: list[BaseEvent] = []
+        routines: list[Routine] = []
         try:
             generator = self.task(actor=understudy, **kwargs)
             returned_item = None
@@ -413,6 +414,9 @@ class Task(SettableEnv):
                         raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
                     if isinstance(next_event, BaseEvent):
                         rehearsed.append(next_event)
+                    else:
+                        next_event.env = mocked_env
+                        routines.append(next_event)
                     time_advance, returned_item = next_event.rehearse()
                     mocked_env.now += time_advance
 
@@ -424,6 +428,8 @@ class Task(SettableEnv):
         finally:
             for event in rehearsed:
                 event._leave_rehearsal()
+            for routine in routines:
+                routine.env = _old_env
             self.env = _old_env
             self._rehearsing = False
         return understudy
-- 
2.43.0


From ba9484776caa9d60ab873d5825dbfea8423e6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 47/85] fix: interrupting a decision task during its hold does
 not break the network

---
 src/upstage_des/task.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 272a250..a73d444 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -11,7 +11,6 @@ from functools import wraps
 from typing import TYPE_CHECKING, Any, TypeVar
 from warnings import warn
 
-from simpy import Environment as SimpyEnv
 from simpy import Event as SimpyEvent
 from simpy import Interrupt, Process
 
@@ -21,7 +20,7 @@ if TYPE_CHECKING:
 
 from .base import ENV_CONTEXT_VAR, MockEnvironment, SettableEnv, SimulationError
 from .constants import PLANNING_FACTOR_OBJECT
-from .events import BaseEvent, Event
+from .events import BaseEvent, Event, Wait
 from .routines import Routine
 
 __all__ = ("DecisionTask", "Task", "process", "TerminalTask", "InterruptStates")
@@ -633,8 +632,20 @@ class DecisionTask(Task):
             Generator[SimpyEvent, None, None]: Generator for SimPy event queue.
         """
         self.make_decision(actor=actor)
-        assert isinstance(self.env, SimpyEnv)
-        yield self.env.timeout(0.0)
+        hold = Wait(0.0)
+        event = hold.as_event()
+        while True:
+            try:
+                yield event
+                return
+            except Interrupt as interrupt:
+                action = self._handle_interruption(actor, interrupt, hold)
+                if action == InterruptStates.END:
+                    return
+                elif action == InterruptStates.RESTART:
+                    self.make_decision(actor=actor)
+                    hold = Wait(0.0)
+                    event = hold.as_event()
 
     def run_skip(self, *, actor: "Actor") -> None:
         """Run the decision task with no clock reference.
-- 
2.43.0


From 07aadb75a0df4cec1045d1b976b2da37dd44b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 48/85] fix: ended tasks are not reported as running

---
 src/upstage_des/actor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 42fe78e..076149f 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -852,9 +852,8 @@ Args:
         if network_name not in self._task_networks:
             raise SimulationError(f"{self} does not have a task networked named {network_name}")
         net = self._task_networks[network_name]
-        if net._current_task_proc is not None:
+        if net._current_task_proc is not None and net._current_task_proc.is_alive:
             assert net._current_task_name is not None
-            assert net._current_task_proc is not None
             task_data = TaskData(name=net._current_task_name, process=net._current_task_proc)
             return task_data
         return None
@@ -868,7 +867,7 @@ Args:
         """
         tasks: dict[str, TaskData] = {}
         for name, net in self._task_networks.items():
-            if net._current_task_proc is not None:
+            if net._current_task_proc is not None and net._current_task_proc.is_alive:
                 assert net._current_task_name is not None
                 tasks[name] = TaskData(name=net._current_task_name, process=net._current_task_proc)
         return tasks
-- 
2.43.0


From fda5083e9441328327cc58d2b68b881a954d2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 49/85] fix: a nucleus does not interrupt tasks that have ended

---
 src/upstage_des/nucleus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index d04f4fa..2e43656 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -104,7 +104,7 @@ class TaskNetworkNucleus:
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
             proc = net._current_task_proc
-            if proc is not None:
+            if proc is not None and proc.is_alive:
                 proc.interrupt(
                     cause=NucleusInterrupt(state_name, state_value),
                 )
-- 
2.43.0


From 3d2b575f9613c81337203f0bd0a5e504ce288be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:06 +0000
Subject: [PATCH 50/85] fix: ordered networks can contain a task more than once

---
 src/upstage_des/task_network.py | 37 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index ea60045..cf5047f 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -201,6 +201,26 @@ class TaskNetwork:
         return f"Task network: {self.name}"
 
 
+def _unique_names(task_classes: Sequence[type[Task]]) -> list[str]:
+    """Name the tasks of a sequence, where a task may be used repeatedly.
+
+    Args:
+        task_classes (Sequence[type[Task]]): The tasks in order.
+
+    Returns:
+        list[str]: Class names; repeated ones have the number of the repetition.
+    """
+    names: list[str] = []
+    for cls in task_classes:
+        name = cls.__name__
+        i = 0
+        while name in names:
+            i += 1
+            name = f"{cls.__name__}_{i}"
+        names.append(name)
+    return names
+
+
 class TaskNetworkFactory:
     """A factory for creating task network instances."""
 
@@ -277,16 +297,15 @@ class TaskNetworkFactory:
         """
         task_class = {}
         task_links: dict[str, TaskLinks] = {}
+        names = _unique_names(task_classes)
         for i, tc in enumerate(task_classes):
-            the_name = tc.__name__
+            the_name = names[i]
             task_class[the_name] = tc
             try:
-                nxt = task_classes[i + 1]
-                nxt_name = nxt.__name__
+                nxt_name = names[i + 1]
             except IndexError:
-                nxt = TerminalTask
                 nxt_name = f"{name}_TERMINATING"
-                task_class[nxt_name] = nxt
+                task_class[nxt_name] = TerminalTask
             task_links[the_name] = TaskLinks(default=nxt_name, allowed=[nxt_name])
         return TaskNetworkFactory(name, task_class, task_links)
 
@@ -303,14 +322,14 @@ class TaskNetworkFactory:
         """
         task_class = {}
         task_links: dict[str, TaskLinks] = {}
+        names = _unique_names(task_classes)
         for i, tc in enumerate(task_classes):
-            the_name = tc.__name__
+            the_name = names[i]
             task_class[the_name] = tc
             try:
-                nxt = task_classes[i + 1]
+                nxt_name = names[i + 1]
             except IndexError:
-                nxt = task_classes[0]
-            nxt_name = nxt.__name__
+                nxt_name = names[0]
             task_links[the_name] = TaskLinks(default=nxt_name, allowed=[nxt_name])
         return TaskNetworkFactory(name, task_class, task_links)
 
-- 
2.43.0


From 32660e06baf53c19e06d422acb8aa051382c9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:18 +0000
Subject: [PATCH 51/85] fix: get_stage_variable reads variables named like
 dictionary methods

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 553e81a..a412315 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -635,7 +635,7 @@ def get_stage_variable(varname: str) -> Any:
         raise ValueError("Stage should have been set.")
     if varname not in stage:
         raise UpstageError(f"Variable '{varname}' does not exist in the stage")
-    return getattr(stage, varname)
+    return stage[varname]
 
 
 def get_stage() -> StageProtocol:
-- 
2.43.0


From cb5dbbbde37b297f8f3bb3535515e7ff69dd1bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 52/85] fix: a context object can be entered again while it is
 open

---
 src/upstage_des/base.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index a412315..b657693 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -218,6 +218,10 @@ ENV_CONTEXT_VAR: ContextVar[SimpyEnv] = ContextVar("Environment")
 SPECIAL_ENTITY_CONTEXT_VAR: ContextVar[SpecialContexts] = ContextVar("SpecialContexts")
 ENTITY_CONTEXT_VAR: ContextVar[dict[str, list["NamedUpstageEntity"]]] = ContextVar("Entities")
 STAGE_CONTEXT_VAR: ContextVar[DotDict] = ContextVar("Stage")
+# The contexts entered here and not left yet, and the tokens for leaving them.
+_ENTERED_VAR: ContextVar[tuple[tuple["EnvironmentContext", tuple[Token, ...]], ...]] = ContextVar(
+    "Entered", default=()
+)
 
 
 SKIP_GROUPS: list[str] = ["Actor", "Task", "Location", "CartesianLocation", "GeodeticLocation"]
@@ -565,11 +569,6 @@ class EnvironmentContext:
         self.special_ctx = SPECIAL_ENTITY_CONTEXT_VAR
         self.entity_ctx = ENTITY_CONTEXT_VAR
         self.stage_ctx = STAGE_CONTEXT_VAR
-        self.env_token: Token[SimpyEnv]
-        self.special_token: Token[SpecialContexts]
-        self.entity_token: Token[dict[str, list[NamedUpstageEntity]]]
-        self.stage_token: Token[DotDict]
-        self._env: SimpyEnv | None = None
         self._initial_time: float = initial_time
         self._random_seed: int | None = random_seed
         self._random_gen: Any = random_gen
@@ -580,26 +579,31 @@ class EnvironmentContext:
         Returns:
             SimpyEnv: Simpy Environment
         """
-        self._env = SimpyEnv(initial_time=self._initial_time)
-        self.env_token = self.env_ctx.set(self._env)
-        self.special_token = self.special_ctx.set(SpecialContexts())
-        self.entity_token = self.entity_ctx.set(defaultdict(list))
+        env = SimpyEnv(initial_time=self._initial_time)
         stage = DotDict()
-        self.stage_token = self.stage_ctx.set(stage)
+        # The same object may be entered again, here or in another thread.
+        tokens: tuple[Token, ...] = (
+            self.env_ctx.set(env),
+            self.special_ctx.set(SpecialContexts()),
+            self.entity_ctx.set(defaultdict(list)),
+            self.stage_ctx.set(stage),
+        )
+        _ENTERED_VAR.set(_ENTERED_VAR.get() + ((self, tokens),))
         if self._random_gen is None:
             random = Random(self._random_seed)
             stage.random = random
         else:
             stage.random = self._random_gen
-        return self._env
+        return env
 
     def __exit__(self, *_: Any) -> None:
         """Leave the context."""
-        self.env_ctx.reset(self.env_token)
-        self.special_ctx.reset(self.special_token)
-        self.entity_ctx.reset(self.entity_token)
-        self.stage_ctx.reset(self.stage_token)
-        self._env = None
+        entered = list(_ENTERED_VAR.get())
+        latest = max(i for i, (ctx, _) in enumerate(entered) if ctx is self)
+        _, tokens = entered.pop(latest)
+        for token in tokens:
+            token.var.reset(token)
+        _ENTERED_VAR.set(tuple(entered))
 
 
 def add_stage_variable(varname: str, value: Any) -> None:
-- 
2.43.0


From 00bb40be5f18d0de43a1b35650a4b76743d32c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 53/85] fix: entities that compare equal are all tracked

---
 src/upstage_des/actor.py                | 2 +-
 src/upstage_des/base.py                 | 2 +-
 src/upstage_des/resources/monitoring.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 076149f..c87c1ec 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -262,7 +262,7 @@ Args:
         Called by the NamedUpstageEntity on group inits.
         """
         ans = SPECIAL_ENTITY_CONTEXT_VAR.get().actors
-        if self in ans:
+        if any(actor is self for actor in ans):
             return
         ans.append(self)
 
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index b657693..3fd6884 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -398,7 +398,7 @@ class NamedUpstageEntity(UpstageBase):
         try:
             ans = ENTITY_CONTEXT_VAR.get()
             ans.setdefault(group_name, [])
-            if self in ans[group_name]:
+            if any(entity is self for entity in ans[group_name]):
                 raise UpstageError(f"Entity: {self} already recorded in the environment")
             ans[group_name].append(self)
         except LookupError:
diff --git a/src/upstage_des/resources/monitoring.py b/src/upstage_des/resources/monitoring.py
index 8047930..8235bba 100644
--- a/src/upstage_des/resources/monitoring.py
+++ b/src/upstage_des/resources/monitoring.py
@@ -43,7 +43,7 @@ class MonitoringMixin(NamedUpstageEntity, skip_classname=True):
         Called by the NamedUpstageEntity on group inits.
         """
         ans = SPECIAL_ENTITY_CONTEXT_VAR.get().monitored
-        if self in ans:
+        if any(entity is self for entity in ans):
             return
         ans.append(self)
 
-- 
2.43.0


From aefa19c6298020498381aa93fe3bc99fb9fe4299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 54/85] fix: an actor whose creation is refused is not tracked

---
 src/upstage_des/actor.py | 6 +++++-
 src/upstage_des/base.py  | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index c87c1ec..e980728 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -152,7 +152,11 @@ class Actor(SettableEnv, NamedUpstageEntity):
         # Task Network Nucleus hook-ins
         self._state_listener: TaskNetworkNucleus | None = None
 
-        self.__init_states(**states)
+        try:
+            self.__init_states(**states)
+        except Exception:
+            self._remove_entity()
+            raise
 
         if initial_knowledge is not None:
             self.set_bulk_knowledge(initial_knowledge, overwrite=True, caller="init")
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 3fd6884..58eb2c5 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -13,7 +13,7 @@ from dataclasses import dataclass, field
 from math import floor
 from random import Random
 from time import gmtime, strftime
-from typing import TYPE_CHECKING, Any, Protocol, Union
+from typing import TYPE_CHECKING, Any, Protocol, Union, cast
 from warnings import warn
 
 from simpy import Environment as SimpyEnv
@@ -426,6 +426,13 @@ class NamedUpstageEntity(UpstageBase):
             self._add_to_group(group_name)
         self._add_special_group()
 
+    def _remove_entity(self) -> None:
+        """Remove self from everything that tracks it, when it couldn't be created."""
+        special = SPECIAL_ENTITY_CONTEXT_VAR.get()
+        tracked = [special.actors, special.monitored, *ENTITY_CONTEXT_VAR.get().values()]
+        for entities in cast(list[list[Any]], tracked):
+            entities[:] = [entity for entity in entities if entity is not self]
+
     def __init__(self, *args: Any, **kwargs: Any) -> None:
         """Init the named entity."""
         super().__init__(*args, **kwargs)
-- 
2.43.0


From dec6d2057323144242171be7e1b70eeacd5ac00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:18 +0000
Subject: [PATCH 55/85] fix: routing gives up on a destination that can't be
 reached

---
 src/upstage_des/communications/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 4ea0d91..ec77943 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -265,9 +265,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         u, v = source.name, dest.name
         if u not in self._network:
             return None
-        if v in self._network[u]:
-            return dest
         ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
+        if v in self._network[u] and v not in ignore_names:
+            return dest
         net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
         path = _shortest_path(net, u, v)
         if not path:
-- 
2.43.0


From a0facfa5d0cebe07c2025e08d090797479277503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 56/85] fix: the route among equally short ones does not depend
 on hashes

---
 src/upstage_des/communications/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index ec77943..6708df4 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -21,7 +21,7 @@ def _shortest_path(network: dict[str, set[str]], start: str, goal: str) -> list[
 
     while queue:
         node, path = queue.popleft()
-        for neighbor in network.get(node, set()):
+        for neighbor in sorted(network.get(node, set())):
             if neighbor == goal:
                 return path + [neighbor]
             if neighbor not in visited:
-- 
2.43.0


From dd6694e1ecc1394e173b0761d5a1c7a781cd1107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 57/85] fix: all units of a kind convert into each other,
 consistently

---
 src/upstage_des/units/convert.py | 52 ++++++++++++--------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/upstage_des/units/convert.py b/src/upstage_des/units/convert.py
index 9c51b0c..3d0734c 100644
--- a/src/upstage_des/units/convert.py
+++ b/src/upstage_des/units/convert.py
@@ -4,31 +4,27 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Conversions for common distance and time units."""
 
+# How much of each unit makes one kilometer.
+_PER_KM: dict[str, float] = {
+    "m": 1000.0,
+    "km": 1.0,
+    "mi": 0.62137119223,
+    "nmi": 0.539957,
+    "ft": 0.62137119223 * 5280.0,
+}
+# How much of each unit makes one week.
+_PER_WEEK: dict[str, float] = {
+    "s": 7 * 24 * 60 * 60.0,
+    "min": 7 * 24 * 60.0,
+    "hr": 7 * 24.0,
+    "day": 7.0,
+    "week": 1.0,
+}
+
 CONVERSIONS: dict[str, dict[str, float]] = {
-    "m": {
-        "km": 1 / 1000.0,
-        "mi": 1 / 1000.0 * 0.62137119223,
-        "nmi": 1 / 1000.0 * 0.539957,
-        "m": 1.0,
-    },
-    "km": {"km": 1.0, "mi": 0.62137119223, "nmi": 0.539957, "m": 1000.0},
-    "mi": {
-        "km": 1 / 0.62137119223,
-        "mi": 1.0,
-        "nmi": 0.868976,
-        "m": 1 / 0.62137119223 * 1000,
-    },
-    "nmi": {
-        "km": 1 / 0.539957,
-        "mi": 1 / 0.868976,
-        "nmi": 1.0,
-        "m": 1 / 0.539957 * 1000,
-    },
-    "s": {"hr": 1.0 / (60.0 * 60.0), "min": 1.0 / 60.0, "s": 1.0},
-    "min": {"hr": 1.0 / 60.0, "min": 1.0, "s": 60.0},
-    "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
-    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
-    "week": {"day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
+    unit_from: {unit_to: per_to / per_from for unit_to, per_to in kind.items()}
+    for kind in (_PER_KM, _PER_WEEK)
+    for unit_from, per_from in kind.items()
 }
 
 DISTANCE_UNITS = ["m", "km", "mi", "nmi", "ft"]
@@ -45,14 +41,6 @@ TIME_ALTERNATES = {
 }
 STANDARD_TIMES = ["s", "min", "hr"]
 
-# add feet to conversions
-CONVERSIONS["ft"] = {"ft": 1.0, "mi": 1 / 5280.0}
-for unit in DISTANCE_UNITS:
-    if unit == "ft":
-        continue
-    CONVERSIONS["ft"][unit] = CONVERSIONS["mi"][unit] / 5280.0
-    CONVERSIONS[unit]["ft"] = 1 / CONVERSIONS["ft"][unit]
-
 
 def unit_convert(value: int | float, units_from: str, units_to: str) -> float:
     """Convert between units of distance and time.
-- 
2.43.0


From 3834de120a62b6544e7a94678a677f2ab26cc6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:41 +0000
Subject: [PATCH 58/85] fix: time units in capitals are displayed like others

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 58eb2c5..b7a6051 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -354,7 +354,7 @@ class UpstageBase:
         time_unit = self.stage.get("time_unit", None)
         # If it's explicitly set to None, still treat it as hours.
         time_unit = "hr" if time_unit is None else time_unit
-        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit)
+        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit.lower())
 
         ts: str
         if standard in STANDARD_TIMES:
-- 
2.43.0


From 1ad3dd455487707fe7cc0b1b12d35c11df7aca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 59/85] fix: waits in a unit are converted when the stage has
 no time unit

---
 src/upstage_des/events.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index ea5508d..4b22ad1 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -176,10 +176,11 @@ class Wait(BaseEvent):
         Returns:
             float: Time in stage units
         """
-        base_unit = self.stage.get("time_unit")
-        if base_unit is not None and unit is not None:
-            return unit_convert(time, unit, base_unit)
-        return time
+        if unit is None:
+            return time
+        # The clock is in hours when the stage doesn't say otherwise.
+        base_unit = self.stage.get("time_unit") or "hr"
+        return unit_convert(time, unit, base_unit)
 
     def __init__(
         self,
-- 
2.43.0


From 987cd459c9c08f890706b7afe5f964cc376c3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:35 +0000
Subject: [PATCH 60/85] fix: SortedFilterStore hands out falsy items, and the
 item chosen rather than one equal to it

---
 src/upstage_des/resources/sorted.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/resources/sorted.py b/src/upstage_des/resources/sorted.py
index 576ce0b..a6e7db7 100644
--- a/src/upstage_des/resources/sorted.py
+++ b/src/upstage_des/resources/sorted.py
@@ -81,22 +81,22 @@ class SortedFilterStore(Store):
         get = BoundClass(_SortedFilterStoreGet)
 
     def _do_get(self, event: _SortedFilterStoreGet) -> bool:  # type: ignore[override]
-        min_item: Any = None
+        # Keep the position, since items can be falsy or equal to each other.
+        min_idx: int | None = None
         # min_val is a tuple, in case the sorter returns an iterable
         min_val: tuple[Any, ...] | None = None
-        for item in self.items:
+        for idx, item in enumerate(self.items):
             if event.filter(item):
                 if event.sorter is not None:
                     val = event.sorter(item)
                     if min_val is None or (val > min_val if event.reverse else val < min_val):
-                        min_item = item
+                        min_idx = idx
                         min_val = val
                 else:
-                    min_item = item
+                    min_idx = idx
                     break
-        if min_item:
-            self.items.remove(min_item)
-            event.succeed(min_item)
+        if min_idx is not None:
+            event.succeed(self.items.pop(min_idx))
         return True
 
 
-- 
2.43.0


From 33ae0d3b3a8a7d76bd5fcf1f647fb9ceea3f5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:38 +0000
Subject: [PATCH 61/85] fix: an expiring reservation does not cancel a later
 one of the same requester

---
 src/upstage_des/resources/reserve.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 80416ea..883a3d7 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -72,7 +72,9 @@ class ReserveContainer:
         return list(self._queued.keys())
 
     @process
-    def _expire_request(self, requester: Any, time: float) -> Generator[Event, None, None]:
+    def _expire_request(
+        self, requester: Any, time: float, request: tuple[float, float]
+    ) -> Generator[Event, None, None]:
         """Expire the request after an expiration period or at a specific time.
 
         :param request: the Request namedtuple object
@@ -83,7 +85,9 @@ class ReserveContainer:
 
         """
         yield self._env.timeout(time)
-        self.cancel_request(requester)
+        # The requester may hold a later reservation by now.
+        if self._queued.get(requester) is request:
+            self.cancel_request(requester)
 
     def reserve(self, requester: Any, quantity: float, expiration: float | None = None) -> bool:
         """Reserve a quantity of storage."""
@@ -91,9 +95,10 @@ class ReserveContainer:
             return False
         elif requester not in self._queued:
             self._level -= quantity
-            self._queued[requester] = (quantity, self._env.now)
+            request = (quantity, self._env.now)
+            self._queued[requester] = request
             if expiration is not None:
-                self._expire_request(requester, expiration)
+                self._expire_request(requester, expiration, request)
             return True
         else:
             return False
-- 
2.43.0


From e85246f49958246040ba7dac80d7174e4aeb7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:40 +0000
Subject: [PATCH 62/85] fix: a reservation can be cancelled with a requester
 equal to the one that made it

---
 src/upstage_des/resources/reserve.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 883a3d7..8807c3f 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -108,11 +108,8 @@ class ReserveContainer:
         if requester not in self._queued:
             return False
         else:
-            request = [x for x in self._queued if x is requester]
-            if not request:
-                raise ValueError("Requester not available to cancel")
-            self._level += self._queued[requester][0]
-            self._queued.pop(request[0])
+            quantity, _ = self._queued.pop(requester)
+            self._level += quantity
             return True
 
     def take(self, requester: Any) -> float:
-- 
2.43.0


From aeef826166d859233d1420f4575b26d70d52c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:43 +0000
Subject: [PATCH 63/85] fix: ReserveContainer counts reserved stock against its
 capacity, and increases it when asked

---
 src/upstage_des/resources/reserve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 8807c3f..a65c9be 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -123,9 +123,10 @@ class ReserveContainer:
 
     def put(self, amount: float, capacity_increase: bool = False) -> None:
         """Put some quantity back in."""
-        new = self._level + amount
+        new = self._real_level + amount
         if new > self.capacity and not capacity_increase:
             raise ValueError("Adding too much.")
         else:
-            self._level = new
-            self._real_level += amount
+            self._level += amount
+            self._real_level = new
+            self.capacity = max(self.capacity, new)
-- 
2.43.0


From ebf2f406920977d08a060cb7a54e5d0e6268cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:09 +0000
Subject: [PATCH 64/85] fix: ContinuousContainer meets full and empty in spite
 of rounding and later changes of rate

---
 src/upstage_des/resources/container.py | 77 +++++++++++---------------
 1 file changed, 33 insertions(+), 44 deletions(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index dc76d40..1aa023c 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -293,42 +293,19 @@ class ContinuousContainer:
         """
         now = self._env.now
         if now > self._last:
-            self._level += self._rate * (now - self._last)
+            self._level = self.level
             self._last = now
         return self._level
 
-    def _check_empty(self) -> tuple[list[ContinuousGet], float]:
-        level = self._level
-        to_rem: list[ContinuousGet] = []
-        rate = 0.0
-        if level > 0:
-            return to_rem, rate
-        for get in tuple(self._active_gets):
-            get.process.interrupt(EMPTY_STATUS)
-            to_rem.append(get)
-            rate += -get.rate
-        if level == 0 and self.error_empty:
+    def _check_empty(self) -> None:
+        self._stop_users(self._active_gets, EMPTY_STATUS)
+        if self.error_empty:
             raise ContainerEmptyError("Container is empty!")
-        elif level < 0.0:
-            raise ContainerError(f"Container level is less than 0 ({level:.3f})!")
-        return to_rem, rate
-
-    def _check_full(self) -> tuple[list[ContinuousPut], float]:
-        level = self._level
-        to_rem: list[ContinuousPut] = []
-        rate: float = 0.0
-        if level < self.capacity:
-            return to_rem, rate
-        for put in tuple(self._active_puts):
-            put.process.interrupt(FULL_STATUS)
-            to_rem.append(put)
-            rate += -put.rate
-        if level == self.capacity and self.error_full:
+
+    def _check_full(self) -> None:
+        self._stop_users(self._active_puts, FULL_STATUS)
+        if self.error_full:
             raise ContainerFullError("Container is full!")
-        elif level > self.capacity:
-            msg = "Container level exceeds capacity by {:.3f}!"
-            raise ContainerError(msg.format(level - self._capacity))
-        return to_rem, rate
 
     def _check(self) -> Generator[Event, None, None]:
         if not self._rate or self._rate == 0:
@@ -343,18 +320,28 @@ class ContinuousContainer:
         except Interrupt as interruption:
             if interruption.cause != "updated":
                 raise  # pragma: no cover
-        finally:
-            to_rem: list[ContinuousGet] | list[ContinuousPut] = []
-            rate: float
-            self._set_level()
-            if self._rate < 0:
-                to_rem, rate = self._check_empty()
-            elif self._rate > 0:
-                to_rem, rate = self._check_full()
-            if to_rem:
-                for req in to_rem:
-                    self._active_users.remove(req)
-                self._add_rate(rate, interrupt=False)
+            # The rate has changed, and there is another check for the new one.
+            return
+
+        # The rate did not change on the way, so this is the limit up to rounding.
+        self._level = self._capacity if self._rate > 0 else 0.0
+        self._last = self._env.now
+        self._set_level()
+        self._checking = None
+        if self._rate < 0:
+            self._check_empty()
+        else:
+            self._check_full()
+
+    def _stop_users(self, users: list[ContinuousGet] | list[ContinuousPut], cause: str) -> None:
+        """Stop and remove users that can't continue at the current level."""
+        rate = 0.0
+        for user in users:
+            user.process.interrupt(cause)
+            self._active_users.remove(user)
+            rate -= user.rate
+        if users:
+            self._add_rate(rate, interrupt=False)
 
     def _add_rate(self, rate_change: float | int, interrupt: bool = True) -> None:
         """Add a new rate to the existing rate."""
@@ -405,4 +392,6 @@ class ContinuousContainer:
         Returns:
             float: The current amount remaining.
         """
-        return self._level + self._rate * (self._env.now - self._last)
+        level = self._level + self._rate * (self._env.now - self._last)
+        # Rounding must not carry the level past a limit.
+        return min(max(level, 0.0), self._capacity)
-- 
2.43.0


From 7d9cd79547f2ed2a3b7589b367c28743444a0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:12 +0000
Subject: [PATCH 65/85] fix: ContinuousContainer.time_until_level starts from
 the present level

---
 src/upstage_des/resources/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 1aa023c..b92407c 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -220,7 +220,7 @@ class ContinuousContainer:
             return 0.0  # pragma: no cover
         elif rate == 0:
             return float("inf")  # pragma: no cover
-        time = (level - self._level) / rate
+        time = (level - self.level) / rate
         return time if time > 0 else float("inf")
 
     def time_until_done(self, rate: float = 0.0) -> float:
-- 
2.43.0


From ae570af1f4fb7523188a815f30f8ff21c0e16613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 66/85] fix: a callback of a continuous put or get can cancel
 it

---
 src/upstage_des/resources/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index b92407c..848ce42 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -91,7 +91,8 @@ class _ContinuousEvent(Event):
         method is called automatically.
 
         """
-        if self.process.is_alive:
+        # Its own callbacks run when it has already been stopped.
+        if self.process.is_alive and self.env.active_process is not self.process:
             self.process.interrupt("stop")
 
 
-- 
2.43.0


From 8d33347613dc9255feb5a22a7d55222211760865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 67/85] fix: crossings of a Cartesian leg start or end on the
 boundary, go nowhere or use altitude units

The solver divided by zero for a leg without length, found three crossings
for a leg that starts on the boundary, ignored the altitude units of z and
reported a time of -1 for a leg that misses the sensor, so that all later
crossings of the route were told at the wrong time.
---
 src/upstage_des/motion/cartesian_model.py | 64 ++++++++++++-----------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a58c5d7..736aa71 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -106,8 +106,8 @@ def cartesian_linear_intersection(
     path_time = path_dist / speed
     dist_start = sensor_location - start
     dist_finish = sensor_location - finish
-    start_tup = (start.x, start.y, start.z)
-    finish_tup = (finish.x, finish.y, finish.z)
+    start_tup = start._as_array()
+    finish_tup = finish._as_array()
 
     # for start and finish inside, we can skip the intersection math
     start_inside = dist_start <= sensor_radius
@@ -117,34 +117,36 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
-    sensor_location_tup = (sensor_location.x, sensor_location.y, sensor_location.z)
-    intersections, times = ray_intersection(
-        start_tup,
-        finish_tup,
-        sensor_location_tup,
-        sensor_radius,
-        speed,
-    )
-    if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], -1.0
-
-    # filter out intersections beyond the path length
-    idxs = sorted(range(len(times)), key=lambda i: times[i])
-    inters = [CartesianLocation(*intersections[i]) for i in idxs if times[i] <= path_time]
-    times = [times[i] for i in idxs if times[i] <= path_time]
-    type_start = "START_INSIDE" if start_inside else "ENTER"
-    type_end = "END_INSIDE" if finish_inside else "EXIT"
-    if start_inside:
-        inters = [start] + inters
-        times = [0] + times
-    if finish_inside:
-        inters = inters + [finish]
-        times = times + [path_time]
-    if len(inters) != 2:
-        raise MotionAndDetectionError(
-            f"There should be two intersections, not {len(inters)} ({inters})"
+    # without a path or a volume there is no boundary to cross
+    intersections: list[XYZ] = []
+    times: list[float] = []
+    if path_dist > 0 and sensor_radius > 0:
+        intersections, times = ray_intersection(
+            start_tup,
+            finish_tup,
+            sensor_location._as_array(),
+            sensor_radius,
+            speed,
         )
-    if len(times) != 2:
-        raise MotionAndDetectionError("There should be two time intersections")
 
-    return inters, times, [type_start, type_end], path_time
+    # The part of the path in range. A start or finish on the boundary may be
+    # rounded to either side of it, so those come from the distances alone.
+    if len(times) == 1:
+        intersections = [start_tup] + intersections
+        times = [0.0] + times
+    elif not times:
+        at_start = (start_tup, 0.0) if start_inside else (finish_tup, path_time)
+        intersections, times = [at_start[0]] * 2, [at_start[1]] * 2
+    if not (start_inside or finish_inside) and (times[0] >= path_time or times[0] >= times[1]):
+        return [], [], ["BAD", "BAD"], path_time
+
+    type_start, inter_start, time_start = "START_INSIDE", start, 0.0
+    if not start_inside:
+        type_start, time_start = "ENTER", min(times[0], path_time)
+        inter_start = CartesianLocation(*intersections[0]) if times[0] < path_time else finish
+    type_end, inter_end, time_end = "END_INSIDE", finish, path_time
+    if not finish_inside:
+        type_end, time_end = "EXIT", min(times[1], path_time)
+        inter_end = CartesianLocation(*intersections[1]) if times[1] < path_time else finish
+
+    return [inter_start, inter_end], [time_start, time_end], [type_start, type_end], path_time
-- 
2.43.0


From 191c8038124c7957350f46395b7cae2b8b427d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 68/85] fix: great circle crossings at due north courses,
 sensors at a waypoint and altitudes

The analytical crossing failed for a sensor at a waypoint, a leg without
length or a course due north, measured altitude from the ground instead of
from the sensor, disagreed with itself where legs of different altitude
meet, used a speed other than ground speed and reported no time for a leg
that misses the sensor.
---
 src/upstage_des/motion/geodetic_model.py     | 66 ++++++++++----------
 src/upstage_des/motion/great_circle_calcs.py | 19 +++---
 2 files changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index a01ab3d..5a85f49 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -75,7 +75,7 @@ def subdivide_intersection(
     )
 
     if not intersect_locs:
-        return [], [], ["Bad", "Bad"], 0.0
+        return [], [], ["Bad", "Bad"], path_time
 
     # convert the data to a more useful format
     intersections: list[GeodeticLocation] = []
@@ -134,48 +134,54 @@ def analytical_intersection(
     finish_rad = finish.to_radians()
     sensor_location_rad = sensor_location.to_radians()
 
-    # modify the sensor's radius to account for the altitude of the mover
-    average_path_height = (start.alt + finish.alt) / 2.0
-    average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
-    adjusted_sensor_radius = sqrt(sensor_radius**2 - average_path_height_dist_units**2)
-    sensor_radius_rad = adjusted_sensor_radius / earth_rad
+    def _ground_radius_rad(alt: float) -> float:
+        # modify the sensor's radius to account for the altitude of the mover over the sensor
+        height = unit_convert(alt - sensor_location.alt, altitude_units, dist_units)
+        return sqrt(max(sensor_radius**2 - height**2, 0.0)) / earth_rad
 
     # Note: some calcs may be doubled here, further speed up potentially by optimizing this
-    point_results = get_great_circle_points(
-        start_rad, finish_rad, sensor_location_rad, sensor_radius_rad
-    )
     dist_start = get_dist_rad(sensor_location_rad, start_rad)
     dist_finish = get_dist_rad(sensor_location_rad, finish_rad)
     path_dist = get_dist_rad(start_rad, finish_rad)
     path_time = (path_dist * earth_rad) / speed
+    # The altitude at the waypoint decides these, so that legs agree where they meet.
+    start_inside = dist_start < _ground_radius_rad(start.alt)
+    finish_inside = dist_finish < _ground_radius_rad(finish.alt)
+
+    sensor_radius_rad = _ground_radius_rad((start.alt + finish.alt) / 2.0)
+    point_results = None
+    if path_dist > 0 and sensor_radius_rad > 0:
+        point_results = get_great_circle_points(
+            start_rad, finish_rad, sensor_location_rad, sensor_radius_rad
+        )
 
     # no intersection
-    if point_results is None:
+    if point_results is None and not (start_inside or finish_inside):
         # return matches subdivide_intersection results
-        return [], [], ["Bad", "Bad"], -1.0
+        return [], [], ["Bad", "Bad"], path_time
 
-    points, distances = point_results
+    if point_results is None:
+        lat, lon, _ = (start_rad if start_inside else finish_rad)._to_tuple()
+        points = [(lat, lon)] * 2
+        distances = [0.0 if start_inside else path_dist] * 2
+    else:
+        points, distances = point_results
     # get points, times, and types
     intersections = []
     times = []
     types = []
-    alt_change_per_dist = (finish.alt - start.alt) / path_dist  # altitude change per radian
 
     # check for start in the sensor range
-    if dist_start < sensor_radius_rad:
+    if start_inside:
         types.append("START_INSIDE")
         intersections.append(start)
         times.append(0.0)
     else:
         types.append("ENTER")
 
-        # estimate intersection altitude assuming linear change
-        alt_1 = start.alt + (distances[0] / path_dist) * alt_change_per_dist
-        # adjust distance to account for average altitude from start to first intersection
-        d1_m = distances[0] * (
-            earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
-        )
-
+        # Speed is ground speed, and the altitude change is linear with the ground distance
+        d1 = min(max(distances[0], 0.0), path_dist)
+        alt_1 = start.alt + (d1 / path_dist) * (finish.alt - start.alt)
         intersections.append(
             GeodeticLocation(
                 *points[0],
@@ -183,25 +189,19 @@ def analytical_intersection(
                 in_radians=True,
             ).to_degrees()
         )
-        times.append(d1_m / speed)
+        times.append(d1 * earth_rad / speed)
 
     # check for end in the sensor range
-    if dist_finish < sensor_radius_rad:
+    if finish_inside:
         types.append("END_INSIDE")
         intersections.append(finish)
-        d_end = path_dist * earth_rad
-        times.append(d_end / speed)
+        times.append(path_time)
     else:
         types.append("EXIT")
 
-        # estimate intersection altitude assuming linear change
-        alt_2 = start.alt + (distances[1] / path_dist) * alt_change_per_dist
-        # adjust distance to account for average altitude from start to first intersection
-        d2_m = distances[1] * (
-            earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-        )
-
+        d2 = min(max(distances[1], 0.0), path_dist)
+        alt_2 = start.alt + (d2 / path_dist) * (finish.alt - start.alt)
         intersections.append(GeodeticLocation(*points[1], alt=alt_2, in_radians=True).to_degrees())
-        times.append(d2_m / speed)
+        times.append(d2 * earth_rad / speed)
 
     return intersections, times, types, path_time
diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index ac940e2..261cc93 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -44,18 +44,13 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
     """
     point1 = point1.to_radians()
     point2 = point2.to_radians()
-    tcl: float
-
-    d = get_dist_rad(point1, point2)
-
-    if sin(point2.lon - point1.lon) < 0:
-        tcl = acos((sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat)))
-    else:
-        tcl = 2.0 * pi - acos(
-            (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-        )
-
-    return tcl
+    # counter-clockwise from north, defined for any two points (coincident ones, too)
+    bearing = atan2(
+        sin(point2.lon - point1.lon) * cos(point2.lat),
+        cos(point1.lat) * sin(point2.lat)
+        - sin(point1.lat) * cos(point2.lat) * cos(point2.lon - point1.lon),
+    )
+    return 2.0 * pi - bearing % (2.0 * pi)
 
 
 @lru_cache
-- 
2.43.0


From 787f54187fdb08aa73214b3f01d730c9b9eedcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:00 +0000
Subject: [PATCH 69/85] fix: evenly spaced points on short, equatorial and
 meridian great circles

Spherical.geo_linspace solved for the end of the path with a half-angle
formula that divides by the sum of the x coordinates and picks the wrong
root for close points (0/175 to 0/175.01 ran to 184.99).
---
 src/upstage_des/geography/spherical.py | 32 ++++++++------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index efcd3e7..1367b77 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,9 +4,9 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan, atan2, cos, degrees, radians, sin, sqrt
+from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
 
-from upstage_des.math_utils import _vector_dot
+from upstage_des.math_utils import _vector_dot, _vector_norm, _vector_subtract
 from upstage_des.units import unit_convert
 
 from .conversions import SphericalConversions, spherical_radius
@@ -204,26 +204,14 @@ class Spherical(SphericalConversions):
         v2 = cls._ll2cart(end[0], end[1])
         # solve for the parameter value that equals the end point
         d = _vector_dot(v1, v2)
-        common = sqrt(-1 / ((d - 1) * (d + 1)))
-        alpha, beta = -d * common, common
-        a, _, _ = v1
-        d, _, _ = v2
-        lead = a * alpha + beta * d
-        sqrt_inner = a**2 * alpha**2 + a**2 + 2 * a * alpha * beta * d + beta**2 * d**2 - d**2
-        if sqrt_inner < 0:
-            raise ValueError("geo_linspace fails due to negative sqrt")
-        t = 2 * atan((lead + sqrt(sqrt_inner)) / (a + d))
-        W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
-        assert len(W) == 3
-        W = (W[0], W[1], W[2])
-        # test that the t is right
-        ct, st = cos(t), sin(t)
-        end_pt = tuple([ct * x + st * w for x, w in zip(v1, W)])
-        assert len(end_pt) == 3
-        end_pt = (end_pt[0], end_pt[1], end_pt[2])
-        is_close = all(abs(a - b) <= 1e-8 for a, b in zip(end_pt, v2))
-        if not is_close:
-            t = 2 * atan((lead - sqrt(sqrt_inner)) / (a + d))
+        # The unit vector in the plane of the path at a right angle to the start. The
+        # difference of the points keeps the digits that 1 - d would lose when they are close.
+        diff = _vector_subtract(v2, v1)
+        along = _vector_dot(v1, diff)
+        across = [x - along * v for x, v in zip(diff, v1)]
+        size = _vector_norm(across)
+        W = tuple([x / size for x in across]) if size > 0 else (0.0, 0.0, 0.0)
+        t = atan2(size, d)
 
         ts = [(t / num_segments) * i for i in range(0, num_segments + 1)]
         v_cos = [tuple(cos(t) * v for v in v1) for t in ts]
-- 
2.43.0


From 2a69b035a84712874c7a619cba352388be5088a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:44 +0000
Subject: [PATCH 70/85] fix: sensors may stop, hide or turn back the movers
 they are told about

---
 src/upstage_des/motion/motion.py | 93 +++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 31 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d670df..2966454 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -102,7 +102,7 @@ class SensorMotionManager(UpstageBase):
         self._sensors: dict[SensorType, tuple[str, str]] = {}
         self._movers: dict[Actor, tuple[float, LOC_LIST, float]] = {}
         self._events: dict[Actor, list[tuple[SensorType, Process]]] = {}
-        self._in_view: dict[Actor, set[SensorType]] = {}
+        self._in_view: dict[Actor, dict[SensorType, bool]] = {}
         self._debug: bool = debug
         self._debug_data: dict[Actor, list[Any]] = {}
         self._debug_log: list[Any] = []
@@ -136,11 +136,10 @@ class SensorMotionManager(UpstageBase):
         # It's possible for a mover to have no events when it stops
         # since it has no intersections. But we need the mover to exist
         # in case a new sensor pops up
-        if mover in self._events:
-            for _, proc in self._events.get(mover, []):
-                if proc.is_alive:
-                    proc.interrupt()
-            del self._events[mover]
+        for _, proc in self._events.pop(mover, []):
+            # A sensor may stop the mover when it is notified: that notification ends by itself
+            if proc.is_alive and proc is not self.env.active_process:
+                proc.interrupt()
 
         # clear the mover references
         del self._movers[mover]
@@ -155,16 +154,19 @@ class SensorMotionManager(UpstageBase):
         Args:
             mover (Actor): The mover.
         """
-        if mover in self._in_view:
-            for sensor in self._in_view[mover]:
-                # This will cause some old data to stick around, but that's
-                # instead of making new events to clear it out and then having
-                # to end those clearing events if this happens
-                sensor.entity_exited_range(mover)
-            del self._in_view[mover]
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
+        was_moving = mover in self._movers
         self._stop_mover(mover, from_not_detectable=True)
+        if was_moving:
+            # Same as a mover that starts undetectable: the motion goes on unseen,
+            # and may end after the mover becomes detectable again.
+            self._movers[mover] = (0.0, [], 0.0)
+        for sensor in self._in_view.pop(mover, {}):
+            # This will cause some old data to stick around, but that's
+            # instead of making new events to clear it out and then having
+            # to end those clearing events if this happens
+            sensor.entity_exited_range(mover)
 
     def _mover_became_detectable(self, mover: Actor) -> None:
         """Called via DetectabilityState when a mover becomes detectable.
@@ -265,9 +267,9 @@ class SensorMotionManager(UpstageBase):
             bool: If it was already in view.
         """
         if mover not in self._in_view:
-            self._in_view[mover] = set()
+            self._in_view[mover] = {}
         was_in = sensor in self._in_view[mover]
-        self._in_view[mover].add(sensor)
+        self._in_view[mover][sensor] = True
         return was_in
 
     def _remove_from_view(self, mover: Actor, sensor: SensorType) -> None:
@@ -281,7 +283,7 @@ class SensorMotionManager(UpstageBase):
             raise MotionAndDetectionError(f"{mover} isn't in view of anything to remove.")
         if sensor not in self._in_view[mover]:
             raise MotionAndDetectionError(f"{mover} isn't in view of {sensor} to allow clearing.")
-        self._in_view[mover].remove(sensor)
+        del self._in_view[mover][sensor]
 
     def _end_notify(self, mover: Actor, sensor: SensorType, event: str) -> None:
         """End notification and give a reason.
@@ -308,6 +310,7 @@ class SensorMotionManager(UpstageBase):
         second_time: float,
         first_kind: str,
         second_kind: str,
+        events: list[tuple[SensorType, Process]],
     ) -> Generator[SimpyEvent, Any, None]:
         """Notify a sensor about a mover.
 
@@ -320,7 +323,17 @@ class SensorMotionManager(UpstageBase):
             second_time (float): Time of the second
             first_kind (str): Kind of the first
             second_kind (str): Kind of the second
+            events (list[tuple[SensorType, Process]]): The mover's events on this motion
         """
+
+        def _cancelled() -> bool:
+            # Sensors may stop the mover or hide it when they are notified
+            return self._events.get(mover) is not events
+
+        if _cancelled():
+            self._end_notify(mover, sensor, "before entry")
+            return None
+
         # times are absolute on input to this method
         notify_time_from_now = first_time - self.env.now
 
@@ -336,26 +349,41 @@ class SensorMotionManager(UpstageBase):
                 self._end_notify(mover, sensor, "before entry")
                 return None
 
-            sensor.entity_entered_range(mover)
-            self._add_to_view(mover, sensor)
+            was_in = self._add_to_view(mover, sensor)
+            if not was_in:
+                sensor.entity_entered_range(mover)
 
-        if second_kind != "EXIT":
+        if second_kind != "EXIT" or _cancelled():
             return None
 
         end_time_from_now = second_time - self.env.now
-        if end_time_from_now <= 0:
-            raise MotionAndDetectionError("Detection end time is less than detection start")
-
         try:
-            yield self.env.timeout(end_time_from_now)
+            yield self.env.timeout(max(end_time_from_now, 0.0))
         except Interrupt:
             self._end_notify(mover, sensor, "before exit")
             return None
 
-        sensor.entity_exited_range(mover)
         self._remove_from_view(mover, sensor)
+        sensor.entity_exited_range(mover)
         return None
 
+    def _notify_left(
+        self, mover: Actor, sensor: SensorType, events: list[tuple[SensorType, Process]]
+    ) -> Generator[SimpyEvent, Any, None]:
+        """Notify a sensor that a mover in its view starts a motion outside of its range.
+
+        This happens when a mover stopped on the boundary of the range.
+
+        Args:
+            mover (Actor): Mover
+            sensor (Actor): Sensor
+            events (list[tuple[SensorType, Process]]): The mover's events on this motion
+        """
+        if self._events.get(mover) is events and sensor in self._in_view.get(mover, {}):
+            self._remove_from_view(mover, sensor)
+            sensor.entity_exited_range(mover)
+        yield from ()
+
     def _schedule(
         self,
         mover: Actor,
@@ -400,15 +428,13 @@ class SensorMotionManager(UpstageBase):
             }
             self._debug_log.append(msg)
 
+        mover_events = self._events.setdefault(mover, [])
         proc = self.env.process(
-            self._notify(mover, sensor, first_time, second_time, first_kind, second_kind)
+            self._notify(
+                mover, sensor, first_time, second_time, first_kind, second_kind, mover_events
+            )
         )
-        if mover not in self._events:
-            self._events[mover] = [
-                (sensor, proc),
-            ]
-        else:
-            self._events[mover].append((sensor, proc))
+        mover_events.append((sensor, proc))
 
     def _find_intersections(
         self,
@@ -430,6 +456,11 @@ class SensorMotionManager(UpstageBase):
         for m in movers:
             for s in sensors:
                 inter_pairs = self._process_mover_sensor_pair(m, s)
+                starts_in = any(first[1] <= self.env.now for first, _ in inter_pairs)
+                if s in self._in_view.get(m, {}) and not starts_in:
+                    mover_events = self._events.setdefault(m, [])
+                    left = self.env.process(self._notify_left(m, s, mover_events))
+                    mover_events.append((s, left))
                 for pair in inter_pairs:
                     self._schedule(m, s, pair)
 
-- 
2.43.0


From 2482534b73e12469b5306032b08bec83d67e012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:02 +0000
Subject: [PATCH 71/85] fix: stepped motion restarts, keeps added detectables
 and tolerates reacting sensors

---
 src/upstage_des/motion/stepped_motion.py | 39 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 150e394..5db76a8 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -73,7 +73,10 @@ class SteppedMotionManager(UpstageBase):
         super().__init__()
         self._sensors: dict[SensorType, tuple[Callable[[], float], Callable[[], LOC_TYPES]]] = {}
         self._detectables: dict[Actor, Callable[[], LOC_TYPES]] = {}
-        self._in_view: set[tuple[SensorType, Actor]] = set()
+        # An ordered set, so that notifications do not depend on hashing
+        self._in_view: dict[tuple[SensorType, Actor], bool] = {}
+        # Movers that are detectable only because (and while) they move
+        self._auto_added: dict[Actor, bool] = {}
         self._timestep = timestep
         self._max_empty_events = max_empty_events
         self._debug = debug
@@ -99,11 +102,11 @@ class SteppedMotionManager(UpstageBase):
         """
         if visible:
             if (sensor, object) not in self._in_view:
-                self._in_view.add((sensor, object))
+                self._in_view[(sensor, object)] = True
                 sensor.entity_entered_range(object)
         else:
             if (sensor, object) in self._in_view:
-                self._in_view.remove((sensor, object))
+                del self._in_view[(sensor, object)]
                 sensor.entity_exited_range(object)
 
     def _test_detect(self, detectable: Actor) -> bool:
@@ -123,6 +126,17 @@ class SteppedMotionManager(UpstageBase):
         visibility: bool = getattr(detectable, detect_state)
         return visibility
 
+    def _can_detect(self, detectable: Actor) -> bool:
+        """Is an object known to the manager, and detectable?
+
+        Args:
+            detectable (Actor): The object
+
+        Returns:
+            bool: If it should be checked against the sensors.
+        """
+        return detectable in self._detectables and self._test_detect(detectable)
+
     @staticmethod
     def _detect_dist(loc1: LOC_TYPES, radius: float, loc2: LOC_TYPES, sensor: SensorType) -> bool:
         """Run a detectability check, including sensor custom function.
@@ -159,12 +173,13 @@ class SteppedMotionManager(UpstageBase):
         sensor_locs = [self._sensors[s][1]() for s in sensor_req]
 
         detectable_req = list(self._detectables) if detectable_req is None else detectable_req
-        detectable_req = [d for d in detectable_req if self._test_detect(d)]
+        detectable_req = [d for d in detectable_req if self._can_detect(d)]
         detect_locs = [self._detectables[d]() for d in detectable_req]
 
         for sensor, radius, loc in zip(sensor_req, sensor_radii, sensor_locs):
             for detectable, d_loc in zip(detectable_req, detect_locs):
-                if detectable is sensor:
+                # Notifying a sensor can stop or hide a detectable
+                if detectable is sensor or not self._can_detect(detectable):
                     continue
                 visible = self._detect_dist(loc, radius, d_loc, sensor)
                 self._do_log((self.env.now, sensor, loc, detectable, d_loc))
@@ -197,6 +212,7 @@ class SteppedMotionManager(UpstageBase):
             if self._only_event_test():
                 n_empty += 1
                 if n_empty >= self._max_empty_events:
+                    self._is_running = False
                     return
             else:
                 n_empty = 0
@@ -274,6 +290,7 @@ class SteppedMotionManager(UpstageBase):
             return cast(LOC_TYPES, getattr(detectable, location_attr_name))
 
         self._detectables[detectable] = get_location
+        self._auto_added.pop(detectable, None)
 
     def _mover_not_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes undetectable.
@@ -282,12 +299,9 @@ class SteppedMotionManager(UpstageBase):
         an object should no longer be considered by that sensor.
         """
         # TODO: key on detectable may make it faster
-        to_rem = set()
-        for sensor, detect in self._in_view:
+        for sensor, detect in list(self._in_view):
             if detect is detectable:
-                sensor.entity_exited_range(detectable)
-                to_rem.add((sensor, detect))
-        self._in_view -= to_rem
+                self._update_awareness(sensor, detectable, visible=False)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
@@ -311,10 +325,13 @@ class SteppedMotionManager(UpstageBase):
             raise SimulationError(f"Mover {mover} doesn't have a Location state")
 
         self.add_detectable(mover, use_state)
+        self._auto_added[mover] = True
 
     def _stop_mover(self, mover: Actor) -> None:
         # we don't need this method, except to hook into motion states
         # It may be useful for ending detections, but the user should
         # handle that themselves
-        if mover in self._detectables:
+        # Objects from `add_detectable` stay detectable when they stop.
+        if mover in self._auto_added:
+            del self._auto_added[mover]
             del self._detectables[mover]
-- 
2.43.0


From a8255e48cdbc256fccb13a5c451abd971e1f81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:04 +0000
Subject: [PATCH 72/85] fix: spherical earth at the poles, for antipodal and
 equal points and behind the origin

---
 src/upstage_des/geography/spherical.py | 35 +++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 1367b77..04eaab4 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,7 +4,7 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from math import asin, atan2, cos, degrees, radians, sin, sqrt
 
 from upstage_des.math_utils import _vector_dot, _vector_norm, _vector_subtract
 from upstage_des.units import unit_convert
@@ -78,6 +78,8 @@ class Spherical(SphericalConversions):
         Returns:
             LAT_LON: Lat and Lon (degrees)
         """
+        if d == 0:
+            return degrees(lat1), degrees(lon1)
         a = sin((1 - f) * d) / sin(d)
         b = sin(f * d) / sin(d)
         x = a * cos(lat1) * cos(lon1) + b * cos(lat2) * cos(lon2)
@@ -289,7 +291,8 @@ class Spherical(SphericalConversions):
         lon1, lat1, lon2, lat2 = map(radians, positions)
         a = sin(0.5 * (lat2 - lat1)) ** 2 + cos(lat1) * cos(lat2) * sin(0.5 * (lon2 - lon1)) ** 2
 
-        dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(1.0 - a))
+        # Rounding can bring antipodal points past 1
+        dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(max(1.0 - a, 0.0)))
         return unit_convert(dist_m, "m", units)
 
     @classmethod
@@ -340,15 +343,16 @@ class Spherical(SphericalConversions):
         lat1 = radians(lat)
         lon1 = radians(lon)
 
-        lat2 = asin(
-            sin(lat1) * cos(dist / spherical_radius)
-            + cos(lat1) * sin(dist / spherical_radius) * cos(bearing)
-        )
+        # The parts of the new point along the axis, away from the axis at the
+        # starting longitude, and to the east of that. An arcsine would lose
+        # the digits of latitudes near the poles.
+        angle = dist / spherical_radius
+        up = sin(lat1) * cos(angle) + cos(lat1) * sin(angle) * cos(bearing)
+        out = cos(lat1) * cos(angle) - sin(lat1) * sin(angle) * cos(bearing)
+        east = sin(angle) * sin(bearing)
 
-        lon2 = lon1 + atan2(
-            sin(bearing) * sin(dist / spherical_radius) * cos(lat1),
-            cos(dist / spherical_radius) - sin(lat1) * sin(lat2),
-        )
+        lat2 = atan2(up, sqrt(out**2 + east**2))
+        lon2 = lon1 + atan2(east, out)
 
         return degrees(lat2), degrees(lon2)
 
@@ -404,9 +408,10 @@ class Spherical(SphericalConversions):
         delta_1_3 = cls.distance(origin, point, units="m") / spherical_radius
         theta_1_3 = radians(cls.bearing(origin, point))
         theta_1_2 = radians(cls.bearing(origin, destination))
-        d = asin(sin(delta_1_3) * sin(theta_1_3 - theta_1_2))
-
-        dist_from_origin = acos(cos(delta_1_3) / cos(d)) * spherical_radius
+        # The closest point is behind the origin when the point is
+        dist_from_origin = (
+            atan2(sin(delta_1_3) * cos(theta_1_3 - theta_1_2), cos(delta_1_3)) * spherical_radius
+        )
         cross_track_point = cls.point_from_bearing_dist(
             origin,
             degrees(theta_1_2),
@@ -438,10 +443,10 @@ class Spherical(SphericalConversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
-- 
2.43.0


From 55092a2de499a17582f67e3d17cee2e4f25ee4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:04 +0000
Subject: [PATCH 73/85] fix: WGS84 distance between two ways to write a place,
 and ECEF points on a track

---
 src/upstage_des/geography/wgs84.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 306e983..ab68718 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -110,6 +110,9 @@ class WGS84(WGS84Conversions):
                 (cos_u2 * sin_lambda) ** 2 + (cos_u1 * sin_u2 - sin_u1 * cos_u2 * cos_lambda) ** 2
             )
 
+            if sin_sigma == 0:
+                # The same place, with its longitude written differently
+                return 0.0, 0.0
             cos_sigma = sin_u1 * sin_u2 + cos_u1 * cos_u2 * cos_lambda
             sigma = atan2(sin_sigma, cos_sigma)
             sin_alpha = cos_u1 * cos_u2 * sin_lambda / sin_sigma
@@ -354,10 +357,10 @@ class WGS84(WGS84Conversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
-- 
2.43.0


From f92a6543c0c105f575ce3b8bad502a4a61f4a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:04 +0000
Subject: [PATCH 74/85] fix: ECEF points on the axis convert to latitude,
 longitude and altitude

---
 src/upstage_des/geography/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/conversions.py b/src/upstage_des/geography/conversions.py
index eb846cb..804cf67 100644
--- a/src/upstage_des/geography/conversions.py
+++ b/src/upstage_des/geography/conversions.py
@@ -114,9 +114,9 @@ class BaseConversions:
         s = (1 + c + sqrt(c * c + 2 * c)) ** (1 / 3)
         P = F / (3 * (s + 1 / s + 1) ** 2 * G * G)
         Q = sqrt(1 + 2 * e2 * e2 * P)
-        ro = -(e2 * P * r) / (1 + Q) + sqrt(
-            (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
-        )
+        # Zero at the poles, where rounding can bring it below
+        ro_2 = (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
+        ro = -(e2 * P * r) / (1 + Q) + sqrt(max(ro_2, 0.0))
         tmp = (r - e2 * ro) ** 2
         U = sqrt(tmp + Z2)
         V = sqrt(tmp + (1 - e2) * Z2)
-- 
2.43.0


From 8ae140debee8081da051b34edbcb7cc39466fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:06 +0000
Subject: [PATCH 75/85] fix: equality of locations in degrees and radians, and
 of Cartesian data in different units

---
 src/upstage_des/data_types.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 84adeb8..a726973 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -502,14 +502,13 @@ class GeodeticLocation(Location):
         """
         if not isinstance(other, GeodeticLocation):
             raise ValueError(f"Cannot compare a {other.__class__.__name__} to a GeodeticLocation")
-        if other.in_radians != self.in_radians:
-            if self.in_radians:
-                other = other.to_radians()
-            else:
-                other = other.to_degrees()
-        return all(
-            getattr(self, dimension) == getattr(other, dimension)
-            for dimension in ["lat", "lon", "alt"]
+        if other.in_radians == self.in_radians:
+            return self._to_tuple() == other._to_tuple()
+        # Converting there and back can change the last digit, so locations that
+        # are the same in either form are the same.
+        return (
+            self.to_radians()._to_tuple() == other.to_radians()._to_tuple()
+            or self.to_degrees()._to_tuple() == other.to_degrees()._to_tuple()
         )
 
     def __hash__(self) -> int:
@@ -564,6 +563,8 @@ class CartesianLocationData:
                 f"Cannot compare a {value.__class__.__name__} to a CartesianLocationData"
             )
         check = ["x", "y", "z"]
+        if self.use_altitude_unts != value.use_altitude_unts and self.z != 0:
+            return False
         return all(getattr(self, c) == getattr(value, c) for c in check)
 
 
@@ -622,11 +623,13 @@ class GeodeticLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a GeodeticLocationData"
             )
+        angles = [self.lat, self.lon]
         other = [value.lat, value.lon]
+        same = angles == other
         if value.in_radians != self.in_radians:
-            if self.in_radians:
-                other = list(map(radians, other))
-            else:
-                other = list(map(degrees, other))
-        angles = [self.lat, self.lon] == other
-        return angles and self.alt == value.alt
+            # Converting there and back can change the last digit, so places that
+            # are the same in either form are the same.
+            convert = degrees if self.in_radians else radians
+            unconvert = radians if self.in_radians else degrees
+            same = list(map(convert, angles)) == other or angles == list(map(unconvert, other))
+        return same and self.alt == value.alt
-- 
2.43.0


From f278fa77ef590aaa1ba5bfc5503845ebbe75efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:56 +0000
Subject: [PATCH 76/85] fix: a nucleus interrupts its networks in the order
 they were added

---
 src/upstage_des/nucleus.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index 2e43656..bd6f59e 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -50,8 +50,9 @@ class TaskNetworkNucleus:
             actor (Actor): The actor instance.
         """
         self._actor = actor
-        self._state_map: dict[str, set[str]] = defaultdict(set)
-        self._network_map: dict[str, set[str]] = defaultdict(set)
+        # Dictionaries (not sets), so networks are interrupted in the order they were added.
+        self._state_map: dict[str, dict[str, None]] = defaultdict(dict)
+        self._network_map: dict[str, dict[str, None]] = defaultdict(dict)
         self._attach()
 
     def add_network(
@@ -70,8 +71,8 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in watch_states:
-            self._state_map[state].add(network_name)
-            self._network_map[network_name].add(state)
+            self._state_map[state][network_name] = None
+            self._network_map[network_name][state] = None
             # if not hasattr(actor, state):
             #     raise SimulationError(f"State {state} does not exist on actor")
 
@@ -89,7 +90,7 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in self._network_map[network_name]:
-            self._state_map[state].remove(network_name)
+            del self._state_map[state][network_name]
         del self._network_map[network_name]
 
     def send_change(self, state_name: str, state_value: Any) -> None:
-- 
2.43.0


From cdd342bbef8d77a1f10d65f1536953ab5a8284f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:59 +0000
Subject: [PATCH 77/85] fix: deactivate all states in the order they were
 activated

---
 src/upstage_des/actor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index e980728..5d52851 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -131,9 +131,10 @@ class Actor(SettableEnv, NamedUpstageEntity):
         self._state_defs: dict[str, State] = getattr(self.__class__, "_state_defs", {})
 
         self._mimic_states: dict[str, tuple[Actor, str]] = {}  # has to be before other calls
-        self._mimic_states_by_task: dict[Task, set[str]] = defaultdict(set)
+        self._mimic_states_by_task: dict[Task, dict[str, None]] = defaultdict(dict)
 
-        self._states_by_task: dict[Task, set[str]] = defaultdict(set)
+        # Dictionaries (not sets), so states are deactivated in the order they were activated.
+        self._states_by_task: dict[Task, dict[str, None]] = defaultdict(dict)
         self._tasks_by_state: dict[str, set[Task]] = defaultdict(set)
 
         self._task_networks: dict[str, TaskNetwork] = {}
@@ -293,7 +294,7 @@ Args:
                     f"State '{state}' already locked by '{task}'. "
                     "Did you forget to unlock/deactivate it?"
                 )
-        self._states_by_task[task].add(state)
+        self._states_by_task[task][state] = None
         self._tasks_by_state[state].add(task)
 
     def _set_active_state_data(
@@ -392,10 +393,10 @@ Args:
                 raise SimulationError(
                     f"State `{state}` isn't locked by '{task}', but it's trying to be unlocked."
                 )
-            self._states_by_task[task].remove(state)
+            del self._states_by_task[task][state]
             self._tasks_by_state[state].remove(task)
         elif task in self._tasks_by_state[state]:
-            self._states_by_task[task].remove(state)
+            del self._states_by_task[task][state]
             self._tasks_by_state[state].remove(task)
         else:
             raise UpstageError(f"State '{state}' was not activated by '{task}', cannot deactivate")
@@ -506,7 +507,7 @@ Args:
             )
 
         self._mimic_states[self_state] = (mimic_actor, mimic_state)
-        self._mimic_states_by_task[task].add(self_state)
+        self._mimic_states_by_task[task][self_state] = None
 
         self_state_name = self._mimic_state_name(self_state)
         if state.is_recording:
@@ -535,7 +536,7 @@ Args:
         if state.is_recording:
             mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
         del self._mimic_states[self_state]
-        self._mimic_states_by_task[task].remove(self_state)
+        del self._mimic_states_by_task[task][self_state]
 
     def deactivate_all_mimic_states(self, *, task: Task) -> None:
         """Deactivate all mimicking states in the actor for a given task.
-- 
2.43.0


From b54ab8cfc2d4b7315fe737ecc3471753d998dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:02 +0000
Subject: [PATCH 78/85] fix: entity groups of a class are kept in a fixed order

---
 src/upstage_des/base.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index b7a6051..0542292 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -387,7 +387,7 @@ class NamedUpstageEntity(UpstageBase):
         >>> assert rc in rc.get_entity_group("car")
     """
 
-    _entity_groups: set[str]
+    _entity_groups: dict[str, None]
 
     def _add_to_group(self, group_name: str) -> None:
         """Add to a single group.
@@ -414,7 +414,7 @@ class NamedUpstageEntity(UpstageBase):
         """
         ...
 
-    def _add_entity(self, group_names: set[str]) -> None:
+    def _add_entity(self, group_names: Iterable[str]) -> None:
         """Add self to an entity group(s).
 
         Args:
@@ -443,7 +443,7 @@ class NamedUpstageEntity(UpstageBase):
         entity_groups: Iterable[str] | str | None = kwargs.get("entity_groups")
         add_to_entity_groups: bool = kwargs.get("add_to_entity_groups", True)
         skip_classname: bool = kwargs.get("skip_classname", False)
-        cls._entity_groups = set()
+        cls._entity_groups = {}
         if not add_to_entity_groups:
             return
 
@@ -452,16 +452,16 @@ class NamedUpstageEntity(UpstageBase):
         if isinstance(entity_groups, str):
             entity_groups = [entity_groups]
 
-        entity_groups = set(entity_groups)
+        # A dictionary (not a set), so that the groups are always in the same order.
+        groups: dict[str, None] = dict.fromkeys(entity_groups)
 
-        if cls.__name__ not in entity_groups and not skip_classname:
-            entity_groups.add(cls.__name__)
+        if not skip_classname:
+            groups[cls.__name__] = None
 
         for base in cls.mro():
-            for grp in getattr(base, "_entity_groups", set()):
-                entity_groups.add(grp)
+            groups.update(getattr(base, "_entity_groups", {}))
 
-        cls._entity_groups = entity_groups
+        cls._entity_groups = groups
 
 
 @contextmanager
-- 
2.43.0


From 8f44cdf6208061f3e4b7b8d732905cef65b523ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:50 +0000
Subject: [PATCH 79/85] fix: the formatted time was a second short at many
 times in seconds or minutes

---
 src/upstage_des/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 0542292..8e0b361 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -358,10 +358,11 @@ class UpstageBase:
 
         ts: str
         if standard in STANDARD_TIMES:
-            now_hrs = unit_convert(now, time_unit, "hr")
-            day = floor(now_hrs / 24)
-            rem_hours = now_hrs - (day * 24)
-            hms = strftime("%H:%M:%S", gmtime(rem_hours * 3600))
+            # Round off the error of the conversion: 31 minutes aren't 00:30:59.
+            now_sec = round(unit_convert(now, time_unit, "s"), 6)
+            day = floor(now_sec / 86400)
+            rem_sec = now_sec - (day * 86400)
+            hms = strftime("%H:%M:%S", gmtime(rem_sec))
             ts = f"[Day {day:4.0f} - {hms:s}]"
         else:
             day_unit_count = self.stage.get("daily_time_count", None)
-- 
2.43.0


From 8ebbc3f7042e97f4d4a94236548dfcf377677575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 80/85] fix: a restarted task leaves its old attempt at once

---
 src/upstage_des/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index a73d444..b1afca6 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -557,6 +557,8 @@ class Task(SettableEnv):
                         if isinstance(gen_obj, Routine):
                             gen.close()
                             yield from gen_obj._run_cancel()
+                    # Nothing else holds the old attempt, so its `finally` code runs now.
+                    del gen
                     if action == InterruptStates.RESTART:
                         generators = [
                             self.task(actor=actor),
-- 
2.43.0


From cdc5b0417c7dc730133f0cd568e06675d8a59b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:02 +0000
Subject: [PATCH 81/85] fix: knowledge given with a cloned actor is known in
 the rehearsal

---
 src/upstage_des/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index b1afca6..7be5e5c 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -388,6 +388,8 @@ class Task(SettableEnv):
         understudy = actor
         if not cloned_actor:
             understudy = self._clone_actor(actor, knowledge)
+        elif knowledge:
+            understudy.set_bulk_knowledge(knowledge, overwrite=True)
         if not isinstance(understudy.env, MockEnvironment):
             raise SimulationError("Bad actor cloning.")
         self.env = understudy.env
@@ -612,6 +614,8 @@ class DecisionTask(Task):
         understudy = actor
         if not cloned_actor:
             understudy = self._clone_actor(actor, knowledge)
+        elif knowledge:
+            understudy.set_bulk_knowledge(knowledge, overwrite=True)
         self.env = understudy.env
 
         self._rehearsing = True
-- 
2.43.0


From 51f2bdf0508f7eed8220a68d256f94f68a66ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:06 +0000
Subject: [PATCH 82/85] fix: rehearsing a task leaves its markers alone

---
 src/upstage_des/task.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 7be5e5c..d2bf608 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -396,6 +396,8 @@ class Task(SettableEnv):
         mocked_env: MockEnvironment = understudy.env
 
         self._rehearsing = True
+        marked = (self._marker, self._marked_time, self._interrupt_action)
+        self.clear_marker()
         rehearsed: list[BaseEvent] = []
         routines: list[Routine] = []
         try:
@@ -433,6 +435,7 @@ class Task(SettableEnv):
                 routine.env = _old_env
             self.env = _old_env
             self._rehearsing = False
+            self._marker, self._marked_time, self._interrupt_action = marked
         return understudy
 
     def _handle_interruption(
-- 
2.43.0


From 477488da756bf2db035a67251772acd7b1f2e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 83/85] fix: an interrupted Any or All clears its knowledge
 events

---
 src/upstage_des/task.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index d2bf608..9df03c9 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -20,7 +20,7 @@ if TYPE_CHECKING:
 
 from .base import ENV_CONTEXT_VAR, MockEnvironment, SettableEnv, SimulationError
 from .constants import PLANNING_FACTOR_OBJECT
-from .events import BaseEvent, Event, Wait
+from .events import BaseEvent, Event, MultiEvent, Wait
 from .routines import Routine
 
 __all__ = ("DecisionTask", "Task", "process", "TerminalTask", "InterruptStates")
@@ -464,9 +464,14 @@ class Task(SettableEnv):
             actor.deactivate_all_states(task=self)
             actor.deactivate_all_mimic_states(task=self)
             if isinstance(next_event, BaseEvent):
+                # The event may be part of an Any or All.
+                waited = [next_event]
+                for event in waited:
+                    if isinstance(event, MultiEvent):
+                        waited.extend(e for e in event.events if isinstance(e, BaseEvent))
                 names = list(actor._knowledge.keys())
                 for name in names:
-                    if actor._knowledge[name] is next_event:
+                    if any(actor._knowledge[name] is event for event in waited):
                         actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
                 next_event.cancel()
             elif isinstance(next_event, Process):
-- 
2.43.0


From aaeb6553f46245f01b548022cefbf0e682270466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:03 +0000
Subject: [PATCH 84/85] fix: a StopIteration of user code ends no rehearsal

---
 src/upstage_des/routines.py |  7 ++++---
 src/upstage_des/task.py     | 25 ++++++++++++-------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1f28f70..843ee75 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -96,14 +96,15 @@ class Routine(SettableEnv):
         rehearsed: list[BaseEvent] = []
         try:
             while True:
-                event = gen.send(value)
+                try:
+                    event = gen.send(value)
+                except StopIteration:
+                    return time, None
                 rehearsed.append(event)
                 t, value = event.rehearse()
                 time += t
                 if isinstance(env, MockEnvironment):
                     env.now = start + time
-        except StopIteration:
-            return time, None
         finally:
             if isinstance(env, MockEnvironment):
                 env.now = start
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 9df03c9..6b3b89f 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -410,24 +410,23 @@ class Task(SettableEnv):
                     else:
                         next_event = generator.send(returned_item)
                         returned_item = None
-                    if not issubclass(next_event.__class__, BaseEvent | Routine):
-                        msg = f"Task {self} event {next_event}"
-                        if isinstance(next_event, Process):
-                            raise SimulationError(msg + " cannot be a process during rehearsal.")
-                        raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
-                    if isinstance(next_event, BaseEvent):
-                        rehearsed.append(next_event)
-                    else:
-                        next_event.env = mocked_env
-                        routines.append(next_event)
-                    time_advance, returned_item = next_event.rehearse()
-                    mocked_env.now += time_advance
-
                 except StopIteration:
                     # warn(f"Stopping rehearsal of task '{self.__class__.__name__}' "
                     #      f"for actor '{actor}'! [Rehearsal duration: "
                     #      f"{self.env.now - _old_env.now:.3g}]")
                     break
+                if not issubclass(next_event.__class__, BaseEvent | Routine):
+                    msg = f"Task {self} event {next_event}"
+                    if isinstance(next_event, Process):
+                        raise SimulationError(msg + " cannot be a process during rehearsal.")
+                    raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
+                if isinstance(next_event, BaseEvent):
+                    rehearsed.append(next_event)
+                else:
+                    next_event.env = mocked_env
+                    routines.append(next_event)
+                time_advance, returned_item = next_event.rehearse()
+                mocked_env.now += time_advance
         finally:
             for event in rehearsed:
                 event._leave_rehearsal()
-- 
2.43.0


From e46520ebea1cfe9b74dc868b9550ff07d006b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:46 +0000
Subject: [PATCH 85/85] fix: a mimicked mimic passes changes on without
 recording itself

---
 src/upstage_des/actor.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 5d52851..22709a8 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -510,15 +510,14 @@ Args:
         self._mimic_states_by_task[task][self_state] = None
 
         self_state_name = self._mimic_state_name(self_state)
-        if state.is_recording:
 
-            def recorder(instance: Actor, value: Any) -> None:
-                if instance is mimic_actor:
-                    state._do_record(self, value)
-                    # This state may itself be mimicked by others.
-                    state._do_callback(self, value)
+        def recorder(instance: Actor, value: Any) -> None:
+            if instance is mimic_actor:
+                state._do_record(self, value)
+                # This state may itself be mimicked by others.
+                state._do_callback(self, value)
 
-            mimic_actor._add_callback_to_state(self_state_name, recorder, mimic_state)
+        mimic_actor._add_callback_to_state(self_state_name, recorder, mimic_state)
 
     def deactivate_mimic_state(self, *, self_state: str, task: Task) -> None:
         """Deactivate a mimicking state.
@@ -531,10 +530,8 @@ Args:
             raise SimulationError(f"State '{self_state}' is not mimicking for '{task}'.")
         getattr(self, self_state)
         mimic_actor, mimic_state = self._mimic_states[self_state]
-        state = self._state_defs[self_state]
         self_state_name = self._mimic_state_name(self_state)
-        if state.is_recording:
-            mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
+        mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
         del self._mimic_states[self_state]
         del self._mimic_states_by_task[task][self_state]
 
-- 
2.43.0

