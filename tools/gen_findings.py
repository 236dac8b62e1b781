#!/usr/bin/env python3
"""Write known_findings.json (open findings and repaired defects)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, start of the fix commit's subject, what failed)
FIXED = [
    ("C13", "fix: deactivate_all_mimic_states", "ending one task stopped the mimics of other tasks of the actor"),
    ("C08", "fix: values from before or inside a routine", "a routine after an event with a value raised TypeError; a routine returning nothing handed its last event's value to the task"),
    ("C05", "fix: cancelling a request granted", "a request granted at the instant its task is ended lost the item, amount or slot"),
    ("C01", "fix: ending a task does not fail on pending events", "ending a task raised when its Any/All or Event was done at that instant"),
    ("C01", "fix: ending a task that awaits a process", "ending a task raised when the awaited process finished at that instant"),
    ("C08", "fix: a second interrupt does not break", "a second interrupt while a routine cleaned up escaped from the task and stopped the simulation"),
    ("C02", "fix: an Event whose waiting task was stopped", "an Event whose waiter was ended could not be waited on or succeeded afterwards"),
    ("C05", "fix: a withdrawn request no longer holds up", "requests queued behind a withdrawn one were not served although they could be"),
    ("C08", "fix: yields inside a routine evaluate", "'item = yield Get(store)' inside a routine gave None"),
    ("C07", "fix: resetting a pending Event keeps", "reset() of a pending Event orphaned the tasks waiting on it"),
    ("C07", "fix: a refused second succeed", "a refused second succeed() at one instant replaced the payload"),
    ("C08", "fix: an interrupted WindowedGet", "an item obtained at the instant a WindowedGet was interrupted was lost"),
    ("C09", "fix: assigning an active linear state", "assigning an active linear state added the change since its last read on top of the assigned value"),
    ("C10", "fix: reading a Cartesian mover on arrival", "reading a Cartesian mover at its arrival raised when the clock was large"),
    ("C10", "fix: a zero-length leg", "a zero-length leg raised ZeroDivisionError when the mover was read"),
    ("C10", "fix: moving between locations given in radians", "geodetic movers took radian coordinates for degrees"),
    ("C11", "fix: activating a state that cannot be active", "activating a plain state failed but left it locked, so ending the task failed too"),
    ("C13", "fix: a task cannot stop the mimic", "deactivating another task's mimic stopped it and raised, and ending its owner then failed"),
    ("C13", "fix: a recording mimic of a mimicking", "a mimic of a mimicking state did not record what that state recorded"),
    ("C35", "fix: longitude term of the WGS84", "point_from_bearing_dist used sin(alpha) in place of sin(sigma)"),
    ('C14', 'fix: a moving state records its value', 'activating a moving state left no record of its value then; create_table labelled an earlier row as activating'),
    ('C14', 'fix: a shared state records when', 'a shared linear state never recorded its deactivation, so tables showed it active for ever'),
    ('C14', 'fix: recording functions are not given', 'recording functions of an active state were called with activation marks in place of values'),
    ('C14', 'fix: every actor gets its own object', 'all actors of a class, also of later simulations, shared one object of a recording class'),
    ('C15', 'fix: a frozen state that was set to None', 'a frozen state holding None could be assigned again'),
    ('C38', 'fix: default states are set in the order', 'defaults of an actor were created in hash order, so runs with the same seed differed between interpreters'),
    ('C15', 'fix: CommunicationStore does not change', "creating an actor removed the modes from the caller's dictionary, so a second actor made from it had none"),
    ('C16', 'fix: key/value states honour', 'record_duplicates had no effect on dictionary and dataclass states'),
    ('C16', 'fix: record_state records key/value', 'record_state did nothing on dictionary and dataclass states'),
    ('C16', 'fix: a dictionary state keeps its old', 'a value of a refused type stayed in the dictionary state'),
    ('C16', 'fix: key/value states of equal content', 'a key/value state did not compare equal to itself'),
    ('C16', 'fix: dataclass states accept inherited', 'assigning an inherited, parametrised or string-annotated dataclass field raised, unknown attributes were dropped silently'),
    ('C17', 'fix: create_table skips states', 'create_table raised KeyError when a state without default was not set yet'),
    ('C17', 'fix: create_table accepts dictionary keys', 'create_table raised AssertionError for a key added through raw_object()'),
    ('C17', 'fix: the location table includes plain', 'recorded plain states holding locations were missing from the location table and not skipped by skip_locations'),
    ('C17', 'fix: location table columns', 'create_location_table raised without actors and labelled geodetic rows X/Y/Z when the last actor had no location'),
    ('C17', 'fix: clones are not listed', 'rehearsal clones (and their monitored stores) appeared in get_actors(), entity groups and data tables'),
    ('C18', 'fix: cloning an actor does not', 'cloning updated/recorded active states, broadcast to the nucleus, shared queues, and failed for no_init, unset, given-object, mode-specific and multi-store states and for properties or class methods'),
    ('C19', 'fix: rehearsing nested events', 'sub-events of nested Any/All were never complete in a rehearsal'),
    ('C18', 'fix: detectability changes in a', 'a rehearsed detectability change was reported to the motion manager'),
    ('C18', 'fix: a failed network rehearsal', 'a network rehearsal that raised left the rehearsed task as the running task'),
    ('C18', 'fix: rehearsals restore the task', 'a rehearsal that raised left the task on the mock environment; rehearsed Events report rehearsal status'),
    ('C18', 'fix: succeeding a knowledge event in', 'succeed_knowledge_event in a rehearsal resumed real waiters'),
    ('C24', 'fix: resource states do not keep the actors', 'every actor with a resource state was kept alive by a class-level registry after its context ended'),
    ('C19', 'fix: asking a resource hold for its time', "computing a multi-event's rehearsal time advanced a ResourceHold to its release stage even when it did not complete"),
    ('C19', 'fix: routines see the rehearsed', 'code of a rehearsed routine saw the clock of the start of the routine, so states it used were not updated by its waits'),
    ('C20', 'fix: interrupting a decision', 'an interrupt (for example from a nucleus) during the zero-time hold of a decision task ended the network with an unhandled Interrupt'),
    ('C20', 'fix: ended tasks are not', "get_running_task(s) reported a task that had ended, and with a DO_NOT_HOLD decision its process under the decision's name"),
    ('C22', 'fix: a nucleus does not interrupt tasks', 'a state change at the instant a linked task ended raised RuntimeError in the code changing the state'),
    ('C21', 'fix: ordered networks can contain', 'from_ordered_loop/terminating with a repeated task class lost the tasks between the repetitions'),
    ('C24', 'fix: get_stage_variable reads variables named like dictionary methods', 'add_stage_variable("items", v); get_stage_variable("items") gave the method of the dictionary instead of v'),
    ('C24', 'fix: a context object can be entered again while it is open', 'entering an EnvironmentContext object again while it is open (nested, or in another thread) lost its tokens: leaving raised RuntimeError and left the inner context visible'),
    ('C25', 'fix: entities that compare equal are all tracked', 'named entities or monitored resources that compare equal (__eq__): the second was refused as already recorded, or left out'),
    ('C25', 'fix: an actor whose creation is refused is not tracked', 'X(name="bad", unknown_state=1) (or a missing or ill-typed state) raises, but the half-made actor stayed in get_actors() and its groups'),
    ('C27', "fix: routing gives up on a destination that can't be reached", 'network A->D only, link A->D blocked: after the retries the message was tried on the same link again for ever instead of being dropped (select_hop returned a direct neighbour although it was to be ignored)'),
    ('C38', 'fix: the route among equally short ones does not depend on hashes', 'with two shortest routes A-B-D and A-C-D the one taken depended on PYTHONHASHSEED (iteration over a set of names)'),
    ('C34', 'fix: all units of a kind convert into each other, consistently', 'unit_convert(1, "s", "day"), (1, "day", "day"), (1, "hr", "week") raised ValueError; mi to nmi did not agree with mi to km to nmi'),
    ('C34', 'fix: time units in capitals are displayed like others', 'time_unit="HR" (accepted by unit_convert like "hr" and "Hours") was displayed by pretty_now as an unknown unit'),
    ('C34', 'fix: waits in a unit are converted when the stage has no time unit', 'Wait(30, "min") lasted 30 hours when the stage variable time_unit was not set (or None), which is documented to mean hours'),
    ('C33', 'fix: SortedFilterStore hands out falsy', 'falsy items were never handed out, and an equal item was removed in place of the chosen one'),
    ('C32', 'fix: an expiring reservation does not', "an expired reservation's timer cancelled the same requester's later reservation"),
    ('C32', 'fix: a reservation can be cancelled', 'cancel_request raised for a requester equal to but not identical with the one that reserved'),
    ('C32', 'fix: ReserveContainer counts reserved', 'put accepted more than the capacity while stock was reserved; capacity_increase left the level above capacity'),
    ('C30', 'fix: ContinuousContainer meets full', 'with rates or levels that floats cannot hold, full/empty was missed or an internal error raised; a rate change after one failed on a finished check; after an error the gets kept drawing below zero'),
    ('C30', 'fix: ContinuousContainer.time_until_level', 'time_until_level used the level of the last rate change'),
    ('C30', 'fix: a callback of a continuous', 'a full/empty callback that cancels its own put or get raised'),
    ('C37', 'fix: crossings of a Cartesian leg', 'zero-length legs and starts on the boundary raised; z in altitude units ignored; missed legs took -1 time units'),
    ('C37', 'fix: great circle crossings at due north', 'analytical crossing raised or was wrong for sensors at waypoints, due-north legs, altitudes; missed legs took -1 time units'),
    ('C35', 'fix: evenly spaced points on short', 'geo_linspace wrong on close points, failing at lon +-90'),
    ('C28', 'fix: sensors may stop, hide or turn back', 'a sensor that stopped or hid a mover from its entry/exit callback broke the notification of the other sensors (errors, an exit told twice or never), showing a hidden mover while its motion went on failed when the motion ended, a mover that turned back on the boundary was told as entering twice or stayed in view after leaving, and a zero-length stay raised'),
    ('C29', 'fix: stepped motion restarts', "showing an idle mover raised KeyError, a manager that ended when idle never ran again, a mover's stop removed an object registered with add_detectable, and sensors that hid or stopped movers in their callbacks broke the step"),
    ('C35', 'fix: spherical earth at the poles', 'Spherical: the distance of (nearly) antipodal points could raise a domain error, arrivals near a pole were up to 0.1 m off, point_along of equal points divided by zero, cross_track_point ignored points behind the origin, ecef_linspace always raised'),
    ('C35', 'fix: WGS84 distance between two ways', 'WGS84: the distance of a place to itself written with longitude 180/-180 divided by zero; ecef_linspace always raised'),
    ('C35', 'fix: ECEF points on the axis', 'WGS84 ecef2lla raised a domain error for points on the polar axis'),
    ('C36', 'fix: equality of locations in degrees', 'a location and its other (degree/radian) form compared equal in one order and different in the other; Cartesian data objects with altitudes in different units compared equal'),
    ('C38', 'fix: a nucleus interrupts its networks in the order they were added', 'networks watching one state were interrupted in an order that depended on PYTHONHASHSEED'),
    ('C38', 'fix: deactivate all states in the order they were activated', 'deactivate_all_states and deactivate_all_mimic_states recorded and called back in an order that depended on PYTHONHASHSEED'),
    ('C38', 'fix: entity groups of a class are kept in a fixed order', 'get_all_entity_groups listed the groups in an order that depended on PYTHONHASHSEED'),
    ('C39', 'fix: the formatted time was a second short', "pretty_now (and the debug log) showed 31 minutes as 00:30:59: the conversion's rounding error was truncated"),
    ('C02', 'fix: a restarted task leaves its old attempt at once', 'RESTART while the task was in try/finally (or with): the finally code of the interrupted attempt ran only when the next attempt ended'),
    ('C19', 'fix: knowledge given with a cloned actor', 'rehearse(actor=clone, cloned_actor=True, knowledge={...}) ignored the knowledge'),
    ('C19', 'fix: rehearsing a task leaves its markers alone', 'a task that set a marker in a rehearsal had that marker (and its interrupt action) when it was run for real'),
    ('C01', 'fix: an interrupted Any or All clears its knowledge events', 'a task interrupted while waiting for Any(knowledge event, Wait(..)) left the cancelled event in the knowledge; RESTART then failed on creating it again'),
    ('C40', 'fix: a StopIteration of user code', 'StopIteration raised by a custom rehearse() in a rehearsed task or routine was taken for the end of the rehearsal: the rest of the task was silently skipped'),
    ('C13', 'fix: a mimicked mimic passes', 'a recording state that mimics a non-recording state which itself mimics another did not record the changes of the last'),
]
KNOWN = [
    {"property": "C29", "signature": "particular|new_rate",
     "what": "SteppedMotionManager.add_detectable(new_rate=...) ignores new_rate: the object is looked at with the others only. run_particular does it, but its "
             "loop has no end, so calling it from add_detectable would keep every env.run() without a limit from ending (now they end by themselves)"},
    {"property": "C24", "signature": "names|dictionary name",
     "what": "a stage variable named like a method of dict (items, keys, values, get, update) is hidden by that method when read as an attribute of the stage "
             "(stage.items); it reads right through get_stage_variable or stage['items']. Left: the library itself calls stage.get"},
    {"property": "C07", "signature": "shared_event|cancel_releases",
     "what": "ending one of several tasks that wait on the same Event releases the others as if it had been succeeded "
             "(Event.cancel succeeds the event; test_multi_event relies on it)"},
    {"property": "C19", "signature": "network|list_queue",
     "what": "a decision task inside the list given to rehearse_network sees an empty queue (really the rest of the list is queued), so a decision that "
             "queues tasks only when nothing is queued adds tasks that are then rehearsed after the list "
             "(test_rehearsing_example pins the resulting clock)"},
    {"property": "C20", "signature": "rules|not_allowed",
     "what": "a network loop runs a queued or default successor that the current task's links do not allow; the documentation promises an error "
             "(existing tests such as test_cashier_complex run such sequences)"},
]

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
fixed = []
for prop, subj, what in FIXED:
    hit = [x.split()[0] for x in log if x.split(" ", 1)[1].startswith(subj)]
    assert len(hit) == 1, (subj, hit)
    fixed.append(f"fixed: property={prop} {hit[0]} {what}")
have = {x.split(" ", 1)[1] for x in log if " fix:" in x}
assert len(have) == len(FIXED), "unlisted fix commits: %s" % [h for h in have if not any(h.startswith(s) for _, s, _ in FIXED)]
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"known": KNOWN, "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(KNOWN), "known;", len(fixed), "fixed")
