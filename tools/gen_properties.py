#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
S = "src/upstage_des/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

prop("C01", "Interrupting a task to END leaves no residue",
 "When a running task is interrupted and its handler chooses END (the default), the task executes no further statement, and at that instant its pending event is withdrawn from every store, container or resource queue (also inside Any/All and routines), its active and mimic states are stopped at their correct value for that time, and knowledge holding the pending event is removed. States, mimics, knowledge, requests and processes belonging to other tasks or actors are untouched, and everything later behaves as if the ended task had never asked for anything more. Ending never raises an error, whatever the pending event and however the interrupt ties in time with that event's completion.",
 ["schedules", "programs"], "every position of an interrupt in the event order of the run (before, at and after each instant, ties included) x every kind and nesting of pending event x other tasks competing for the same objects",
 "Tests interrupt a handful of tasks at one hand-picked time each; the guarantee ranges over all interrupt points and all event shapes, including same-instant ties.",
 ["task.py", "events.py", "actor.py", "routines.py"],
 [("Task interruption handling", "task.py"), ("event cancel", "events.py"), ("deactivate all states / mimics of a task", "actor.py")],
 ["store.items / queues", "actor states", "actor knowledge", "task process liveness"])

prop("C02", "RESTART equals END followed by a fresh start",
 "When an interrupted task's handler chooses RESTART, everything END would clean up is cleaned up and the task's code is then executed again from its first statement at the same simulation time, exactly once per interrupt, within the same still-running process. From then on the run is indistinguishable from one in which the task was ended and newly started at that instant: no stale event value, routine or leftover request influences the new execution.",
 ["schedules", "programs"], "all interrupt positions (up to two interrupts per run) x task bodies using waits, stores, multi-events, routines and active states",
 "Tests restart one task at one time; the equivalence must hold at every event boundary and for repeated restarts.",
 ["task.py", "events.py", "actor.py", "routines.py"],
 [("restart branch of the task runner", "task.py")], ["event trace of the task body", "store contents", "state values"])

prop("C03", "Ignored interrupts are transparent",
 "If a task's interrupt handler returns IGNORE, the interrupt changes nothing: the task keeps waiting for the very same event, which completes at the same time and hands over the same value, and the whole simulation (states, stores, knowledge, event times, task order) proceeds exactly as if the interrupt had not been delivered. This holds for any number of ignored interrupts at any times, also several at one instant and one tied with the completion of the awaited event.",
 ["schedules", "programs"], "all sets of up to two (thorough: three) interrupt positions x task bodies",
 "Tests ignore one interrupt at one time for one event type.",
 ["task.py", "events.py"], [("IGNORE branch of the task runner", "task.py")], ["complete observable trace versus the undisturbed run"])

prop("C04", "Interrupt handlers see the true cause and marker and decide the outcome",
 "Each interrupt delivered to a running task calls its handler exactly once, with the cause that was sent, at the time it was sent, and with the marker name and marker time most recently set by that task instance (none after clearing). Without a custom handler the action attached to the most recent marker is applied, END when there is none; a handler returning nothing or an unknown action is reported as a simulation error instead of being silently treated as any action, and a terminal task refuses to be interrupted.",
 ["schedules", "programs"], "all interrupt positions x all marker scripts (set/clear with each action) up to length 3 x causes",
 "Tests check marker inspection in one scenario.",
 ["task.py", "actor.py"], [("markers and on_interrupt", "task.py"), ("interrupt_network", "actor.py")], ["arguments and times seen by the handler"])

prop("C05", "Requests conserve items, amounts and resource slots",
 "For any interleaving of tasks that put, get, filter-get or hold through Put, Get, FilterGet and ResourceHold, including cancelled and interrupted ones and losers of an Any, every item is at each instant in exactly one place (its store, or handed to exactly one completed request) and container levels equal initial + completed puts - completed gets, so nothing is lost, duplicated or delivered to a withdrawn request. A withdrawn request never takes anything afterwards and never blocks those queued behind it; a ResourceHold occupies exactly one slot from its first yield's completion until its second.",
 ["schedules", "histories"], "all operation scripts for 2-3 tasks over one store/container/resource with all interrupt positions and creation orders within the bound",
 "Tests check single put/get/cancel sequences; loss shows only when a cancellation coincides with a grant or another waiter.",
 ["events.py", "task.py", "routines.py"], [("BaseRequestEvent.cancel, MultiEvent.cancel, ResourceHold", "events.py")],
 ["store.items", "container.level", "resource.count", "values received"])

prop("C06", "Any and All complete exactly when they should, with truthful sub-events",
 "Any completes at the earliest, and All at the latest, completion time of its sub-events for arbitrarily nested combinations of waits, events, requests and processes; on resumption each sub-event reports complete if and only if it has really happened by then, and unfinished sub-events stay usable: re-yielding a Wait in a later Any keeps its original end time and a pending Get keeps its place. Completed sub-events keep their values and payloads.",
 ["schedules", "programs"], "all expression trees of Any/All over up to 4 leaves with leaf completion times from a small set including ties, re-yielded up to three rounds",
 "Tests use a few fixed Any/All combinations with distinct times.",
 ["events.py"], [("MultiEvent / Any / All / Wait", "events.py")], ["resume times", "is_complete", "get_value / get_payload"])

prop("C07", "Events succeed once per cycle, carry their payload, and reset as declared",
 "An Event releases every task waiting on it at the time it is succeeded, with the payload given to that call, and reports complete from then until it is reset; succeeding a completed event is an error, yielding a completed event starts a new cycle when auto-reset is on and is an error when it is off. An explicit reset makes it pending again without affecting other events.",
 ["histories"], "all operation sequences over succeed/yield/reset/advance up to a depth, for both auto-reset settings and up to two waiting tasks",
 "Tests check a few sequences; ordering of succeed versus yield in the same instant matters.",
 ["events.py", "actor.py"], [("Event", "events.py"), ("knowledge events", "actor.py")], ["resume times and payloads of waiting tasks"])

prop("C08", "Task code and routines receive exactly the values their yields produced",
 "A task's statements execute in program order; each yield resumes when, and only when, its event completes, and evaluates to the value that event produced. Yielding a routine runs its body inline in simulated time and evaluates to what the routine returned (nothing, if it returned nothing); a routine that yields anything but an UPSTAGE event is refused, and a routine's own cancel hook runs exactly once when an interrupt ends or restarts the task inside it and never otherwise. A windowed get returns every item obtained in its window in order and leaves no request behind.",
 ["programs", "schedules"], "all bodies up to length 3 over an alphabet of waits, stores, events, routines and nested routines, x all interrupt positions; windowed gets over all arrival schedules in a grid",
 "Tests exercise a few bodies; value hand-over through routines and the window edge are not covered for all sequences.",
 ["task.py", "routines.py"], [("generator stack in the task runner", "task.py"), ("Routine and WindowedGet", "routines.py")], ["values received at each yield", "times"])

prop("C09", "Linear states equal their closed form however they are observed",
 "At any time the value of a linear-changing state is the last value set plus the sum of rate times active duration since then, with each activation using the rate it was given; reading, recording, logging or cloning the state any number of times in between never changes present or future values. Directly assigning the state while active restarts the line from the assigned value at the assignment time, and after deactivation the value stays constant.",
 ["histories"], "all sequences up to a depth over activate(rate)/deactivate/assign/read/advance(dt), including zero-duration steps",
 "Tests read at one or two times; reads at arbitrary instants interact with the incremental update.",
 ["states.py", "actor.py"], [("LinearChangingState active update", "states.py"), ("active state data", "actor.py")], ["attribute value", "recorded history"],
 [("active state data", "rate and last update time", "actor.py")])

prop("C10", "Moving states follow their waypoints at the commanded speed",
 "An actor whose location state is active is, at every time t, exactly at the point reached by travelling speed*(t - start) along the straight (Cartesian) or great-circle (geodetic) legs through the waypoints, and reading a state kept active beyond the end of its path is reported as an error, never answered with a made-up position. This does not depend on how often or when the state is read, recorded or queried, the remaining waypoints reported are exactly those not yet passed, and deactivation freezes the position, so that resuming with the remaining waypoints continues the same path.",
 ["histories", "inputs"], "all routes over a small set of waypoints (repeats, zero-length legs) x speeds x all read/deactivate/reactivate schedules on a time grid that includes exact waypoint arrivals",
 "Tests read positions at few times on one path; arrivals exactly on a waypoint and reads between legs are schedule dependent.",
 ["states.py", "data_types.py", "geography/spherical.py"], [("location changing states", "states.py")], ["attribute value", "get_remaining_waypoints"])

prop("C11", "An active state is owned by the task that activated it",
 "A state that one task holds active cannot be activated by another task or a second time by the same task, and only the owner can deactivate it; every refused attempt raises an error and leaves the state's value, activity and ownership unchanged. A state that supports sharing accepts one activation per task, deactivating everything for a task affects precisely that task's states, and once deactivated a state can be activated again by anyone.",
 ["histories"], "all sequences up to a depth over activate/deactivate/deactivate-all by two tasks on two states of each kind",
 "Tests check one double activation.",
 ["actor.py", "states.py", "state_sharing.py"], [("state locking", "actor.py")], ["errors raised", "state values over time", "get_active_state_data"])

prop("C12", "Shared linear states integrate the sum of all active rates",
 "The value of a shared linear-changing state is its start value plus, for each task, rate times the time that task's contribution was active, for any overlap and order of activations and deactivations by any number of tasks. One task's deactivation or interruption removes exactly its own contribution from that instant on and leaves the others running.",
 ["histories", "schedules"], "all activation/deactivation/read/advance/assign sequences up to a depth for three tasks, including same-instant changes, and interrupts of sharing tasks",
 "Tests run one overlap pattern of two tasks.",
 ["state_sharing.py", "actor.py"], [("SharedLinearChangingState", "state_sharing.py")], ["attribute value"])

prop("C13", "A mimicking state always equals the mimicked one and then lets go",
 "From activation to deactivation of a mimic, reading the mimicking state gives the value the mimicked state has at that time, its recorded history gains everything the mimicked state records meanwhile and only values that state had at those times, and the mimicked actor is not changed. At deactivation (explicit, for the whole task, or through interruption) the state keeps the value it had at that instant and no longer follows; only the task that activated a mimic can stop it, and other mimics, of the same or other tasks and actors, are unaffected.",
 ["histories"], "all sequences up to a depth over mimic/unmimic/unmimic-all for two tasks, two mimicking states and changes of the source (assigned, linear, moving)",
 "Tests activate one mimic and read it twice.",
 ["actor.py", "states.py"], [("mimic activation and callbacks", "actor.py")], ["attribute value", "recorded history"])

prop("C14", "Recorded histories are faithful and complete",
 "For a recording state the history is exactly the time-ordered list of (time, value at that time) for its initialisation, each assignment and each explicit or automatic recording, together with activation and deactivation marks, values being snapshots that later mutation of the live object does not alter. Consecutive identical values at one time are recorded once unless duplicates are requested, non-recording states have no history, each recording function gets the actor's own time and value and adds its own series, and recording never alters the simulation.",
 ["histories"], "all sequences up to a depth over assign/record/advance/activate/deactivate/mutate for every combination of recording options",
 "Tests look at one history; the cross product of options and orders is not sampled.",
 ["states.py", "actor.py"], [("State recording", "states.py"), ("record_state", "actor.py")], ["actor state histories", "create_table"])

prop("C15", "State declarations are enforced for every actor",
 "Creating an actor yields exactly the declared states: given values, else the default, else a fresh value from the default factory that is never shared between actors; missing or unknown states, values of a wrong declared type and values for no-init states are refused. Frozen states refuse any second assignment and typed states any value of another type, both leaving the old value in place, and subclasses inherit all states of their bases.",
 ["configurations", "histories"], "all combinations of declaration options x initial-value choices x assignment sequences up to length 3, on one- and two-level class hierarchies",
 "Tests try individual options in isolation.",
 ["states.py", "actor.py"], [("State descriptor", "states.py"), ("actor initialisation", "actor.py")], ["attribute values", "errors"])

prop("C16", "Dictionary, dataclass and multi-store states behave like the object they hold",
 "Reading, writing, setdefault, membership, iteration, length and comparison of a dictionary or dataclass state give the same results as the plain dict or dataclass; each key or field keeps its own faithful recorded series under <state>.<key>, a value of a wrong type is refused leaving the old content, and the whole state is set once, at creation. A multi-store state gives every actor its own stores, one per configured name with the configured class and options, all usable like ordinary stores.",
 ["histories", "configurations"], "all operation sequences up to a depth over two keys/fields, times and values, for all recording options",
 "Tests exercise a few updates.",
 ["states.py", "state_proxies.py"], [("key/value states", "states.py"), ("proxies", "state_proxies.py")], ["proxy contents", "recorded series"])

prop("C17", "Data tables reproduce the recorded simulation exactly",
 "The state table contains exactly one row per recorded entry of every tracked actor's recording states and of every monitored resource - no row missing, invented or duplicated - with that entry's entity, time, value and activation status, in recording order for each entity and state; with static states requested, each non-recording state adds one row with its present value. The location table does the same for every location state with its coordinates, recorded data objects are returned as given with their times, and producing a table never changes the simulation. (Series of recording functions are read from the actor, not from the table.)",
 ["histories"], "all short simulations over an alphabet of recording actions on two actors, one monitored resource of each kind and data records, x table options",
 "Tests compare one fixed table.",
 ["data_utils/data_utils.py", "data_utils/data_recorder.py", "states.py"], [("table creation", "data_utils/data_utils.py")], ["create_table, create_location_table output"])

prop("C18", "Rehearsal never touches the real simulation",
 "Rehearsing a task or a network, at any moment of a run and whether it succeeds or raises, leaves the real actor (states, histories, knowledge, queues, running tasks, active and mimicked states, log), all other actors and the real environment (clock, pending events, stores and resources) exactly as they were, so the rest of the run is identical to a run without the rehearsal. What the rehearsal changes is visible only on the returned clone. (Covers what a task does through its actor - states, knowledge, queues, its own stores - and through yielded UPSTAGE events and routines; objects inside mutable values, the stage and other actors are shared by documentation.)",
 ["schedules", "programs"], "a rehearsal inserted at every event boundary of every program in a family of task bodies and networks, compared with the undisturbed run",
 "Tests rehearse once before the run starts and check only a few attributes.",
 ["task.py", "task_network.py", "actor.py", "base.py", "events.py"], [("clone and mock environment", "actor.py"), ("rehearse", "task.py")], ["complete observable trace and final state"])

prop("C19", "A rehearsal predicts the real run",
 "For tasks whose events take exactly their declared time, the clone returned by rehearsing a task or a sequence of tasks has the same clock, state values, knowledge and remaining queue the real actor has after actually running that sequence, including linear and moving states, conditional code on completed sub-events, decision tasks and default successors. The task sequence rehearsed obeys the same network rules as the real run, and impossible sequences are reported as errors.",
 ["programs", "inputs"], "all task bodies up to length 3 over the event alphabet and all task lists up to length 3 over a small network",
 "Tests compare one scenario.",
 ["task.py", "task_network.py", "events.py", "actor.py"], [("rehearse / rehearse_network", "task_network.py")], ["clone versus real actor after the run"])

prop("C20", "Task networks run queued tasks first, then defaults, one at a time",
 "A network loop runs exactly one task of the network at a time; after each it takes the head of the actor's queue if any, otherwise the current task's default, and the reported running task, remaining queue and next task agree with what is really running at every instant. A successor the network does not allow, or having no successor, is reported as an error instead of being run, parallel networks of one actor do not influence each other's sequence, and an interrupted task that ends is followed by the same successor rule.",
 ["programs", "schedules"], "all networks over three tasks (defaults, allowed sets) x queues up to length 3 x queue changes made inside tasks x interrupt positions",
 "Tests run a few networks with fixed queues.",
 ["task_network.py", "actor.py"], [("network loop and next-task choice", "task_network.py"), ("task queues", "actor.py")], ["sequence of executed tasks with times", "running-task queries"])

prop("C21", "Network factories, decision and terminal tasks flow as documented",
 "Networks made by the factory shortcuts run their tasks in the given order, looping forever or stopping in a terminal task that never completes; several networks made from one factory are independent. A decision task makes its decision exactly once per visit with no simulated time passing, the queue it sets is what runs next, and with holding disabled the next task begins before any other pending event of that instant (starts of processes aside).",
 ["programs", "schedules"], "all task lists up to length 3 for each factory, decision tasks in every position with every decision outcome, and competing same-instant events",
 "Tests run single instances of each.",
 ["task_network.py", "task.py"], [("TaskNetworkFactory", "task_network.py"), ("DecisionTask, TerminalTask", "task.py")], ["executed task sequence and times"])

prop("C22", "A nucleus notifies exactly the networks linked to a changed state",
 "Whenever a state attached to an actor's nucleus is assigned, each attached network linked to that state that has a running task is interrupted exactly once, at that time, with a cause naming the state and its new value, and no other network is. Adding or removing networks changes only that network's links, conflicting registrations are refused, and a change arriving when a linked network has no task to interrupt disturbs nothing.",
 ["schedules", "configurations"], "all link maps of two networks over two states x all assignment times relative to task boundaries, including same-instant ones, and removal sequences",
 "Tests send a change while both networks wait in long tasks.",
 ["nucleus.py", "states.py", "actor.py"], [("nucleus send_change", "nucleus.py"), ("state set hook", "states.py")], ["interrupt causes received per network"])

prop("C23", "Knowledge behaves as a strict per-actor map and event board",
 "Knowledge is a map private to an actor: reading returns the last value set or nothing, setting existing knowledge without overwrite, clearing or requiring missing knowledge are errors that change nothing, and bulk and task-level forms equal the sequence of single ones. An event created in knowledge is there until succeeded, which removes it and resumes its waiter at that time with the payload; succeeding anything else is an error.",
 ["histories"], "all operation sequences up to a depth over two names, two values and two actors through both actor- and task-level calls",
 "Tests try individual operations.",
 ["actor.py", "task.py"], [("knowledge methods", "actor.py")], ["returned values, errors, resume times"])

prop("C24", "Contexts are isolated and the stage is write-once",
 "Everything created inside one environment context - clock, stage, actors, entity groups, monitored resources, recordings - is visible only through that context, for contexts nested, sequential or in different threads, and leaving a context restores precisely what was visible before, also after errors. Within a context a stage variable reads back exactly as added, adding it again is refused and keeps the first value, and outside any context access is an error.",
 ["histories", "schedules"], "all sequences up to a depth over enter/exit/exit-with-error/add/read/create/advance on nested contexts, and all interleavings of two threads' scripts",
 "Tests use one context at a time.",
 ["base.py"], [("EnvironmentContext", "base.py")], ["get_stage, get_actors, get_all_entity_groups, env.now"])

prop("C25", "Entity groups list exactly the entities created in the context",
 "Each named entity appears exactly once in each group it declares or inherits, unless it opted out, and each actor exactly once among all actors; the tracking queries return precisely the entities, actors, monitored resources and recordings created in the current context in creation order, nothing else. Copies made for rehearsal are not listed as real entities.",
 ["configurations", "histories"], "all class hierarchies of depth two with group/skip/inherit options x all creation orders of up to four entities, with and without rehearsals",
 "Tests create a fixed set of entities.",
 ["base.py", "actor.py", "resources/monitoring.py"], [("NamedUpstageEntity groups", "base.py")], ["get_actors / get_entity_group / get_all_entity_groups / get_monitored"])

prop("C26", "Point-to-point comms deliver each message once or drop it by the rules",
 "A message put through a communications manager arrives in the destination's mode-specific store exactly once, unchanged, after the transmit delay, with the time it goes out and, when the manager made the message, its mode recorded - unless a link or endpoint is blocked at send time, in which case it is retried at the configured rate and delivered when unblocked, or dropped at the first retry that finds the retry time used up. Interrupting or cancelling the sender does not duplicate messages, and blocking one link delays no message on other links.",
 ["schedules", "fault_sequences"], "all block/unblock schedules of links and nodes on a time grid x message scripts between two or three actors x retry settings",
 "Tests use one blocking pattern.",
 ["communications/comms.py", "communications/processes.py", "states.py"], [("comms manager transmit loop", "communications/comms.py")], ["destination stores over time", "put completion"])

prop("C27", "Routed messages follow a shortest live path and give up correctly",
 "A routing communications manager forwards each message along a shortest path of its declared network from source to destination, taking the per-hop times, and when a hop is blocked at forwarding time it retries as configured and then re-plans around the failed node from where the message is. A message is delivered exactly once when an unblocked path can be found this way and dropped, in finite time, when none remains.",
 ["configurations", "fault_sequences"], "all connected graphs on up to 4 nodes x all source/destination pairs x all sets of blocked nodes/links, with block schedules in the thorough tier",
 "Tests use one line graph and one failure.",
 ["communications/routing.py", "communications/comms.py"], [("routing select_hop and transmit", "communications/routing.py")], ["delivery times and hop sequence"])

prop("C28", "Sensors are told exactly when a mover enters and leaves their range",
 "With the analytical motion manager, for every sensor and every detectable mover on any route, the sensor is notified of an entry at the exact time the mover's path crosses into its radius and of the exit at the exact time it crosses out, alternating and never otherwise; movers starting inside are notified at the start. Stopping, re-routing or interrupting the mover cancels the notifications not yet due and leaves a mover that is inside in view; becoming undetectable reports it as leaving at that moment, and it stays untold until it starts a new motion while detectable. Sensors may do any of this from within their notifications. (What a sensor is told of a second event at the very instant of such a reaction is unspecified.)",
 ["inputs", "schedules"], "all routes of up to three legs over a grid of waypoints x sensor positions and radii x stop times, against closed-form circle/segment crossing times",
 "Tests use a few paths and mostly single-leg crossings.",
 ["motion/motion.py", "motion/cartesian_model.py", "motion/geodetic_model.py"], [("SensorMotionManager scheduling", "motion/motion.py")], ["entity entered/exited callbacks with times"])

prop("C29", "Stepped motion detects every mover within one time step",
 "With the stepped motion manager, at every time step each registered sensor knows exactly the detectable movers that are inside its range at that step: an entry is announced at the first step inside and an exit at the first step outside, alternating, for all movers and sensors however they are added, started, stopped or made undetectable during the run (movers are watched while they move, other objects from the moment they are added; a mover that stopped stays in view until it moves again or hides). The manager ends by itself when nothing is left to happen and resumes with the next motion.",
 ["inputs", "schedules"], "all start/stop/add schedules on the step grid for two movers and two sensors over a grid of straight paths",
 "Tests run one crossing scenario.",
 ["motion/stepped_motion.py"], [("SteppedMotionManager run loop", "motion/stepped_motion.py")], ["entered/exited callbacks with times"])

prop("C30", "Continuous containers keep the exact level and report full and empty on time",
 "The level of a continuous container at any time is its initial level plus the integral of the sum of the active put and get rates, always within [0, capacity]; when the net rate drives it to empty or full, this is noticed exactly at that time, the affected rates stop (as an error if asked, silently otherwise) with the level at the bound, and the rest continue. Reading the level or adding and removing rates at any times in any order, including the same instant, does not alter past or future levels other than through the rates.",
 ["histories", "schedules"], "all sequences up to a depth of starting/cancelling gets and puts with rates and durations from a small set, x error flags, x read times",
 "Tests run a few fixed schedules.",
 ["resources/container.py"], [("ContinuousContainer rate bookkeeping", "resources/container.py")], ["level over time", "interrupts raised"])

prop("C31", "Self-monitoring resources behave like the originals and record every change",
 "A self-monitoring store, filter store, sorted store, container, continuous container or reserve container behaves in every way like its non-monitoring counterpart, and its recorded quantities are exactly the time series of its content size or level (or of the supplied item function) after each change, starting with the initial value, in time order.",
 ["histories"], "all sequences up to a depth of puts, gets, filter gets, cancels and time steps run side by side on both classes",
 "Tests check one sequence per class.",
 ["resources/monitoring.py"], [("monitoring mixins", "resources/monitoring.py")], ["recorded quantities", "items / level"])

prop("C32", "Reserve containers never over-promise and never lose stock",
 "In a reserve container, available amount plus all live reservations equals the real level, which is always within [0, capacity]; a reservation succeeds exactly when enough is available, can be taken once by its owner and only up to the reserved amount, and an unused one returns to availability exactly when it expires or is cancelled. Requests made by one requester never consume, extend or cancel another requester's reservation, nor a later one of its own.",
 ["histories", "schedules"], "all sequences up to a depth of reserve(amount, expiry)/cancel/take/put/advance for two requesters",
 "Tests check single reservations.",
 ["resources/reserve.py"], [("ReserveContainer", "resources/reserve.py")], ["available, level, queued, errors"])

prop("C33", "Sorted store gets return the best matching item, exactly once",
 "A get on a sorted filter store returns, among the items present that pass its filter, one that the sort key puts first (last when reversed), with ties broken by insertion order; it removes that very object and no other, and it waits only while no item passes. Waiting gets are served as soon as a matching item arrives and a waiting get that matches nothing does not block others.",
 ["histories"], "all sequences up to a depth of puts from a set of items (falsy, equal-but-distinct, equal keys) and gets over filter/sorter/reverse combinations",
 "Tests use a few lists of distinct truthy items.",
 ["resources/sorted.py"], [("SortedFilterStore get", "resources/sorted.py")], ["returned item identity, remaining items"])

prop("C34", "Unit conversions are exact, invertible and complete",
 "Converting between any two units of the same kind (distance, time) succeeds, returns the value unchanged for the same unit, round-trips, and composes transitively, under every supported spelling; unknown or incompatible units are refused. Waits given in a unit last exactly that long in the stage's time unit, and displayed clock times use it.",
 ["inputs", "configurations"], "every ordered pair and triple of supported unit spellings x a set of values; waits for all stage unit x wait unit pairs",
 "Tests convert a few pairs.",
 ["units/convert.py", "events.py", "base.py"], [("unit_convert", "units/convert.py"), ("Wait time conversion", "events.py")], ["converted values, wait durations"])

prop("C35", "Earth models agree with themselves: direct and inverse problems match",
 "For each earth model, the point at a bearing and distance from a start is at exactly that distance (and first bearing) from it, distance is symmetric and zero exactly for equal places however they are written, evenly spaced points between two locations divide the track evenly from one end to the other, circles lie at their radius, cross-track distances and points are those of the great circle, and coordinate-frame conversions round-trip, poles included. (Nearly antipodal points on the ellipsoid are documented not to converge.) Results in any supported distance unit are the same physical quantity.",
 ["inputs"], "exhaustive grid of latitudes, longitudes (both hemispheres, dateline, equator), altitudes, bearings, distances, models and units",
 "Tests check a handful of city pairs.",
 ["geography/spherical.py", "geography/wgs84.py", "geography/conversions.py"], [("direct/inverse geodesy", "geography/wgs84.py")], ["returned distances, bearings, points"])

prop("C36", "Locations obey vector and distance laws",
 "Cartesian and geodetic location objects compare equal exactly when they denote the same place (Cartesian: within the documented 1e-5; geodetic: the same coordinates), whichever is asked, and distances between them are symmetric, zero only for equal places, satisfy the triangle inequality, agree with straight-line geometry (respectively the stage's earth model) in the declared units including altitude, and arithmetic on Cartesian locations is consistent with it. Degree/radian forms of a place are interchangeable and operations never modify their operands.",
 ["inputs"], "exhaustive grid of coordinates, altitudes and unit/flag combinations, all pairs and triples",
 "Tests check few pairs.",
 ["data_types.py"], [("location classes", "data_types.py")], ["operator results"])

prop("C37", "Path/sensor intersections are exact boundary crossings",
 "The intersection routines return exactly the points where a path segment crosses the boundary of a spherical region, in order along the path and labelled entering, leaving or passing inside truthfully; a path that stays outside or inside has none, and the crossing points lie on the boundary and on the path. Analytical and subdivision methods agree within the stated tolerance (for geodetic level paths; the subdivision method may miss a visit shorter than its first subdivision).",
 ["inputs"], "exhaustive grid of segments, centres and radii including starts inside, on the boundary and tangents, for Cartesian and geodetic models",
 "Tests check few lines.",
 ["geography/intersections.py", "motion/cartesian_model.py", "motion/geodetic_model.py", "motion/great_circle_calcs.py"], [("intersection solvers", "geography/intersections.py")], ["intersection lists"])

prop("C38", "A seeded simulation is reproducible",
 "Running the same model with the same seed and inputs gives the identical sequence of events, states, recordings and tables (generated message ids excepted), in the same process or another, whatever the hash seed of the interpreter and whatever other simulations ran before. Random draws come only from the stage's own random generator.",
 ["schedules", "configurations"], "every scenario of a family run under several interpreter hash seeds, after every other scenario, and twice in a row",
 "Tests run each model once in one process.",
 ["base.py", "actor.py", "nucleus.py", "communications/routing.py", "events.py"], [("stage random generator", "base.py"), ("iteration order of registries", "actor.py")], ["complete trace digest"])

prop("C39", "The shown clock and the debug logs are exact, ordered and complete",
 "The formatted time (pretty_now) names the exact day, hour, minute and second of the simulation clock for every clock value and every spelling of the time unit, and the plain value (with days when a day length is set) for any other unit, and is the same from every object; in a rehearsal it follows the rehearsed clock. An actor's debug log holds everything logged on that actor and nothing of others, in order, each entry with the clock time and, unless the actor or else the stage says otherwise, the formatted time in front of the message; an actor that does not log holds none. A clone starts with the log of its original and continues on its own; rehearsals and clones never write into the original's log. In a task network the log notes each task as it starts, before anything that task logs.",
 ["inputs", "histories"], "a grid of clock values around every carry x all unit spellings and day lengths; all sequences of logging, cloning, rehearsing and running for every setting of the log",
 "Tests look at one or two log entries at time zero; carries and conversion errors need thousands of clock values.",
 ["base.py", "actor.py", "task_network.py"], [("pretty_now", "base.py"), ("Actor.log", "actor.py")], ["pretty_now", "Actor.log", "Actor.get_log"])

prop("C40", "Errors surface at once, unchanged, and harm no one else",
 "An error raised by user code that the running simulation calls (a task at any point, a decision, an interrupt handler, a routine or its cancel hook, a process, waited on directly or in Any or All or by nobody, a recording function, a factory, a filter, sorter or item function of a store, a comms, container or sensor callback) leaves the run at the time it is raised, exactly once and as that very error (simpy re-raises a copy with the original as its cause; Python turns StopIteration in a generator into RuntimeError). It is never swallowed, replaced, delayed or raised twice, also when the task that waits is interrupted at that very instant; so do UPSTAGE's own refusals. A rehearsal raises it to its caller. When the run is carried on, every other task, network, actor and recording goes on exactly as without the error.",
 ["faults", "schedules"], "every place where user code is called x kinds of errors x moments, alone, in pairs, together with interrupts, and in rehearsals",
 "Tests provoke single errors; an error swallowed in one place at one instant shows up as silently wrong results.",
 ["task.py", "routines.py", "events.py", "actor.py", "task_network.py", "states.py", "resources/container.py", "communications/comms.py", "motion/motion.py"], [("task engine", "task.py"), ("MultiEvent.cancel", "events.py")], ["exceptions leaving env.step()", "recorded tables", "logs"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
