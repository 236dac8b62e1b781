"""C19: rehearsing predicts what really happens.

Programs - all short sequences of actions with declared durations, run as one
task or as several - are rehearsed at a chosen moment of a run, and then really
run, with helpers that make every waiting event take exactly its declared time.
The clone must agree with the real actor afterwards.  Second part: all short
task lists over small networks with decisions, defaults and queues; the starts
of all tasks, with clock and states, must be the same.
"""
from dataclasses import dataclass

import simpy as SIM
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "all sequences of <=2 of 33 actions as 1 task, 2 tasks (one clone, or each from a clone of the last) or with a decision between, 3 start situations; sequences of 3 in 1 task (1 "
                   "situation); all task lists of <=3 over 3 networks x end task x numbers x what is queued",
          "thorough": "sequences of 3 in 3 situations, of 4 of a core of 10; task lists of <=5"}
ORACLE = "the same program really run"


@dataclass
class Info:
    a: int
    b: float


L = UP.CartesianLocation


class X(UP.Actor):
    n = UP.State(default=0, recording=True)
    lin = UP.LinearChangingState(default=1.0, recording=True)
    sh = UP.SharedLinearChangingState(default=3.0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    seen = UP.DetectabilityState(default=True, recording=True)
    d = UP.DictionaryState(recording=True)
    dc = UP.DataclassState(valid_types=Info, recording=True)
    bag = UP.ResourceState(default=UP.SelfMonitoringFilterStore)
    tank = UP.ResourceState(default=UP.SelfMonitoringContainer, default_kwargs={"capacity": 20, "init": 2})
    own = UP.ResourceState()
    multi = UP.MultiStoreState(default=SIM.Store)
    mail = UP.CommunicationStore(modes="m")
    echo = UP.State(default=0.0)
    trace = UP.State(default_factory=list)


class W:
    """What is around the actor; `real` says whether events need somebody to fulfil them."""

    def __init__(self, env):
        self.env, self.real = env, False
        self.store, self.tank, self.res = SIM.FilterStore(env), SIM.Container(env, init=5), SIM.Resource(env)

    def later(self, delay, fn):
        if self.real:
            def proc():
                yield self.env.timeout(delay)
                fn()
            self.env.process(proc())

    def event(self, t):
        e = UP.Event(rehearsal_time_to_complete=t)
        self.later(t, e.succeed)
        return e

    def get(self, t, cls=UP.Get, *args):
        g = cls(self.store, *args, rehearsal_time_to_complete=t)
        self.later(t, lambda: self.store.put(1))
        return g


def wait(t, a, w):
    yield UP.Wait(1.0)


def wait_unit(t, a, w):
    yield UP.Wait(0.0)
    yield UP.Wait(15, timeout_unit="min")


def lin(t, a, w):
    a.deactivate_all_states(task=t)
    a.activate_linear_state(state="lin", rate=1.0, task=t)
    yield UP.Wait(0.5)
    a.deactivate_state(state="lin", task=t)


def lin_on(t, a, w):
    a.deactivate_all_states(task=t)
    a.activate_state(state="lin", rate=-2.0, task=t)
    yield UP.Wait(0.25)
    a.lin += 0.5


def loc_part(t, a, w):
    a.deactivate_all_states(task=t)
    p = a.loc
    a.activate_location_state(state="loc", speed=2.0, waypoints=[L(p.x + 3, p.y, 0), L(p.x + 3, p.y + 4, 0)], task=t)
    yield UP.Wait(2.0)


def loc_done(t, a, w):
    a.deactivate_all_states(task=t)
    p = a.loc
    to = L(p.x, p.y + 1.5, 0)
    a.activate_location_state(state="loc", speed=2.0, waypoints=[to], task=t)
    yield UP.Wait(a.loc.straight_line_distance(to) / 2.0)
    a.deactivate_state(state="loc", task=t)


def shared(t, a, w):
    a.deactivate_all_states(task=t)
    a.activate_state(state="sh", rate=2.0, task=t)
    yield UP.Wait(0.75)
    a.deactivate_all_states(task=t)


def any_wait(t, a, w):
    e, x = w.event(0.75), UP.Wait(0.5)
    yield UP.Any(x, e)
    a.n += 1 if x.is_complete() else 0
    a.n += 10 if e.is_complete() else 0
    yield UP.Wait(0.25)


def any_event(t, a, w):
    e, x = w.event(0.25), UP.Wait(0.5)
    yield UP.Any(x, e)
    a.n += 1 if x.is_complete() else 0
    a.n += 10 if e.is_complete() else 0
    if e.is_complete():
        yield UP.Wait(0.125)


def all_of(t, a, w):
    e, x = w.event(0.25), UP.Wait(0.5)
    yield UP.All(e, x)
    a.n += 3 if x.is_complete() and e.is_complete() else 0


def nested(t, a, w):
    e, x, y = w.event(0.25), UP.Wait(0.5), UP.Wait(0.75)
    both = UP.All(x, e)
    yield UP.Any(y, both)
    a.n += 100 * both.is_complete() + 1000 * y.is_complete() + 7 * e.is_complete()


def nested2(t, a, w):
    e, x, y = w.event(1.0), UP.Wait(0.5), UP.Wait(0.75)
    one = UP.Any(x, e)
    yield UP.All(y, one)
    a.n += 100 * one.is_complete() + 1000 * y.is_complete() + 7 * e.is_complete() + 5 * x.is_complete()


def get(t, a, w):
    g = w.get(0.5)
    v = yield g
    a.n += (v is not None) + (g.get_value() is not None) * 2


def get_lost(t, a, w):
    g = UP.Get(w.store, rehearsal_time_to_complete=2.0)
    yield UP.Any(UP.Wait(0.5), g)
    if g.is_complete():
        a.n += 1
    else:
        g.cancel()


def get_won(t, a, w):
    g = w.get(0.5, UP.FilterGet, lambda x: True)
    x = UP.Wait(1.0)
    yield UP.Any(x, g)
    if not g.is_complete():
        g.cancel()
    a.n += 4 if g.is_complete() and not x.is_complete() else 0


def put(t, a, w):
    yield UP.Put(w.store, "it")
    if w.real:
        w.store.items.remove("it")
    yield UP.Get(w.tank, 1)
    yield UP.Put(w.tank, 1)


def hold(t, a, w):
    h = UP.ResourceHold(w.res)
    yield UP.Any(h, UP.Wait(1.0))
    a.n += h.is_complete()
    yield UP.Wait(0.25)
    yield h
    a.n += h.is_complete()


def hold_late(t, a, w):
    res = SIM.Resource(w.env)
    if w.real:
        other = res.request()
        w.later(0.5, lambda: res.release(other))
    h = UP.ResourceHold(res, rehearsal_time_to_complete=0.5)
    yield h
    yield UP.Wait(0.25)
    yield h
    a.n += h.is_complete()


def know(t, a, w):
    t.set_actor_knowledge(a, "k", t.env.now, overwrite=True)
    a.set_knowledge("gone", 1, overwrite=True)
    yield UP.Wait(0.25)
    a.n += int(t.get_and_clear_actor_knowledge(a, "gone"))


def know_if(t, a, w):
    if t.get_actor_knowledge(a, "k"):
        yield UP.Wait(0.25)
        t.clear_actor_knowledge(a, "k")
    else:
        t.set_actor_bulk_knowledge(a, {"k": 1.0, "m": [a.n]}, overwrite=True)


def kevent(t, a, w):
    e = a.create_knowledge_event(name="ev", rehearsal_time_to_complete=0.5)
    w.later(0.5, lambda: a.succeed_knowledge_event(name="ev"))
    yield e
    a.n += e.is_complete()


def kevent_any(t, a, w):
    e = a.create_knowledge_event(name="ev", rehearsal_time_to_complete=0.5)
    x = UP.Wait(0.25)
    yield UP.Any(e, x)
    a.n += 2 * x.is_complete() + e.is_complete()
    a.clear_knowledge("ev")


def fields(t, a, w):
    a.d["at"] = t.env.now
    a.dc.b += t.env.now
    yield UP.Wait(0.5)
    a.d["n"] = a.n
    a.dc.a += 1


def seen(t, a, w):
    a.seen = not a.seen
    yield UP.Wait(0.25)


class Part(UP.Routine):
    def __init__(self, task, actor, world):
        super().__init__()
        self.a, self.w, self.t = actor, world, task

    def run(self):
        self.a.deactivate_all_states(task=self.t)
        self.a.activate_linear_state(state="lin", rate=1.0, task=self.t)
        yield UP.Wait(0.25)
        self.a.deactivate_state(state="lin", task=self.t)
        e, x = self.w.event(0.25), UP.Wait(0.5)
        yield UP.Any(e, x)
        self.a.n += 2 if e.is_complete() and not x.is_complete() else 0
        self.a.set_knowledge("r", self.env.now, overwrite=True)
        yield UP.Wait(0.5)

    def cancel(self):
        return
        yield


def routine(t, a, w):
    yield Part(t, a, w)
    a.n += 1


class Answer(UP.Routine):
    """Gives a value that is not true."""

    def __init__(self, value):
        super().__init__()
        self.value = value

    def run(self):
        yield UP.Wait(0.25)
        return self.value

    def cancel(self):
        return
        yield

    def rehearse(self):
        return super().rehearse()[0], self.value


def falsy(t, a, w):
    for value in (0, [], None, "", 3):
        got = yield Answer(value)
        a.d["got"] = repr(got)
        a.n += 1 if got is None else 10


class Outer(UP.Task):
    """Rehearses something itself."""

    def task(self, *, actor):
        yield UP.Wait(0.5)
        actor.n += 1
        yield UP.Wait(actor.n * 0.25)
        actor.d["outer"] = self.env.now


def inner(t, a, w):
    """Asks a rehearsal from where it is, also within a rehearsal."""
    yield UP.Wait(0.25)
    c = Outer().rehearse(actor=a)
    a.d["inner"] = (c.env.now, c.n, c.d["outer"], round(c.lin, 9), round(c.sh, 9))
    yield UP.Wait(0.25)
    c = Look().rehearse(actor=a)
    a.d["look"] = (c.env.now, c.n)


class Look(UP.DecisionTask):
    def rehearse_decision(self, *, actor):
        actor.n += round(self.env.now * 100)


def queue(t, a, w):
    t.clear_actor_task_queue(a)
    t.set_actor_task_queue(a, ["A", "B"])
    a.trace.append(t.get_actor_next_task(a))
    yield UP.Wait(0.25)
    if t.get_actor_next_task(a) == "A":
        a.n += 1


def branch(t, a, w):
    for _ in range(2):
        if a.lin > 1.2:
            yield UP.Wait(0.25)
            a.n += 1
        else:
            a.lin = 2.0


def look(t, a, w):
    """Decides by what the actor's resources hold."""
    yield UP.Wait(0.25 * (len(a.bag.items) + a.tank.level))
    a.n += int(len(a.multi["s"].items) + 2 * a.multi["t"].level + 4 * a.own.level + 8 * len(a.mail.items))
    a.d["cap"] = (a.tank.capacity, len(a.bag.items), a.tank.level, a.own.level, a.multi["t"].level, type(a.bag).__name__, type(a.tank).__name__)


def stop(t, a, w):
    a.deactivate_all_states(task=t)
    yield UP.Wait(0.0)


def marker(t, a, w):
    t.set_marker("m")
    yield UP.Wait(0.5)
    a.set_knowledge("mark", (t.get_marker(), t.get_marker_time(), t.env.now), overwrite=True)
    t.clear_marker()


def marked(t, a, w):
    a.set_knowledge("mark", (t.get_marker(), t.get_marker_time()), overwrite=True)
    t.set_marker("left", t.INTERRUPT.IGNORE)
    yield UP.Wait(0.125)


def nothing(t, a, w):
    return
    yield


def early(t, a, w):
    yield UP.Wait(0.25)
    if a.n > 2:
        t.quit = True


ACTIONS = [lin_on, wait, wait_unit, lin, loc_part, loc_done, shared, any_wait, any_event, all_of, nested, nested2, get, get_lost, get_won, put, hold, hold_late, know,
           know_if, kevent, kevent_any, fields, seen, routine, queue, branch, stop, marker, marked, nothing, early, falsy, inner, look]
CORE = [lin_on, loc_part, any_event, nested2, get_won, kevent, know_if, routine, branch, stop]


class Prog(UP.Task):
    def task(self, *, actor):
        self.quit = False
        for act in self.acts:
            yield from act(self, actor, self.stage.w)
            if self.quit:
                return


class Decide(UP.DecisionTask):
    def both(self, actor):
        actor.n += 1
        actor.set_knowledge("decided", actor.env.now, overwrite=True)
        if actor.lin > 1.2:
            actor.d["dec"] = actor.lin

    def make_decision(self, *, actor):
        self.both(actor)

    def rehearse_decision(self, *, actor):
        self.both(actor)


def result(a):
    # "Rehearsals on this method won't clear the event" (create_knowledge_event).
    kn = {k: v for k in ("k", "m", "gone", "r", "mark", "decided") if not isinstance(v := a.get_knowledge(k), UP.Event)}
    q = list(a.get_task_queue("net"))
    return [round(a.env.now, 9), a.n, a.seen, sorted(a.d.items()), a.dc.a, a.dc.b, round(a.lin, 9), round(a.sh, 9), (round(a.loc.x, 9), round(a.loc.y, 9)),
            sorted(kn.items()), q, list(a.trace)]


def setup(env, ctx=None):
    UP.add_stage_variable("time_unit", "hr")
    UP.add_stage_variable("altitude_units", "km")
    UP.add_stage_variable("distance_units", "km")
    w = W(env)
    UP.add_stage_variable("w", w)
    x = X(name="x", loc=L(0, 0, 0), d={"u": 0}, dc=Info(0, 0.0), own=SIM.Container(env, init=3),
          multi={"s": {}, "t": {"kind": UP.SelfMonitoringContainer, "init": 1}})
    x.bag.items.append("b")
    x.mail.items.append("m")
    x.multi["s"].items.append("s")
    return w, x


def mk(acts):
    return type("P", (Prog,), {"acts": acts})


def single(ctx, depth, actions, shapes, situations):
    n = ctx.choose(range(depth + 1), "length") if depth < 3 else depth
    acts = [ctx.choose(actions, "action") for _ in range(n)]
    shape = ctx.choose(shapes, "shape") if n == 2 else "one"
    if shape == "one":
        tasks = [mk(acts)]
    elif shape == "again":       # (a clone carries no active states)
        tasks = [mk(acts[:1] + [stop]), mk(acts[1:])]
    elif shape == "two":
        tasks = [mk(acts[:1]), mk(acts[1:])]
    else:
        tasks = [mk(acts[:1]), Decide, mk(acts[1:])]
    situation = ctx.choose(situations, "start")
    ctx.note(f"{[a.__name__ for a in acts]} {shape} {situation}")
    with UP.EnvironmentContext(initial_time=3.0) as env:
        w, x = setup(env)
        x.add_task_network(UP.TaskNetwork("net", {"A": Prog}, {"A": UP.TaskLinks(default="A", allowed=["A"])}))
        given = None
        if situation == "moving":
            t0 = Prog()
            x.activate_linear_state(state="lin", rate=0.5, task=t0)
            x.activate_state(state="sh", rate=-1.0, task=t0)
            x.activate_location_state(state="loc", speed=1.0, waypoints=[L(1, 0, 0), L(9, 9, 0)], task=t0)
            env.run(until=5.25)
            x.deactivate_all_states(task=t0)
            x.set_knowledge("k", 5)
            x.bag.put("c")
            x.tank.put(2.5)
            x.own.get(1.5)
            x.multi["s"].get()
            x.multi["t"].put(3)
            env.run(until=5.5)
        elif situation == "given":
            given = {"k": 7}     # replaces what is known
            x.set_bulk_knowledge({"k": 3, "m": [1]})
        insts = [t() for t in tasks]
        for t in insts:
            t._network_name = "net"
        clone = x
        predicted = None
        try:
            for i, t in enumerate(insts):
                clone = t.rehearse(actor=clone, cloned_actor=i > 0 and shape != "again", **({"knowledge": [given, {"m": [i]}][i > 0]} if given else {}))
            predicted = result(clone)
        except UP.SimulationError:
            pass        # for example a state still used by the first of two tasks
        ctx.eq(env.now, 5.5 if situation == "moving" else 3.0, "clock after rehearsing")
        w.real = True
        if given:
            x.set_bulk_knowledge(given, overwrite=True)

        done = []

        def run():
            for i, cls in enumerate(tasks):
                if given:
                    t = insts[i]    # what was rehearsed can be run
                    if i:
                        x.set_bulk_knowledge({"m": [i]}, overwrite=True)
                else:
                    t = cls()
                    t._network_name = "net"
                yield t.run(actor=x)
            done.append(result(x))
        env.process(run())
        try:
            env.run(until=100)
        except UP.SimulationError:
            ctx.eq(predicted, None, "what really fails cannot be rehearsed")
            ctx.outcome("fails")
            return
        ctx.check(predicted is not None, "what really works can be rehearsed")
        ctx.step(n)
        ctx.eq(len(done), 1, "the real run ends")
        names = ("clock", "n", "detectable", "dictionary", "dataclass a", "dataclass b", "lin", "shared", "location", "knowledge", "queue", "list")
        for what, p, r in zip(names, predicted, done[0]):
            ctx.check(p == r, lambda: f"{what}: rehearsed {p} but really {r}", what)
        ctx.state(tuple(map(str, predicted)))
        ctx.outcome((shape, situation))


# ---- networks ---------------------------------------------------------------
def log_start(task, actor):
    w = task.stage.w
    if len(w.starts) > 40:
        raise UP.SimulationError("endless")
    w.starts.append((type(task).__name__, round(actor.env.now, 9), actor.n, round(actor.lin, 9)))


class A(UP.Task):
    def task(self, *, actor):
        log_start(self, actor)
        yield UP.Wait(1.0)
        actor.n += 1


class B(UP.Task):
    def task(self, *, actor):
        log_start(self, actor)
        actor.activate_linear_state(state="lin", rate=1.0, task=self)
        e = self.stage.w.event(0.5)
        yield UP.Any(e, UP.Wait(2.0))
        actor.deactivate_all_states(task=self)
        if actor.lin > 2:
            yield UP.Wait(0.25)


class D(UP.DecisionTask):
    """Queues something if nothing is queued and its number says so."""

    def both(self, actor):
        log_start(self, actor)
        actor.n += 1
        if not self.get_actor_task_queue(actor):
            plan = {0: ["A"], 1: [], 2: ["B", "A"]}[actor.n % 3]
            if plan:
                self.set_actor_task_queue(actor, plan)

    def make_decision(self, *, actor):
        self.both(actor)

    def rehearse_decision(self, *, actor):
        self.both(actor)


class S(D):
    DO_NOT_HOLD = True


class T(UP.Task):
    def task(self, *, actor):
        log_start(self, actor)
        yield UP.Wait(50.0)


TL = UP.TaskLinks
CL = {"A": A, "B": B, "D": D, "S": S, "T": T}
LINKS = [
    {"A": TL("B", ["A", "B", "T"]), "B": TL("D", ["D", "T"]), "D": TL("A", ["A", "B"]), "S": TL(None, ["A", "B"]), "T": TL("T", ["T"])},
    {"A": TL("D", ["A", "D", "S"]), "B": TL("T", ["A", "D", "T"]), "D": TL("B", ["A", "B", "T", "S"]), "S": TL("B", ["A", "B"]), "T": TL("T", [])},
    {"A": TL("A", ["A", "B", "D", "S"]), "B": TL(None, ["A", "T"]), "D": TL("S", ["S", "A"]), "S": TL("T", ["A", "B", "T"]), "T": TL("T", ["T"])},
]


def network(ctx, most):
    links = ctx.choose(range(len(LINKS)), "network")
    n = ctx.choose(range(1, most + 1), "length")
    names = ["A", "B", "D", "S"]
    lst = [ctx.choose(names, "task") for _ in range(n)]
    end = ctx.choose((None, "T", "D", "B"), "end task")
    n0 = ctx.choose((0, 1, 2), "n")
    rest = ctx.choose(([], ["B"], ["A", "T"]), "queued after the list") if end else []
    ctx.note(f"network {links} {lst} end {end} n0 {n0} rest {rest}")
    table = LINKS[links]
    feasible = True
    for p, q in zip(lst, lst[1:]):
        if end is not None and p == end:
            break
        feasible = feasible and q in table[p].allowed
    with UP.EnvironmentContext(initial_time=2.0) as env:
        w, x = setup(env)
        x.n = n0
        x.add_task_network(UP.TaskNetwork("net", CL, table))
        # really
        w.real, w.starts = True, []
        real_failed = None
        starts, ends, run = w.starts, None, []
        x.set_task_queue("net", lst + rest)
        x.start_network_loop("net", None)
        want = len(lst) if end is None else 10
        prev = None
        finals = None
        try:
            while True:
                nxt = x.get_running_task("net")
                if len(starts) and (starts[-1][0] == end or (len(starts) > want)):
                    break
                if len(starts) > want or env.peek() > 60:
                    break
                env.step()
        except UP.SimulationError as e:
            real_failed = str(e)
        reached = [s[0] for s in starts]
        really = list(starts)
    if end is not None:
        if end in reached:
            really = really[:reached.index(end)]
            outcome = "end"
        else:
            outcome = "fails" if real_failed else "endless"
    else:
        outcome = "list"
        really = really[:len(lst)]
    # in the rehearsal
    with UP.EnvironmentContext(initial_time=2.0) as env:
        w, x = setup(env)
        w.starts = []
        x.n = n0
        x.add_task_network(UP.TaskNetwork("net", CL, table))
        x.set_task_queue("net", list(rest))
        if not feasible:
            try:
                x.rehearse_network("net", list(lst), end_task=end)
            except UP.SimulationError:
                ctx.outcome("infeasible")
                return
            ctx.fail("an impossible list was rehearsed", "infeasible")
        if outcome == "endless":
            return
        failed = None
        try:
            c = x.rehearse_network("net", list(lst), end_task=end)
        except UP.SimulationError as e:
            failed = str(e)
        ctx.eq(x.env.now, 2.0, "clock")
        # A decision inside the list finds the rest of the list queued really, but not in the rehearsal.
        k = len(lst)
        inner = not rest and any(t in ("D", "S") for t in lst[:-1]) and [s[0] for s in w.starts[:k]] == [s[0] for s in really[:k]]
        ctx.eq(failed is not None, outcome == "fails", "failure", "list_queue" if inner else "failure")
        ctx.eq([s for s in w.starts], really, "tasks started", "list_queue" if inner else "starts")
        if failed is None and really:
            ctx.check(c.env.now >= really[-1][1], "clock at the end", "end clock")
        ctx.step(len(really))
        ctx.state(tuple(really))
        ctx.outcome(outcome)


def harnesses(tier):
    one = ("one", "two", "decide", "again")
    out = [Harness("pairs", single, depth=2, actions=ACTIONS, shapes=one, situations=("plain", "moving", "given"))]
    if tier == "quick":
        return out + [Harness("triples", single, depth=3, actions=ACTIONS, shapes=("one",), situations=("moving",)), Harness("network", network, most=3)]
    return out + [Harness("triples", single, depth=3, actions=ACTIONS, shapes=("one",), situations=("plain", "moving", "given")),
                  Harness("quads", single, depth=4, actions=CORE, shapes=("one",), situations=("plain", "moving")), Harness("network", network, most=5)]
