"""C18: rehearsing at any point of a run changes nothing of that run.

A small but complete simulation (an actor with every kind of state, two task
networks - one linked to a nucleus -, a mimicking actor, a store with waiting
competitors, a sensor with a motion manager, knowledge events with real
waiters) is stepped event by event.  For every event boundary, or from inside
every task, and every rehearsal of a family (all short lists of task actions,
raising or not, single tasks and networks, feasible or not) the run with the
rehearsal is compared with the undisturbed run: everything observable at every
later boundary, and the complete histories at the end.
"""
import re
from array import array
from collections import Counter, OrderedDict, defaultdict, deque
from dataclasses import dataclass

import simpy as SIM
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table

from mc.engine import Harness
from mc.sim import INF

BOUNDS = {"quick": "2 real programs x every event boundary (and inside every task) x all lists of 1 of 27 rehearsed actions, raising or not, as task / "
                   "network / clone; lists of 2 actions at every 24th boundary; observing at every boundary or only at the end; "
                   "15 kinds of mutable objects in states and knowledge x 6 ways of rehearsing",
          "thorough": "lists of 2 actions at every 2nd boundary, lists of 3 at every 40th"}
ORACLE = "the same simulation without the rehearsal"


@dataclass
class Info:
    a: int
    b: float


class X(UP.Actor):
    limit = 7

    n = UP.State(default=0, recording=True)
    lin = UP.LinearChangingState(default=1.0, recording=True)
    sh = UP.SharedLinearChangingState(default=3.0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    seen = UP.DetectabilityState(default=True, recording=True)
    d = UP.DictionaryState(recording=True)
    dc = UP.DataclassState(valid_types=Info, recording=True)
    q = UP.ResourceState(default=UP.SelfMonitoringStore)
    given = UP.ResourceState()
    tank = UP.ResourceState(default=UP.SelfMonitoringContainer)
    multi = UP.MultiStoreState(default=SIM.Store, valid_types=(SIM.Store, SIM.Container))
    mail = UP.CommunicationStore(modes=None)
    hidden = UP.LinearChangingState(default=2.0, no_init=True, recording=True)
    unset = UP.State(allow_none_default=True, recording=True)
    echo = UP.State(default=0.0, recording=True)

    @property
    def twice(self):
        return 2 * self.n

    @classmethod
    def make(cls):
        return cls.__name__


class Y(UP.Actor):
    val = UP.LinearChangingState(default=10.0, recording=True)
    copy_lin = UP.State(default=0.0, recording=True)


class Boom(Exception):
    pass


class Small(UP.Routine):
    def run(self):
        yield UP.Any(UP.All(self.stage.world.event, UP.Wait(0.1)), UP.Wait(5.0))
        return 0

    def cancel(self):
        return
        yield


class Sensor:
    def __init__(self, log, env):
        self.log, self.env = log, env
        self.location, self.radius = UP.CartesianLocation(4, 0, 0), 2.0

    def entity_entered_range(self, mover):
        self.log.append(("in", self.env.now, mover.name))

    def entity_exited_range(self, mover):
        self.log.append(("out", self.env.now, mover.name))


L = UP.CartesianLocation


class World:
    """Everything of one run."""

    def __init__(self, env, prog):
        self.env, self.log, self.inside = env, [], None
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("world", self)
        mgr = UP.SensorMotionManager(CLI)
        UP.add_stage_variable("motion_manager", mgr)
        self.store = SIM.Store(env, capacity=1)
        self.given = UP.SelfMonitoringStore(env, name="given")
        self.given.items.append("old")
        self.event = UP.Event(rehearsal_time_to_complete=1.0)
        self.routine = Small()
        x = self.x = X(name="x", loc=L(0, 0, 0), d={"u": 0}, dc=Info(0, 0.0), q={"capacity": 2}, given=self.given, tank={"capacity": 5, "init": 2},
                       multi={"m": {}, "c": {"kind": SIM.Container, "init": 3}}, mail={"modes": ["r", "s"]})
        y = self.y = Y(name="y")
        mgr.add_sensor(Sensor(self.log, env), location_attr_name="location", radius_attr_name="radius")
        links = {"Move": UP.TaskLinks(default="Think", allowed=["Think", "Work"]), "Think": UP.TaskLinks(default="Work", allowed=["Work", "Move"]),
                 "Work": UP.TaskLinks(default="Move", allowed=["Move", "Think"])}
        f = UP.TaskNetworkFactory("net", {"Move": Move, "Think": Think, "Work": Work}, links)
        g = UP.TaskNetworkFactory.from_single_looping("side", Side)
        x.add_task_network(f.make_network())
        x.add_task_network(g.make_network())
        nuc = UP.TaskNetworkNucleus(actor=x)
        nuc.add_network("side", ["n", "hidden"])
        x.create_knowledge_event(name="ev", rehearsal_time_to_complete=1.0)
        x.set_knowledge("k", [1, 2])
        self.t = Side()
        y.activate_linear_state(state="val", rate=1.0, task=self.t)
        x.activate_mimic_state(self_state="echo", mimic_state="val", mimic_actor=y, task=self.t)
        y.activate_mimic_state(self_state="copy_lin", mimic_state="lin", mimic_actor=x, task=self.t)
        x.activate_linear_state(state="hidden", rate=0.5, task=self.t)
        x.activate_state(state="sh", rate=1.0, task=self.t)
        x.set_task_queue("net", ["Move", "Work"] if prog else ["Work", "Think"])
        x.start_network_loop("net")
        x.start_network_loop("side", "Side")
        env.process(self.script())
        env.process(self.taker(x.tank.get(4), "tank"))
        env.process(self.taker(x.q.get(), "q"))
        env.process(self.waiter())

    def taker(self, ev, what):
        self.log.append((what, (yield ev), self.env.now))

    def waiter(self):
        yield self.x.get_knowledge("ev").as_event()
        self.log.append(("ev", self.env.now))

    def script(self):
        x, y, env = self.x, self.y, self.env
        yield env.timeout(0.5)
        x.n += 1
        yield env.timeout(0.5)
        x.q.put("a")
        yield env.timeout(1.0)
        y.val = 5.0
        x.tank.put(2)
        yield env.timeout(1.0)
        x.d["u"] += 1
        x.dc.b += 1.0
        if x.get_knowledge("ev") is not None:
            x.succeed_knowledge_event(name="ev")

    def observe(self, deep):
        x = self.x
        out = [self.env.now, self.env.peek(), x.n, x.seen, dict(x.d.items()), x.dc.a, x.dc.b, tuple(x.q.items), x.tank.level, tuple(self.given.items),
               tuple(x.multi["m"].items), x.multi["c"].level, tuple(self.store.items), tuple(x.get_task_queue("net")), tuple(x.get_task_queue("side")),
               len(x.get_actors()), len(x.get_monitored()), sorted(x._knowledge), x.get_knowledge("k"), len(x.log()), tuple(self.log), self.event.is_complete(),
               len(self.store.put_queue), len(x.q.get_queue), len(x.tank.get_queue), len(self.y.log()), len(x.mail.items), x.stage.random.getstate()[1][-1],
               self.routine.env is self.env, [x.has_task_network(k) for k in ("net", "side", "side_1")], x.limit]
        for net in ("net", "side"):
            r = x.get_running_task(net)
            out.append((r.name, r.process.is_alive) if r is not None and r.process is not None else r and r.name)
        if deep:
            out += [x.lin, str(x.loc), x.sh, x.echo, self.y.val, self.y.copy_lin]
        return out

    def final(self):
        t, _ = create_table(skip_locations=True, save_static=False)
        t2, _ = create_location_table()
        lines = [re.sub("0x[0-9a-f]+", "0x", m) for _, m in self.x.log()]
        return [tuple(map(str, r)) for r in t], [tuple(map(str, r)) for r in t2], len(self.x.log()), lines, len(self.y.log())


def CLI(*a, **k):
    from upstage_des.motion.cartesian_model import cartesian_linear_intersection
    return cartesian_linear_intersection(*a, **k)


def enter(task, where):
    w = task.stage.world
    if not task._rehearsing and w.inside is not None:
        w.inside(where)


class Move(UP.Task):
    def task(self, *, actor):
        enter(self, "move")
        actor.activate_location_state(state="loc", speed=2.0, waypoints=[L(actor.loc.x + 2, 0, 0), L(actor.loc.x + 4, 1, 0)], task=self)
        actor.activate_linear_state(state="lin", rate=1.0, task=self)
        yield UP.Wait(1.0)
        enter(self, "moving")
        yield UP.Any(UP.Wait(0.7), self.stage.world.event)
        actor.deactivate_all_states(task=self)


class Think(UP.DecisionTask):
    def make_decision(self, *, actor):
        enter(self, "think")
        actor.n += 1
        if not actor.get_task_queue("net"):
            actor.set_task_queue("net", ["Move"] if actor.n % 2 else ["Work"])

    def rehearse_decision(self, *, actor):
        actor.n += 1
        actor.clear_task_queue("net")
        actor.set_task_queue("net", ["Work", "Move"])


class Work(UP.Task):
    def task(self, *, actor):
        enter(self, "work")
        yield UP.Put(self.stage.world.store, "thing", rehearsal_time_to_complete=1.0)
        get = UP.Get(actor.given, rehearsal_time_to_complete=0.5)
        yield UP.Any(get, UP.Wait(0.4))
        if not get.is_complete():
            get.cancel()
        enter(self, "worked")
        actor.d["w"] = 1
        yield UP.Get(self.stage.world.store, rehearsal_time_to_complete=0.1)
        yield UP.Wait(0.3)


class Side(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(0.8)
        actor.d["side"] = self.env.now
        yield UP.Wait(0.6)

    def on_interrupt(self, *, actor, cause):
        self.stage.world.log.append(("nucleus", self.env.now, str(cause)))
        return self.INTERRUPT.IGNORE


def a_wait(s, a): yield UP.Wait(0.5)
def a_n(s, a): a.n = 50; yield from ()
def a_lin(s, a):
    a.activate_linear_state(state="lin", rate=3.0, task=s); yield UP.Wait(0.5); a.deactivate_all_states(task=s)
def a_lin_on(s, a): a.activate_linear_state(state="lin", rate=3.0, task=s); a.activate_state(state="sh", rate=2.0, task=s); yield UP.Wait(0.5)
def a_hidden(s, a): a.activate_linear_state(state="hidden", rate=3.0, task=s); yield UP.Wait(0.5)
def a_loc(s, a): a.activate_location_state(state="loc", speed=1.0, waypoints=[L(9, 9, 0)], task=s); yield UP.Wait(0.5); a.loc
def a_seen(s, a): a.seen = False; a.seen = True; a.seen = False; yield UP.Wait(0.2)
def a_kv(s, a): a.d["u"] = 40; a.d["new"] = 1; a.dc.b = 9.0; a.record_state("d"); yield UP.Wait(0.1)
def a_know(s, a): s.set_actor_knowledge(a, "k", 0, overwrite=True); s.set_actor_knowledge(a, "z", 1); s.clear_actor_knowledge(a, "z"); yield UP.Wait(0.1)
def a_clear(s, a): a.clear_knowledge("k"); a.set_bulk_knowledge({"p": 1, "r": 2}); yield from ()
def a_make(s, a): yield a.create_knowledge_event(name="ev", rehearsal_time_to_complete=0.3)
def a_succeed(s, a):
    if a.get_knowledge("ev") is None:
        a.create_knowledge_event(name="ev")
    a.succeed_knowledge_event(name="ev", p=1); yield from ()
def a_event(s, a): yield UP.Any(s.stage.world.event, UP.Wait(5.0)); s.stage.world.event.is_complete()
def a_kevent(s, a):
    e = a.get_knowledge("ev") or UP.Event()
    yield UP.All(e, UP.Any(UP.Wait(0.2), UP.Wait(0.4))); e.is_complete()
def a_get(s, a): yield UP.Get(a.q, rehearsal_time_to_complete=0.2); yield UP.Get(s.stage.world.given)
def a_put(s, a): yield UP.Put(a.q, "fake", rehearsal_time_to_complete=0.2); yield UP.Put(s.stage.world.store, "fake"); yield UP.Put(a.tank, 1)
def a_fget(s, a):
    g = UP.Get(a.tank, 1); yield UP.Any(g, UP.Wait(0.1))
def a_queue(s, a): a.clear_task_queue("net"); a.set_task_queue("net", ["Think", "Work"]); a.get_next_task("net"); yield UP.Wait(0.1)
def a_append(s, a): a.get_task_queue("net").append("Work"); yield from ()
def a_window(s, a): yield UP.WindowedGet(a.q, timeout=0.5)
def a_routine(s, a): yield s.stage.world.routine; yield UP.Wait(0.1)
def a_deep(s, a):
    e = s.stage.world.event
    yield UP.Any(UP.All(e, UP.Any(UP.Wait(0.2), UP.Wait(0.4))), UP.Wait(9.0)); e.is_complete()
def a_unset(s, a): a.unset = 4; a.echo = 3.0; yield UP.Wait(0.1); a.echo
def a_nested(s, a): Inner().rehearse(actor=a); a.clone(); yield UP.Wait(0.1)
def a_multi(s, a): a.multi["m"].items.append("fake"); a.given.items.append("fake"); a.q.items.append("fake"); a.mail.items.append("fake"); yield UP.Wait(0.1)

def a_net(s, a):
    f = UP.TaskNetworkFactory.from_single_looping("side", Side)
    a.add_task_network(f.make_network(other_name=a.suggest_network_name(f))); a.delete_task_network("net"); yield UP.Wait(0.1)
def a_limit(s, a): a.limit = 8; yield UP.Wait(0.1)


class Inner(UP.Task):
    def task(self, *, actor):
        actor.n = 99
        actor.activate_linear_state(state="lin", rate=1.0, task=self)
        yield UP.Wait(2.0)


ACTIONS = (a_wait, a_n, a_lin, a_lin_on, a_hidden, a_loc, a_seen, a_kv, a_know, a_clear, a_make, a_succeed, a_event, a_kevent, a_get, a_put, a_fget,
           a_queue, a_append, a_window, a_routine, a_deep, a_unset, a_nested, a_multi, a_net, a_limit)


class Probe(UP.Task):
    def __init__(self, acts, boom):
        super().__init__()
        self.acts, self.boom = acts, boom

    def task(self, *, actor):
        for act in self.acts:
            yield from act(self, actor)
        if self.boom:
            raise Boom


class Decide(UP.DecisionTask):
    def __init__(self, acts, boom):
        super().__init__()
        self.acts, self.boom = acts, boom

    def rehearse_decision(self, *, actor):
        for act in self.acts:
            for _ in act(self, actor):
                pass
        if self.boom:
            raise Boom


NETS = ((["Move"], {}), (["Work", "Think"], {}), (["Think", "Work", "Move"], {"k": 5}), (["Move", "Move"], {}), (["Work"], {"k": 1}))
H = 4.2


def perform(w, reh):
    kind, arg, boom = reh
    x = w.x
    try:
        if kind == "task":
            u = Probe(arg, boom).rehearse(actor=x, knowledge={"extra": 1})
        elif kind == "decide":
            u = Decide(arg, boom).rehearse(actor=x)
        elif kind == "net":
            names, know = NETS[arg]
            u = x.rehearse_network("net", names, knowledge=know, end_task="Move" if boom else None)
        else:
            u = x.clone(knowledge={"extra": 2})
            u.n = 77
            u.get_task_queue("net").append("Work")
            u.set_knowledge("k", 0, overwrite=True)
            u = Probe(arg, boom).rehearse(actor=u)
        u.n += 1
        u.set_knowledge("only clone", 1)
        u.lin, u.loc, u.hidden
        return None
    except (Boom, UP.SimulationError) as e:
        return e


BASE = {}


def run(prog, deep, at=None, where=None, reh=None, step=None):
    """One simulation; the rehearsal happens at boundary number `at` or in the at-th visit of a task."""
    with UP.EnvironmentContext(random_seed=7) as env:
        w = World(env, prog)
        obs, n, visits = [], 0, [0]
        names = []

        def inside(name):
            names.append(name)
            if where == "inside" and visits[0] == at:
                perform(w, reh)
            visits[0] += 1
        w.inside = inside
        while True:
            if where == "boundary" and n == at:
                perform(w, reh)
            if deep >= 0:
                obs.append(w.observe(deep))
            if env.peek() > H:
                break
            env.step()
            n += 1
            if step:
                step()
        obs.append(w.observe(True))
        fin = w.final()
        for a in (w.x, w.y):
            a.deactivate_all_mimic_states(task=w.t)
        return obs, fin, visits[0], n


def interleave(ctx, length, stride, modes):
    prog = ctx.choose((0, 1), "program")
    deep = ctx.choose(modes, "observe")
    key = (prog, deep)
    if key not in BASE:
        BASE[key] = run(prog, deep)
    base, final, visits, n = BASE[key]
    where = ctx.choose(("boundary", "inside"), "where")
    kind = ctx.choose(("task", "clone", "decide", "net") if length == 1 else ("task",), "kind")
    at = ctx.choose(range(0, n if where == "boundary" else visits, stride * (3 if kind in ("clone", "decide") and ctx.tier == "quick" else 1)), "at")
    boom = ctx.flag("raise")
    arg = ctx.choose(range(len(NETS)), "tasks") if kind == "net" else tuple(ctx.choose(ACTIONS, "action") for _ in range(length))
    ctx.note(f"prog {prog} observe {deep} {where} {at} {kind} {[a.__name__ for a in arg] if kind != 'net' else NETS[arg]} raise {boom}")
    obs, fin, _, _ = run(prog, deep, at, where, (kind, arg, boom), ctx.step)
    ctx.eq(len(obs), len(base), "number of kernel events", "events")
    for a, b in zip(obs, base):
        ctx.check(a == b, lambda: f"after the rehearsal, at t={b[0]}: " + "; ".join(f"#{i}: {p} instead of {q}" for i, (p, q) in enumerate(zip(a, b)) if p != q),
                  "observation")
    for what, a, b in zip(("table", "location table", "log length", "log", "other log"), fin, final):
        ctx.check(a == b, lambda: f"{what}: {[r for r in a if r not in b][:3]} instead of {[r for r in b if r not in a][:3]} ({len(a)}/{len(b)})"
                  if isinstance(a, list) else f"{what}: {a} instead of {b}", what)
    ctx.state((prog, where, at, kind))
    ctx.outcome((kind, boom))


class Thing:
    def __init__(self):
        self.a = 1


class Kind:
    """A kind of object: how to make one, to change it in place, and to see its content."""

    def __init__(self, make, change, see=lambda v: v):
        self.make, self.change, self.see = make, change, see


KINDS = {
    "list": Kind(lambda: [1], lambda v: v.append(2), list),
    "dict": Kind(lambda: {"a": 1}, lambda v: v.update(b=2), dict),
    "set": Kind(lambda: {1}, lambda v: v.add(2), set),
    "deque": Kind(lambda: deque([1], maxlen=3), lambda v: v.appendleft(2), list),
    "bytearray": Kind(lambda: bytearray(b"a"), lambda v: v.extend(b"b"), bytes),
    "array": Kind(lambda: array("i", [1]), lambda v: v.append(2), list),
    "counter": Kind(lambda: Counter("a"), lambda v: v.update("b"), dict),
    "default dict": Kind(lambda: defaultdict(int, a=1), lambda v: v["b"], dict),
    "ordered dict": Kind(lambda: OrderedDict(a=1, b=2), lambda v: v.move_to_end("a"), lambda v: list(v.items())),
    "dataclass": Kind(lambda: Info(1, 2.0), lambda v: setattr(v, "a", 5), lambda v: (v.a, v.b)),
    "object": Kind(Thing, lambda v: setattr(v, "a", 5), lambda v: dict(vars(v))),
    "new attribute": Kind(Thing, lambda v: setattr(v, "z", 5), lambda v: dict(vars(v))),
    "empty list": Kind(list, lambda v: v.append(2), list),
    "empty set": Kind(set, lambda v: v.add(2), set),
    "empty dict": Kind(dict, lambda v: v.update(b=2), dict),
}


class Holder(UP.Actor):
    plain = UP.State(recording=True)
    quiet = UP.State()
    late = UP.State(default_factory=list, no_init=True)


class Change(UP.Task):
    def task(self, *, actor):
        for v in (actor.plain, actor.quiet, actor.late, actor.get_knowledge("real"), actor.get_knowledge("given"), actor.get_knowledge("made")):
            if v is not None:
                self.stage.change(v)
        yield UP.Wait(1.0)


class Decides(UP.DecisionTask):
    def rehearse_decision(self, *, actor):
        for _ in Change.task(self, actor=actor):
            pass


def objects(ctx):
    """Objects of every kind that states and knowledge hold are not changed by rehearsals that change theirs."""
    kind = KINDS[ctx.choose(tuple(KINDS), "object")]
    way = ctx.choose(("task", "decision", "network", "clone", "clone of a clone", "twice"), "way")
    ran = ctx.flag("run on before")
    given = ctx.flag("give knowledge")
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("change", kind.change)
        objs = {name: kind.make() for name in ("plain", "quiet", "late", "real", "made", "given")}
        x = Holder(name="x", plain=objs["plain"], quiet=objs["quiet"])
        x.late = objs["late"]
        x.set_knowledge("real", objs["real"])
        x.set_bulk_knowledge({"made": objs["made"]})
        know = {"given": objs["given"]} if given else None
        x.add_task_network(UP.TaskNetworkFactory("net", {"C": Change, "D": Decides}, {n: UP.TaskLinks(default="C", allowed=["C", "D"]) for n in "CD"}).make_network())
        if ran:
            env.run(until=1.5)
            x.record_state("plain")
        before = {name: kind.see(v) for name, v in objs.items()}
        hist = [(t, kind.see(v)) for t, v in x._state_histories["plain"]]
        understudy = x
        if way == "task":
            understudy = Change().rehearse(actor=x, knowledge=know)
        elif way == "decision":
            understudy = Decides().rehearse(actor=x, knowledge=know)
        elif way == "network":
            understudy = x.rehearse_network("net", ["C", "D", "C"], knowledge=know)
        else:
            understudy = x.clone(knowledge=know)
            if way == "clone of a clone":
                understudy = understudy.clone()
            Change().rehearse(actor=understudy, cloned_actor=way != "twice")
            if way == "twice":
                Change().rehearse(actor=understudy)
                understudy = Change().rehearse(actor=understudy)
        ctx.step()
        ctx.eq({name: kind.see(v) for name, v in objs.items()}, before, "objects of the real actor", "objects")
        real = {"plain": x.plain, "quiet": x.quiet, "late": x.late, "real": x.get_knowledge("real"), "made": x.get_knowledge("made")}
        for name, v in real.items():
            ctx.check(v is objs[name], lambda: f"{name} of the real actor is another object", "objects")
        ctx.eq(x.get_knowledge("given"), None, "knowledge given to the rehearsal", "objects")
        ctx.eq([(t, kind.see(v)) for t, v in x._state_histories["plain"]], hist, "history of the real actor", "objects")
        seen = {"plain": understudy.plain, "quiet": understudy.quiet, "late": understudy.late, "real": understudy.get_knowledge("real"),
                "made": understudy.get_knowledge("made")}
        changed = kind.see(kind.make())
        for name, v in seen.items():
            ctx.check(kind.see(v) != changed, lambda: f"{name} of the clone was not changed", "objects")
        ctx.outcome((way, given))


def harnesses(tier):
    if tier == "quick":
        return [Harness("objects", objects), Harness("one", interleave, length=1, stride=1, modes=(-1, 1)), Harness("two", interleave, length=2, stride=24, modes=(1,))]
    return [Harness("objects", objects), Harness("one", interleave, length=1, stride=1, modes=(-1, 0, 1)), Harness("two", interleave, length=2, stride=2, modes=(-1, 1)),
            Harness("three", interleave, length=3, stride=40, modes=(1,))]
