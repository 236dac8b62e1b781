"""C40: errors surface at once, unchanged, and harm no one else.

A small busy world runs beside a place where user code raises; every place,
kind of error and moment is tried, one or two at a time.  The error must leave
the kernel at that very moment as that very object, once, and when the run is
carried on the rest of the world must be what it is without the error.
"""
import simpy as SIM
import upstage_des.api as UP
from upstage_des.communications.processes import generate_comms_wait
from upstage_des.data_utils import create_table
from upstage_des.motion.cartesian_model import cartesian_linear_intersection

from mc.engine import Harness

BOUNDS = {"quick": "one error: 46 places x 10 kinds x 2 moments; two errors: all pairs of 46 places x 2 orders, same kind or another, at one instant or not; leaving: 2 sources x 5 ways to wait x 4 moments of an interrupt x 4 reactions x 5 kinds; rehearsals: 17 places x 10 kinds, alone, in a network",
          "thorough": "two errors with 3 pairs of kinds and 3 gaps"}
ORACLE = "identity of the error object and the clock; the same world without the error"


class Mine(Exception):
    pass


class Base(BaseException):
    pass


KINDS = {"own": lambda: Mine("x"), "simulation": lambda: UP.SimulationError("x"), "upstage": lambda: UP.UpstageError("x"), "rules": lambda: UP.RulesError("x"), "key": lambda: KeyError("x"),
         "index": lambda: IndexError(1), "attribute": lambda: AttributeError("x"), "runtime": lambda: RuntimeError("x"), "lookup": lambda: LookupError("x"), "stop": lambda: StopIteration(3)}


class F(UP.Actor):
    """One that fails."""
    n = UP.State(default=0, recording=True)
    lin = UP.LinearChangingState(default=0.0, recording=True)
    spot = UP.CartesianLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    mail = UP.CommunicationStore(modes=["uhf"])


def make(cls, name):
    return cls(name=name, spot=UP.CartesianLocation(0, 0, 0))


class B(UP.Actor):
    """One that goes on."""
    n = UP.State(default=0, recording=True)
    lin = UP.LinearChangingState(default=1.0, recording=True)
    shop = UP.ResourceState(default=UP.SelfMonitoringStore)
    echo = UP.State(default=0.0, recording=True)


class Carry(UP.Task):
    def task(self, *, actor):
        actor.activate_linear_state(state="lin", rate=1.5, task=self)
        yield UP.Put(actor.shop, actor.n)
        yield UP.Any(UP.Wait(0.5), UP.Event())
        actor.deactivate_all_states(task=self)
        actor.n += 1
        yield UP.Wait(0.25)


class Choose(UP.DecisionTask):
    def make_decision(self, *, actor):
        actor.set_task_queue("b", ["Eat", "Carry"] if actor.n % 2 else ["Carry"])


class Eat(UP.Task):
    def task(self, *, actor):
        got = yield UP.Get(actor.shop)
        self.stage.w.log.append(("eaten", self.env.now, got))
        yield UP.All(UP.Wait(0.2), UP.Wait(0.3))


class World:
    """Bystanders, and what is planned to fail."""

    def __init__(self, ctx, env, armed):
        self.ctx, self.env, self.armed = ctx, env, armed
        self.log, self.raised, self.plan = [], [], {}
        UP.add_stage_variable("w", self)
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        self.mgr = UP.SensorMotionManager(cartesian_linear_intersection)
        UP.add_stage_variable("motion_manager", self.mgr)
        b, c = self.b, self.c = B(name="b"), B(name="c")
        factory = UP.TaskNetworkFactory("b", {"Carry": Carry, "Choose": Choose, "Eat": Eat},
                                        {"Carry": UP.TaskLinks("Choose", ["Choose"]), "Choose": UP.TaskLinks("Carry", ["Carry", "Eat"]), "Eat": UP.TaskLinks("Carry", ["Carry", "Choose"])})
        b.add_task_network(factory.make_network())
        b.start_network_loop("b", "Choose")
        self.t = Carry()
        c.activate_mimic_state(self_state="echo", mimic_state="lin", mimic_actor=b, task=self.t)
        c.activate_linear_state(state="lin", rate=-0.5, task=self.t)
        env.process(self.tick())

    def tick(self):
        while True:
            yield self.env.timeout(0.4)
            self.log.append((self.env.now, self.b.n, round(self.b.lin, 9), round(self.c.echo, 9), round(self.c.lin, 9), list(self.b.shop.items), self.b.get_running_task("b").name, self.b.get_task_queue("b")))
            self.c.record_state("lin")

    def boom(self, who, at=None):
        """Raise what is planned for `who`, once - unless this is the run without errors."""
        if who in self.plan and (at is None or self.env.now >= at):
            e = self.plan.pop(who)
            if self.armed:
                self.raised.append((self.env.now, e))
                raise e

    def table(self):
        rows, _ = create_table()
        return [r for r in map(str, rows) if "'b'" in r or "'c'" in r]


# ---------------------------------------------------------------- the places: each starts something that fails at time t
def task(*steps):
    """A task of the given steps: a number waits; 'x' fails; others make something to wait for."""
    class Fails(UP.Task):
        def task(self, *, actor):
            w, who = actor.stage.w, self.who
            for s in steps:
                if s == "x":
                    w.boom(who)
                elif callable(s):
                    e = s(self, actor)
                    if e is not None:
                        yield e
                else:
                    yield UP.Wait(self.at if s is None else s)
            return None
    return Fails


def run(w, who, t, cls, actor=None):
    k = cls()
    k.who, k.at = who, t
    return k.run(actor=actor or w.f[who])


def simple(*steps):
    return lambda w, who, t: run(w, who, t, task(*steps))


def later(w, t, fn):
    w.env.timeout(t).callbacks.append(lambda _: fn())


def routine(n, cancel=False):
    def start(w, who, t):
        class R(UP.Routine):
            def run(self):
                if n == 0:
                    w.boom(who)
                yield UP.Wait(0.1)
                if n == 1:
                    w.boom(who)
                yield UP.Any(UP.Wait(30.0 if cancel else 0.1), UP.Event())
                if n == 2:
                    w.boom(who)

            def cancel(self):
                if cancel == "later":
                    yield UP.Wait(0.3)
                w.boom(who)
                return
                yield
        p = run(w, who, t, task(None, lambda s, a: R()))
        if cancel:
            later(w, t + 0.5, lambda: p.interrupt())
    return start


def handler(inner, others=False):
    def start(w, who, t):
        class Handles(task(lambda s, a: a.activate_linear_state(state="lin", rate=1.0, task=s), inner)):
            def on_interrupt(self, *, actor, cause):
                w.boom(who)
                return self.INTERRUPT.END
        p = run(w, who, t, Handles)
        later(w, t, lambda: p.interrupt("why"))
    return start


@UP.process
def fails_later(w, who, t):
    yield w.env.timeout(t)
    w.boom(who)


def network(first, hold=True, chain=0):
    """A network whose `first` (a decision, a task after some others) fails."""
    def start(w, who, t):
        class Fine(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(max(t, 0.01))

        class Decide(UP.DecisionTask):
            DO_NOT_HOLD = not hold

            def make_decision(self, *, actor):
                w.boom(who)
                actor.set_task_queue("f", ["Fine"])

        class Fails(task("x")):
            pass
        Fails.who, Fails.at = who, t
        classes = {"Fine": Fine, "Bad": Decide if first == "decision" else Fails}
        f = UP.TaskNetworkFactory("f", classes, {"Fine": UP.TaskLinks("Bad", ["Bad"]), "Bad": UP.TaskLinks("Fine", ["Fine"])})
        w.f[who].add_task_network(f.make_network())
        w.f[who].start_network_loop("f", "Fine")
    return start


def recording(w, who, t):
    def fn(now, value):
        w.boom(who, t)
        return value

    class G(F):
        m = UP.State(default=0, recording=True, recording_functions=[(fn, "twice")])
    g = make(G, f"g{who}")
    run(w, who, t, task(None, lambda s, a: setattr(a, "m", 5)), g)


def factory_fails(w, who, t):
    class G(F):
        m = UP.State(default_factory=lambda: w.boom(who) or 0)
    run(w, who, t, task(None, lambda s, a: make(G, f"late{who}") and None))


def filters(w, who, t):
    store = SIM.FilterStore(w.env)
    run(w, who, t, task(lambda s, a: UP.FilterGet(store, lambda x: w.boom(who) or True)))
    later(w, t, lambda: store.put(1))


def filter_at_once(w, who, t):
    store = SIM.FilterStore(w.env)
    store.put(1)
    run(w, who, t, task(None, lambda s, a: UP.FilterGet(store, lambda x: w.boom(who) or True)))


def sorter(w, who, t):
    store = UP.SortedFilterStore(w.env)
    store.put(1)
    store.put(2)
    run(w, who, t, task(None, lambda s, a: UP.SortedFilterGet(store, lambda x: True, lambda x: w.boom(who) or x)))


def item_func(w, who, t):
    store = UP.SelfMonitoringStore(w.env, item_func=lambda items: w.boom(who, t) or len(items))
    run(w, who, t, task(None, lambda s, a: UP.Put(store, 1)))


def comms(w, who, t):
    m = UP.PointToPointCommsManager(name="M" + who, mode="uhf")
    m.run()
    f = w.f[who]
    generate_comms_wait(f.mail, lambda c: w.boom(who))()
    run(w, who, t, task(None, lambda s, a: m.make_put("hi", a, a)))


def no_store(w, who, t):
    """A refusal by UPSTAGE: the receiver has no store for this mode."""
    m = UP.PointToPointCommsManager(name="M" + who, mode="other")
    m.run()
    run(w, who, t, task(None, lambda s, a: m.make_put("hi", a, a)))
    refusal(w, who, t)


def tank(n):
    def start(w, who, t):
        c = UP.ContinuousContainer(w.env, capacity=5, init=2, error_empty=False, error_full=False)
        if n == "empty":
            c.get(2 / t if t else 2e9, float("inf"), custom_callbacks=[lambda: None, lambda: w.boom(who)])
        else:
            c.put(3 / t if t else 3e9, float("inf"), custom_callbacks=[lambda: w.boom(who)])
    return start


def sensor(kind):
    def start(w, who, t):
        class Eye:
            location, radius = UP.CartesianLocation(0, 0, 0), 1.0

            def entity_entered_range(self, e):
                if kind == "in" and e is w.f[who]:
                    w.boom(who)

            def entity_exited_range(self, e):
                if kind == "out" and e is w.f[who]:
                    w.boom(who)
        w.mgr.add_sensor(Eye())
        f = w.f[who]

        def go(s, a):
            a.activate_location_state(state="spot", speed=1.0 / t if t else 1e9, waypoints=[UP.CartesianLocation(4, 0, 0)], task=s)
            return UP.Wait(3 * t)
        if kind == "hide":
            return
        run(w, who, t, task(go, lambda s, a: a.deactivate_all_states(task=s)), f)
    return start


def refusal(w, who, t):
    """What UPSTAGE itself raises at time t is not one of ours: any SimulationError will do."""
    e = w.plan.pop(who)
    w.foreign.append(t)
    del e


def refused(*steps):
    def start(w, who, t):
        run(w, who, t, task(*steps))
        refusal(w, who, t)
    return start


def start_on(t, s, a):
    a.activate_linear_state(state="lin", rate=1.0, task=s)


def by_process(wrap):
    def start(w, who, t):
        def make(s, a):
            p = fails_later(w, who, t)
            return wrap(p)
        run(w, who, t, task(make))
    return start


def watcher(wrap):
    """A task of another actor waits on the failing task's process."""
    def start(w, who, t):
        p = run(w, who, t, task(None, "x"))
        g = make(F, f"watch{who}")
        run(w, who, t, task(lambda s, a: wrap(p)), g)
    return start


def knowledge(w, who, t):
    """The waiter of a knowledge event fails when it is succeeded from outside."""
    f = w.f[who]
    run(w, who, t, task(lambda s, a: a.create_knowledge_event(name="ev"), "x"))
    later(w, t, lambda: f.succeed_knowledge_event(name="ev"))


def shared_event(w, who, t):
    """Two wait for one event; one fails when it comes."""
    e = UP.Event()
    run(w, who, t, task(lambda s, a: e, "x"))
    other = make(F, f"o{who}")
    run(w, who, t, task(lambda s, a: e, lambda s, a: w.log.append(("event", w.env.now, who))), other)
    later(w, t, lambda: e.succeed())


def store_partner(w, who, t):
    """The giver fails right after giving; the taker goes on."""
    store = SIM.Store(w.env, capacity=1)
    run(w, who, t, task(None, lambda s, a: UP.Put(store, 1), "x"))
    other = make(F, f"o{who}")
    run(w, who, t, task(lambda s, a: UP.Get(store), lambda s, a: w.log.append(("got", w.env.now, who))), other)


def hold(w, who, t):
    res = SIM.Resource(w.env, 1)
    h = UP.ResourceHold(res)
    run(w, who, t, task(None, lambda s, a: h, "x"))


def full(env):
    store = SIM.Store(env)
    store.put(1)
    return store


class NoEvent:
    pass


PLACES = {
    "task start": simple(None, "x") , "after wait": simple(0.05, None, "x"), "after any": simple(None, lambda s, a: UP.Any(UP.Wait(0.1), UP.Wait(0.2)), "x"),
    "after all": simple(None, lambda s, a: UP.All(UP.Wait(0.1), UP.Wait(0.2)), "x"), "before the end": simple(None, "x", 1.0), "active": simple(lambda s, a: start_on(0, s, a), None, "x"),
    "mimic": simple(lambda s, a: a.activate_mimic_state(self_state="n", mimic_state="n", mimic_actor=a.stage.w.b, task=s), None, "x"),
    "routine 0": routine(0), "routine 1": routine(1), "routine 2": routine(2), "routine cancel": routine(9, "now"), "routine cancel later": routine(9, "later"),
    "windowed": simple(None, lambda s, a: UP.WindowedGet(full(a.env), timeout=0.5), "x"),
    "handler wait": handler(40.0), "handler get": handler(lambda s, a: UP.Get(a.mail)), "handler any": handler(lambda s, a: UP.Any(UP.Get(a.mail), UP.Wait(40.0))),
    "network task": network("task"), "decision": network("decision"), "decision at once": network("decision", False),
    "process": by_process(lambda p: p), "process in any": by_process(lambda p: UP.Any(p, UP.Wait(40.0))), "process in all": by_process(lambda p: UP.All(p, UP.Wait(0.1))),
    "process in all of any": by_process(lambda p: UP.All(UP.Any(p, UP.Event()), UP.Wait(40.0))), "process left by any": by_process(lambda p: UP.Any(p, UP.Wait(0.0))),
    "process alone": lambda w, who, t: fails_later(w, who, t) and None,
    "watched task": watcher(lambda p: p), "watched task in any": watcher(lambda p: UP.Any(p, UP.Wait(40.0))),
    "recording": recording, "factory": factory_fails, "filter": filters, "filter at once": filter_at_once, "sorter": sorter, "item function": item_func, "comms": comms,
    "tank empty": tank("empty"), "tank full": tank("full"), "sensor in": sensor("in"), "sensor out": sensor("out"),
    "knowledge": knowledge, "shared event": shared_event, "partner": store_partner, "hold": hold,
    "refused: no event": refused(None, lambda s, a: NoEvent()), "refused: no store": no_store,
    "refused: active": refused(lambda s, a: start_on(0, s, a), None, lambda s, a: start_on(0, s, a)),
    "refused: knowledge": refused(None, lambda s, a: a.get_knowledge("none", must_exist=True)),
}
END = 6.0


def carry_on(ctx, env):
    """To the end, keeping errors."""
    out = []
    while env.peek() <= END:
        try:
            env.step()
        except Exception as e:
            out.append((env.now, e))
            if len(out) > 50:
                ctx.fail("errors without end", "count")
        ctx.step()
    return out


def world(ctx, armed, plan):
    """(what left the kernel, what was raised, the bystanders' log and table)."""
    with UP.EnvironmentContext() as env:
        w = World(ctx, env, armed)
        w.f, w.foreign = {}, []
        for who, place, t, kind in plan:
            w.f[who] = make(F, "f" + who)
            w.plan[who] = KINDS[kind]()
        for who, place, t, kind in plan:
            PLACES[place](w, who, t)
        out = carry_on(ctx, env)
        return out, w.raised, sorted(w.foreign), [x for x in w.log], w.table(), sorted(w.plan)


PLAIN = {}


def quiet(ctx):
    if "log" not in PLAIN:
        out, _, _, log, table, _ = world(ctx, False, [])
        assert not out and len(log) > 10
        PLAIN["log"], PLAIN["table"] = log, table
    return PLAIN["log"], PLAIN["table"]


def same(got, e):
    """Whether `got` is the error e (the kernel of simpy raises a copy, with the original as its cause)."""
    if isinstance(e, StopIteration):  # Python itself turns it into a RuntimeError in a generator
        if not isinstance(got, RuntimeError | StopIteration):
            return False
    elif type(got) is not type(e) or str(got) != str(e):
        return False
    x = got
    while x is not None and x is not e:
        x = x.__cause__
    return x is e


def judge(ctx, plan):
    log, table = quiet(ctx)
    out, raised, foreign, mylog, mytable, left = world(ctx, True, plan)
    ctx.note(f"{plan}: {[(t, type(e).__name__) for t, e in out]}")
    ctx.check(not left, lambda: f"the place was not reached: {left}", "reached")
    mine = list(out)
    for t, e in raised:
        hits = [x for x in mine if same(x[1], e)]
        ctx.check(len(hits) == 1, lambda: f"{e!r} raised at {t} left the run {len(hits)} times: {out}", "surfaces")
        ctx.close(hits[0][0], t, "it leaves the run at", key="when")
        mine.remove(hits[0])
    for t in foreign:
        hits = [x for x in mine if isinstance(x[1], UP.SimulationError) and abs(x[0] - t) < 1e-9]
        ctx.check(bool(hits), lambda: f"no refusal at {t}: {out}", "refusal")
        mine.remove(hits[0])
    ctx.check(not mine, lambda: f"other errors: {mine}", "extra")
    ctx.eq([x for x in mylog if x[0] not in ("event", "got")], log, "the others' log", "others")
    ctx.eq(mytable, table, "the others' table", "others")
    partners = [x for x in mylog if x[0] in ("event", "got")]
    ctx.eq(sorted(partners), sorted(("event" if p == "shared event" else "got", t, who) for who, p, t, _ in plan if p in ("shared event", "partner")), "the partners", "partners")
    ctx.state(plan)
    ctx.outcome(len(out))


def one(ctx):
    place, kind = ctx.choose(list(PLACES), "place"), ctx.choose(list(KINDS), "kind")
    judge(ctx, [("a", place, ctx.choose((1.0, 1.7), "at"), kind)])


def two(ctx, kinds, gaps):
    places = list(PLACES)
    a, b = ctx.choose(places, "place"), ctx.choose(places, "place 2")
    k1, k2 = ctx.choose(kinds, "kinds")
    gap = ctx.choose(gaps, "gap")
    judge(ctx, [("a", a, 1.0, k1), ("b", b, 1.0 + gap, k2)])


# ---------------------------------------------------------------- leaving the wait for what fails, at that very moment
WRAPS = {"direct": lambda p: p, "any": lambda p: UP.Any(p, UP.Wait(40.0)), "all": lambda p: UP.All(UP.Wait(0.5), p), "all of any": lambda p: UP.All(UP.Any(UP.Event(), p), UP.Wait(40.0)),
         "any of all": lambda p: UP.Any(UP.All(p, UP.Event()), UP.Wait(40.0))}


def leaving(ctx):
    """The task that waits for a process is interrupted in the instant the process fails."""
    source, wrap = ctx.choose(("process", "task"), "source"), ctx.choose(list(WRAPS), "wait")
    moments = ("body", "first", "last", "later")
    when = ctx.choose(moments, "interrupted")
    action = ctx.choose(("END", "RESTART", "IGNORE", "raise"), "then")
    kind = ctx.choose(("own", "simulation", "upstage", "key", "runtime"), "kind")
    if wrap == "direct" and when == "later":
        return  # the process itself is interrupted
    log, table = quiet(ctx)
    with UP.EnvironmentContext() as env:
        w = World(ctx, env, True)
        w.f = {"a": make(F, "fa")}
        e, second = KINDS[kind](), Mine("handler")
        w.plan["a"] = e
        proc, seen = [], []

        def interrupt():
            if proc[0].is_alive:
                proc[0].interrupt("why")

        class Source(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(1.0)
                fail()

        @UP.process
        def source_process():
            yield env.timeout(1.0)
            fail()

        def fail():
            if when == "body":
                interrupt()
            w.boom("a")

        class Waits(UP.Task):
            def task(self, *, actor):
                seen.append(("start", env.now))
                if len([x for x in seen if x[0] == "start"]) == 1:
                    actor.activate_linear_state(state="lin", rate=1.0, task=self)
                    yield WRAPS[wrap](p)
                yield UP.Wait(0.7)
                seen.append(("end", env.now))

            def on_interrupt(self, *, actor, cause):
                seen.append(("interrupt", env.now))
                if action == "raise":
                    raise second
                return getattr(self.INTERRUPT, action)
        p = Source().run(actor=w.f["a"]) if source == "task" else source_process()
        if when == "first":
            p.callbacks.append(lambda _: interrupt())
        g = make(F, "g")
        proc.append(Waits().run(actor=g))

        def arm():
            if when == "last":
                p.callbacks.append(lambda _: interrupt())
        later(w, 0.9, arm)
        if when == "later":
            later(w, 1.0, interrupt)
        out = carry_on(ctx, env)
        ctx.note(f"{seen} {[(t, repr(x)) for t, x in out]}")
        hits = [x for x in out if same(x[1], e)]
        ctx.check(len(hits) == 1, lambda: f"{e!r} left the run {len(hits)} times: {out}", "surfaces")
        ctx.close(hits[0][0], 1.0, "it leaves the run at", key="when")
        rest = [x for x in out if x is not hits[0]]
        handled = ("interrupt", 1.0) in seen
        if action == "raise" and handled:
            ctx.check(len(rest) == 1 and same(rest[0][1], second) and rest[0][0] == 1.0, lambda: f"the handler raised {second!r}: {rest}", "surfaces")
        else:
            ctx.check(not rest, lambda: f"other errors: {rest}", "extra")
        ctx.eq([x for x in seen if x[0] != "interrupt"], [("start", 0.0)] + ([("start", 1.0), ("end", 1.7)] if action == "RESTART" and handled else []), "the waiting task", "task")
        if handled and action in ("END", "RESTART"):
            ctx.close(g.lin, 1.0, "the state the task had activated", key="task")
        ctx.eq(w.log, log, "the others' log", "others")
        ctx.eq(w.table(), table, "the others' table", "others")
        ctx.state((source, wrap, when, action, kind))
        ctx.outcome((handled, len(out)))


# ---------------------------------------------------------------- rehearsals
class Late(UP.Routine):
    def __init__(self, go, when):
        super().__init__()
        self.go, self.when = go, when

    def run(self):
        if self.when == 0:
            self.go()
        yield UP.Wait(0.5)
        self.go()

    def cancel(self):
        return
        yield


class Own(Late):
    def rehearse(self):
        self.go()
        return 1.0, None


class OwnWait(UP.Wait):
    def rehearse(self):
        self.go()
        return super().rehearse()


class OwnTime(UP.Event):
    def calculate_time_to_complete(self):
        self.go()
        return 1.0


def with_go(e, go):
    e.go = go
    return e


REHEARSED = {
    "start": lambda go, a, s: (go(),), "wait": lambda go, a, s: (UP.Wait(1.0), go), "any": lambda go, a, s: (UP.Any(UP.Wait(1.0), UP.Event()), go), "get": lambda go, a, s: (UP.Get(a.mail), go),
    "routine 0": lambda go, a, s: (Late(go, 0),), "routine 1": lambda go, a, s: (UP.Wait(0.5), Late(go, 1)), "own routine": lambda go, a, s: (UP.Wait(0.1), Own(go, 1)),
    "own wait": lambda go, a, s: (with_go(OwnWait(1.0), go),), "own time": lambda go, a, s: (with_go(OwnTime(), go),), "own in any": lambda go, a, s: (UP.Any(UP.Wait(2.0), with_go(OwnTime(), go)),),
    "own in all": lambda go, a, s: (UP.All(with_go(OwnTime(), go), UP.Wait(2.0)),), "end": lambda go, a, s: (UP.Wait(1.0), UP.Wait(1.0), go),
    "active": lambda go, a, s: (a.activate_linear_state(state="lin", rate=1.0, task=s), UP.Wait(1.0), go),
    "no event": lambda go, a, s: (UP.Wait(1.0), NoEvent()), "twice active": lambda go, a, s: (start_on(0, s, a), UP.Wait(1.0), start_on(0, s, a)), "no knowledge": lambda go, a, s: (a.clear_knowledge("none"),),
}


class Rehearsed(UP.Task):
    def task(self, *, actor):
        for e in REHEARSED[self.place](self.go, actor, self):
            if e == self.go:
                e()
            elif e is not None:
                yield e


class RDecide(UP.DecisionTask):
    def rehearse_decision(self, *, actor):
        self.go()

    def make_decision(self, *, actor):
        pass


def rehearsals(ctx):
    place, kind = ctx.choose(list(REHEARSED) + ["decision"], "place"), ctx.choose(list(KINDS), "kind")
    how = ctx.choose(("task", "network", "second"), "as")
    at = ctx.choose((0.0, 1.3), "at")
    e = KINDS[kind]()
    foreign = place in ("no event", "twice active", "no knowledge")
    log, table = quiet(ctx)
    with UP.EnvironmentContext() as env:
        w = World(ctx, env, False)
        f = make(F, "fa")
        cls = RDecide if place == "decision" else Rehearsed

        class Bad(cls):
            def go(self):
                raise e
        Bad.place = place

        class Fine(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(0.5)
        net = UP.TaskNetworkFactory("f", {"Fine": Fine, "Bad": Bad}, {"Fine": UP.TaskLinks("Bad", ["Bad"]), "Bad": UP.TaskLinks("Fine", ["Fine"])})
        f.add_task_network(net.make_network())
        out = None

        def rehearse():
            nonlocal out
            try:
                if how == "task":
                    Bad().rehearse(actor=f)
                else:
                    f.rehearse_network("f", ["Bad", "Fine"] if how == "network" else ["Fine", "Bad"])
            except Exception as x:
                out = x
        later(w, at, rehearse)
        more = carry_on(ctx, env)
        ctx.check(not more, lambda: f"errors later: {more}", "extra")
        if foreign:
            ctx.check(isinstance(out, UP.SimulationError), lambda: f"not refused: {out!r}", "refusal")
        else:
            ctx.check(out is not None and same(out, e), lambda: f"{e!r} left the rehearsal as {out!r}", "surfaces")
        ctx.eq(w.log, log, "the others' log", "others")
        ctx.eq(w.table(), table, "the others' table", "others")
        ctx.state((place, kind, how, at))


def harnesses(tier):
    pairs = [("own", "own"), ("own", "key")]
    if tier == "quick":
        return [Harness("one", one), Harness("two", two, kinds=pairs, gaps=(0.0, 0.6)), Harness("leaving", leaving), Harness("rehearsals", rehearsals)]
    return [Harness("one", one), Harness("two", two, kinds=pairs + [("simulation", "stop")], gaps=(0.0, 0.6, 2.0)), Harness("leaving", leaving), Harness("rehearsals", rehearsals)]
