"""C31: self-monitoring resources behave like the originals and record every change.

Every pair of a self-monitoring class and its original is run side by side
through all short histories of its operations; the original's content is
watched change by change, and the recorded quantities must be that series.
"""
from collections import Counter

import simpy
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "store, filter store, sorted store: all sequences of 3 of up to 10 operations, settled or not after each, 2 capacities, 4 item functions, and of 5 of 4 operations; container: sequences of 3 of 8; reserve "
                   "container: sequences of 3 of 10, continuous container: sequences of 4 of 6, with time steps; direct, in an actor, and used by tasks",
          "thorough": "sequences of 5"}
ORACLE = "the original class run in lockstep, its contents observed at every change"


class Watched(list):
    """The items of an original store; tells after every change."""

    tell = None

    def append(self, x):
        super().append(x)
        self.tell()

    def remove(self, x):
        super().remove(x)
        self.tell()

    def pop(self, *a):
        x = super().pop(*a)
        self.tell()
        return x

    def __delitem__(self, k):
        super().__delitem__(k)
        self.tell()


class WatchedLevel(simpy.Container):
    tell = None

    @property
    def _level(self):
        return self.__dict__["_lev"]

    @_level.setter
    def _level(self, v):
        self.__dict__["_lev"] = v
        if self.tell is not None:
            self.tell()


def squeeze(series):
    """Only real changes: the series without repeats of the value."""
    out = []
    for t, v in series:
        if not out or out[-1][1] != v:
            out.append((t, v))
    return out


FUNCS = {"len": None, "counter": Counter, "sum": lambda items: sum(items), "copy": list}


class Odd:
    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        return x % 2 == self.k


def same_events(ctx, pairs):
    for n, (a, b) in enumerate(pairs):
        ctx.eq(a.triggered, b.triggered, f"request {n}", "events")
        if a.triggered:
            ctx.check(a.value == b.value, lambda: f"request {n}: {a.value} and {b.value}", "events")


STORES = {"store": (UP.SelfMonitoringStore, simpy.Store), "filter": (UP.SelfMonitoringFilterStore, simpy.FilterStore), "sorted": (UP.SelfMonitoringSortedFilterStore, UP.SortedFilterStore)}
GETS = {"store": [{}], "filter": [{}, {"filter": Odd(1)}, {"filter": Odd(0)}], "sorted": [{}, {"filter": Odd(1)}, {"sorter": lambda x: -x}, {"filter": Odd(0), "sorter": lambda x: x, "reverse": True}]}


class Keeper(UP.Actor):
    box = UP.ResourceState(valid_types=(simpy.Store, simpy.Container))


def build(ctx, env, cls, kw, direct):
    if direct:
        return cls(env, **kw)
    return Keeper(name="k", box={"kind": cls, **kw}).box


def stores(ctx, kind, depth, items=(1, 2, 0), gets=None, afters=("wait", "settle", "none"), caps=(float("inf"), 2), funcs=tuple(FUNCS)):
    mon_cls, org_cls = STORES[kind]
    cap = ctx.choose(caps, "capacity")
    func = ctx.choose(funcs, "item function")
    direct = ctx.flag("direct") if gets is None else True
    with UP.EnvironmentContext(initial_time=1.0) as env:
        kw = {"capacity": cap} | ({"item_func": FUNCS[func]} if FUNCS[func] else {})
        mon = build(ctx, env, mon_cls, kw, direct)
        org = org_cls(env, capacity=cap)
        org.items = Watched(org.items)
        value = FUNCS[func] or len
        series = [(env.now, value(list(org.items)))]
        org.items.tell = lambda: series.append((env.now, value(list(org.items))))
        pairs, trail, gone = [], [], set()

        def compare():
            ctx.eq(list(mon.items), list(org.items), "items", "items")
            ctx.eq(mon.capacity, org.capacity, "capacity", "items")
            ctx.eq([len(mon.put_queue), len(mon.get_queue)], [len(org.put_queue), len(org.get_queue)], "queues", "queues")
            same_events(ctx, pairs)
            ctx.eq(mon._quantities, squeeze(series), f"recorded, with changes {series}", "record")
            ctx.step()

        ops = [("put", k) for k in items] + [("get", k) for k in (range(len(GETS[kind])) if gets is None else gets)]
        for _ in range(depth):
            waiting = [i for i, (a, _) in enumerate(pairs) if not a.triggered and i not in gone]
            op, arg = ctx.choose(ops + [("cancel", i) for i in waiting[:1] + waiting[1:][-1:]])
            trail.append((op, arg))
            ctx.note((op, arg))
            if op == "put":
                pairs.append((mon.put(arg), org.put(arg)))
            elif op == "get":
                pairs.append((mon.get(**GETS[kind][arg]), org.get(**GETS[kind][arg])))
            else:
                gone.add(arg)
                for e in pairs[arg]:
                    e.cancel()
            after = ctx.choose(afters)
            if after != "none":
                while env.peek() <= env.now:
                    env.step()
                compare()
            if after == "wait":
                env.run(until=env.now + 0.5)
        env.run()
        compare()
        ctx.state(trail)


def containers(ctx, depth):
    cap, init = ctx.choose(((float("inf"), 0), (5, 0), (5.0, 3)), "capacity, level")
    direct = ctx.flag("direct")
    with UP.EnvironmentContext(initial_time=1.0) as env:
        mon = build(ctx, env, UP.SelfMonitoringContainer, {"capacity": cap, "init": init}, direct)
        org = WatchedLevel(env, capacity=cap, init=init)
        series = [(env.now, init)]
        org.tell = lambda: series.append((env.now, org.level))
        pairs, trail, gone = [], [], set()

        def compare():
            ctx.eq(mon.level, org.level, "level", "level")
            ctx.eq([len(mon.put_queue), len(mon.get_queue)], [len(org.put_queue), len(org.get_queue)], "queues", "queues")
            same_events(ctx, pairs)
            ctx.eq(squeeze(mon._quantities), squeeze(series), f"recorded, with changes {series}", "record")
            ctx.check(all(a[0] <= b[0] for a, b in zip(mon._quantities, mon._quantities[1:])), "time order", "record")
            ctx.step()

        for _ in range(depth):
            waiting = [i for i, (a, _) in enumerate(pairs) if not a.triggered and i not in gone]
            op, arg = ctx.choose([(o, a) for o in ("put", "get") for a in (1, 2.5, 4)] + [("cancel", i) for i in waiting[:1] + waiting[1:][-1:]])
            trail.append((op, arg))
            ctx.note((op, arg))
            if op == "cancel":
                gone.add(arg)
                for e in pairs[arg]:
                    e.cancel()
            else:
                pairs.append((getattr(mon, op)(arg), getattr(org, op)(arg)))
            after = ctx.choose(("wait", "settle", "none"))
            if after != "none":
                while env.peek() <= env.now:
                    env.step()
                compare()
            if after == "wait":
                env.run(until=env.now + 0.5)
        env.run()
        compare()
        ctx.state(trail)


def reserves(ctx, depth):
    start = dict(ctx.choose(({"capacity": 10, "init": 10}, {"capacity": 10, "init": 4}, {"init": 0}), "start"))
    with UP.EnvironmentContext(initial_time=1.0) as env:
        mon, org = UP.SelfMonitoringReserveContainer(env, **start), UP.ReserveContainer(env, **start)
        level = start["init"]
        series = [(env.now, level)]
        menu = [("reserve", r, q, e) for r in "ab" for q in (3,) for e in (None, 1)] + [(o, r) for o in ("take", "cancel_request") for r in "ab"] + [("put", 2, False), ("put", 6, True)]
        trail = []
        for _ in range(depth):
            op, *args = ctx.choose(menu)
            trail.append((op, args))
            ctx.note((op, args))
            got = []
            for box in (mon, org):
                try:
                    got.append(getattr(box, op)(*args))
                except ValueError:
                    got.append("refused")
            ctx.eq(got[0], got[1], f"{op} {args}", "events")
            if got[0] != "refused" and op in ("take", "put"):
                level += args[0] if op == "put" else -got[0]
                series.append((env.now, level))
            ctx.eq([mon.available, mon.remaining, mon.queued, mon.capacity], [org.available, org.remaining, org.queued, org.capacity], "books", "items")
            if ctx.flag("wait"):
                env.run(until=env.now + 0.5)
            ctx.eq(squeeze(mon._quantities), squeeze(series), f"recorded, with changes {series}", "record")
            ctx.step()
        env.run(until=env.now + 2)
        ctx.eq([mon.available, mon.queued], [org.available, org.queued], "books", "items")
        ctx.eq(squeeze(mon._quantities), squeeze(series), f"recorded, with changes {series}", "record")
        ctx.state(trail)


def continuous(ctx, depth):
    cap, init = ctx.choose(((6.0, 2.0), (6.0, 0.0), (4.0, 4.0)), "capacity, level")
    with UP.EnvironmentContext(initial_time=1.0) as env:
        told = [[], []]
        tanks = [c(env, capacity=cap, init=init, error_empty=False, error_full=False) for c in (UP.SelfMonitoringContinuousContainer, UP.ContinuousContainer)]
        mon, org = tanks
        seen = [(env.now, org.level)]
        users, trail = [], []
        for n in range(depth):
            menu = [(o, r, t) for o in ("put", "get") for r, t in ((1.0, 1.5), (2.0, float("inf")))] + [("cancel", i, 0) for i in range(len(users))][-2:]
            op, arg, t = ctx.choose(menu)
            trail.append((op, arg, t))
            ctx.note((op, arg, t))
            if op == "cancel":
                for e in users[arg]:
                    e.cancel()
            else:
                users.append([getattr(tank, op)(arg, t, custom_callbacks=[lambda k=k, n=n: told[k].append((env.now, n))]) for k, tank in enumerate(tanks)])
            for _ in range(ctx.choose((0, 1, 3))):
                until = env.now + 0.5
                while env.peek() < until:
                    env.step()
                    ctx.close(mon.level, org.level, "level", tol=1e-12, key="level")
                    seen.append((env.now, org.level))
                env.run(until=until)
                seen.append((env.now, org.level))
                ctx.close(mon.rate, org.rate, "rate", key="level")
                ctx.step()
        env.run(until=env.now + 4)
        ctx.eq(told[0], told[1], "callbacks", "events")
        seen.append((env.now, org.level))
        mon_q = mon._quantities
        ctx.eq(mon_q[0], (1.0, init), "first", "record")
        ctx.check(all(a[0] <= b[0] for a, b in zip(mon_q, mon_q[1:])), "time order", "record")
        # the level is straight between recordings: every observation lies on the recorded line
        for t, v in seen:
            before = [x for x in mon_q if x[0] <= t][-1]
            after = [x for x in mon_q if x[0] >= t]
            if after:
                a = after[0]
                line = before[1] if a[0] == before[0] else before[1] + (a[1] - before[1]) * (t - before[0]) / (a[0] - before[0])
            else:
                line = before[1] + mon.rate * (t - before[0])
            ctx.close(line, v, f"recorded {mon_q} at {t}", tol=1e-9, key="record")
        ctx.state(trail)


class Job(UP.Task):
    def task(self, *, actor):
        s = self.stage.s
        for op, arg in s.script[actor.name]:
            if op == "wait":
                yield UP.Wait(arg)
            elif op == "put":
                yield UP.All(*[UP.Put(b, arg) for b in s.boxes])
            else:
                gets = [UP.Get(b, **arg) for b in s.boxes]
                limit = UP.Wait(1.5)
                yield UP.Any(UP.All(*gets), limit)
                if limit.is_complete() and not all(g.is_complete() for g in gets):
                    for g in gets:
                        if not g.is_complete():
                            g.cancel()
                s.log.append((self.env.now, actor.name, [g.get_value() if g.is_complete() else None for g in gets]))


class S:
    pass


class Person(UP.Actor):
    pass


def in_tasks(ctx, depth):
    """Tasks use both: every operation of one actor is done on both classes, and an interrupt may cut it."""
    kind = ctx.choose(("store", "filter"), "class")
    mon_cls, org_cls = STORES[kind]
    get = ("get", {"filter": Odd(1)} if kind == "filter" else {})
    menu = [("wait", 1.0), ("put", 1), ("put", 2), get]
    with UP.EnvironmentContext() as env:
        s = S()
        UP.add_stage_variable("s", s)
        mon, org = mon_cls(env, capacity=2), org_cls(env, capacity=2)
        org.items = Watched(org.items)
        series = [(0.0, 0)]
        org.items.tell = lambda: series.append((env.now, len(org.items)))
        s.boxes, s.log = [mon, org], []
        s.script = {n: [ctx.choose(menu) for _ in range(depth)] for n in "pq"}
        ctx.note(s.script)
        procs = [Job().run(actor=Person(name=n)) for n in "pq"]
        cut = ctx.choose((None, 0.5, 1.5))
        if cut:
            env.run(until=cut)
            if procs[0].is_alive:
                procs[0].interrupt()
        env.run(until=20)
        for _, who, got in s.log:
            ctx.eq(got[0], got[1], "values", "events")
        ctx.eq(mon.items, list(org.items), "items", "items")
        ctx.eq(squeeze(mon._quantities), squeeze(series), "recorded", "record")
        ctx.state((s.script, cut))


def harnesses(tier):
    d = 4 if tier == "quick" else 5
    return [Harness("store", stores, kind="store", depth=d - 1), Harness("filter", stores, kind="filter", depth=d - 1), Harness("sorted", stores, kind="sorted", depth=d - 1),
            *[Harness(k + " longer", stores, kind=k, depth=5, items=(1, 2), gets=range(min(2, len(GETS[k]))), afters=("settle", "none"), funcs=("len",)) for k in STORES],
            Harness("container", containers, depth=d - 1), Harness("reserve", reserves, depth=d - 1), Harness("continuous", continuous, depth=d), Harness("tasks", in_tasks, depth=d - 1)]
