"""C29: the stepped motion manager tells every sensor of every mover within one step.

Two movers, a fixed and a moving sensor and a plain watched object under the
real stepped manager; a script starts, stops, restarts, hides, shows and adds
them between steps.  At each step every sensor must know exactly who is watched,
visible and within reach, as computed from the exact paths.
"""
import math

import upstage_des.api as UP
from upstage_des.geography import Spherical, WGS84
from upstage_des.motion import SteppedMotionManager

from mc.engine import Harness
from mc.sim import drive

BOUNDS = {"quick": "all scripts of 3 of 13 actions at 3 instants between steps x 5 x 3 routes of the two movers x 3 beginnings; reactions: 6 reactions of a sensor; idle: 2 flights with pauses before and after the automatic end; "
                   "earth: 2 models; exact: 4 places x 4 ranges about the edge; particular: 2 rates x 2 beginnings x 5 routes x 2 of 6 actions",
          "thorough": "two step sizes; scripts of 4 actions after one of the beginnings"}
ORACLE = "positions by straight-line interpolation, all pairs at every step"


class Mover(UP.Actor):
    spot = UP.CartesianLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    reach = UP.State[float](default=2.3)
    speed = UP.State[float](default=1.0)
    notes = UP.State[list](default_factory=list)

    def entity_entered_range(self, entity):
        self.notes.append((self.env.now, "in", entity.name))

    def entity_exited_range(self, entity):
        self.notes.append((self.env.now, "out", entity.name))


class Post:
    """A sensor that is no actor."""
    react = None

    def __init__(self, env, name, where, radius):
        self.env, self.name, self.location, self.radius, self.notes = env, name, UP.CartesianLocation(*where), radius, []

    def entity_entered_range(self, entity):
        self.notes.append((self.env.now, "in", entity.name))
        if self.react:
            self.react("in", entity)

    def entity_exited_range(self, entity):
        self.notes.append((self.env.now, "out", entity.name))
        if self.react:
            self.react("out", entity)


class Near(Post):
    """A sensor that judges for itself: only what is to the right of it."""

    def detection_checker(self, where):
        return where.x > self.location.x + 0.1


class Thing:
    """A watched object without states."""

    def __init__(self, name, where):
        self.name, self.location = name, UP.CartesianLocation(*where)


class Fly(UP.Task):
    def task(self, *, actor):
        way = [UP.CartesianLocation(*w) for w in self.way]
        pts = [actor.spot] + way
        dist = sum(b - a for a, b in zip(pts, pts[1:]))
        actor.activate_location_state(state="spot", speed=actor.speed, waypoints=way, task=self)
        yield UP.Wait(dist / actor.speed)
        actor.deactivate_all_states(task=self)


class Path:
    """Where a mover is, by the flights it has made."""

    def __init__(self, pos):
        self.flights, self.pos = [], pos

    def start(self, t, way, speed):
        self.flights.append([t, [self.at(t)] + list(way), speed, None])

    def stop(self, t):
        if self.flying(t):
            self.flights[-1][3] = t

    def end(self):
        t, way, speed, stop = self.flights[-1]
        full = t + sum(math.dist(a, b) for a, b in zip(way, way[1:])) / speed
        return full if stop is None else min(stop, full)

    def flying(self, t):
        return bool(self.flights) and self.flights[-1][0] <= t < self.end()

    def at(self, t):
        if not self.flights:
            return self.pos
        begun, way, speed, _ = self.flights[-1]
        left = (min(t, self.end()) - begun) * speed
        for a, b in zip(way, way[1:]):
            n = math.dist(a, b)
            if n and left <= n:
                return tuple(x + left / n * (y - x) for x, y in zip(a, b))
            left -= n
        return way[-1]


STARTS = {"a": (-4.03, 0.0, 0.0), "b": (3.0, 1.07, 0.0)}
ROUTES_A = [[(4.0, 0.1, 0.0)], [(1.0, 0.2, 0.0), (-4.0, 1.0, 0.0)], [(-4.0, 5.0, 0.3), (4.0, 5.0, 0.0)], [(-1.0, 0.05, 0.0)], [(0.0, 0.3, 0.1), (0.0, 0.3, 0.1), (5.0, 3.0, 0.0)]]
ROUTES_B = [[(-5.0, 1.13, 0.0)], [(3.0, -3.0, 0.0), (0.1, 0.0, 0.0)], [(0.0, 6.0, 1.0)]]
ACTS = ["nothing", "stop a", "hide a", "show a", "fly a", "stop b", "hide b", "fly b", "add post", "add b as sensor", "watch a", "watch thing", "move thing"]
INSTANTS = [0.33, 2.81, 5.59, 7.93]


class World:
    """The real manager and its reference side by side."""

    def __init__(self, env, ctx, dt, early):
        self.env, self.ctx, self.dt = env, ctx, dt
        self.mgr = SteppedMotionManager(timestep=dt, debug=False)
        UP.add_stage_variable("motion_manager", self.mgr)
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("altitude_units", "m")
        self.sensors, self.movers, self.paths, self.seen, self.procs, self.added = {}, {}, {}, {}, {}, {}
        self.things = {}
        self.view, self.want = {}, {}
        self.step0 = None
        if early:
            self.mgr.run()
            self.step0 = 0.0

    def post(self, name, where, radius, cls=Post):
        p = cls(self.env, name, where, radius)
        self.mgr.add_sensor(p)
        self.sensors[name] = (p, lambda t: where, radius)
        self.view[name], self.want[name] = [], []
        return p

    def mover(self, name, speed):
        m = self.movers[name] = Mover(name=name, spot=UP.CartesianLocation(*STARTS[name]), speed=speed)
        self.paths[name], self.seen[name] = Path(STARTS[name]), True
        return m

    def as_sensor(self, name):
        if name in self.sensors:
            return
        m = self.movers[name]
        self.mgr.add_sensor(m, radius_attr_name="reach", location_attr_name="spot")
        self.sensors[name] = (m, self.paths[name].at, 2.3)
        self.view[name], self.want[name] = [], []

    def watch(self, name):
        self.mgr.add_detectable(self.movers[name], "spot")
        self.added[name] = True

    def thing(self):
        if "thing" not in self.things:
            t = self.things["thing"] = Thing("thing", (1.0, 0.5, 0.0))
            self.mgr.add_detectable(t)

    def fly(self, name, way):
        if self.paths[name].flying(self.env.now):
            return
        t = Fly()
        t.way = way
        self.procs[name] = t.run(actor=self.movers[name])
        while self.env.peek() <= self.env.now:
            self.env.step()
            self.ctx.step()
        self.paths[name].start(self.env.now, way, self.movers[name].speed)
        if self.step0 is None:
            self.step0 = self.env.now

    def stop(self, name):
        if name in self.procs and self.procs[name].is_alive:
            self.procs[name].interrupt()
        while self.env.peek() <= self.env.now:
            self.env.step()
            self.ctx.step()
        self.paths[name].stop(self.env.now)

    def hide(self, name):
        self.movers[name].seen = False
        self.seen[name] = False
        for s in self.view:
            if name in self.view[s]:
                self.view[s].remove(name)
                self.want[s].append((self.env.now, "out", name))

    def show(self, name):
        self.movers[name].seen = True
        self.seen[name] = True
        self.look(self.env.now, [name])

    def watched(self, name, t):
        if name in self.things:
            return True
        return self.seen[name] and (self.added.get(name, False) or self.paths[name].flying(t))

    def look(self, t, names=None):
        """One step of the reference."""
        for s, (obj, where, radius) in self.sensors.items():
            for d in names or list(self.movers) + list(self.things):
                if d == s or not self.watched(d, t):
                    continue
                pos = (self.things[d].location.x, self.things[d].location.y, self.things[d].location.z) if d in self.things else self.paths[d].at(t)
                near = pos[0] > where(t)[0] + 0.1 if isinstance(obj, Near) else math.dist(pos, where(t)) <= radius
                if near and d not in self.view[s]:
                    self.view[s].append(d)
                    self.want[s].append((t, "in", d))
                elif not near and d in self.view[s]:
                    self.view[s].remove(d)
                    self.want[s].append((t, "out", d))

    def until(self, t):
        """Real and reference steps up to t; compared after every step."""
        while self.step0 is not None and self.nth() < t:
            self.go(self.nth())
            while self.env.peek() <= self.env.now:
                self.env.step()
                self.ctx.step()
            self.look(self.env.now)
            self.compare()
        self.go(t)

    def nth(self):
        return self.step0 + self.dt * (math.floor((self.env.now - self.step0) / self.dt + 1e-9) + 1)

    def go(self, t):
        while self.env.peek() < t:
            self.env.step()
            self.ctx.step()
        if t > self.env.now:
            self.env.run(until=t)

    def compare(self):
        for s, (obj, *_) in self.sensors.items():
            got = sorted(obj.notes)
            self.ctx.check(sorted(self.want[s]) == got, lambda: f"at {self.env.now} sensor {s} was told {got}, expected {sorted(self.want[s])}", "told")


def scripts(ctx, n, steps, firsts):
    ra, rb = ctx.choose(ROUTES_A, "route a"), ctx.choose(ROUTES_B, "route b")
    dt = ctx.choose(steps, "step")
    early = ctx.choose(firsts, "first")
    acts = [ctx.choose(ACTS, f"at {INSTANTS[i]}") for i in range(n)]
    with UP.EnvironmentContext() as env:
        w = World(env, ctx, dt, early == "run")
        env.timeout(20)  # something left to happen: the manager does not end by itself
        w.post("P", (0.0, 0.0, 0.0), 1.53)
        w.post("N", (-1.0, 0.0, 0.0), 0.0, cls=Near)
        w.mover("a", 1.01)
        w.mover("b", 1.51)
        w.as_sensor("a")
        if early == "watch":
            w.watch("b")
        env.run(until=0.0625)
        w.fly("a", ra)
        w.fly("b", rb)
        for t, act in zip(INSTANTS, acts):
            w.until(t)
            verb, _, rest = act.partition(" ")
            if act == "add post":
                if "Q" not in w.sensors:
                    w.post("Q", (1.5, 1.0, 0.0), 2.77)
            elif act == "add b as sensor":
                w.as_sensor("b")
            elif act == "watch thing":
                w.thing()
            elif act == "move thing":
                if "thing" in w.things:
                    w.things["thing"].location = UP.CartesianLocation(-9, 0, 0)
            elif verb == "fly":
                w.fly(rest, {"a": [(0.4, -0.3, 0.0), (9.0, 9.0, 0.0)], "b": [(-3.0, 0.0, 0.0)]}[rest])
            elif verb != "nothing":
                getattr(w, verb)(rest)
            w.compare()
        w.until(12.03)
        w.compare()
        ctx.state((ra, rb, acts, w.want["P"]))


def reactions(ctx):
    """What a sensor does when told must not upset the rest."""
    ra = ctx.choose(ROUTES_A, "route a")
    on = ctx.choose(("in", "out"), "on")
    what = ctx.choose(["hide", "hide and show", "stop", "add post", "watch other", "hide other"], "reaction")
    with UP.EnvironmentContext() as env:
        w = World(env, ctx, 0.5, True)
        p = w.post("P", (0.0, 0.0, 0.0), 1.53)
        w.post("Q", (0.1, 0.0, 0.0), 1.53)
        w.mover("a", 1.01)
        w.mover("b", 1.51)
        env.run(until=0.0625)
        w.fly("a", ra)
        w.fly("b", ROUTES_B[0])
        a, b = w.movers["a"], w.movers["b"]
        done = []

        def react(kind, entity):
            if kind != on or entity is not a or done:
                return
            done.append(env.now)
            if what in ("hide", "hide and show"):
                a.seen = False
            if what == "hide and show":
                a.seen = True
            if what == "stop":
                w.procs["a"].interrupt()
            if what == "add post":
                q = w.post("R", (0.0, 0.5, 0.0), 2.0)
                w.late = q
            if what == "watch other":
                w.watch("b")
            if what == "hide other":
                b.seen = False

        p.react = react
        t = 0.0625
        while t < 14:
            t += 0.5
            w.go(t - 0.03)
        w.go(14.0)
        # told in turns, in view only while visible, and the rest of the world as before
        for s, (obj, where, radius) in w.sensors.items():
            for name in ("a", "b"):
                kinds = [k for _, k, who in obj.notes if who == name]
                ctx.check(all(k == ("in", "out")[i % 2] for i, k in enumerate(kinds)), lambda: f"{s}, {name}: not in turns: {obj.notes}", "turns")
                if not w.movers[name].seen:
                    ctx.check(len(kinds) % 2 == 0, lambda: f"{s} still sees {name}: {obj.notes}", "told")
        plain = reference(ra, 0.5)
        first = [x for x in plain["P"] if x[2] == "a" and x[1] == on]
        ctx.eq(done, [first[0][0]] if first else [], "the reaction", "told")
        upto = done[0] if done else 99
        for s in ("P", "Q"):
            ctx.eq(sorted(x for x in w.sensors[s][0].notes if x[0] < upto), sorted(x for x in plain[s] if x[0] < upto), f"{s} before the reaction", "told")
            if what in ("stop", "add post", "watch other", "hide"):
                ctx.eq([x for x in w.sensors[s][0].notes if x[2] == "b" and x[0] < 5.3], [x for x in plain[s] if x[2] == "b" and x[0] < 5.3], f"{s} of b", "told")
        if done and what == "hide":
            for s in ("P", "Q"):
                ctx.check(not [x for x in w.sensors[s][0].notes if x[2] == "a" and x[0] > upto], lambda: f"{s} is told of a hidden mover: {w.sensors[s][0].notes}", "told")
        if done and what == "add post":
            told = [x for x in w.late.notes if x[2] == "a"]
            ctx.check(bool(told) == reference_near(ra, upto, w), lambda: f"the late post is told {told}", "told")
        ctx.state((ra, on, what, p.notes))


def paths(ra):
    out = {}
    for name, route, speed in (("a", ra, 1.01), ("b", ROUTES_B[0], 1.51)):
        out[name] = Path(STARTS[name])
        out[name].start(0.0625, route, speed)
    return out


def reference(ra, dt):
    """The undisturbed run."""
    ps, logs = paths(ra), {"P": [], "Q": []}
    for s, where in (("P", (0.0, 0.0, 0.0)), ("Q", (0.1, 0.0, 0.0))):
        view = set()
        for k in range(1, 28):
            t = k * dt
            for name, path in ps.items():
                if path.flying(t):
                    near = math.dist(path.at(t), where) <= 1.53
                    if near != (name in view):
                        logs[s].append((t, "in" if near else "out", name))
                        (view.add if near else view.discard)(name)
    return logs


def reference_near(ra, since, w):
    path = paths(ra)["a"]
    return any(path.flying(k * 0.5) and math.dist(path.at(k * 0.5), (0.0, 0.5, 0.0)) <= 2.0 for k in range(1, 28) if k * 0.5 > since)


def exact(ctx):
    """Things that are exactly at, just inside or just outside the edge of the range, at rest or moving along it."""
    place = ctx.choose(((3.0, 4.0, 0.0), (0.0, 3.0, 4.0), (-5.0, 0.0, 0.0), (0.0, 0.0, 0.0)), "place")
    reach = ctx.choose((5.0, 0.0, 4.999, 5.001), "reach")
    where = ctx.choose(((0.0, 0.0, 0.0), (1.0, 2.0, 0.5)), "sensor")
    moves = ctx.choose(("", "along", "through"), "moves")
    step = 0.5
    with UP.EnvironmentContext() as env:
        for k, v in (("distance_units", "km"), ("altitude_units", "km")):
            UP.add_stage_variable(k, v)
        mgr = SteppedMotionManager(step)
        UP.add_stage_variable("motion_manager", mgr)
        env.timeout(30)
        p = Post(env, "P", where, reach)
        mgr.add_sensor(p)
        start = tuple(a + b for a, b in zip(place, where))
        path = Path(start)
        if moves:
            # whole numbers and halves: every position at a step is exact
            goal = {"along": tuple(b - a for a, b in zip(place, where)), "through": tuple(b + 2 * a for a, b in zip(place, where))}[moves]
            dist = math.dist(start, goal)
            if not dist:
                return
            a = Mover(name="a", spot=UP.CartesianLocation(*start), speed=dist / 4)
            t = Fly()
            t.way = [goal]
            t.run(actor=a)
            path.start(0.0, [goal], dist / 4)
        else:
            mgr.add_detectable(Thing("a", start))
            mgr.run()
        sure, told = [], []
        for k in range(0, 10):
            until = k * step + 0.01
            env.run(until=until)
            ctx.step()
            if moves and k >= 8:
                break
            told.append(sum(1 if e[1] == "in" else -1 for e in p.notes))
            gap = math.dist(path.at(k * step) if moves else start, where) - reach
            near = gap <= 0
            if k and (not moves or abs(gap) > 1e-9):
                sure.append((k, near))
        for k, near in sure:
            ctx.eq(told[k], int(near), f"in view at step {k} (reach {reach}): {p.notes}", "told")
        ctx.state((place, reach, where, moves))


def particular(ctx):
    """One mover is looked at more often than the rest."""
    how = ctx.choose(("run_particular", "new_rate"), "asked by")
    rate = ctx.choose((0.5, 0.375), "rate")
    begin = ctx.choose((0.0625, 0.25), "from")
    ra = ctx.choose(ROUTES_A, "route a")
    acts = [ctx.choose(("nothing", "stop a", "hide a", "show a", "fly a", "add post"), f"at {t}") for t in INSTANTS[:2]]
    with UP.EnvironmentContext() as env:
        w = World(env, ctx, 4.0, True)
        env.timeout(20)
        w.post("P", (0.0, 0.0, 0.0), 1.53)
        w.mover("a", 1.01)
        w.mover("b", 1.51)
        env.run(until=0.0625)
        w.fly("a", ra)
        w.fly("b", ROUTES_B[0])
        if begin > env.now:
            env.run(until=begin)
        if how == "new_rate":
            w.mgr.add_detectable(w.movers["a"], "spot", new_rate=rate)
            w.added["a"] = True
        else:
            w.mgr.run_particular(rate, w.movers["a"])
        often = [begin + k * rate for k in range(1, int(11 / rate))]
        todo = dict(zip(INSTANTS, acts))
        for t in sorted({*often, *todo, 4.0, 8.0}):
            w.go(t)
            if t in todo:
                verb, _, rest = todo[t].partition(" ")
                if todo[t] == "add post":
                    w.post("Q", (1.5, 1.0, 0.0), 2.77)
                elif verb == "fly":
                    w.fly(rest, [(0.4, -0.3, 0.0), (9.0, 9.0, 0.0)])
                elif verb != "nothing":
                    getattr(w, verb)(rest)
                continue
            while env.peek() <= env.now:
                env.step()
                ctx.step()
            w.look(t, None if t in (4.0, 8.0) else ["a"])
            for s, (obj, *_) in w.sensors.items():
                got = sorted(obj.notes)
                ctx.check(sorted(w.want[s]) == got, lambda: f"at {env.now} sensor {s} was told {got}, expected {sorted(w.want[s])}", "told" if how == "run_particular" else "new_rate")
        ctx.state((how, rate, begin, ra, acts, w.want["P"]))


def idle(ctx):
    """Runs without an end: the manager stops when nothing is left to happen, and starts again with the next flight."""
    empty = ctx.choose((1, 3), "empty steps")
    after = ctx.choose((None, 0.3, 0.55), "next flight before the idle end, after")
    gap = ctx.choose((0.0, 0.7, 5.3), "pause between runs") if after is None else 0.0
    first, second = ctx.choose(ROUTES_A, "first"), ctx.choose(ROUTES_A, "second")
    early = ctx.choose(("", "before", "after", "twice"), "run")
    with UP.EnvironmentContext() as env:
        mgr = SteppedMotionManager(timestep=0.25, max_empty_events=empty)
        UP.add_stage_variable("motion_manager", mgr)
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("altitude_units", "m")
        if early in ("before", "twice"):
            mgr.run()
        p = Post(env, "P", (0.0, 0.0, 0.0), 1.53)
        mgr.add_sensor(p)
        a = Mover(name="a", spot=UP.CartesianLocation(*STARTS["a"]), speed=1.01)
        path = Path(STARTS["a"])
        mid = None
        for n, way in enumerate((first, second)):
            if n and gap and mid is None:
                env.run(until=env.now + gap)
            t0, had = env.now, len(p.notes)
            t = Fly()
            t.way = way
            t.run(actor=a)
            path.start(t0, way, 1.01)
            if early in ("after", "twice"):
                mgr.run()
            mid = after if n == 0 else None
            drive(ctx, env, 1e3 if mid is None else path.end() + mid)
            end = path.end()
            ctx.check(env.now <= end + 0.25 * (empty + 2), lambda: f"flight over at {end}, run over at {env.now}", "endless")
            inside = []
            x = 1e-3
            while x < end - t0:
                inside.append((t0 + x, math.dist(path.at(t0 + x), (0.0, 0.0, 0.0)) <= 1.53))
                x += 1e-2
            # whoever is inside (outside) for more than a step is told by then
            known = {}
            state = (len(p.notes[:had]) % 2 == 1)
            for i, (t, isin) in enumerate(inside):
                told = len([1 for e in p.notes if e[0] <= t]) % 2 == 1
                if i >= 26 and all(y[1] == isin for y in inside[i - 26:i + 1]):
                    ctx.check(told == isin, lambda: f"at {t}: inside {isin}, told {p.notes}", "told")
        ctx.state((first, second, p.notes))


class Ship(UP.Actor):
    spot = UP.GeodeticLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    speed = UP.State[float](default=40.0)


def earth(ctx):
    """Straight-line distance on the earth, altitude included."""
    model = ctx.choose((Spherical, WGS84), "model")
    way = ctx.choose(([(10, 21)], [(10.3, 20.2), (9, 20)], [(10.0, 20.0), (10.5, 20.5)]), "route")
    alt = ctx.choose((0.0, 9.0), "altitude (km)")
    reach = ctx.choose((12.0, 30.0), "reach")
    start = (10, 19.6)
    RE, F_ = 6378.137, 0.0 if model is Spherical else 1 / 298.257223563

    def xyz(p):
        la, lo, h = math.radians(p[0]), math.radians(p[1]), p[2]
        e2 = F_ * (2 - F_)
        n = RE / math.sqrt(1 - e2 * math.sin(la) ** 2)
        return ((n + h) * math.cos(la) * math.cos(lo), (n + h) * math.cos(la) * math.sin(lo), (n * (1 - e2) + h) * math.sin(la))

    with UP.EnvironmentContext() as env:
        for k, v in (("stage_model", model), ("distance_units", "km"), ("altitude_units", "m")):
            UP.add_stage_variable(k, v)
        mgr = SteppedMotionManager(timestep=0.125)
        UP.add_stage_variable("motion_manager", mgr)
        p = Post.__new__(Post)
        p.env, p.name, p.location, p.radius, p.notes = env, "P", UP.GeodeticLocation(10, 20, 300.0), reach, []
        mgr.add_sensor(p)
        s = Ship(name="s", spot=UP.GeodeticLocation(*start, alt * 1000))

        class Go(UP.Task):
            def task(self, *, actor):
                pts = [UP.GeodeticLocation(*x, alt * 1000) for x in way]
                all_ = [actor.spot] + pts
                actor.activate_location_state(state="spot", speed=actor.speed, waypoints=pts, task=self)
                yield UP.Wait(sum(b - a for a, b in zip(all_, all_[1:])) / actor.speed)
                actor.deactivate_all_states(task=self)

        proc = Go().run(actor=s)
        view, want = False, []
        while proc.is_alive and env.now < 20:
            env.run(until=env.now + 0.125)
            while env.peek() <= env.now:
                env.step()
                ctx.step()
            if not proc.is_alive:
                break
            loc = s.spot
            near = math.dist(xyz((loc.lat, loc.lon, loc.alt / 1000)), xyz((10, 20, 0.3))) <= reach
            if near != view:
                view = near
                want.append((env.now, "in" if near else "out", "s"))
        ctx.eq(p.notes, want, "told", "told")
        ctx.state(want)


def harnesses(tier):
    t = tier == "thorough"
    firsts = ("", "run", "watch")
    more = [Harness("long scripts", scripts, n=4, steps=(0.5,), firsts=("watch",))] if t else []
    return [Harness("scripts", scripts, n=3, steps=(0.5, 0.125) if t else (0.5,), firsts=firsts), Harness("reactions", reactions), Harness("idle", idle), Harness("earth", earth), Harness("exact", exact), Harness("particular", particular)] + more
