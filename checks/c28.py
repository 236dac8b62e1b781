"""C28: sensors are told exactly when a mover enters and leaves their range.

Real actors fly routes as tasks under the analytical motion manager while a
script stops, re-routes, hides, shows or rehearses them and adds sensors; every
notification - who, what, when, and where the mover then is - is compared with
closed-form crossing times of the exact path.
"""
import math

import upstage_des.api as UP
from upstage_des.geography import Spherical
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.motion.geodetic_model import analytical_intersection

from mc.engine import Harness
from mc.sim import drive

BOUNDS = {"quick": "routes: 3 starts x 6 x 6 waypoints (repeated points, passing in and out several times) x 15 pairs of sensors x 2 speeds x 13 scripts at 3 times (stop, stop and go elsewhere, hide, "
                   "hide and show, hide and fly again, hidden from the start, late sensor, rehearsal, ...); fleet: 6 movers at once, two of them stopped, hidden or sent elsewhere; reactions: 8 reactions of a sensor to an entry or exit; boundary: waypoints exactly on and touching the boundary; "
                   "a second mover throughout; great circles: 6 routes x 5 sensors",
          "thorough": "9 waypoints, three legs, 5 times, pairs of scripts"}
ORACLE = "quadratic crossing times of each leg, joined over legs; set of sensors in view"

STARTS = [(0.0, 0.0, 0.0), (-6.0, 1.0, 0.0), (1.0, 3.0, 0.5)]
WAYS = [(6.0, 0.0, 0.0), (0.0, 0.0, 0.0), (-5.0, 4.0, 1.0), (2.0, -3.0, 0.0), (0.3, 0.4, 0.0), (6.0, 6.0, -2.0)]
MORE = [(-6.0, -6.0, 0.0), (1.0, 3.0, 0.5), (0.0, 7.0, 3.0)]
POOL = [((0.0, 0.0, 0.0), 2.3), ((3.0, 0.2, 0.0), 1.1), ((-3.0, 2.0, 0.4), 2.7), ((1.0, 1.0, 0.0), 9.7), ((4.0, -1.0, 0.0), 0.45), ((2.0, 3.0, 0.0), 3.1)]
TIMES = [1.37, 4.61, 9.23]
TIMES5 = [0.53, 1.37, 3.19, 4.61, 9.23]
SCRIPTS = ["fly", "stop", "reroute", "rethink", "hide", "hide-show", "hide-stop-show-fly", "hidden-show", "hidden-show-fly", "late sensor", "sensor after stop", "rehearse", "stop-hide"]
ENDLESS = 1e9


class Mover(UP.Actor):
    spot = UP.CartesianLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    speed = UP.State[float]()


class Plain(UP.Actor):
    spot = UP.CartesianLocationChangingState()
    speed = UP.State[float]()


class Fly(UP.Task):
    def task(self, *, actor):
        way = list(self.way)
        pts = [actor.spot] + way
        dist = sum(b - a for a, b in zip(pts, pts[1:]))
        actor.activate_location_state(state="spot", speed=actor.speed, waypoints=way, task=self)
        yield UP.Wait(dist / actor.speed)
        actor.deactivate_all_states(task=self)

    def on_interrupt(self, *, actor, cause):
        return self.INTERRUPT.END


def xyz(p):
    """Coordinates (heights are in the units of distance here)."""
    return (p.x, p.y, p.z)


class Eye:
    """A sensor that is no actor, with its own attribute names."""

    def __init__(self, env, name, where, radius):
        self.env, self.name, self.at, self.reach, self.log, self.react = env, name, UP.CartesianLocation(*where), radius, [], None
        self.where = where

    def entity_entered_range(self, entity):
        self.log.append((self.env.now, "in", entity.name, xyz(entity.spot)))
        if self.react:
            self.react(self, "in", entity)

    def entity_exited_range(self, entity):
        self.log.append((self.env.now, "out", entity.name, xyz(entity.spot)))
        if self.react:
            self.react(self, "out", entity)


def inside(route, speed, where, radius):
    """The stretches of time, from the start of the route, spent within the radius; joined over the waypoints."""
    out, t0 = [], 0.0
    for p, q in zip(route, route[1:]):
        length = math.dist(p, q)
        total = length / speed
        s = [a - c for a, c in zip(p, where)]
        if length == 0:
            if math.hypot(*s) <= radius and not (out and out[-1][1] == t0):
                out.append([t0, t0])
            continue
        d = [(b - a) / length for a, b in zip(p, q)]
        b, c = sum(x * y for x, y in zip(s, d)), sum(x * x for x in s) - radius ** 2
        disc = b * b - c
        if disc > 0:
            lo, hi = (-b - math.sqrt(disc)) / speed, (-b + math.sqrt(disc)) / speed
            if hi > 0 and lo < total:
                lo, hi = max(lo, 0.0), min(hi, total)
                if out and abs(out[-1][1] - (t0 + lo)) < 1e-9:
                    out[-1][1] = t0 + hi
                else:
                    out.append([t0 + lo, t0 + hi])
        t0 += total
    return out, t0


class Ref:
    """What the sensors must be told about one mover."""

    def __init__(self, pos, speed, detectable=True):
        self.pos, self.speed, self.seen = pos, speed, detectable
        self.sensors, self.view, self.due, self.log = [], set(), [], {}
        self.route = None

    def tell(self, t, kind, eye):
        if kind == "in":
            if eye in self.view:
                return
            self.view.add(eye)
        else:
            if eye not in self.view:
                return
            self.view.discard(eye)
        self.log.setdefault(eye, []).append((t, kind))

    def go_to(self, t):
        """Everything due before t."""
        for when, kind, eye in sorted(x for x in self.due if x[0] < t):
            self.tell(when, kind, eye)
        self.due = [x for x in self.due if x[0] >= t]
        if self.route is not None and self.begun + self.total <= t:
            self.pos = self.route[-1]
            self.route, self.due = None, []

    def where(self, t):
        if self.route is None:
            return self.pos
        left = (t - self.begun) * self.speed
        for p, q in zip(self.route, self.route[1:]):
            n = math.dist(p, q)
            if left <= n and n:
                return tuple(a + left / n * (b - a) for a, b in zip(p, q))
            left -= n
        return self.route[-1]

    def plan(self, t, eye):
        name, where, radius = eye
        stretches = inside(self.route, self.speed, where, radius)[0]
        if eye in self.view and t == self.begun and math.dist(self.route[0], where) > radius - 1e-6 and not any(lo < 1e-6 < hi for lo, hi in stretches):
            self.tell(t, "out", eye)  # it stopped on the boundary, and now leaves
        for lo, hi in stretches:
            lo, hi = self.begun + lo, self.begun + hi
            last = hi >= self.begun + self.total - 1e-9
            if hi < t and not last:
                continue
            if lo <= t:
                self.tell(t, "in", eye)
            else:
                self.due.append((lo, "in", eye))
            if not last:
                self.due.append((hi, "out", eye))

    def start(self, t, way):
        self.go_to(t)
        self.route = [self.where(t)] + list(way)
        self.begun = t
        self.total = inside(self.route, self.speed, (0, 0, 0), 1)[1]
        self.tracked = self.seen
        if self.seen:
            for eye in self.sensors:
                self.plan(t, eye)

    def stop(self, t):
        self.go_to(t)
        self.pos = self.where(t)
        self.route, self.due = None, []

    def hide(self, t):
        self.go_to(t)
        self.seen = self.tracked = False
        self.due = []
        for eye in sorted(self.view):
            self.tell(t, "out", eye)

    def show(self, t):
        self.go_to(t)
        self.seen = True

    def add(self, t, eye):
        self.go_to(t)
        self.sensors.append(eye)
        if self.route is not None and self.tracked:
            self.plan(t, eye)


class World:
    def __init__(self, env, ctx):
        self.env, self.ctx = env, ctx
        self.mgr = UP.SensorMotionManager(cartesian_linear_intersection, debug=ctx.choose((False, True), "debug") if ctx.tier == "thorough" else True)
        UP.add_stage_variable("motion_manager", self.mgr)
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("altitude_units", "km")
        self.eyes, self.movers, self.refs, self.procs = {}, {}, {}, {}

    def eye(self, name, where, radius):
        e = self.eyes[name] = Eye(self.env, name, where, radius)
        self.mgr.add_sensor(e, location_attr_name="at", radius_attr_name="reach")
        for r in self.refs.values():
            r.add(self.env.now, (name, where, radius))
        return e

    def mover(self, name, pos, speed, seen=True, cls=Mover):
        kw = {} if cls is Plain else {"seen": seen}
        m = self.movers[name] = cls(name=name, spot=UP.CartesianLocation(*pos), speed=speed, **kw)
        r = self.refs[name] = Ref(pos, speed, seen and cls is Mover)
        for e in self.eyes.values():
            r.add(self.env.now, (e.name, e.where, e.reach))
        return m

    def fly(self, name, way):
        t = Fly()
        t.way = [UP.CartesianLocation(*w) for w in way]
        self.procs[name] = t.run(actor=self.movers[name])
        self.settle()
        self.refs[name].start(self.env.now, way)

    def stop(self, name):
        if self.procs[name].is_alive:
            self.procs[name].interrupt()
        self.settle()
        self.refs[name].stop(self.env.now)

    def hide(self, name):
        self.movers[name].seen = False
        self.refs[name].hide(self.env.now)

    def show(self, name):
        self.movers[name].seen = True
        self.refs[name].show(self.env.now)

    def settle(self):
        """All events of this instant."""
        while self.env.peek() <= self.env.now:
            self.env.step()
            self.ctx.step()

    def until(self, t):
        while self.env.peek() < t:
            self.env.step()
            self.ctx.step()
        self.env.run(until=t)

    def compare(self, tie=None):
        """tie: the instant of a reaction; another sensor's news of that very instant may or may not have been told before it."""
        for name, ref in self.refs.items():
            ref.go_to(ENDLESS)
        for e in self.eyes.values():
            for name, ref in self.refs.items():
                got = [(t, kind) for t, kind, who, _ in e.log if who == name]
                want = ref.log.get((e.name, e.where, e.reach), [])
                got, want = settled(got), settled(want)
                if tie is not None and tie[1] != e.name and name == "m" and any(abs(t - tie[0]) < 1e-6 for t, _ in want + got):
                    self.ctx.check([k for _, k in got] == (["in", "out"] * len(got))[:len(got)], lambda: f"not in turns: {got}", "turns")
                    self.ctx.check(all(abs(t - tie[0]) < 1e-6 or any(abs(t - x) < 1e-6 and k == y for x, y in want) for t, k in got),
                                   lambda: f"sensor {e.name} was told of {name}: {got}, expected {want}", "told")
                    continue
                self.ctx.check([k for _, k in got] == [k for _, k in want] and all(abs(a[0] - b[0]) < 1e-6 for a, b in zip(got, want)),
                               lambda: f"sensor {e.name} was told of {name}: {got}, expected {want}", "told")
        for name, m in self.movers.items():
            want = self.refs[name].pos
            self.ctx.close(math.dist(xyz(m.spot), want), 0.0, f"{name} ends at", tol=1e-6, key="place")


def settled(log):
    """Without the visits and absences that take no time (a mover that stops or turns on the boundary)."""
    out = []
    for t, kind in log:
        if out and out[-1][1] != kind and abs(out[-1][0] - t) < 1e-6:
            out.pop()
        else:
            out.append((t, kind))
    return out


def boundary_distance(ctx, e):
    for t, kind, who, pos in e.log:
        ctx.check(math.dist(pos, e.where) <= e.reach + 1e-6, lambda: f"{kind} at {t}, {math.dist(pos, e.where)} from the sensor of radius {e.reach}", "place")


def routes(ctx, ways, legs, times, double):
    start = ctx.choose(STARTS, "start")
    way = [ctx.choose(ways, f"to {i}") for i in range(legs)]
    pair = ctx.choose([(i, j) for i in range(len(POOL)) for j in range(i)], "sensors")
    speed = ctx.choose((1.0, 2.5), "speed")
    script = ctx.choose(SCRIPTS, "script")
    when = ctx.choose(times, "at") if script not in ("fly",) else 0
    again = ctx.choose(["no", "hide", "stop", "fly", "show"], "then") if double else "no"
    other = ctx.choose((WAYS[0], (0.0, 0.0, 0.0), (-7.0, -7.0, 0.0)), "other") if script in ("reroute", "rethink", "hide-stop-show-fly", "hidden-show-fly") else None
    with UP.EnvironmentContext() as env:
        w = World(env, ctx)
        late = script in ("late sensor", "sensor after stop")
        w.eye("A", *POOL[pair[0]])
        if not late:
            w.eye("B", *POOL[pair[1]])
        w.mover("m", start, speed, seen=not script.startswith("hidden"))
        w.mover("n", (0.2, -8.0, 0.0), 1.7)
        w.mover("plain", (0.1, 0.1, 0.0), 1.0, cls=Plain)
        w.fly("plain", [(3.0, 0.0, 0.0)])
        w.fly("m", way)
        w.fly("n", [(0.2, 8.0, 0.0), (0.3, -8.0, 0.0)])
        if script == "fly":
            pass
        elif script == "stop":
            w.until(when)
            w.stop("m")
        elif script == "reroute":
            w.until(when)
            w.stop("m")
            w.fly("m", [other, way[0]])
        elif script == "rethink":
            w.until(when)
            w.stop("m")
            w.until(when + 1.09)
            w.fly("m", [other])
        elif script == "hide":
            w.until(when)
            w.hide("m")
        elif script == "stop-hide":
            w.until(when)
            w.stop("m")
            w.hide("m")
        elif script == "hide-show":
            w.until(when)
            w.hide("m")
            w.until(when + 0.83)
            w.show("m")
        elif script == "hide-stop-show-fly":
            w.until(when)
            w.hide("m")
            w.stop("m")
            w.show("m")
            w.fly("m", [other])
        elif script == "hidden-show":
            w.until(when)
            w.show("m")
        elif script == "hidden-show-fly":
            w.until(when)
            w.stop("m")
            w.show("m")
            w.fly("m", [other])
        elif script == "late sensor":
            w.until(when)
            w.eye("B", *POOL[pair[1]])
        elif script == "sensor after stop":
            w.until(when)
            w.stop("m")
            w.eye("B", *POOL[pair[1]])
            w.until(when + 0.71)
            w.fly("m", [way[0]])
        elif script == "rehearse":
            w.until(when)
            t = Fly()
            t.way = [UP.CartesianLocation(6, -6, 0), UP.CartesianLocation(0, 0, 0)]
            t.rehearse(actor=w.movers["m"])
        if again != "no":
            w.until(max(when, 0.1) + 2.41)
            if again == "hide":
                w.hide("m")
            elif again == "show":
                w.show("m")
            else:
                w.stop("m")
                if again == "fly":
                    w.fly("m", way[::-1])
        drive(ctx, env, 1e6)
        w.compare()
        for e in w.eyes.values():
            boundary_distance(ctx, e)
        ctx.state((way, script, [x[:2] for x in w.eyes["A"].log]))


FLEET = [((0.0, 0.0, 0.0), [(6.0, 0.0, 0.0), (-5.0, 4.0, 1.0)]), ((-6.0, 1.0, 0.0), [(6.0, 1.5, 0.0)]), ((1.0, 3.0, 0.5), [(0.3, 0.4, 0.0), (6.0, 6.0, -2.0)]),
         ((0.2, -8.0, 0.0), [(0.2, 8.0, 0.0), (0.3, -8.0, 0.0)]), ((5.0, 5.0, 0.0), [(-5.0, -4.0, 0.0)]), ((2.0, 1.0, 0.0), [(2.0, 1.0, 0.0), (2.5, -7.0, 0.0)])]


def fleet(ctx, times):
    """Six movers at once, each with its own speed and start: what is done to one does not touch the news of the others."""
    pair = ctx.choose([(i, j) for i in range(len(POOL)) for j in range(i)], "sensors")
    late = ctx.choose([None] + times[:2], "late sensor at")
    first = ctx.choose([(k, n) for n in range(len(FLEET)) for k in ("stop", "hide", "reroute", "hide-show")], "first")
    at = ctx.choose(times, "at")
    other = ctx.choose([(k, n) for n in range(0, len(FLEET), 2) for k in ("stop", "hide")], "second")
    gap = ctx.choose((0.0, 1.13), "gap")
    with UP.EnvironmentContext() as env:
        w = World(env, ctx)
        w.eye("A", *POOL[pair[0]])
        if late is None:
            w.eye("B", *POOL[pair[1]])
        for n, (start, _) in enumerate(FLEET):
            w.mover(f"m{n}", start, 1.0 + 0.37 * n)
        todo = [(0.0, 0, "fly", n) for n in range(4)] + [(0.71, 0, "fly", 4), (2.03, 0, "fly", 5)] + [(at, 1, *first), (at + gap, 2, *other)] + ([(late, 3, "sensor", 0)] if late else [])
        for t, _, what, n in sorted(todo):
            if t > env.now:
                w.until(t)
            m = f"m{n}"
            if what == "fly":
                w.fly(m, FLEET[n][1])
            elif what == "sensor":
                w.eye("B", *POOL[pair[1]])
            elif m in w.procs:
                if what in ("stop", "reroute"):
                    w.stop(m)
                if what in ("hide", "hide-show"):
                    w.hide(m)
                if what == "hide-show":
                    w.show(m)
                if what == "reroute" and w.movers[m].seen:
                    w.fly(m, [(0.0, 0.0, 0.0), (-7.0, -7.0, 0.0)])
        drive(ctx, env, 1e6)
        w.compare()
        for e in w.eyes.values():
            boundary_distance(ctx, e)
        ctx.state((pair, late, first, other, [x[:3] for x in w.eyes["A"].log]))


REACTIONS = ["hide", "stop", "hide and stop", "stop and hide", "sensor", "stop and fly back", "stop and fly on", "other eye only"]


def reactions(ctx):
    """A sensor that acts on the mover when told: the rest follows from what it did."""
    start = ctx.choose(STARTS, "start")
    way = [ctx.choose(WAYS, "to 0"), ctx.choose(WAYS, "to 1")]
    pair = ctx.choose([(i, j) for i in range(len(POOL)) for j in range(len(POOL)) if i != j], "sensors")
    on = ctx.choose(("in", "out"), "on")
    what = ctx.choose(REACTIONS, "reaction")
    again = [start] if what == "stop and fly back" else [start, (9.0, 1.0, 0.0), (-9.0, 0.5, 0.0)]
    with UP.EnvironmentContext() as env:
        w = World(env, ctx)
        a = w.eye("A", *POOL[pair[0]])
        b = w.eye("B", *POOL[pair[1]])
        m = w.mover("m", start, 1.0)
        w.mover("n", (0.2, -8.0, 0.0), 1.7)
        done = []

        def react(eye, kind, entity):
            if kind != on or entity is not m or done:
                return
            done.append(env.now)
            if what in ("hide", "hide and stop"):
                m.seen = False
            if what in ("stop", "hide and stop", "stop and hide", "stop and fly back", "stop and fly on") and w.procs["m"].is_alive:
                w.procs["m"].interrupt()
            if what == "stop and hide":
                m.seen = False
            if what == "sensor":
                c = w.eyes["C"] = Eye(env, "C", POOL[0][0], 4.2)
                w.mgr.add_sensor(c, location_attr_name="at", radius_attr_name="reach")
            if what in ("stop and fly back", "stop and fly on"):
                def back():
                    yield env.timeout(0.25)
                    t = Fly()
                    t.way = [UP.CartesianLocation(*x) for x in again]
                    w.procs["m"] = t.run(actor=m)
                env.process(back())

        (a if what != "other eye only" else b).react = react
        for n, route in (("n", [(0.2, 8.0, 0.0)]), ("m", way)):
            t = Fly()
            t.way = [UP.CartesianLocation(*p) for p in route]
            w.procs[n] = t.run(actor=w.movers[n])
        w.refs["n"].start(0.0, [(0.2, 8.0, 0.0)])
        drive(ctx, env, 1e6)
        # the reference: fly, act at the moment of the reaction
        ref = w.refs["m"]
        ref.start(0.0, way)
        eye = ("A", a.where, a.reach) if what != "other eye only" else ("B", b.where, b.reach)
        plan = [(t, k) for t, k, e in [(t, k, eye) for t, k in ref.log.get(eye, [])] + [x for x in ref.due if x[2] == eye] if k == on]
        tie = None
        if plan and what != "other eye only":
            t = min(plan)[0]
            tie = (t, "A")
            ctx.check(len(done) == 1 and abs(done[0] - t) < 1e-6, lambda: f"reaction at {done}, expected at {t}", "told")
            ref.due = [x if x[0] != t or x[2] == eye else (t + 1e-7, *x[1:]) for x in ref.due]
            ref.go_to(t + 1e-12)
            if what in ("hide", "hide and stop", "stop and hide"):
                ref.hide(t)
            if "stop" in what:
                ref.stop(t)
            if what == "sensor":
                ref.add(t, ("C", POOL[0][0], 4.2))
                w.refs["n"].add(t, ("C", POOL[0][0], 4.2))
            if "and fly" in what:
                ref.start(t + 0.25, again)
        w.compare(tie)
        ctx.state((what, on, [x[:2] for x in a.log], [x[:2] for x in b.log]))


TOUCH = [(5.0, 0.0, 0.0), (3.0, 4.0, 0.0), (-5.0, 0.0, 0.0), (0.0, 0.0, 0.0), (5.0, 5.0, 0.0), (5.0, -5.0, 0.0), (8.0, 0.0, 0.0), (-3.0, 4.0, 0.0), (0.0, -5.0, 0.0)]


def boundary(ctx, legs):
    """Waypoints on the boundary and legs that touch it: nothing fails, entries and exits take turns, inside is told and outside is not."""
    pts = [ctx.choose(TOUCH, f"point {i}") for i in range(legs + 1)]
    cut = ctx.choose([None] + list(range(1, legs)), "stop at")
    hide = ctx.flag("hide and show between") if cut else False
    with UP.EnvironmentContext() as env:
        w = World(env, ctx)
        e = w.eye("A", (0.0, 0.0, 0.0), 5.0)
        m = w.mover("m", pts[0], 1.0)
        parts = [pts[1:]] if cut is None else [pts[1:cut + 1], pts[cut + 1:]]
        route, t, view = [pts[0]], 0.0, []
        for n, part in enumerate(parts):
            t0 = env.now
            task = Fly()
            task.way = [UP.CartesianLocation(*p) for p in part]
            task.run(actor=m)
            drive(ctx, env, 1e6)
            ctx.close(env.now - t0, sum(math.dist(a, b) for a, b in zip([route[-1]] + part, part)), "time of the flight", key="time")
            route += part
            if hide and n == 0:
                m.seen = False
                ctx.check(len(e.log) % 2 == 0, lambda: f"hidden, but in view: {e.log}", "told")
                m.seen = True
        kinds = [k for _, k, *_ in e.log]
        ctx.check(all(k == ("in", "out")[i % 2] for i, k in enumerate(kinds)), lambda: f"not in turns: {e.log}", "turns")
        # compare at the middle of every stretch strictly inside or outside
        stretches, total = inside(route, 1.0, (0.0, 0.0, 0.0), 5.0 - 1e-6)
        wide, _ = inside(route, 1.0, (0.0, 0.0, 0.0), 5.0 + 1e-6)

        def seen(t):
            return len([1 for x in e.log if x[0] <= t]) % 2 == 1

        cuts = sorted({0.0, total} | {x for s in stretches + wide for x in s})
        for lo, hi in zip(cuts, cuts[1:]):
            if hi - lo < 1e-2:
                continue
            mid = (lo + hi) / 2
            is_in = any(a < mid < b for a, b in stretches)
            is_out = not any(a <= mid <= b for a, b in wide)
            if is_in:
                ctx.check(seen(mid), lambda: f"not told at {mid}: {e.log}; inside {stretches}", "told")
            if is_out:
                ctx.check(not seen(mid), lambda: f"in view at {mid}: {e.log}; inside {stretches}", "told")
        for t, *_ in e.log:
            near = any(abs(t - x) < 2e-2 for s in stretches + wide for x in s) or hide and abs(t - sum(math.dist(a, b) for a, b in zip(route, pts[1:cut + 1]))) < 1e-6
            ctx.check(near, lambda: f"told at {t}: no crossing there; {stretches}", "told")
        ctx.state((pts, cut, kinds))


GEO = [[(0, 0), (0, 3)], [(33, -84), (34, -80), (31, -80)], [(10, 179), (12, -178)], [(2, 5), (-2, 5)], [(60, 10), (60, 10), (61, 14)], [(33, -84), (33, -84)]]
RE = 6378.137


class Plane(UP.Actor):
    spot = UP.GeodeticLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    speed = UP.State[float]()


class Radar:
    def __init__(self, env, where, reach):
        self.env, self.location, self.radius, self.log = env, UP.GeodeticLocation(*where), reach, []

    def entity_entered_range(self, entity):
        self.log.append((self.env.now, "in"))

    def entity_exited_range(self, entity):
        self.log.append((self.env.now, "out"))


def unit(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def great(ctx):
    """Great circles: in view at exactly the sampled times at which the mover is in range."""
    route = ctx.choose(GEO, "route")
    i, off = ctx.choose([(0, (0, 0)), (0, (0.1, 0.2)), (-1, (0, 0)), (-1, (-0.3, 0.3)), (0, (0.6, 1.1))], "sensor")
    radius = ctx.choose((30.0, 111.0, 400.0), "radius")
    stop = ctx.choose((None, 0.137, 1.5), "stop after")
    where = (route[i][0] + off[0], route[i][1] + off[1])
    with UP.EnvironmentContext() as env:
        for k, v in (("stage_model", Spherical), ("distance_units", "km"), ("altitude_units", "ft")):
            UP.add_stage_variable(k, v)
        mgr = UP.SensorMotionManager(analytical_intersection)
        UP.add_stage_variable("motion_manager", mgr)
        r = Radar(env, where, radius)
        mgr.add_sensor(r)
        p = Plane(name="p", spot=UP.GeodeticLocation(*route[0], 0), speed=300.0)
        t = Fly()
        t.way = [UP.GeodeticLocation(*x, 0) for x in route[1:]]
        proc = t.run(actor=p)
        places = []
        step = 0.0101
        end = sum(Spherical.distance(a, b, units="km") for a, b in zip(route, route[1:])) / 300.0
        x = step / 2
        stopped = False
        while x < end + 0.1:
            if stop is not None and not stopped and stop < x:
                env.run(until=stop)
                if proc.is_alive:
                    proc.interrupt()
                stopped = True
            env.run(until=x)
            places.append((x, unit(p.spot.latlon())))
            ctx.step()
            x += step
        for when, u in places:
            d = math.acos(max(-1, min(1, sum(a * b for a, b in zip(u, unit(where)))))) * RE
            told = len([1 for y in r.log if y[0] <= when]) % 2 == 1
            if abs(d - radius) > 0.01:
                ctx.check(told == (d < radius), lambda: f"at {when}, {d} km away: told {r.log}", "told")
        ctx.check([k for _, k in r.log] == ["in", "out"] * (len(r.log) // 2) + ["in"] * (len(r.log) % 2), lambda: f"not in turns: {r.log}", "turns")
        ctx.state((route, r.log))


def harnesses(tier):
    if tier == "thorough":
        return [Harness("routes", routes, ways=WAYS + MORE, legs=2, times=TIMES5, double=False), Harness("three legs", routes, ways=WAYS[:4], legs=3, times=TIMES[:2], double=False),
                Harness("double", routes, ways=WAYS[:5], legs=2, times=TIMES[:2], double=True),
                Harness("fleet", fleet, times=TIMES5), Harness("reactions", reactions), Harness("boundary", boundary, legs=4), Harness("great", great)]
    return [Harness("routes", routes, ways=WAYS, legs=2, times=TIMES, double=False), Harness("fleet", fleet, times=TIMES[:2]), Harness("reactions", reactions), Harness("boundary", boundary, legs=3), Harness("great", great)]
