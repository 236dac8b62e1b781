"""C10: moving states against independently computed paths, for every observation schedule.

For each path, speed, start time and earth, every assignment of an action (look
away, read, record, ask for waypoints, clone, pause and resume, re-speed) to the
instants of a time grid is executed on real actors; positions are compared with
exact straight-line / great-circle motion computed here.
"""
import math

import upstage_des.api as UP
from upstage_des.geography import Spherical, WGS84

from mc.engine import Harness

BOUNDS = {"quick": "11 Cartesian and 9 geodetic paths (repeated points, zero-length legs, altitude, radians, date line, near the pole) x 4 start times x "
                   "all 7^3 action schedules on the last 3 instants of a grid aligned with the waypoints",
          "thorough": "all 7^5 action schedules on the full grid"}
ORACLE = "straight-line interpolation in x, y, z; great-circle rotation of unit vectors (sphere) or distance/bearing consistency (WGS84)"
KM, DEG = 1000.0, math.pi / 180


class Cart(UP.Actor):
    loc = UP.CartesianLocationChangingState(recording=True)


class Geo(UP.Actor):
    loc = UP.GeodeticLocationChangingState(recording=True)


class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


CPATHS = [
    [(0, 0, 0), (10, 0, 0)],
    [(0, 0, 0), (3, 4, 0), (3, 10, 0), (-5, 10, 12)],
    [(1, 1, 1), (1, 1, 1), (4, 5, 1)],              # first waypoint is where we are
    [(0, 0, 0), (6, 8, 0), (6, 8, 0), (0, 0, 0)],   # repeated waypoint, and back
    [(0, 0, 0), (0.1, 0.2, 0.3), (0.7, 0.1, 0.9)],
    [(5, 5, 0), (5, 5, 30)],
    [(2, 2, 2), (2, 2, 2)],                          # nowhere to go
    [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0)],
    [(0, 0, ("ft", 1000.0)), (3, 4, ("ft", 5000.0))],
    [(1e5, -2e5, 0), (1e5 + 30, -2e5 + 40, 0)],
    [(0, 0, 0), (1e-3, 0, 0), (5, 5, 5)],
]
GPATHS = [
    [(0, 0, 0), (0, 10, 0)],
    [(30, -80, 1000), (35, -75, 3000), (36, -75, 0)],
    [(10, 179, 0), (10, -179, 0), (12, -177, 100)],
    [(80, 0, 0), (75, 175, 0)],                      # close past the pole (at the pole itself lat/lon are singular)
    [(33, -84, 0), (33, -84, 500), (33.5, -84.5, 500)],
    [("rad", 30, -80, 100), ("rad", 35, -75, 100), (36, -75, 0)],
    [(-45, 20, 0), (-45, 20.01, 0), (-44.9, 20.02, 10)],
    [(60, 10, 0), (10, 60, 0)],
    [(0, 0, 0), (10, 0, 0), (10, 0, 0), (20, 5, 0)],
]


def cdist(p, q):
    return math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))


class CartPath:
    def __init__(self, pts, speed):
        self.pts, self.speed = pts, speed
        self.lens = [cdist(a, b) for a, b in zip(pts, pts[1:])]
        self.times = [x / speed for x in self.lens]

    def at(self, el):
        s = el * self.speed
        for i, n in enumerate(self.lens):
            if s <= n + 1e-9:
                f = 0.0 if n == 0 else min(1.0, s / n)
                return tuple(a + f * (b - a) for a, b in zip(self.pts[i], self.pts[i + 1])), i
            s -= n
        return self.pts[-1], len(self.lens) - 1


def unit(p):
    la, lo = p[0] * DEG, p[1] * DEG
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def ang(u, v):
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return math.atan2(math.sqrt(sum(x * x for x in c)), sum(a * b for a, b in zip(u, v)))


class GeoPath:
    """Great circles on a sphere of radius R, or the geodesics of WGS84 through its own inverse solution."""

    def __init__(self, pts, speed, model, R):
        self.pts, self.speed, self.model, self.R = pts, speed, model, R
        if model is Spherical:
            self.lens = [R * ang(unit(a), unit(b)) for a, b in zip(pts, pts[1:])]
        else:
            self.lens = [model.distance(a[:2], b[:2], units="km") for a, b in zip(pts, pts[1:])]
        self.times = [x / speed for x in self.lens]

    def at(self, el):
        s = el * self.speed
        for i, n in enumerate(self.lens):
            if s <= n + 1e-9 or (i == len(self.lens) - 1):
                f = 0.0 if n == 0 else min(1.0, s / n)
                a, b = self.pts[i], self.pts[i + 1]
                alt = a[2] + f * (b[2] - a[2])
                if n == 0:
                    return (a[0], a[1], alt), i
                if self.model is Spherical:
                    u, v = unit(a), unit(b)
                    d = ang(u, v)
                    w = [(math.sin((1 - f) * d) * x + math.sin(f * d) * y) / math.sin(d) for x, y in zip(u, v)]
                    return (math.atan2(w[2], math.hypot(w[0], w[1])) / DEG, math.atan2(w[1], w[0]) / DEG, alt), i
                return (None, (a, b, f * n, n), alt), i
            s -= n


ACTS = ("none", "read", "record", "remain", "clone", "pause", "respeed")


def moving(ctx, world, ngrid):
    cart = world == "cart"
    model = {"cart": None, "sph": Spherical, "wgs": WGS84}[world]
    t0 = ctx.choose((0.0, 100.1, 12345.678, 1e6 + 0.3), "t0")
    raw = ctx.choose(CPATHS if cart else GPATHS, "path")
    speed = ctx.choose((2.0, 0.3) if cart else (100.0, 7.0), "speed")
    with UP.EnvironmentContext(initial_time=t0) as env:
        UP.add_stage_variable("altitude_units", "ft")
        UP.add_stage_variable("distance_units", "km")
        if cart:
            k = UP.unit_convert(1.0, "ft", "km")
            pts = [(p[0], p[1], p[2][1] * k if isinstance(p[2], tuple) else p[2]) for p in raw]
            locs = [UP.CartesianLocation(p[0], p[1], p[2][1] if isinstance(p[2], tuple) else p[2],
                                         use_altitude_units=isinstance(p[2], tuple)) for p in raw]
            path = CartPath(pts, speed)
            a = Cart(name="A", loc=locs[0])
        else:
            UP.add_stage_variable("stage_model", model)
            pts = [p[1:] if p[0] == "rad" else p for p in raw]
            locs = [UP.GeodeticLocation(p[1] * DEG, p[2] * DEG, p[3], in_radians=True) if p[0] == "rad" else
                    UP.GeodeticLocation(*p) for p in raw]
            path = GeoPath(pts, speed, model, 6378.137)
            a = Geo(name="A", loc=locs[0])
        wpts = locs[1:]
        total = sum(path.times)
        first = path.times[0]
        # a grid that hits the first waypoint, the end, and points between them
        grid = sorted({first * 0.5, first, first + (total - first) * 0.37, total * 0.8, total})
        grid = grid[-ngrid - 1:] if ngrid + 1 < len(grid) else grid
        task = T()
        off = 0.0                 # time already spent standing still
        a.activate_location_state(state="loc", speed=speed, waypoints=list(wpts), task=task)
        start = env.now
        scale = 1.0               # speed factor after a change
        done = 0.0                # path time (at the original speed) covered up to `start`

        def covered():
            return min(done + (env.now - start) * scale, total)

        def same(loc, where, what):
            if cart:
                got = (loc.x, loc.y, loc.z)
                tol = 1e-6 + 1e-9 * max(abs(x) for x in where)
                ctx.check(cdist(got, where) <= tol, lambda: f"{what}: at {got}, should be at {where} (t={env.now})", "position")
                return
            la, lo = loc.latlon()
            ctx.close(loc.alt, where[2], f"{what}: altitude at t={env.now}", tol=1e-4, key="altitude")
            if where[0] is not None:
                d = 6378.137 * ang(unit((la, lo)), unit(where))
                ctx.check(d <= 2e-3, lambda: f"{what}: at {(la, lo)}, should be at {where[:2]}, {d} km away (t={env.now})", "position")
            else:
                p, q, x, n = where[1]
                d1 = model.distance(p[:2], (la, lo), units="km")
                d2 = model.distance((la, lo), q[:2], units="km")
                ctx.check(abs(d1 - x) < 5e-3 and abs(d2 - (n - x)) < 5e-3,
                          lambda: f"{what}: {(la, lo)} is {d1} km from {p} and {d2} km from {q}; expected {x} and {n - x}", "position")

        def remaining_ok():
            rem = a.get_remaining_waypoints("loc")
            pos, i = path.at(covered())
            ok = [wpts[i:]]
            # standing on a waypoint: it may count as passed or not
            ends = 0.0
            for j, tt in enumerate(path.times):
                ends += tt
                if abs(ends - covered()) <= 2e-4 / min(1.0, scale) + 1e-9:
                    ok += [wpts[j:], wpts[j + 1:]]
                if tt == 0:
                    ok += [wpts[j:]] if abs(ends - covered()) <= 2e-4 else []
            ctx.check(any(len(rem) == len(o) and all(x is y for x, y in zip(rem, o)) for o in ok),
                      lambda: f"remaining waypoints at t={env.now}: {rem}, expected {ok[0]}", "waypoints")
            return rem

        seen = []
        finished = False
        for gi, g in enumerate(grid):
            # advance to the instant at which g units of path time are covered
            dt = (g - covered()) / scale
            if dt > 0:
                env.run(until=env.now + dt)
            last = gi == len(grid) - 1
            act = ctx.choose(ACTS, "act")
            ref = path.at(covered())[0]
            if act == "read":
                same(a.loc, ref, "read")
            elif act == "record":
                a.record_state("loc")
                same(a._state_histories["loc"][-1][1], ref, "recorded")
            elif act == "remain":
                remaining_ok()
            elif act == "clone":
                c = a.clone()
                same(c.loc, ref, "clone")
            elif act in ("pause", "respeed") and not last:
                rem = remaining_ok()
                a.deactivate_state(state="loc", task=task)
                same(a.loc, ref, "after deactivation")
                fixed = a.loc
                done = covered()
                if act == "pause":
                    env.run(until=env.now + 1.5)
                    ctx.check(a.loc is fixed or a.loc == fixed, "moved although inactive", "frozen")
                else:
                    scale *= 2.0
                if not rem:
                    finished = True
                    break
                a.activate_state(state="loc", speed=speed * scale, waypoints=list(rem), task=task)
                start = env.now
            ctx.step()
            seen.append(act)
        if not finished:
            same(a.loc, pts[-1] if cart else path.at(total)[0], "end of the path")
            a.deactivate_state(state="loc", task=task)
        same(a.loc, pts[-1] if cart else path.at(total)[0], "after the path")
        end = a.loc
        env.run(until=env.now + 3.0)
        ctx.check(a.loc == end, "moved after the end", "frozen")
        hist = [x[0] for x in a._state_histories["loc"]]
        ctx.check(hist == sorted(hist), "history out of order", "history")
        ctx.state((world, raw, speed, t0, tuple(seen)))
        ctx.outcome((world, raw, speed, tuple(seen)))


def beyond(ctx):
    """Staying active after the end of the path is an error, not a made-up position."""
    world = ctx.choose(("cart", "geo"), "world")
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("altitude_units", "ft")
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("stage_model", ctx.choose((Spherical, WGS84), "model"))
        if world == "cart":
            a = Cart(name="A", loc=UP.CartesianLocation(0, 0))
            w = [UP.CartesianLocation(3, 4), UP.CartesianLocation(6, 8)]
        else:
            a = Geo(name="A", loc=UP.GeodeticLocation(0, 0))
            w = [UP.GeodeticLocation(0, 0.05), UP.GeodeticLocation(0.05, 0.05)]
        t = T()
        a.activate_state(state="loc", speed=1.0, waypoints=w, task=t)
        if ctx.flag("read before"):
            env.run(until=4.0)
            a.loc
        env.run(until=40.0)
        try:
            v = a.loc
            ctx.fail(f"reading 30 time units after the end of the path gave {v}", "beyond")
        except UP.SimulationError:
            pass
        ctx.outcome(world)


def harnesses(tier):
    n = 3 if tier == "quick" else 5
    return [Harness(w, moving, world=w, ngrid=n - 1) for w in ("cart", "sph", "wgs")] + [Harness("beyond", beyond)]
