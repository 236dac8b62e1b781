"""C37: path/sensor intersections are the exact boundary crossings.

Every segment between two grids of points, against every sensor position,
radius, speed and altitude unit: the Cartesian solver against exact rational
geometry; the analytical great-circle solver against an independent solution on
the unit sphere; the subdividing solver, on both earths, against the crossings
found by bisection on an independently computed track.
"""
import math
from fractions import Fraction as F

import upstage_des.api as UP
from upstage_des.geography import WGS84, Spherical, get_intersection_locations
from upstage_des.motion.cartesian_model import cartesian_linear_intersection, ray_intersection
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection
from upstage_des.units import unit_convert

from mc.engine import Harness

BOUNDS = {"quick": "Cartesian: 37 starts x 37 ends x 3 centres x 5 radii (boundary starts, tangents, zero-length segments) x 3 speeds and 3 unit settings; ellipsoids: 5 radii vectors in 2 and 3 dimensions; "
                   "geodetic: 14 legs x 9 sensors placed along, beside, before, behind and at the ends of the leg x 4 radii x 3 units x altitudes, analytical on the sphere and subdividing on both earths; 7 other divisions",
          "thorough": "Cartesian from 67 x 67 points; 30 legs x 15 sensors x 7 radii"}
ORACLE = "exact quadratic in rational numbers; closed form on the unit sphere; bisection on an independent track"
DEG = math.pi / 180
RE = 6378137.0


# ---------------------------------------------------------------- Cartesian

def crossing(start, finish, center, radius):
    """Exact: the part of the segment inside the closed ball: (kind, lo, hi), with lo and hi floats in [0, 1]."""
    v = [b - a for a, b in zip(start, finish)]
    p = [a - c for a, c in zip(start, center)]
    a, b, c = sum(x * x for x in v), 2 * sum(x * y for x, y in zip(p, v)), sum(x * x for x in p) - radius * radius
    if a == 0:
        return ("in" if c <= 0 else "none", 0.0, 1.0, c == 0, c == 0)
    disc = b * b - 4 * a * c
    end = a + b + c
    if disc < 0:
        return ("none", 0, 0, False, False)
    if disc == 0:
        t = -b / (2 * a)
        return ("touch" if 0 <= t <= 1 else "none", float(t), float(t), c == 0, end == 0)
    r = math.sqrt(disc)

    def root(sign):
        """A root, exact at the ends of the segment."""
        if c == 0 and (-b + sign * abs(b)) == 0:
            return F(0)
        if end == 0 and ((2 * a + b) * sign > 0 or 2 * a + b == 0):
            return F(1)
        return F((-float(b) + sign * r) / (2 * float(a)))

    lo, hi = root(-1), root(1)
    if hi < 0 or lo > 1:
        return ("none", 0, 0, c == 0, end == 0)
    lo2, hi2 = max(lo, F(0)), min(hi, F(1))
    if lo2 >= hi2:
        return ("touch", float(lo2), float(lo2), c == 0, end == 0)
    return ("in", float(lo2), float(hi2), c == 0, end == 0)


POINTS = [(x, y, 0) for x in (-5, -3, 0, 3, 4) for y in (-4, 0, 2, 4, 5)] + [(3, 4, 1), (0, 0, 5), (1, 2, -2), (F(1, 2), F(-3, 2), 3), (-6, 0, 4), (0, 3, 4), (0, -3, -4), (7, F(1, 4), F(1, 4)), (F(49, 10), 0, F(1, 10)), (F(51, 10), 0, 0), (0, F(39, 10), 0), (F(3, 2), F(-3, 2), F(1, 2))]
MORE = [(x, y, z) for x in (-6, -1, 2) for y in (-5, 1, 3) for z in (-3, 0, F(5, 2))] + [(10, 10, 10), (-10, F(1, 8), 0), (F(7, 3), F(5, 7), 1)]
CENTERS = [(0, 0, 0), (1, -2, F(1, 2)), (3, 4, 0)]
RADII = [5, 4, F(5, 2), F(1, 2), 13]
# the units of distances and of z, and how many distance units one unit of z is
UNITS = [("km", "m", False, F(1)), ("km", "m", True, F(1, 1000)), (None, None, False, F(1))]


def cartesian(ctx, thorough):
    pts = POINTS + (MORE if thorough else [])
    start, finish = ctx.choose(pts, "start"), ctx.choose(pts, "finish")
    center, radius = ctx.choose(CENTERS, "center"), ctx.choose(RADII, "radius")
    for dist_unit, alt_unit, flag, per in UNITS:
        with UP.EnvironmentContext():
            if dist_unit:
                UP.add_stage_variable("distance_units", dist_unit)
                UP.add_stage_variable("altitude_units", alt_unit)
            # mixed: the flag may be on for some of the points only
            for flags in ((flag,) * 3, (flag, False, flag), (False, flag, False)) if flag else ((False,) * 3,):
                s, f, c = (UP.CartesianLocation(float(p[0]), float(p[1]), float(p[2] / per) if fl else float(p[2]), use_altitude_units=fl) for p, fl in zip((start, finish, center), flags))
                for speed in (1, 0.25, 7.5):
                    got = cartesian_linear_intersection(s, f, speed, c, float(radius))
                    judge(ctx, got, start, finish, center, radius, speed, (s, f), f"{dist_unit}/{alt_unit} {flags} speed {speed}")
    ctx.step()


def judge(ctx, got, start, finish, center, radius, speed, ends, what):
    locs, times, types, path_time = got
    length = math.sqrt(sum((b - a) ** 2 for a, b in zip(start, finish)))
    kind, lo, hi, edge0, edge1 = crossing(start, finish, center, radius)
    ctx.close(path_time, length / speed, f"time of the path ({what})", tol=1e-9, key="path time")
    if not locs:
        ctx.check(kind != "in" or hi - lo < 1e-7 or length == 0 and edge0, lambda: f"no crossing ({what}), expected {kind} {lo}..{hi}", "missed")
        ctx.check(not times, "times without places", "shape")
        return
    ctx.check(len(locs) == len(times) == len(types) == 2, lambda: f"shape of {got} ({what})", "shape")
    ctx.check(kind != "none", lambda: f"crossing {got} of a path outside ({what})", "invented")
    in0 = sum((a - b) ** 2 for a, b in zip(start, center)) <= radius * radius
    in1 = sum((a - b) ** 2 for a, b in zip(finish, center)) <= radius * radius
    for n, (isin, edge, names) in enumerate(((in0, edge0, ("START_INSIDE", "ENTER")), (in1, edge1, ("END_INSIDE", "EXIT")))):
        ok = names if edge else (names[0],) if isin else (names[1],)
        ctx.check(types[n] in ok, lambda: f"labels {types} ({what}), expected {ok}", "labels")
    # tangents in floating point: a crossing is as uncertain as the square root of the rounding error
    tol = 1e-6 if kind == "touch" else 1e-9
    for t, loc, par, n in zip(times, locs, (lo, hi), (0, 1)):
        ctx.close(t, par * length / speed, f"time {n} ({what})", tol=tol * max(1, length), key="time")
        want = [float(a + F(par) * (b - a)) for a, b in zip(start, finish)]
        ctx.close(loc - UP.CartesianLocation(*want, use_altitude_units=False), 0.0, f"place {n}: {loc} against {want} ({what})", tol=tol * max(1, length), key="place")
    ctx.check(0 <= times[0] <= times[1] <= path_time + 1e-12, lambda: f"times {times} of {path_time}", "order")


ELLIPSOIDS = [(2.0, 1.0), (1.0, 3.0, 2.0), (1.0, 1.0, 1.0), (0.5, 4.0), 2, 1.5, (2.0,)]


def ellipsoid(ctx):
    """The general ray: all points ahead of the start that lie on the ellipsoid, and when."""
    radii = ctx.choose(ELLIPSOIDS, "radii")
    dim = len(radii) if isinstance(radii, tuple) and len(radii) > 1 else ctx.choose((2, 3), "dimensions")
    full = (radii if len(radii) > 1 else radii * dim) if isinstance(radii, tuple) else (radii,) * dim
    grid = (-4.0, -1.0, 0.0, 2.5)
    start = tuple(ctx.choose(grid, f"start {i}") for i in range(dim))
    toward = tuple(ctx.choose(grid, f"toward {i}") for i in range(dim))
    center = ctx.choose(((0.0,) * dim, (1.0, -0.5, 0.25)[:dim]), "center")
    speed = ctx.choose((1.0, 4.0), "speed")
    if start == toward:
        return
    points, times = ray_intersection(start, toward, center, radii, speed)
    s = [(a - c) / r for a, c, r in zip(start, center, full)]
    e = [(a - c) / r for a, c, r in zip(toward, center, full)]
    v = [b - a for a, b in zip(s, e)]
    a, b, c = sum(x * x for x in v), 2 * sum(x * y for x, y in zip(s, v)), sum(x * x for x in s) - 1
    disc = b * b - 4 * a * c
    length = math.dist(start, toward)
    if abs(disc) < 1e-9:
        return
    ts = [] if disc < 0 else [t for t in ((-b - math.sqrt(disc)) / (2 * a), (-b + math.sqrt(disc)) / (2 * a))]
    sure = [t for t in ts if t > 1e-9]
    ctx.check(len(sure) <= len(times) <= len([t for t in ts if t > -1e-9]) and len(times) == len(points), lambda: f"{times}, expected {sure}", "count")
    for t, p, want in zip(times[::-1], points[::-1], ts[::-1]):
        ctx.close(t, want * length / speed, "time", tol=1e-9, key="time")
        ctx.close(math.dist(p, [x + want * (y - x) for x, y in zip(start, toward)]), 0.0, "place", tol=1e-9, key="place")
        ctx.close(sum(((x - c) / r) ** 2 for x, c, r in zip(p, center, full)), 1.0, "on the boundary", tol=1e-9, key="boundary")
    ctx.step()


# ---------------------------------------------------------------- the earth

def unit(lat, lon):
    return (math.cos(lat * DEG) * math.cos(lon * DEG), math.cos(lat * DEG) * math.sin(lon * DEG), math.sin(lat * DEG))


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def angle(u, v):
    return math.atan2(math.sqrt(dot(cross(u, v), cross(u, v))), dot(u, v))


def norm(u):
    n = math.sqrt(dot(u, u))
    return tuple(x / n for x in u)


def latlon(u):
    return math.atan2(u[2], math.hypot(u[0], u[1])) / DEG, math.atan2(u[1], u[0]) / DEG


class Track:
    """A great circle from a to b: place after an angle along it, and beside it."""

    def __init__(self, a, b):
        self.u, self.v = unit(*a), unit(*b)
        self.len = angle(self.u, self.v)
        pole = cross(self.u, self.v)
        if self.len < 1e-12:
            pole = cross(self.u, (0, 0, 1) if abs(self.u[2]) < 0.9 else (1, 0, 0))
        self.pole = norm(pole)
        self.w = cross(self.pole, self.u)

    def at(self, s, side=0.0):
        p = tuple(math.cos(s) * x + math.sin(s) * y for x, y in zip(self.u, self.w))
        return tuple(math.cos(side) * x + math.sin(side) * y for x, y in zip(p, self.pole))


LEGS = [((0, 0), (0, 5)), ((0, 0), (5, 0)), ((3, 10), (-4, 10)), ((10, 179), (12, -178)), ((33, -84), (36, -80)), ((-35, 20), (-33, 15)), ((60, 10), (61, 14)),
        ((36, -80), (33, -84)), ((0, 175), (0, -176)), ((45, 0), (45, 3)), ((80, 100), (81, 140)), ((20, -5), (24, -5)), ((-1, 1), (1, -1)), ((-60, -70), (-58, -71))]
LEGS2 = [((5, 0), (0, 0)), ((0, 0), (0, -5)), ((0, -179), (0, 179)), ((50, 30), (51, 30)), ((1, 1), (9, 8)), ((-9, 120), (-3, 111)), ((85, 0), (85, 60)), ((0, 90), (8, 90)), ((12, 90), (12, 97)),
         ((-20, -180), (-22, 178)), ((33, -84), (33.3, -84)), ((33, -84), (33, -83.6)), ((40, 0), (40.5, 0.5)), ((-40, 0), (-40.2, 0.4)), ((0.5, 0), (-0.5, 0)), ((15, 15), (16, 17))]
SENSORS = [(0, 0), (1, 0), (0.5, 0), (0.5, 0.4), (0.3, -0.2), (-0.3, 0), (1.3, 0.05), (0.02, -0.05), (0.5, 1.5)]  # along the leg, beside it (in lengths of the leg)
SENSORS2 = [(0.9, 0.1), (-0.1, -0.1), (1.2, -0.4), (0.25, 0), (0.75, -0.6), (0, 0.3)]
RADII_G = [0.15, 0.45, 0.8, 3.0]
RADII_G2 = [0.05, 0.35, 1.2]
GUNITS = [("nmi", "ft"), ("km", "m"), ("m", "km")]


def place(loc, in_radians=False):
    lat, lon = loc
    if in_radians:
        return UP.GeodeticLocation(lat * DEG, lon * DEG, 0, in_radians=True)
    return UP.GeodeticLocation(lat, lon, 0)


def analytical(ctx, thorough):
    """On the sphere, level flight: the great circle distance at which the slant range is the radius."""
    a, b = ctx.choose(LEGS + (LEGS2 if thorough else []) + [((33, -84), (33, -84))], "leg")
    along, side = ctx.choose(SENSORS + (SENSORS2 if thorough else []), "sensor")
    frac = ctx.choose(RADII_G + (RADII_G2 if thorough else []), "radius")
    du, au = ctx.choose(GUNITS, "units")
    height, sheight = ctx.choose(((0, 0), (8000.0, 0), (8000.0, 7900.0), (0, 8000.0)), "heights (m)")
    radians = ctx.choose((False, True), "radians")
    tr = Track(a, b)
    size = max(tr.len, 0.01)
    sensor = latlon(tr.at(along * size, side * size))
    radius = frac * size * RE
    speed = 250.0
    with UP.EnvironmentContext():
        for k, v in (("stage_model", Spherical), ("distance_units", du), ("altitude_units", au)):
            UP.add_stage_variable(k, v)
        alt = unit_convert(height, "m", au)
        mk = (lambda la, lo, h: UP.GeodeticLocation(la * DEG, lo * DEG, h, in_radians=True)) if radians else UP.GeodeticLocation
        s, f = mk(*a, alt), mk(*b, alt)
        c = mk(*sensor, unit_convert(sheight, "m", au))
        got = analytical_intersection(s, f, unit_convert(speed, "m", du), c, unit_convert(radius, "m", du))
        locs, times, types, path_time = got
        ctx.step()
        total = tr.len * RE / speed
        ctx.close(path_time, total, "time of the path", tol=1e-6, key="path time")
        slant = radius ** 2 - (height - sheight) ** 2
        rho = math.sqrt(slant) / RE if slant > 0 else 0.0
        rho = min(rho, math.pi)
        # in-range part of the track: cos(s) A + sin(s) B >= cos(rho)
        p = unit(*sensor)
        A, B = dot(tr.u, p), dot(tr.w, p)
        mid, amp = math.atan2(B, A), math.hypot(A, B)
        half = math.acos(min(1.0, max(-1.0, math.cos(rho) / amp))) if rho > 0 and math.cos(rho) <= amp else None
        # heights are used with the mean radius of the earth: times are good to that
        tol = 1e-6 + 2 * max(height, sheight) / RE
        eps = 3e-7
        d0, d1 = angle(tr.u, p), angle(tr.v, p)
        sure_in = half is not None and min(mid + half, tr.len) - max(mid - half, 0) > eps or d0 < rho - eps or d1 < rho - eps
        sure_out = half is None or mid - half > tr.len + eps or mid + half < -eps
        if rho > 0 and abs(math.cos(rho) - amp) < 1e-12:
            return  # tangent
        if not locs:
            ctx.check(not sure_in, lambda: f"nothing found; in range from {mid - half} to {mid + half} of {tr.len}", "missed")
            return
        ctx.check(not sure_out, lambda: f"found {times} {types} on a path out of range", "invented")
        ctx.check(len(locs) == len(times) == len(types) == 2, lambda: f"shape of {times} {types}", "shape")
        for n, (d, names) in enumerate(((d0, ("START_INSIDE", "ENTER")), (d1, ("END_INSIDE", "EXIT")))):
            if abs(d - rho) > eps:
                ctx.eq(types[n], names[0] if d < rho else names[1], f"label {n}", "labels")
        if half is None:
            return
        for n, want in enumerate((max(0.0, mid - half), min(tr.len, mid + half))):
            want = min(max(want, 0.0), tr.len)
            ctx.check(abs(times[n] * speed - want * RE) <= 1.0 + tol * RE * want, lambda: f"time {n}: {times[n]}, expected {want * RE / speed}", "time")
            back = unit(*locs[n].latlon())
            ctx.check(angle(back, tr.at(want)) * RE <= 2.0, lambda: f"place {n}: {locs[n].latlon()} is {angle(back, tr.at(want)) * RE} m from the crossing", "place")
            ctx.close(unit_convert(locs[n].alt, au, "m"), height, "height of the crossing", tol=1e-6, key="height")
        ctx.check(times[0] <= times[1], lambda: f"times {times}", "order")


def climbing(ctx):
    """Climbing legs: labels fit together from leg to leg, in order, within the leg."""
    a, b = ctx.choose(LEGS[:5], "leg")
    heights = ctx.choose([(x, y, z) for x in (0.0, 9000.0, 30000.0) for y in (0.0, 9000.0, 30000.0) for z in (0.0, 9000.0, 30000.0)], "heights")
    frac = ctx.choose((0.03, 0.1, 0.5), "radius")
    along = ctx.choose((0.0, 0.3, 0.5, 0.52, 1.0), "sensor")
    tr = Track(a, b)
    m = latlon(tr.at(tr.len / 2))
    with UP.EnvironmentContext():
        for k, v in (("stage_model", Spherical), ("distance_units", "m"), ("altitude_units", "m")):
            UP.add_stage_variable(k, v)
        pts = [UP.GeodeticLocation(*p, h) for p, h in zip((a, m, b), heights)]
        sensor = UP.GeodeticLocation(*latlon(tr.at(tr.len * along)), 100.0)
        radius = frac * tr.len * RE
        res = [analytical_intersection(s, f, 100.0, sensor, radius) for s, f in zip(pts, pts[1:])]
    ctx.step()
    for (locs, times, types, total), (s, f) in zip(res, zip(pts, pts[1:])):
        ctx.close(total, tr.len / 2 * RE / 100.0, "time of the leg", tol=1e-6, key="path time")
        if locs:
            ctx.check(len(locs) == len(times) == len(types) == 2, "shape", "shape")
            ctx.check(types[0] in ("START_INSIDE", "ENTER") and types[1] in ("EXIT", "END_INSIDE"), lambda: f"labels {types}", "labels")
            ctx.check(0 <= times[0] <= times[1] <= total * (1 + 1e-9), lambda: f"times {times} of {total}", "order")
            for loc, t in zip(locs, times):
                want = s.alt + (f.alt - s.alt) * t / total
                ctx.close(loc.alt, want, "height of the crossing", tol=1e-2, key="height")
    ends = bool(res[0][0]) and res[0][2][1] == "END_INSIDE"
    starts = bool(res[1][0]) and res[1][2][0] == "START_INSIDE"
    ctx.eq(starts, ends, "inside at the start of the second leg as at the end of the first", "joint")


WA, WF = 6378137.0, 1 / 298.257223563


def ecef(earth, lat, lon, h):
    la, lo = lat * DEG, lon * DEG
    if earth is Spherical:
        return ((RE + h) * math.cos(la) * math.cos(lo), (RE + h) * math.cos(la) * math.sin(lo), (RE + h) * math.sin(la))
    e2 = WF * (2 - WF)
    n = WA / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return ((n + h) * math.cos(la) * math.cos(lo), (n + h) * math.cos(la) * math.sin(lo), (n * (1 - e2) + h) * math.sin(la))


LEVELS = [(None, [10]), (None, [10, 20, 30]), (20000.0, None), (3000.0, [7]), (50000.0, [2, 3, 5, 7]), (9260.0, [10, 20]), (1000.0, [1])]


def subdivide(ctx, thorough, direct, own=False):
    """Straight-line distance to the moving point, to within a step of the finest subdivision."""
    earth = ctx.choose((Spherical, WGS84), "earth")
    a, b = ctx.choose(LEGS + (LEGS2 if thorough else []), "leg")
    along, side = ctx.choose(SENSORS + (SENSORS2 if thorough else []), "sensor")
    frac = ctx.choose(RADII_G, "radius")
    h0, h1, hs = ctx.choose(((0.0, 0.0, 0.0), (9000.0, 3000.0, 500.0), (0.0, 12000.0, 12000.0)), "heights (m)")
    du, au = ctx.choose(GUNITS if thorough else GUNITS[:2], "units")
    radians = not direct and ctx.flag("radians")
    between, levels = ctx.choose(LEVELS, "division") if own else (None, None)
    base = between or 9260.0
    tr = Track(a, b)
    sensor = latlon(tr.at(along * tr.len, side * tr.len))
    radius = frac * tr.len * RE
    length = earth.distance(a, b, units="m")
    if earth is Spherical:
        def at(f):
            return latlon(tr.at(f * tr.len))
    else:
        course = earth.bearing(a, b)

        def at(f):
            return earth.point_from_bearing_dist(a, course, f * length, "m")
    center = ecef(earth, *sensor, hs)

    def gap(f):
        return math.dist(ecef(earth, *at(f), h0 + f * (h1 - h0)), center) - radius

    if direct:
        got = get_intersection_locations((*a, h0), (*b, h1), (*sensor, hs), unit_convert(radius, "m", du), du, earth, **{k: v for k, v in (("dist_between", between), ("subdivide_levels", levels)) if v is not None})
        locs = [g.begin for g in got]
        types = [g.kind for g in got]
    else:
        with UP.EnvironmentContext():
            for k, v in (("stage_model", earth), ("distance_units", du), ("altitude_units", au), ("intersection_model", get_intersection_locations)):
                UP.add_stage_variable(k, v)
            to = DEG if radians else 1
            s, f, c = (UP.GeodeticLocation(*(x * to for x in p), unit_convert(h, "m", au), in_radians=radians) for p, h in ((a, h0), (b, h1), (sensor, hs)))
            speed = 200.0
            objs, times, types, path_time = subdivide_intersection(s, f, unit_convert(speed, "m", du), c, unit_convert(radius, "m", du))
            locs = [(*o.latlon(), unit_convert(o.alt, au, "m")) for o in objs]
        ctx.close(path_time, length / speed, "time of the path", tol=1e-6, key="path time")
    ctx.step()
    n = max(4, int(length / base) + 1)
    gaps = [gap(i / n) for i in range(n + 1)]
    want = []  # (label, fraction)
    if gaps[0] <= 0:
        want.append(("START_INSIDE", 0.0))
    for i in range(n):
        if (gaps[i] <= 0) != (gaps[i + 1] <= 0):
            lo, hi = i / n, (i + 1) / n
            was = gaps[i] <= 0
            for _ in range(45):
                m = (lo + hi) / 2
                if (gap(m) <= 0) == was:
                    lo = m
                else:
                    hi = m
            want.append(("EXIT" if was else "ENTER", (lo + hi) / 2))
    if gaps[-1] <= 0:
        want.append(("END_INSIDE", 1.0))
    if any(abs(g) < 1.0 for g in gaps) and [x[0] for x in want] != list(types):
        return  # the boundary lies on a sampled point: either answer is right
    step = base / math.prod(levels or [10, 20]) * 1.05 + 1.0
    if [x[0] for x in want] != list(types) and len(want) != len(types):
        # a stretch shorter than the first division may be passed over, but nothing else
        spans = list(zip(want[::2], want[1::2]))
        found = list(zip(types[::2], types[1::2]))
        long = [s for s in spans if (s[1][1] - s[0][1]) * length > base]
        ctx.check(len(long) <= len(found) <= len(spans) + 1 and len(types) % 2 == 0, lambda: f"found {types}, expected {want}", "missed")
        return
    ctx.eq(list(types), [x[0] for x in want], "labels", "labels")
    for k, (label, f) in enumerate(want):
        off = math.dist(ecef(earth, *locs[k]), ecef(earth, *at(f), h0 + f * (h1 - h0)))
        ctx.check(off <= step, lambda: f"{label}: {locs[k]} is {off} m from the crossing", "place")
        if not direct:
            ctx.check(abs(times[k] * speed - f * length) <= step, lambda: f"{label}: time {times[k]}, expected {f * length / speed}", "time")


def harnesses(tier):
    t = tier == "thorough"
    return [Harness("cartesian", cartesian, thorough=t), Harness("ellipsoid", ellipsoid), Harness("analytical", analytical, thorough=t), Harness("climbing", climbing),
            Harness("subdivide", subdivide, thorough=t, direct=False), Harness("direct", subdivide, thorough=t, direct=True), Harness("divisions", subdivide, thorough=t, direct=True, own=True)]
