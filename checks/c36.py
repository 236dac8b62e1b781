"""C36: locations obey vector and distance laws.

Every pair and triple of a grid of places, in every way to write them (degrees
and radians, altitudes in their own units or not, live locations and data
objects), in every combination of stage units and earth models: equality,
distances, conversions, copies and immutability against closed formulas.
"""
import copy
import math
from dataclasses import FrozenInstanceError

import upstage_des.api as UP
from upstage_des.geography import Spherical, WGS84
from upstage_des.utils import waypoint_time_and_dist

from mc.engine import Harness

BOUNDS = {"quick": "cartesian: all ordered pairs of 27 places x 2 x 2 altitude flags x 25 pairs of units, all triples of 14; geodetic: all ordered pairs of 42 places x 2 x 2 forms x 2 models x 4 pairs of units, triples of 12; "
                   "values: 42 places x operations; shifts: 13 offsets around the tolerance in 3 dimensions",
          "thorough": "all pairs of units for the geodetic pairs; triples of 27 and 20 places"}
ORACLE = "vector arithmetic, separately coded ECEF formula, separately checked earth models (C35)"

METRES = {"m": 1.0, "km": 1000.0, "ft": 0.3048, "mi": 1609.344, "nmi": 1852.0}
UNITS = sorted(METRES)
XYZ = [(x, y, z) for x in (-7.25, 0.0, 1234.5) for y in (-1.0, 0.0, 6.5) for z in (-3.0, 0.0, 950.0)]
LLA = [(la, lo, al) for la in (-33.75, -1e-9, 0.0, 5.3, 89.5) for lo in (-180.0, -104.9903, 0.0, 179.99) for al in (0.0, 1050.0)] + [(5.3, 0.0, -420.0), (-33.75, -104.9903, -0.0004)]


def attributes(loc):
    return {k: v for k, v in vars(loc).items() if k not in ("env", "stage")}


def unchanged(ctx, before, locs, what):
    ctx.eq([attributes(x) for x in locs], before, f"the places after {what}", "frozen")


def stage(model=None, dist="km", alt="m"):
    for k, v in (("stage_model", model), ("distance_units", dist), ("altitude_units", alt)):
        if v is not None:
            UP.add_stage_variable(k, v)


def vector(p, flag, dist, alt):
    return (p[0], p[1], p[2] * METRES[alt] / METRES[dist] if flag else p[2])


def cartesian(ctx, places):
    p, q = ctx.choose(places, "a"), ctx.choose(places, "b")
    fa, fb = ctx.flag("altitude units of a"), ctx.flag("altitude units of b")
    for dist in UNITS:
        for alt in UNITS:
            with UP.EnvironmentContext():
                stage(dist=dist, alt=alt)
                ctx.step()
                a, b = UP.CartesianLocation(*p, use_altitude_units=fa), UP.CartesianLocation(*q, use_altitude_units=fb)
                before = [dict(attributes(a)), dict(attributes(b))]
                u, v = vector(p, fa, dist, alt), vector(q, fb, dist, alt)
                want = math.dist(u, v)
                tol = 1e-9 + 1e-6 * (abs(u[2]) + abs(v[2]))
                where = f"{p}{'*' * fa} to {q}{'*' * fb} in {dist}, {alt}"
                ctx.close(a - b, want, where, tol=tol, key="distance")
                ctx.eq((b - a, a.straight_line_distance(b), b.straight_line_distance(a)), (a - b,) * 3, f"{where}: the other ways", "symmetric")
                if abs(want - 1e-5) > 2 * tol or p == q and fa == fb:
                    ctx.eq(a == b, want <= 1e-5, f"{where}: equal", "equal")
                    ctx.eq((b == a, a != b, b != a), (want <= 1e-5, want > 1e-5, want > 1e-5), f"{where}: equal, other ways", "equal")
                if fa == fb and p == q:
                    ctx.eq(hash(a), hash(b), "hash of the same place", "equal")
                time, length = waypoint_time_and_dist(a, [b, a, b], 2.5)
                ctx.close(length, 3 * want, f"{where}: there and back and there", tol=3 * tol, key="distance")
                ctx.close(time, length / 2.5, "time", tol=1e-9 * (1 + length), key="distance")
                unchanged(ctx, before, (a, b), "distances")
    ctx.state((p, q, fa, fb))


def offsets(ctx):
    """Equality at the edge of the documented tolerance of 1e-5."""
    d = ctx.choose((0.0, 1e-9, 5e-6, 0.99e-5, 1.01e-5, 2e-5, 1e-3, 1.0, -5e-6, -0.99e-5, -1.01e-5, -2e-5, -1.0), "offset")
    dim = ctx.choose((0, 1, 2), "dimension")
    p = ctx.choose(XYZ, "place")
    if abs(p[dim]) > 1000:
        p = (0.0, 1.0, 2.0)
    with UP.EnvironmentContext():
        stage(dist=ctx.choose(UNITS, "unit"), alt="ft")
        q = list(p)
        q[dim] += d
        a, b = UP.CartesianLocation(*p), UP.CartesianLocation(*q)
        ctx.eq((a == b, b == a, a != b), (abs(d) < 1e-5, abs(d) < 1e-5, abs(d) > 1e-5), f"equal {d} apart", "equal")
        ctx.state((p, d, dim))


def triples(ctx, places):
    p, q = ctx.choose(places, "a"), ctx.choose(places, "b")
    with UP.EnvironmentContext():
        stage(dist="mi", alt="ft")
        for r in places:
            ctx.step()
            a, b, c = (UP.CartesianLocation(*z, use_altitude_units=True) for z in (p, q, r))
            ctx.check((a - c) <= (a - b) + (b - c) + 1e-9, lambda: f"a detour from {p} by {q} to {r} is shorter", "triangle")
    ctx.state((p, q))


def ecef(model, p):
    la, lo, h = math.radians(p[0]), math.radians(p[1]), p[2]
    f = 0.0 if model is Spherical else 1 / 298.257223563
    e2 = f * (2 - f)
    n = 6378137.0 / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return ((n + h) * math.cos(la) * math.cos(lo), (n + h) * math.cos(la) * math.sin(lo), (n * (1 - e2) + h) * math.sin(la))


def make(p, radians, data=False):
    cls = UP.GeodeticLocationData if data else UP.GeodeticLocation
    if radians:
        return cls(math.radians(p[0]), math.radians(p[1]), p[2], in_radians=True)
    return cls(*p)


def geodetic(ctx, places, units):
    model = ctx.choose((Spherical, WGS84), "model")
    p, q = ctx.choose(places, "a"), ctx.choose(places, "b")
    ra, rb = ctx.flag("a in radians"), ctx.flag("b in radians")
    apart = math.dist(ecef(Spherical, p), ecef(Spherical, q))
    for dist, alt in units:
        with UP.EnvironmentContext():
            stage(model, dist, alt)
            ctx.step()
            a, b = make(p, ra), make(q, rb)
            da, db = make(p, ra, True), make(q, rb, True)
            before = [dict(attributes(x)) for x in (a, b, da, db)]
            where = f"{p}{' rad' * ra} to {q}{' rad' * rb} in {dist}, {alt}"
            if not (model is WGS84 and apart > 2 * 6378137.0 * math.sin(math.radians(89.6))):
                want = model.distance(p[:2], q[:2], units="m") / METRES[dist]
                tol = 0.01 / METRES[dist] + 1e-6 * want
                ctx.close(a - b, want, where, tol=tol, key="distance")
                ctx.close(b - a, a - b, f"{where}: back", tol=1e-5 / METRES[dist], key="symmetric")
                rise = abs(p[2] - q[2]) * METRES[alt] / METRES[dist]
                ctx.close(a.dist_with_altitude(b), math.hypot(want, rise), f"{where}: with altitude", tol=tol + 1e-6 * rise, key="distance")
                ctx.close(b.dist_with_altitude(a), a.dist_with_altitude(b), f"{where}: back with altitude", tol=1e-5 / METRES[dist], key="symmetric")
                time, length = waypoint_time_and_dist(a, [b, a], 3.0)
                ctx.close(length, 2 * want, f"{where}: round trip", tol=2 * tol, key="distance")
                ctx.close(time * 3.0, length, "time", tol=1e-9 * (1 + length), key="distance")
            line = math.dist(ecef(model, (*p[:2], p[2] * METRES[alt])), ecef(model, (*q[:2], q[2] * METRES[alt]))) / METRES[dist]
            ctx.close(a.straight_line_distance(b), line, f"{where}: straight line", tol=0.01 / METRES[dist] + 1e-6 * line, key="straight")
            ctx.eq(b.straight_line_distance(a), a.straight_line_distance(b), f"{where}: straight line back", "symmetric")
            same = p == q
            for x, y in ((a, b), (da, db)):
                ctx.eq((x == y, y == x, x != y, y != x), (same, same, not same, not same), f"{where}: equal as {type(x).__name__}", "equal")
            ctx.eq((da.make_location() == a, a == da.make_location(), da.make_location().in_radians), (True, True, ra), f"{where}: location from data", "equal")
            ctx.check(math.dist(a.latlon(), p[:2]) < 1e-12 and math.dist(da.latlon(), p[:2]) < 1e-12, lambda: f"latlon of {where}: {a.latlon()}, {da.latlon()}", "forms")
            unchanged(ctx, before, (a, b, da, db), "distances and comparisons")
    ctx.state((model.__name__, p, q, ra, rb))


def geodetic_triples(ctx, places):
    model = ctx.choose((Spherical, WGS84), "model")
    p, q = ctx.choose(places, "a"), ctx.choose(places, "b")
    with UP.EnvironmentContext():
        stage(model, "m", "m")
        for r in places:
            a, b, c = (make(z, False) for z in (p, q, r))
            if model is WGS84 and max(a.straight_line_distance(b), b.straight_line_distance(c), a.straight_line_distance(c)) > 1.27e7:
                continue
            ctx.step()
            ctx.check(a - c <= (a - b) + (b - c) + 0.3, lambda: f"a detour from {p} by {q} to {r} is shorter", "triangle")
            ctx.check(a.straight_line_distance(c) <= a.straight_line_distance(b) + b.straight_line_distance(c) + 1e-3, lambda: f"straight, by {q} from {p} to {r} is shorter", "triangle")
    ctx.state((p, q))


def values(ctx):
    """One location: forms, copies, indices, hashes, immutability, refusals."""
    kind = ctx.choose(("cartesian", "geodetic"), "kind")
    p = ctx.choose(XYZ if kind == "cartesian" else LLA, "place")
    flag = ctx.flag("flag")
    op = ctx.choose(("forms", "copy", "copy.copy", "deepcopy", "index", "set", "others", "data", "repr"), "operation")
    with UP.EnvironmentContext():
        stage(Spherical, "km", "ft")
        if kind == "cartesian":
            a, names = UP.CartesianLocation(*p, use_altitude_units=flag), ["x", "y", "z", "use_altitude_units"]
            raw = p
            other = UP.GeodeticLocation(1, 2, 3)
        else:
            a, names = make(p, flag), ["lat", "lon", "alt", "in_radians"]
            raw = (math.radians(p[0]), math.radians(p[1]), p[2]) if flag else p
            other = UP.CartesianLocation(1, 2, 3)
        before = [dict(attributes(a))]
        ctx.step()
        ctx.eq(tuple(getattr(a, n) for n in names), (*raw, flag), "attributes", "frozen")
        if op == "forms" and kind == "geodetic":
            d, r = a.to_degrees(), a.to_radians()
            ctx.eq((d.in_radians, r.in_radians, d.alt, r.alt), (False, True, p[2], p[2]), "the forms", "forms")
            ctx.check(math.dist((d.lat, d.lon), p[:2]) < 1e-12 and math.dist((r.lat, r.lon), [math.radians(z) for z in p[:2]]) < 1e-14, lambda: f"{d}, {r} for {p}", "forms")
            forms = [a, d, r, a.copy()]
            ctx.check(all(x == y for x in forms for y in forms), lambda: f"the forms differ: {forms}", "equal")
            ctx.eq((a.lat, a.lon, a.alt), raw, "tuple", "forms")
        elif op in ("copy", "copy.copy", "deepcopy"):
            b = a.copy() if op == "copy" else copy.copy(a) if op == "copy.copy" else copy.deepcopy(a)
            ctx.check(b is not a and b == a and a == b and type(b) is type(a) and attributes(b) == before[0] and hash(a) == hash(b), lambda: f"copy {b} of {a}", "copy")
        elif op == "index":
            ctx.eq([a[i] for i in range(3)], list(raw), "by index", "forms")
            for i in (-1, 3, 17):
                try:
                    ctx.fail(f"index {i}: {a[i]}", "forms")
                except (IndexError, ValueError):
                    ctx.step()
        elif op == "set":
            for n in names:
                for value in (getattr(a, n), 5.0, None):
                    try:
                        setattr(a, n, value)
                        ctx.fail(f"{n} was set", "frozen")
                    except FrozenInstanceError:
                        ctx.step()
        elif op == "others":
            for f in (lambda: a - other, lambda: a - 3, lambda: a == other, lambda: a.straight_line_distance(other)):
                try:
                    ctx.fail(f"allowed: {f()}", "mixed")
                except (ValueError, TypeError):
                    ctx.step()
        elif op == "data":
            if kind == "cartesian":
                d, e = UP.CartesianLocationData(*p, use_altitude_units=flag), UP.CartesianLocationData(*p, use_altitude_units=not flag)
                ctx.eq((d == UP.CartesianLocationData(*p, use_altitude_units=flag), d == UP.CartesianLocationData(p[0], p[1] + 0.5, p[2], use_altitude_units=flag)), (True, False), "data equal", "equal")
                if p[2]:
                    ctx.eq((d == e, d.make_location() == e.make_location()), (False, False), "data in different units equal", "equal")
            else:
                d = make(p, flag, True)
                e = make(p, not flag, True)
                ctx.eq((d == e, e == d), (True, True), "data in the other form equal", "equal")
            b = d.make_location()
            ctx.check(type(b) is type(a) and attributes(b) == before[0], lambda: f"{b} from the data of {a}", "copy")
            try:
                ctx.fail(f"compared: {d == a}", "mixed")
            except ValueError:
                ctx.step()
        elif op == "repr":
            for word in ([f"{p[0]:,}km", f"{p[2]:,}{'ft' if flag else 'km'}"] if kind == "cartesian" else [f"{raw[0]}{'rad' if flag else '°'}", f"{p[2]:,}ft"]):
                ctx.check(word in repr(a), lambda: f"{word} not in {a!r}", "repr")
        unchanged(ctx, before, [a], op)
        ctx.state((p, flag, op))


def harnesses(tier):
    if tier == "thorough":
        return [Harness("cartesian", cartesian, places=XYZ), Harness("offsets", offsets), Harness("triples", triples, places=XYZ),
                Harness("geodetic", geodetic, places=LLA, units=[(d, a) for d in UNITS for a in UNITS]), Harness("geodetic triples", geodetic_triples, places=LLA[::2]), Harness("values", values)]
    return [Harness("cartesian", cartesian, places=XYZ), Harness("offsets", offsets), Harness("triples", triples, places=XYZ[::2]),
            Harness("geodetic", geodetic, places=LLA, units=[("km", "m"), ("nmi", "ft"), ("ft", "km"), ("mi", "nmi")]), Harness("geodetic triples", geodetic_triples, places=LLA[::3]), Harness("values", values)]
