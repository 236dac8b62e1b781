"""C35: earth models agree with themselves and with the earth.

Every public operation of both earth models over an exhaustive grid of places,
bearings, distances, altitudes, units and ways to write a place.  The sphere is
compared with vector algebra; for the ellipsoid the geodesic is integrated
numerically in space (Runge-Kutta on the equation of motion on the surface),
which shares nothing with Vincenty's series.
"""
import math

import upstage_des.api as UP
from upstage_des.geography import Spherical, WGS84

from mc.engine import Harness

BOUNDS = {"quick": "2 models; direct: 13 latitudes x 5 longitudes x 16 bearings x 8 distances; inverse: all pairs of 63 places; spaces: pairs of 24 places (some metres apart) x 4 numbers of segments; circles: 24 centres x 5 radii x 4; "
                   "frames: 17 latitudes x 9 longitudes x 6 altitudes, degrees and radians; cross-track: 9 legs x 63 places; units: 5 units; places as tuples and as locations in degrees and radians",
          "thorough": "more latitudes, longitudes, bearings and distances; pairs of 143 places"}
ORACLE = "vector algebra on the sphere; numerically integrated geodesics on the ellipsoid"

A, F = 6378137.0, 1 / 298.257223563
LATS = [-90.0, -89.9999, -61.0, -33.3, -0.001, 0.0, 0.001, 12.0, 45.0, 71.5, 89.5, 89.9999, 90.0]
LONS = [-180.0, -77.7, 0.0, 100.0, 180.0]
BEARINGS = [0.0, 1e-3, 30.0, 45.0, 90.0, 91.0, 135.0, 179.99, 180.0, 181.0, 225.0, 270.0, 315.0, 360.0, -45.0, 450.0]
DISTANCES = [0.0, 0.01, 137.0, 5.1e3, 1.03e5, 2.9e6, 9.1e6, 1.31e7]
PLACES = [(la, lo) for la in (-90.0, -89.9999, -45.0, -0.001, 0.0, 20.0, 60.0, 89.9999, 90.0) for lo in (-180.0, -100.0, -1e-4, 0.0, 35.0, 179.9999, 180.0)]
NEAR = [(20.0, 35.0), (20.00002, 34.99999), (20.0006, 35.0)]
UNITS = {"m": 1.0, "km": 1000.0, "ft": 0.3048, "mi": 1609.344, "nmi": 1852.0}


def point(model, p, h=0.0):
    la, lo = math.radians(p[0]), math.radians(p[1])
    f = 0.0 if model is Spherical else F
    e2 = f * (2 - f)
    n = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return ((n + h) * math.cos(la) * math.cos(lo), (n + h) * math.cos(la) * math.sin(lo), (n * (1 - e2) + h) * math.sin(la))


def north_east(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    return ((-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)), (-math.sin(lo), math.cos(lo), 0.0))


def heading(p, bearing):
    n, e = north_east(p)
    b = math.radians(bearing)
    return [math.cos(b) * x + math.sin(b) * y for x, y in zip(n, e)]


def travel(model, p, bearing, dist):
    """The place after going `dist` metres straight ahead, and the heading there."""
    r, v = list(point(model, p)), heading(p, bearing)
    if model is Spherical:
        t = dist / A
        return [math.cos(t) * x + math.sin(t) * A * y for x, y in zip(r, v)], [math.cos(t) * y - math.sin(t) * x / A for x, y in zip(r, v)]
    if dist == 0:
        return r, v
    b2, a2 = (A * (1 - F)) ** 2, A * A
    w = (1 / a2, 1 / a2, 1 / b2)

    def acc(r, v):
        g = [wi * x for wi, x in zip(w, r)]
        k = sum(wi * y * y for wi, y in zip(w, v)) / (g[0] * g[0] + g[1] * g[1] + g[2] * g[2])
        return [-k * x for x in g]

    n = max(4, int(dist / 4e4) + 1)
    h = dist / n
    for _ in range(n):
        k1, l1 = v, acc(r, v)
        k2 = [x + h / 2 * y for x, y in zip(v, l1)]
        l2 = acc([x + h / 2 * y for x, y in zip(r, k1)], k2)
        k3 = [x + h / 2 * y for x, y in zip(v, l2)]
        l3 = acc([x + h / 2 * y for x, y in zip(r, k2)], k3)
        k4 = [x + h * y for x, y in zip(v, l3)]
        l4 = acc([x + h * y for x, y in zip(r, k3)], k4)
        r = [x + h / 6 * (a + 2 * b + 2 * c + d) for x, a, b, c, d in zip(r, k1, k2, k3, k4)]
        v = [x + h / 6 * (a + 2 * b + 2 * c + d) for x, a, b, c, d in zip(v, l1, l2, l3, l4)]
    return r, v


def angle(u, v):
    return math.atan2(math.hypot(u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]), sum(x * y for x, y in zip(u, v)))


def gap(model, p, q):
    """Metres between two places close to each other."""
    return math.dist(point(model, p), point(model, q))


def way(a, b):
    """Difference of two bearings."""
    return abs((a - b + 180) % 360 - 180)


def written(place, how):
    if how == "degrees":
        return UP.GeodeticLocation(*place, 1234.0)
    if how == "radians":
        return UP.GeodeticLocation(math.radians(place[0]), math.radians(place[1]), in_radians=True)
    return place


def stage(model):
    for k, v in (("stage_model", model), ("distance_units", "km"), ("altitude_units", "m")):
        UP.add_stage_variable(k, v)


def direct(ctx, model, lats, lons, bearings, distances):
    place = (ctx.choose(lats, "lat"), ctx.choose(lons, "lon"))
    bearing = ctx.choose(bearings, "bearing")
    for dist in distances:
        ctx.step()
        got = model.point_from_bearing_dist(place, bearing, dist, distance_units="m")
        want, _ = travel(model, place, bearing, dist)
        tol = 2e-3
        ctx.close(math.dist(point(model, got), want), 0.0, f"off after {dist} m", tol=tol, key="direct")
        ctx.check(-90 <= got[0] <= 90, lambda: f"latitude {got}", "direct")
        back, first = model.distance_and_bearing(place, got, units="m")
        ctx.close(back, dist, f"distance to the point {dist} m away", tol=tol, key="inverse")
        if dist > 1:
            off = math.radians(way(first, bearing)) * A * abs(math.sin(dist / A))
            ctx.close(off, 0.0, f"bearing {first} to the point at {bearing}, {dist} m", tol=10 * tol, key="bearing")
        ctx.check(0 <= first <= 360, lambda: f"bearing {first}", "bearing")
        ctx.eq((model.distance(place, got, units="m"), model.bearing(place, got)), (back, first), "separate answers", "inverse")
        for unit in (("km", "nmi") if dist < 1e7 else ("ft", "mi")):
            again = model.point_from_bearing_dist(place, bearing, dist / UNITS[unit], distance_units=unit)
            ctx.close(gap(model, got, again), 0.0, f"{dist} m in {unit}", tol=2e-3 + 6e-7 * dist, key="units")
    ctx.state((place, bearing))


def inverse(ctx, model, places):
    p = ctx.choose(places, "from")
    q = ctx.choose(places, "to")
    how = ctx.choose(("tuples", "degrees", "radians"), "written")
    with UP.EnvironmentContext():
        stage(model)
        a, b = written(p, how), written(q, how)
        apart = angle(point(Spherical, p), point(Spherical, q))
        ctx.step()
        if model is WGS84 and apart > math.radians(179.2):
            return  # nearly antipodal: Vincenty's iteration is known not to converge
        dist, first = model.distance_and_bearing(a, b, units="m")
        back = model.distance(b, a, units="m")
        ctx.close(back, dist, "there and back", tol=2e-6, key="symmetric")
        chord = math.dist(point(model, p), point(model, q))
        ctx.check(chord - 1e-3 <= dist <= math.pi * A, lambda: f"{dist} m, straight line {chord} m", "distance")
        if chord < 1e-6:
            ctx.close(dist, 0.0, f"from {p} to {q}, the same place", tol=1e-5, key="zero")
        else:
            ctx.check(dist > 0, lambda: f"no distance from {p} to {q}", "zero")
            end, _ = travel(model, p, first, dist)
            ctx.close(math.dist(end, point(model, q)), 0.0, f"going {dist} m at {first}: off by", tol=5e-3 if apart < 3.14 else 0.3, key="distance")
        if model is Spherical:
            ctx.close(dist, apart * A, "distance", tol=0.01 if apart < 3.14 else 0.3, key="distance")
        for unit, size in UNITS.items():
            ctx.close(model.distance(a, b, units=unit) * size, dist, f"in {unit}", tol=1e-6 + 1e-6 * dist, key="units")
        ctx.eq((model.distance(a, b, units="m"), model.bearing(a, b)), (dist, first), "separate answers", "distance")
        ctx.check(0 <= first <= 360, lambda: f"bearing {first}", "bearing")
        ctx.state((p, q))


def spaces(ctx, model, places):
    p, q = ctx.choose(places, "from"), ctx.choose(places, "to")
    n = ctx.choose((2, 3, 7, 10), "segments")
    how = ctx.choose(("tuples", "degrees"), "written")
    apart = angle(point(Spherical, p), point(Spherical, q))
    if apart > math.radians(179.0):
        return
    with UP.EnvironmentContext():
        stage(model)
        a, b = written(p, how), written(q, how)
        ctx.step()
        total, first = model.distance_and_bearing(p, q, units="m")
        pts = model.geo_linspace(a, b, num_segments=n)
        ctx.eq(len(pts), n + 1, "number of points", "count")
        for i, x in enumerate(pts):
            want, _ = travel(model, p, first, total * i / n)
            ctx.close(math.dist(point(model, x), want), 0.0, f"point {i} of {n}", tol=5e-3, key="even")
        lo, hi = 300.0, 9000.0
        alts = [lo + (hi - lo) * i / n for i in range(n + 1)]
        frames, llas = model.ecef_and_geo_linspace(a, b, lo, hi, n)
        only = model.ecef_linspace(a, b, lo, hi, n)
        ctx.check(len(frames) == len(llas) == len(only) == n + 1, lambda: f"{len(frames)}, {len(llas)}, {len(only)} points", "count")
        for i in range(n + 1):
            want = point(model, pts[i], alts[i])
            ctx.close(math.dist(frames[i], want), 0.0, f"ECEF point {i}", tol=5e-3, key="even")
            ctx.close(math.dist(only[i], want), 0.0, f"ECEF-only point {i}", tol=5e-3, key="even")
            ctx.close(gap(model, llas[i], pts[i]), 0.0, f"lat/lon point {i}", tol=5e-3, key="even")
            ctx.close(llas[i][2], alts[i], f"altitude {i}", tol=1e-6, key="even")
        if model is Spherical:
            lats, lons, cart = model.geo_linspace_with_ecef(a, b, n)
            for i in range(n + 1):
                ctx.close(gap(model, (lats[i], lons[i]), pts[i]), 0.0, f"with ECEF, point {i}", tol=5e-3, key="even")
                ctx.close(angle(cart[i], point(model, pts[i])) * A, 0.0, f"direction of point {i}", tol=5e-3, key="even")
                along = model.point_along(a, b, i / n)
                ctx.close(gap(model, along, pts[i]), 0.0, f"point at fraction {i}/{n}", tol=0.02 if apart < 3.1 else 0.5, key="even")
        for bad in (1, 0):
            try:
                model.geo_linspace(a, b, num_segments=bad)
                ctx.fail(f"{bad} segments accepted", "count")
            except ValueError:
                ctx.step()
        ctx.state((p, q, n))


def circles(ctx, model, places):
    c = ctx.choose(places, "centre")
    radius = ctx.choose((0.5, 90.0, 1000.0, 9.0e3, 3.0e4), "radius (km)")
    n = ctx.choose((1, 4, 7, 10), "points")
    unit = ctx.choose(("km", "nmi", "ft"), "unit")
    if radius > 2000 and unit == "ft":
        return
    metres = radius * 1000
    for pts in (model.geo_circle(c, metres / UNITS[unit], radius_units=unit, num_points=n),):
        ctx.step()
        ctx.eq(len(pts), n + 1, "number of points", "count")
        for i, x in enumerate(pts):
            want, _ = travel(model, c, 360.0 * i / n, metres)
            ctx.close(math.dist(point(model, x), want), 0.0, f"point {i} of {n}", tol=5e-3 + 6e-7 * metres, key="circle")
    ctx.state((c, radius, n))


def frames(ctx, model, lats, lons):
    la, lo = ctx.choose(lats, "lat"), ctx.choose(lons, "lon")
    for h in (-400.0, 0.0, 1.0, 9000.0, 4e5, 3.6e7):
        ctx.step()
        for rad in (False, True):
            src = (math.radians(la), math.radians(lo), h) if rad else (la, lo, h)
            xyz, = model.lla2ecef([src], input_in_radians=rad)
            ctx.close(math.dist(xyz, point(model, (la, lo), h)), 0.0, f"ECEF of {la}, {lo}, {h}", tol=1e-6 + 1e-14 * h * 10, key="frames")
            for out in (False, True):
                (a, b, alt), = model.ecef2lla([xyz], radians_out=out)
                if out:
                    a, b = math.degrees(a), math.degrees(b)
                ctx.close(alt, h, f"altitude at {la}, {lo}", tol=0.01, key="frames")
                ctx.close(math.dist(point(model, (a, b), h), xyz), 0.0, f"round trip at {la}, {lo}, {h}", tol=0.01, key="frames")
                ctx.check(-90 <= a <= 90 and -180 <= b <= 180, lambda: f"{a}, {b}", "frames")
    many = [(la, lo, 10.0), (la / 2, lo / 3, 20.0)]
    ctx.eq(model.lla2ecef(many), [model.lla2ecef([x])[0] for x in many], "several at once", "frames")
    ctx.eq(model.ecef2lla(model.lla2ecef(many)), [model.ecef2lla(model.lla2ecef([x]))[0] for x in many], "several at once", "frames")
    ctx.state((la, lo))


LEGS = [((0.0, 0.0), (0.0, 30.0)), ((10.0, 20.0), (40.0, 60.0)), ((-30.0, 170.0), (20.0, -170.0)), ((45.0, 10.0), (45.0, -100.0)), ((-80.0, 0.0), (80.0, 1.0)), ((0.0, 50.0), (60.0, 50.0)),
        ((90.0, 0.0), (10.0, 40.0)), ((33.0, -84.0), (33.0, -84.001)), ((60.0, 10.0), (-20.0, 10.0))]


def cross(ctx, places):
    p, q = ctx.choose(LEGS, "leg")
    x = ctx.choose(places, "point")
    how = ctx.choose(("tuples", "degrees"), "written")
    with UP.EnvironmentContext():
        stage(Spherical)
        u, v, w = (point(Spherical, z) for z in (p, q, x))
        n = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        size = math.hypot(*n)
        n = [z / size for z in n]
        away = sum(a * b for a, b in zip(n, w)) / A
        want = abs(math.asin(max(-1.0, min(1.0, away)))) * A
        scale = 1.0 if size > 1e12 else 1e3  # a short leg fixes its great circle less well
        ctx.step()
        a, b, c = (written(z, how) for z in (p, q, x))
        got = Spherical.cross_track_distance(a, b, c, units="km")
        ctx.close(got * 1000, want, "cross-track distance", tol=0.2 * scale, key="cross")
        if want < math.pi / 2 * A - 1000:
            foot = [z - away * A * y for z, y in zip(w, n)]
            at = Spherical.cross_track_point(a, b, c)
            ctx.close(angle(foot, point(Spherical, at)) * A / scale, 0.0, f"closest point of the great circle through {p} and {q} to {x}: {at}, off by", tol=0.5, key="cross")
        ctx.state((p, q, x))


def harnesses(tier):
    out = []
    some = PLACES[::3] + NEAR
    lats, lons, bearings, distances, places = LATS, LONS, BEARINGS, DISTANCES, PLACES
    if tier == "thorough":
        lats = LATS + [-75.0, -45.0, -12.0, -1e-7, 1e-7, 1.0, 30.0, 60.0, 89.99]
        lons = LONS + [-179.9999, -120.0, -1.0, 1e-6, 33.0, 179.0]
        bearings = BEARINGS + [10.0, 60.0, 89.999, 120.0, 150.0, 200.0, 240.0, 269.999, 300.0, 330.0, 359.999]
        distances = DISTANCES + [1.0, 1e3, 4.7e5, 6.6e6, 1.01e7]
        places = [(la, lo) for la in (-90.0, -89.9999, -75.0, -45.0, -10.0, -0.001, 0.0, 1e-6, 20.0, 60.0, 80.0, 89.9999, 90.0) for lo in (-180.0, -179.0, -100.0, -45.0, -1e-4, 0.0, 35.0, 90.0, 135.0, 179.9999, 180.0)]
        some = PLACES[::2] + NEAR
    for m in (Spherical, WGS84):
        out += [Harness(f"direct {m.__name__}", direct, model=m, lats=lats, lons=lons, bearings=bearings, distances=distances),
                Harness(f"inverse {m.__name__}", inverse, model=m, places=places), Harness(f"spaces {m.__name__}", spaces, model=m, places=some),
                Harness(f"circles {m.__name__}", circles, model=m, places=some),
                Harness(f"frames {m.__name__}", frames, model=m, lats=LATS + [-89.0, 1e-9, 30.0, 89.99999999], lons=LONS + [-90.0, 1e-9, 90.0, 135.0])]
    return out + [Harness("cross", cross, places=places)]
