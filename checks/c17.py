"""C17: data tables against an independent account of everything that was recorded.

Every short sequence of recording actions (assigning, activating, moving,
key/value updates, resource use, data records, rehearsing, time passing) on two
actors and stand-alone monitored resources is executed; the tables, produced
once at the end or additionally in the middle, must contain exactly the rows of
an account kept by the harness.
"""
from dataclasses import dataclass

import simpy as SIM
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data

from mc.engine import Harness

BOUNDS = {"quick": "all sequences of 3 of 19 actions x all table options x tables also produced in the middle or not; "
                   "all sequences of 5 of 7 actions on active states; all sets of actors without, with Cartesian and with geodetic locations; 3 names of 6 resources in and outside actors, shared or not, 2 changes",
          "thorough": "4 actions; 7 actions on active states; 4 changes"}
ORACLE = "rows collected by the harness at every recording action"


@dataclass
class Info:
    a: int
    b: float


class Act(UP.Actor):
    n = UP.State(recording=True)
    info = UP.State(recording=True)
    obj = UP.State(recording=True)
    lin = UP.LinearChangingState(default=1.0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    ploc = UP.State(recording=True)
    d = UP.DictionaryState(recording=True)
    dc = UP.DataclassState(valid_types=Info, recording=True)
    q = UP.ResourceState(default=UP.SelfMonitoringStore)
    plainq = UP.ResourceState(default=SIM.Store)
    lazy = UP.State(allow_none_default=True)
    lazyrec = UP.State(allow_none_default=True, recording=True)
    static = UP.State(default="s")
    sd = UP.DictionaryState()
    slin = UP.LinearChangingState(default=5.0)


class Other(UP.Actor):
    n = UP.State(default=0, recording=True)


class T(UP.Task):
    def task(self, *, actor):
        actor.n = 1000
        yield UP.Wait(1.0)


class Account:
    """Expected rows per (entity, kind, state)."""

    def __init__(self, env):
        self.env, self.rows = env, {}

    def add(self, ent, kind, state, v, status=None, dedupe=True):
        rows = self.rows.setdefault((ent, kind, state), [])
        if dedupe and rows and rows[-1][:2] == [self.env.now, v] and rows[-1][2] not in ("activating", "deactivating"):
            return
        rows.append([self.env.now, v, status])

    def mark(self, ent, kind, state, status):
        self.rows[ent, kind, state][-1][2] = status


def num(v):
    return (v.x, v.y, v.z) if isinstance(v, UP.CartesianLocation) else v


def compare(ctx, table, want, what):
    got = {}
    for r in table:
        got.setdefault(tuple(r[:3]), []).append([r[3], num(r[4]), r[5]])
    ctx.eq(sorted(map(str, got)), sorted(map(str, want)), f"{what}: entities and states", "rows")
    for k in want:
        same = len(got[k]) == len(want[k]) and all(
            g[0] == w[0] and g[2] == w[2] and close(g[1], num(w[1])) for g, w in zip(got[k], want[k]))
        ctx.check(same, lambda: f"{what}: rows of {k}: real {got[k]} expected {want[k]}", "rows")


def close(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return all(abs(x - y) < 1e-7 for x, y in zip(a, b))
    if isinstance(a, int | float) and isinstance(b, int | float):
        return abs(a - b) < 1e-7
    return a == b


LOCS = ("loc", "ploc")


def setup(env):
    UP.add_stage_variable("altitude_units", "km")
    UP.add_stage_variable("distance_units", "km")


L = UP.CartesianLocation


def start(env, acc, names):
    actors = []
    for name in names:
        a = Act(name=name, n=0, info={"k": 1}, obj=Info(1, 2.0), loc=L(0, 0, 0), ploc=L(1, 1, 1), d={"u": 0}, dc=Info(0, 0.0), sd={"v": 3})
        for st, v, status in (("n", 0, None), ("info.k", 1, None), ("obj.a", 1, None), ("obj.b", 2.0, None), ("lin", 1.0, "inactive"),
                              ("loc", L(0, 0, 0), "inactive"), ("ploc", L(1, 1, 1), None), ("d.u", 0, None), ("dc.a", 0, None),
                              ("dc.b", 0.0, None), ("q", 0, None)):
            acc.add(name, "Act", st, v, status)
        actors.append(a)
    return actors


def static_rows(a, extra):
    name = a.name
    rows = {(name, "Act", "static"): [[0.0, extra["static"], "Last Seen"]],
            (name, "Act", "sd.v"): [[0.0, extra["sd"], "Last Seen"]],
            (name, "Act", "slin"): [[0.0, extra["slin"], "Last Seen"]],
            (name, "Act", "plainq"): [[0.0, a.plainq, "Last Seen"]]}
    if "lazy" in extra:
        rows[name, "Act", "lazy"] = [[0.0, extra["lazy"], "Last Seen"]]
    return rows


def check_tables(ctx, acc, actors, extras, records):
    for skip in (True, False):
        for static in (False, True):
            table, cols = create_table(skip_locations=skip, save_static=static)
            ctx.eq(cols, ["Entity Name", "Entity Type", "State Name", "Time", "Value", "Activation Status"], "columns", "columns")
            want = {k: v for k, v in acc.rows.items() if not (skip and k[2] in LOCS)}
            if static:
                for a in actors:
                    want.update(static_rows(a, extras[a.name]))
            compare(ctx, table, want, f"create_table(skip_locations={skip}, save_static={static})")
    table, cols = create_location_table()
    ctx.eq(cols, ["Entity Name", "Entity Type", "State Name", "Time", "X", "Y", "Z", "Activation Status"], "location columns", "columns")
    compare(ctx, [(*r[:4], tuple(r[4:7]), r[7]) for r in table], {k: v for k, v in acc.rows.items() if k[2] in LOCS}, "create_location_table")
    ctx.eq(list(get_recorded_data()), records, "recorded data", "records")


def mixed(ctx, depth):
    with UP.EnvironmentContext() as env:
        setup(env)
        acc = Account(env)
        actors = start(env, acc, ("x", "y"))
        x, y = actors
        other = Other(name="z")
        acc.add("z", "Other", "n", 0)
        cont = UP.SelfMonitoringContainer(env, capacity=10, name="tank")
        acc.add("tank", "SelfMonitoringContainer", "Resource", 0)
        fs = UP.SelfMonitoringFilterStore(env, name="shelf")
        acc.add("shelf", "SelfMonitoringFilterStore", "Resource", 0)
        extras = {n: {"static": "s", "sd": 3, "slin": 5.0} for n in "xy"}
        records = []
        task = T()
        lin, loc, t_lin = 1.0, False, None
        pos = 0.0
        middle = ctx.choose((None, 0, 1), "table in the middle")
        for i in range(depth):
            op = ctx.choose(("n", "yn", "zn", "lazyrec", "info", "obj", "lin", "loc", "ploc", "d", "dc", "q", "tank", "shelf", "static", "lazy",
                             "data", "clone", "adv"))
            ctx.note(op)
            now = env.now
            if op == "n":
                x.n += 1
                acc.add("x", "Act", "n", x.n)
            elif op == "yn":
                y.n += 5
                acc.add("y", "Act", "n", y.n)
            elif op == "zn":
                other.n += 1
                acc.add("z", "Other", "n", other.n)
            elif op == "lazyrec":
                y.lazyrec = i
                acc.add("y", "Act", "lazyrec", i)
            elif op == "info":
                x.info[f"k{i}"] = i
                x.record_state("info")
                for k, v in x.info.items():
                    acc.add("x", "Act", f"info.{k}", v, dedupe=False)
            elif op == "obj":
                x.obj = Info(i + 10, 0.5)
                acc.add("x", "Act", "obj.a", i + 10, dedupe=False)
                acc.add("x", "Act", "obj.b", 0.5, dedupe=False)
            elif op == "lin":
                acc.add("x", "Act", "lin", lin, "inactive" if t_lin is None else "active")
                if t_lin is None:
                    x.activate_linear_state(state="lin", rate=2.0, task=task)
                    x.activate_linear_state(state="slin", rate=1.0, task=task)
                    acc.mark("x", "Act", "lin", "activating")
                    t_lin = now
                else:
                    x.deactivate_states(states=["lin", "slin"], task=task)
                    acc.mark("x", "Act", "lin", "deactivating")
                    t_lin = None
            elif op == "loc":
                acc.add("x", "Act", "loc", L(pos, 0, 0), "active" if loc else "inactive")
                if not loc:
                    x.activate_location_state(state="loc", speed=1.0, waypoints=[L(100, 0, 0)], task=task)
                    acc.mark("x", "Act", "loc", "activating")
                else:
                    x.deactivate_state(state="loc", task=task)
                    acc.mark("x", "Act", "loc", "deactivating")
                loc = not loc
            elif op == "ploc":
                y.ploc = L(i, 2, 3)
                acc.add("y", "Act", "ploc", L(i, 2, 3))
            elif op == "d":
                x.d["u"] += 1
                x.d[f"w{i}"] = 0
                acc.add("x", "Act", "d.u", x.d["u"])
                acc.add("x", "Act", f"d.w{i}", 0)
            elif op == "dc":
                x.dc.b += 1.0
                acc.add("x", "Act", "dc.b", x.dc.b)
            elif op == "q":
                x.q.put("item")
                acc.add("x", "Act", "q", len(x.q.items))
            elif op == "tank":
                cont.put(1)
                acc.add("tank", "SelfMonitoringContainer", "Resource", cont.level)
            elif op == "shelf":
                fs.put("a")
                acc.add("shelf", "SelfMonitoringFilterStore", "Resource", len(fs.items))
            elif op == "static":
                x.static = i
                x.sd["v"] = i
                extras["x"].update(static=i, sd=i)
            elif op == "lazy":
                y.lazy = i
                extras["y"]["lazy"] = i
            elif op == "data":
                record_data(("d", i))
                records.append((now, ("d", i)))
            elif op == "clone":
                if not loc and t_lin is None:
                    T().rehearse(actor=other)
            else:
                env.run(until=now + 1.5)
                if t_lin is not None:
                    lin += 3.0
                    extras["x"]["slin"] += 1.5
                if loc:
                    pos += 1.5
            ctx.step()
            if middle == i:
                check_tables(ctx, acc, actors, extras, records)
        check_tables(ctx, acc, actors, extras, records)
        ctx.state(sorted((k, str(v)) for k, v in acc.rows.items()))
        ctx.outcome((sorted((k, len(v)) for k, v in acc.rows.items()), len(records)))


def actives(ctx, depth):
    """Longer histories of active states only: marks, reads and sets at one and several instants."""
    kind = ctx.choose(("lin", "loc", "sh"), "kind")

    with UP.EnvironmentContext(initial_time=2.0) as env:
        setup(env)
        a = Moving(name="a", loc=L(0, 0, 0))
        tasks = [T(), T()]
        rows = {"lin": [[2.0, 1.0, "inactive"]], "loc": [[2.0, (0, 0, 0), "inactive"]], "sh": [[2.0, 3.0, "inactive"]]}
        val = {"lin": 1.0, "loc": 0.0, "sh": 3.0}
        rates = {}
        mine = rows[kind]

        def rec(status=None):
            v = (val[kind], 0, 0) if kind == "loc" else val[kind]
            if mine[-1][0] == env.now and close(mine[-1][1], v) and mine[-1][2] not in ("activating", "deactivating"):
                return
            mine.append([env.now, v, "active" if rates else "inactive"])
        ops = ["on0", "off0", "read", "set", "adv"] + (["on1", "off1"] if kind == "sh" else [])
        for _ in range(depth):
            op = ctx.choose(ops)
            ctx.note(op)
            if op[:2] == "on":
                t = int(op[-1])
                if t in rates:
                    continue
                if kind == "loc":
                    a.activate_location_state(state="loc", speed=2.0, waypoints=[L(60, 0, 0), L(99, 0, 0)], task=tasks[t])
                else:
                    a.activate_linear_state(state=kind, rate=2.0 + t, task=tasks[t])
                rec()
                mine[-1][2] = "activating"
                rates[t] = 2.0 + t
            elif op[:3] == "off":
                t = int(op[-1])
                if t not in rates:
                    continue
                a.deactivate_state(state=kind, task=tasks[t])
                rec()
                del rates[t]
                if not rates:
                    mine[-1][2] = "deactivating"
            elif op == "read":
                getattr(a, kind)
                if rates:
                    rec()
            elif op == "set":
                if kind == "loc" and rates:
                    continue
                val[kind] += 0.5
                setattr(a, kind, L(val[kind], 0, 0) if kind == "loc" else val[kind])
                rec()
            else:
                env.run(until=env.now + 1.0)
                val[kind] += sum(rates.values())
            ctx.step()
        want = {("a", "Moving", k): v for k, v in rows.items()}
        compare(ctx, create_table(skip_locations=False)[0], want, "create_table")
        compare(ctx, [(*r[:4], tuple(r[4:7]), r[7]) for r in create_location_table()[0]], {("a", "Moving", "loc"): rows["loc"]}, "create_location_table")
        ctx.state((kind, str(mine)))
        ctx.outcome((kind, len(mine)))


class Moving(UP.Actor):
    lin = UP.LinearChangingState(default=1.0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    sh = UP.SharedLinearChangingState(default=3.0, recording=True)


class GeoM(UP.Actor):
    g = UP.GeodeticLocationChangingState(recording=True)


class XyzM(UP.Actor):
    c = UP.CartesianLocationChangingState(recording=True)


def columns(ctx):
    """The location table for every set of actors, in every order."""
    with UP.EnvironmentContext():
        setup(None)
        kinds = [ctx.choose((None, "geo", "none", "xyz"), f"actor {i}") for i in range(3)]
        kinds = [k for k in kinds if k]
        if "geo" in kinds and "xyz" in kinds:
            ctx.outcome("mixed")       # "Assumes that all location types are the same"
            return
        want = {}
        for i, k in enumerate(kinds):
            n = f"a{i}"
            if k == "geo":
                GeoM(name=n, g=UP.GeodeticLocation(i, 2 * i, 3))
                want[n, "GeoM", "g"] = [[0.0, (i, 2 * i, 3), "inactive"]]
            elif k == "xyz":
                XyzM(name=n, c=L(i, 2 * i, 3))
                want[n, "XyzM", "c"] = [[0.0, (i, 2 * i, 3), "inactive"]]
            else:
                Other(name=n)
        table, cols = create_location_table()
        compare(ctx, [(*r[:4], tuple(r[4:7]), r[7]) for r in table], want, "create_location_table")
        if "geo" in kinds:
            ctx.eq(cols[4:7], ["Lat", "Lon", "Alt"], "columns of geodetic locations", "columns")
        elif "xyz" in kinds:
            ctx.eq(cols[4:7], ["X", "Y", "Z"], "columns of Cartesian locations", "columns")
        ctx.outcome(kinds)


class Shop(UP.Actor):
    desk = UP.ResourceState(default=UP.SelfMonitoringStore)
    many = UP.MultiStoreState(default=UP.SelfMonitoringContainer, default_kwargs={"capacity": 10})


def resources(ctx, depth):
    """Every monitored resource is in the table once, whatever the names and whoever holds it."""
    names = [ctx.choose((None, "a", "b"), f"name {i}") for i in range(3)]
    shared = ctx.choose((False, True), "desk shared")
    with UP.EnvironmentContext() as env:
        x = Shop(name="a", desk={"name": names[0]} if names[0] else {}, many={"u": {"name": names[1]}, "v": {}})
        y = Shop(name="b", desk=x.desk if shared else {"name": names[1]}, many={})
        out = UP.SelfMonitoringStore(env, name=names[2])
        tank = UP.SelfMonitoringContainer(env, capacity=5, name=names[1])
        count = {"x": [0], "y": [0], "out": [0], "tank": [0.0], "u": [0.0], "v": [0.0]}
        times = {k: [0.0] for k in count}
        where = {"x": x.desk, "y": y.desk, "out": out, "tank": tank, "u": x.many["u"], "v": x.many["v"]}
        for i in range(depth):
            op = ctx.choose(list(count), "put")
            if i:
                env.run(until=env.now + 1)
            where[op].put(1)
            for k in ("x", "y") if shared and op in ("x", "y") else (op,):
                count[k].append(count[k][-1] + 1)
                times[k].append(float(env.now))
        want = []
        for k, (ent, kind, state) in {"x": ("a", "Shop", "desk"), "y": ("b", "Shop", "desk"), "out": (str(names[2]), "SelfMonitoringStore", "Resource"),
                                      "tank": (str(names[1]), "SelfMonitoringContainer", "Resource"),
                                      "u": (str(names[1]), "SelfMonitoringContainer", "Resource"), "v": ("None", "SelfMonitoringContainer", "Resource")}.items():
            want += [(ent, kind, state, t, v, None) for t, v in zip(times[k], count[k])]
        got = [tuple(r) for r in create_table()[0]]
        ctx.eq(sorted(map(str, got)), sorted(map(str, want)), "rows", "rows")
        ctx.state((names, shared, env.now, str(count)))


def harnesses(tier):
    q = tier == "quick"
    return [Harness("mixed", mixed, depth=3 if q else 4), Harness("actives", actives, depth=5 if q else 7), Harness("columns", columns), Harness("resources", resources, depth=2 if q else 4)]
