"""C14: recorded histories over every sequence of recording actions and options.

Two actors of one class (so that mix-ups between actors show) go through every
sequence of assigning, mutating, recording, refused assigning and letting time
pass, for each combination of recording options; active states (linear, shared,
Cartesian, geodetic) through every sequence of activating, reading, assigning,
deactivating and letting time pass.  The complete history of every state and
recording function is compared with a reference list, and the values with those
of a twin actor whose states do not record.
"""
import copy


import upstage_des.api as UP
from upstage_des.geography import Spherical as SphericalEarth

from mc.engine import Harness

BOUNDS = {"quick": "plain states: all sequences of 5 of 8 operations x 5 option sets x 3 value types x 2 actors; active states: "
                   "all sequences of 5 of 6-7 operations x 4 kinds",
          "thorough": "6 (plain) and 7 (active) operations"}
ORACLE = "a list appended to at every assignment, recording, automatic recording and (de)activation"


class Count:
    """A recording class with a memory: must be one object per actor."""

    def __init__(self):
        self.n = 0

    def __call__(self, time, value):
        self.n += 1
        return self.n


class Sum:
    """Another one, used under two names: two objects per actor."""

    def __init__(self):
        self.seen = []

    def __call__(self, time, value):
        self.seen.append(time)
        return tuple(self.seen)


def half(time, value):
    return (time, str(value))


def parity(time, value):
    return len(str(value)) % 2


OPTIONS = {
    "rec": dict(recording=True),
    "dup": dict(recording=True, record_duplicates=True),
    "fun": dict(recording=True, recording_functions=[(half, "f_half"), (Count, "f_count"), (parity, "f_par")]),
    "dupfun": dict(recording=True, record_duplicates=True, recording_functions=[(parity, "f_par"), (Sum, "f_one"), (Count, "f_count"), (Sum, "f_two")]),
    "off": dict(recording=False, recording_functions=[(half, "f_half")]),
}
CLASSES = {}
for _o, _kw in OPTIONS.items():
    CLASSES[_o] = type("P" + _o, (UP.Actor,), {
        "s": UP.State(valid_types=(int, list, type(None)), **_kw),
        "other": UP.State(default=0, recording=True),
        "never": UP.State(default=5),
        "lazy": UP.State(allow_none_default=True, recording=True),
    })
Twin = type("Twin", (UP.Actor,), {"s": UP.State()})


class Ref:
    """The reference history of one state with its recording functions."""

    def __init__(self, name, kw):
        self.name, self.kw = name, kw
        self.h = {}
        self.count = 0
        self.sums = {}

    def add(self, name, t, v):
        h = self.h.setdefault(name, [])
        if not self.kw.get("record_duplicates") and h and h[-1] == (t, v):
            return
        h.append((t, v))

    def rec(self, t, v):
        if not self.kw.get("recording"):
            return
        self.add(self.name, t, copy.deepcopy(v))
        for f, n in self.kw.get("recording_functions", []):
            if f is Count:
                self.count += 1
                self.add(n, t, self.count)
            elif f is Sum:
                self.sums.setdefault(n, []).append(t)
                self.add(n, t, tuple(self.sums[n]))
            else:
                self.add(n, t, f(t, v))


def plain(ctx, depth):
    opt = ctx.choose(list(OPTIONS), "options")
    mutable = ctx.choose((False, True, "nested"), "mutable values")
    kw = OPTIONS[opt]
    with UP.EnvironmentContext(initial_time=3.0) as env:
        first = [[1], 1] if mutable == "nested" else [1] if mutable else 1

        def inside(v):
            return v[0] if mutable == "nested" else v
        A = CLASSES[opt]
        a = A(name="a", s=copy.deepcopy(first))
        twin = Twin(name="twin", s=copy.deepcopy(first))
        ref = Ref("s", kw)
        ref.rec(3.0, first)
        oref = [(3.0, 0)]
        env.run(until=4.0)
        b = A(name="b", s=copy.deepcopy(first))
        bref = Ref("s", kw)
        bref.rec(4.0, first)
        cur = copy.deepcopy(first)
        bcur = copy.deepcopy(first)
        for _ in range(depth):
            op = ctx.choose(("same", "new", "record", "adv", "bad", "mutate" if mutable else "back", "b", "other"))
            ctx.note(op)
            now = env.now
            if op == "same":
                a.s = a.s
                twin.s = twin.s
                ref.rec(now, cur)
            elif op == "new":
                if mutable:
                    cur = cur + [len(cur)]
                else:
                    cur = (cur or 0) + 1
                a.s, twin.s = copy.deepcopy(cur), copy.deepcopy(cur)
                ref.rec(now, cur)
            elif op == "back":
                cur = None
                a.s = twin.s = None
                ref.rec(now, cur)
            elif op == "mutate":
                inside(a.s).append(0)
                inside(twin.s).append(0)
                inside(cur).append(0)
            elif op == "record":
                a.record_state("s")
                ref.rec(now, cur)
            elif op == "adv":
                env.run(until=now + 1.5)
            elif op == "bad":
                try:
                    a.s = "text"
                    ctx.fail("a value of another type was accepted", "refusal")
                except TypeError:
                    pass
            elif op == "b":
                if mutable:
                    inside(b.s).append(7)
                    inside(bcur).append(7)
                    b.record_state("s")
                else:
                    bcur += 10
                    b.s = bcur
                bref.rec(now, bcur)
            else:
                a.other += 1
                oref.append((now, a.other))
            ctx.step()
            ctx.eq(a.s, twin.s, "value with and without recording", "value")
            ctx.eq(a.s, cur, "value", "value")
            ctx.state((opt, mutable, ref.h, bref.h))
        ctx.eq(b.s, bcur, "value of the other actor", "value")
        for act, r, o in ((a, ref, oref), (b, bref, [(4.0, 0)])):
            want = dict(r.h)
            want["other"] = o
            ctx.eq({k: list(v) for k, v in act._state_histories.items()}, want, f"histories of {act.name}", "history")
        ctx.eq(dict(twin._state_histories), {}, "histories of an actor that does not record", "history")
        ctx.outcome((opt, mutable, len(ref.h.get("s", ())), len(bref.h.get("s", ()))))


class Act(UP.Actor):
    lin = UP.LinearChangingState(default=10.0, recording=True, recording_functions=[(half, "f_half"), (Count, "f_count")])
    sh = UP.SharedLinearChangingState(default=20.0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    geo = UP.GeodeticLocationChangingState(recording=True)


class ActOff(UP.Actor):
    lin = UP.LinearChangingState(default=10.0)
    sh = UP.SharedLinearChangingState(default=20.0)
    loc = UP.CartesianLocationChangingState()
    geo = UP.GeodeticLocationChangingState()


class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


def loc_of(kind, v):
    if kind == "geo":
        return UP.GeodeticLocation(0.0, v)
    return UP.CartesianLocation(v, 0.0, 0.0)


def num(v):
    if isinstance(v, UP.CartesianLocation):
        return v.x
    if isinstance(v, UP.GeodeticLocation):
        return v.lon
    return v


ON, OFF = "ACTIVATING", "DEACTIVATING"


def active(ctx, depth):
    kind = ctx.choose(("lin", "sh", "loc", "geo"), "kind")
    with UP.EnvironmentContext(initial_time=3.0) as env:
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("stage_model", SphericalEarth)
        mk = {"loc": UP.CartesianLocation(0.0, 0.0, 0.0), "geo": UP.GeodeticLocation(0.0, 0.0)}
        actors = [Act(name="a", **mk), ActOff(name="b", **mk)]
        a = actors[0]
        tasks = [T(), T()]
        val = {"lin": 10.0, "sh": 20.0, "loc": 0.0, "geo": 0.0}[kind]
        rates = {}
        hist = [(3.0, val)]

        def rec(v):
            if hist[-1] != (env.now, v):
                hist.append((env.now, v))

        ops = ["on0", "off0", "read", "record", "adv", "set"] + (["on1", "off1"] if kind == "sh" else [])
        if kind == "geo":
            per_km = a.stage.stage_model.point_from_bearing_dist((0.0, 0.0), 90.0, 1.0, "km")[1]
        else:
            per_km = 1.0
        for _ in range(depth):
            op = ctx.choose(ops)
            ctx.note(op)
            if op[:2] == "on":
                t = int(op[2])
                if t in rates:
                    continue
                r = 2.0 + t
                for x, tk in zip(actors, (tasks, tasks)):
                    if kind in ("lin", "sh"):
                        x.activate_linear_state(state=kind, rate=r, task=tk[t])
                    else:
                        x.activate_location_state(state=kind, speed=r, waypoints=[loc_of(kind, 40.0), loc_of(kind, 80.0)], task=tk[t])
                rec(val)
                hist.append((env.now, ON))
                rates[t] = r
            elif op[:3] == "off":
                t = int(op[3])
                if t not in rates:
                    continue
                for x in actors:
                    x.deactivate_state(state=kind, task=tasks[t])
                del rates[t]
                rec(val)
                if not rates:
                    hist.append((env.now, OFF))
            elif op == "read":
                getattr(a, kind)
                if rates:
                    rec(val)
            elif op == "record":
                a.record_state(kind)
                rec(val)
            elif op == "set":
                if kind in ("loc", "geo") and rates:
                    continue
                val += 1.25
                for x in actors:
                    setattr(x, kind, loc_of(kind, val) if kind in ("loc", "geo") else val)
                rec(val)
            else:
                env.run(until=env.now + 1.5)
                val += sum(rates.values()) * 1.5 * per_km
            ctx.step()
            ctx.state((kind, val, sorted(rates), hist))
        for x in actors:
            n = len(hist)
            ctx.close(num(getattr(x, kind)), val, f"value of {x.name}", key="value")
        if rates:
            rec(val)
        got = [(t, v.value if hasattr(v, "value") and not isinstance(v, int | float) else num(v)) for t, v in a._state_histories[kind]]
        same = len(got) == len(hist) and all(
            g[0] == h[0] and (g[1] == h[1] if isinstance(g[1], str) or isinstance(h[1], str) else abs(g[1] - h[1]) < 1e-7)
            for g, h in zip(got, hist))
        ctx.check(same, lambda: f"history of {kind}: real {got} expected {hist}", "history")
        ctx.eq(dict(actors[1]._state_histories), {}, "histories of an actor that does not record", "history")
        if kind == "lin":
            f = a._state_histories["f_half"]
            vals = [h for h in hist if not isinstance(h[1], str)]
            ctx.check(all(isinstance(x[1], tuple) and x[1][0] == x[0] for x in f), lambda: f"time given to a recording function: {f}", "function")
            want = []
            for t, v in vals:
                if not want or want[-1] != (t, v):
                    want.append((t, v))
            ctx.check(len(want) == len(f) and all(x[0] == w[0] and abs(float(x[1][1]) - w[1]) < 1e-7 for x, w in zip(f, want)),
                      lambda: f"series of a recording function: {f} expected {want}", "function")
            ctx.eq([x[1] for x in a._state_histories["f_count"]], list(range(1, 1 + len(a._state_histories["f_count"]))), "recording class", "function")
            ctx.check(len(a._state_histories["f_count"]) >= len(vals), "recording class not called for every record", "function")
        ctx.outcome((kind, len(hist), n))


def harnesses(tier):
    q = tier == "quick"
    return [Harness("plain", plain, depth=5 if q else 6), Harness("active", active, depth=5 if q else 7)]
