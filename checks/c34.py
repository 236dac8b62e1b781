"""C34: unit conversions are complete, consistent and invertible; waits and clocks use them.

All pairs and triples of units in every spelling, on a range of values, against
exact fractions; waits in every unit under every stage unit, alone, combined and
rehearsed; displayed clock times.
"""
from fractions import Fraction as F

import upstage_des.api as UP
from upstage_des.units import unit_convert

from mc.engine import Harness
from mc.sim import drive

BOUNDS = {"quick": "10 units in 34 spellings: all pairs x 12 values, all triples of units of a kind; all pairs of a unknown or incompatible; waits: 22 time spellings x 26 stage units x 5 "
                   "values x 5 uses; clock: 30 stage units x 40 times",
          "thorough": "the same with 40 values and 400 clock times"}
ORACLE = "exact fractions of the defined lengths and times"

METRES = {"m": F(1), "km": F(1000), "ft": F(3048, 10000), "mi": F(1609344, 1000), "nmi": F(1852)}
SECONDS = {"s": F(1), "min": F(60), "hr": F(3600), "day": F(86400), "week": F(604800)}
SPELL = {u: [u, u.upper(), u.capitalize()] for u in METRES}
SPELL.update({"s": ["s", "second", "seconds", "S", "Seconds"], "min": ["min", "minute", "minutes", "MIN", "Minutes"], "hr": ["hr", "hour", "hours", "HR", "Hours"],
              "day": ["day", "days", "Day", "DAYS"], "week": ["week", "weeks", "Week", "WEEKS"]})
KINDS = [METRES, SECONDS]
# the mile and nautical mile are defined to six digits or more
TOL = {**{u: 1e-12 for u in SECONDS}, "m": 1e-12, "km": 1e-12, "ft": 1e-9, "mi": 1e-9, "nmi": 1e-6}


def refused(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False


def pairs(ctx, values):
    kind = ctx.choose(KINDS)
    a, b = ctx.choose(list(kind), "from"), ctx.choose(list(kind), "to")
    sa, sb = ctx.choose(SPELL[a]), ctx.choose(SPELL[b])
    factor = kind[a] / kind[b]
    for v in values:
        got = unit_convert(v, sa, sb)
        ctx.close(got, float(F(v) * factor), f"{v} {sa} in {sb}", tol=0 if a == b else max(TOL[a], TOL[b]), key="value")
        if abs(v) < 1e-6 and v:
            ctx.check(abs(got / (v * float(factor)) - 1) < 1e-5, "tiny values", "value")
        if a == b:
            ctx.check(got == v, lambda: f"{v} {sa} is {got} {sb}", "same")
        back = unit_convert(got, sb, sa)
        ctx.check(abs(back - v) <= 4e-15 * abs(v), lambda: f"{v} {sa} to {sb} and back is {back}", "round trip")
        ctx.check(unit_convert(v, a, b) == got, "spelling", "spelling")
        ctx.step(3)
    ctx.state((a, b, sa, sb))


def triples(ctx, values):
    kind = ctx.choose(KINDS)
    a, b, c = (ctx.choose(list(kind), x) for x in "abc")
    for v in values:
        one, two = unit_convert(v, a, c), unit_convert(unit_convert(v, a, b), b, c)
        ctx.check(abs(one - two) <= 1e-14 * abs(one), lambda: f"{v} {a} is {one} {c}, but {two} through {b}", "transitive")
        ctx.step(3)
    ctx.state((a, b, c))


def wrong(ctx):
    units = list(METRES) + list(SECONDS) + ["parsec", "", "ticks", "k m", "secs"]
    a, b = ctx.choose(units, "from"), ctx.choose(units, "to")
    known = (a in METRES and b in METRES) or (a in SECONDS and b in SECONDS)
    for v in (0, 1, 1.5):
        ctx.check(refused(lambda: unit_convert(v, a, b), ValueError) is not known, lambda: f"{a} to {b}: {'refused' if known else 'accepted'}", "refused")
    ctx.state((a, b))


STAGE = ["unset", None] + [s for u in SECONDS for s in SPELL[u]]


class X(UP.Actor):
    pass


class One(UP.Task):
    def task(self, *, actor):
        w = self.stage.w
        if w.use == "all":
            yield UP.All(w.wait(), UP.Wait(0))
        elif w.use == "any":
            yield UP.Any(w.wait(), UP.Wait(w.longer))
        elif w.use == "random":
            low = self.env.now
            yield UP.Wait.from_random_uniform(w.value, w.value, w.unit)
            assert self.env.now >= low
        else:
            yield w.wait()
        w.ends.append(self.env.now)


class W:
    def wait(self):
        return UP.Wait(self.value, self.unit)


def waits(ctx, values):
    stage = ctx.choose(STAGE, "stage unit")
    units = [(u, s) for u in SECONDS for s in SPELL[u]] + [(None, None)]
    u, s = ctx.choose(units, "unit")
    base = next((k for k in SECONDS if stage in SPELL[k]), "hr")
    w = W()
    w.unit, w.ends = s, []
    w.use = ctx.choose(("task", "rehearse", "all", "any", "random"), "use")
    for v in values:
        w.value = v
        expected = float(F(v) * SECONDS[u] / SECONDS[base]) if u else float(v)
        w.longer = expected + 1 + expected * 1e-3
        w.ends.clear()
        with UP.EnvironmentContext(initial_time=3.0) as env:
            if stage != "unset":
                UP.add_stage_variable("time_unit", stage)
            UP.add_stage_variable("w", w)
            x = X(name="x")
            if w.use == "rehearse":
                clone = One().rehearse(actor=x)
                ctx.close(clone.env.now, 3.0 + expected, f"Wait({v}, {s}) rehearsed in {stage}", tol=1e-12, key="rehearsed")
                ctx.eq(env.now, 3.0, "clock", "clock")
            else:
                One().run(actor=x)
                env.run(until=3.0 + 1e9)
                ctx.close(w.ends[0], 3.0 + expected, f"Wait({v}, {s}) in {stage}", tol=1e-12, key="waited")
            ctx.step()
    ctx.state((stage, s, w.use))


def wrong_waits(ctx):
    stage = ctx.choose(["unset", "hr", "ticks", "s"], "stage unit")
    unit = ctx.choose(["parsec", "m", "km", "ticks"], "unit")
    with UP.EnvironmentContext():
        if stage != "unset":
            UP.add_stage_variable("time_unit", stage)
        if stage == unit:
            return
        ctx.check(refused(lambda: UP.Wait(1.0, unit), ValueError, UP.UpstageError), f"Wait in {unit} accepted with {stage}", "refused")
        ctx.check(refused(lambda: UP.Wait.from_random_uniform(1, 2, unit), ValueError, UP.UpstageError), "random", "refused")
        if stage == "ticks":
            ctx.check(refused(lambda: UP.Wait(1.0, "hr"), ValueError, UP.UpstageError), "hours in ticks", "refused")
    ctx.state((stage, unit))


def clock(ctx, n):
    """The displayed time is the time, within a second, in days and hours or in the unit."""
    stage = ctx.choose(STAGE + ["ticks", "Ticks of 10"], "stage unit")
    base = next((k for k in SECONDS if stage in SPELL[k]), "hr" if stage in ("unset", None) else None)
    k = ctx.choose(n)
    t = [0.0, 0.25, 1.0, 23.5, 24.0, 25.75, 60.0, 3600.0, 86400.0, 90061.0][k % 10] * (1 + k // 10) + (k // 10) * 0.125
    with UP.EnvironmentContext(initial_time=t):
        if stage != "unset":
            UP.add_stage_variable("time_unit", stage)
        if stage == "Ticks of 10":
            UP.add_stage_variable("daily_time_count", 10)
        shown = UP.UpstageBase().pretty_now
        if base in ("s", "min", "hr"):
            day, hms = shown.strip("[]").replace("Day", "").split("-")
            h, m, s = (int(x) for x in hms.strip().split(":"))
            ctx.check(h < 24 and m < 60 and s < 60, shown, "shown")
            got = int(day) * 86400 + h * 3600 + m * 60 + s
            ctx.check(abs(got - float(F(t) * SECONDS[base])) <= 1.0, lambda: f"{t} {stage} is shown as {shown}", "shown")
        elif stage == "Ticks of 10":
            day, rest = shown.strip("[]").replace("Day", "").split(" - ")
            ctx.close(int(day) * 10 + float(rest.split()[0]), t, f"{t} shown as {shown}", tol=1e-3, key="shown")
            ctx.check(float(rest.split()[0]) < 10.001 and rest.split(None, 1)[1] == stage, shown, "shown")
        else:
            ctx.eq(shown, f"[{t:.3f} {stage}]", "shown", "shown")
    ctx.state((stage, t))


VALUES = [0, 1, 1.0, -2.5, 3, 7.25, 60, 3600, 1e-9, 1e9, 0.1, 12345.678]


def harnesses(tier):
    more = VALUES + ([10.0 ** k for k in range(-12, 13)] + [1 / 3, 2 / 7, -1e-3] if tier != "quick" else [])
    waited = [0, 1, 0.5, 90, 7.25] + ([1 / 3, 86400, 1e-4] if tier != "quick" else [])
    return [Harness("pairs", pairs, values=more), Harness("triples", triples, values=more), Harness("wrong", wrong), Harness("waits", waits, values=waited),
            Harness("wrong waits", wrong_waits), Harness("clock", clock, n=40 if tier == "quick" else 400)]
