"""C39: the clock as shown, and the debug log.

Every spelling of every time unit, with and without a day length, at a grid of
times around all carries (seconds to minutes to hours to days): the text is
computed from exact rational numbers.  All sequences of logging, waiting,
cloning, rehearsing and interrupting for every setting of the log: each log is
compared with a reference list.
"""
import math
from fractions import Fraction as F

import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "13 spellings of units x 5 day lengths x 4 initial times x 420 times each around carries; logs: 18 settings x all sequences of 4 of 9 operations; flow: 3 networks x "
                   "10 interrupt times x 3 reactions",
          "thorough": "3 times as many times; sequences of 5"}
ORACLE = "exact division of rational times; a list of what was logged"

PER = {"s": 1, "second": 1, "seconds": 1, "min": 60, "minute": 60, "minutes": 60, "hr": 3600, "hour": 3600, "hours": 3600}
UNITS = ["s", "Seconds", "second", "min", "MINUTE", "minutes", "hr", "Hour", "hours", None, "unset", "ticks", "Clock Ticks", "days"]
DAYS = [None, 125, 10, 2.5, 0.5]


def shown(now, unit, count):
    """The texts that may be shown for the float time `now`."""
    unit = "hr" if unit in (None, "unset") else unit
    if unit.lower() in PER:
        sec = F(now) * PER[unit.lower()]
        out = set()
        for s in {math.floor(sec), math.floor(sec + F(1, 10**6))}:
            d, r = divmod(s, 86400)
            out.add(f"[Day {d:>4d} - {r // 3600:02d}:{r % 3600 // 60:02d}:{r % 60:02d}]")
        return out
    if count is None:
        return {f"[{now:.3f} {unit}]"}
    d = F(now) // F(count)
    return {f"[Day {int(d):>4d} - {float(F(now) - d * F(count)):.3f} {unit}]"}


def times(unit, thorough):
    """Times at and around the carries, most of them not representable exactly."""
    per = PER.get((unit or "hr").lower(), 3600)
    if unit and unit.lower() not in PER and unit != "unset":
        return [i / 8 for i in range(0, 160)] + [10.0 * i for i in range(60)] + [125.0 * i + x for i in range(1, 9) for x in (-0.125, 0, 0.125, 62.5)]
    secs = list(range(0, 130)) + [60 * i for i in range(3, 130)] + [3600 * i + x for i in range(3, 60) for x in (0, -1)] + [86400 * i + x for i in (1, 2, 9, 10, 99, 365, 1000) for x in (-1, 0, 1, 59, 60, 3599, 3600, 43200)]
    if thorough:
        secs += list(range(130, 700)) + [60 * i + 31 for i in range(130, 800)]
    return [s / per for s in sorted(set(secs))] + ([i + 0.5 for i in range(20)] if per == 1 else [])


class Teller(UP.Actor):
    n = UP.State(default=0)


class Nap(UP.Task):
    def task(self, *, actor):
        actor.seen = (self.pretty_now, actor.pretty_now, self.env.now)
        yield UP.Wait(5.0)
        actor.after = (self.pretty_now, actor.pretty_now, self.env.now)


def clock(ctx, thorough):
    unit, count, start = ctx.choose(UNITS, "unit"), ctx.choose(DAYS, "day length"), ctx.choose((0.0, 1.0, 7.75, 60.25), "initial time")
    with UP.EnvironmentContext(initial_time=start) as env:
        if unit != "unset":
            UP.add_stage_variable("time_unit", unit)
        if count is not None:
            UP.add_stage_variable("daily_time_count", count)
        base, actor = UP.UpstageBase(), Teller(name="t", debug_log_time=True)
        n = 0
        for t in times(unit, thorough):
            if t < start or (t > env.now and env.run(until=t)):
                continue
            t = env.now
            ok = shown(t, unit, count)
            ctx.check(base.pretty_now in ok, lambda: f"{t} {unit} (day {count}) shown as {base.pretty_now}, expected {sorted(ok)}", "shown")
            ctx.eq(actor.pretty_now, base.pretty_now, "the same for everybody", "everybody")
            actor.log(f"m{n}")
            ctx.check(actor.get_log()[n] == (t, f"{base.pretty_now} m{n}"), lambda: f"logged as {actor.get_log()[n]}", "entry")
            n += 1
            if n % 16 == 1:
                # a rehearsal has a clock of its own
                twin = Nap().rehearse(actor=actor)
                for x, when in ((twin.seen, t), (twin.after, t + 5.0)):
                    ctx.close(x[2], when, "rehearsed time", key="rehearsal")
                    ctx.check(x[0] == x[1] and x[0] in shown(x[2], unit, count), lambda: f"{x[2]} is shown as {x[:2]} in a rehearsal", "rehearsal")
                ctx.check(base.pretty_now in ok, "the clock after a rehearsal", "rehearsal")
            ctx.step()
            ctx.state((unit, count, t))
        ctx.check(n > 3, "times were tried")
        ctx.outcome((unit, count))


# ---------------------------------------------------------------- the log

class Says(UP.Task):
    def task(self, *, actor):
        actor.log("begins")
        yield UP.Wait(1.5)
        actor.log("ends")


def entry(env_now, text, timed):
    if not timed:
        return (env_now, text)
    t = shown(env_now, "unset", None)
    return (env_now, f"{min(t)} {text}")


def log(ctx, depth):
    on, own, stage = ctx.choose((True, False), "debug_log"), ctx.choose((None, True, False), "of the actor"), ctx.choose((None, True, False), "of the stage")
    timed = own if own is not None else stage if stage is not None else True
    with UP.EnvironmentContext(initial_time=3.0) as env:
        if stage is not None:
            UP.add_stage_variable("debug_log_time", stage)
        a = Teller(name="a", debug_log=on, debug_log_time=own)
        b = Teller(name="b")  # with the settings of the stage only
        quiet = Teller(name="quiet", debug_log=False)
        want, wantb = [], []
        clones = []
        n = 0
        other = stage is not False
        ops = ["say", "empty", "wait", "b", "clone", "clone says", "rehearse", "run", "read"] + ([] if timed else ["object"])
        for _ in range(depth):
            op = ctx.choose(ops, "op")
            n += 1
            if op == "say":
                ctx.check(a.log(f"x{n}") is None, "logging returns something", "return")
                want += [entry(env.now, f"x{n}", timed)]
            elif op == "empty":
                a.log("")
                want += [entry(env.now, "", timed)]
            elif op == "object":
                a.log({"n": n})
                want += [(env.now, {"n": n})]
            elif op == "wait":
                env.run(until=env.now + 0.375)
            elif op == "b":
                b.log(f"y{n}")
                quiet.log(f"y{n}")
                wantb += [entry(env.now, f"y{n}", other)]
            elif op == "clone":
                clones.append((a.clone(), list(want), env.now))
            elif op == "clone says":
                for c, w, at in clones:
                    c.log(f"z{n}")
                    w += [entry(at, f"z{n}", timed)]  # the time of a clone stands still
            elif op == "rehearse":
                t = env.now
                c = Says().rehearse(actor=a)
                got = [x for x in c.log() or []]
                exp = want + [entry(t, "begins", timed), entry(t + 1.5, "ends", timed)] if on else []
                ctx.check(mine(got) == exp, lambda: f"log of a rehearsal {got}, expected {exp}", "rehearsal")
            elif op == "run":
                Says().run(actor=a)
                t = env.now
                env.run(until=t + 2.0)
                want += [entry(t, "begins", timed), entry(t + 1.5, "ends", timed)]
            if not on:
                want = []
            ctx.step()
            for act, w in ((a, want), (b, wantb), (quiet, [])):
                ctx.check(act.log() is not None and list(act.log()) == list(act.get_log()), "two ways of reading", "read")
                ctx.check(mine(act.get_log()) == w, lambda: f"log of {act.name}: {act.get_log()}, expected {w}", "log")
            for c, w, _at in clones:
                ctx.check(mine(c.get_log()) == (w if on else []), lambda: f"log of a clone: {c.get_log()}, expected {w}", "clone")
        ctx.state((on, own, stage, want))
        ctx.outcome(len(want))


def mine(entries):
    """What the model logged: the library may add notes of its own."""
    out = []
    for e in entries:
        text = e[1]
        if not isinstance(text, str):
            out.append(e)
            continue
        t = text.split("] ", 1)[-1] if text.startswith("[Day") else text
        if t in ("", "begins", "ends") or t[:1] in "xyz" and t[1:].isdigit():
            out.append(e)
    return out


# ---------------------------------------------------------------- the flow of tasks

class One(UP.Task):
    def task(self, *, actor):
        actor.log("x1")
        yield UP.Wait(1.0)
        actor.log("x2")

    def on_interrupt(self, *, actor, cause):
        if cause == "end":
            return self.INTERRUPT.END
        return self.INTERRUPT.RESTART if cause == "again" else self.INTERRUPT.IGNORE


class Two(One):
    def task(self, *, actor):
        actor.log("x3")
        yield UP.Wait(0.5)
        actor.log("x4")


class Stop(UP.TerminalTask):
    def log_message(self, *, actor):
        return f"x{9000 + actor.n}"


def flow(ctx):
    """A log tells which tasks were started when, and what the code of the tasks logged."""
    which = ctx.choose(("loop", "line", "choice"), "network")
    when = ctx.choose((None, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0, 2.125), "interrupt")
    cause = ctx.choose(("end", "again", "ignore"), "reaction") if when is not None else ""
    on = ctx.choose((True, False), "debug_log")
    timed = ctx.flag("with times")
    with UP.EnvironmentContext() as env:
        a = Teller(name="a", debug_log=on, debug_log_time=timed, n=7)
        other = Teller(name="other", debug_log_time=timed)
        if which == "loop":
            f = UP.TaskNetworkFactory.from_ordered_loop("net", [One, Two])
        elif which == "line":
            f = UP.TaskNetworkFactory("net", {"One": One, "Two": Two, "Stop": Stop}, {"One": UP.TaskLinks(default="Two", allowed=["Two"]), "Two": UP.TaskLinks(default="Stop", allowed=["Stop"])})
        else:
            f = UP.TaskNetworkFactory("net", {"One": One, "Two": Two}, {"One": UP.TaskLinks(default="One", allowed=["One", "Two"]), "Two": UP.TaskLinks(default="One", allowed=["One"])})
        a.add_task_network(f.make_network())
        a.start_network_loop("net", "One")
        if when is not None:
            def stop():
                yield env.timeout(when)
                a.interrupt_network("net", cause=cause)
            env.process(stop())
        terminal = which == "line"
        # the reference: (time, entry) of the model's own messages and (time, task) of the starts
        t, task, want, starts, cut = 0.0, "One", [], [], when
        nxt = {"loop": {"One": "Two", "Two": "One"}, "line": {"One": "Two", "Two": "Stop"}, "choice": {"One": "One"}}[which]
        refused = False
        while t < 2.375:
            starts.append((t, task))
            again = True
            while again:
                again = False
                if task == "Stop":
                    want.append((t, "x9007"))
                    if cut is not None:
                        refused = True
                    t = 99.0
                    break
                first, last, length = ("x1", "x2", 1.0) if task == "One" else ("x3", "x4", 0.5)
                want.append((t, first))
                if cut is not None and t < cut <= t + length and cause != "ignore":
                    # an interrupt comes before what was scheduled later for the same instant
                    if cut == t + length:
                        return
                    t, cut, again = cut, None, cause == "again"
                    continue
                if cut is not None and cut <= t + length:
                    if cut == t + length or cut == t:
                        return
                    cut = None
                t += length
                want.append((t, last))
            task = nxt.get(task)
        try:
            env.run(until=2.375)
        except UP.SimulationError:
            ctx.check(refused, "the run failed", "failed")
        want = [w for w in want if w[0] < 2.375]
        starts = [s for s in starts if s[0] < 2.375]
        if not on:
            ctx.eq(a.get_log(), [], "log of an actor that does not log", "off")
            return
        got = mine(a.get_log())
        exp = [entry(x, m, timed) for x, m in want]
        ctx.check(got == exp, lambda: f"log {got}, expected {exp}", "flow")
        ctx.check([x for x, _ in a.get_log()] == sorted(x for x, _ in a.get_log()), "log out of order", "order")
        ctx.check(all(m.startswith(min(shown(x, "unset", None)) + " ") for x, m in a.get_log()) if timed else not any(m.startswith("[Day") for _, m in a.get_log()),
                  lambda: f"times in {a.get_log()}", "times")
        # every start of a task is noted, before what the task itself logs
        log_ = a.get_log()
        for x, name in starts:
            mark = {"One": "x1", "Two": "x3", "Stop": "x9007"}[name]
            at = [i for i, e in enumerate(log_) if e == entry(x, mark, timed)]
            ctx.check(any(e[0] == x and name in e[1] for e in log_[:at[0]]), lambda: f"the start of {name} at {x} is not in {log_}", "starts")
        named = [(x, m) for x, m in log_ if "tarting" in m]
        if cause not in ("end", "again"):
            ctx.check({x for x, _ in named} <= {x for x, _ in starts}, lambda: f"starts noted at other times: {named}", "starts")
        ctx.eq(other.get_log(), [], "another actor's log", "other")
        ctx.step()
        ctx.state((which, when, cause, timed))
        ctx.outcome(want)


def harnesses(tier):
    t = tier == "thorough"
    return [Harness("clock", clock, thorough=t), Harness("log", log, depth=5 if t else 4), Harness("flow", flow)]
