"""C13: mimicking states over every sequence of mimic operations and source changes.

Every sequence of activating, stopping (by the right or a wrong task, singly or
for the whole task) three mimics on two actors, changing the source and letting
time pass is executed; the source may be a plain, a linear, a shared or a moving
state.  Values and recorded histories are compared with a reference.
"""
import upstage_des.api as UP

from mc.engine import Harness
from mc.sim import Injector, drive, ticks

BOUNDS = {"quick": "all sequences of 4 of 13 operations x 3 kinds of source state x observed at every step or only at the end; "
                   "2 mimicking tasks interrupted at every event boundary; chains of mimics; all pairs of 10 kinds of states",
          "thorough": "5 operations, shared source states, 2 interrupts"}
ORACLE = "source value while the mimic is on, the value at the stop afterwards"


class Src(UP.Actor):
    x = UP.State(default=1.0, recording=True)
    y = UP.State(default=-1.0, recording=True)
    lin = UP.LinearChangingState(default=10.0, recording=True)
    sh = UP.SharedLinearChangingState(default=20.0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)


class Mim(UP.Actor):
    m = UP.State(default=0.0, recording=True)
    n = UP.LinearChangingState(default=500.0, recording=True)
    k = UP.State(default=0.0)


class Quiet(UP.Actor):
    """Mimics without recording."""
    m = UP.State(default=0.0)


class LMim(UP.Actor):
    m = UP.CartesianLocationChangingState(recording=True)
    n = UP.State(default=500.0, recording=True)
    k = UP.State(default=0.0)


class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


def num(v):
    return v.x if isinstance(v, UP.CartesianLocation) else v


def ops(ctx, depth):
    kind = ctx.choose(("x", "lin", "loc") if ctx.tier == "quick" else ("x", "lin", "sh", "loc"), "source")
    observe = ctx.flag("observe")
    with UP.EnvironmentContext(initial_time=7.0) as env:
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        o = UP.CartesianLocation
        src = Src(name="src", loc=o(0, 0, 0))
        src2 = Src(name="src2", loc=o(77, 0, 0))
        if kind == "loc":
            a, b = LMim(name="a", m=o(5, 0, 0)), LMim(name="a", m=o(6, 0, 0))  # a name is not an identity
            held = {"am": 5.0, "an": 500.0, "bm": 6.0}
        else:
            a, b = Mim(name="a"), Mim(name="a")
            held = {"am": 0.0, "an": 500.0, "bm": 0.0}
        tasks = [T(), T()]
        driver = T()
        # mimics: key -> (actor, state, source state, task)
        M = {"am": (a, "m", kind, 0), "an": (a, "n", "y", 1), "bm": (b, "m", kind, 1)}
        on = {}
        val = {"x": 1.0, "y": -1.0, "lin": 10.0, "sh": 20.0, "loc": 0.0}
        rate = 0.0
        active = False
        expect_hist = {k: [] for k in M}        # values the source certainly records meanwhile
        truth = [(env.now, dict(val))]          # (time, {state: value}) at every change
        first = dict(held)

        def source_set(s, v):
            val[s] = v
            for k in on:
                if M[k][2] == s:
                    expect_hist[k].append((env.now, v))

        def stop(k):
            held[k] = val[M[k][2]]
            on.pop(k)

        OPS = [("on", k) for k in M] + [("off", k) for k in M] + [("wrong", "am")] + \
              [("all", (a, 0)), ("all", (a, 1)), ("set", kind), ("set", "y"), ("toggle", 0), ("adv", 2.0)]
        hist = []
        for _ in range(depth):
            op, x = ctx.choose(OPS, None)
            ctx.note(f"{op} {x if not isinstance(x, tuple) else x[0].name + str(x[1])}")
            if op == "on":
                act, st, ss, t = M[x]
                try:
                    act.activate_mimic_state(self_state=st, mimic_state=ss, mimic_actor=src2 if x in on and x != "an" else src, task=tasks[t])
                    ctx.check(x not in on, "a second mimic of the same state was accepted", "refusal")
                except UP.UpstageError:
                    ctx.check(x in on, "mimic refused", "refusal")
                on[x] = True
            elif op == "off":
                act, st, ss, t = M[x]
                if x not in on:
                    continue
                stop(x)
                act.deactivate_mimic_state(self_state=st, task=tasks[t])
            elif op == "wrong":
                act, st, ss, t = M[x]
                try:
                    act.deactivate_mimic_state(self_state=st, task=tasks[1 - t])
                    ctx.fail("a task stopped the mimic of another task", "refusal")
                except Exception as e:
                    if type(e).__name__ == "Violation":
                        raise
            elif op == "all":
                act, t = x
                for k in list(on):
                    if M[k][0] is act and M[k][3] == t:
                        stop(k)
                act.deactivate_all_mimic_states(task=tasks[t])
            elif op == "set":
                if x == "loc":
                    if active:
                        continue
                    src.loc = o(31.0, 0, 0)
                    source_set("loc", 31.0)
                else:
                    v = val[x] + 7.0
                    setattr(src, x, v)
                    source_set(x, v)
            elif op == "toggle":
                if kind == "x":
                    src.x = 3.25
                    source_set("x", 3.25)
                elif active:
                    active, rate = False, 0.0
                    src.deactivate_state(state=kind, task=driver)
                else:
                    active, rate = True, 2.0
                    if kind == "loc":
                        src.activate_state(state="loc", speed=2.0, waypoints=[o(1000.0, 0, 0)], task=driver)
                    else:
                        src.activate_state(state=kind, rate=2.0, task=driver)
            else:
                env.run(until=env.now + x)
                val[kind] += rate * x
            ctx.step()
            truth.append((env.now, dict(val)))
            if observe:
                for k, (act, st, ss, _t) in M.items():
                    ctx.close(num(getattr(act, st)), val[ss] if k in on else held[k], f"{k} after {op}", key="value")
                    if k in on:
                        last = [(t, num(v)) for t, v in act._state_histories[st]][-1]
                        ctx.check(last[0] == env.now and abs(last[1] - val[ss]) < 1e-9, lambda: f"{k} was read at {env.now} but recorded {last} last", "history")
                ctx.close(num(getattr(src, kind)), val[kind], "source", key="source")
            ctx.state((kind, sorted(on), sorted(held.items()), val[kind], active))
            hist.append(op)
        env.run(until=env.now + 1.0)
        val[kind] += rate
        truth.append((env.now, dict(val)))
        for k, (act, st, ss, _t) in M.items():
            ctx.close(num(getattr(act, st)), val[ss] if k in on else held[k], f"{k} at the end", key="value")
        for k in list(on):
            stop(k)
            M[k][0].deactivate_mimic_state(self_state=M[k][1], task=tasks[M[k][3]])
        src.x = src.y = 999.0
        env.run(until=env.now + 1.0)
        for k, (act, st, ss, _t) in M.items():
            ctx.close(num(getattr(act, st)), held[k], f"{k} after all mimics stopped", key="value")
            got = [(t, num(v)) for t, v in act._state_histories[st] if isinstance(num(v), int | float)]
            j = 0
            for e in expect_hist[k]:
                while j < len(got) and not (got[j][0] == e[0] and abs(got[j][1] - e[1]) < 1e-9):
                    j += 1
                ctx.check(j < len(got), lambda: f"{k} did not record {e}, only {got}", "history")
            for t, v in got[1:]:
                ctx.check(any(tt == t and abs(x[ss] - v) < 1e-6 for tt, x in truth),
                          lambda: f"{k} recorded {v} at {t}, which {ss} never was then", "history")
            ctx.close(got[0][1], first[k], f"first record of {k}", key="history")
            ctx.check([t for t, _ in got] == sorted(t for t, _ in got), "history out of order", "history")
        for k in ("am", "an", "bm"):
            act, st = M[k][0], M[k][1]
            ctx.check(not hasattr(act, "k") or act.k == 0.0, "a state that mimics nothing changed", "other")
        ctx.eq((src2.x, src2.y, src2.lin, src2.sh, src2.loc.x), (1.0, -1.0, 10.0, 20.0, 77), "another source", "other")
        ctx.outcome((kind, tuple(hist)))


class Mimicker(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(self.start)
        actor.activate_mimic_state(self_state=self.st, mimic_state=self.src_state, mimic_actor=self.src, task=self)
        self.on.append((self.st, actor.env.now))
        yield UP.Wait(2.0)
        actor.deactivate_mimic_state(self_state=self.st, task=self)
        self.off.append((self.st, actor.env.now))

    def on_interrupt(self, *, actor, cause):
        if cause == "ignore":
            return self.INTERRUPT.IGNORE
        self.off.append((self.st, actor.env.now))
        return self.INTERRUPT.END


class Burner(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)
        actor.activate_linear_state(state="lin", rate=2.0, task=self)
        yield UP.Wait(2.5)
        actor.deactivate_all_states(task=self)
        actor.x = 9.0
        yield UP.Wait(0.5)
        actor.x = 11.0


def lin_at(t):
    return 10.0 + 2.0 * min(2.5, max(0.0, t - 1.0))


def tasks(ctx, budget):
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        src = Src(name="src", loc=UP.CartesianLocation(0, 0, 0))
        a = Mim(name="a")
        on, off, procs = [], [], []
        srcst = ctx.choose(("lin", "x"), "source")
        order = ctx.flag("burner first")
        if order:
            Burner().run(actor=src)
        for i, st in enumerate(("m", "n")):
            t = Mimicker()
            t.start = ctx.choose((1.0, 0.5, 2.0, 3.5), f"start{i}")
            t.st, t.src, t.src_state, t.on, t.off = st, src, srcst, on, off
            procs.append(t.run(actor=a))
        if not order:
            Burner().run(actor=src)
        ticks(env, [0.25, 1.5, 2.25])
        who = ctx.choose(2, "interrupted")
        inj = Injector(ctx, env, lambda: procs[who], budget=budget, causes=("end", "ignore"))
        drive(ctx, env, 8.0, before=inj)
        for st, base in (("m", 0.0), ("n", 500.0)):
            v = getattr(a, st)
            s = [t for x, t in on if x == st]
            e = [t for x, t in off if x == st]
            if not s:
                ctx.eq(v, base, f"{st} never mimicked", key="value")
                continue
            if srcst == "lin":
                ctx.close(v, lin_at(e[0]), f"{st} stopped at {e[0]}", key="value")
            else:
                ok = {1.0} if e[0] < 3.5 else {9.0} if 3.5 < e[0] < 4.0 else {11.0} if e[0] > 4.0 else \
                    ({1.0, 9.0} if e[0] == 3.5 else {9.0, 11.0})
                ctx.check(v in ok, f"{st} stopped at {e[0]} holds {v}, expected one of {ok}", "value")
        ctx.close(src.lin, 15.0, "source value", key="source")
        ctx.state((srcst, on, off))
        ctx.outcome((on, off, a.m, a.n))


def chain(ctx):
    """a mimics b which mimics c: values and records pass through."""
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        c = Src(name="c", loc=UP.CartesianLocation(0, 0, 0))
        b, a = ctx.choose((Mim, Quiet), "middle")(name="b"), Mim(name="a")
        t1, t2 = T(), T()
        on = {}
        v, hb, ha = 1.0, 0.0, 0.0
        seen = {"a": [], "b": []}
        for _ in range(6):
            op = ctx.choose(("b", "a", "set", "adv", "read"))
            ctx.note(op)
            if op == "b":
                if on.pop("b", None):
                    hb = v
                    b.deactivate_mimic_state(self_state="m", task=t1)
                else:
                    on["b"] = True
                    b.activate_mimic_state(self_state="m", mimic_state="x", mimic_actor=c, task=t1)
            elif op == "a":
                if on.pop("a", None):
                    ha = v if "b" in on else hb
                    a.deactivate_mimic_state(self_state="m", task=t2)
                else:
                    on["a"] = True
                    a.activate_mimic_state(self_state="m", mimic_state="m", mimic_actor=b, task=t2)
            elif op == "set":
                v += 1.0
                c.x = v
                if "b" in on:
                    if isinstance(b, Mim):
                        seen["b"].append((env.now, v))
                    if "a" in on:
                        seen["a"].append((env.now, v))
            elif op == "adv":
                env.run(until=env.now + 1.0)
            else:
                ctx.eq(a.m, (v if "b" in on else hb) if "a" in on else ha, "end of the chain", "value")
            ctx.step()
        ctx.eq(b.m, v if "b" in on else hb, "middle of the chain", "value")
        ctx.eq(a.m, (v if "b" in on else hb) if "a" in on else ha, "end of the chain", "value")
        for n, act in (("a", a), ("b", b)):
            for e in seen[n]:
                ctx.check(e in act._state_histories["m"], lambda: f"{n} did not record {e}: {act._state_histories['m']}", "chain-history")
        for k, act, t in (("a", a, t2), ("b", b, t1)):
            if k in on:
                act.deactivate_all_mimic_states(task=t)
        ctx.outcome((v, sorted(on)))


class Kinds(UP.Actor):
    any = UP.State(default=1.0)
    num = UP.State(default=2.0, valid_types=(int, float))
    text = UP.State(default="t", valid_types=str, recording=True)
    none = UP.State(default=0.5, valid_types=(float, type(None)))
    lin = UP.LinearChangingState(default=10.0, recording=True)
    sh = UP.SharedLinearChangingState(default=20.0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    place = UP.State(valid_types=UP.CartesianLocation, recording=True)
    d = UP.DictionaryState(recording=True)
    flag = UP.DetectabilityState(default=True)


ACCEPTS = {"any": object, "num": (int, float), "text": str, "none": (float, type(None)), "lin": object, "sh": float, "loc": UP.CartesianLocation,
           "place": UP.CartesianLocation, "flag": bool}
PAIRS = [n for n in ACCEPTS] + ["d"]


def types(ctx):
    """Every pair of states: accepted exactly when the value is of a type of the mimicking state; a refusal leaves no trace."""
    mine, theirs = ctx.choose(PAIRS, "own state"), ctx.choose(PAIRS, "mimicked state")
    same = ctx.flag("the own actor is the source")
    if same and mine == theirs:
        return
    odd = ctx.choose(("as made", "integer", "None"), "value") if theirs in ("any", "num", "none") else "as made"
    with UP.EnvironmentContext(initial_time=2.0) as env:
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        o = UP.CartesianLocation
        src = Kinds(name="src", loc=o(1, 0, 0), place=o(2, 0, 0), d={"k": 1})
        a = src if same else Kinds(name="a", loc=o(3, 0, 0), place=o(4, 0, 0), d={"k": 5})
        t = T()
        if odd == "integer":
            if theirs == "none":
                return
            setattr(src, theirs, 7)
        elif odd == "None":
            if theirs == "num":
                return
            setattr(src, theirs, None)
        value = None if theirs == "d" else getattr(src, theirs)
        before = {n: getattr(a, n) for n in ACCEPTS}
        ok = mine != "d" and theirs != "d" and isinstance(value, ACCEPTS[mine])
        try:
            a.activate_mimic_state(self_state=mine, mimic_state=theirs, mimic_actor=src, task=t)
            got = True
        except (UP.SimulationError, UP.UpstageError):
            got = False
        ctx.eq(got, ok, f"{mine} may mimic {theirs} with {value!r}", "types")
        env.run(until=3.0)
        for n in ACCEPTS:
            want = before[n] if n != mine or not ok else value
            ctx.check(getattr(a, n) == want, lambda: f"{n}: {getattr(a, n)!r} instead of {want!r} ({mine} mimics {theirs}: {ok})", "types")
        if not ok:
            if mine != "d":
                try:
                    a.deactivate_mimic_state(self_state=mine, task=t)
                    ctx.fail("a refused mimic was active", "types")
                except (UP.SimulationError, UP.UpstageError):
                    pass
            a.deactivate_all_mimic_states(task=t)
            if theirs in ("any", "num", "none"):
                h = {k: list(v) for k, v in a._state_histories.items()}
                setattr(src, theirs, 0.25)
                if not same:
                    ctx.eq({k: list(v) for k, v in a._state_histories.items()}, h, "histories after a refused mimic", "types")
        else:
            a.deactivate_mimic_state(self_state=mine, task=t)
            ctx.check(getattr(a, mine) == value, "value after the mimic", "types")
        ctx.state((mine, theirs, odd))
        ctx.step()
        ctx.outcome(ok)


def harnesses(tier):
    q = tier == "quick"
    return [Harness("ops", ops, depth=4 if q else 5), Harness("tasks", tasks, budget=1 if q else 2), Harness("chain", chain), Harness("types", types)]
