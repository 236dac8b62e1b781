"""C12: shared linear states over every overlap of contributions.

`ops`: every sequence of activate / deactivate / assign / read / advance by three
tasks on one shared state.  `tasks`: three real tasks with every choice of start
and duration from a small grid, one of them interrupted (END, RESTART or IGNORE)
at every kernel event boundary.
"""
import upstage_des.api as UP

from mc.engine import Harness
from mc.sim import Injector, drive, ticks

BOUNDS = {"quick": "all sequences of 5 of 11 operations x 2 sets of rates (one with sums of zero); 3 tasks x 2 starts x 2 durations x rates x 1 interrupt of each kind at every boundary",
          "thorough": "6 operations; 2 interrupts"}
ORACLE = "sum over tasks of rate x active time since the last assignment"
RATES = (1.0, -2.5, 0.3)
CANCEL = (2.0, -2.0, 0.0)


class A(UP.Actor):
    fuel = UP.SharedLinearChangingState(recording=True)
    other = UP.SharedLinearChangingState(default=1.0)


class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


def ops(ctx, depth):
    with UP.EnvironmentContext(initial_time=50.25) as env:
        a = A(name="a", fuel=10.0)
        b = A(name="b", fuel=10.0)
        tasks = [T() for _ in range(3)]
        b.activate_linear_state(state="fuel", rate=5.0, task=tasks[0])   # same task object, other actor
        t0 = env.now
        on = {}
        v = 10.0
        rates = ctx.choose((RATES, CANCEL), "rates")
        log = [(env.now, v)]
        OPS = [("act", k) for k in range(3)] + [("de", k) for k in range(3)] + \
              [("adv", 1.0), ("adv", 0.125), ("read", 0), ("set", 40.0), ("rec", 0)]
        for i in range(depth):
            op, x = ctx.choose(OPS, "op")
            if op == "act":
                if x in on:
                    try:
                        a.activate_linear_state(state="fuel", rate=9.0, task=tasks[x])
                        ctx.fail("a second rate of the same task was accepted", "duplicate")
                    except UP.UpstageError:
                        pass
                    ctx.outcome("duplicate refused")
                    return      # (what the state is after that error is not specified)
                on[x] = rates[x]
                a.activate_linear_state(state="fuel", rate=rates[x], task=tasks[x])
            elif op == "de":
                if x not in on:
                    continue
                del on[x]
                a.deactivate_state(state="fuel", task=tasks[x])
            elif op == "adv":
                v += sum(on.values()) * x
                env.run(until=env.now + x)
            elif op == "read":
                ctx.close(a.fuel, v, "value read", key="value")
            elif op == "rec":
                a.record_state("fuel")
                ctx.close(a._state_histories["fuel"][-1][1], v, "value recorded", key="value")
            else:
                v = x
                a.fuel = x
            log.append((env.now, v))
            ctx.step()
            ctx.state((sorted(on), v, env.now))
        ctx.close(a.fuel, v, "value at the end", key="value")
        env.run(until=env.now + 1.5)
        v += 1.5 * sum(on.values())
        if ctx.flag("read before stopping"):
            ctx.close(a.fuel, v, "value later", key="value")
        for k in sorted(on):
            a.deactivate_all_states(task=tasks[k])
            env.run(until=env.now + 0.5)
            del on[k]
            v += 0.5 * sum(on.values())
        ctx.close(a.fuel, v, "value after all stopped", key="value")
        env.run(until=env.now + 1.0)
        ctx.close(a.fuel, v, "value after all stopped, later", key="value")
        ctx.eq(a.get_active_state_data("fuel").get("started_at"), None, "still active", "active")
        ctx.close(b.fuel, 10.0 + 5.0 * (env.now - t0), "other actor's state", key="value")
        ctx.close(a.other, 1.0, "other state", key="value")
        for t, x in a._state_histories["fuel"]:
            if isinstance(x, float):
                ctx.check(t <= env.now, "recorded in the future", "history")
        ctx.outcome((round(v, 6), len(log)))


class Burn(UP.Task):
    def task(self, *, actor):
        env = actor.env
        yield UP.Wait(self.start)
        actor.activate_linear_state(state="fuel", rate=self.rate, task=self)
        self.w.append([env.now, None, self.rate, self])
        yield UP.Wait(self.dur / 2)
        if self.look:
            self.seen.append((env.now, actor.fuel))
        yield UP.Wait(self.dur / 2)
        if not self.keep:
            actor.deactivate_all_states(task=self)
            self.close(env.now)

    def close(self, now):
        for c in self.w:
            if c[3] is self and c[1] is None:
                c[1] = now

    def on_interrupt(self, *, actor, cause):
        if cause != "ignore":
            self.close(actor.env.now)
        return {"end": self.INTERRUPT.END, "restart": self.INTERRUPT.RESTART, "ignore": self.INTERRUPT.IGNORE}[cause]


def tasks(ctx, budget):
    with UP.EnvironmentContext() as env:
        a = A(name="a", fuel=0.0)
        w, seen = [], []
        ts = []
        procs = []
        for k in range(3):
            t = Burn()
            t.start = ctx.choose((1.0, 2.0) if k else (1.0,), f"start{k}")
            t.dur = ctx.choose((2.0, 1.0), f"dur{k}")
            t.rate = RATES[k]
            t.keep = k == 2
            t.look = ctx.flag(f"look{k}") if k == 1 else True
            t.w, t.seen = w, seen
            ts.append(t)
            procs.append(t.run(actor=a))
        who = ctx.choose(3, "interrupted")
        ticks(env, [0.5, 1.5, 2.5])
        inj = Injector(ctx, env, lambda: procs[who], budget=budget, causes=("end", "restart", "ignore"))

        def ref(t):
            return sum(r * (min(t, e if e is not None else t) - s) for s, e, r, _ in w if s <= t)

        def quiet(now):
            ctx.close(a.fuel, ref(now), f"value at {now}", key="value")

        drive(ctx, env, 8.0, before=inj, quiet=quiet if ctx.flag("observe") else None)
        for t, x in seen:
            ctx.close(x, ref(t), f"value seen at {t}", key="value")
        env.run(until=9.0)
        ctx.close(a.fuel, ref(9.0), "value at the end", key="value")
        for t, x in a._state_histories["fuel"]:
            if isinstance(x, float):
                ctx.close(x, ref(t), f"value recorded at {t}", key="history")
        ctx.state([(c[0], c[1], c[2]) for c in w])
        ctx.outcome(round(ref(9.0), 6))


def harnesses(tier):
    q = tier == "quick"
    return [Harness("ops", ops, depth=5 if q else 6), Harness("tasks", tasks, budget=1 if q else 2)]
