"""C09: every sequence of activations, assignments and observations of a linear state.

All operation sequences over {advance, activate (three rates), three ways to
deactivate, assign, read, record, clone, inspect, table} on a real actor, against
the closed form; observers are operations, so every placement of every observer
is explored.
"""
import upstage_des.api as UP
from upstage_des.data_utils import create_table

from mc.engine import Harness

BOUNDS = {"quick": "all 5-operation sequences over 14 operations, recording and non-recording state, two states at once, then 2 further reads",
          "thorough": "all 6-operation sequences"}
ORACLE = "closed form: last assigned value + rate * active time since; recorded and cloned values must lie on it"


class Plain(UP.Actor):
    x = UP.LinearChangingState(default=3.0, recording=False)
    y = UP.LinearChangingState(default=7.0, recording=True)


class Rec(UP.Actor):
    x = UP.LinearChangingState(default=3.0, recording=True)
    y = UP.LinearChangingState(default=7.0, recording=False)


class Dup(UP.Actor):
    x = UP.LinearChangingState(default=3.0, recording=True, record_duplicates=True)
    y = UP.LinearChangingState(default=7.0)


class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


def advance(env, dt):
    env.run(until=env.now + dt)


def ops(active):
    o = ["t", "h"]
    if active:
        o += ["d", "ds", "da"]
    else:
        o += ["a2", "a-1", "aL"]
    return o + ["set", "add", "read", "rec", "clone", "get", "table"]


def linear(ctx, depth, cls):
    C = {"plain": Plain, "rec": Rec, "dup": Dup}[cls]
    with UP.EnvironmentContext(initial_time=ctx.choose((0.0, 10.0), "t0") if depth <= 4 else 10.0) as env:
        a = C(name="A")
        t1, t2 = T(), T()
        base, since, rate, owner = 3.0, env.now, None, None
        # y is active all along under another task
        y0, yt = 7.0, env.now
        a.activate_state(state="y", task=t2, rate=1.0)
        truth = []       # (t, value) segments for the history check

        def val():
            return base if rate is None else base + rate * (env.now - since)

        truth.append((env.now, 3.0))
        for _ in range(depth):
            op = ctx.choose(ops(rate is not None), "op")
            if op == "t":
                advance(env, 1.0)
            elif op == "h":
                advance(env, 0.25)
            elif op[0] == "a" and op != "add":
                base = val()
                since = env.now
                if op == "aL":
                    a.activate_linear_state(state="x", rate=0.5, task=t1)
                    rate = 0.5
                else:
                    rate = float(op[1:])
                    a.activate_state(state="x", task=t1, rate=rate)
            elif op in ("d", "ds", "da"):
                base, rate = val(), None
                if op == "d":
                    a.deactivate_state(state="x", task=t1)
                elif op == "ds":
                    a.deactivate_states(states=["x"], task=t1)
                else:
                    a.deactivate_all_states(task=t1)
            elif op == "set":
                base, since = 20.0, env.now
                a.x = 20.0
            elif op == "add":
                base, since = val() + 5.0, env.now
                a.x += 5.0
            elif op == "read":
                ctx.close(a.x, val(), f"value read at t={env.now}", key="value")
            elif op == "rec":
                a.record_state("x")
            elif op == "clone":
                c = a.clone()
                ctx.close(c.x, val(), f"clone's value at t={env.now}", key="clone")
                ctx.close(c.y, y0 + (env.now - yt), f"clone's y at t={env.now}", key="clone")
            elif op == "get":
                d = a.get_active_state_data("x")
                if rate is not None:
                    ctx.close(d["rate"], rate, "rate in the active data", key="data")
                else:
                    ctx.check(not d, "active data for an inactive state", "data")
            else:
                create_table(save_static=True)
                a.log("note")
            truth.append((env.now, val()))
            ctx.step()
            ctx.state((cls, rate, round(val(), 6)))
        for dt in (0.5, 2.0):
            advance(env, dt)
            ctx.close(a.x, val(), f"value at t={env.now}", key="value")
            ctx.close(a.y, y0 + env.now - yt, f"other state at t={env.now}", key="other")
            truth.append((env.now, val()))
        hist = a._state_histories.get("x", [])
        ctx.check(bool(hist) == (cls != "plain"), "history presence", "history")
        for t, v in hist:
            if isinstance(v, float):
                near = [w for s, w in truth if s == t]
                ctx.check(any(abs(v - w) < 1e-7 for w in near), f"history of x has {(t, v)}, the state was {near}", "history")
        ctx.outcome((rate, round(val(), 6)))


def harnesses(tier):
    if tier == "quick":
        return [Harness("plain5", linear, depth=5, cls="plain"), Harness("rec5", linear, depth=5, cls="rec"),
                Harness("dup4", linear, depth=4, cls="dup")]
    return [Harness("plain6", linear, depth=6, cls="plain"), Harness("rec6", linear, depth=6, cls="rec"),
            Harness("dup5", linear, depth=5, cls="dup")]
