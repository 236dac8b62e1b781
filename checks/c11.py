"""C11: ownership of active states over every sequence of (de)activations.

Every sequence of activate / deactivate / deactivate-several / deactivate-all /
advance by two tasks on two states of each kind is executed on a real actor and
compared, after every step, with a small ownership model: which calls are
refused, who is active, and what every state's value is then and later.
"""
import upstage_des.api as UP
from upstage_des.geography import Spherical

from mc.engine import Harness

BOUNDS = {"quick": "all sequences of 4 operations out of 12 (2 tasks, 2 states, 7 pairs of state kinds)",
          "thorough": "all sequences of 5 operations"}
ORACLE = "ownership map (owner set per state) and closed-form values"


class A(UP.Actor):
    lin = UP.LinearChangingState(default=10.0, recording=True)
    lin2 = UP.LinearChangingState(default=-5.0)
    sh = UP.SharedLinearChangingState(default=100.0, recording=True)
    sh2 = UP.SharedLinearChangingState(default=7.0)
    loc = UP.CartesianLocationChangingState(recording=True)
    geo = UP.GeodeticLocationChangingState()
    plain = UP.State(default=1)


class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


PAIRS = [("lin", "lin2"), ("lin", "sh"), ("sh", "sh2"), ("lin", "loc"), ("loc", "sh"), ("geo", "lin2"), ("sh", "plain")]
RATE = {0: 2.0, 1: -0.75}


def seqs(ctx, depth):
    pair = ctx.choose(PAIRS, "states")
    with UP.EnvironmentContext(initial_time=3.0) as env:
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("stage_model", Spherical)
        a = A(name="a", loc=UP.CartesianLocation(0, 0, 0), geo=UP.GeodeticLocation(10.0, 20.0, 0.0))
        b = A(name="b", loc=UP.CartesianLocation(0, 0, 0), geo=UP.GeodeticLocation(10.0, 20.0, 0.0))
        tasks = [T(), T()]
        owners = {s: {} for s in pair}            # state -> {task index: rate}
        val = {"lin": 10.0, "lin2": -5.0, "sh": 100.0, "sh2": 7.0, "loc": 0.0, "geo": 0.0, "plain": 1}

        def value(s):
            v = getattr(a, s)
            if s == "loc":
                return v.x
            if s == "geo":
                return Spherical.distance((10.0, 20.0), v.latlon(), units="km")
            return v

        def activate(s, k):
            kw = {}
            if s == "loc":
                kw = {"speed": abs(RATE[k]), "waypoints": [UP.CartesianLocation(a.loc.x + 1000.0, 0, 0)]}
            elif s == "geo":
                la, lo = a.geo.latlon()
                kw = {"speed": abs(RATE[k]), "waypoints": [UP.GeodeticLocation(la + 40.0, lo, 0)]}
            elif s != "plain":
                kw = {"rate": RATE[k]}
            a.activate_state(state=s, task=tasks[k], **kw)

        ops = [("act", s, k) for s in pair for k in (0, 1)] + [("de", s, k) for s in pair for k in (0, 1)] + \
              [("all", None, 0), ("all", None, 1), ("both", None, 0), ("adv", None, None)]
        hist = []
        for _ in range(depth):
            op, s, k = ctx.choose(ops, "op")
            bad = False
            if op == "act":
                shared = s.startswith("sh")
                bad = s == "plain" or (k in owners[s] if shared else bool(owners[s]))
                if not bad:
                    owners[s][k] = abs(RATE[k]) if s in ("loc", "geo") else RATE[k]
                call = lambda: activate(s, k)
            elif op == "de":
                bad = k not in owners[s]
                if not bad:
                    del owners[s][k]
                call = lambda: a.deactivate_state(state=s, task=tasks[k])
            elif op == "all":
                for x in pair:
                    owners[x].pop(k, None)
                call = lambda: a.deactivate_all_states(task=tasks[k])
            elif op == "both":
                # a list: refused at the first state that is not this task's
                for x in pair:
                    if k not in owners[x]:
                        bad = True
                        break
                    del owners[x][k]
                call = lambda: a.deactivate_states(states=list(pair), task=tasks[k])
            else:
                for x in pair:
                    val[x] += 1.5 * sum(owners[x].values()) if owners[x] else 0
                call = lambda: env.run(until=env.now + 1.5)
            try:
                call()
                refused = False
            except Exception:  # any error counts as a refusal
                refused = True
            ctx.eq(refused, bad, f"{op} {s} by task {k} refused", "refusal")
            for x in pair:
                ctx.close(value(x), val[x], f"value of {x} after {op}", 1e-6, "value")
                ctx.eq(bool(a.get_active_state_data(x)), bool(owners[x]), f"{x} active after {op}", "active")
                ctx.eq(bool(b.get_active_state_data(x)), False, f"{x} of another actor", "active")
            ctx.step()
            ctx.state((pair, sorted(owners[pair[0]]), sorted(owners[pair[1]]), val[pair[0]], val[pair[1]]))
            hist.append((op, refused))
        # later behaviour
        env.run(until=env.now + 2.0)
        for x in pair:
            val[x] += 2.0 * sum(owners[x].values()) if owners[x] else 0
            ctx.close(value(x), val[x], f"later value of {x}", 1e-6, "value")
        for k in (0, 1):
            a.deactivate_all_states(task=tasks[k])
        env.run(until=env.now + 2.0)
        for x in pair:
            ctx.close(value(x), val[x], f"value of {x} after everything stopped", 1e-6, "value")
            if x != "plain":
                activate(x, 1)          # free for anyone again
                ctx.check(bool(a.get_active_state_data(x)), "not active after a fresh activation", "active")
        ctx.outcome((pair, tuple(hist)))


def harnesses(tier):
    return [Harness("seqs", seqs, depth=4 if tier == "quick" else 5)]
