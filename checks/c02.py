"""C02: RESTART equals END plus a fresh start.

Run A answers the interrupt with RESTART.  Run B gets END at the same boundary
and the harness starts the same task again by hand as soon as the process has
ended.  Both observations must agree from then on; a second interrupt is placed
at every later instant of both runs.
"""
import upstage_des.api as UP
from upstage_des.task import InterruptStates
from mc.engine import Harness
from checks import kinds as K
from checks.victim import Scenario

BOUNDS = {"quick": "20 kinds x 1 interrupt at every boundary + 1 at every later instant; "
                   "20 x 6 pairs of kinds x 1 interrupt",
          "thorough": "20 x 20 pairs x 1 interrupt at every boundary + 1 at every later instant"}
ORACLE = "END followed by starting the task again, on the same real code; start counts and times"


def one(ctx, kinds, first, feed, action, pick):
    """pick(kind, n): whether to interrupt at the n-th boundary / n-th later quiet point."""
    with UP.EnvironmentContext() as env:
        sc = Scenario(ctx, env, kinds, first, feed, action)
        n = [0, 0]
        again = [False]
        q0 = sc.quiet

        def quiet(now):
            q0(now)
            # compare statement traces, not process identity
            sc.obs[-1] = sc.obs[-1][:4] + sc.obs[-1][5:]
            if sc.sent and sc.proc.is_alive and pick("quiet", n[1]):
                sc.interrupt("second")
                again[0] = True
            n[1] += 1 if sc.sent else 0
        sc.quiet = quiet

        def boundary(s):
            if not s.sent and s.proc.is_alive:
                if pick("step", n[0]):
                    s.interrupt("first")
                    again[0] = True
                n[0] += 1
            if action is InterruptStates.END and again[0] and not s.proc.is_alive:
                again[0] = False
                s.proc = s.w.vproc = s.task.run(actor=s.w.a)
        sc.run(boundary)
        return sc


def run(ctx, second, twice, feeds):
    kinds = [ctx.choose(K.NAMES, "kind1")]
    if second:
        kinds.append(ctx.choose(second, "kind2"))
    first = ctx.choose(("victim", "competitor"), "created_first")
    feed = ctx.choose(feeds, "feed")
    chosen = {}

    def pick_a(kind, n):
        if (kind == "step" and any(v for k, v in chosen.items() if k[0] == "step")) or \
           (kind == "quiet" and (not twice or any(v for k, v in chosen.items() if k[0] == "quiet"))):
            return False
        chosen[(kind, n)] = bool(ctx.choose(2))
        if chosen[(kind, n)]:
            ctx.note(f"interrupt at {kind} {n}")
        return chosen[(kind, n)]
    a = one(ctx, kinds, first, feed, InterruptStates.RESTART, pick_a)
    b = one(ctx, kinds, first, feed, InterruptStates.END, lambda k, n: chosen.get((k, n), False))
    handled = len(a.w.handled)
    ctx.eq(a.w.handled, b.w.handled, "handler calls", key="handled")
    ctx.check(handled <= len(a.sent), "more handler calls than interrupts", "handled")
    if handled == len(a.sent):
        ctx.eq(a.w.starts[0], 0.0, "first start", key="starts")
        ctx.eq(len(a.w.starts), 1 + handled, f"task starts {a.w.starts} for interrupts {a.sent}", key="starts")
    ctx.eq(a.w.starts, b.w.starts, "times the task started", key="starts")
    for o, r in zip(a.obs, b.obs):
        if o != r:
            bad = [x for x in range(len(o)) if o[x] != r[x]]
            ctx.fail(f"restarted run differs from a fresh start at t={o[0]}: {[o[x] for x in bad]} "
                     f"instead of {[r[x] for x in bad]}", "differs")
    ctx.eq(len(a.obs), len(b.obs), "number of instants", key="differs")
    ctx.eq(a.histories(), b.histories(), "recorded histories", key="history-differs")
    ctx.outcome((kinds, a.obs[-1]))


def harnesses(tier):
    th = tier == "thorough"
    return [
        Harness("single", run, second=None, twice=True, feeds=("one", "two") if th else ("one",)),
        Harness("pairs", run, second=K.NAMES if th else K.SECOND, twice=th, feeds=("one",)),
    ]
