"""C03: ignored interrupts change nothing.

Every run is done twice: once undisturbed, once with ignored interrupts placed
at every (pair of) event boundaries.  The complete observations (all statements
with times and values, contents of all objects at the end of every instant,
state histories, knowledge) must be identical.
"""
import upstage_des.api as UP
from upstage_des.task import InterruptStates
from mc.engine import Harness
from checks import kinds as K
from checks.victim import Scenario

BOUNDS = {"quick": "all 20 event kinds x up to 2 ignored interrupts at every boundary; "
                   "20 x 6 pairs of kinds x 1 interrupt",
          "thorough": "all 20 x 20 pairs x 2 interrupts, 3 interrupts for single kinds"}
ORACLE = "the same run without interrupts"


def run(ctx, second, budget, feeds):
    kinds = [ctx.choose(K.NAMES, "kind1")]
    if second:
        kinds.append(ctx.choose(second, "kind2"))
    first = ctx.choose(("victim", "competitor"), "created_first")
    feed = ctx.choose(feeds, "feed")
    with UP.EnvironmentContext() as env:
        base = Scenario(ctx, env, kinds, first, feed, InterruptStates.IGNORE)
        base.run(lambda s: None)
        ref = (base.obs, base.histories())
        ctx.check(base.w.trace[-1][1] == "end", f"baseline did not finish {base.w.trace}", "baseline")
    with UP.EnvironmentContext() as env:
        sc = Scenario(ctx, env, kinds, first, feed, InterruptStates.IGNORE)
        left = [budget]

        def boundary(s):
            while left[0] and s.proc.is_alive and ctx.choose(2):
                left[0] -= 1
                ctx.note(f"IGNORED@{env.now}")
                s.interrupt(("c", left[0]))
        sc.run(boundary)
        # an interrupt accepted at the very instant the task's last step runs is moot
        sent = [x for x in sc.sent]
        ctx.check(len(sc.w.handled) <= len(sent) and all(h in sent for h in sc.w.handled),
                  f"handled {sc.w.handled} but sent {sent}", "handled")
        for i, (o, r) in enumerate(zip(sc.obs, ref[0])):
            if o != r:
                bad = [x for x in range(len(o)) if o[x] != r[x]]
                ctx.fail(f"run differs from the undisturbed one at t={o[0]}: {[o[x] for x in bad]} "
                         f"instead of {[r[x] for x in bad]}", "differs")
        ctx.eq(len(sc.obs), len(ref[0]), "number of instants", key="differs")
        ctx.eq(sc.histories(), ref[1], "recorded histories", key="history-differs")
        ctx.eq(sc.w.starts, base.w.starts, "task starts", key="restarted")
        ctx.outcome((kinds, sc.obs[-1], len(sent)))


def harnesses(tier):
    th = tier == "thorough"
    return [
        Harness("single", run, second=None, budget=3 if th else 2, feeds=("one",)),
        Harness("pairs", run, second=K.NAMES if th else K.SECOND, budget=2 if th else 1,
                feeds=("one",) if th else ("two",)),
    ]
