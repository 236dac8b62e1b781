"""C01: interrupting a task to END leaves no residue.

One victim task (two consecutive pending events out of every kind, a linear
state and a mimic state held by it, knowledge events) is interrupted at every
kernel-event boundary of the run, between and inside instants.  Competing tasks
use the same store/container/resource, another task of the same actor holds
other states and mimics.  After the interrupt the real world is compared with
closed forms and bookkeeping kept by the harness alone.
"""
import simpy as SIM
import upstage_des.api as UP
from mc.engine import Harness
from mc.sim import drive, ticks, Injector
from checks import kinds as K

BOUNDS = {
    "quick": "1 victim with every pair of pending-event kinds, 1 interrupt at every event boundary, "
             "competitor created before or after the victim; second interrupt for routine kinds",
    "thorough": "as quick with 2 feeding schedules and 2 competitors",
}
ORACLE = "closed forms for states, item/amount/slot bookkeeping and queue lengths kept by the harness"
H = 8.0


class Victim(UP.Task):
    def task(self, *, actor):
        w = self.w
        w.vt = self
        w.t0 = w.env.now
        actor.activate_linear_state(state="fuel", rate=-1.0, task=self)
        actor.activate_mimic_state(self_state="echo", mimic_state="src", mimic_actor=w.b, task=self)
        w.log("start")
        for i, k in enumerate(w.kinds):
            yield from K.KINDS[k](w, self, actor, f"v{i}")
            w.log(f"after{i}")
        actor.deactivate_all_states(task=self)
        actor.deactivate_all_mimic_states(task=self)
        w.tend = w.env.now
        w.log("end")


class Keeper(UP.Task):
    """Same actor, other states: must not notice anything."""

    def task(self, *, actor):
        w = self.w
        actor.activate_linear_state(state="heat", rate=2.0, task=self)
        actor.activate_mimic_state(self_state="echo2", mimic_state="src", mimic_actor=w.b, task=self)
        yield UP.Wait(6.25)
        w.keeper_done = w.env.now
        actor.deactivate_all_states(task=self)
        actor.deactivate_all_mimic_states(task=self)


def run(ctx, second, order2, feeds, budget):
    with UP.EnvironmentContext() as env:
        w = K.World(env)
        w.kinds = [ctx.choose(K.NAMES, "kind1")]
        if second:
            w.kinds.append(ctx.choose(second, "kind2"))
        first = ctx.choose(("victim", "competitor"), "created_first") if order2 else "victim"
        w.feed(ctx.choose(feeds, "feed") if len(feeds) > 1 else feeds[0])
        w.src_script()
        w.keeper_done = None
        w.t0 = w.tend = None
        a, b = w.a, w.b
        a.set_knowledge("keep", 5)
        kept = a.create_knowledge_event(name="kept event")
        vt, kt = Victim(), Keeper()
        vt.w = kt.w = w
        if first == "competitor":
            w.competitors(w.kinds)
        proc = w.vproc = vt.run(actor=a)
        kt.run(actor=a)
        if first == "victim":
            w.competitors(w.kinds)
        ticks(env, [0.5, 1.5, 2.5, 3.5, 4.5])

        def send(cause):
            if not inj.sent[1:]:
                w.src_int = b.src
            proc.interrupt(cause=cause)
        inj = Injector(ctx, env, lambda: proc, budget=budget,
                       send=send)
        st = {"done": False, "logn": None, "fuel": None, "echo": None, "tint": None}

        def quiet(now):
            if inj.sent and not st["done"] and w.t0 is not None:
                tint = inj.sent[0][0]
                if proc.is_alive:
                    # only a cancel hook that has to wait may outlive the instant
                    ctx.check(w.cancelling > 0, f"task still alive at {now} after END interrupt at {tint}",
                              "alive-after-end")
                st["done"] = True
                st["tint"] = tint
                st["logn"] = len(w.trace)
                if w.tend is None:
                    ctx.close(a.fuel, 100.0 - (tint - w.t0), "fuel at the interrupt", key="fuel-at-interrupt")
                    ctx.eq(a.echo, w.src_int, "mimicking state at the interrupt", key="mimic-at-interrupt")
                    ctx.check(not a.get_active_state_data("fuel"), "state still active after END", "still-active")
                    for nm in w.know_pending:
                        ctx.check(a.get_knowledge(nm) is None,
                                  f"pending knowledge event {nm} still in knowledge", "knowledge-left")
                    st["fuel"], st["echo"] = a.fuel, a.echo
                    ctx.eq(a.get_knowledge("keep"), 5, "unrelated knowledge", key="knowledge-lost")
            elif st["done"]:
                if w.tend is None:
                    ctx.eq(a.fuel, st["fuel"], "fuel after END", key="fuel-drifts")
                    ctx.eq(a.echo, st["echo"], "mimic after END", key="mimic-drifts")
                ctx.eq(len(w.trace), st["logn"], "task statements executed after END", key="ran-on")
            ctx.check(a.get_knowledge("kept event") is kept and not kept.is_complete(), "an event in knowledge that nobody waits for was touched", "knowledge-event-lost")
            # the other task of this actor
            if w.keeper_done is None:
                ctx.close(a.heat, 2.0 * now, "other task's state", key="other-state")
                ctx.eq(a.echo2, w.src_at(now), "other task's mimic", key="other-mimic")
            w.conserved(ctx)
            w.progress(ctx, victim_dead=not proc.is_alive)
            ctx.state((w.kinds, now, w.summary(), proc.is_alive, a.fuel, a.echo,
                       a.heat, sorted(a._knowledge)))

        drive(ctx, env, H, before=inj, quiet=quiet)
        ctx.check(w.keeper_done == 6.25, f"other task ended at {w.keeper_done}", "other-task")
        if not inj.sent:
            ctx.check(not w.must_finish() or w.trace[-1][1] == "end",
                      f"undisturbed victim did not finish: {w.trace}", "harness-baseline")
        if proc.triggered:
            ctx.check(proc.ok, "task process failed", "process-failed")
        ctx.outcome((w.kinds, w.summary(), [t for t in w.trace]))


def harnesses(tier):
    th = tier == "thorough"
    feeds = ("one", "two") if th else ("one",)
    return [
        Harness("twice", run, second=None, order2=True, feeds=("one",), budget=2),
        Harness("one_event", run, second=None, order2=True, feeds=("one", "two"), budget=1),
        Harness("two_events", run, second=K.NAMES if th else K.SECOND, order2=True, feeds=feeds, budget=1),
    ]
