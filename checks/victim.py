"""One victim task with competitors, run under a policy for its interrupts (C02, C03)."""
import upstage_des.api as UP
from mc.sim import drive, ticks
from checks import kinds as K

H = 9.0


class Victim(UP.Task):
    def task(self, *, actor):
        w = self.w
        w.starts.append(w.env.now)
        actor.activate_linear_state(state="fuel", rate=-1.0, task=self)
        actor.activate_mimic_state(self_state="echo", mimic_state="src", mimic_actor=w.b, task=self)
        w.log("start")
        try:
            for i, k in enumerate(w.kinds):
                yield from K.KINDS[k](w, self, actor, f"v{i}")
                w.log(f"after{i}")
        finally:
            w.log("left")
        actor.deactivate_all_states(task=self)
        actor.deactivate_all_mimic_states(task=self)
        w.log("end")

    def on_interrupt(self, *, actor, cause):
        self.w.handled.append((self.w.env.now, cause))
        return self.action


class Scenario:
    """Runs kinds with competitors; `boundary(sc)` is called at every event boundary."""

    def __init__(self, ctx, env, kinds, first, feed, action):
        self.ctx, self.env = ctx, env
        w = self.w = K.World(env)
        w.kinds = kinds
        w.starts, w.handled = [], []
        self.obs = []
        self.sent = []
        self.task = Victim()
        self.task.w, self.task.action = w, action
        w.feed(feed)
        w.src_script()
        w.a.set_knowledge("keep", 5)
        if first == "competitor":
            w.competitors(kinds)
        self.proc = w.vproc = self.task.run(actor=w.a)
        if first == "victim":
            w.competitors(kinds)
        ticks(env, [0.5, 1.5, 2.5, 3.5, 4.5])

    def quiet(self, now):
        w, a = self.w, self.w.a
        self.obs.append((now, w.summary(), a.fuel, a.echo, self.proc.is_alive,
                         tuple(sorted(k for k in a._knowledge)), tuple(w.trace)))
        self.ctx.state((w.kinds, self.obs[-1][:-1], w.trace[-1:]))
        w.conserved(self.ctx)

    def run(self, boundary):
        drive(self.ctx, self.env, H, before=lambda: boundary(self), quiet=self.quiet)

    def histories(self):
        a, b = self.w.a, self.w.b
        return (list(a._state_histories.get("fuel", [])), list(a._state_histories.get("echo", [])),
                list(b._state_histories.get("src", [])))

    def interrupt(self, cause):
        self.sent.append((self.env.now, cause))
        self.proc.interrupt(cause=cause)
