"""C04: handlers see the true cause and marker, and decide the outcome.

Task bodies are all marker scripts up to the bound; interrupts land at every
event boundary.  A two-line model keeps the last marker set; the real handler's
view, the number of calls and the effect on the task must follow it.
"""
import upstage_des.api as UP
from upstage_des.task import InterruptStates as I
from mc.engine import Harness
from mc.sim import drive, ticks

BOUNDS = {"quick": "marker scripts of length 2 over {none, clear, 2 markers x 3 actions}, 2 interrupts at every boundary",
          "thorough": "scripts of length 3, 2 interrupts; length 2, 3 interrupts"}
ORACLE = "last marker set by the script; END/IGNORE/RESTART semantics of a straight-line body"

STEPS = [None, "clear"] + [(m, a) for m in ("m1", "m2") for a in (I.END, I.IGNORE, I.RESTART)]


class Act(UP.Actor):
    x = UP.LinearChangingState(default=0.0)


class Marked(UP.Task):
    def task(self, *, actor):
        w = self.w
        w["starts"].append(actor.env.now)
        for i, s in enumerate(w["script"]):
            if s == "clear":
                self.clear_marker()
            elif s == "default":
                self.set_marker("dflt")
            elif s is not None:
                self.set_marker(s[0], s[1])
            w["log"].append((actor.env.now, i))
            yield UP.Wait(1.0)
        w["log"].append((actor.env.now, "end"))


class Default(Marked):
    def on_interrupt(self, *, actor, cause):
        self.w["calls"].append((actor.env.now, cause, self.get_marker(), self.get_marker_time()))
        return super().on_interrupt(actor=actor, cause=cause)


class Custom(Marked):
    def on_interrupt(self, *, actor, cause):
        self.w["calls"].append((actor.env.now, cause, self.get_marker(), self.get_marker_time()))
        return self.w["answer"]


class Plain(Marked):
    """No handler at all: only the effects can be seen."""


def run(ctx, cls, length, budget):
    steps = STEPS + ["default"]
    script = [ctx.choose(steps, f"step{i}") for i in range(length)]
    with UP.EnvironmentContext() as env:
        w = {"script": script, "log": [], "starts": [], "calls": []}
        if cls is Custom:
            w["answer"] = ctx.choose([I.END, I.IGNORE, I.RESTART, None, "bogus", 7], "answer")
        a = Act(name="A")
        t = cls()
        t.w = w
        ticks(env, [0.5, 1.5, 2.5])
        proc = t.run(actor=a)
        model = Model(script, w.get("answer", "marker"))
        left = [budget]
        causes = ctx.choose((["c1", None, {"k": 1}], [None, 0, "c1"]), "causes") if cls is Custom else ["c1", None, {"k": 1}]

        def before():
            while left[0] and proc.is_alive and ctx.choose(2):
                cause = causes[budget - left[0]]
                left[0] -= 1
                ctx.note(f"INT@{env.now}:{cause}")
                model.sync(env.now, len(w["log"]))
                model.deliver(env.now, cause)
                proc.interrupt(cause=cause)
        try:
            drive(ctx, env, 30.0, before=before)
        except UP.SimulationError:
            ctx.check(model.error, "simulation error without a bad handler answer", "spurious-error")
            ctx.eq(w["calls"], model.calls, "handler calls (time, cause, marker, marker time)", key="handler-view")
            ctx.outcome(("error", script, len(w["log"])))
            return
        ctx.check(not model.error, "bad handler answer was accepted", "bad-answer")
        model.sync(1e9, 1e9)
        ctx.eq(w["log"], model.log, "statements executed", key="statements")
        ctx.eq(w["starts"], model.starts, "starts", key="starts")
        if cls is not Plain:
            ctx.eq(w["calls"], model.calls, "handler calls (time, cause, marker, marker time)", key="handler-view")
        ctx.state((script, w["calls"], w["log"]))
        ctx.outcome((w["log"], w["calls"]))


class Model:
    """Straight-line body with a marker; the reference."""

    def __init__(self, script, answer):
        self.script, self.answer = script, answer
        self.mk = None
        self.log, self.starts, self.calls = [], [], []
        self.alive, self.error = True, False
        self.start(0.0)

    def start(self, t):
        self.t0, self.pos = t, -1
        self.starts.append(t)
        self.wake()

    def wake(self):
        self.pos += 1
        t = self.t0 + self.pos
        if self.pos == len(self.script):
            self.log.append((t, "end"))
            self.alive = False
            return
        s = self.script[self.pos]
        if s == "clear":
            self.mk = None
        elif s == "default":
            self.mk = ("dflt", t, I.END)
        elif s is not None:
            self.mk = (s[0], t, s[1])
        self.log.append((t, self.pos))

    def sync(self, now, n):
        while self.alive and self.t0 + self.pos + 1 <= now and len(self.log) < n:
            self.wake()

    def deliver(self, t, cause):
        if not self.alive:
            return
        self.calls.append((t, cause, self.mk and self.mk[0], self.mk and self.mk[1]))
        act = self.answer if self.answer != "marker" else (self.mk[2] if self.mk else I.END)
        if act is None or act == "bogus" or act == 7:
            self.error, self.alive = True, False
        elif act == I.END:
            self.alive = False
        elif act == I.RESTART:
            self.start(t)


def terminal(ctx):
    with UP.EnvironmentContext() as env:
        a = Act(name="A")

        class End(UP.TerminalTask):
            pass

        class First(UP.Task):
            def task(self, *, actor):
                yield UP.Wait(1.0)
        fac = UP.TaskNetworkFactory.from_ordered_terminating("net", [First])
        a.add_task_network(fac.make_network())
        a.start_network_loop("net", "First")
        at = ctx.choose([0.0, 0.5, 1.0, 1.5, 7.0], "at")
        cause = ctx.choose(["c", None], "cause")
        ticks(env, [0.5, 1.5, 7.0])
        st = {"sent": False, "task": None}

        def quiet(now):
            if now == at and not st["sent"]:
                st["sent"] = True
                st["task"] = a.get_running_task("net").name
                a.interrupt_network("net", cause=cause)
        try:
            drive(ctx, env, 20.0, quiet=quiet)
            raised = False
        except UP.SimulationError:
            raised = True
        ctx.eq(raised, st["task"] != "First", f"error when interrupting {st['task']}", key="terminal")
        ctx.state((at, st["task"]))
        ctx.outcome(raised)


def harnesses(tier):
    th = tier == "thorough"
    n = 3 if th else 2
    return [
        Harness("marker_action", run, cls=Default, length=n, budget=2),
        Harness("no_handler", run, cls=Plain, length=n, budget=2),
        Harness("custom_handler", run, cls=Custom, length=2, budget=2),
        Harness("terminal", terminal),
    ]
