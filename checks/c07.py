"""C07: every program of succeed/reset/wait operations on two Events.

All operation sequences over two real Events (auto-reset on or off), with tasks
waiting on one of them, on Any or on All of them, against an exact automaton of
the documented event life cycle.  A second harness ends one of several tasks
waiting on the same Event.
"""
import upstage_des.api as UP
from mc.engine import Harness
from mc.sim import INF

BOUNDS = {"quick": "all 5-step programs over 10 operations on 2 Events (auto-reset on and off); 3 waiters of one Event with one "
                   "of them interrupted at any event boundary",
          "thorough": "all 6-step programs"}
ORACLE = "event automaton (pending, fired, complete) with waiter sets; resume time, payload and completion flags must agree"


class Act(UP.Actor):
    pass


class Waiter(UP.Task):
    def task(self, *, actor):
        w = self.w
        env = actor.env
        kind, evs = self.kind, w["ev"]
        if kind in (0, 1):
            yield evs[kind]
        else:
            yield (UP.Any if kind == "any" else UP.All)(*evs)
        w["out"].append((self.n, env.now, evs[kind].is_complete() if kind in (0, 1) else None,
                         tuple(tuple(sorted(e.get_payload().items())) for e in evs)))


OPS = ("t", "s0", "s1", "r0", "r1", "w0", "w1", "wa", "wl", "ss")


class Model:
    """The documented life cycle, with the kernel's rule that a new task starts before the events of its instant."""

    def __init__(self, auto):
        self.auto = auto
        self.st = ["pending", "pending"]
        self.pay = [(), ()]
        self.waiting = []     # [n, mode, {event: satisfied}]
        self.starting = []
        self.out = []
        self.t = 0.0
        self.twice = set()    # reset and succeeded again within one instant: flag at resumption left open

    def succeed(self, i, pay):
        if self.st[i] != "pending":
            return False
        self.st[i] = "fired"
        self.pay[i] = pay
        for w in self.waiting:
            if i in w[2]:
                w[2][i] = True
        return True

    def reset(self, i):
        if self.st[i] == "fired":
            self.twice.add(i)
        self.st[i] = "pending"

    def start(self, n, kind):
        self.starting.append((n, kind))

    def drain(self):
        """Finish the current instant. Returns the number of tasks that must fail."""
        bad = 0
        for n, kind in self.starting:
            evs = [kind] if kind in (0, 1) else [0, 1]
            need = {}
            ok = True
            for i in evs:
                if self.st[i] == "complete":
                    if not self.auto:
                        ok = False
                        break
                    self.st[i] = "pending"
                need[i] = self.st[i] == "fired"
            if ok:
                self.waiting.append([n, kind, need])
            else:
                bad += 1
        self.starting = []
        self.st = ["complete" if s == "fired" else s for s in self.st]
        left = []
        for w in self.waiting:
            f = any if w[1] == "any" else all
            if f(w[2].values()):
                self.out.append((w[0], self.t, (self.st[w[1]] == "complete" if w[1] not in self.twice else "?") if w[1] in (0, 1) else None,
                                 tuple(self.pay)))
            else:
                left.append(w)
        self.waiting = left
        self.twice = set()
        return bad


def program(ctx, depth):
    auto = ctx.choose((True, False), "auto_reset")
    with UP.EnvironmentContext() as env:
        evs = [UP.Event(auto_reset=auto), UP.Event(auto_reset=auto)]
        other = UP.Event(auto_reset=auto)
        w = {"ev": evs, "out": []}
        actor = Act(name="A")
        m = Model(auto)
        n = 0

        def drain():
            bad = m.drain()
            got = 0
            while env.peek() <= env.now:
                try:
                    env.step()
                    ctx.step()
                except Exception:  # noqa: BLE001
                    got += 1
            ctx.eq(got, bad, f"tasks refused at t={env.now} (yield of a completed event without auto-reset)", "refused")
            ctx.eq([e.is_complete() for e in evs], [s == "complete" for s in m.st], f"is_complete at t={env.now}", "is_complete")
            real, ref = sorted(w["out"]), sorted(m.out, key=lambda o: o[:2])
            if len(real) == len(ref):
                real = [a[:2] + ("?",) + a[3:] if b[2] == "?" else a for a, b in zip(real, ref)]
            ctx.eq(real, ref, f"tasks released by t={env.now}", "released")
            ctx.state((auto, m.st, m.pay, [x[1:] for x in m.waiting]))

        def succeed(i, k):
            pay = {} if k == 2 else {f"k{k}": k, "none": None, "zero": 0} if k == 0 else {f"k{k}": k}
            want = m.succeed(i, tuple(pay.items()))
            try:
                evs[i].succeed(**pay)
                ok = True
            except Exception:  # noqa: BLE001
                ok = False
            ctx.eq(ok, want, f"succeed accepted at t={env.now}", "succeed")

        for k in range(depth):
            op = ctx.choose(OPS, "op")
            if op == "t":
                drain()
                env.timeout(1.0)
                env.step()
                m.t += 1.0
            elif op == "ss":
                succeed(0, k)
                succeed(1, k)
            elif op[0] == "s":
                succeed(int(op[1]), k)
            elif op[0] == "r":
                evs[int(op[1])].reset()
                m.reset(int(op[1]))
            else:
                kind = {"0": 0, "1": 1, "a": "any", "l": "all"}[op[1]]
                t = Waiter()
                t.w, t.kind, t.n = w, kind, n
                t.run(actor=actor)
                m.start(n, kind)
                n += 1
            if op[0] != "w":
                # a reset or a refused call must show at once
                for i in (0, 1):
                    if m.st[i] == "pending":
                        ctx.check(not evs[i].is_complete(), f"event {i} complete while pending", "is_complete")
        drain()
        # everything still pending must still be releasable
        for i in (0, 1):
            if m.st[i] == "pending":
                succeed(i, "last")
        drain()
        ctx.check(not other.is_complete(), "an unrelated event completed", "other")
        ctx.outcome((auto, tuple(m.out)))


class Shared(UP.Task):
    def task(self, *, actor):
        w = self.w
        if self.first:
            yield UP.Wait(self.first)
        yield self.make(w["e"])
        w["out"].append((self.n, actor.env.now, w["e"].is_complete(), w["e"].get_payload()))


def shared(ctx):
    """Tasks waiting on one event; one of them is ended. The others must be released by succeed only."""
    auto = ctx.choose((True, False), "auto_reset")
    k = ctx.choose((2, 3), "waiters")
    form = ctx.choose(("plain", "any", "all"), "victim waits on")
    with UP.EnvironmentContext() as env:
        e = UP.Event(auto_reset=auto)
        w = {"e": e, "out": []}
        procs = []
        for i in range(k):
            t = Shared()
            t.w, t.n = w, i
            t.first = 0.0
            f = form if i == 0 else "plain"
            t.make = {"plain": lambda x: x, "any": lambda x: UP.Any(x, UP.Wait(9.0)),
                      "all": lambda x: UP.All(x, UP.Wait(1.0))}[f]
            procs.append(t.run(actor=Act(name=f"a{i}")))

        def ctl():
            yield env.timeout(2.0)
            e.succeed(v=7)
        env.process(ctl())
        hit = False
        when = None
        env.timeout(1.0)
        while env.peek() != INF:
            if not hit and procs[0].is_alive and env.now < 2.0 and ctx.flag():
                hit, when = True, env.now
                ctx.note(f"end first waiter at {env.now}")
                procs[0].interrupt(cause="stop")
            env.step()
            ctx.step()
        want = [(i, 2.0, True, {"v": 7}) for i in range(k) if not (i == 0 and hit)]
        started = any(o[1] < 2.0 for o in w["out"])
        ctx.check(not started, f"ending one waiter at t={when} released the others at {[o[1] for o in w['out']]}", "cancel_releases")
        ctx.eq(sorted(w["out"]), want, "released tasks", "released")
        ctx.state((hit, when, form, k))
        ctx.outcome((auto, k, form, hit, when))


def harnesses(tier):
    d = 5 if tier == "quick" else 6
    return [Harness("program", program, depth=d), Harness("shared_event", shared)]
