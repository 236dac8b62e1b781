"""C30: continuous containers keep the exact level and report full and empty on time.

All schedules of two or three puts and gets with every combination of rate,
start, duration and cancellation from a small set - before or after the other
events of the instant - on containers that start full, empty and between, with
and without errors, some readings on the way; and callbacks (three of each put or get) that react.
"""
from fractions import Fraction as F

from simpy.core import StopSimulation
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "pairs: 2 users from 96 kinds each (put or get, 4 rates, 3 starts, 2 durations, optional cancel) x 3 starting points x 4 error settings; pairs with a duration of zero; triples: 3 users from 24 kinds; "
                   "reactions: 5 reactions to full and empty; both classes, readings every half unit",
          "thorough": "pairs from 320 kinds, triples from 60 kinds"}
ORACLE = "piecewise linear level in exact fractions"
ERRORS = (UP.ContainerEmptyError, UP.ContainerFullError) if hasattr(UP, "ContainerEmptyError") else ()
if not ERRORS:
    from upstage_des.resources.container import ContainerEmptyError, ContainerFullError
    ERRORS = (ContainerEmptyError, ContainerFullError)

HORIZON = 8
EPS = 1e-9


class User:
    """One put or get: what was asked, what the reference says and what really happened."""

    def __init__(self, n, sign, rate, start, runtime):
        self.n, self.sign, self.rate = n, sign, F(str(rate))
        self.asked, self.start, self.runtime = rate, F(str(start)), None if runtime is None else F(str(runtime))
        self.calls, self.order = [], []
        self.cancelled = None
        self.evt = None

    def __repr__(self):
        return f"{'put' if self.sign > 0 else 'get'} {self.asked} from {self.start} for {self.runtime}"


class Ref:
    """The reference: level and active users, moved from instant to instant."""

    def __init__(self, cap, init):
        self.cap, self.level, self.now, self.on = F(str(cap)), F(str(init)), F(0), []

    @property
    def net(self):
        return sum((u.sign * u.rate for u in self.on), F(0))

    def next_bound(self):
        net = self.net
        if net > 0:
            return self.now + (self.cap - self.level) / net
        if net < 0:
            return self.now + self.level / -net
        return None

    def next_end(self):
        return min((u.start + u.runtime for u in self.on if u.runtime is not None), default=None)

    def go(self, t):
        self.level += self.net * (t - self.now)
        self.now = t
        assert 0 <= self.level <= self.cap


def schedule(ctx, users, cap, init, errors, cls, cancels, late, react=None):
    """Run the real container through the instants of the reference and compare at each."""
    with UP.EnvironmentContext() as env:
        tank = cls(env, capacity=cap, init=init, error_empty=errors[0], error_full=errors[1])
        ref = Ref(cap, init)
        caught, instant = [], [F(0)]

        def run(until):
            """Up to but not including the events at `until`; keeps errors and goes on after them."""
            while env.now < until:
                try:
                    env.run(until=until)
                except ERRORS as e:
                    caught.append((env.now, type(e)))

        def settle():
            while env.peek() <= float(ref.now) + EPS:
                try:
                    env.step()
                except ERRORS as e:
                    caught.append((env.now, type(e)))
                except StopSimulation:
                    pass  # the end of a run that failed
                ctx.step()

        def read(where):
            ctx.close(tank.level, float(ref.level), f"level at {float(ref.now)} ({where})", tol=1e-9, key="level")
            ctx.check(0 <= tank.level <= cap, lambda: f"level {tank.level!r} out of bounds", "bounds")

        def start(u):
            def called():
                u.calls.append(env.now)
                u.order.append(1)
                if react is not None:
                    react(u, begin, cancel)
            u.evt = getattr(tank, "put" if u.sign > 0 else "get")(u.asked, (None if u.n else float("inf")) if u.runtime is None else float(u.runtime), custom_callbacks=[lambda: u.order.append(0), called, lambda: u.order.append(2)])

        def begin(u):
            u.start = instant[0]
            users.append(u)
            start(u)

        def cancel(u):
            if u.evt is not None:
                u.cancelled = instant[0]
                u.evt.cancel()

        todo = sorted({u.start for u in users} | {t for _, t in cancels} | {F(k, 2) for k in range(2 * HORIZON + 1)})
        while todo:
            t = min([todo[0]] + [x for x in (ref.next_bound(), ref.next_end()) if x is not None])
            if todo[0] == t:
                todo.pop(0)
            instant[0] = t
            run(float(t))
            net_before = ref.net
            ref.go(t)
            read("before")
            if late:
                settle()
            for u in users:
                if u.start == t and u.evt is None:
                    start(u)
            for u, c in cancels:
                if c == t:
                    cancel(u)
            read("while")
            settle()

            there = [u for u in users if u in ref.on or u.start == t and u.evt is not None]
            leave = [u for u in there if u.runtime is not None and u.start + u.runtime == t or u.cancelled == t]
            told = [u for u in there if any(abs(x - float(t)) < 1e-6 for x in u.calls)]
            ctx.check(sum(len(u.calls) for u in users) == sum(len(u.calls) > 0 for u in users) and all(u in there for u in users if u.calls and u.calls[-1] > float(t) - 1e-6),
                      "a callback comes twice or after the end", "callback")
            ctx.check(all(u.order == [0, 1, 2] * len(u.calls) for u in users), lambda: f"not every callback comes, or not in order: {[u.order for u in users]}", "callback")
            changes = bool(leave) or any(u.start == t for u in there)
            ref.on = [u for u in there if u not in leave]
            for sign, bound, exc, flag in ((-1, F(0), ERRORS[0], errors[0]), (1, ref.cap, ERRORS[1], errors[1])):
                what = f"at {float(t)}, level {float(ref.level)}"
                stopped = [u for u in told if u.sign == sign]
                errs = [e for e in caught if abs(e[0] - float(t)) < 1e-6 and e[1] is exc]
                ctx.check(not errs or flag, f"{what}: error {exc.__name__} not asked for", "error")
                ctx.check(not stopped or bool(errs) or not flag, f"{what}: no error {exc.__name__}", "error")
                said = bool(stopped) or bool(errs)
                if ref.level != bound:
                    ctx.check(not said, f"{what}: {stopped} {errs}", "stopped")
                    continue
                ctx.check(not said or net_before * sign > 0 or changes, f"{what}: noticed without cause", "stopped")
                if said:
                    for u in ref.on:
                        ctx.check(u.sign != sign or u in stopped or u.start == t, f"{what}: {u} not stopped", "stopped")
                    ctx.note(what)
                ref.on = [u for u in ref.on if u not in stopped]
                ctx.check(ref.net * sign <= 0, f"{what}: not noticed", "noticed")
            ctx.close(tank.rate, float(ref.net), f"net rate at {float(t)}, active {ref.on}", tol=1e-9, key="rate")
            read("after")
            predictions(ctx, tank, ref)
            ctx.state((float(t), float(ref.level), float(ref.net)))
            if ref.now >= HORIZON:
                break


def predictions(ctx, tank, ref):
    """Where will it go, from here?"""
    for extra in (0, F(-1, 2)):
        net = ref.net + extra
        kw = {"rate": float(extra)} if extra else {}
        if net:
            ctx.close(tank.time_until_done(**kw), float((ref.cap - ref.level) / net if net > 0 else -ref.level / net), f"time until done at net {float(net)}", tol=1e-9, key="until done")
        for target in (F(0), ref.cap, ref.cap / 4):
            if abs(target - ref.level) < F(1, 10**6) and target != ref.level:
                continue
            t = (target - ref.level) / net if net else F(-1)
            want = 0.0 if target == ref.level else float(t) if t > 0 else float("inf")
            got = tank.time_until_level(float(target), **kw)
            if target == ref.level and abs(tank.level - float(target)) > 0:
                continue  # rounding
            ctx.check(got == want or abs(got - want) <= 1e-9 * max(1, want), lambda: f"time until {float(target)} from {float(ref.level)} at net {float(net)}: {got}, not {want}", "until level")


def some_users(ctx, count, menu, cap):
    users, last = [], 0
    for n in range(count):
        k = ctx.choose(range(last, len(menu)), f"user {n}")
        last = k
        sign, rate, start, runtime, cancel = menu[k]
        users.append((User(n, sign, rate, start, runtime), cancel))
    return users


def plans(ctx, count, menu, settings, classes):
    cap, init = ctx.choose(((6, 2), (6, 0), (3, 3)), "capacity, level")
    pairs = some_users(ctx, count, menu, cap)
    errors = ctx.choose(settings, "errors")
    cls = ctx.choose(classes, "class")
    late = ctx.flag("after the events of the instant")
    ctx.note([u for u, _ in pairs])
    schedule(ctx, [u for u, _ in pairs], cap, init, errors, cls, [(u, u.start + F(str(c))) for u, c in pairs if c is not None], late)


def reactions(ctx):
    """Full and empty callbacks that open or close other rates."""
    kind = ctx.choose(("reverse", "two more", "same again", "cancel other", "cancel third", "cancel all"), "reaction")
    cap, init = ctx.choose(((6, 2), (6, 0), (3, 3)), "capacity, level")
    sign = ctx.choose((1, -1))
    rates = [ctx.choose((1, 2, 3), "rate") for _ in range(2)]
    users = [User(0, sign, rates[0], 1, None), User(1, sign, rates[1], ctx.choose((1, 1.5)), ctx.choose((None, 2.5)))]
    users.append(User(2, -sign, 1, ctx.choose((0.5, 3)), ctx.choose((None, 1))))
    fired = []

    def react(u, begin, cancel):
        if len(fired) >= 2:
            return
        fired.append(u)
        if kind == "reverse":
            begin(User(10 + len(fired), -u.sign, 1, 0, 2))
        elif kind == "two more" and len(fired) == 1:
            begin(User(11, -u.sign, 2, 0, 1))
            begin(User(12, -u.sign, 0.5, 0, None))
        elif kind == "same again" and len(fired) == 1:
            begin(User(11, u.sign, 2, 0, 1))
        elif kind == "cancel other":
            cancel(users[1 if u.n == 0 else 0])
        elif kind == "cancel all":
            for x in users:
                cancel(x)
        elif kind == "cancel third":
            cancel(users[2])

    schedule(ctx, users, cap, init, (False, False), ctx.choose((UP.ContinuousContainer, UP.SelfMonitoringContinuousContainer)), [], ctx.flag("late"), react)


def fine(ctx):
    """Rates and levels that floats cannot hold exactly: full and empty are still met, on time."""
    a, b = ctx.choose((0.1, 0.3, 0.7, 1.1, 3.0, 1 / 7), "rate"), ctx.choose((0.1, 0.2, 0.7, 0.9, 2.3, 1 / 3), "rate")
    init = ctx.choose((0.1, 0.3, 1.0, 2.7, 0.0), "level")
    cap = ctx.choose((2.7, 3.3, 1000.1), "capacity")
    sign = ctx.choose((1, -1))
    delay = ctx.choose((0.0, 0.1, 0.7, 1 / 3), "second after")
    errors = ctx.flag("errors")
    cls = ctx.choose((UP.ContinuousContainer, UP.SelfMonitoringContinuousContainer))
    with UP.EnvironmentContext(initial_time=ctx.choose((0.0, 1e5), "time")) as env:
        t0 = env.now
        told = []
        tank = cls(env, capacity=cap, init=init, error_empty=errors, error_full=errors)
        call = tank.put if sign > 0 else tank.get

        def tell(k):
            told.append((k, env.now))

        call(a, float("inf"), custom_callbacks=[lambda: tell(0)])
        mid = init + sign * a * delay
        if not 0 < mid < cap and delay:
            when = (cap - init if sign > 0 else init) / a
            count = 1
        else:
            if delay:
                env.run(until=t0 + delay)
            call(b, float("inf"), custom_callbacks=[lambda: tell(1)])
            when = delay + (cap - mid if sign > 0 else mid) / (a + b)
            count = 2
        raised = []
        while env.now < t0 + when + 5:
            try:
                env.run(until=t0 + when + 5)
            except ERRORS as e:
                raised.append((env.now, type(e)))
        ctx.step()
        ctx.eq(sorted(k for k, _ in told), list(range(count)), f"who is told of the end at {when}", "told")
        for _, t in told:
            ctx.close(t, t0 + when, "told at", tol=1e-9, key="when")
        ctx.eq([e for _, e in raised], [ERRORS[1 if sign > 0 else 0]] if errors else [], "errors", "error")
        ctx.eq(tank.level, cap if sign > 0 else 0, "level at the bound", "level")
        ctx.close(tank.rate, 0.0, "rate after", key="rate")
        # and the other way again, twice
        back = tank.get if sign > 0 else tank.put
        back(0.3, 1.1)
        later = env.now + 2
        while env.now < later:  # a run that failed has left its end in the schedule
            env.run(until=later)
        want = max(cap - 0.33, 0) if sign > 0 else min(0.33, cap)
        ctx.close(tank.level, want, "after the way back", key="level")
        ctx.state((a, b, init, cap, sign, delay, errors, t0))


def harnesses(tier):
    q = tier == "quick"
    signs = (1, -1)
    pair = [(s, r, st, d, c) for s in signs for r in ((1, 2, 3, 0.75) if not q else (1, 3, 2)) for st in (0, 1, 2.5) for d in (2, None) for c in ((None, 0, 1.5, 3) if not q else (None, 1.5))]
    if not q:
        pair += [(s, r, st, d, None) for s in signs for r in (1, 2, 3) for st in (0, 1) for d in (0, 1, 1.5, 4)]
    zero = [(s, r, st, 0, c) for s in signs for r in (1, 3) for st in (0, 1, 2.5) for c in (None, 0)]
    triple = [(s, r, st, d, c) for s in signs for r in (1, 2) for st, d, c in ((0, None, None), (1, 2, None), (1, None, 1), (2, 1, None), (0, 2, 2))]
    if not q:
        triple += [(s, r, st, d, c) for s in signs for r in (0.5, 3) for st, d, c in ((0, None, 3), (1, 1, None), (3, None, None))]
    both = (UP.ContinuousContainer, UP.SelfMonitoringContinuousContainer)
    return [Harness("fine", fine), Harness("reactions", reactions), Harness("one", plans, count=1, menu=pair + zero, settings=((True, True), (False, False), (True, False), (False, True)), classes=both),
            Harness("zero", plans, count=2, menu=zero[::2] + [(s, r, st, d, None) for s in signs for r in (1, 3) for st in (0, 1) for d in (2, None)], settings=((True, True), (False, False)), classes=both),
            Harness("pairs", plans, count=2, menu=pair, settings=((True, True), (False, False)), classes=both[:1]),
            Harness("triples", plans, count=3, menu=triple, settings=((False, False),) if q else ((True, True), (False, False)), classes=both[1:])]
