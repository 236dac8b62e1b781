"""C32: reserve containers never over-promise and never lose stock.

All short histories of reserve / cancel / take / put for two requesters with
and without expiry, with time passing between any two operations, on containers
that start full, partly filled and unlimited, plain and self-monitoring.
"""
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "two requesters: all sequences of 2 of 24 operations with 0, 0.5 or 2 time units after each (3 kinds of requester, both classes), and of 3 with 0 or 1; one requester: all sequences "
                   "of 5 of 7 operations with 0 or 0.5 time units after each; four requesters at once and 2 of 9 operations more; 3 starting points",
          "thorough": "sequences of 3 with 0, 0.5 or 2 on everything; sequences of 6"}
ORACLE = "books kept by hand: real level, live reservations with their own expiry"

STARTS = [dict(capacity=10.0, init=10.0), dict(capacity=10.0, init=6.0), dict(init=6.0)]


class Named(UP.Actor):
    pass


def requesters(kind):
    """A function that names requester 0 or 1 - actors, or equal but distinct values."""
    if kind == "actor":
        some = [Named(name=f"r{i}") for i in range(5)]
        return lambda i: some[i]
    if kind == "tuple":
        return lambda i: tuple(["truck", 1000 + i])
    return lambda i: "".join(["r", str(i)])


class Books:
    def __init__(self, init, capacity=float("inf")):
        self.level, self.capacity, self.held = init, capacity, {}

    @property
    def free(self):
        return self.level - sum(q for q, _ in self.held.values())

    def pass_time(self, now):
        self.held = {r: (q, t) for r, (q, t) in self.held.items() if t > now}


BOTH = (UP.ReserveContainer, UP.SelfMonitoringReserveContainer)
ALL = ("actor", "tuple", "str")


def crowd(ctx, kinds, menu, count, depth, waits, start):
    """Several requesters hold at once; then a few operations of any of them."""
    hold = [[("reserve", r, q, e) for q in (1.0, 2.5) for e in (None, 1)] for r in range(count)]
    run(ctx, hold + [menu] * depth, count + depth, [(0,)] * (count - 1) + [waits] * (depth + 1), kinds, [start], BOTH)


def run(ctx, menu, depth, waits, kinds=ALL, starts=STARTS, classes=BOTH):
    kind = ctx.choose(kinds, "requesters")
    start = dict(ctx.choose(starts, "start"))
    cls = ctx.choose(classes, "class")
    with UP.EnvironmentContext() as env:
        who = requesters(kind)
        box = cls(env, **start)
        ref = Books(**start)
        trail = []

        def compare():
            ctx.close(box.available, ref.free, "available", key="available")
            ctx.close(box.remaining, ref.free, "remaining", key="available")
            ctx.eq(sorted(map(repr, box.queued)), sorted(repr(who(r)) for r in ref.held), "reservations", "queued")
            ctx.check(-1e-9 <= ref.free <= ref.level <= ref.capacity, "the books are wrong", "books")
            ctx.eq(box.capacity, ref.capacity, "capacity", "capacity")
            ctx.step()

        for n in range(depth):
            op, *args = ctx.choose(menu[n] if isinstance(menu[0], list) else menu)
            ctx.note(f"@{env.now} {op} {args}")
            trail.append((op, args, env.now))
            if op == "reserve":
                r, q, exp = args
                ok = box.reserve(who(r), q, **({} if exp is None else {"expiration": exp}))
                want = r not in ref.held and ref.free >= q - 1e-12
                ctx.eq(ok, want, f"reserve {q} of {ref.free} ({'already holding' if r in ref.held else 'holding nothing'})", "reserve")
                if want:
                    ref.held[r] = (q, env.now + exp if exp is not None else float("inf"))
            elif op == "cancel":
                ctx.eq(box.cancel_request(who(args[0])), args[0] in ref.held, "cancel", "cancel")
                ref.held.pop(args[0], None)
            elif op == "take":
                try:
                    got = box.take(who(args[0]))
                except ValueError:
                    got = None
                want = ref.held.pop(args[0], (None,))[0]
                ctx.eq(got, want, "take", "take")
                if want is not None:
                    ref.level -= want
            elif op == "put":
                q, grow = args
                try:
                    box.put(q, **({"capacity_increase": True} if grow else {}))
                    ok = True
                except ValueError:
                    ok = False
                want = grow or ref.level + q <= ref.capacity
                ctx.eq(ok, want, f"put {q} on {ref.level} of {ref.capacity}, {ref.free} free", "put")
                if want:
                    ref.level += q
                    ref.capacity = max(ref.capacity, ref.level)
            compare()
            dt = ctx.choose(waits[n] if isinstance(waits[0], tuple) else waits)
            if dt:
                env.run(until=env.now + dt)
                ctx.note(f"wait {dt}")
            while env.peek() <= env.now:
                env.step()
            ref.pass_time(env.now)
            compare()
        for _ in range(3):
            env.run(until=env.now + 1)
            while env.peek() <= env.now:
                env.step()
            ref.pass_time(env.now)
            compare()
        # what is not reserved can all be reserved, and no more
        third = Named(name="third")
        ctx.check(not box.reserve(third, ref.free + 0.5), "more than available is promised", "last")
        ctx.check(box.reserve(third, ref.free), "what is available cannot be reserved", "last")
        ctx.state(trail)


TWO = [("reserve", r, q, e) for r in (0, 1) for q in (4.0, 7.0) for e in (None, 0.0, 1, 2.5)] + [(op, r) for op in ("cancel", "take") for r in (0, 1)]
TWO += [("put", q, g) for q in (3.0, 8.0) for g in (False, True)]
ONE = [("reserve", 0, 4.0, e) for e in (None, 0.0, 1, 2.5)] + [("cancel", 0), ("take", 0), ("put", 4.0, False), ("put", 4.0, True)]


FIVE = [("reserve", r, 2.5, e) for r in (0, 4) for e in (None, 1)] + [(op, r) for op in ("cancel", "take") for r in (0, 1, 2, 3)] + [("put", 1.0, False)]


def harnesses(tier):
    if tier == "quick":
        return [Harness("four", crowd, kinds=ALL[1:2], menu=FIVE, count=4, depth=1, waits=(0, 1), start=dict(capacity=10.0, init=8.0)),
                Harness("four of equal", crowd, kinds=ALL[:1], menu=FIVE[4:], count=4, depth=2, waits=(0,), start=dict(capacity=10.0, init=10.0)),
                Harness("all kinds", run, menu=TWO, depth=2, waits=(0, 0.5, 2)), Harness("two", run, menu=TWO, depth=3, waits=(0, 1), kinds=ALL[1:2], classes=BOTH[:1]),
                Harness("one", run, menu=ONE[:7], depth=5, waits=(0, 0.5), kinds=ALL[:1], starts=STARTS[:1], classes=BOTH[1:])]
    return [Harness("four", crowd, kinds=ALL[:2], menu=FIVE, count=4, depth=2, waits=(0, 1), start=dict(capacity=10.0, init=8.0)),
            Harness("two", run, menu=TWO, depth=3, waits=(0, 0.5, 2)), Harness("one", run, menu=ONE[:7], depth=6, waits=(0, 0.5), kinds=ALL[:1], starts=STARTS[:1], classes=BOTH[1:])]
