"""C05: requests conserve items, amounts and slots.

Two real tasks run every pair of scripts over one shared store / filter store /
container / resource; one of them may be interrupted (END) at any kernel event
boundary.  The harness keeps its own books of what each completed request moved
and compares them with the real object at the end of every instant.
"""
import simpy as SIM
import upstage_des.api as UP
from mc.engine import Harness
from mc.sim import drive, ticks

BOUNDS = {"quick": "2 tasks x scripts of 2 operations (store: 6, filter store: 6, container: 6, resource: 5 ops), "
                   "both start orders, 1 interrupt of either task at every boundary",
          "thorough": "3 operations for one task, 2 interrupts"}
ORACLE = "books of completed and withdrawn requests; FIFO/no-stuck rule for queues"


class Act(UP.Actor):
    pass


class Scripted(UP.Task):
    def task(self, *, actor):
        for op in self.script:
            yield from self.ops[op](self)
            self.b.log.append((actor.env.now, self.who, op))


class Books:
    def __init__(self, env, obj):
        self.env, self.obj = env, obj
        self.log = []
        self.gets, self.puts, self.holds = [], [], []
        self.n = -1   # the first item is a falsy one

    def name(self):
        self.n += 1
        return self.n


def live(r):
    return r._request_event is not None


# ---- store operations --------------------------------------------------------
def st_get(t):
    g = UP.Get(t.b.obj)
    t.b.gets.append((g, t))
    v = yield g
    assert v == g.get_value()


def st_put(t):
    p = UP.Put(t.b.obj, t.b.name())
    t.b.puts.append((p, t))
    yield p


def st_get_or(t):
    g = UP.Get(t.b.obj)
    t.b.gets.append((g, t))
    yield UP.Any(g, UP.Wait(1.0))
    if not g.is_complete():
        g.cancel()


def st_put_or(t):
    p = UP.Put(t.b.obj, t.b.name())
    t.b.puts.append((p, t))
    yield UP.Any(UP.Wait(1.0), p)
    if not p.is_complete():
        p.cancel()


def st_window(t):
    yield Win(t)


class Win(UP.WindowedGet):
    def __init__(self, t):
        super().__init__(t.b.obj, 1.0)
        self.t = t

    def run(self):
        gen = super().run()
        try:
            e = next(gen)
            while True:
                for x in e.events:
                    if isinstance(x, UP.Get):
                        self.t.b.gets.append((x, self.t))
                v = yield e
                e = gen.send(v)
        except StopIteration as s:
            return s.value

    def cancel(self):
        # what was collected goes back: in the books that is a put
        for e in super().cancel():
            self.t.b.puts.append((e, self.t))
            yield e


def wait1(t):
    yield UP.Wait(1.0)


def fs_get_even(t):
    g = UP.FilterGet(t.b.obj, lambda x: x % 2 == 0)
    t.b.gets.append((g, t))
    yield g


def fs_get_odd_or(t):
    g = UP.FilterGet(t.b.obj, lambda x: x % 2 == 1)
    t.b.gets.append((g, t))
    yield UP.Any(UP.Wait(1.0), g)
    if not g.is_complete():
        g.cancel()


def all_two(t):
    g1, g2 = UP.Get(t.b.obj), UP.Get(t.b.obj)
    t.b.gets += [(g1, t), (g2, t)]
    yield UP.All(g1, g2)


# ---- container operations ----------------------------------------------------
def c_get(n):
    def op(t):
        g = UP.Get(t.b.obj, n)
        t.b.gets.append((g, t))
        yield g
    return op


def c_put(n):
    def op(t):
        p = UP.Put(t.b.obj, n)
        t.b.puts.append((p, t))
        yield p
    return op


def c_get_or(t):
    g = UP.Get(t.b.obj, 2)
    t.b.gets.append((g, t))
    yield UP.Any(g, UP.Wait(1.0))
    if not g.is_complete():
        g.cancel()


def c_put_or(t):
    p = UP.Put(t.b.obj, 3)
    t.b.puts.append((p, t))
    yield UP.Any(p, UP.Wait(1.0))
    if not p.is_complete():
        p.cancel()


# ---- resource operations -----------------------------------------------------
def r_hold(t):
    h = UP.ResourceHold(t.b.obj)
    rec = [h, t, "asking"]
    t.b.holds.append(rec)
    yield h
    rec[2] = "held"
    yield UP.Wait(1.0)
    rec[2] = "released"
    yield h


def used_up(h):
    """A hold that was given back can't ask for a slot again."""
    try:
        h.as_event()
    except UP.UpstageError:
        return
    assert False, "a hold that was given back asked for another slot"


def r_quick(t):
    h = UP.ResourceHold(t.b.obj)
    rec = [h, t, "asking"]
    t.b.holds.append(rec)
    yield h
    rec[2] = "released"
    yield h
    used_up(h)


def r_hold_or(t):
    h = UP.ResourceHold(t.b.obj)
    rec = [h, t, "asking"]
    t.b.holds.append(rec)
    yield UP.Any(h, UP.Wait(1.0))
    if h.is_complete():
        rec[2] = "released"
        yield h
    else:
        h.cancel()
        rec[2] = "withdrawn"


def r_two(t):
    h1, h2 = UP.ResourceHold(t.b.obj), UP.ResourceHold(t.b.obj)
    r1, r2 = [h1, t, "asking"], [h2, t, "asking"]
    t.b.holds += [r1, r2]
    yield h1
    r1[2] = "held"
    yield UP.Any(h2, UP.Wait(1.0))
    if h2.is_complete():
        r2[2] = "released"
        yield h2
    else:
        h2.cancel()
        r2[2] = "withdrawn"
    r1[2] = "released"
    yield h1


OPS = {
    "store": {"put": st_put, "get": st_get, "get_or": st_get_or, "put_or": st_put_or, "wait": wait1, "window": st_window},
    "fstore": {"put": st_put, "even": fs_get_even, "odd_or": fs_get_odd_or, "all_two": all_two, "wait": wait1, "get": st_get},
    "cont": {"put2": c_put(2), "get3": c_get(3), "put_or": c_put_or, "get_or": c_get_or, "wait": wait1, "get1": c_get(1)},
    "res": {"hold": r_hold, "quick": r_quick, "hold_or": r_hold_or, "two": r_two, "wait": wait1},
}


def done(r):
    return live(r) and r.is_complete()


class Outside:
    """A plain SimPy party that moves things at t=1 and t=2, with its own books."""

    def __init__(self, env, obj, kind):
        self.env, self.obj, self.kind = env, obj, kind
        self.puts, self.gets, self.req, self.holding = [], [], None, False
        env.process(self.go())

    def go(self):
        env, obj = self.env, self.obj
        if self.kind == "res":
            self.req = obj.request()
            yield self.req
            self.holding = True
            yield env.timeout(2.0)
            self.holding = False
            obj.release(self.req)
            return
        first, second = (2, 2) if self.kind == "cont" else (100, 101)
        yield env.timeout(1.0)
        p = obj.put(first)
        self.puts.append((p, first))
        yield p
        yield env.timeout(1.0)
        if self.kind == "cont":
            self.gets.append((obj.get(1), 1))
        else:
            self.puts.append((obj.put(second), second))


def run(ctx, kind, len1, len2, budget):
    ops = OPS[kind]
    names = list(ops)
    with UP.EnvironmentContext() as env:
        if kind == "store":
            obj = SIM.Store(env, capacity=2)
        elif kind == "fstore":
            obj = SIM.FilterStore(env, capacity=2)
        elif kind == "cont":
            obj = SIM.Container(env, capacity=4, init=1)
        else:
            cls = ctx.choose((SIM.Resource, SIM.PriorityResource), "class")
            obj = cls(env, capacity=ctx.choose((1, 2), "cap"))
        b = Books(env, obj)
        tasks, procs = [], []
        for who, n in (("X", len1), ("Y", len2)):
            t = Scripted()
            t.script = [ctx.choose(names, f"{who}{i}") for i in range(n)]
            t.who, t.b, t.ops = who, b, ops
            tasks.append(t)
            procs.append(t.run(actor=Act(name=who)))
        out = Outside(env, obj, kind)
        ticks(env, [0.5, 1.5, 2.5])
        left = [budget]

        def alive(t):
            return procs[tasks.index(t)].is_alive

        def before():
            while left[0]:
                opts = [None] + [i for i in (0, 1) if procs[i].is_alive]
                if len(opts) == 1:
                    return
                i = ctx.choose(opts)
                if i is None:
                    return
                left[0] -= 1
                ctx.note(f"INT {tasks[i].who}@{env.now}")
                procs[i].interrupt(cause="x")

        def queued_ok(queue, recs, now):
            for r in queue:
                own = [t for x, t in recs if x._request_event is r]
                ctx.check(not own or alive(own[0]), f"request of an ended task still queued at {now}", "left")

        def quiet(now):
            if kind in ("store", "fstore"):
                have = list(obj.items) + [g.get_value() for g, _ in b.gets if done(g)]
                came = [p.put_object for p, _ in b.puts if live(p) and p._request_event.triggered]
                came += [i for e, i in out.puts if e.triggered]
                # an item given back into a full store waits like any other put
                have += [r.item for r in obj.put_queue if not any(p._request_event is r for p, _ in b.puts)
                         and not any(e is r for e, _ in out.puts)]
                ctx.check(sorted(have) == sorted(came), lambda: f"at {now}: have {have}, entered {came}", "conservation")
                ctx.check(len(obj.items) <= 2, f"store over capacity {obj.items}", "capacity")
                ctx.check(not any(any(getattr(g, "filter", lambda x: True)(i) for i in obj.items)
                                  for g in obj.get_queue), f"stuck getter at {now}", "stuck")
                ctx.check(not (obj.put_queue and len(obj.items) < 2), f"stuck putter at {now}", "stuck")
                queued_ok(obj.get_queue, b.gets, now)
                queued_ok(obj.put_queue, b.puts, now)
            elif kind == "cont":
                lvl = 1 + sum(p.put_object for p, _ in b.puts if live(p) and p._request_event.triggered)
                lvl -= sum(g.get_args[0] for g, _ in b.gets if done(g))
                lvl += sum(a for e, a in out.puts if e.triggered) - sum(a for e, a in out.gets if e.triggered)
                back = sum(r.amount for r in obj.put_queue if not any(p._request_event is r for p, _ in b.puts)
                           and not any(e is r for e, _ in out.puts))
                ctx.check(0 <= obj.level <= 4, f"level {obj.level}", "capacity")
                ctx.close(obj.level + back, lvl, f"level at {now}", key="conservation")
                ctx.check(not (obj.get_queue and obj.get_queue[0].amount <= obj.level), f"stuck getter at {now}", "stuck")
                ctx.check(not (obj.put_queue and obj.put_queue[0].amount + obj.level <= 4),
                          f"stuck putter at {now}", "stuck")
                queued_ok(obj.get_queue, b.gets, now)
                queued_ok(obj.put_queue, b.puts, now)
            else:
                held = sum(1 for h, t, st in b.holds if st == "held" or (st == "asking" and done(h))) + int(out.holding)
                ctx.eq(obj.count, held, f"slots in use at {now}", key="slots")
                ctx.check(not (obj.queue and obj.count < obj.capacity), f"free slot but queue at {now}", "stuck")
                mine = [h._request_event for h, t, st in b.holds if st == "asking" and alive(t)]
                for r in obj.queue:
                    ctx.check(r is out.req or any(r is m for m in mine),
                              f"request of an ended task still queued at {now}", "left")
            ctx.state((kind, now, snap(obj, kind), [p.is_alive for p in procs], [t.script for t in tasks], b.log))

        drive(ctx, env, 12.0, before=before, quiet=quiet)
        ctx.outcome((snap(obj, kind), b.log))


def snap(obj, kind):
    if kind in ("store", "fstore"):
        return (list(obj.items), len(obj.get_queue), len(obj.put_queue))
    if kind == "cont":
        return (obj.level, len(obj.get_queue), len(obj.put_queue))
    return (obj.count, len(obj.queue))


def harnesses(tier):
    th = tier == "thorough"
    return [Harness(k, run, kind=k, len1=3 if th else 2, len2=2, budget=2 if th and k == "res" else 1) for k in OPS]
