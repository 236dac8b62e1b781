"""C24: contexts are isolated, restore what was visible, and the stage is write-once.

Part one: all sequences of context and tracking operations in one thread, nested
and sequential, against a stack of plain records.  Part two: two (three) threads
with programs of such operations, all interleavings.  Part three: the same with
one preemption at any line of the library's code.  A program's result must be
the one it has when it runs alone.
"""
import os
import sys
import threading

import upstage_des.api as UP
from upstage_des.base import clear_top_context, create_top_context
from upstage_des.data_utils import create_table, get_recorded_data, record_data

from mc.engine import Harness

BOUNDS = {"quick": "all sequences of 5 of 12 operations (every context left at the end); 2 threads: all interleavings of programs of 5 operations (6 pairs); one preemption "
                   "at any line of the library in 3 programs",
          "thorough": "sequences of 6; 3 threads of 3 operations; two preemptions at every 7th line"}
ORACLE = "a stack of records per thread; the program's result when alone"


class Base(UP.UpstageBase):
    pass


class X(UP.Actor, entity_groups=["G"]):
    n = UP.State(default=0, recording=True)
    store = UP.ResourceState(default=UP.SelfMonitoringStore)


class E(UP.NamedUpstageEntity, entity_groups=["G", "H"]):
    pass


class Frame:
    """What is visible within one context."""

    def __init__(self, env, now, rng):
        self.env, self.now, self.rng = env, now, rng
        self.vars, self.actors, self.entities, self.monitored, self.recorded = {}, [], {"X": [], "E": [], "G": [], "H": []}, [], []


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def raises(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False


def compare(ctx, stack, every):
    """The visible world against the top record."""
    base = every["base"]
    if not stack:
        gone = (UP.UpstageError, ValueError)
        for f in (lambda: base.env, lambda: base.stage, lambda: UP.get_stage(), lambda: UP.get_stage_variable("v"), lambda: UP.add_stage_variable("v", 1),
                  base.get_actors, base.get_monitored, base.get_recorded):
            ctx.check(raises(f, *gone), "access outside any context is an error", "outside")
        return
    f = stack[-1]
    ctx.check(base.env is f.env, "another clock is visible", "clock")
    ctx.eq(base.env.now, f.now, "time", "clock")
    ctx.check(base.stage is UP.get_stage(), "two stages", "stage")
    ctx.check(base.stage.random is f.rng, "another random generator", "random")
    for v in ("v", "w"):
        if v in f.vars:
            for got in (UP.get_stage_variable(v), getattr(base.stage, v), base.stage[v], getattr(UP.get_stage(), v)):
                ctx.check(got is f.vars[v], lambda: f"{v} reads {got!r}, was added as {f.vars[v]!r}", "read")
        else:
            ctx.check(raises(lambda: UP.get_stage_variable(v), UP.UpstageError), "a variable never added is an error", "absent")
            ctx.check(raises(lambda: getattr(base.stage, v), AttributeError), "a variable never added is an error", "absent")
    ctx.eq(sorted(k for k in base.stage if k != "random"), sorted(f.vars), "stage variables", "read")
    ctx.check(same(base.get_actors(), f.actors), lambda: f"actors {base.get_actors()} != {f.actors}", "actors")
    for g, members in f.entities.items():
        ctx.check(same(base.get_entity_group(g), members), lambda: f"group {g}: {base.get_entity_group(g)} != {members}", "group")
    ctx.check(same(base.get_monitored(), f.monitored), lambda: f"monitored {base.get_monitored()} != {f.monitored}", "monitored")
    ctx.eq(base.get_recorded(), f.recorded, "recordings", "recorded")
    ctx.eq(get_recorded_data(), f.recorded, "recordings", "recorded")


# "again" enters an open context object again, "shared" one used by all threads
OPS = ("with", "again", "top", "leave", "error", "add v", "add w", "re-add", "actor", "entity", "record", "run")
EMPTY = ("with", "top")


class Oops(Exception):
    pass


class Machine:
    """One thread's contexts, and what should be visible."""

    def __init__(self, ctx, every):
        self.ctx, self.every, self.stack, self.open = ctx, every, [], []
        self.count = 0

    def enter(self, c, how):
        env = c.__enter__() if how == "with" else None
        if how == "top":
            c = create_top_context(c.args[0], c.args[1])
            env = c.env_ctx.get()
        rng = UP.get_stage().random
        self.stack.append(Frame(env, c.args[0] if how != "top" else env.now, rng))
        self.open.append((c, how))

    def make(self):
        self.count += 1
        c = UP.EnvironmentContext(float(self.count), 7)
        c.args = (float(self.count), 7)
        return c

    def leave(self, error=None):
        c, how = self.open.pop()
        self.stack.pop()
        if how == "top":
            clear_top_context(c)
        elif error is None:
            c.__exit__(None, None, None)
        else:
            self.ctx.check(not c.__exit__(type(error), error, None), "leaving hides the error", "hidden")

    def do(self, op):
        ctx, f = self.ctx, self.stack[-1] if self.stack else None
        self.count += 1
        if op in ("with", "top"):
            c = self.make()
            start = c.args[0]
            self.enter(c, op)
            ctx.eq(self.stack[-1].env.now, start, "initial time", "clock")
            ctx.check(not any(self.stack[-1].env is o.env or self.stack[-1].rng is o.rng for o in self.stack[:-1]), "a context shares its clock or random numbers", "shared")
        elif op == "again":
            c = next((c for c, how in self.open if how == "with"), None)
            if c is None:
                return False
            self.enter(c, "with")
        elif op == "shared":
            self.enter(self.every["context"], "with")
        elif op == "leave":
            self.leave()
        elif op == "error":
            self.leave(Oops())
        elif op in ("add v", "add w", "re-add"):
            v = "w" if op == "add w" else "v"
            new = object()
            if v in f.vars:
                for g in (lambda: UP.add_stage_variable(v, new), lambda: setattr(UP.get_stage(), v, new), lambda: UP.add_stage_variable(v, f.vars[v])):
                    ctx.check(raises(g, UP.UpstageError, AttributeError), f"adding {v} again is accepted", "twice")
            elif op == "re-add":
                return False
            else:
                UP.add_stage_variable(v, new)
                f.vars[v] = new
        elif op == "actor":
            a = X(name=f"a{self.count}")
            f.actors.append(a)
            f.monitored.append(a.store)
            f.entities["X"].append(a)
            f.entities["G"].append(a)
        elif op == "entity":
            e = E()
            for g in ("E", "G", "H"):
                f.entities[g].append(e)
            s = UP.SelfMonitoringContainer(f.env)
            f.monitored.append(s)
        elif op == "record":
            record_data(self.count)
            f.recorded.append((f.now, self.count))
        elif op == "run":
            f.env.run(until=f.now + 1)
            f.now += 1
        return True


def sequence(ctx, depth):
    every = {"base": Base()}
    m = Machine(ctx, every)
    compare(ctx, m.stack, every)
    try:
        for _ in range(depth):
            op = ctx.choose((None,) + (OPS if m.stack else EMPTY), "op")
            if op is None:
                break
            if not m.do(op):
                break
            compare(ctx, m.stack, every)
            ctx.step()
            ctx.state([(sorted(f.vars), len(f.actors), len(f.monitored), f.now) for f in m.stack])
    finally:
        err = sys.exc_info()[0] is not None
        while m.open:
            if err:
                try:
                    m.leave()
                except Exception:   # noqa: BLE001  the first error counts
                    pass
            else:
                m.leave()
                compare(ctx, m.stack, every)


def names(ctx):
    """A stage variable may have any name; all are written once."""
    name = ctx.choose(("x", "random_", "env", "now", "_private", "items", "keys", "get", "values", "update", "has space", "Ü"), "name")
    how = ctx.choose(("function", "attribute"), "how")
    val = ctx.choose((0, None, "", (), 1.5, "list", "dict", "function"), "value")
    val = {"list": [1], "dict": {"a": 1}, "function": len}.get(val, val) if isinstance(val, str) else val
    with UP.EnvironmentContext():
        ctx.check(raises(lambda: UP.get_stage_variable(name), UP.UpstageError), "a variable never added is an error", "absent")
        if how == "function":
            UP.add_stage_variable(name, val)
        else:
            setattr(UP.get_stage(), name, val)
        ctx.check(UP.get_stage_variable(name) is val, lambda: f"{name} reads {UP.get_stage_variable(name)!r}", "read")
        ctx.check(UP.get_stage()[name] is val, "read", "read")
        for g in (lambda: UP.add_stage_variable(name, 3), lambda: setattr(Base().stage, name, 3)):
            ctx.check(raises(g, UP.UpstageError, AttributeError), "added twice", "twice")
        ctx.check(UP.get_stage()[name] is val, "the first value is kept", "twice")
        twin = name.swapcase()
        if twin != name:
            UP.add_stage_variable(twin, twin)
            ctx.check(UP.get_stage_variable(name) is val and UP.get_stage_variable(twin) is twin and UP.get_stage()[twin] is twin, "names differing by case are two variables", "twin")
        shadowed = name in dir(dict)
        ctx.check(getattr(UP.get_stage(), name) is val, lambda: f"stage.{name} reads {getattr(UP.get_stage(), name)!r}", "dictionary name" if shadowed else "attribute")


# ---------------------------------------------------------------- threads
PROGRAMS = {
    "plain": ("with", "add v", "actor", "run", "leave"),
    "nested": ("with", "actor", "with", "add v", "leave"),
    "top": ("top", "record", "add w", "entity", "leave"),
    "error": ("with", "add v", "re-add", "run", "error"),
    "outside": ("with", "leave", "top", "actor", "leave"),
    "shared": ("shared", "add v", "actor", "leave"),
}
SHORT = {"plain": ("with", "add v", "actor"), "top": ("top", "record", "leave"), "run": ("with", "run", "error")}


class Worker(threading.Thread):
    """Does one piece of work at a time, on request."""

    def __init__(self):
        super().__init__(daemon=True)
        self.todo, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.work, self.error, self.alive = None, None, True

    def run(self):
        while True:
            self.todo.acquire()
            if self.work is None:
                return
            try:
                self.work()
            except BaseException as e:   # noqa: BLE001
                self.error = e
            self.done.release()

    def do(self, work):
        self.work = work
        self.todo.release()
        if work is not None:
            self.done.acquire()
            if self.error:
                e, self.error = self.error, None
                raise e
        else:
            self.join()


def threads(ctx, programs, n):
    outer = ctx.flag("started within a context")
    menu = sorted(programs)
    chosen = []
    for i in range(n):
        chosen.append(ctx.choose(menu[menu.index(chosen[-1]):] if chosen else menu, "program"))
    if outer:
        top = UP.EnvironmentContext(99.0)
        mine = Machine(ctx, {"base": Base()})
        top.args = (99.0, None)
        mine.enter(top, "with")
        mine.do("add v")
        mine.do("actor")
    else:
        mine = Machine(ctx, {"base": Base()})
    workers = [Worker() for _ in range(n)]
    try:
        ms = []
        shared = {"base": Base(), "context": UP.EnvironmentContext(3.0)}
        shared["context"].args = (3.0, None)
        for w, p in zip(workers, chosen):
            w.start()
            ms.append(Machine(ctx, shared))
        at = [0] * n
        for w, m in zip(workers, ms):
            w.do(lambda: compare(ctx, m.stack, shared))
        while True:
            ready = [i for i in range(n) if at[i] < len(programs[chosen[i]])]
            if not ready:
                break
            i = ctx.choose(ready)
            op = programs[chosen[i]][at[i]]
            at[i] += 1
            ctx.note(f"thread {i}: {op}")
            workers[i].do(lambda: ms[i].do(op))
            for w, m in zip(workers, ms):
                w.do(lambda: compare(ctx, m.stack, shared))
            compare(ctx, mine.stack, mine.every)
            ctx.step()
            ctx.state((chosen, at))
        for w, m in zip(workers, ms):
            while m.open:
                w.do(lambda: m.leave())
                w.do(lambda: compare(ctx, m.stack, shared))
    finally:
        for w in workers:
            w.do(None)
        if outer:
            mine.leave()
    compare(ctx, [], shared)


# ------------------------------------------------------ preemption anywhere
class Work(UP.Task):
    def task(self, *, actor):
        for _ in range(2):
            yield UP.Put(actor.store, self.stage.v)
            yield UP.Wait(self.stage.random.uniform(1, 2))
            actor.n += 1


def simulate(seed):
    """A small complete simulation; everything it shows."""
    before = raises(lambda: Base().env, UP.UpstageError)
    with UP.EnvironmentContext(seed, seed) as env:
        UP.add_stage_variable("v", seed)
        a = X(name=f"x{seed}")
        E()
        Work().run(actor=a)
        env.run(until=seed + 1.1)
        record_data(a.n)
        c = Work().rehearse(actor=a)
        env.run()
        b = Base()
        out = (env.now, UP.get_stage_variable("v"), a.n, c.n, list(a.store.items), [x.name for x in b.get_actors()],
               {k: [type(x).__name__ for x in v] for k, v in sorted(b.get_all_entity_groups().items())}, len(b.get_monitored()), b.get_recorded(),
               create_table()[0])
    return before, out, raises(lambda: Base().env, UP.UpstageError)


def nested(seed):
    with UP.EnvironmentContext(seed, seed):
        UP.add_stage_variable("v", -seed)
        X(name="outer")
        inner = None
        try:
            with UP.EnvironmentContext(seed + 1):
                UP.add_stage_variable("v", seed)
                X(name="inner")
                inner = [a.name for a in Base().get_actors()], UP.get_stage_variable("v"), Base().env.now
                UP.add_stage_variable("v", 0)
        except UP.UpstageError:
            pass
        return inner, [a.name for a in Base().get_actors()], UP.get_stage_variable("v"), Base().env.now, UP.get_stage().random.random()


def top(seed):
    c = create_top_context(seed, seed)
    e = E()
    record_data(seed)
    UP.SelfMonitoringStore(c.env_ctx.get())
    out = [x is e for x in e.get_entity_group("G")], get_recorded_data(), len(e.get_monitored()), e.stage.random.random()
    clear_top_context(c)
    return out, raises(e.get_actors, UP.UpstageError)


RUNS = {"simulate": simulate, "nested": nested, "top": top}
LIB = os.path.dirname(UP.__file__)


def tracer(stop):
    """Call stop at every line of the library."""
    def local(frame, event, arg):
        if event == "line":
            stop()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIB) else None
    return glob


def preempt(ctx, switches, stride, first, second):
    a, b = ctx.choose(first, "first"), ctx.choose(second, "second")
    alone = {0: RUNS[a](3), 1: RUNS[b](5)}
    turn = [threading.Semaphore(0), threading.Semaphore(0)]
    finished, out, main = [False, False], [None, None], threading.Semaphore(0)
    left = [switches]
    lines = [0]

    def body(me, f, seed):
        turn[me].acquire()

        def stop():
            if not left[0] or finished[1 - me]:
                return
            lines[0] += 1
            if lines[0] % stride:
                return
            if ctx.flag():
                left[0] -= 1
                turn[1 - me].release()
                turn[me].acquire()
        sys.settrace(tracer(stop))
        try:
            out[me] = f(seed)
        except BaseException as e:   # noqa: BLE001
            out[me] = e
        sys.settrace(None)
        finished[me] = True
        if finished[1 - me]:
            main.release()
        else:
            turn[1 - me].release()

    ts = [threading.Thread(target=body, args=(0, RUNS[a], 3), daemon=True), threading.Thread(target=body, args=(1, RUNS[b], 5), daemon=True)]
    for t in ts:
        t.start()
    turn[0].release()
    main.acquire()
    for t in ts:
        t.join()
    ctx.step(lines[0])
    for i in (0, 1):
        if isinstance(out[i], BaseException):
            raise out[i]
        ctx.eq(out[i], alone[i], f"thread {i} ({(a, b)[i]}) preempted {'during' if i == 0 else 'by'} the other", "interference")
    ctx.check(raises(lambda: Base().env, UP.UpstageError), "a context of another thread is visible", "outside")


def harnesses(tier):
    if tier == "quick":
        return [Harness("sequence", sequence, depth=5), Harness("names", names), Harness("threads", threads, programs=PROGRAMS, n=2),
                Harness("preempt", preempt, switches=1, stride=1, first=tuple(RUNS), second=("simulate",))]
    return [Harness("sequence", sequence, depth=6), Harness("names", names), Harness("threads", threads, programs=PROGRAMS, n=2),
            Harness("threads3", threads, programs=SHORT, n=3),
            Harness("preempt", preempt, switches=1, stride=1, first=tuple(RUNS), second=tuple(RUNS)),
            Harness("preempt2", preempt, switches=2, stride=7, first=("nested", "top"), second=("nested", "top"))]
