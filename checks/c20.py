"""C20: task networks run what is queued, then the defaults, one task at a time.

Two networks of one actor run on the real kernel.  At every event boundary the
explorer may set, clear or replace a queue or interrupt a network (end, ignore,
restart), within a budget.  A reference follows the network rules: it knows the
links and the queue, and is told when the running task ended; the network must
then choose exactly the successor it names, at that instant, and report it.
"""
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "4 link tables x 6 kinds of start x 2 parallel networks, 3 time units: all schedules of 1 operation (of 8 on each network) at any event "
                   "boundary, of 2 operations for 2 tables; 5 successors x allowed or not x queued or default",
          "thorough": "2 operations everywhere over 4 time units; 3 operations for one table"}
ORACLE = "reference network: head of the queue, else the default, else an error"

TL = UP.TaskLinks


class X(UP.Actor):
    n = UP.State(default=0)


def say(task, what, arg=None):
    task.stage.log.append((what, task._network_name, type(task).__name__, task.env.now, id(task), arg))


class Base(UP.Task):
    def task(self, *, actor):
        say(self, "start")
        yield from self.body(actor)
        say(self, "done")

    def on_interrupt(self, *, actor, cause):
        say(self, "int", cause)
        return {"end": self.INTERRUPT.END, "ignore": self.INTERRUPT.IGNORE, "restart": self.INTERRUPT.RESTART}[cause]


class A(Base):
    def body(self, actor):
        yield UP.Wait(1.0)


class B(Base):
    def body(self, actor):
        yield UP.Any(UP.Wait(1.0), UP.Event())
        yield UP.Wait(0.5)


class Q(Base):
    """Ends at once."""

    def body(self, actor):
        return
        yield


class K(Base):
    """Sets its own queue while running."""

    def body(self, actor):
        yield UP.Wait(0.5)
        self.clear_actor_task_queue(actor)
        self.set_actor_task_queue(actor, ["S", "A"])
        say(self, "queue", ["S", "A"])
        yield UP.Wait(0.5)


class D(UP.DecisionTask):
    def make_decision(self, *, actor):
        say(self, "start")
        actor.n += 1
        if actor.n % 2 and not self.get_actor_task_queue(actor):
            self.set_actor_task_queue(actor, ["B"])
            say(self, "queue", ["B"])

    on_interrupt = Base.on_interrupt


class S(D):
    DO_NOT_HOLD = True

    def make_decision(self, *, actor):
        if actor.get_running_task(self._network_name) is not None:
            say(self, "running during a decision that does not hold")
        super().make_decision(actor=actor)


CL = {"A": A, "B": B, "Q": Q, "D": D, "S": S, "K": K}
ALL = list(CL)
TABLES = [
    {"A": TL("K", ALL), "B": TL("A", ALL), "Q": TL("B", ALL), "D": TL("B", ALL), "S": TL("A", ALL), "K": TL("D", ALL)},
    {"A": TL("D", ALL), "B": TL(None, ALL), "Q": TL("A", ALL), "D": TL("S", ALL), "S": TL("A", ALL), "K": TL("B", ALL)},
    {"A": TL("Q", ALL), "B": TL("K", ALL), "Q": TL("K", ALL), "D": TL(None, ALL), "S": TL("D", ALL), "K": TL("K", ALL)},
    {"A": TL("S", ALL), "B": TL("S", ALL), "Q": TL(None, ALL), "D": TL("A", ALL), "S": TL("K", ALL), "K": TL("D", ALL)},
]
STARTS = [("A", []), (None, ["A", "A", "B"]), ("B", ["A", "B"]), ("S", []), (None, ["D", "Q", "A"]), (None, ["K", "S", "Q"]), (None, []), ("A", ["nope"])]
OPS = [("set", ["A", "A"]), ("set", ["S", "B"]), ("set", ["nope"]), ("clear",), ("replace", ["Q", "K"]), ("int", "end"), ("int", "ignore"), ("int", "restart")]


class Net:
    def __init__(self, ctx, x, name, links, init, queue):
        self.ctx, self.x, self.name, self.links, self.queue, self.init = ctx, x, name, links, list(queue), init
        self.cur = self.proc = self.tid = None
        self.fresh = self.done = self.restart = False
        self.ints = []
        self.skips = []

    def alive(self):
        return self.proc is not None and self.proc.is_alive

    def next(self):
        if self.queue:
            return self.queue[0]
        return self.init if self.cur is None else self.links[self.cur].default

    def chosen(self, name):
        self.ctx.eq(name, self.next(), f"{self.name}: successor of {self.cur}", "successor")
        if self.queue:
            self.queue.pop(0)
        self.cur = name
        self.done = False

    def event(self, what, task, tid, arg, was_alive):
        ctx = self.ctx
        if what == "queue":
            self.queue = list(arg)
        elif what == "start" and task == "S":
            ctx.check(not was_alive, lambda: f"{self.name}: S decides although {self.cur} runs", "two at once")
            self.chosen("S")
            self.done = True
        elif what == "start" and self.restart:
            ctx.eq((task, tid), (self.cur, self.tid), f"{self.name}: restarted task", "restart")
            self.restart = False
        elif what == "start":
            ctx.check(self.fresh, lambda: f"{self.name}: {task} started out of turn", "two at once")
            ctx.eq(task, self.cur, f"{self.name}: started task", "successor")
            self.fresh, self.tid = False, tid
        elif what == "int":
            ctx.check(self.ints and self.ints[0] == arg and tid == self.tid, lambda: f"{self.name}: {task} interrupted by {arg}, not {self.ints}", "interrupt")
            self.ints.pop(0)
            self.restart = arg == "restart"
            self.done = arg == "end"
        elif what == "done":
            ctx.check(tid == self.tid and not self.done, lambda: f"{self.name}: {task} ended out of turn", "two at once")
            self.done = True
        else:
            ctx.fail(f"{self.name}: {what}", "hold")

    def moved(self, was_alive):
        """Look whether the network has begun another task."""
        ctx, one = self.ctx, self.x.get_running_task(self.name)
        if one is not None and one.process is not self.proc:
            ctx.check(not was_alive, lambda: f"{self.name}: {one.name} begun although {self.cur} runs", "two at once")
            self.chosen(one.name)
            self.proc, self.fresh, self.restart = one.process, True, False
            self.ints = []
            self.done = False
        elif self.alive():
            ctx.check(one is not None, lambda: f"{self.name}: {self.cur} runs but is not reported", "reported")
            ctx.check(self.cur == "D" or not self.done, lambda: f"{self.name}: {self.cur} is over but its process is not", "ended")
        if not self.alive() and self.proc is not None:
            ctx.check(self.done or self.cur == "D", lambda: f"{self.name}: the process of {self.cur} is over but the task is not", "ended")

    def report(self):
        ctx, x = self.ctx, self.x
        one = x.get_running_task(self.name)
        ctx.eq(one is not None, self.alive(), f"{self.name}: something reported running", "reported")
        if one:
            ctx.eq(one.name, self.cur, f"{self.name}: reported running task", "reported")
            two = x.get_running_tasks()[self.name]
            ctx.eq((two.name, two.process), (one.name, one.process), "both ways of asking")
        else:
            ctx.check(self.name not in x.get_running_tasks(), "both ways of asking", "reported")
        ctx.eq(list(x.get_task_queue(self.name)), self.queue, f"{self.name}: remaining queue", "queue")
        ctx.eq(list(x.get_all_task_queues()[self.name]), self.queue, f"{self.name}: remaining queue", "queue")
        ctx.eq(x.get_next_task(self.name), self.queue[0] if self.queue else None, f"{self.name}: next task", "queue")

    def operate(self, kind, arg=None):
        ctx, x, name = self.ctx, self.x, self.name
        if kind == "set":
            given = list(arg)
            try:
                x.set_task_queue(name, given)
                ctx.check(not self.queue, "a queue that is not empty was replaced", "set")
                self.queue = list(arg)
            except UP.SimulationError:
                ctx.check(bool(self.queue), "setting an empty queue is refused", "set")
            given.append("changed later")
        elif kind == "clear":
            x.clear_task_queue(name)
            self.queue = []
        elif kind == "replace":
            x.clear_task_queue(name)
            x.set_task_queue(name, list(arg))
            self.queue = list(arg)
        else:
            try:
                x.interrupt_network(name, cause=arg)
                ok = True
            except Exception:
                ok = False
            ctx.eq(ok, self.alive(), f"{name}: can be interrupted", "interrupt")
            if ok:
                self.ints.append(arg)


def run(ctx, tables, starts, budget, horizon, both):
    table = ctx.choose(tables, "links")
    init, queue = STARTS[ctx.choose(starts, "start")]
    with UP.EnvironmentContext() as env:
        log = []
        UP.add_stage_variable("log", log)
        x = X(name="x")
        nets = {"one": Net(ctx, x, "one", TABLES[table], init, queue), "two": Net(ctx, x, "two", TABLES[0], "A", [])}
        for net in nets.values():
            x.add_task_network(UP.TaskNetwork(net.name, CL, net.links))
            if net.queue:
                x.set_task_queue(net.name, list(net.queue))
        for net in nets.values():
            x.start_network_loop(net.name, net.init)
        left, count, pos = budget, 0, 0
        menu = [None] + [(n, *o) for n in (nets if both else ["one"]) for o in OPS]
        while True:
            for net in nets.values():
                net.report()
            while left:
                op = ctx.choose(menu)
                if op is None:
                    break
                left -= 1
                ctx.note(f"t={env.now} boundary {count}: {op}")
                nets[op[0]].operate(*op[1:])
                for net in nets.values():
                    net.report()
            ctx.state((env.now, [(n.cur, tuple(n.queue), tuple(n.ints), n.alive()) for n in nets.values()], left))
            if env.peek() > horizon:
                break
            if env.peek() > env.now:
                for net in nets.values():
                    ctx.check(net.alive(), lambda: f"{net.name}: nothing runs after {net.cur} at {env.now}", "stuck")
            doomed = [net for net in nets.values() if not net.alive() and net.next() not in CL]
            if doomed:
                # No successor: an error must end the network now, and nothing may be run instead.
                now, had = env.now, {net.name: [e for e in log if e[1] == net.name] for net in doomed}
                try:
                    while env.peek() == now:
                        env.step()
                    ctx.fail(f"{doomed[0].name}: no error although nothing can follow {doomed[0].cur}", "no_error")
                except (UP.SimulationError, KeyError):
                    pass
                if len(doomed) == 1:
                    ctx.eq([e for e in log if e[1] == doomed[0].name], had[doomed[0].name], "something else ran", "no_error")
                ctx.outcome("error")
                return
            was = {n: net.alive() for n, net in nets.items()}
            env.step()
            ctx.step()
            count += 1
            ctx.check(count < 400, "livelock", "livelock")
            while pos < len(log):
                what, net, task, at, tid, arg = log[pos]
                pos += 1
                ctx.eq(at, env.now, "time of an event of a task")
                nets[net].event(what, task, tid, arg, was[net])
            for name, net in nets.items():
                net.moved(was[name])
        ctx.outcome(tuple(n.cur for n in nets.values()))


def rules(ctx):
    """Successors the network allows or not."""
    allowed = ctx.choose((True, False), "allowed")
    nxt = ctx.choose(("A", "B", "S", "D", "K"), "next")
    how = ctx.choose(("queued", "default"), "how")
    first = ctx.choose(("Q", "A"), "first")
    default = nxt if how == "default" else "A"
    ok = [n for n in CL if n != nxt] + ([nxt] if allowed else [])
    links = {n: TL(default, ok) for n in CL}
    with UP.EnvironmentContext() as env:
        log = []
        UP.add_stage_variable("log", log)
        x = X(name="x")
        x.add_task_network(UP.TaskNetwork("one", CL, links))
        if how == "queued":
            x.set_task_queue("one", [first, nxt])
            x.start_network_loop("one")
        else:
            x.start_network_loop("one", first)
        failed = None
        try:
            while len([e for e in log if e[0] == "start"]) < 2 and env.peek() < 9:
                env.step()
        except UP.SimulationError as e:
            failed = e
        ran = [e[2] for e in log if e[0] == "start"]
        if allowed:
            ctx.check(failed is None, lambda: f"unexpected {failed!r}")
            ctx.eq(ran[:2], [first, nxt], "tasks run", "successor")
        else:
            ctx.check(failed is not None and len(ran) == 1, lambda: f"ran {ran} although not allowed", "not_allowed")
        ctx.outcome((allowed, failed is None))


def harnesses(tier):
    every = range(len(TABLES))
    starts = range(len(STARTS))
    if tier == "quick":
        return [Harness("one", run, tables=every, starts=starts, budget=1, horizon=3.0, both=True),
                Harness("two", run, tables=(0, 3), starts=(3, 4), budget=2, horizon=2.0, both=False), Harness("rules", rules)]
    return [Harness("one", run, tables=every, starts=starts, budget=1, horizon=6.0, both=True),
            Harness("two", run, tables=every, starts=starts, budget=2, horizon=2.0, both=True),
            Harness("three", run, tables=(3,), starts=(4,), budget=3, horizon=0.5, both=False), Harness("rules", rules)]
