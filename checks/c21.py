"""C21: factory-made networks, decision tasks and terminal tasks.

All lists of up to 4 tasks (repetitions, decisions, zero-time tasks) through
every factory shortcut, started at any of their tasks, several networks from
one factory at once, with an interrupt at any event boundary: the order of the
tasks is the given one for ever, or until the terminal task.  Decisions: all
small arrangements of two actors, decision kinds and other events of the same
instant.
"""
import upstage_des.api as UP

from mc.engine import Harness
from mc.sim import INF

BOUNDS = {"quick": "4 factories x all lists of <=3 of 5 tasks x start x 1-3 networks from one factory x an interrupt at any event boundary of 2.6 time units; "
                   "decision arrangements: 2 actors x chains of <=3 decisions x 6 kinds x other events of the instant; 5 additions and deletions of networks from factories with overlapping names; all plans of <=3 rehearsed on all factories of <=3 of 3 tasks",
          "thorough": "lists of <=4, 2 interrupts, horizon 4; 6 additions and deletions; plans of <=5"}
ORACLE = "the given order, cyclic or up to the terminal task"


def say(task, actor, what):
    task.stage.log.append((actor.name, task._network_name, what, type(task).__name__, task.env.now))


class Base(UP.Task):
    def task(self, *, actor):
        say(self, actor, "start")
        yield from self.body()
        say(self, actor, "end")

    def on_interrupt(self, *, actor, cause):
        say(self, actor, "int")
        return self.INTERRUPT.END


class A(Base):
    def body(self):
        yield UP.Wait(1.0)


class B(Base):
    def body(self):
        yield UP.Wait(0.5)
        yield UP.Wait(0.25)


class Z(Base):
    def body(self):
        return
        yield


class D(UP.DecisionTask):
    def make_decision(self, *, actor):
        say(self, actor, "start")

    on_interrupt = Base.on_interrupt


class S(D):
    DO_NOT_HOLD = True


def factory(kind, classes):
    F = UP.TaskNetworkFactory
    if kind == "loop1":
        return F.from_single_looping("net", classes[0])
    if kind == "term1":
        return F.from_single_terminating("net", classes[0])
    if kind == "loop":
        return F.from_ordered_loop("net", classes)
    return F.from_ordered_terminating("net", classes)


def order(ctx, most, horizon, interrupts):
    kind = ctx.choose(("loop1", "term1", "loop", "term"), "factory")
    n = 1 if kind.endswith("1") else ctx.choose(range(1, most + 1), "length")
    classes = [ctx.choose((A, B, Z, D, S), "task") for _ in range(n)]
    loops = kind.startswith("loop")
    if loops and all(c in (Z, D, S) for c in classes):
        return            # loops without time passing
    start = ctx.choose(range(n), "start")
    several = ctx.choose((1, 2, 3), "networks")
    ctx.note(f"{kind} {[c.__name__ for c in classes]} from {start}, {several} networks")
    with UP.EnvironmentContext() as env:
        log = []
        UP.add_stage_variable("log", log)
        given = list(classes)
        f = factory(kind, given)
        given.clear()
        x, y = UP.Actor(name="x", debug_log=True), UP.Actor(name="y", debug_log=True)
        # one network on each actor, and another under another name
        where = [(x, "net", start), (y, "net", 0), (x, x.suggest_network_name(f), 0)]
        nets = []
        for actor, _, at in where[:several]:
            name = actor.suggest_network_name(f)
            net = f.make_network(name) if name != "net" else f.make_network()
            ctx.check(net.name == name and not actor.has_task_network(name), "network name", "name")
            actor.add_task_network(net)
            ctx.check(actor.has_task_network(name), "network added", "name")
            names = list(net.task_classes)
            nets.append((actor, name, at, net))
        ctx.eq(len({(a.name, n) for a, n, _, _ in nets}), several, "network names", "name")
        seen = {}
        for actor, name, at, net in nets:
            # The name of a task in the network: first one, or follow the links to it.
            nm = classes[0].__name__
            for _ in range(at):
                nm = net.task_links[nm].default
            actor.start_network_loop(name, nm)
        pos, left, ints = 0, interrupts, {}
        state = {(a.name, n): [at, None] for a, n, at, _ in nets}      # next index, running
        count = 0
        while True:
            while left:
                who = ctx.choose([None] + [i for i, (a, nm, at, net) in enumerate(nets)
                                           if (r := a.get_running_task(nm)) is not None and (loops or state[a.name, nm][0] <= n and state[a.name, nm][1])])
                if who is None:
                    break
                a, nm = nets[who][:2]
                left -= 1
                ctx.note(f"t={env.now} boundary {count}: interrupt {a.name} {nm}")
                ints[a.name, nm] = ints.get((a.name, nm), 0) + 1
                a.interrupt_network(nm, cause="stop")
            if env.peek() > horizon:
                break
            env.step()
            ctx.step()
            count += 1
            ctx.check(count < 500, "livelock", "livelock")
            while pos < len(log):
                actor, net, what, cls, at = log[pos]
                pos += 1
                st = state[actor, net]
                if what == "start":
                    ctx.check(st[1] is None, f"{actor} {net}: {cls} started while {st[1]} was running", "order")
                    want = classes[st[0] % n].__name__ if loops or st[0] < n else "terminal"
                    ctx.eq(cls, want, f"{actor} {net}: task number {st[0]}", "order")
                    st[0] += 1
                    st[1] = None if cls in ("S", "D") else cls
                elif what == "int":
                    ctx.check(ints.get((actor, net), 0) > 0, "interrupt", "interrupt")
                    ints[actor, net] -= 1
                    st[1] = None
                else:
                    st[1] = None
        if not loops:
            for a, nm, at, net in nets:
                st = state[a.name, nm]
                r = a.get_running_task(nm)
                if st[0] >= n and st[1] is None:
                    ctx.check(r is not None and r.name not in ("A", "B", "Z", "D", "S"), f"{a.name} {nm}: the terminal task runs", "terminal")
                    ctx.check(any("terminal task" in m for _, m in a.log()), "terminal task logged", "terminal")
        if not loops and all(st[0] >= n and st[1] is None for st in state.values()):
            if left == interrupts:
                ctx.eq(env.peek(), INF, "nothing is pending", "terminal")
            env.timeout(1e9)
            env.run()
            for a, nm, at, net in nets:
                r = a.get_running_task(nm)
                ctx.check(r is not None and r.process.is_alive, "terminal task stays", "terminal")
            a, nm = nets[0][:2]
            a.interrupt_network(nm, cause="x")
            try:
                while env.peek() < INF:
                    env.step()
                ctx.fail("a terminal task was interrupted", "terminal")
            except UP.SimulationError:
                pass
        else:
            for a, nm, at, net in nets:
                st = state[a.name, nm]
                ctx.check(loops or st[0] < n or st[1] is not None or a.get_running_task(nm) is not None, "network stuck", "order")
                if loops and not ints.get((a.name, nm)):
                    ctx.check(st[0] >= 1 and a.get_running_task(nm) is not None, f"{a.name} {nm}: still running", "order")
        ctx.state((tuple(c.__name__ for c in classes), kind, [tuple(s) for s in state.values()]))
        ctx.outcome((kind, several))


# ---- decisions --------------------------------------------------------------
class Work(UP.Task):
    def task(self, *, actor):
        self.stage.log.append((actor.name, "work", self.env.now))
        yield UP.Wait(1.0)


class Other(Work):
    def task(self, *, actor):
        self.stage.log.append((actor.name, "other", self.env.now))
        yield UP.Event(rehearsal_time_to_complete=1)


class Hold(UP.DecisionTask):
    """Queues what its plan says at this visit."""

    def make_decision(self, *, actor):
        n = actor.get_knowledge("visits") or 0
        actor.set_knowledge("visits", n + 1, overwrite=True)
        self.stage.log.append((actor.name, type(self).__name__, self.env.now))
        plan = actor.get_knowledge("plan")
        if n < len(plan) and plan[n]:
            self.clear_actor_task_queue(actor)
            self.set_actor_task_queue(actor, list(plan[n]))


class Skip(Hold):
    DO_NOT_HOLD = True


TL = UP.TaskLinks
NET = {"Work": TL("Hold", ["Hold", "Skip"]), "Other": TL("Hold", []), "Hold": TL("Work", []), "Skip": TL("Work", [])}
NAMES = {"Work": Work, "Other": Other, "Hold": Hold, "Skip": Skip}
PLANS = [[None], [["Other"]], [["Hold", "Other"], None], [["Skip"], ["Other"]], [["Skip", "Skip"], None, ["Work", "Skip"]], [["Skip"], ["Hold"], ["Other"]]]


def decisions(ctx, extra):
    plans = [ctx.choose(PLANS, "plan") for _ in range(2)]
    firsts = [ctx.choose(("Hold", "Skip"), "first") for _ in range(2)]
    probes = [ctx.choose(("none", "before", "between", "after"), "other event") for _ in range(extra)]
    start = ctx.choose(("Work", "decide"), "start")
    with UP.EnvironmentContext() as env:
        log = []
        UP.add_stage_variable("log", log)

        def probe(k, where):
            if probes[k] == where:
                for t in (0.0, 1.0, 2.0):
                    env.timeout(t).callbacks.append(lambda _: log.append(("probe", k, env.now)))
        for k in range(extra):
            probe(k, "before")
        actors = []
        for i in range(2):
            a = UP.Actor(name=f"a{i}")
            a.set_knowledge("plan", plans[i])
            a.add_task_network(UP.TaskNetwork("net", NAMES, NET))
            a.set_task_queue("net", ["Work", firsts[i]] if start == "Work" else [firsts[i]])
            a.start_network_loop("net")
            actors.append(a)
            if i == 0:
                for k in range(extra):
                    probe(k, "between")
        for k in range(extra):
            probe(k, "after")
        n = 0
        while env.peek() <= 2.0:
            env.step()
            ctx.step()
            n += 1
            ctx.check(n < 300, "livelock", "livelock")
        for i in range(2):
            mine = [e for e in log if e[0] == f"a{i}"]
            # what must happen, task by task
            queue = ["Work", firsts[i]] if start == "Work" else [firsts[i]]
            want, now, visits, cur = [], 0.0, 0, None
            while now <= 2.0:
                cur = queue.pop(0) if queue else NET[cur].default
                want.append((f"a{i}", {"Work": "work", "Other": "other"}.get(cur, cur), now))
                if cur == "Work":
                    now += 1.0
                elif cur == "Other":
                    break
                else:
                    if visits < len(plans[i]) and plans[i][visits]:
                        queue = list(plans[i][visits])
                    visits += 1
            ctx.eq(mine, want, f"tasks of a{i}", "sequence")
        for p, e in enumerate(log):
            if e[1] == "Skip" and (e[2] > 0 or start == "Work"):        # (the network loops themselves start at 0)
                ctx.check(p + 1 < len(log) and log[p + 1][0] == e[0], lambda: f"{log[p + 1:p + 2]} ran between a decision that does not hold and the next task", "hold")
        # a holding decision lets the other events of the instant go first
        for p, e in enumerate(log):
            if e[1] == "Hold" and e[2] > 0 and p + 1 < len(log) and log[p + 1][0] == e[0]:
                late = [q for q in log[p + 1:] if q[0] == "probe" and q[2] == e[2]]
                ctx.check(not late, "a holding decision went on before events of that instant", "hold")
        ctx.state(tuple(log))
        ctx.outcome(len(log))


# ---- an interrupted holding decision ----------------------------------------
class Ask(UP.DecisionTask):
    """Counts its decisions; the plan says what each queues."""

    def make_decision(self, *, actor):
        n = len([e for e in self.stage.log if e[0] == "decide"])
        self.stage.log.append(("decide", self.env.now))
        plan = self.stage.plan
        if n < len(plan):
            self.clear_actor_task_queue(actor)
            self.set_actor_task_queue(actor, [plan[n]])

    def on_interrupt(self, *, actor, cause):
        self.stage.log.append(("int", cause))
        return self.stage.answers.pop(0)


class Next(UP.Task):
    def task(self, *, actor):
        self.stage.log.append((type(self).__name__, self.env.now))
        yield UP.Wait(1.0)


class Next2(Next):
    pass


class Next3(Next):
    pass


def held(ctx, times):
    """1 to `times` interrupts reach a decision in the instant in which it holds."""
    I = Ask.INTERRUPT
    k = ctx.choose(range(1, times + 1), "interrupts")
    answers = [ctx.choose((I.END, I.IGNORE, I.RESTART), f"answer {i}") for i in range(k)]
    plan = [ctx.choose(("Next", "Next2", "Next3"), f"decision {i}") for i in range(2)]
    before = ctx.choose((True, False), "a task before")
    with UP.EnvironmentContext() as env:
        log = []
        for n, v in (("log", log), ("plan", plan), ("answers", list(answers))):
            UP.add_stage_variable(n, v)
        a = UP.Actor(name="a")
        tl = {"Next": TL("Ask", ["Ask"]), "Ask": TL("Next", ["Next", "Next2", "Next3"]), "Next2": TL("Ask", ["Ask"]), "Next3": TL("Ask", ["Ask"])}
        a.add_task_network(UP.TaskNetwork("net", {"Ask": Ask, "Next": Next, "Next2": Next2, "Next3": Next3}, tl))
        a.set_task_queue("net", ["Next", "Ask"] if before else ["Ask"])
        a.start_network_loop("net")
        sent, decided = 0, 0
        n = 0
        at = 1.0 if before else 0.0
        while env.peek() <= at:
            env.step()
            ctx.step()
            n += 1
            ctx.check(n < 200, "livelock", "livelock")
            d = len([e for e in log if e[0] == "decide"])
            r = a.get_running_task("net")
            # one interrupt for each time the decision is seen holding
            if sent < k and d > 0 and r is not None and r.name == "Ask" and len([e for e in log if e[0] == "int"]) == sent and log[-1] != ("sent", sent):
                a.interrupt_network("net", cause=sent)
                log.append(("sent", sent + 1))
                sent += 1
        could = next((i + 1 for i, x in enumerate(answers) if x == I.END), k)
        ctx.eq(sent, could, "interrupts while the decision holds (all but END leave it holding)", "held")
        env.run(until=at + 0.5)
        got = [e for e in log if e[0] != "sent"]
        want = [("Next", 0.0)] if before else []
        want.append(("decide", at))
        d = 1
        for i in range(sent):
            want.append(("int", i))
            if answers[i] == I.END:
                break
            if answers[i] == I.RESTART:
                want.append(("decide", at))
                d += 1
        nxt = plan[min(d, 2) - 1]
        if d > 2:
            # the third decision leaves the queue as the second left it
            nxt = plan[1]
        want.append((nxt, at))
        ctx.eq(got, want, "what happened", "held")
        ctx.state((tuple(map(str, answers)), tuple(plan), before, sent))
        ctx.outcome(sent)


class Carrier(UP.Actor):
    pass


FACTORIES = [UP.TaskNetworkFactory.from_single_looping(n, A) for n in ("net", "net_1", "ne", "other")]


def names(ctx, depth):
    """Suggested names are never in use, and are the factory's own name when that is free; deleted networks are gone and free their names."""
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("log", [])
        a, b = Carrier(name="a"), Carrier(name="b")
        have = {}
        for _ in range(depth):
            op = ctx.choose([("add", f) for f in FACTORIES] + [("delete", k) for k in sorted(have)], "op")
            if op[0] == "add":
                name = a.suggest_network_name(op[1])
                ctx.check(name not in have, lambda: f"suggested {name}, which is in use ({sorted(have)})", "names")
                ctx.check(name == op[1].name or op[1].name in have and name.startswith(op[1].name), lambda: f"suggested {name} for {op[1].name} with {sorted(have)}", "names")
                ctx.eq(a.suggest_network_name(op[1]), name, "asked again", "names")
                net = op[1].make_network(other_name=name) if name != op[1].name or ctx.flag("by name") else op[1].make_network()
                a.add_task_network(net)
                have[name] = net
                for f in FACTORIES:
                    ctx.eq(b.suggest_network_name(f), f.name, "for another actor", "names")
            else:
                a.delete_task_network(op[1])
                have.pop(op[1])
            for k in list(have) + ["net", "net_1", "net_2", "absent"]:
                ctx.eq(a.has_task_network(k), k in have, f"has {k}", "names")
            try:
                again = ctx.choose([None] + sorted(have), "added again") if op[0] == "delete" else None
                if again:
                    a.add_task_network(FACTORIES[0].make_network(other_name=again))
                    ctx.fail("a name in use was accepted", "names")
            except UP.SimulationError:
                pass
            try:
                a.delete_task_network("absent")
                ctx.fail("an absent network was deleted", "names")
            except UP.SimulationError:
                pass
            ctx.step()
        for k in sorted(have):
            a.start_network_loop(k, "A")
        env.run(until=0.5)
        for k in sorted(have):
            ctx.check(a.get_running_task(k) is not None and a.get_running_task(k).name == "A", lambda: f"{k} does not run", "names")
        ctx.eq(sorted(x[1] for x in env_log()), sorted(have), "networks that run", "names")
        ctx.state(sorted(have))
        ctx.outcome(sorted(have))


def env_log():
    from upstage_des.base import get_stage
    return get_stage().log


class Plain(UP.Task):
    def task(self, *, actor):
        actor.did = actor.did + [type(self).__name__]
        yield UP.Wait(1.0)


class P(Plain):
    pass


class R(Plain):
    pass


class T(Plain):
    pass


class Doer(UP.Actor):
    did = UP.State(default_factory=list)


def planned(ctx, length):
    """A plan can be rehearsed on a factory-made network exactly when it keeps the order of the factory."""
    kind = ctx.choose(("loop1", "term1", "loop", "term"), "factory")
    n = 1 if kind.endswith("1") else ctx.choose((1, 2, 3), "length")
    classes = [ctx.choose((P, R, T), "task") for _ in range(n)]
    net = factory(kind, classes).make_network()
    nm, names = classes[0].__name__, []
    for _ in range(n):
        names.append(nm)
        nm = net.task_links[nm].default
    ctx.eq([net.task_classes[x] for x in names], classes, "classes in order", "order")
    ctx.eq(len(set(names)), n, "names of the tasks", "name")
    if kind.startswith("loop"):
        ctx.eq(nm, names[0], "loops", "order")
    else:
        ctx.check(issubclass(net.task_classes[nm], UP.TerminalTask) and nm not in names, "ends in a terminal task", "terminal")
    after = {x: (names + [nm])[i + 1] for i, x in enumerate(names)}
    for x in names:
        for y in net.task_classes:
            ctx.eq(net.is_feasible(x, y), after[x] == y, f"{y} after {x}", "feasible")
    plan = [ctx.choose(names, "plan") for _ in range(ctx.choose(range(1, length + 1), "planned"))]
    ok = all(after[x] == y for x, y in zip(plan, plan[1:]))
    with UP.EnvironmentContext() as env:
        x = Doer(name="x")
        x.add_task_network(net)
        try:
            got = x.rehearse_network("net", plan)
        except UP.SimulationError:
            got = None
        ctx.eq(got is not None, ok, f"rehearsing {plan}, order {after}", "feasible")
        if got is not None:
            ctx.eq(got.did, [net.task_classes[y].__name__ for y in plan], "rehearsed", "order")
            ctx.eq((got.env.now, env.now, x.did), (float(len(plan)), 0, []), "times and the actor itself", "order")
    ctx.state((kind, names, plan))


def harnesses(tier):
    if tier == "quick":
        return [Harness("order", order, most=3, horizon=2.6, interrupts=1), Harness("decisions", decisions, extra=2), Harness("held", held, times=2), Harness("names", names, depth=5), Harness("planned", planned, length=3)]
    return [Harness("order", order, most=4, horizon=2.6, interrupts=1), Harness("order2", order, most=2, horizon=2.6, interrupts=2),
            Harness("decisions", decisions, extra=3), Harness("held", held, times=3), Harness("names", names, depth=6), Harness("planned", planned, length=5)]
