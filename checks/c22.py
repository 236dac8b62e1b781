"""C22: a nucleus interrupts exactly the networks linked to a changed state.

Three networks of one actor (and one of another actor with its own nucleus) run
on the real kernel.  At every event boundary the explorer may assign a state
(of any kind), change the nucleus' links, or have a change made by code inside
other networks.  Every delivered interrupt is compared with the reference: one
per assignment, for each linked network that had a running task, at once, in
order, with the state's name and new value.
"""
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "4 link layouts x 5 state kinds x 4 reactions x 1 operation (of 11) at any event boundary of 1.7 time units, 2 operations for 1 layout; a task "
                   "that decides, one that takes no time, one not started; all sequences of 4 of 12 additions and removals of links of 3 networks with names that begin alike",
          "thorough": "2 operations for every layout, 3 at the start; horizon 3; 5 additions and removals"}
ORACLE = "link table x running tasks at the assignment"
L = UP.CartesianLocation


class X(UP.Actor):
    n = UP.State(default=0)
    lin = UP.LinearChangingState(default=1.0)
    sh = UP.SharedLinearChangingState(default=1.0)
    loc = UP.CartesianLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    b = UP.State(default="-")
    other = UP.State(default=0)


VALUES = {"n": [0, 1, 1, None], "lin": [1.0, 2.0, 2.0, 3.0], "sh": [1.0, 2.0, 2.0, 0.0], "loc": [(0, 0, 0), (1, 1, 1), (1, 1, 1), (2, 0, 0)],
          "seen": [True, False, False, True]}


def value(kind, i):
    v = VALUES[kind][i % 4]
    return L(*v) if kind == "loc" else v


class Base(UP.Task):
    def on_interrupt(self, *, actor, cause):
        w = self.stage.w
        ok = isinstance(cause, UP.NucleusInterrupt)
        w.log.append((actor.name, self._network_name, id(actor.get_running_task(self._network_name).process), cause.state_name if ok else cause,
                      cause.value if ok else None, self.env.now))
        how = w.react
        if how == "assign":
            if w.chain and "other" not in w.links[actor.name][self._network_name]:
                w.chain -= 1
                w.assign(actor, "other", w.chain)
            return self.INTERRUPT.IGNORE
        return {"end": self.INTERRUPT.END, "ignore": self.INTERRUPT.IGNORE, "restart": self.INTERRUPT.RESTART}[how]


class Long(Base):
    def task(self, *, actor):
        yield UP.Any(UP.Wait(1.0), UP.Event())


class Quick(Base):
    def task(self, *, actor):
        return
        yield


class Dec(UP.DecisionTask):
    def make_decision(self, *, actor):
        pass

    on_interrupt = Base.on_interrupt


class Skip(Dec):
    DO_NOT_HOLD = True


class Driver(UP.Task):
    """Changes states from within a network."""

    def task(self, *, actor):
        yield UP.Wait(0.5)
        w = self.stage.w
        w.assign(actor, "b", "driven")
        yield UP.Wait(1.0)
        w.assign(actor, w.kind, value(w.kind, 3))


TL = UP.TaskLinks
CL = {"Long": Long, "Quick": Quick, "Dec": Dec, "Skip": Skip}
LAYOUTS = [
    {"n1": ["A"], "n2": ["b"], "n3": ["A", "b"]},
    {"n1": ["A", "b", "other"], "n2": [], "n3": ["A"]},
    {"n1": ["A", "A"], "n2": ["A"], "n3": ["A"]},
    {"n1": ["A"], "n2": ["other"], "n3": ["b", "other"]},
]
CYCLES = [{"n1": ("Long", "Long"), "n2": ("Long", "Quick"), "n3": ("Long", "Dec")}, {"n1": ("Dec", "Long"), "n2": ("Skip", "Long"), "n3": (None, None)}]


class World:
    def __init__(self, ctx, env, kind, react):
        self.ctx, self.env, self.kind, self.react, self.log, self.chain = ctx, env, kind, react, [], 2
        self.links = {}
        self.expected = []          # (actor, network, process, state, value, time)
        self.actors = {}

    def assign(self, actor, state, value):
        for net, states in self.links[actor.name].items():
            r = actor.get_running_task(net)
            if state in states and r is not None:
                if r.process is self.env.active_process:
                    raise RuntimeError("harness: a network changes a state it watches")
                self.expected.append([(actor.name, net, id(r.process), state, value, self.env.now), r.process])
        setattr(actor, state, value)


def run(ctx, layouts, kinds, reacts, budget, horizon, ops):
    lay = LAYOUTS[ctx.choose(layouts, "layout")]
    kind = ctx.choose(kinds, "state")
    cyc = CYCLES[ctx.choose(range(len(CYCLES)), "tasks")]
    react = ctx.choose(reacts, "reaction")
    lay = {n: [kind if s == "A" else s for s in v] for n, v in lay.items()}
    with UP.EnvironmentContext() as env:
        w = World(ctx, env, kind, react)
        UP.add_stage_variable("w", w)
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        nucs = {}
        for name in ("x", "y"):
            a = w.actors[name] = X(name=name, loc=L(0, 0, 0))
            w.links[name] = {}
            nucs[name] = UP.TaskNetworkNucleus(actor=a)
            ctx.check(a.get_nucleus() is nucs[name], "the nucleus of the actor", "attach")
        x, y = w.actors["x"], w.actors["y"]
        for a, nets in ((x, lay), (y, {"n1": [kind, "b"]})):
            for net, states in nets.items():
                first, second = cyc[net]
                table = {}
                if first:
                    table = {first: TL(second, [second]), second: TL("Long" if first == second else first, ["Long"])}
                tn = UP.TaskNetwork(net, CL, table)
                a.add_task_network(tn)
                nucs[a.name].add_network(tn if net == "n1" else net, states)
                w.links[a.name][net] = set(states)
                if first:
                    a.start_network_loop(net, first)
        x.add_task_network(UP.TaskNetwork("drive", {"Driver": Driver}, {"Driver": TL("Driver", ["Driver"])}))
        x.start_network_loop("drive", "Driver")
        left, count, done, nval = budget, 0, 0, 0
        while True:
            while left:
                op = ctx.choose([None] + ops)
                if op is None:
                    break
                left -= 1
                ctx.note(f"t={env.now} boundary {count}: {op}")
                what = op[0]
                links = w.links["x"]
                if what == "set":
                    nval += 1
                    v = value(kind, nval) if op[1] == "A" else nval
                    w.assign(w.actors[op[2]], kind if op[1] == "A" else op[1], v)
                elif what == "read":
                    for s in (*VALUES, "b", "other"):
                        getattr(x, s)
                elif what == "clone":
                    c = x.clone()
                    c.b = "clone"
                    setattr(c, kind, value(kind, 1))
                elif what == "remove":
                    nucs["x"].remove_network(op[1])
                    links[op[1]] = set()
                elif what == "add":
                    states = [kind if s == "A" else s for s in op[2]]
                    nucs["x"].add_network(op[1], states)
                    links[op[1]] |= set(states)
                elif what == "refused":
                    for f in (lambda: UP.TaskNetworkNucleus(actor=x), lambda: nucs["x"].add_network("nope", ["b"]), lambda: nucs["x"].remove_network("nope")):
                        try:
                            f()
                            ctx.fail("a wrong registration was accepted", "refused")
                        except UP.UpstageError:
                            pass
                    ctx.check(x.get_nucleus() is nucs["x"], "the nucleus of the actor", "attach")
            ctx.state((env.now, count, left, [(k, sorted(v)) for k, v in w.links["x"].items()]))
            if env.peek() > env.now:
                for e, proc in w.expected:
                    ctx.check(not proc.is_alive, lambda: f"not delivered: {e}", "missing")
                w.expected.clear()
                if env.peek() > horizon:
                    break
            env.step()
            ctx.step()
            count += 1
            ctx.check(count < 500, "livelock", "livelock")
            while done < len(w.log):
                got = w.log[done]
                done += 1
                # an earlier one for a process that has ended meanwhile is void
                while w.expected and w.expected[0][0] != got and not w.expected[0][1].is_alive:
                    w.expected.pop(0)
                mine = [i for i, (e, _) in enumerate(w.expected) if e == got]
                ctx.check(mine, lambda: f"unexpected interrupt {got}, expected {[e for e, _ in w.expected]}", "interrupt")
                earlier = [e for e, p in w.expected[:mine[0]] if e[:3] == got[:3] and p.is_alive]
                ctx.check(not earlier, lambda: f"interrupt {got} before {earlier}", "order")
                w.expected.pop(mine[0])
        ctx.outcome((len(w.log), react))


OPS = [("set", "A", "x"), ("set", "b", "x"), ("set", "other", "x"), ("set", "A", "y"), ("read",), ("clone",), ("remove", "n1"), ("remove", "n3"),
       ("add", "n2", ("A",)), ("add", "n3", ("b", "other")), ("refused",)]
CORE = OPS[:3] + OPS[6:10]


NETS = ("n", "n1", "n1_a")
STATES = ("b", "other", "n")


class Hear(UP.Task):
    def task(self, *, actor):
        yield UP.Event()

    def on_interrupt(self, *, actor, cause):
        self.stage.heard.append((actor.name, self._network_name, cause.state_name, cause.value))
        return self.INTERRUPT.IGNORE


def links(ctx, depth):
    """Links added bit by bit and removed, for networks whose names begin alike, on two actors."""
    menu = [("add", net, st) for net in NETS for st in (("b",), ("other", "n"), ("n",))] + [("remove", net) for net in NETS]
    with UP.EnvironmentContext() as env:
        heard = []
        UP.add_stage_variable("heard", heard)
        UP.add_stage_variable("altitude_units", "km")
        UP.add_stage_variable("distance_units", "km")
        both, nucs = [], []
        for name in ("x", "y"):
            a = X(name=name, loc=L(0, 0, 0))
            nuc = UP.TaskNetworkNucleus(actor=a)
            for net in NETS:
                a.add_task_network(UP.TaskNetwork(net, {"Hear": Hear}, {"Hear": TL("Hear", ["Hear"])}))
                a.start_network_loop(net, "Hear")
            both.append(a)
            nucs.append(nuc)
        nucs[1].add_network("n1", ["b"])
        known = {net: [] for net in NETS}        # in the order of linking
        env.run(until=1)
        for i in range(depth):
            what, net, *st = ctx.choose(menu)
            ctx.note(f"{what} {net} {st}")
            if what == "add":
                given = list(st[0])
                nucs[0].add_network(net, given)
                given.append("nope")
                known[net] += [s for s in st[0] if s not in known[net]]
            else:
                nucs[0].remove_network(net)
                known[net] = []
            for s in STATES:
                heard.clear()
                setattr(both[0], s, (i, s))
                env.run(until=env.now + 1)
                ctx.eq(sorted(heard), sorted(("x", n, s, (i, s)) for n in NETS if s in known[n]), f"told of {s}", "interrupt")
            heard.clear()
            both[1].b = i
            env.run(until=env.now + 1)
            ctx.eq(heard, [("y", "n1", "b", i)], "told of the other actor", "interrupt")
        ctx.state(known)


def harnesses(tier):
    every = range(len(LAYOUTS))
    kinds = tuple(VALUES)
    reacts = ("end", "ignore", "restart", "assign")
    if tier == "quick":
        return [Harness("one", run, layouts=every, kinds=kinds, reacts=reacts, budget=1, horizon=1.7, ops=OPS),
                Harness("two", run, layouts=(0,), kinds=("n",), reacts=("end", "restart"), budget=2, horizon=0.9, ops=CORE),
                Harness("links", links, depth=4)]
    return [Harness("one", run, layouts=every, kinds=kinds, reacts=reacts, budget=1, horizon=3.2, ops=OPS),
            Harness("two", run, layouts=every, kinds=("n",), reacts=reacts, budget=2, horizon=1.2, ops=CORE),
            Harness("three", run, layouts=(0,), kinds=("n",), reacts=("end",), budget=3, horizon=0.1, ops=CORE), Harness("links", links, depth=5)]
