"""C38: a seeded simulation is reproducible.

A family of models, together touching every part of the library where many
things wait for the same instant or are kept in a registry, is run to a complete
textual trace (events, callbacks, interrupts, recordings, tables, random draws).
The trace must not depend on what the interpreter decides freely: all orders in
which a set of names or of objects can be iterated, the simulations run before,
finished or abandoned, and the state of the global random generators.
"""
import itertools
import json
import os
import random
import subprocess
import sys
import warnings
from dataclasses import dataclass

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo") + "/src"]

import simpy as SIM
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
from upstage_des.geography import Spherical
from upstage_des.motion import SteppedMotionManager
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from mc.engine import Harness, Violation

BOUNDS = {"quick": "11 models; fresh processes under 57 interpreter hash seeds, chosen so that all 24 iteration orders of a set of 4 names occur for each of the 6 families of names (networks, states, entity groups, "
                   "communication modes, nodes, actors); all 24 orders of 4 hashed objects (movers, sensors, actors); every ordered pair of models with the first finished, abandoned or failed, and every model "
                   "inside another one; 3 seeds of the models, given as a seed or as a generator; 3 states of the global generator",
          "thorough": "257 hash seeds, 6 model seeds, triples of models"}
ORACLE = "equality of complete traces (events, callbacks, interrupts, recordings, tables, logs, random draws, final time and number of events)"

NETS = ["alpha", "beta", "gamma", "delta"]
LINS = ["fuel", "heat", "cash", "dust"]
GROUPS = ["Tall", "Red", "Fast", "Old"]
MODES = ["radio", "voice", "cable", "light"]
NODES = ["n1", "n2", "n3", "n4"]
NAMES = ["ann", "bob", "cid", "dan"]
FAMILIES = {"nets": NETS, "lins": LINS, "groups": GROUPS, "modes": MODES, "nodes": NODES, "names": NAMES}
HASHES = {}


LINES = []


def T(*what):
    """Write a line of the trace."""
    LINES[-1].append(" ".join(repr(x) for x in what))


class Placed:
    """An object whose place in sets is chosen by the check."""

    def __hash__(self):
        return HASHES.get(self.name, 7)


# --- the models: each takes the environment and whether to abandon it half-way. Classes are defined
# once, as a user's are, so that whatever they keep is carried from one simulation to the next.


def drain(env, until=40.0):
    while env.peek() <= until:
        env.step()


class Dev(UP.Actor):
    mode = UP.State(default="a")
    pool = UP.ResourceState(default=SIM.Store)


class React(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(100)

    def on_interrupt(self, *, actor, cause):
        T("interrupt", self._network_name, str(cause))
        actor.pool.put(self._network_name)
        return self.INTERRUPT.RESTART


def nucleus(env, stop):
    d = Dev(name="d")
    pool = d.pool
    nuc = UP.TaskNetworkNucleus(actor=d)
    for n in NETS:
        d.add_task_network(UP.TaskNetworkFactory.from_single_looping(n, React).make_network())
    for n in NETS:
        nuc.add_network(n, ["mode"])
        d.start_network_loop(n, init_task_name="React")

    def driver():
        for k in range(3):
            yield env.timeout(2)
            d.mode = f"v{k}"
            yield env.timeout(1)
            T("pool", list(pool.items))
        nuc.remove_network("beta")
        d.mode = "end"
        yield env.timeout(1)
        T("pool", list(pool.items))

    env.process(driver())
    drain(env, 5 if stop else 20)


ns = {n: UP.LinearChangingState(default=1.0, recording=True, recording_functions=[(lambda t, v, name=n: T("rec", t, name, v), n + "_fn")]) for n in LINS}
ns.update({f"m_{n}": UP.LinearChangingState(default=0.0, recording=True, recording_functions=[(lambda t, v, name=n: T("mimic", t, name, v), n + "_mfn")]) for n in LINS})
Act = type("Act", (UP.Actor,), ns)


class Work(UP.Task):
    def task(self, *, actor):
        b = actor.get_knowledge("other")
        for i, n in enumerate(LINS):
            actor.activate_linear_state(state=n, rate=i + 1.0, task=self)
            b.activate_mimic_state(self_state=f"m_{n}", mimic_state=n, mimic_actor=actor, task=self)
        yield UP.Wait(2.5)
        actor.record_state("fuel")
        yield UP.Wait(1.0)
        b.deactivate_all_mimic_states(task=self)
        actor.deactivate_all_states(task=self)


def states(env, stop):
    a, b = Act(name="a"), Act(name="b")
    a.set_knowledge("other", b)
    Work().run(actor=a)
    drain(env, 2 if stop else 40)
    T("histories", a._state_histories)
    T("histories", b._state_histories)
    T("table", create_table())


class Thing(UP.NamedUpstageEntity, entity_groups=GROUPS):
    def __init__(self, n):
        super().__init__()
        self.n = n


class Sub(Thing, entity_groups=MODES):
    pass


class Person(UP.Actor, entity_groups=NAMES):
    x = UP.State(default=0, recording=True)


def groups(env, stop):
    made = [Thing(1), Sub(2), Person(name="p"), Sub(3), Thing(4), Person(name="q")]
    T("groups", {k: [getattr(x, "n", None) or x.name for x in v] for k, v in made[0].get_all_entity_groups().items()})
    T("actors", [x.name for x in made[0].get_actors()])
    for g in GROUPS + MODES + NAMES:
        T(g, [getattr(x, "n", None) or x.name for x in made[0].get_entity_group(g)])
    T("table", create_table())


class Sensor(Placed):
    def __init__(self, name, env):
        self.name, self.env, self.location, self.radius = name, env, UP.CartesianLocation(5, 0, 0), 3.0

    def entity_entered_range(self, e):
        T("in", self.env.now, self.name, e.name)

    def entity_exited_range(self, e):
        T("out", self.env.now, self.name, e.name)


class Mover(Placed, UP.Actor):
    spot = UP.CartesianLocationChangingState(recording=True)
    seen = UP.DetectabilityState(default=True)


class Fly(UP.Task):
    def task(self, *, actor):
        actor.activate_location_state(state="spot", speed=1.0, waypoints=[UP.CartesianLocation(12, 0, 0)], task=self)
        yield UP.Wait(11.25)
        actor.deactivate_all_states(task=self)


def flying(env, stop, mgr):
    UP.add_stage_variable("motion_manager", mgr)
    UP.add_stage_variable("distance_units", "km")
    UP.add_stage_variable("altitude_units", "km")
    for n in NODES:
        mgr.add_sensor(Sensor(n, env))
    movers = [Mover(name=n, spot=UP.CartesianLocation(0, 0, 0)) for n in NAMES]
    for m in movers:
        Fly().run(actor=m)
    drain(env, 4.25)
    movers[1].seen = False
    movers[2].seen = False
    movers[2].seen = True
    if stop:
        return
    drain(env, 30)
    T("where", [(m.name, [m.spot[i] for i in range(3)]) for m in movers])
    T("table", create_location_table())


def motion(env, stop):
    flying(env, stop, UP.SensorMotionManager(cartesian_linear_intersection))


def stepped(env, stop):
    flying(env, stop, SteppedMotionManager(timestep=0.5))


class Node(Placed, UP.Actor):
    inbox = UP.CommunicationStore(modes=MODES)
    late = UP.CommunicationStore(modes="post")


def comms(env, stop):
    nodes = {n: Node(name=n) for n in NODES + NAMES}
    mgr = UP.RoutingTableCommsManager(name="net", mode="radio", send_time=0.5, retry_rate=0.5, retry_max_time=6.0)
    UP.add_stage_variable("net", mgr)
    for n in NODES[1:]:
        mgr.connect_nodes(nodes["n1"], nodes[n], two_way=True)
    for n in NAMES:
        for m in NODES[1:]:
            mgr.connect_nodes(nodes[m], nodes[n])
    mgr.run()
    T("hops", [(n, mgr.select_hop(nodes["n1"], nodes[n]).name) for n in NAMES])
    T("hops", [(n, mgr.select_hop(nodes["n1"], nodes[n], ignore_nodes=[nodes["n2"]]).name) for n in NAMES])

    def send():
        for k, n in enumerate(NAMES * 2):
            yield mgr.make_put(f"msg {k}", nodes["n1"], nodes[n]).as_event()
            yield env.timeout(0.25)

    def receive(n):
        while True:
            m = yield nodes[n].inbox.get()
            T("got", env.now, n, str(m.content.data), m.content.message, m.sender.name)

    mgr.comms_degraded = True
    env.process(send())
    for n in NAMES:
        env.process(receive(n))
    drain(env, 1.2)
    mgr.comms_degraded = False
    nodes_down = [nodes["n2"]]
    mgr.blocked_nodes.extend(nodes_down)
    drain(env, 2.1 if stop else 30)
    for n in NODES + NAMES:
        T("stores", n, sorted(nodes[n].__dict__.get(getattr(type(nodes[n])._state_defs["inbox"], "_modename", ""), ())))
    T("table", create_table())


class Walker(UP.Actor):
    x = UP.State(default=0.0, recording=True)


class Step(UP.Task):
    def task(self, *, actor):
        w = UP.Wait.from_random_uniform(0.5, 2.0)
        yield w
        actor.x += self.stage.random.gauss(0, 1)
        other = UP.Wait.from_random_uniform(1.0, 3.0)
        yield UP.Any(other, UP.Wait(2.0))


class Pick(UP.DecisionTask):
    def make_decision(self, *, actor):
        nxt = self.stage.random.choice(["Step", "Stop"] + ["Step"] * 5)
        T("pick", self.env.now, actor.name, nxt)
        self.set_actor_task_queue(actor, [nxt])


class Stop(UP.TerminalTask):
    def log_message(self, *, actor):
        return "over"


walk = UP.TaskNetworkFactory("walk", {"Step": Step, "Pick": Pick, "Stop": Stop},
                            {"Step": UP.TaskLinks(default="Pick", allowed=["Pick"]), "Pick": UP.TaskLinks(default="Step", allowed=["Step", "Stop"]), "Stop": UP.TaskLinks(default=None, allowed=[])})


def draws(env, stop):
    ws = [Walker(name=n) for n in NAMES]
    for w in ws:
        w.add_task_network(walk.make_network())
        w.start_network_loop("walk", init_task_name="Step")
    drain(env, 3 if stop else 25)
    order = list(ws)
    ws[0].stage.random.shuffle(order)
    T("shuffled", [w.name for w in order])
    T("next", env.now, UP.UpstageBase().stage.random.random())
    clone = ws[0].clone()
    T("clone", clone.x)
    T("walks", [w._state_histories["x"] for w in ws])


@dataclass
class Info:
    a: int = 0
    b: float = 1.0


class Rec(UP.Actor):
    n = UP.State(default=0, recording=True)
    d = UP.DictionaryState(recording=True)
    i = UP.DataclassState(valid_types=Info, recording=True)
    box = UP.ResourceState(default=UP.SelfMonitoringStore)


def tables(env, stop):
    recs = [Rec(name=n, d={k: j for j, k in enumerate(LINS)}, i=Info()) for n in NAMES]

    def run(k, r):
        for j in range(3):
            yield env.timeout(1.0 + (k == 2))
            r.n += k
            r.d[LINS[j]] = (k, j)
            r.i.a = j
            r.record_state("n")
            yield r.box.put((k, j))
            record_data({"who": r.name, "j": j})

    for k, r in enumerate(recs):
        env.process(run(k, r))
    drain(env, 2 if stop else 40)
    T("table", create_table(skip_locations=False))
    T("data", get_recorded_data())
    T("log", [r.get_log() for r in recs])


class Man(Placed, UP.Actor):
    pass


class Job(UP.Task):
    def task(self, *, actor):
        for k in range(2):
            hold = UP.ResourceHold(self.stage.res)
            yield hold
            T("holds", self.env.now, actor.name)
            yield UP.Wait(1.0)
            yield hold
            get = UP.Get(self.stage.store) if k else UP.SortedFilterGet(self.stage.store, filter=lambda x: x[0] % 2 == 0, sorter=lambda x: -x[1])
            quit_ = UP.Wait(1.5)
            yield UP.Any(get, quit_)
            T("had", self.env.now, actor.name, get.get_value() if get.is_complete() else None)
            ev = actor.create_knowledge_event(name=f"k{k}")
            yield UP.All(ev, UP.Wait(0.5))
            T("knew", self.env.now, actor.name, ev.get_payload() if hasattr(ev, "get_payload") else None)

    def on_interrupt(self, *, actor, cause):
        T("interrupted", self.env.now, actor.name, str(cause))
        return self.INTERRUPT.IGNORE


def rivals(env, stop):
    """Everything waits for everything at the same instants."""
    res = SIM.PriorityResource(env, 1)
    store = UP.SelfMonitoringSortedFilterStore(env)
    tank = UP.ContinuousContainer(env, capacity=50, init=10)

    UP.add_stage_variable("res", res)
    UP.add_stage_variable("store", store)
    men = [Man(name=n) for n in NAMES]
    procs = [Job().run(actor=m) for m in men]

    def boss():
        for t in range(14):
            yield env.timeout(1.0)
            yield store.put((t, t % 3))
            for m in men:
                for k in range(2):
                    if m.get_knowledge(f"k{k}") is not None:
                        m.succeed_knowledge_event(name=f"k{k}", t=t)
            if t == 3:
                for p in procs:
                    if p.is_alive:
                        p.interrupt("now")
            tank.put(1.0, 2.0)
            T("level", env.now, tank.level)

    env.process(boss())
    drain(env, 4 if stop else 40)


class Agent(UP.Actor):
    plan = UP.State(default_factory=list, recording=True)
    gas = UP.LinearChangingState(default=20.0, recording=True)


def leg(name, cost):
    def task(self, *, actor):
        actor.activate_linear_state(state="gas", rate=-cost, task=self)
        yield UP.Wait(1.0 + self.stage.random.random() * 0.0)
        actor.deactivate_all_states(task=self)
        actor.plan.append(name)

    return type(name, (UP.Task,), {"task": task})

tasks = {n: leg(n, i + 1.0) for i, n in enumerate(NETS)}
links = {n: UP.TaskLinks(default=NETS[(i + 1) % 4], allowed=NETS) for i, n in enumerate(NETS)}
leg_networks = UP.TaskNetworkFactory("legs", tasks, links)


def planning(env, stop):
    a = Agent(name="a")
    a.add_task_network(leg_networks.make_network())
    for order in itertools.permutations(NETS, 3):
        c = a.rehearse_network("legs", list(order), knowledge={"k": 1})
        T("rehearsed", order, c.gas, c.plan, c.env.now)
    a.start_network_loop("legs", init_task_name="alpha")
    drain(env, 2.5 if stop else 12)
    T("flown", a.gas, a.plan, a.get_log())
    T("table", create_table())


class Plane(Placed, UP.Actor):
    at = UP.GeodeticLocationChangingState(recording=True)
    fuel = UP.SharedLinearChangingState(default=100.0, recording=True)


class Go(UP.Task):
    def task(self, *, actor):
        way = [UP.GeodeticLocation(33 + self.stage.random.random(), -84.0, 1000), UP.GeodeticLocation(34.0, -83.0, 0)]
        actor.activate_location_state(state="at", speed=60.0, waypoints=way, task=self)
        actor.activate_state(state="fuel", rate=-2.0, task=self)
        yield UP.Wait(0.5)
        actor.record_state("at")
        yield UP.Wait(0.5)
        actor.deactivate_all_states(task=self)


def earth(env, stop):
    for k, v in (("stage_model", Spherical), ("distance_units", "nmi"), ("altitude_units", "ft")):
        UP.add_stage_variable(k, v)

    ps = [Plane(name=n, at=UP.GeodeticLocation(33.0, -84.0, 500)) for n in NAMES]
    for p in ps:
        Go().run(actor=p)
    drain(env, 0.75 if stop else 40)
    T("places", [(p.name, [p.at[i] for i in range(3)]) for p in ps])
    T("table", create_location_table())


MODELS = {f.__name__: f for f in (nucleus, states, groups, motion, stepped, comms, draws, tables, rivals, planning, earth)}


SEEDS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 38, 39, 40, 42, 43, 44, 45, 47, 49, 50, 52, 54, 56, 57, 67, 72, 75, 80,
         82, 92, 98, 109]


class Fail(Exception):
    pass


def trace(name, seed=7, end="finished", gen=False, inside=None):
    """The complete trace of one model: finished, abandoned half-way, or left by an error of its user."""
    lines = []
    before = random.getstate()
    LINES.append(lines)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with UP.EnvironmentContext(random_seed=None if gen else seed, random_gen=random.Random(seed) if gen else None) as env:
                if inside:
                    trace(inside, 11)
                MODELS[name](env, end != "finished")
                if end == "failed":
                    raise Fail()
                lines.append(f"end {env.now!r} {env._eid!r}")
    except Fail:
        pass
    finally:
        LINES.pop()
    lines.append("global generator " + ("untouched" if random.getstate() == before else "USED"))
    return lines


def set_orders():
    """How a set of the names of every family is iterated in this process."""
    return {f: "".join(str(names.index(x)) for x in set(names)) for f, names in FAMILIES.items()}


def worker(job):
    return {"orders": set_orders(), "traces": {n: trace(n, seed=s) for n in job["models"] for s in [job["seed"]]}}


def fresh(hash_seed, models, seed=7):
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env["PYTHONHASHSEED"] = str(hash_seed)
    done = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=/nonexistent/verif-no-pycache", os.path.abspath(__file__), json.dumps({"models": models, "seed": seed})], env=env, capture_output=True, text=True, timeout=200)
    if done.returncode:
        raise Violation("the models do not run in a fresh process: " + done.stderr.strip().splitlines()[-1], "fresh run")
    return json.loads(done.stdout)


REFERENCE = {}


def reference(name, seed=7):
    """The trace of this model in this process, on its own."""
    if (name, seed) not in REFERENCE:
        HASHES.clear()
        REFERENCE[name, seed] = trace(name, seed)
    return REFERENCE[name, seed]


def same(ctx, got, want, what, key):
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        a, b = (x[k] if k < len(x) else "(nothing)" for x in (got, want))
        c = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
        ctx.fail(f"{what}: line {k} is ...{a[max(0, c - 60):c + 160]} instead of ...{b[max(0, c - 60):c + 160]}", key)
    ctx.check(len(want) > 2, f"{what}: the model did nothing", "empty")


def hash_seeds(ctx, seeds, model_seeds):
    """A fresh process under every chosen seed of the interpreter's hashes."""
    hs = ctx.choose(seeds, "PYTHONHASHSEED")
    seed = ctx.choose(model_seeds, "seed of the model")
    got = fresh(hs, list(MODELS), seed)
    for f, order in got["orders"].items():
        ctx.state((f, order))
    for name in MODELS:
        if ("fresh", seed) not in REFERENCE:
            REFERENCE["fresh", seed] = fresh(0, list(MODELS), seed)
        same(ctx, got["traces"][name], REFERENCE["fresh", seed]["traces"][name], f"{name} with hash seed {hs}", f"hash seed {name}")
        ctx.step()
    ctx.outcome(tuple(got["orders"].items()))


def objects(ctx, models, seeds):
    """Every order in which sets of movers, of sensors and of actors can be iterated."""
    name = ctx.choose(models, "model")
    order = ctx.choose(list(itertools.permutations(range(4))), "places of the objects")
    seed = ctx.choose(seeds, "seed")
    want = reference(name, seed)
    HASHES.update({n: order[k] for names in (NODES, NAMES) for k, n in enumerate(names)})
    got = trace(name, seed)
    HASHES.clear()
    ctx.step(len(got))
    ctx.state((name, order))
    same(ctx, got, want, f"{name} with objects in order {order}", f"objects {name}")


def history(ctx, before):
    """What was run before, and how it ended, changes nothing."""
    second = ctx.choose(list(MODELS), "model")
    want = reference(second)
    for k in range(before):
        first = ctx.choose(list(MODELS), f"run {k} before it")
        end = ctx.choose(["finished", "abandoned", "failed"], "and it was")
        trace(first, 3, end=end)
        ctx.step()
    got = trace(second)
    ctx.state((second, first, end))
    same(ctx, got, want, f"{second} after {first} ({end})", f"history {second}")


def nested(ctx):
    """A whole simulation run inside the context of another leaves it alone."""
    name = ctx.choose(list(MODELS), "model")
    other = ctx.choose(list(MODELS), "run inside its context first")
    same(ctx, trace(name, inside=other), reference(name), f"{name} with {other} run inside", f"nested {name}")
    ctx.step()
    ctx.state((name, other))


def generators(ctx, seeds):
    """Only the seed matters: not its form, nor the state of the global generator, which is not used."""
    name = ctx.choose(list(MODELS), "model")
    seed = ctx.choose(seeds, "seed")
    how = ctx.choose(["same seed", "generator"], "given as")
    state = ctx.choose([0, 1, "x"], "global generator")
    want = reference(name, seed)
    keep = random.getstate()
    random.seed(state)
    got = trace(name, seed, gen=how == "generator")
    random.setstate(keep)
    ctx.step(len(got))
    ctx.state((name, seed, how))
    same(ctx, got, want, f"{name} with seed {seed} given as {how}", f"seed {name}")
    ctx.check(got[-1] == "global generator untouched", f"{name}: {got[-1]}", f"global generator {name}")
    if name == "draws":
        others = [s for s in seeds if s != seed and reference(name, s) == want]
        ctx.check(not others, lambda: f"seeds {seed} and {others} give the same draws", "seed ignored")


def harnesses(tier):
    t = tier == "thorough"
    seeds = [7, 1, 0, 5, 123456789, 2**40] if t else [7, 1, 0]
    return [Harness("hash seeds", hash_seeds, seeds=sorted(set(SEEDS) | set(range(1, 258))) if t else SEEDS, model_seeds=seeds[:3] if t else [7]),
            Harness("objects", objects, models=["motion", "stepped", "comms", "rivals", "earth"], seeds=seeds),
            Harness("history", history, before=2 if t else 1), Harness("nested", nested), Harness("generators", generators, seeds=seeds)]


if __name__ == "__main__":
    print(json.dumps(worker(json.loads(sys.argv[1]))))
    sys.exit(0)
