"""C25: entity groups and tracking queries list exactly what was created.

Part one: all small class hierarchies (a root, two children, a diamond) with
every combination of declared groups and opt-outs; instances of each class.
Part two: all sequences of creations, refused creations, copies, rehearsals and
recordings, at start and from within a running task.
"""
import upstage_des.api as UP
from upstage_des.base import NamedUpstageEntity
from upstage_des.data_utils import record_data

from mc.engine import Harness

BOUNDS = {"quick": "hierarchies: 2 kinds of root x 12 declarations at the root, 12 at a child, 4 at its sibling and 3 at a class deriving from both; histories: all sequences of 3 of 16 "
                   "operations, the last two optionally from within a task",
          "thorough": "the full product of declarations for 4 classes; sequences of 4"}
ORACLE = "groups by union over the base classes; lists in creation order"

DECL = [(g, f) for g in (None, "g", ("g", "h"), ["Child"]) for f in ({}, {"skip_classname": True}, {"add_to_entity_groups": False})]
SOME = [DECL[0], DECL[1], DECL[3], DECL[8]]
FEW = [DECL[0], DECL[7], DECL[5]]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def declare(ctx, name, bases, menu):
    groups, flags = ctx.choose(menu, name)
    kw = dict(flags)
    if groups is not None:
        kw["entity_groups"] = groups
    C = type(name, bases, {"n": UP.State(default=0)} if bases == (UP.Actor,) else
             {"__init__": _init} if bases == (NamedUpstageEntity,) else {}, **kw)
    own = () if groups is None else (groups,) if isinstance(groups, str) else tuple(groups)
    C.spec = None if flags.get("add_to_entity_groups") is False else set(own) | (set() if flags.get("skip_classname") else {name})
    return C


def _init(self, name):
    NamedUpstageEntity.__init__(self)
    self.name = name


def groups_of(cls):
    if cls.spec is None:
        return set()
    out = set()
    for c in cls.__mro__:
        s = c.__dict__.get("spec")
        if s:
            out |= s
    return out


def hierarchy(ctx, menus):
    root = ctx.choose((UP.Actor, NamedUpstageEntity), "root")
    a = declare(ctx, "Root", (root,), menus[0])
    b = declare(ctx, "Child", (a,), menus[1])
    c = declare(ctx, "Other", (a,), menus[2])
    d = declare(ctx, "Both", (b, c), menus[3])
    ref, actors = {}, []
    with UP.EnvironmentContext():
        base = UP.UpstageBase()
        for i, cls in enumerate((d, a, b, c, b, d)):
            e = cls(name=f"e{i}")
            if root is UP.Actor:
                actors.append(e)
            for g in groups_of(cls):
                ref.setdefault(g, []).append(e)
            got = base.get_all_entity_groups()
            ctx.eq(sorted(k for k in got if got[k]), sorted(ref), "groups", "groups")
            for g in ("Root", "Child", "Other", "Both", "g", "h", "none"):
                ctx.check(same(base.get_entity_group(g), ref.get(g, [])), lambda: f"group {g}: {base.get_entity_group(g)} != {ref.get(g, [])}", "members")
                ctx.check(same(e.get_entity_group(g), ref.get(g, [])), "the same from an entity", "members")
            ctx.check(same(base.get_actors(), actors), "all actors", "actors")
            ctx.step()
    ctx.state([sorted(groups_of(x)) for x in (a, b, c, d)])


# -------------------------------------------------------------- histories
class Part(UP.Actor, entity_groups=["parts"]):
    n = UP.State(default=0)


class Whole(UP.Actor, entity_groups=["wholes"]):
    """Creates things while it is created."""
    n = UP.State(default=0, recording=True, valid_types=int)
    part = UP.State(default_factory=lambda: Part(name="part"))
    stores = UP.MultiStoreState(default=UP.SelfMonitoringStore)


class Need(UP.Actor, entity_groups=["parts"]):
    must = UP.State()
    n = UP.State(default=0, valid_types=int)


class Eq(UP.NamedUpstageEntity, entity_groups=["eq"]):
    """Equal to every other of its class."""

    def __eq__(self, other):
        return isinstance(other, Eq)

    def __hash__(self):
        return 1


class EqStore(UP.SelfMonitoringStore, entity_groups=["stores"]):
    def __eq__(self, other):
        return isinstance(other, EqStore)

    def __hash__(self):
        return 2


class Work(UP.Task):
    def task(self, *, actor):
        yield UP.Put(actor.stores["a"], 1)
        yield UP.Wait(1.0)
        actor.n += 1


class Fails(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)
        raise ZeroDivisionError


OPS = ("whole", "part", "equal", "equal store", "plain store", "refused: unknown", "refused: missing", "refused: type", "refused: store", "clone", "clone of clone",
       "rehearse", "rehearse network", "rehearse fails", "record", "run task")


class History:
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        self.base = UP.UpstageBase()
        self.actors, self.groups, self.monitored, self.recorded, self.n = [], {}, [], [], 0
        self.first = None

    def into(self, e, *groups):
        for g in groups:
            self.groups.setdefault(g, []).append(e)

    def whole(self):
        w = Whole(name=f"w{self.n}", stores={"a": {}, "b": {"kind": UP.SelfMonitoringContainer}})
        # both are created by the one call, in either order
        new = self.base.get_actors()[len(self.actors):]
        self.actors += [w.part, w] if same(new, [w.part, w]) else [w, w.part]
        self.into(w, "Whole", "wholes")
        self.into(w.part, "Part", "parts")
        self.monitored += w.stores.values()
        return w

    def refused(self, f, *kinds):
        try:
            f()
        except kinds:
            return
        self.ctx.fail("accepted", "accepted")

    def do(self, op):
        self.n += 1
        env = self.env
        if op == "whole":
            self.whole()
        elif op == "part":
            p = Part(name="same name")
            self.actors.append(p)
            self.into(p, "Part", "parts")
        elif op == "equal":
            self.into(Eq(), "Eq", "eq")
        elif op == "equal store":
            s = EqStore(env)
            self.monitored.append(s)
            self.into(s, "EqStore", "stores")
        elif op == "plain store":
            self.monitored.append(UP.SelfMonitoringFilterStore(env))
        elif op == "refused: unknown":
            self.refused(lambda: Part(name="bad", nope=1), TypeError, UP.UpstageError)
        elif op == "refused: missing":
            self.refused(lambda: Need(name="bad"), TypeError, UP.UpstageError)
        elif op == "refused: type":
            self.refused(lambda: Need(name="bad", must=1, n="text"), TypeError, UP.UpstageError)
        elif op == "refused: store":
            self.refused(lambda: UP.SelfMonitoringStore(env, capacity=-1), ValueError)
        elif op == "clone":
            self.first.clone()
        elif op == "clone of clone":
            c = self.first.clone().clone()
            c.n = 5
            self.ctx.check(same(c.get_actors(), self.actors), "a clone sees the real actors", "clone view")
        elif op == "rehearse":
            Work().rehearse(actor=self.first)
        elif op == "rehearse network":
            self.first.rehearse_network("net", ["Work", "Work"])
        elif op == "rehearse fails":
            self.refused(lambda: Fails().rehearse(actor=self.first), ZeroDivisionError, UP.UpstageError)
        elif op == "record":
            record_data([self.n], copy=bool(self.n % 2))
            self.recorded.append((env.now, [self.n]))
        elif op == "run task":
            Work().run(actor=self.first)

    def compare(self):
        ctx, b = self.ctx, self.base
        ctx.check(same(b.get_actors(), self.actors), lambda: f"actors {b.get_actors()} != {self.actors}", "actors")
        for g in ("Whole", "wholes", "Part", "parts", "Need", "Eq", "eq", "EqStore", "stores", "Actor"):
            ctx.check(same(b.get_entity_group(g), self.groups.get(g, [])), lambda: f"group {g}: {b.get_entity_group(g)} != {self.groups.get(g, [])}", "group")
        every = b.get_all_entity_groups()
        ctx.eq(sorted(g for g in every if every[g]), sorted(self.groups), "groups", "groups")
        for g, v in self.groups.items():
            ctx.check(same(every[g], v), f"all groups: {g}", "group")
        ctx.check(same(b.get_monitored(), self.monitored), lambda: f"monitored {b.get_monitored()} != {self.monitored}", "monitored")
        ctx.eq(b.get_recorded(), self.recorded, "recordings", "recorded")


class Late(UP.Task):
    def task(self, *, actor):
        h = self.stage.h
        for op in h.late:
            yield UP.Wait(1.0)
            h.do(op)
            h.compare()


def history(ctx, depth, late):
    with UP.EnvironmentContext() as env:
        h = History(ctx, env)
        UP.add_stage_variable("h", h)
        h.first = h.whole()
        h.first.add_task_network(UP.TaskNetwork("net", {"Work": Work}, {"Work": UP.TaskLinks("Work", ["Work"])}))
        h.compare()
        ops = []
        for _ in range(depth):
            op = ctx.choose((None,) + OPS, "op")
            if op is None:
                break
            ops.append(op)
        cut = len(ops)
        if late and ctx.flag("the last from within a task"):
            cut = max(0, len(ops) - late)
        for op in ops[:cut]:
            h.do(op)
            h.compare()
            ctx.step()
        h.late = ops[cut:]
        if h.late:
            Late().run(actor=h.first)
        env.run()
        h.compare()
        ctx.step(len(h.late))
        ctx.state(ops)


def harnesses(tier):
    if tier == "quick":
        return [Harness("hierarchy", hierarchy, menus=(DECL, DECL, SOME, FEW)), Harness("history", history, depth=3, late=2)]
    return [Harness("hierarchy", hierarchy, menus=(DECL, DECL, DECL, DECL)), Harness("history", history, depth=4, late=2)]
