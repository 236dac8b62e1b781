"""C23: knowledge is a strict map per actor, and an event board.

Part one: all sequences of knowledge calls, single, bulk and through a task, on
two actors, against a plain dictionary.  Part two: tasks create knowledge
events and wait for them; at every event boundary the explorer may succeed one
(with a payload), clear it, interrupt the task or overwrite it.
"""
import upstage_des.api as UP

from mc.engine import Harness
from mc.sim import INF

BOUNDS = {"quick": "all sequences of 2 of all calls (80 forms) on 2 actors, of 3 of a core of 17; event board: 4 bodies x 2 tasks x all schedules of 2 of 10 operations at event boundaries",
          "thorough": "sequences of 3 of all, 4 of the core; 3 operations"}
ORACLE = "a dictionary per actor; an event completes when it is succeeded"


class X(UP.Actor):
    pass


class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)


NAMES = ("a", "b")
OBJ = [1, 2]
VALUES = (None, OBJ, 0)


def bulk(ref, names, one):
    """The sequence of single operations: stops at the first that fails."""
    out = {}
    for n in names:
        out[n] = one(n)
    return out


class Refused(Exception):
    pass


class Ref:
    def __init__(self):
        self.m = {}

    def set(self, n, v, over):
        if n in self.m and not over:
            raise Refused
        self.m[n] = v

    def clear(self, n):
        if n not in self.m:
            raise Refused
        del self.m[n]

    def get(self, n, must):
        if must and n not in self.m:
            raise Refused
        return self.m.get(n)

    def take(self, n):
        v = self.get(n, True)
        self.clear(n)
        return v


def calls():
    """(label, real(actor, task), reference(ref))"""
    out = []

    def add(label, real, ref):
        out.append((label, real, ref))
    for n in NAMES:
        for v in VALUES:
            for over in (False, True):
                add(f"set {n}={v} {over}", lambda a, t, n=n, v=v, o=over: a.set_knowledge(n, v, overwrite=o), lambda r, n=n, v=v, o=over: r.set(n, v, o))
        add(f"task set {n}", lambda a, t, n=n: t.set_actor_knowledge(a, n, OBJ), lambda r, n=n: r.set(n, OBJ, False))
        add(f"task set over {n}", lambda a, t, n=n: t.set_actor_knowledge(a, n, 5, overwrite=True), lambda r, n=n: r.set(n, 5, True))
        add(f"clear {n}", lambda a, t, n=n: a.clear_knowledge(n), lambda r, n=n: r.clear(n))
        add(f"task clear {n}", lambda a, t, n=n: t.clear_actor_knowledge(a, n), lambda r, n=n: r.clear(n))
        for must in (False, True):
            add(f"get {n} {must}", lambda a, t, n=n, m=must: a.get_knowledge(n, must_exist=m), lambda r, n=n, m=must: r.get(n, m))
            add(f"task get {n} {must}", lambda a, t, n=n, m=must: t.get_actor_knowledge(a, n, must_exist=m), lambda r, n=n, m=must: r.get(n, m))
        add(f"take {n}", lambda a, t, n=n: a.get_and_clear_knowledge(n), lambda r, n=n: r.take(n))
        add(f"task take {n}", lambda a, t, n=n: t.get_and_clear_actor_knowledge(a, n), lambda r, n=n: r.take(n))
        add(f"succeed {n}", lambda a, t, n=n: a.succeed_knowledge_event(name=n), lambda r, n=n: refuse())
    for names in (("a", "b"), ("b", "a"), ("b",), ()):
        know = {n: 0 if n == "a" else n * 2 for n in names}
        for over in (False, True):
            add(f"bulk set {names} {over}", lambda a, t, k=know, o=over: a.set_bulk_knowledge(k, overwrite=o),
                lambda r, k=know, o=over: bulk(r, k, lambda n: r.set(n, k[n], o)) and None)
            add(f"task bulk set {names} {over}", lambda a, t, k=know, o=over: t.set_actor_bulk_knowledge(a, k, overwrite=o),
                lambda r, k=know, o=over: bulk(r, k, lambda n: r.set(n, k[n], o)) and None)
            add(f"bulk get {names} {over}", lambda a, t, k=names, o=over: a.get_bulk_knowledge(k, must_exist=o), lambda r, k=names, o=over: bulk(r, k, lambda n: r.get(n, o)))
            add(f"task bulk get {names} {over}", lambda a, t, k=names, o=over: t.get_actor_bulk_knowledge(a, k, must_exist=o),
                lambda r, k=names, o=over: bulk(r, k, lambda n: r.get(n, o)))
        add(f"bulk clear {names}", lambda a, t, k=names: a.clear_bulk_knowledge(k), lambda r, k=names: bulk(r, k, r.clear) and None)
        add(f"task bulk clear {names}", lambda a, t, k=names: t.clear_actor_bulk_knowledge(a, k), lambda r, k=names: bulk(r, k, r.clear) and None)
        add(f"bulk take {names}", lambda a, t, k=names: a.get_and_clear_bulk_knowledge(k), lambda r, k=names: bulk(r, k, r.take))
        add(f"task bulk take {names}", lambda a, t, k=names: t.get_and_clear_actor_bulk_knowledge(a, k), lambda r, k=names: bulk(r, k, r.take))
    return out


def refuse():
    raise Refused


CALLS = calls()
SMALL = [c for c in CALLS if c[0].startswith(("set a=[", "bulk set ('a'", "clear a", "get a T", "take", "bulk take ('b', 'a", "bulk clear ('a", "task bulk get ('a'",
                                              "task set b", "task take a", "task bulk set ('b',)", "bulk get ('b', 'a') T"))]


def same(p, q):
    if isinstance(p, dict) and isinstance(q, dict):
        return list(p) == list(q) and all(p[k] is q[k] or p[k] == q[k] for k in p)
    return p is q


def sequences(ctx, depth, menu):
    with UP.EnvironmentContext():
        actors = [X(name="x"), X(name="y")]
        refs = [Ref(), Ref()]
        task = T()
        done = []
        for _ in range(depth):
            i = ctx.choose((0, 1), "actor")
            label, real, ref = ctx.choose(menu)
            done.append((i, label))
            try:
                want = ref(refs[i])
                ok = True
            except Refused:
                ok = False
            try:
                got = real(actors[i], task)
                worked = True
            except UP.SimulationError:
                worked = False
            ctx.step()
            ctx.eq(worked, ok, f"{done}: accepted", "accepted")
            if ok:
                ctx.check(same(got, want) or (isinstance(want, dict) and not want and not got), lambda: f"{done}: gave {got!r}, not {want!r}", "value")
            for a, r in zip(actors, refs):
                for n in NAMES:
                    ctx.check(a.get_knowledge(n) is r.m.get(n) or a.get_knowledge(n) == r.m.get(n), lambda: f"{done}: {a.name} knows {n}={a.get_knowledge(n)!r}, "
                              f"not {r.m.get(n)!r}", "content")
                    try:
                        a.get_knowledge(n, must_exist=True)
                        has = True
                    except UP.SimulationError:
                        has = False
                    ctx.eq(has, n in r.m, f"{done}: {a.name} has {n}", "content")
        ctx.state([sorted((k, str(v)) for k, v in r.m.items()) for r in refs])


# ---- events -----------------------------------------------------------------
class Waiter(UP.Task):
    def task(self, *, actor):
        w = self.stage.w
        yield UP.Wait(0.5)
        kind = w.body
        e = actor.create_knowledge_event(name="ev")
        w.created(actor, e)
        if kind == "plain":
            yield e
        elif kind == "any":
            x = UP.Wait(1.0)
            yield UP.Any(e, x)
            if not e.is_complete():
                w.log.append((actor.name, "gave up", self.env.now))
                if actor.get_knowledge("ev") is e:
                    actor.clear_knowledge("ev")
                yield UP.Wait(9)
                return
        elif kind == "late":
            yield UP.Wait(0.5)
            if not e.is_complete():
                yield e
        elif kind == "all":
            yield UP.All(e, UP.Wait(0.25))
        w.log.append((actor.name, e.get_payload(), self.env.now))
        yield UP.Wait(9)

    def on_interrupt(self, *, actor, cause):
        return self.INTERRUPT.END if cause == "end" else self.INTERRUPT.IGNORE


class World:
    def __init__(self, env, body):
        self.env, self.body, self.log, self.made = env, body, [], []

    def created(self, actor, e):
        self.made.append((actor, e))


OPS = ["succeed", "succeed payload", "clear", "overwrite", "succeed other", "interrupt end", "interrupt ignore", "create again"]


def board(ctx, budget, horizon):
    body = ctx.choose(("plain", "any", "late", "all"), "body")
    with UP.EnvironmentContext() as env:
        w = World(env, body)
        UP.add_stage_variable("w", w)
        actors = [X(name="x"), X(name="y")]
        procs = [Waiter().run(actor=a) for a in actors]
        has = [None, None]             # the event in the knowledge of each
        succeeded = {}                 # actor -> (payload, time)
        ended = [False, False]
        over = [False, False]
        left, n, nmade = budget, 0, 0
        for t in (1.0, 1.25):
            env.timeout(t)
        while True:
            while nmade < len(w.made):
                a, e = w.made[nmade]
                nmade += 1
                has[actors.index(a)] = e
            for i, a in enumerate(actors):
                if body == "any" and (a.name, "gave up", env.now) in w.log and any(has[i] is e for _, e in w.made):
                    has[i] = None
                k = a.get_knowledge("ev")
                ctx.check(k is has[i], lambda: f"{a.name} knows {k}, not {has[i]}", "board")
            while left:
                i = ctx.choose((None, 0, 1))
                if i is None:
                    break
                op = ctx.choose(OPS if any(x is actors[i] for x, _ in w.made) else OPS[:3] + OPS[4:7])
                left -= 1
                a = actors[i]
                ctx.note(f"t={env.now} boundary {n}: {op} {a.name}")
                if op.startswith("succeed"):
                    other = op.endswith("other")
                    pay = {"p": n} if op.endswith("payload") else {}
                    if other:
                        a.set_knowledge("num", 3, overwrite=True)
                    try:
                        a.succeed_knowledge_event(name="num" if other else "ev", **pay)
                        ok = True
                    except UP.SimulationError:
                        ok = False
                    ctx.eq(ok, isinstance(has[i], UP.Event) and not other, "succeeding", "succeed")
                    if ok:
                        if not over[i]:
                            succeeded[i] = (pay, env.now)
                        has[i] = None
                elif op == "clear":
                    try:
                        a.clear_knowledge("ev")
                        ok = True
                    except UP.SimulationError:
                        ok = False
                    ctx.eq(ok, has[i] is not None, "clearing", "clear")
                    if ok:
                        has[i] = None
                elif op == "overwrite":
                    a.set_knowledge("ev", "text", overwrite=True)
                    has[i] = "text"
                    over[i] = True
                elif op == "create again":
                    try:
                        e = a.create_knowledge_event(name="ev")
                        ok = True
                    except UP.SimulationError:
                        ok = False
                    ctx.eq(ok, has[i] is None, "creating again", "create")
                    if ok:
                        has[i] = e
                        over[i] = True
                elif procs[i].is_alive:
                    procs[i].interrupt(op.split()[1])
                    if op.endswith("end"):
                        ended[i] = True
                        now = env.now
                        while procs[i].is_alive and env.peek() == now:
                            env.step()
                            n += 1
                        ctx.check(not procs[i].is_alive, "the task ended", "end")
                        own = has[i] is not None and any(e is has[i] for _, e in w.made)
                        if own and body == "late":
                            has[i] = a.get_knowledge("ev")
                        elif own:
                            has[i] = None           # an event waited for, alone or in a group, is taken out of the knowledge
            if env.peek() > env.now:
                for i, a in enumerate(actors):
                    if i in succeeded and not ended[i]:
                        pay, t = succeeded[i]
                        when = {"plain": t, "any": t, "all": max(t, 0.75), "late": max(t, 1.0)}[body]
                        if t < 1.5 or body != "any":
                            got = [g for g in w.log if g[0] == a.name]
                            if env.now >= when:
                                ctx.eq(got, [(a.name, pay, when)], "the waiter goes on with the payload", "resume")
                    if i not in succeeded and not ended[i]:
                        got = [g for g in w.log if g[0] == a.name and g[1] != "gave up"]
                        ctx.eq(got, [], "nobody goes on without the event", "resume")
            ctx.state((env.now, [str(h)[:8] for h in has], left))
            if env.peek() > horizon:
                break
            env.step()
            n += 1
            ctx.step()
        ctx.outcome((len(w.log), tuple(sorted(succeeded))))


def harnesses(tier):
    if tier == "quick":
        return [Harness("sequences", sequences, depth=2, menu=CALLS), Harness("sequences3", sequences, depth=3, menu=SMALL), Harness("board", board, budget=2, horizon=3.0)]
    return [Harness("sequences", sequences, depth=3, menu=CALLS), Harness("sequences4", sequences, depth=4, menu=SMALL), Harness("board", board, budget=3, horizon=3.0)]
