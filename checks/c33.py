"""C33: sorted filter store gets return the best matching item, exactly once.

All short histories of puts, gets with every kind of filter and sort key, and
cancels - each either settled before the next operation or issued at the same
instant - on stores of ordinary, falsy and equal-but-distinct items; and all
gets on every arrangement of preloaded items; and gets from tasks, raced
against a timeout.  Plain and self-monitoring store.
"""
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "preloaded: all ordered selections of up to 4 of 6 items x all pairs of 13 kinds of get; histories: all sequences of 4 of 12 operations, with settled and unsettled steps; "
                   "tasks: 2 tasks racing a get and a timeout, 3 puts at 4 times; both classes",
          "thorough": "triples of gets on preloaded items; sequences of 5; tasks over 5 times"}
ORACLE = "list of items: first of the best among those that pass; waiting gets in order"


class Eq:
    def __init__(self, label, key, true=True):
        self.label, self.key, self.true = label, key, true

    def __eq__(self, other):
        return isinstance(other, Eq) and other.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __bool__(self):
        return self.true

    def __repr__(self):
        return self.label


def pool():
    """Items with sort keys; some falsy, some equal to one another."""
    items = [Eq("a1", 1), Eq("a1'", 1), Eq("b0", 0, True), 0, "", Eq("c2", 2, False)]
    keys = [1, 1, 0, 1, 2, 2]
    return items, {id(x): k for x, k in zip(items, keys)}, {id(x): i for i, x in enumerate(items)}


class Spec:
    """A kind of get: which filter, which key, and what it must give."""

    def __init__(self, filt, sort, rev, key, idx):
        self.f = {"all": lambda x: True, "odd": lambda x: idx[id(x)] % 2, "low": lambda x: key[id(x)] < 2, "none": lambda x: False, "default": lambda x: True}[filt]
        self.s = {"no": None, "key": lambda x: key[id(x)], "tuple": lambda x: (-key[id(x)], idx[id(x)] % 2), "same": lambda x: 0}[sort]
        self.rev = rev
        self.kw = {}
        if filt != "default":
            self.kw["filter"] = self.f
        if sort != "no":
            self.kw["sorter"] = self.s
            self.kw["reverse"] = rev

    def best(self, items):
        ok = [i for i, x in enumerate(items) if self.f(x)]
        if not ok or self.s is None:
            return ok[0] if ok else None
        vals = [self.s(items[i]) for i in ok]
        top = max(vals) if self.rev else min(vals)
        return ok[vals.index(top)]


KINDS = [("default", "no", False), ("all", "key", False), ("all", "key", True), ("odd", "no", False), ("odd", "key", False), ("odd", "key", True), ("low", "key", True), ("low", "tuple", False),
         ("low", "tuple", True), ("default", "same", False), ("all", "same", True), ("none", "key", False), ("low", "no", False)]
SOME = [KINDS[0], KINDS[2], KINDS[4], KINDS[8]]


class Ref:
    def __init__(self, items=()):
        self.items, self.waiting = list(items), []

    def serve(self):
        for w in list(self.waiting):
            i = w[1].best(self.items)
            if i is not None:
                w[2] = (self.items.pop(i),)
                self.waiting.remove(w)


def make(ctx, env):
    cls = ctx.choose((UP.SortedFilterStore, UP.SelfMonitoringSortedFilterStore), "class")
    return cls(env)


def compare(ctx, store, ref, gets, names):
    real = [names[id(x)] for x in store.items]
    ctx.eq(real, [names[id(x)] for x in ref.items], "items left", "items")
    for n, (evt, w) in enumerate(gets):
        ctx.check(evt.triggered == (w[2] is not None), lambda: f"get {n}: {'served' if evt.triggered else 'not served'} with {real} left", "served")
        if w[2] is not None:
            ctx.check(evt.value is w[2][0], lambda: f"get {n} gave {evt.value!r} (item {names[id(evt.value)]}), not item {names[id(w[2][0])]}", "best")
    ctx.step()


def preloaded(ctx, most, gets):
    items, key, names = pool()
    chosen = []
    left = list(range(len(items)))
    for _ in range(most):
        k = ctx.choose([None] + left)
        if k is None:
            break
        chosen.append(k)
        left.remove(k)
    ctx.note(f"items {chosen}")
    with UP.EnvironmentContext() as env:
        store = make(ctx, env)
        store.items.extend(items[k] for k in chosen)
        ref = Ref(store.items)
        made = []
        for _ in range(gets):
            spec = Spec(*ctx.choose(KINDS, "get"), key, names)
            w = [len(made), spec, None]
            ref.waiting.append(w)
            made.append((store.get(**spec.kw), w))
            ref.serve()
            env.run()
            compare(ctx, store, ref, made, names)
        ctx.state((chosen, [names[id(x)] for x in store.items]))


def history(ctx, depth):
    items, key, names = pool()
    with UP.EnvironmentContext() as env:
        store = make(ctx, env)
        ref = Ref()
        made, trail = [], []
        unput = list(range(len(items)))
        for _ in range(depth):
            ops = [("get", k) for k in SOME] + [("put", k) for k in unput]
            ops += [("cancel", i) for i, (e, w) in enumerate(made) if w in ref.waiting][:2]
            op, arg = ctx.choose(ops)
            ctx.note(f"{op} {arg}")
            trail.append((op, arg))
            if op == "put":
                unput.remove(arg)
                p = store.put(items[arg])
                ctx.check(p.triggered, "a put waits in an unlimited store", "put")
                ref.items.append(items[arg])
            elif op == "get":
                spec = Spec(*arg, key, names)
                w = [len(made), spec, None]
                ref.waiting.append(w)
                made.append((store.get(**spec.kw), w))
                ref.serve()
            else:
                made[arg][0].cancel()
                ref.waiting.remove(made[arg][1])
            if ctx.flag("settle"):
                env.run()
                ref.serve()
                compare(ctx, store, ref, made, names)
        env.run()
        ref.serve()
        compare(ctx, store, ref, made, names)
        ctx.state(trail)


class Picker(UP.Actor):
    pass


class Pick(UP.Task):
    """Gets from the store, with a time limit; a get that loses takes nothing."""

    def task(self, *, actor):
        m = self.stage.m
        get = UP.SortedFilterGet(m.store, **m.spec[actor.name].kw)
        wait = UP.Wait(m.limit[actor.name])
        yield UP.Any(get, wait)
        if get.is_complete():
            m.done[actor.name] = (self.env.now, m.names[id(get.get_value())])
        else:
            m.done[actor.name] = (self.env.now, None)
            get.cancel()


class M:
    pass


def tasks(ctx, times):
    """Two tasks wait for items; items come later; limits fall between the puts."""
    items, key, names = pool()
    with UP.EnvironmentContext() as env:
        m = M()
        UP.add_stage_variable("m", m)
        m.store, m.done, m.names = make(ctx, env), {}, names
        have = [items[k] for k in ctx.choose(((), (1, 2), (2, 0), (5, 3)), "there already")]
        m.store.items.extend(have)
        m.spec = {n: Spec(*ctx.choose(SOME, n), key, names) for n in "pq"}
        m.limit = {n: ctx.choose((2.5, 10.0), "limit") for n in "pq"}
        for n in "pq":
            Pick().run(actor=Picker(name=n))
        puts = [(float(ctx.choose(times if not have else times[1:])), k) for k in (ctx.choose(((0, 3, 5), (5, 4, 2), (3, 1, 0)), "items") if not have else (4,))]
        ctx.note(puts)

        def feed(t, k):
            yield env.timeout(t)
            yield m.store.put(items[k])

        for t, k in puts:
            env.process(feed(t, k))
        env.run()
        # reference, by instants
        old = [names[id(x)] for x in have]
        waiting, expected = ["p", "q"], {}
        for t in sorted({0.0} | {t for t, _ in puts} | set(m.limit.values())):
            have += [items[k] for s, k in puts if s == t]
            for n in list(waiting):
                i = m.spec[n].best(have)
                if i is not None:
                    expected[n] = (t, names[id(have.pop(i))])
                    waiting.remove(n)
                elif m.limit[n] == t:
                    expected[n] = (t, None)
                    waiting.remove(n)
        if len({t for t, _ in puts}) == len(puts):
            ctx.eq(m.done, expected, "what the tasks got and when", "tasks")
            ctx.eq([names[id(x)] for x in m.store.items], [names[id(x)] for x in have], "items left", "items")
        else:
            # puts at one instant are single events: only what does not depend on their order
            got = [v[1] for v in m.done.values() if v[1] is not None]
            left = [names[id(x)] for x in m.store.items]
            ctx.eq(sorted(got + left), sorted(old + [k for _, k in puts]), "items handed out and left", "once")
        ctx.state((puts, sorted(m.done.items())))


def harnesses(tier):
    q = tier == "quick"
    return [Harness("preloaded", preloaded, most=4, gets=1 if q else 2), Harness("preloaded pairs", preloaded, most=3, gets=2 if q else 3), Harness("history", history, depth=4 if q else 5),
            Harness("tasks", tasks, times=(0, 1, 2, 4) if q else (0, 1, 2, 3, 4))]
