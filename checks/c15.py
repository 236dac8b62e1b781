"""C15: declarations of states, exhaustively.

Every combination of declaration options (kind of default, frozen, no_init,
types, recording) on a base class or a subclass meets every way of giving the
initial value and every sequence of assignments; every small class hierarchy
(chain, siblings, diamond) with every distribution of states over its classes is
built and used; resource and communication states are created in every way.
Creation and assignment must be accepted, or refused with the old value left in
place, as the declarations say.
"""
import simpy as SIM
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "6 kinds of default x frozen x no_init x 3 type sets x recording x base/subclass x 5 initial values x all sequences of "
                   "4 assignments of 4 values; all 3-class hierarchies over 3 states; all resource-state inputs",
          "thorough": "sequences of 5 assignments"}
ORACLE = "the declared options, interpreted directly"

DEFAULTS = ("none", "value", "falsy", "factory", "allow", "both")
TYPES = {"any": None, "int": int, "two": (list, int)}
NOTHING = object()
_made = {}


class Fresh:
    made = 0


def factory():
    Fresh.made += 1
    return [Fresh.made]


def declare(default, frozen, no_init, types, rec, level):
    """The class, or the exception its declaration raises."""
    key = (default, frozen, no_init, types, rec, level)
    if key in _made:
        return _made[key]
    kw = dict(frozen=frozen, no_init=no_init, valid_types=TYPES[types], recording=rec)
    if default == "value":
        kw["default"] = 5
    elif default == "falsy":
        kw["default"] = 0
    elif default == "factory":
        kw["default_factory"] = factory
    elif default == "allow":
        kw["allow_none_default"] = True
    elif default == "both":
        kw["default"] = 5
        kw["default_factory"] = factory
    try:
        st = UP.State(**kw)
    except UP.UpstageError:
        _made[key] = None
        return None
    other = UP.State(default="o")
    if level == "base":
        cls = type("D", (UP.Actor,), {"s": st, "other": other})
    else:
        base = type("B", (UP.Actor,), {"s": st})
        cls = type("D", (type("M", (base,), {"mid": UP.State(default=1)}),), {"other": other})
    _made[key] = cls
    return cls


def fits(types, v):
    t = TYPES[types]
    return t is None or isinstance(v, t)


def refused(ctx, fn, what):
    try:
        fn()
    except (UP.UpstageError, UP.SimulationError, TypeError):
        return
    ctx.fail(f"accepted: {what}", "refusal")


def options(ctx, depth):
    default = ctx.choose(DEFAULTS, "default")
    frozen, no_init = ctx.flag("frozen"), ctx.flag("no_init")
    types = ctx.choose(tuple(TYPES), "types")
    rec = ctx.flag("recording")
    level = ctx.choose(("base", "sub"), "level")
    cls = declare(default, frozen, no_init, types, rec, level)
    legal = default != "both" and not (no_init and default in ("none", "allow"))
    ctx.check((cls is not None) == legal, f"declaration {'refused' if legal else 'accepted'}", "declaration")
    if not legal:
        ctx.outcome("illegal")
        return
    init = ctx.choose(("omit", "int", "list", "str", "None", "unknown"), "init")
    with UP.EnvironmentContext():
        kw = {"int": {"s": 3}, "list": {"s": [3]}, "str": {"s": "x"}, "None": {"s": None}, "unknown": {"zzz": 1}}.get(init, {})
        use = kw.get("s", NOTHING)
        Fresh.made = 0
        if init == "unknown" or (use is not NOTHING and (no_init or not fits(types, use))):
            refused(ctx, lambda: cls(name="x", **kw), f"creation with {kw}")
            ctx.outcome("refused")
            return
        if use is NOTHING and default == "none":
            refused(ctx, lambda: cls(name="x"), "creation without a value")
            ctx.outcome("missing")
            return
        dval = {"value": 5, "falsy": 0, "factory": [1], "allow": NOTHING, "none": NOTHING}[default]
        if use is NOTHING and dval is not NOTHING and not fits(types, dval):
            refused(ctx, lambda: cls(name="x"), "creation with a default of another type")
            ctx.outcome("bad default")
            return
        a = cls(name="a", **{k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
        b = cls(name="b", **{k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
        cur = dval if use is NOTHING else use
        bval = [2] if use is NOTHING and default == "factory" else cur
        if isinstance(cur, list):
            ctx.check(a.s is not b.s, "two actors share one object", "shared")
            a.s.append("mark")
            cur = cur + ["mark"]
        seq = []
        for _ in range(depth):
            v = ctx.choose((7, [8], "y", None))
            seq.append(v)
            ctx.note(f"assign {v!r}")
            ok = fits(types, v) and not (frozen and cur is not NOTHING)
            if ok:
                a.s = v
                cur = v
            else:
                def assign():
                    a.s = v
                refused(ctx, assign, f"assignment of {v!r}")
            if cur is not NOTHING:
                ctx.eq(a.s, cur, f"after assigning {v!r}", "value")
            ctx.step()
        for act, want in ((a, cur), (b, bval)):
            if want is NOTHING:
                refused(ctx, lambda: act.s, "reading an unset state")
            else:
                ctx.eq(act.s, want, f"state of {act.name}", "value")
                ctx.eq(type(act.s), type(want), "type", "value")
            ctx.eq(act.other, "o", "the other state", "value")
            if level == "sub":
                ctx.eq(act.mid, 1, "the inherited state", "value")
        ctx.check(set(a.states) == ({"s", "other", "mid"} if level == "sub" else {"s", "other"}), "declared states", "declared")
        ctx.state((default, frozen, no_init, types, init, repr(cur)))
        ctx.outcome((init, repr(cur), seq))


NAMES = ("p", "q", "r")


def hierarchy(ctx):
    """Three classes below Actor; each state is declared in a chosen set of them."""
    shape = ctx.choose(("chain", "siblings", "diamond", "two-bases"), "shape")
    where = [ctx.choose(8, f"classes declaring {n}") for n in NAMES]      # bit mask over the classes 0..2
    frozen = ctx.flag("frozen")
    with UP.EnvironmentContext():
        body = []
        for c in range(3):
            body.append({n: UP.State(default=10 * c + i, frozen=frozen) for i, n in enumerate(NAMES) if where[i] >> c & 1})
        parents = {"chain": [(), (0,), (1,)], "siblings": [(), (0,), (0,)], "diamond": [(), (0,), (0,)], "two-bases": [(), (), (0, 1)]}[shape]
        classes, known = [], []
        clash = False
        for c in range(3):
            bases = tuple(classes[p] for p in parents[c]) or (UP.Actor,)
            inherited = {}
            for p in parents[c]:
                for n, owner in known[p].items():
                    if n in inherited and inherited[n] != owner:
                        clash = True
                    inherited[n] = owner
            if clash or any(n in inherited for n in body[c]):
                clash = True
            try:
                cls = type(f"C{c}", bases, dict(body[c]))
                ok = True
            except ValueError:
                ok = False
            ctx.check(ok != clash, f"class C{c} with states {sorted(body[c])} below {sorted(inherited)} was {'accepted' if ok else 'refused'}", "clash")
            if not ok:
                ctx.outcome("clash")
                return
            own = dict(inherited)
            own.update({n: c for n in body[c]})
            classes.append(cls)
            known.append(own)
        if shape == "diamond":
            inherited = {}
            for p in (1, 2):
                for n, owner in known[p].items():
                    if n in inherited and inherited[n] != owner:
                        clash = True
                    inherited[n] = owner
            try:
                classes.append(type("C3", (classes[1], classes[2]), {}))
                ok = True
            except ValueError:
                ok = False
            ctx.check(ok != clash, "diamond", "clash")
            if not ok:
                ctx.outcome("clash")
                return
            known.append(inherited)
        for c, cls in enumerate(classes):
            a = cls(name=f"a{c}")
            ctx.eq(set(a.states), set(known[c]), f"states of C{c}", "declared")
            given = {n: 99 for n in known[c]}
            b = cls(name=f"b{c}", **given)
            ctx.eq(sorted(a.states), sorted(known[c]), f"states of C{c}, each once", "declared")
            ctx.eq(b.state_values, given, f"state values in C{c}", "value")
            for i, n in enumerate(NAMES):
                if n in known[c]:
                    ctx.eq(getattr(a, n), 10 * known[c][n] + i, f"default of {n} in C{c}", "value")
                    ctx.eq(getattr(b, n), 99, f"given {n} in C{c}", "value")
                    if frozen:
                        refused(ctx, lambda: setattr(a, n, 1), "assignment of a frozen state")
                        ctx.eq(getattr(a, n), 10 * known[c][n] + i, "frozen", "value")
                    else:
                        setattr(a, n, 1)
                        ctx.eq(getattr(b, n), 99, "other actor", "value")
                else:
                    refused(ctx, lambda: cls(name="x", **{n: 1}), f"{n} for C{c}")
            ctx.step()
        ctx.outcome((shape, [sorted(k.items()) for k in known]))


class SubStore(SIM.Store):
    pass


RKINDS = {"none": None, "store": SIM.Store, "sub": SubStore, "cont": SIM.Container}
RTYPES = {"none": None, "store": (SIM.Store,), "cont": SIM.Container}


def resources(ctx):
    """ResourceState: defaults, valid types, keyword defaults and all forms of input."""
    dk = ctx.choose(tuple(RKINDS), "default")
    vt = ctx.choose(tuple(RTYPES), "valid types")
    dkw = ctx.choose(({}, {"capacity": 5}), "default kwargs")
    key = ("res", dk, vt, len(dkw))
    if key not in _made:
        _made[key] = type("R", (UP.Actor,), {
            "res": UP.ResourceState(default=RKINDS[dk], valid_types=RTYPES[vt], default_kwargs=dict(dkw)),
            "res2": UP.ResourceState(default=SIM.Store)})
    cls = _made[key]
    allowed = {"none": (SIM.Store, SIM.Container), "store": SIM.Store, "cont": SIM.Container}[vt]
    with UP.EnvironmentContext() as env:
        kind = ctx.choose(("omit", "none", "store", "sub", "cont"), "kind given")
        form = "omit" if kind == "omit" else ctx.choose(("dict", "dict+cap", "object", "junk"), "form")
        k = RKINDS.get(kind)
        cap = dkw.get("capacity", float("inf"))
        objs = []
        if form == "omit":
            given, real = {}, RKINDS[dk]
        elif form in ("dict", "dict+cap"):
            d = {} if k is None else {"kind": k}
            if form == "dict+cap":
                d["capacity"] = cap = 9
            given, real = {"res": d}, k or RKINDS[dk]
        elif form == "object":
            obj = (k or SubStore)(env)
            cap = float("inf")
            objs.append(obj)
            given, real = {"res": obj}, type(obj)
        else:
            given, real = {"res": ctx.choose((3, "x", [1]))}, None
        ok = real is not None and issubclass(real, allowed)
        before = {n: (dict(v) if isinstance(v, dict) else v) for n, v in given.items()}
        if not ok:
            refused(ctx, lambda: cls(name="x", **given), f"resource input {given}")
            ctx.outcome("refused")
            return
        a, b = cls(name="a", **given), None
        ctx.check(type(a.res) is real, f"made {type(a.res)} instead of {real}", "kind")
        ctx.eq(a.res.capacity, cap, "capacity", "kind")
        ctx.eq(given, before, "the input given by the user", "input")
        if form != "object":
            b = cls(name="b", **given)
            ctx.check(type(b.res) is real and b.res is not a.res and b.res.capacity == cap, "second actor", "shared")
        else:
            ctx.check(a.res is objs[0], "given object replaced", "kind")
        old = a.res
        for v in ({}, SIM.Store(env), SIM.Container(env), old):
            def assign():
                a.res = v
            refused(ctx, assign, "second assignment of a resource state")
            ctx.check(a.res is old, "resource replaced", "frozen")
        ctx.check(a.res2 is not old and isinstance(a.res2, SIM.Store), "other resource", "shared")
        if isinstance(old, SIM.Store):
            old.put("item")
            env.run(until=1)
            ctx.eq(old.items, ["item"], "store works", "works")
            ctx.check(b is None or b.res.items == [], "stores of two actors are one", "shared")
        ctx.step()
        ctx.outcome((dk, vt, kind, form))


def keywords(ctx):
    """Keyword defaults against what is given, value by value, for both kinds of resource states."""
    defaults = {"capacity": 9, "init": ctx.choose((4, 0), "default init")}
    multi = ctx.flag("multi")
    kinds = (SIM.Container, UP.SelfMonitoringContainer)
    dk = ctx.choose(kinds, "default kind")
    handed = dict(defaults)
    if multi:
        cls = type("K", (UP.Actor,), {"s": UP.MultiStoreState(default=dk, default_kwargs=handed)})
    else:
        cls = type("K", (UP.Actor,), {"s": UP.ResourceState(default=dk, default_kwargs=handed)})
    handed["capacity"] = handed["init"] = 1      # the user's dictionary stays the user's
    if ctx.flag("cleared"):
        handed.clear()
    with UP.EnvironmentContext():
        actors = []
        for i in range(2):
            d = {}
            for k, vs in (("capacity", (None, 6)), ("init", (None, 0, 5))):
                v = ctx.choose(vs, k)
                if v is not None:
                    d[k] = v
            k = ctx.choose((None,) + kinds, "kind")
            if k:
                d["kind"] = k
            want = (k or dk, d.get("capacity", defaults["capacity"]), d.get("init", defaults["init"]))
            keep = dict(d)
            a = cls(name=f"a{i}", s={"p": d, "q": {}} if multi else d)
            ctx.eq(d, keep, "the input given by the user", "input")
            actors.append((a, want))
        for a, want in actors:
            for r, w in [(a.s["p"], want), (a.s["q"], (dk, 9, defaults["init"]))] if multi else [(a.s, want)]:
                ctx.eq((type(r), r.capacity, r.level), w, "resource made", "keywords")
        ctx.step()
        ctx.state((multi, dk, [w for _, w in actors]))
        ctx.outcome(multi)


def comms(ctx):
    """CommunicationStore: modes by default, by input, and from a reused input."""
    dm = ctx.choose((None, "radio", ["radio", "phone"]), "default modes")
    key = ("com", str(dm))
    if key not in _made:
        _made[key] = type("Cm", (UP.Actor,), {"c": UP.CommunicationStore(modes=dm)})
    cls = _made[key]
    with UP.EnvironmentContext():
        form = ctx.choose(("omit", "empty", "modes", "list", "kind", "badkind"), "input")
        d = {"omit": None, "empty": {}, "modes": {"modes": "tv"}, "list": {"modes": ["tv", "fax"]},
             "kind": {"kind": SubStore, "modes": "tv"}, "badkind": {"kind": SIM.Container, "modes": "tv"}}[form]
        kw = {} if d is None else {"c": d}
        keep = None if d is None else dict(d)
        want = {"modes": {"tv"}, "list": {"tv", "fax"}, "kind": {"tv"}}.get(form, None)
        if want is None and dm is not None:
            want = {dm} if isinstance(dm, str) else set(dm)
        if form == "badkind" or want is None:
            refused(ctx, lambda: cls(name="x", **kw), f"communication store from {kw}")
            ctx.outcome("refused")
            return
        a = cls(name="a", **kw)
        b = cls(name="b", **kw)
        for act in (a, b):
            ctx.check(isinstance(act.c, SubStore if form == "kind" else UP.SelfMonitoringStore), "kind of store", "kind")
            got = {m for m in ("tv", "fax", "radio", "phone") if delivered(ctx, act, m)}
            ctx.eq(got, want, f"modes of {act.name}", "modes")
        ctx.eq(d, keep, "the input given by the user", "input")
        ctx.check(a.c is not b.c, "two actors share a store", "shared")
        ctx.outcome((str(dm), form))


def delivered(ctx, act, mode):
    """Does a communications manager for this mode find the store?"""
    man = UP.PointToPointCommsManager(name=f"m{mode}", mode=mode)
    try:
        return man.store_from_actor(act) is act.c
    except UP.SimulationError:
        return False


def harnesses(tier):
    q = tier == "quick"
    return [Harness("options", options, depth=4 if q else 5), Harness("hierarchy", hierarchy),
            Harness("resources", resources), Harness("keywords", keywords), Harness("comms", comms)]
