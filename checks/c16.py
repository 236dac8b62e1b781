"""C16: dictionary, dataclass and multi-store states against plain objects.

Every sequence of operations on a dictionary or dataclass state, for every
combination of recording options, runs side by side with a plain dict or
dataclass and a reference history; multi-store states are created from every
form of input and then used as ordinary stores.
"""
import copy
from dataclasses import dataclass, field, fields, is_dataclass

import simpy as SIM
import upstage_des.api as UP

from mc.engine import Harness

BOUNDS = {"quick": "dictionary: all sequences of 4 of 12 operations x 4 recording options x typed/untyped x 2 initial contents; dataclass: all "
                   "sequences of 4 of 11 operations x 4 options x 2 classes; all inputs of multi-store states over 2 names",
          "thorough": "sequences of 5 operations"}
ORACLE = "a plain dict / dataclass and a list of records"


def total(time, value):
    return (time, sum(v for v in dict(value.items()).values() if isinstance(v, int | float)))


class Calls:
    def __init__(self):
        self.n = 0

    def __call__(self, time, value):
        self.n += 1
        return self.n


def dtotal(time, value):
    return (time, value.a, value.b)


OPTS = {"rec": dict(recording=True), "dup": dict(recording=True, record_duplicates=True),
        "off": dict(recording=False)}
_made = {}


class Ref:
    def __init__(self, opt, funcs):
        self.on = opt != "off"
        self.dup = opt.startswith("dup")
        self.funcs = funcs
        self.h = {}
        self.n = 0

    def add(self, name, t, v):
        h = self.h.setdefault(name, [])
        if self.dup or not h or h[-1] != (t, v):
            h.append((t, v))

    def rec(self, t, pairs, whole):
        if not self.on:
            return
        for k, v in pairs:
            self.add(f"s.{k}", t, v)
        for f, n in self.funcs:
            if f is Calls:
                self.n += 1
                self.add(n, t, self.n)
            else:
                self.add(n, t, f(t, whole))


def refused(ctx, fn, what, *types):
    try:
        fn()
    except (types or (TypeError, UP.SimulationError, UP.UpstageError)):
        return
    ctx.fail(f"accepted: {what}", "refusal")


def dictionary(ctx, depth):
    opt = ctx.choose(("rec", "dup", "rec+f", "dup+f", "off"), "options")
    typed = ctx.flag("typed")
    funcs = [(total, "f_total"), (Calls, "f_calls")] if "+f" in opt else []
    key = ("d", opt, typed)
    if key not in _made:
        kw = dict(OPTS[opt.split("+")[0]])
        if typed:
            kw["valid_types"] = (int,)
        _made[key] = type("D", (UP.Actor,), {"s": UP.DictionaryState(recording_functions=list(funcs) or None, **kw),
                                              "o": UP.State(default=1)})
    cls = _made[key]
    with UP.EnvironmentContext(initial_time=2.0) as env:
        start = ctx.choose(({"a": 0}, {}), "start")
        given = dict(start)
        if typed:
            refused(ctx, lambda: cls(name="x", s={"a": 1, "b": "text"}), "wrong value type at creation")
            refused(ctx, lambda: cls(name="x", s={"a": None}), "None as a value of another type at creation")
        x, y = cls(name="x", s=given), cls(name="y", s=given)
        given["zzz"] = 9
        model = dict(start)
        ref, yref = Ref(opt, funcs), Ref(opt, funcs)
        ref.rec(2.0, model.items(), model)
        yref.rec(2.0, model.items(), model)
        for _ in range(depth):
            op = ctx.choose(("a=1", "a+=1", "b=1", "b=same", "bad a", "bad c", "c=None", "default a", "default c", "record", "adv", "whole"))
            ctx.note(op)
            t = env.now
            if op in ("a=1", "b=1"):
                x.s[op[0]] = 1
                model[op[0]] = 1
                ref.rec(t, [(op[0], 1)], model)
            elif op == "a+=1":
                if "a" in model:
                    x.s["a"] += 1
                    model["a"] += 1
                    ref.rec(t, [("a", model["a"])], model)
                else:
                    def incr():
                        x.s["a"] += 1
                    refused(ctx, incr, "missing key", KeyError)
            elif op == "b=same":
                if "b" in model:
                    x.s["b"] = model["b"]
                    ref.rec(t, [("b", model["b"])], model)
                else:
                    refused(ctx, lambda: x.s["b"], "missing key", KeyError)
            elif op in ("bad a", "bad c"):
                def assign():
                    x.s[op[-1]] = "text"
                if typed:
                    refused(ctx, assign, "value of a wrong type", TypeError)
                else:
                    assign()
                    model[op[-1]] = "text"
                    ref.rec(t, [(op[-1], "text")], model)
                    x.s[op[-1]] = model[op[-1]] = 3
                    ref.rec(t, [(op[-1], 3)], model)
            elif op == "c=None":
                def assign():
                    x.s["c"] = None
                if typed:
                    refused(ctx, assign, "None as a value of another type", TypeError)
                else:
                    assign()
                    model["c"] = None
                    ref.rec(t, [("c", None)], model)
            elif op in ("default a", "default c"):
                k = op[-1]
                new = k not in model
                got = x.s.setdefault(k, 7)
                ctx.eq(got, model.setdefault(k, 7), "setdefault", "value")
                if new:
                    ref.rec(t, [(k, 7)], model)
            elif op == "record":
                x.record_state("s")
                ref.rec(t, model.items(), model)
            elif op == "adv":
                env.run(until=t + 1.0)
            else:
                def whole():
                    x.s = {"q": 1}
                refused(ctx, whole, "second assignment of the whole state")
            ctx.step()
            ctx.eq(list(x.s.items()), list(model.items()), f"items after {op}", "value")
            ctx.state((opt, typed, list(model.items()), ref.h))
        ctx.eq(list(x.s.keys()), list(model), "keys", "value")
        ctx.eq(list(x.s.values()), list(model.values()), "values", "value")
        ctx.eq(list(x.s), list(model), "iteration", "value")
        ctx.eq(len(x.s), len(model), "len", "value")
        ctx.check(x.s == model and x.s == x.s, "equality with the plain dict", "value")
        ctx.check(not (x.s == {**model, "k": 0}), "equal to another dict", "value")
        ctx.eq(x.s == y.s, model == start, "equality of two states", "value")
        ctx.eq([k in x.s for k in "abcz"], [k in model for k in "abcz"], "contains", "value")
        ctx.eq(dict(y.s.items()), start, "the state of another actor", "shared")
        ctx.eq(dict(x._state_histories), ref.h, "histories", "history")
        ctx.eq(dict(y._state_histories), yref.h, "histories of the other actor", "history")
        ctx.outcome((opt, typed, list(model.items()), len(ref.h.get("s.a", ()))))


@dataclass
class Plain:
    a: int
    b: float
    c: list[int] = field(default_factory=list)


@dataclass
class Base:
    a: int
    b: float


@dataclass
class Child(Base):
    c: "list[int] | None" = None


# the child's own annotations do not name a and b
VALUES = {"a": (1, 2), "b": (1.5, 2.5), "c": ([1], [2, 3])}


def dclass(ctx, depth):
    opt = ctx.choose(("rec", "dup", "rec+f", "dup+f", "off"), "options")
    dc = ctx.choose((Plain, Child), "dataclass")
    funcs = [(dtotal, "f_total"), (Calls, "f_calls")] if "+f" in opt else []
    key = ("c", opt, dc.__name__)
    if key not in _made:
        _made[key] = type("D", (UP.Actor,), {"s": UP.DataclassState(valid_types=dc, recording_functions=list(funcs) or None,
                                                                    **OPTS[opt.split("+")[0]])})
    cls = _made[key]
    with UP.EnvironmentContext(initial_time=2.0) as env:
        refused(ctx, lambda: cls(name="x", s={"a": 1}), "an object of another type at creation")
        x, y = cls(name="x", s=dc(0, 0.0)), cls(name="y", s=dc(0, 0.0))
        model = dc(0, 0.0)
        ref, yref = Ref(opt, funcs), Ref(opt, funcs)

        def pairs(m=model):
            return [(f.name, getattr(m, f.name)) for f in fields(m)]
        ref.rec(2.0, pairs(), model)
        yref.rec(2.0, pairs(), model)
        names = ("a", "b", "c")
        for _ in range(depth):
            op = ctx.choose(("a0", "a1", "b0", "c0", "c1", "bad a", "bad b", "bad c", "record", "adv", "whole"))
            ctx.note(op)
            t = env.now
            if op[0] in names and len(op) == 2:
                n, v = op[0], VALUES[op[0]][int(op[1])]
                setattr(x.s, n, copy.copy(v))
                setattr(model, n, copy.copy(v))
                ref.rec(t, [(n, copy.copy(v))], model)
            elif op[:3] == "bad":
                refused(ctx, lambda: setattr(x.s, op[-1], "text"), "a value of a wrong type", TypeError)
            elif op == "record":
                x.record_state("s")
                ref.rec(t, pairs(), model)
            elif op == "adv":
                env.run(until=t + 1.0)
            else:
                def whole():
                    x.s = dc(5, 5.0)
                refused(ctx, whole, "second assignment of the whole state")
            ctx.step()
            ctx.eq([getattr(x.s, n) for n in names], [getattr(model, n) for n in names], f"fields after {op}", "value")
            ctx.state((opt, repr(model), ref.h))
        refused(ctx, lambda: x.s.nothing, "an attribute the dataclass does not have", AttributeError)
        ctx.check(is_dataclass(x.s), "is_dataclass", "value")
        ctx.eq([f.name for f in fields(x.s)], [f.name for f in fields(model)], "fields()", "value")
        ctx.check(x.s == model and x.s == x.s, "equality with the plain object", "value")
        ctx.check(not (x.s == dc(99, 9.0)), "equal to another object", "value")
        ctx.eq(repr(x.s), repr(model), "repr", "value")
        ctx.eq(repr(y.s), repr(dc(0, 0.0)), "the state of another actor", "shared")
        ctx.eq(dict(x._state_histories), ref.h, "histories", "history")
        ctx.eq(dict(y._state_histories), yref.h, "histories of the other actor", "history")
        ctx.outcome((opt, dc.__name__, repr(model), sorted((k, len(v)) for k, v in ref.h.items())))


class SubStore(SIM.Store):
    pass


KIND = {"none": None, "store": SIM.Store, "sub": SubStore, "cont": SIM.Container}
VT = {"none": None, "store": SIM.Store, "both": (SIM.Store, SIM.Container)}
INF = float("inf")


def multi(ctx):
    dk = ctx.choose(("none", "store", "cont"), "default")
    vt = ctx.choose(tuple(VT), "valid types")
    dkw = ctx.choose(({}, {"capacity": 5}), "default kwargs")
    key = ("m", dk, vt, len(dkw))
    if key not in _made:
        _made[key] = type("M", (UP.Actor,), {"s": UP.MultiStoreState(default=KIND[dk], valid_types=VT[vt], default_kwargs=dict(dkw) or None)})
    cls = _made[key]
    allowed = {"none": (SIM.Store, SIM.Container), "store": SIM.Store, "both": (SIM.Store, SIM.Container)}[vt]
    with UP.EnvironmentContext() as env:
        form = ctx.choose(("list", "dict"), "form")
        want, given, ok = {}, {}, True
        names = ("one", "two")
        if form == "list":
            names = ctx.choose((("one", "two"), ("two", "one"), ("two",), ()), "names")
            inp = list(names)
            for n in names:
                want[n] = (KIND[dk], dkw.get("capacity", INF), None)
        else:
            for n in names:
                k = ctx.choose(("none", "store", "sub", "cont", "object", "badobject", "badarg"), n)
                if k in ("object", "badobject"):
                    o = SubStore(env, capacity=3) if k == "object" else SIM.Container(env, capacity=3)
                    given[n] = o
                    want[n] = (type(o), 3, o)
                elif k == "badarg":
                    given[n] = {"nonsense": 1}
                    want[n] = (None, 0, None)
                else:
                    d = {} if KIND[k] is None else {"kind": KIND[k]}
                    cap = dkw.get("capacity", INF)
                    if n == "two":
                        d["capacity"] = cap = 7
                    given[n] = d
                    want[n] = (KIND[k] or KIND[dk], cap, None)
            inp = given
        keep = {n: (dict(v) if isinstance(v, dict) else v) for n, v in given.items()}
        ok = all(w[0] is not None and issubclass(w[0], allowed) for w in want.values())
        refused(ctx, lambda: cls(name="w"), "a multi-store state without input")
        if not ok:
            refused(ctx, lambda: cls(name="x", s=inp), f"multi-store input {inp}")
            ctx.outcome("refused")
            return
        a = cls(name="a", s=inp)
        shared = any(w[2] is not None for w in want.values())
        b = a if shared else cls(name="b", s=inp)
        ctx.eq(given, keep, "the input given by the user", "input")
        ctx.eq(list(a.s.keys()), list(names), "names", "names")
        ctx.eq(len(a.s), len(names), "number of stores", "names")
        seen = []
        for act in (a,) if shared else (a, b):
            for n in names:
                k, cap, obj = want[n]
                r = act.s[n]
                ctx.check(type(r) is k, lambda: f"{n} is a {type(r)}", "kind")
                ctx.eq(r.capacity, cap, f"capacity of {n}", "kind")
                ctx.check(obj is None or r is obj, "a given object was replaced", "kind")
                ctx.check(all(r is not q for q in seen), "two entries are one object", "shared")
                seen.append(r)
        # usable like ordinary resources, independently of each other
        got = []

        class T(UP.Task):
            def task(self, *, actor):
                for n in names:
                    r = actor.s[n]
                    if isinstance(r, SIM.Store):
                        yield UP.Put(r, f"item {n}")
                        yield UP.Put(r, f"more {n}")
                        got.append((yield UP.Get(r)))
                    else:
                        yield UP.Put(r, 2.0)
                        yield UP.Get(r, 0.5)
                yield UP.Wait(1.0)
        T().run(actor=a)
        env.run()
        for n in names:
            r = a.s[n]
            if isinstance(r, SIM.Store):
                ctx.eq(r.items, [f"more {n}"], f"content of {n}", "works")
                ctx.check(f"item {n}" in got, "item not received", "works")
            else:
                ctx.close(r.level, 1.5, f"level of {n}", key="works")
            if not shared:
                ctx.check((b.s[n].items == []) if isinstance(r, SIM.Store) else b.s[n].level == 0, "another actor's store changed", "shared")

        def whole():
            a.s = inp
        refused(ctx, whole, "second assignment")

        def entry():
            a.s["one"] = 5
        if vt != "none" and "one" in names:
            keep_obj = a.s["one"]
            refused(ctx, entry, "an entry of a wrong type", TypeError)
            ctx.check(a.s["one"] is keep_obj, "entry replaced by a refused value", "refusal")
        ctx.step()
        ctx.outcome((dk, vt, form, sorted((n, w[0].__name__, w[1]) for n, w in want.items())))


def harnesses(tier):
    q = tier == "quick"
    return [Harness("dictionary", dictionary, depth=4 if q else 5), Harness("dataclass", dclass, depth=4 if q else 5),
            Harness("multi", multi)]
