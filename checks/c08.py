"""C08: all short task programs, with and without interrupts, against a sequential interpreter.

Tasks whose statements are every sequence of waits, gets, puts, events, Any,
processes, holds and routines (with every small body and return value) run on
the real kernel.  A direct interpreter of the same program predicts the time and
value of every yield; END, RESTART and IGNORE interrupts are injected at every
kernel event boundary.  Windowed gets are enumerated over arrival patterns.
"""
import simpy as SIM
import upstage_des.api as UP
from mc.engine import Harness
from mc.sim import INF, Injector

BOUNDS = {"quick": "all 3-statement programs over 26 statements (18 routines) undisturbed; all 2-statement programs with one END/RESTART/"
                   "IGNORE interrupt at any event boundary; windowed gets over all 4-arrival patterns, windows, resets, one interrupt",
          "thorough": "all 3-statement programs with one interrupt, all 2-statement programs with two, 5 arrivals"}
ORACLE = "sequential interpreter giving time and value of every yield; window arithmetic for WindowedGet; cancel hooks counted"

BODIES = ("", "w", "g", "gw", "wg", "eg")
RETS = ("none", "zero", "last")
STEPS = ("w", "g", "c", "p", "e", "a", "P", "h") + tuple(("r", b, r) for b in BODIES for r in RETS)
ARR = [0.5 + k for k in range(12)]       # an item and one unit of fluid arrive at each of these times
ITEMS = [0, "", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10", "i11"]
NOTHING = "nothing"


class Act(UP.Actor):
    pass


class Rt(UP.Routine):
    def __init__(self, w, body, ret):
        super().__init__()
        self.w, self.body, self.ret = w, body, ret
        self.held = []

    def run(self):
        w = self.w
        w["stack"].append(self)
        last = None
        for s in self.body:
            if s == "w":
                last = yield UP.Wait(1.0)
                w["log"]("in:w", last)
            elif s == "g":
                last = yield UP.Get(w["store"])
                self.held.append(last)
                w["log"]("in:g", last)
            else:
                ev = w["fire"]()
                last = yield ev
                w["log"]("in:e", ev.get_payload())
        w["stack"].remove(self)
        if self.ret == "zero":
            return 0
        if self.ret == "last":
            return last

    def cancel(self):
        self.w["cancels"].append((self.w["env"].now, self))
        while self.held:
            it = self.held.pop()
            self.w["back"].append(it)
            yield UP.Put(self.w["store"], it)


class Nest(UP.Routine):
    """A routine may only yield events."""

    def __init__(self, w):
        super().__init__()
        self.w = w

    def run(self):
        yield Rt(self.w, "w", "none")

    def cancel(self):
        return
        yield


class Prog(UP.Task):
    def task(self, *, actor):
        w = self.w
        env = actor.env
        log = w["log"]
        log("start", None)
        for s in self.prog:
            if s == "w":
                v = yield UP.Wait(1.0)
                log("w", v)
            elif s == "g":
                v = yield UP.Get(w["store"])
                log("g", v)
            elif s == "c":
                v = yield UP.Get(w["cont"], 1.0)
                log("c", NOTHING)
            elif s == "p":
                v = yield UP.Put(w["side"], "x")
                log("p", NOTHING)
            elif s == "e":
                ev = w["fire"]()
                v = yield ev
                log("e", ev.get_payload())
            elif s == "a":
                g, t = UP.Get(w["store"]), UP.Wait(0.7)
                w["any"] = g
                yield UP.Any(g, t)
                w["any"] = None
                if g.is_complete():
                    log("a", g.get_value())
                else:
                    g.cancel()
                    log("a-", None)
            elif s == "P":
                def pr():
                    try:
                        yield env.timeout(1.0)
                    except SIM.Interrupt:
                        return None
                    return 5
                v = yield env.process(pr())
                log("P", v)
            elif s == "h":
                h = UP.ResourceHold(w["res"])
                yield h
                w["held"] = h
                yield h
                w["held"] = None
                log("h", NOTHING)
            else:
                v = yield Rt(w, s[1], s[2])
                log("r", v)
        log("end", None)

    def on_interrupt(self, *, actor, cause):
        self.w["hit"](cause)
        return {"end": self.INTERRUPT.END, "restart": self.INTERRUPT.RESTART, "ignore": self.INTERRUPT.IGNORE}[cause]


class Interp:
    """What the program does from time t on, given how much has been consumed."""

    def __init__(self, t, used, cused):
        self.t, self.used, self.cused = t, used, cused
        self.out = []

    def get(self):
        self.t = max(self.t, ARR[self.used])
        self.used += 1
        return ("item", self.used - 1)

    def run(self, prog):
        o = self.out
        o.append((self.t, "start", None))
        for s in prog:
            if s == "w":
                self.t += 1.0
                o.append((self.t, "w", None))
            elif s == "g":
                v = self.get()
                o.append((self.t, "g", v))
            elif s == "c":
                self.t = max(self.t, ARR[self.cused])
                self.cused += 1
                o.append((self.t, "c", NOTHING))
            elif s in ("p", "h"):
                o.append((self.t, s, NOTHING))
            elif s == "e":
                self.t += 0.25
                o.append((self.t, "e", "payload"))
            elif s == "a":
                if ARR[self.used] <= self.t + 0.7:
                    v = self.get()
                    o.append((self.t, "a", v))
                else:
                    self.t += 0.7
                    o.append((self.t, "a-", None))
            elif s == "P":
                self.t += 1.0
                o.append((self.t, "P", 5))
            else:
                last = None
                for b in s[1]:
                    if b == "w":
                        self.t += 1.0
                        last = None
                        o.append((self.t, "in:w", None))
                    elif b == "g":
                        last = self.get()
                        o.append((self.t, "in:g", last))
                    else:
                        self.t += 0.25
                        last = None
                        o.append((self.t, "in:e", "payload"))
                o.append((self.t, "r", {"none": None, "zero": 0, "last": last}[s[2]]))
        o.append((self.t, "end", None))
        return o


def program(ctx, n, ints):
    prog = [ctx.choose(STEPS, "stmt") for _ in range(n)]
    with UP.EnvironmentContext() as env:
        store, side = SIM.Store(env), SIM.Store(env)
        cont, res = SIM.Container(env), SIM.Resource(env, capacity=1)
        w = {"env": env, "store": store, "side": side, "cont": cont, "res": res, "cancels": [], "back": [], "stack": [],
             "held": None, "fired": 0, "any": None}
        trace = []
        w["log"] = lambda k, v: trace.append((env.now, k, v))

        def fire():
            ev = UP.Event()
            w["fired"] += 1
            k = w["fired"]

            def go():
                yield env.timeout(0.25)
                if not ev.is_complete():
                    try:
                        ev.succeed(n=k)
                    except Exception:  # noqa: BLE001  (its waiting task was ended)
                        pass
            env.process(go())
            return ev
        w["fire"] = fire

        def feeder():
            last = 0.0
            for t, it in zip(ARR, ITEMS):
                yield env.timeout(t - last)
                last = t
                store.put(it)
                cont.put(1.0)
        env.process(feeder())
        t = Prog()
        t.w, t.prog = w, prog
        proc = t.run(actor=Act(name="A"))
        hits, taken, used_up = [], [], []

        def hit(cause):
            g = w["any"]
            if cause != "ignore" and g is not None:
                w["any"] = None
                if g.is_complete():       # the Get inside the Any was completed: its item is handed over
                    taken.append(g.get_value())
                    used_up.append(len(trace))
            hits.append((env.now, cause, len(trace), list(w["stack"]), w["held"]))
            if cause != "ignore":
                w["stack"].clear()
        w["hit"] = hit
        inj = Injector(ctx, env, lambda: proc, ints, ("end", "restart", "ignore"))
        while env.peek() != INF and env.peek() <= 11.0 and proc.is_alive:
            inj()
            env.step()
            ctx.step()
        ctx.check(not proc.is_alive or (hits and hits[-1][1] == "end" and hits[-1][0] == env.now), "task never ended", "stuck")
        while env.peek() <= env.now:
            env.step()
        # ---- the prediction
        want, t0, done, cancels, voided = [], 0.0, 0, [], []
        used = cused = 0
        seg_start = 0
        ended = False
        for (ti, cause, k, stack, held) in [h for h in hits if h[1] != "ignore"]:
            if ended:
                break
            exp = Interp(t0, used, cused).run(prog)
            seg = trace[seg_start:k]
            want += exp[:len(seg)]
            back = sum(len([1 for x in seg_in(trace[seg_start:k]) if x]) for _ in stack)
            used += sum(1 for x in seg if x[1] in ("g", "a", "in:g")) - back + (k in used_up)
            cused += sum(1 for x in seg if x[1] == "c")
            cancels += [(ti, r) for r in reversed(stack)]
            seg_start, t0 = k, ti
            ended = cause == "end"
        if not ended:
            want += Interp(t0, used, cused).run(prog)
        stops = [h for h in hits if h[1] != "ignore"]
        ctx.eq([(round(a, 9), b) for a, b, _ in trace], [(round(a, 9), b) for a, b, _ in want], "statements executed (time, kind)", "order")
        got = []
        for (ta, k, v), (_, _, x) in zip(trace, want):
            if isinstance(x, tuple):
                if not stops:
                    ctx.check(v is ITEMS[x[1]] or v == ITEMS[x[1]], f"{k} at t={ta} evaluated to {v!r}, not to the item {ITEMS[x[1]]!r}", "value")
                else:
                    ctx.check(any(v is i for i in ITEMS), f"{k} at t={ta} evaluated to {v!r}, not to an item", "value")
                if k != "r":
                    got.append(v)
            elif x == "payload":
                ctx.check(isinstance(v, dict) and list(v) == ["n"], f"payload {v!r} at t={ta}", "payload")
            else:
                ctx.check(v == x and type(v) is type(x), f"yield {k} at t={ta} evaluated to {v!r}, expected {x!r}", "value")
        ctx.eq(w["cancels"], cancels, "routine cancel hooks run (time, routine)", "cancels")
        # each item once
        left = got + taken
        for b in w["back"]:
            left.remove(b)
        arrived = [it for a, it in zip(ARR, ITEMS) if a <= env.now]
        ctx.eq(sorted(map(repr, left + list(store.items))), sorted(map(repr, arrived)), "items received plus items in the store", "items")
        ctx.eq(len(store.get_queue) + len(cont.get_queue), 0, "requests left behind", "queue")
        if not (stops and any(h[4] is not None for h in stops)):
            ctx.eq(res.count, 0, "slots still held", "slots")
        ctx.state((prog, [h[:3] for h in hits]))
        ctx.outcome([(a, b) for a, b, _ in trace])


def seg_in(seg):
    """Gets done by the routine that was running at the end of seg."""
    out = []
    for x in reversed(seg):
        if not x[1].startswith("in:"):
            break
        out.append(x[1] == "in:g")
    return out


class WTask(UP.Task):
    def task(self, *, actor):
        w = self.w
        if w["delay"]:
            yield UP.Wait(w["delay"], timeout_unit=w["unit"])
        r = UP.WindowedGet(w["store"], w["timeout"], timeout_unit=w["unit"], reset_window=w["reset"],
                           get_args=w["args"], get_kwargs=w["kwargs"])
        ans = yield r
        w["ans"] = (actor.env.now, list(ans))
        w["same"] = r.result == ans


def window(ctx, n):
    gaps = [ctx.choose((0.0, 1.0, 2.0), "gap") for _ in range(n)]
    timeout = ctx.choose((0.0, 0.75, 1.0, 1.5, 2.0, 2.5), "timeout")
    reset = ctx.choose((False, True), "reset_window")
    kind = ctx.choose(("store", "filter", "unit"), "store")
    delay = ctx.choose((0.0, 1.0), "delay")
    inter = ctx.choose((None, "end", "restart"), "interrupt")
    scale = 1.0
    with UP.EnvironmentContext() as env:
        unit = None
        if kind == "unit":
            UP.add_stage_variable("time_unit", "min")
            unit, scale = "s", 60.0
        store = (SIM.FilterStore if kind == "filter" else SIM.Store)(env)
        times, t = [], 0.0
        for g in gaps:
            t += g
            times.append(t)
        items = list(range(n))
        w = {"store": store, "timeout": timeout * scale, "unit": unit, "reset": reset, "delay": delay * scale,
             "args": None, "kwargs": {"filter": lambda x: x != 1} if kind == "filter" else None}

        def feeder():
            for k, g in enumerate(gaps):
                if g:
                    yield env.timeout(g)
                store.put(k)
        env.process(feeder())
        task = WTask()
        task.w = w
        if inter == "restart":
            task.on_interrupt = lambda *, actor, cause: task.INTERRUPT.RESTART
        proc = task.run(actor=Act(name="A"))
        inj = Injector(ctx, env, lambda: proc, 1 if inter else 0, (inter,))
        while env.peek() != INF:
            inj()
            env.step()
            ctx.step()
        ok = [k for k in items if not (kind == "filter" and k == 1)]
        t0 = delay
        if inj.sent and inter == "end":
            ctx.eq(sorted(store.items), items, "store after the interrupt", "items")
            ctx.check("ans" not in w, "an ended task went on", "order")
            ctx.eq(len(store.get_queue), 0, "get requests left behind", "queue")
        else:
            if inj.sent:
                t0 += inj.sent[0][0]
            res, ends = [], None
            exact = True
            avail = [(max(times[k], t0), k) for k in ok]
            end = None
            for a, k in avail:
                if end is None or a < end - 1e-9:
                    res.append(k)
                    if end is None or reset:
                        end = a + timeout
                elif abs(a - end) < 1e-9:
                    exact = False       # arrives at the very end of the window: in or out
                    break
                else:
                    break
            if end is None:
                ctx.check("ans" not in w, "answer without any item", "order")
            else:
                ctx.check("ans" in w, "no answer although an item arrived", "order")
                now, got = w["ans"]
                if exact:
                    ctx.close(now, end, "window end", key="window")
                    if inj.sent:
                        got = sorted(got)
                    ctx.eq(got, res, "items of the window", "items")
                else:
                    if inj.sent:
                        got = sorted(got)
                    ctx.eq(got, ok[:len(got)], "items of the window in order", "items")
                    ctx.check(len(got) >= len(res), f"window lost items: {got} but {res} were in it", "items")
                ctx.check(w.get("same"), "routine's result differs from its returned value", "value")
                ctx.eq(sorted(got + list(store.items)), items, "items received plus items in store", "items")
                ctx.eq(len(store.get_queue), 0, "get requests left behind", "queue")
        ctx.state((gaps, timeout, reset, kind, delay, inj.sent))
        ctx.outcome(w.get("ans"))


class Nested(UP.Task):
    def task(self, *, actor):
        yield Nest(self.w)


class Junk(UP.Task):
    def task(self, *, actor):
        yield self.what


def refuse(ctx):
    """Anything that is not an event or routine is refused, loudly."""
    kind = ctx.choose(("nested", None, 3, "x", "sim"), "yielded")
    with UP.EnvironmentContext() as env:
        if kind == "nested":
            t = Nested()
            t.w = {"stack": []}
        else:
            t = Junk()
            t.what = env.timeout(1.0) if kind == "sim" else kind
        t.run(actor=Act(name="A"))
        try:
            env.run(until=3)
            ctx.fail(f"yielding {kind!r} was accepted", "refuse")
        except UP.SimulationError:
            pass
        ctx.outcome(kind)


def harnesses(tier):
    hs = [Harness("refuse", refuse)]
    if tier == "quick":
        return hs + [Harness("program3", program, n=3, ints=0), Harness("program2_int1", program, n=2, ints=1),
                     Harness("window", window, n=4)]
    return hs + [Harness("program3_int1", program, n=3, ints=1), Harness("program2_int2", program, n=2, ints=2),
                 Harness("window", window, n=5)]
