"""The alphabet of pending events shared by the interrupt checks (C01-C03, C05, C08)."""
import simpy as SIM
import upstage_des.api as UP
from upstage_des.type_help import ROUTINE_GEN  # noqa: F401


class Host(UP.Actor):
    fuel = UP.LinearChangingState(default=100.0, recording=True)
    heat = UP.LinearChangingState(default=0.0)
    echo = UP.State(default=0.0, recording=True)
    echo2 = UP.State(default=0.0, recording=True)


class Source(UP.Actor):
    src = UP.State(default=1.0, recording=True)


class Fetch(UP.Routine):
    """Gets an item, works on it for a while, gives the item back when cancelled."""

    def __init__(self, w, tag, inner=False):
        super().__init__()
        self.w, self.tag, self.inner, self.item = w, tag, inner, None
        self.g = None

    def run(self):
        self.g = self.w.req(UP.Get(self.w.store), self.tag)
        yield self.g
        self.item = self.g.get_value()
        yield UP.Wait(1.0)
        return ("fetched", self.item)

    def cancel(self):
        self.w.cancelling += 1
        self.w.cancel_calls.append((self.w.env.now, self.tag))
        if self.item is not None:
            it, self.item = self.item, None
            self.w.unreq(self.g)
            self.w.in_hand.append(it)
            yield UP.Put(self.w.store, it)
            self.w.in_hand.remove(it)
        self.w.cancelling -= 1


class World:
    def __init__(self, env):
        self.env = env
        self.trace = []
        self.kinds = []
        self.reqs = []            # (request event, tag) made by anybody on the item store
        self.in_hand = []
        self.know_pending = []
        self.cancelling = 0
        self.cancel_calls = []
        self.put_in = []          # every item that ever entered
        self.comp = {}            # competitor -> what it is pending on
        self.comp_got = []
        self.a = Host(name="A")
        self.b = Source(name="B")
        self.store = SIM.Store(env)
        self.fstore = SIM.FilterStore(env)
        self.sstore = UP.SortedFilterStore(env)
        self.full = SIM.Store(env, capacity=1)
        self.full.items.append("plug")
        self.cont = SIM.Container(env, capacity=10, init=0)
        self.cfull = SIM.Container(env, capacity=4, init=4)
        self.res = SIM.Resource(env, capacity=1)
        self.event = UP.Event()
        self.done_event = UP.Event()
        self.cgets = []
        self.cputs = []
        self.cont_in = 0.0
        self.cfull_out = 0.0
        self.holds = []
        self.procs = []
        self.plug_out = []
        self.vproc = None

    def log(self, what):
        self.trace.append((self.env.now, what))

    def req(self, r, tag):
        self.reqs.append(r)
        return r

    def unreq(self, r):
        self.reqs.remove(r)

    # the mimicked state changes at known times
    SRC = ((0.0, 1.0), (1.0, 2.0), (2.5, 3.0), (4.0, 4.0), (5.0, 5.0))

    def src_at(self, t):
        v = None
        for tt, x in self.SRC:
            if tt <= t:
                v = x
        return v

    def src_script(self):
        def proc():
            last = 0.0
            for t, x in self.SRC[1:]:
                yield self.env.timeout(t - last)
                last = t
                self.b.src = x
        self.env.process(proc())

    # arrivals
    def feed(self, plan):
        env = self.env

        def feeder():
            seq = ((1.0, "n1", 2), (2.0, "n2", 4), (3.0, "n3", 6), (5.0, "n4", 8), (6.0, "n5", 10)) if plan == "one" else \
                  ((1.0, "n1", 2), (1.0, "n2", 4), (2.0, "n3", 6), (5.0, "n4", 8), (6.0, "n5", 10))
            last = 0.0
            for t, nm, num in seq:
                if t > last:
                    yield env.timeout(t - last)
                last = t
                self.put_in += [nm, num, (num, "s")]
                self.store.put(nm)
                self.fstore.put(num)
                self.sstore.put((num, "s"))
                self.cont.put(2.0)
                self.cont_in += 2.0
                if t == 2.0:
                    self.event.succeed(tag="E")
                    for nm2 in ("hold", "either"):
                        if self.a.get_knowledge(nm2) is not None:
                            self.a.succeed_knowledge_event(name=nm2)
                if nm in ("n2", "n3") and self.full.items:
                    g = self.full.get()
                    yield g
                    self.plug_out.append(g.value)
                if nm == "n2":
                    self.cfull.get(3.0)
                    self.cfull_out += 3.0
        self.env.process(feeder())

        def early():
            yield env.timeout(0.75)
            self.done_event.succeed()
        self.env.process(early())

        def holder():
            with self.res.request() as r:
                yield r
                yield env.timeout(2.0)
        self.env.process(holder())

    # others that want the same things
    def competitors(self, kinds):
        env = self.env
        names = set(kinds)

        def c_get():
            g = self.store.get()
            self.comp["store"] = g
            self.reqs.append(g)
            v = yield g
            self.comp_got.append(("store", env.now, v))

        def c_fget():
            g = self.fstore.get(lambda x: x >= 4)
            self.comp["fstore"] = g
            self.reqs.append(g)
            v = yield g
            self.comp_got.append(("fstore", env.now, v))

        def c_sget():
            g = self.sstore.get(lambda x: x[0] >= 4, lambda x: (x[0],))
            self.comp["sstore"] = g
            self.reqs.append(g)
            v = yield g
            self.comp_got.append(("sstore", env.now, v))

        def c_cget():
            g = self.cont.get(1.5)
            self.comp["cont"] = g
            self.cgets.append((g, 1.5))
            yield g
            self.comp_got.append(("cont", env.now))

        def c_put():
            p = self.full.put("cplug")
            self.comp["full"] = p
            yield p

        def c_hold():
            r = self.res.request()
            self.comp["res"] = r
            yield r
            self.comp_got.append(("res", env.now))
            yield env.timeout(0.5)
            self.res.release(r)
        if names & {"get", "any_gw", "any_ge", "all_gw", "all_eg", "nest", "routine", "wget", "any_rewait"}:
            env.process(c_get())
        if "fget" in names:
            env.process(c_fget())
        if "sget" in names:
            env.process(c_sget())
        if names & {"cget", "nest"}:
            env.process(c_cget())
        if "put" in names:
            env.process(c_put())
        if "hold" in names:
            env.process(c_hold())

    # ---- oracles --------------------------------------------------------
    @staticmethod
    def _finished(r):
        if isinstance(r, SIM.Event):
            return r.processed
        return r._request_event is not None and r.is_complete()

    @staticmethod
    def _value(r):
        return r.value if isinstance(r, SIM.Event) else r.get_value()

    def conserved(self, ctx):
        """At the end of an instant every item is in one place."""
        have = list(self.store.items) + list(self.fstore.items) + list(self.sstore.items)
        have += [self._value(r) for r in self.reqs if self._finished(r)]
        have += list(self.in_hand)
        for p in list(self.store.put_queue):
            if p.item in self.in_hand:
                continue
            have.append(p.item)
        ctx.check(sorted(map(repr, have)) == sorted(map(repr, self.put_in)),
                  lambda: f"items lost or duplicated at {self.env.now}: accounted {sorted(map(repr, have))} "
                          f"entered {sorted(map(repr, self.put_in))}", "conservation")
        taken = sum(a for g, a in self.cgets if (g.processed if isinstance(g, SIM.Event) else
                                                 (g._request_event is not None and g.is_complete())))
        ctx.close(self.cont.level, self.cont_in - taken, "container level", key="container-level")
        put = sum(a for p, a in self.cputs if p._request_event is not None and p._request_event.triggered)
        ctx.close(self.cfull.level, 4.0 - self.cfull_out + put, "full container level", key="container-level")

    def progress(self, ctx, victim_dead):
        """Nobody who could be served is left waiting; the dead leave no queue entry."""
        n = self.env.now
        ctx.check(not (self.store.items and self.store.get_queue), f"item and getter both wait at {n}", "stuck")
        ctx.check(not (self.cont.get_queue and self.cont.level >= self.cont.get_queue[0].amount),
                  f"container getter waits although served at {n}", "stuck")
        ctx.check(not (self.full.put_queue and len(self.full.items) < 1), f"putter waits at free store {n}", "stuck")
        ctx.check(not (self.res.queue and self.res.count < 1), f"free resource but queue at {n}", "stuck")
        for st, nm in ((self.fstore, "fstore"), (self.sstore, "sstore")):
            for g in st.get_queue:
                ctx.check(not any(g.filter(i) for i in st.items),
                          f"{nm} getter waits although an item matches at {n}", "stuck")
        if victim_dead:
            for obj, nm in ((self.store, "store"), (self.fstore, "fstore"), (self.sstore, "sstore"),
                            (self.cont, "cont")):
                exp = [self.comp[nm]] if nm in self.comp and not self.comp[nm].triggered else []
                ctx.check(list(obj.get_queue) == exp,
                          f"dead task left a request in {nm} at {n}: {list(obj.get_queue)}", "request-left")
            exp = [self.comp["full"]] if "full" in self.comp and not self.comp["full"].triggered else []
            ctx.check(list(self.full.put_queue) == exp, f"dead task left a put at {n}", "request-left")
            ctx.check(not self.cfull.put_queue, f"dead task left a container put at {n}", "request-left")
            exp = [self.comp["res"]] if "res" in self.comp and not self.comp["res"].triggered else []
            ctx.check(list(self.res.queue) == exp, f"dead task left a resource request at {n}", "request-left")
            for u in self.res.users:
                ctx.check(u is self.comp.get("res") or self.env.now < 2.0 or u is self.holder_req(),
                          f"resource slot leaked at {n}", "slot-leak")
            for p in self.procs:
                ctx.check(not p.is_alive, f"process awaited by the ended task still runs at {n}", "process-left")

    def holder_req(self):
        return None

    def must_finish(self):
        return True

    def summary(self):
        return (list(self.store.items), list(self.fstore.items), list(self.sstore.items),
                list(self.full.items), self.cont.level, self.cfull.level, self.res.count,
                len(self.store.get_queue), len(self.cont.get_queue), len(self.res.queue),
                list(self.comp_got))


# ---- kinds: generator fragments used with `yield from` inside a task ----------

def k_wait(w, task, actor, tag):
    yield UP.Wait(1.0)


def k_get(w, task, actor, tag):
    g = w.req(UP.Get(w.store), tag)
    v = yield g
    w.log((tag, v))


def k_fget(w, task, actor, tag):
    g = w.req(UP.FilterGet(w.fstore, lambda x: x >= 4), tag)
    v = yield g
    w.log((tag, v))


def k_sget(w, task, actor, tag):
    g = w.req(UP.Get(w.sstore, lambda x: x[0] >= 4, lambda x: (x[0],)), tag)
    v = yield g
    w.log((tag, v))


def k_cget(w, task, actor, tag):
    g = UP.Get(w.cont, 2.0)
    w.cgets.append((g, 2.0))
    yield g


def k_put(w, task, actor, tag):
    p = UP.Put(w.full, "mine" + tag)
    yield p
    w.full.get()  # make room again so that others can proceed


def k_cput(w, task, actor, tag):
    p = UP.Put(w.cfull, 1.0)
    w.cputs.append((p, 1.0))
    yield p


def k_hold(w, task, actor, tag):
    h = UP.ResourceHold(w.res)
    w.holds.append(h)
    yield h
    w.log((tag, "held"))
    yield h


def k_event(w, task, actor, tag):
    if w.event.is_complete():
        yield UP.Wait(0.25)
    else:
        yield w.event
        w.log((tag, tuple(w.event.get_payload().items())))


def k_kevent(w, task, actor, tag):
    if w.env.now >= 2.0:
        yield UP.Wait(0.25)
        return
    e = actor.create_knowledge_event(name="hold")
    actor.set_knowledge("hold too", e)
    w.know_pending += ["hold", "hold too"]
    yield e
    w.know_pending.remove("hold")
    w.know_pending.remove("hold too")
    actor.clear_knowledge("hold too")


def k_any_kevent(w, task, actor, tag):
    """A knowledge event with a time limit."""
    e = actor.create_knowledge_event(name="either")
    w.know_pending.append("either")
    yield UP.Any(UP.Wait(1.0), UP.All(e, UP.Wait(0.25)))
    w.know_pending.remove("either")
    if actor.get_knowledge("either") is not None:
        actor.clear_knowledge("either")


def k_any_gw(w, task, actor, tag):
    g = w.req(UP.Get(w.store), tag)
    t = UP.Wait(1.0)
    yield UP.Any(g, t)
    if g.is_complete():
        w.log((tag, g.get_value()))
    else:
        g.cancel()


def k_any_ge(w, task, actor, tag):
    g = w.req(UP.Get(w.store), tag)
    e = UP.Event()
    yield UP.Any(g, e)
    w.log((tag, g.get_value()))


def k_any_rewait(w, task, actor, tag):
    t = UP.Wait(1.5)
    g = w.req(UP.Get(w.store), tag)
    yield UP.Any(t, g)
    if g.is_complete():
        g2 = w.req(UP.Get(w.store), tag)
        yield UP.Any(t, g2)
        if not g2.is_complete():
            g2.cancel()
    else:
        g.cancel()


def k_all_gw(w, task, actor, tag):
    g = w.req(UP.Get(w.store), tag)
    yield UP.All(g, UP.Wait(1.0))
    w.log((tag, g.get_value()))


def k_all_eg(w, task, actor, tag):
    """All with a sub-Event that completes long before the other part."""
    g = w.req(UP.Get(w.store), tag)
    e = UP.Event()

    def later():
        yield w.env.timeout(0.25)
        e.succeed()
    w.env.process(later())
    yield UP.All(e, g)
    w.log((tag, g.get_value()))


def k_nest(w, task, actor, tag):
    g = w.req(UP.Get(w.store), tag)
    c = UP.Get(w.cont, 2.0)
    w.cgets.append((c, 2.0))
    yield UP.All(UP.Any(g, UP.Wait(1.0)), UP.Any(c, UP.Wait(2.0)))
    if not g.is_complete():
        g.cancel()
    if not c.is_complete():
        c.cancel()


def k_routine(w, task, actor, tag):
    r = yield Fetch(w, tag)
    w.log((tag, r))


class LoggedWindow(UP.WindowedGet):
    """WindowedGet that tells the harness about its requests and returns."""

    def __init__(self, w, tag, **kw):
        super().__init__(w.store, 1.5, **kw)
        self.w, self.tag = w, tag

    def run(self):
        gen = super().run()
        try:
            e = next(gen)
            while True:
                for x in e.events:
                    if isinstance(x, UP.Get):
                        self.w.reqs.append(x)
                v = yield e
                e = gen.send(v)
        except StopIteration as s:
            return s.value

    def cancel(self):
        self.w.cancelling += 1
        first = True
        for e in super().cancel():
            if first:
                # everything the routine holds is now on its way back
                first = False
                back = [e.put_object] + list(self.result)
                for r in list(self.w.reqs):
                    if not isinstance(r, SIM.Event) and World._finished(r) and any(
                            World._value(r) is b for b in back):
                        self.w.reqs.remove(r)
                self.w.in_hand += back
            yield e
            self.w.in_hand.remove(e.put_object)
        self.w.cancelling -= 1


def k_wget(w, task, actor, tag):
    r = yield LoggedWindow(w, tag)
    w.log((tag, tuple(r)))


def k_proc(w, task, actor, tag):
    def other():
        try:
            yield w.env.timeout(1.0)
            w.log((tag, "proc-finished"))
        except SIM.Interrupt as i:
            w.cancel_calls.append((w.env.now, ("proc", i.cause)))
    p = w.env.process(other())
    w.procs.append(p)
    yield p


KINDS = {
    "wait": k_wait, "get": k_get, "fget": k_fget, "sget": k_sget, "cget": k_cget,
    "put": k_put, "cput": k_cput, "hold": k_hold, "event": k_event, "kevent": k_kevent, "any_kevent": k_any_kevent,
    "any_gw": k_any_gw, "any_ge": k_any_ge, "any_rewait": k_any_rewait, "all_gw": k_all_gw,
    "all_eg": k_all_eg, "nest": k_nest, "routine": k_routine, "wget": k_wget, "proc": k_proc,
}
NAMES = list(KINDS)
SECOND = ["wait", "get", "nest", "routine", "kevent", "hold"]
