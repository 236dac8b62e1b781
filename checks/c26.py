"""C26: point-to-point communications deliver each message once, or drop it.

Part one: all schedules of messages (manager, link, form, time) and of changes
to what is blocked, against a direct computation of the retries.  Part two: a
task that sends is interrupted (ended, restarted, ignored) at every event
boundary.
"""
import simpy as SIM
import upstage_des.api as UP
from upstage_des.communications.comms import Message, MessageContent, PointToPointCommsManager
from upstage_des.communications.processes import generate_comms_wait

from mc.engine import Harness
from mc.sim import Injector, drive

BOUNDS = {"quick": "3 actors, 2 managers (modes) with 5 combinations of delay, retry time and rate; 1 message of 10 forms x links with every schedule of 2 blocking changes (6 kinds "
                   "x 6 times), 2 messages with every schedule of 1; senders: 6 bodies x 3 reactions x an interrupt at every event boundary; 2 of 12 odd payloads x 5 readers; 3 messages into a store of limited capacity; every set of blocked nodes and 3 links among 4 actors, with names shared or not",
          "thorough": "3 odd payloads; 4 messages into a narrow store; 3 changes with 1 message, 2 with 2 messages, 1 with 3 messages; 2 interrupts"}
ORACLE = "direct computation of attempts at send + k * rate"


class X(UP.Actor):
    horn = UP.CommunicationStore(modes=["loud"])
    walkie = UP.CommunicationStore(modes=["uhf", "hf"])
    box = UP.ResourceState(default=SIM.Store)


# send time, retry time, retry rate
SETTINGS = [(0.0, 1.0, 0.5), (0.5, 1.0, 0.5), (1.0, 0.0, 0.5), (0.25, 1.25, 0.5), (0.0, 2.0, 1.0)]
BLOCKS = ("degraded", "link", "back link", "other link", "source", "destination")
TIMES = (-1.0, 0.1, 0.6, 1.1, 1.6, 2.1)


def attempt(blocked, t, setting):
    """(delivery time or None) for a message handed over at t."""
    send, most, rate = setting
    k = 0
    while blocked(t + k * rate):
        if k * rate >= most:
            return None
        k += 1
    return t + k * rate + send


class Net:
    def __init__(self, ctx, env, setting, connect):
        self.ctx, self.env, self.setting = ctx, env, setting
        self.x = {n: X(name=n) for n in "abc"}
        send, most, rate = setting
        kw = dict(send_time=send, retry_max_time=most, retry_rate=rate)
        self.mgr = {"uhf": PointToPointCommsManager(name="U", mode="uhf", debug_logging=True, **kw), "loud": PointToPointCommsManager(name="L", mode="loud", **kw)}
        if connect == "init":
            self.mgr["uhf"] = PointToPointCommsManager(name="U", mode="uhf", init_entities=[(self.x["b"], "box")], **kw)
        elif connect == "connect":
            self.mgr["uhf"].connect(self.x["b"], "box")
        for m in self.mgr.values():
            m.run()
        self.boxes = {("uhf", n): (self.x[n].box if connect and n == "b" else self.x[n].walkie) for n in "abc"}
        self.boxes.update({("loud", n): self.x[n].horn for n in "abc"})
        self.changes = []        # (time, kind): each one flips

    def flip(self, kind):
        m, x = self.mgr["uhf"], self.x
        if kind == "degraded":
            m.comms_degraded = not m.comms_degraded
            return
        where, what = {"link": (m.blocked_links, (x["a"], x["b"])), "back link": (m.blocked_links, (x["b"], x["a"])), "other link": (m.blocked_links, (x["a"], x["c"])),
                       "source": (m.blocked_nodes, x["a"]), "destination": (m.blocked_nodes, x["b"])}[kind]
        if what in where:
            where.remove(what)
        else:
            where.append(what)

    def blocked(self, mode, u, v, t):
        """Whether the link is blocked at time t, by the schedule."""
        if mode != "uhf":
            return False
        on = {k: sum(1 for c, kind in self.changes if kind == k and c <= t) % 2 for k in BLOCKS}
        return bool(on["degraded"] or (on["link"] and (u, v) == ("a", "b")) or (on["back link"] and (u, v) == ("b", "a"))
                    or (on["other link"] and (u, v) == ("a", "c")) or (on["source"] and "a" in (u, v)) or (on["destination"] and "b" in (u, v)))


FORMS = ("text", "dict", "content", "message")


def make(net, form, mode, u, v, i):
    x, data = net.x, {"i": i, "list": [i]}
    if form == "text":
        msg = f"text {i}"
    elif form == "dict":
        msg = data
    elif form == "content":
        msg = MessageContent(data=data, message="m")
    else:
        msg = Message(sender=x[u], content=MessageContent(data=data), destination=x[v], header="h", mode=mode)
    return msg, net.mgr[mode].make_put(msg, x[u], x[v])


def verify(ctx, net, got, msg, form, mode, u, v, sent):
    x = net.x
    ctx.check(isinstance(got, Message), lambda: f"{got!r} is no message", "kind")
    ctx.check(got.sender is x[u] and got.destination is x[v], "sender or destination changed", "ends")
    ctx.eq(got.mode, mode, "mode", "mode")
    if form == "message":
        ctx.check(got is msg and got.header == "h", "another message arrived", "content")
    elif form == "content":
        ctx.check(got.content is msg or (got.content.data == msg.data and got.content.message == "m"), "content", "content")
    elif form == "text":
        ctx.eq((got.content.message, got.content.data), (msg, {}), "content", "content")
    else:
        ctx.eq((got.content.message, got.content.data), (None, msg), "content", "content")
    ctx.close(got.time_sent, sent, "time sent", key="time sent")


LINKS = [("uhf", "a", "b"), ("uhf", "b", "a"), ("uhf", "a", "c"), ("uhf", "c", "b"), ("loud", "a", "b"), ("uhf", "a", "a")]
MORE = [("uhf", "a", "b"), ("uhf", "b", "a"), ("loud", "a", "b"), ("uhf", "c", "a")]


def schedule(ctx, settings, messages, changes, links, forms, kinds):
    setting = ctx.choose(settings, "setting")
    connect = ctx.choose((None, "connect", "init") if messages == 1 else (None,), "connected")
    plan, last = [], 0.0
    for i in range(messages):
        mode, u, v = ctx.choose(links, "link")
        form = ctx.choose(forms, "form") if i == 0 else "dict"
        t = ctx.choose((0.0, 0.5, 1.0)[(0.0, 0.5, 1.0).index(last):] if i else (0.0, 0.5), "time")
        last = t
        plan.append((t, form, mode, u, v))
    with UP.EnvironmentContext() as env:
        net = Net(ctx, env, setting, connect)
        k = 0
        for i in range(changes):
            slots = [None] + [(t, kind) for t in TIMES[k:] for kind in kinds]
            pick = ctx.choose(slots, "change")
            if pick is None:
                break
            k = TIMES.index(pick[0])
            net.changes.append(pick)
        for t, kind in net.changes:
            if t < 0:
                net.flip(kind)
            else:
                env.timeout(t).callbacks.append(lambda _, kind=kind: net.flip(kind))
        made, arrivals = [], []

        def sender():
            for i, (t, form, mode, u, v) in enumerate(plan):
                if t > env.now:
                    yield env.timeout(t - env.now)
                msg, put = make(net, form, mode, u, v, i)
                made.append(msg)
                yield put.as_event()

        env.process(sender())
        seen = set()

        def look(now):
            for key, store in net.boxes.items():
                for m in store.items:
                    if id(m) not in seen:
                        seen.add(id(m))
                        arrivals.append((now, key, m))
        drive(ctx, env, 20.0, quiet=look)
        look(env.now)
        ctx.check(len(arrivals) == sum(len(s.items) for s in set(net.boxes.values())), "a message is in a store twice", "twice")
        for key in ("walkie", "horn", "box"):
            for n in "abc":
                for m in getattr(net.x[n], key).items:
                    ctx.check(any(m is a[2] for a in arrivals), "a message in a wrong store", "store")
        left = list(arrivals)
        fate = []
        for i, (t, form, mode, u, v) in enumerate(plan):
            when = attempt(lambda at: net.blocked(mode, u, v, at), t, setting)
            fate.append(when)
            mine = [a for a in left if a[2] is made[i] or a[2].content is made[i] or (a[2].content.data.get("i") == i) or (form == "text" and a[2].content.message == made[i])]
            if when is None:
                ctx.check(not mine, lambda: f"message {i} arrived at {mine[0][0]}, should be dropped", "dropped")
                continue
            ctx.check(len(mine) == 1, lambda: f"message {i} ({plan[i]}) arrived {len(mine)} times, due at {when}", "count")
            now, (m2, dest), got = mine[0]
            left.remove(mine[0])
            ctx.close(now, when, f"arrival of message {i}", key="time")
            ctx.eq((m2, dest), (mode, v), "store", "store")
            verify(ctx, net, got, made[i], form, mode, u, v, when)
        ctx.check(not left, lambda: f"extra messages {left}", "extra")
        ctx.state((setting, plan, net.changes))
        ctx.outcome(tuple(fate))


# ---------------------------------------------------------------- unusual messages, stores, callbacks
class Y(UP.Actor):
    mute = UP.CommunicationStore(modes=[])
    near = UP.CommunicationStore(modes=["uhf2", "u"])
    far = UP.CommunicationStore(modes=["uhf"])


PAYLOADS = ("", "text", {}, {"message": "x"}, {"data": None}, MessageContent({}, ""), MessageContent({}, "m"), MessageContent({}), MessageContent({"k": 0}, ""))


def payloads(ctx, n):
    """Empty and odd contents, forwarded and repeated messages, and callbacks of any result, one after the other."""
    picks = [ctx.choose(list(range(len(PAYLOADS))) + ["forward", "again", "other", "addressed"], "payload") for _ in range(n)]
    reader = ctx.choose(("none", "none result", "false", "true", "content"), "reader")
    gap = ctx.choose((0.0, 0.5), "gap")
    delay = ctx.choose((0.0, 0.5), "delay")
    with UP.EnvironmentContext() as env:
        y = {k: Y(name=k) for k in "abc"}
        m = PointToPointCommsManager(name="U", mode="uhf", send_time=delay)
        m.run()
        sent, got, due = [], [], []

        def source():
            for k in picks:
                if k == "forward":      # a message of c is handed on by a
                    msg = Message(sender=y["c"], content=MessageContent({"f": 1}), destination=y["b"], header="h", mode="other")
                elif k == "addressed":  # the message's own destination counts
                    msg = Message(sender=y["a"], content=MessageContent({"to": "b"}), destination=y["b"])
                elif k == "again" and sent and isinstance(sent[-1][0], Message):
                    msg = sent[-1][0]
                elif k in ("again", "other"):
                    msg = Message(sender=y["a"], content=MessageContent({}), destination=y["b"], time_sent=0.0 if k == "other" else 7.0, time_received=3.0)
                else:
                    msg = PAYLOADS[k]
                put = m.make_put(msg, y["a"], y["c" if k == "addressed" else "b"])
                sent.append((msg, put))
                due.append(env.now + delay)
                yield put.as_event()
                if gap:
                    yield env.timeout(gap)
        env.process(source())
        if reader != "none":
            def callback(content):
                got.append((env.now, content))
                return {"none result": None, "false": False, "true": True, "content": content}[reader]
            generate_comms_wait(y["b"].far, callback)()
        seen = {}

        def look(now):
            for i, x in enumerate(y["b"].far.items):
                seen.setdefault(i, (now, x, x.time_sent if isinstance(x, Message) else None))
        drive(ctx, env, 10.0, quiet=look)
        ctx.check(not any(y[k].far.items for k in "ac") and not any(y[k].near.items or y[k].mute.items for k in "abc"), "a message in a wrong store", "store")
        if reader == "none":
            ctx.eq(len(seen), n, "messages delivered", "count")
            for (now, x, at), (msg, _), when in zip([seen[i] for i in range(n)], sent, due):
                ctx.close(now, when, "arrival", key="time")
                ctx.close(at, when, "time sent", key="time sent")
                if isinstance(msg, Message):
                    ctx.check(x is msg and x.destination is y["b"], "another message arrived", "content")
                    ctx.check(x.sender is (y["c"] if msg.header == "h" else y["a"]), "sender changed", "ends")
                    ctx.eq((x.mode, x.header), ("other", "h") if msg.header == "h" else (None, None), "message", "mode")
                else:
                    ctx.check(isinstance(x, Message) and x.sender is y["a"] and x.destination is y["b"] and x.mode == "uhf", "message", "ends")
            items = [(a, x.content) for a, x, _ in seen.values()]
        else:
            ctx.check(not y["b"].far.items, "a message left with a reader", "count")
            items = got
        ctx.eq(len(items), n, "messages delivered", "count")
        for (now, c), (msg, _), when in zip(items, sent, due):
            ctx.close(now, when, "arrival", key="time")
            ctx.check(isinstance(c, MessageContent), lambda: f"content {c!r}", "content")
            want = (msg.content.data, msg.content.message) if isinstance(msg, Message) else (msg.data, msg.message) if isinstance(msg, MessageContent) \
                else (msg, None) if isinstance(msg, dict) else ({}, msg)
            ctx.eq((c.data, c.message), want, "content", "content")
        ctx.state((picks, reader, gap, delay))
        ctx.outcome(len(items))


def narrow(ctx, n):
    """A receiver's store with room for one message: the others wait, in order, and none is lost."""
    times = []
    for _ in range(n):
        times.append(ctx.choose([t for t in (0.0, 0.5, 1.0) if not times or t >= times[-1]], "sent"))
    takes, cap = [], ctx.choose((1, 2), "capacity")
    for _ in range(n):
        takes.append(ctx.choose([t for t in (0.5, 1.25, 2.0) if not takes or t >= takes[-1]], "taken"))
    read = ctx.choose(("get", "callback", "task"), "reader")
    with UP.EnvironmentContext() as env:
        class Z(UP.Actor):
            inbox = UP.CommunicationStore(modes=["uhf"])
        a, b = Z(name="a"), Z(name="b", inbox={"modes": ["uhf"], "capacity": cap})
        m = PointToPointCommsManager(name="U", mode="uhf")
        m.run()

        def source():
            for i, t in enumerate(times):
                if t > env.now:
                    yield env.timeout(t - env.now)
                yield m.make_put({"i": i}, a, b).as_event()
        env.process(source())
        got = []
        if read == "get":
            def taker():
                for t in takes:
                    if t > env.now:
                        yield env.timeout(t - env.now)
                    x = yield b.inbox.get()
                    got.append((env.now, x.content.data["i"]))
            env.process(taker())
            want, now = [], 0.0
            for i, t in enumerate(times):
                now = max(now, t, takes[i])
                want.append((now, i))
        elif read == "callback":
            env.timeout(takes[0]).callbacks.append(lambda _: generate_comms_wait(b.inbox, lambda c: got.append((env.now, c.data["i"])))())
            want = [(max(t, takes[0]), i) for i, t in enumerate(times)]
        else:
            class Reader(UP.Task):
                def task(self, *, actor):
                    yield UP.Wait(takes[0])
                    while True:
                        x = yield UP.Get(actor.inbox)
                        got.append((self.env.now, x.content.data["i"]))
            Reader().run(actor=b)
            want = [(max(t, takes[0]), i) for i, t in enumerate(times)]
        drive(ctx, env, 10.0, quiet=lambda now: ctx.check(len(b.inbox.items) <= cap, "above capacity", "capacity"))
        ctx.eq(got, want, "messages read", "count")
        ctx.state((times, takes, cap, read))
        ctx.outcome(len(got))


def crowd(ctx):
    """Any set of blocked nodes and links among four actors: exactly the messages over a blocked one are dropped."""
    names = "abcd"
    nodes = [k for k in names if ctx.flag(f"{k} blocked")]
    pairs = [(u, v) for u in names for v in names if u != v]
    links = [ctx.choose([None] + pairs, "link") for _ in range(2)] + [("d", "c")]
    links = [x for x in links if x]
    shown = ctx.choose(("abcd", "aabb"), "shown names") if len(nodes) < 2 else "abcd"      # actors may have the same name
    with UP.EnvironmentContext() as env:
        y = {k: Y(name=s) for k, s in zip(names, shown)}
        m = PointToPointCommsManager(name="U", mode="uhf", retry_max_time=1.0, retry_rate=0.5)
        m.blocked_nodes.extend(y[k] for k in nodes)
        m.blocked_links.extend((y[u], y[v]) for u, v in links)
        m.run()
        for u, v in pairs:
            env.process(iter_put(m.make_put({"k": u + v}, y[u], y[v])))
        drive(ctx, env, 5.0)
        got = sorted(x.content.data["k"] for k in names for x in y[k].far.items)
        ctx.eq(got, sorted(u + v for u, v in pairs if u not in nodes and v not in nodes and (u, v) not in links), "messages delivered", "blocked")
        ctx.check(all(x.content.data["k"][1] == k for k in names for x in y[k].far.items), "a message in a wrong store", "store")
        ctx.state((nodes, links, shown))
        ctx.outcome(len(got))


def iter_put(put):
    yield put.as_event()


# ---------------------------------------------------------------- senders
class Send(UP.Task):
    def task(self, *, actor):
        w = self.stage.w
        w.starts += 1
        n = w.starts
        body = w.body
        if body == "wait, send":
            yield UP.Wait(1.0)
        if body in ("send", "wait, send", "send, wait"):
            yield w.send(n)
        if body == "send, wait":
            yield UP.Wait(1.0)
        elif body == "send twice":
            yield w.send(n)
            yield w.send(n)
        elif body == "with wait":
            yield UP.All(w.send(n), UP.Wait(1.0))
        elif body == "or wait":
            yield UP.Any(UP.Wait(0.5), w.send(n), UP.Event())
            yield UP.Wait(0.5)

    def on_interrupt(self, *, actor, cause):
        return getattr(self.INTERRUPT, cause)


class World:
    starts = 0


def senders(ctx, budget, react):
    setting = ctx.choose(SETTINGS[:3], "setting")
    body = ctx.choose(("send", "wait, send", "send, wait", "send twice", "with wait", "or wait"), "body")
    blocked = ctx.flag("blocked at first")
    receiver = ctx.choose(("none", "callback", "get"), "receiver")
    with UP.EnvironmentContext() as env:
        net = Net(ctx, env, setting, None)
        w = World()
        UP.add_stage_variable("w", w)
        w.body = body
        sent = []

        def send(n):
            # a yielded put is accepted at once: the manager's queue has no limit
            i = len(sent)
            sent.append(env.now)
            return net.mgr["uhf"].make_put({"i": i}, net.x["a"], net.x["b"])
        w.send = send
        got = []
        store = net.x["b"].walkie
        if receiver == "callback":
            generate_comms_wait(store, lambda content: got.append((env.now, content.data["i"])))()
        elif receiver == "get":
            class Take(UP.Task):
                def task(self, *, actor):
                    while True:
                        m = yield UP.Get(actor.walkie)
                        got.append((env.now, m.content.data["i"]))
            Take().run(actor=net.x["b"])
        if blocked:
            net.changes = [(-1.0, "link"), (0.6, "link")]
            net.flip("link")
            env.timeout(0.6).callbacks.append(lambda _: net.flip("link"))
        rehearsed = Send().rehearse(actor=net.x["a"])
        ctx.check(rehearsed is not net.x["a"], "clone", "clone")
        ctx.check(not net.mgr["uhf"].incoming.items, "a rehearsal sends", "rehearsal")
        sent.clear()
        w.starts = 0
        proc = []
        task = Send()
        proc.append(task.run(actor=net.x["a"]))
        drive(ctx, env, 12.0, before=Injector(ctx, env, lambda: proc[0], budget=budget, causes=react))
        if receiver == "none":
            got = [(None, m.content.data["i"]) for m in store.items]
        due = {}
        for i, t in enumerate(sent):
            when = attempt(lambda at: net.blocked("uhf", "a", "b", at), t, setting)
            if when is not None:
                due[i] = when
        ctx.eq(sorted(i for _, i in got), sorted(due), "messages delivered", "count")
        if receiver != "none":
            for t, i in got:
                ctx.close(t, due[i], f"arrival of {i}", key="time")
        ctx.state((setting, body, blocked, receiver, sent))
        ctx.outcome(len(got))


def harnesses(tier):
    react = ("END", "IGNORE", "RESTART")
    if tier == "quick":
        return [Harness("one", schedule, settings=SETTINGS, messages=1, changes=2, links=LINKS[:5], forms=FORMS[1:2], kinds=BLOCKS),
                Harness("forms", schedule, settings=SETTINGS, messages=1, changes=1, links=LINKS, forms=FORMS, kinds=BLOCKS[:2]),
                Harness("two", schedule, settings=SETTINGS, messages=2, changes=1, links=LINKS, forms=FORMS[:1], kinds=BLOCKS),
                Harness("payloads", payloads, n=2), Harness("narrow", narrow, n=3), Harness("crowd", crowd),
                Harness("senders", senders, budget=1, react=react)]
    return [Harness("payloads", payloads, n=3), Harness("narrow", narrow, n=4), Harness("crowd", crowd),
            Harness("one", schedule, settings=SETTINGS, messages=1, changes=3, links=LINKS[:2], forms=FORMS[1:2], kinds=BLOCKS),
            Harness("forms", schedule, settings=SETTINGS, messages=1, changes=2, links=LINKS, forms=FORMS, kinds=BLOCKS[:2]),
            Harness("two", schedule, settings=SETTINGS, messages=2, changes=2, links=MORE, forms=FORMS[:1], kinds=BLOCKS),
            Harness("three", schedule, settings=SETTINGS, messages=3, changes=1, links=LINKS[:5], forms=FORMS[1:2], kinds=BLOCKS[:4]),
            Harness("senders", senders, budget=2, react=react)]
