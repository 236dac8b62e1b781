"""C27: routed messages follow shortest live paths, replan and give up.

All small networks, with every choice of what is blocked and when.  The
reference computes the set of all arrival times that the documented procedure
can give (a tie between shortest paths may be broken either way); every single
routing decision is compared with a breadth-first search as well.
"""
import upstage_des.api as UP

from mc.engine import Harness
from mc.sim import drive

BOUNDS = {"quick": "all 4096 networks of 4 nodes without blocking, two-way networks of 4 nodes with 1 block; all 512 networks of 9 edges from A to D x 1 blocked node or link x 5 time windows x both replanning modes; 8 chosen "
                   "networks (to 8 nodes) with 2 blocks and with 2 messages; a 7-node network x 3 nodes failing in 5 windows each",
          "thorough": "2 blocks in all 512 networks, 3 in the chosen, 5-node two-way networks with 1 block, 5 nodes failing"}
ORACLE = "set of outcomes of the documented procedure; breadth-first distances for each hop"


class Node(UP.Actor):
    other = UP.CommunicationStore(modes=["other"])
    msgs = UP.CommunicationStore(modes=["net"])


def distances(edges, goal, ignore=()):
    """Hops to the goal over nodes not ignored (the goal itself may be the start)."""
    dist, todo = ({goal: 0}, [goal]) if goal not in ignore else ({}, [])
    for n in todo:
        for u, v in edges:
            if v == n and u not in dist:
                dist[u] = dist[n] + 1
                if u not in ignore:
                    todo.append(u)
    return dist


def next_hops(edges, at, goal, ignore):
    dist = distances(edges, goal, ignore)
    ok = [v for u, v in edges if u == at and v not in ignore and v in dist]
    best = min((dist[v] for v in ok), default=None)
    return {v for v in ok if dist[v] == best}


class Manager(UP.RoutingTableCommsManager):
    def select_hop(self, source, dest, ignore_nodes=None):
        hop = super().select_hop(source, dest, ignore_nodes)
        w = self.w
        allowed = next_hops(w.edges, source.name, dest.name, {n.name for n in ignore_nodes or ()})
        w.hops += 1
        if hop is None:
            w.ctx.check(not allowed, lambda: f"no hop from {source.name} to {dest.name}, could be {allowed}", "hop")
        else:
            w.ctx.check(hop is w.nodes.get(hop.name) and hop.name in allowed,
                        lambda: f"hop from {source.name} to {dest.name} is {hop.name}, not on a shortest path: {allowed} (ignored: {ignore_nodes})", "hop")
        return hop


END = 12.0


class World:
    def __init__(self, ctx, edges, setting, forget, blocks):
        self.ctx, self.edges, self.setting, self.forget, self.blocks, self.hops = ctx, edges, setting, forget, blocks, 0
        self.memo = {}

    def blocked(self, u, v, t):
        return any((w == u or w == v or w == u + v or w == "*") and a <= t < b for w, a, b in self.blocks)

    def outcomes(self, at, goal, t, failed=frozenset()):
        """All times at which a message at `at` can arrive (None: dropped, END: too late)."""
        if at == goal:
            return {t}
        if t > END:
            return {END}
        key = at, goal, t, failed
        if key in self.memo:
            return self.memo[key]
        send, most, rate = self.setting
        out = set()
        hops = next_hops(self.edges, at, goal, failed)
        if not hops:
            out = {None}
        for hop in hops:
            k = 0
            while self.blocked(at, hop, t + k * rate) and k * rate < most:
                k += 1
            if self.blocked(at, hop, t + k * rate):
                out |= self.outcomes(at, goal, t + k * rate, failed | {hop})
            else:
                out |= self.outcomes(hop, goal, t + k * rate + send, frozenset() if self.forget else failed)
        self.memo[key] = out
        return out


def simulate(ctx, w, messages, two_way=False):
    send, most, rate = w.setting
    with UP.EnvironmentContext() as env:
        names = sorted({n for e in w.edges for n in e} | {n for m in messages for n in m[:2]})
        w.nodes = {n: Node(name=n) for n in names}
        mgr = Manager(name="M", mode="net", send_time=send, retry_max_time=most, retry_rate=rate, global_ignore=not w.forget)
        mgr.w = w
        done = set()
        for u, v in w.edges:
            if two_way and v + u in done:
                continue
            done.add(u + v)
            mgr.connect_nodes(w.nodes[u], w.nodes[v], two_way=two_way)
        mgr.run()

        def change(what, on):
            if what == "*":
                mgr.comms_degraded = on
            elif len(what) == 1:
                n = w.nodes[what]
                mgr.blocked_nodes.append(n) if on else mgr.blocked_nodes.remove(n)
            else:
                e = w.nodes[what[0]], w.nodes[what[1]]
                mgr.blocked_links.append(e) if on else mgr.blocked_links.remove(e)
        for what, a, b in w.blocks:
            if not all(n in w.nodes for n in what.replace("*", "")):
                continue
            if a < 0:
                change(what, True)
            else:
                env.timeout(a).callbacks.append(lambda _, what=what: change(what, True))
            if b < END:
                env.timeout(b).callbacks.append(lambda _, what=what: change(what, False))

        def sender():
            for i, (u, v, t) in enumerate(messages):
                if t > env.now:
                    yield env.timeout(t - env.now)
                yield mgr.make_put({"i": i}, w.nodes[u], w.nodes[v]).as_event()
        env.process(sender())
        arrived = {}

        def look(now):
            for n in w.nodes.values():
                ctx.check(not n.other.items, "a message in another store", "store")
                for m in n.msgs.items:
                    if id(m) not in arrived:
                        arrived[id(m)] = (now, n.name, m)
        drive(ctx, env, END + 3, quiet=look)
        look(env.now)
        out = []
        for i, (u, v, t) in enumerate(messages):
            allowed = w.outcomes(u, v, t)
            mine = [(now, n, m) for now, n, m in arrived.values() if m.content.data["i"] == i]
            ctx.check(len(mine) <= 1, lambda: f"message {i} arrived {mine}", "twice")
            if not mine:
                ctx.check(None in allowed or END in allowed, lambda: f"message {i} {u}{v} lost, can arrive at {sorted(allowed)}", "lost")
                out.append(None)
                continue
            now, n, m = mine[0]
            out.append(now)
            ctx.eq(n, v, "destination", "destination")
            ctx.check(m.sender is w.nodes[u] and m.destination is w.nodes[v], "sender or destination changed", "ends")
            ctx.eq(m.mode, "net", "mode", "mode")
            ctx.close(m.time_sent, now, "time sent", key="time sent")
            ctx.check(now in allowed or (END in allowed and now > END), lambda: f"message {i} {u}{v} arrives at {now}, not in {allowed}", "time")
        ctx.check(sum(len(n.msgs.items) for n in w.nodes.values()) == len(arrived), "a message twice in a store", "twice")
        ctx.state((w.edges, w.blocks, w.forget, tuple(out)))
        ctx.outcome(tuple(out))


ALL = [u + v for u in "ABCD" for v in "ABCD" if u != v]
CORE = ["AB", "AC", "AD", "BC", "CB", "BD", "CD", "BA", "CA"]
WINDOWS = [(-1, 99), (-1, 0.3), (-1, 0.8), (0.6, 99), (0.6, 1.2)]
SETTINGS = [(0.5, 0.5, 0.25), (0.0, 0.5, 0.25), (0.5, 0.0, 0.25), (1.0, 0.75, 0.5)]


def graphs(ctx):
    edges = [e for e in ALL if ctx.choose((True, False))]
    setting = ctx.choose(SETTINGS[:2], "setting")
    w = World(ctx, edges, setting, True, [])
    simulate(ctx, w, [("A", "D", 0.0), ("A", "A", 0.0)])


def blocks_of(ctx, edges, n, windows, extra=("*",)):
    out, items = [], sorted(set("".join(edges))) + list(edges) + list(extra)
    k = 0
    for _ in range(n):
        if k >= len(items):
            break
        pick = ctx.choose([None] + [(it, w) for it in items[k:] for w in windows], "block")
        if pick is None:
            break
        out.append((pick[0], *pick[1]))
        k = items.index(pick[0]) + 1
    return out


def one(ctx, n, windows, settings):
    edges = [e for e in CORE if ctx.choose((True, False))]
    if not distances(edges, "D").get("A"):
        ctx.outcome("unreachable")
        return
    forget = ctx.choose((True, False), "forget failures")
    setting = ctx.choose(settings, "setting")
    blocks = blocks_of(ctx, edges, n, windows, ("*",) if setting == SETTINGS[0] else ())
    w = World(ctx, edges, setting, forget, blocks)
    simulate(ctx, w, [("A", "D", 0.0)])


def both_ways(ctx, names):
    pairs = [u + v for u in names for v in names if u < v]
    edges = []
    for e in pairs:
        if ctx.choose((True, False)):
            edges += [e, e[::-1]]
    goal = names[-1]
    if not distances(edges, goal).get("A"):
        ctx.outcome("unreachable")
        return
    blocks = blocks_of(ctx, [e for e in edges], 1, WINDOWS[:2])
    w = World(ctx, edges, SETTINGS[0], ctx.choose((True, False), "forget failures"), blocks)
    simulate(ctx, w, [("A", goal, 0.0)], two_way=True)


CHOSEN = [
    ("AB BC AD DE EF FG GH HC EB".split(), "A", "C"),
    ("AB BC AD DE EF FC".split(), "A", "C"),
    ("AB BD AC CD".split(), "A", "D"),
    ("AD AB BD BC CD".split(), "A", "D"),
    ("AB BA BC CB CD DC".split(), "A", "D"),
    ("AB BA AC CA BD DB CD DC BC CB".split(), "A", "D"),
    ("AB BC CD DE AE BE".split(), "A", "E"),
    ("AX XD AB BA BX XB BY YD".split(), "A", "D"),
]


def chosen(ctx, n, messages, windows):
    edges, u, v = ctx.choose(CHOSEN, "network")
    setting = ctx.choose(SETTINGS if messages == 1 and n < 3 else SETTINGS[:1], "setting")
    forget = ctx.choose((True, False), "forget failures")
    blocks = blocks_of(ctx, edges, n, windows)
    w = World(ctx, edges, setting, forget, blocks)
    plan = [(u, v, 0.0)]
    if messages > 1:
        names = sorted(set("".join(edges)))
        plan.append(ctx.choose([(a, b, t) for a in names for b in (u, v) if a != b for t in (0.0, 0.5)], "second"))
    simulate(ctx, w, plan)


LADDER = "SA SB SC AD BD CA CB CE EF FD".split()


def recover(ctx, names, windows):
    """Nodes of one network fail and recover while the message looks for its way round them."""
    skip = ctx.choose((None, "CA", "CB"), "without link")
    edges = [e for e in LADDER if e != skip]
    setting = ctx.choose(SETTINGS[:1] + SETTINGS[3:], "setting")
    forget = ctx.choose((True, False), "forget failures")
    blocks = [(n, *w) for n in names if (w := ctx.choose((None, *windows), n))]
    w = World(ctx, edges, setting, forget, blocks)
    simulate(ctx, w, [("S", "D", 0.0)])


def refused(ctx):
    """What must not be accepted."""
    with UP.EnvironmentContext():
        a, b = Node(name="A"), Node(name="B")

        class Deaf(UP.Actor):
            other = UP.CommunicationStore(modes=["other"])
        d = Deaf(name="D")
        m = UP.RoutingTableCommsManager(name="M", mode="net")
        for f in (lambda: m.connect(a, "msgs"), lambda: m.connect_nodes(a, d), lambda: m.connect_nodes(d, a)):
            try:
                f()
                ctx.fail("accepted", "refused")
            except UP.SimulationError:
                pass
        m.connect_nodes(a, b)
        ctx.check(m.select_hop(a, b) is b and m.select_hop(b, a) is None, "one way", "hop")


def harnesses(tier):
    base = [Harness("graphs", graphs), Harness("refused", refused), Harness("both ways", both_ways, names="ABCD"),
            Harness("recover", recover, names="ABE" if tier == "quick" else "ABCEF", windows=[(-1, 99), (-1, 0.8), (-1, 1.2), (-1, 2.2), (1.4, 99)][: 5 if tier == "quick" else 4])]
    if tier == "quick":
        return base + [Harness("one", one, n=1, windows=WINDOWS, settings=SETTINGS[:1]), Harness("chosen", chosen, n=2, messages=1, windows=WINDOWS[:1] + WINDOWS[2:4]),
                       Harness("messages", chosen, n=1, messages=2, windows=WINDOWS[:3])]
    return base + [Harness("one", one, n=1, windows=WINDOWS, settings=SETTINGS), Harness("two", one, n=2, windows=WINDOWS[:1] + WINDOWS[2:4], settings=SETTINGS[:1]),
                   Harness("five", both_ways, names="ABCDE"), Harness("chosen", chosen, n=2, messages=1, windows=WINDOWS), Harness("chosen3", chosen, n=3, messages=1, windows=WINDOWS[:2]),
                   Harness("messages", chosen, n=2, messages=2, windows=WINDOWS[:2])]
