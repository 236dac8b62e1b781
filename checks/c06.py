"""C06: Any/All over every expression tree.

Real tasks yield every tree of Any/All over waits, events, store gets and
processes with completion times from a small grid (ties included), then keep
re-yielding the unfinished leaves until all are done.
"""
import simpy as SIM
import upstage_des.api as UP
from mc.engine import Harness
from mc.sim import drive

BOUNDS = {"quick": "all trees over 2 and 3 leaves, 9 leaf types/times, created at the yield or one time unit before, "
                   "remaining leaves re-yielded with Any or All, or the same object yielded again first",
          "thorough": "additionally all trees over 4 leaves"}
ORACLE = "min/max of the leaf completion times; reported flags must agree with them and explain the resumption"
LEAVES = [("w", 0.0), ("w", 1.0), ("w", 2.0), ("e", 1.0), ("e", 2.0), ("g", 1.0), ("g", 2.0), ("p", 1.0), ("p", 2.0)]


def complete(ev):
    """A wait that was never started has no answer."""
    try:
        return ev.is_complete()
    except UP.UpstageError:
        if isinstance(ev, UP.Wait):
            return False
        raise


class Act(UP.Actor):
    pass


def shapes(n):
    if n == 2:
        return [(o, 0, 1) for o in ("Any", "All")]
    if n == 3:
        out = []
        for o in ("Any", "All"):
            out.append((o, 0, 1, 2))
            for q in ("Any", "All"):
                out += [(o, 0, (q, 1, 2)), (o, (q, 0, 1), 2)]
        return out
    out = []
    for o in ("Any", "All"):
        out.append((o, 0, 1, 2, 3))
        for q in ("Any", "All"):
            out += [(o, 0, (q, 1, 2, 3))]
            for r in ("Any", "All"):
                out += [(o, (q, 0, 1), (r, 2, 3)), (o, 0, (q, 1, (r, 2, 3)))]
    return out


def node_time(sh, times):
    if isinstance(sh, int):
        return times[sh]
    ts = [node_time(s, times) for s in sh[1:]]
    return min(ts) if sh[0] == "Any" else max(ts)


def node_flag(sh, flags):
    if isinstance(sh, int):
        return flags[sh]
    fs = [node_flag(s, flags) for s in sh[1:]]
    return any(fs) if sh[0] == "Any" else all(fs)


class T(UP.Task):
    def task(self, *, actor):
        w = self.w
        env = actor.env
        if w["early"]:
            self.make()
            yield UP.Wait(1.0)
        else:
            self.make()
        nodes = []

        def build(sh):
            if isinstance(sh, int):
                return w["leaf"][sh]
            ev = getattr(UP, sh[0])(*[build(s) for s in sh[1:]])
            nodes.append((sh, ev))
            return ev
        top = build(w["shape"])
        yield top
        w["rounds"].append((env.now, list(range(len(w["leaf"]))), w["shape"], self.flags(), list(w["times"])))
        w["nodes"] = [(sh, ev.is_complete()) for sh, ev in nodes]
        if w["rest"] == "same":
            # the very same object once more: completed events start a new cycle
            before = self.flags()
            for i, (k, d) in enumerate(w["spec"]):
                if k == "e" and before[i]:
                    w["times"][i] = d + 4.0
            yield top
            w["rounds"].append((env.now, None, w["shape"], self.flags(), list(w["times"])))
            w["rest"] = "All"
        for _ in range(5):
            left = [i for i, f in enumerate(self.flags()) if not f]
            if not left:
                break
            evs = [w["leaf"][i] for i in left]
            if len(left) == 1 and not isinstance(evs[0], SIM.Process) and w["rest"] == "All":
                yield evs[0]
                sh = ("All", left[0])
            else:
                yield getattr(UP, w["rest"])(*evs)
                sh = (w["rest"], *left)
            w["rounds"].append((env.now, left, sh, self.flags(), list(w["times"])))

    def flags(self):
        out = []
        for ev in self.w["leaf"]:
            out.append(ev.processed if isinstance(ev, SIM.Process) else
                       complete(ev))
        return out

    def make(self):
        w = self.w
        for i, (k, d) in enumerate(w["spec"]):
            if k == "w":
                w["leaf"].append(UP.Wait(d))
            elif k == "e":
                w["leaf"].append(UP.Event(auto_reset=w["auto"]))
            elif k == "g":
                w["leaf"].append(UP.Get(w["stores"][i]))
            else:
                def pr(t=d - w["env"].now):
                    yield w["env"].timeout(t)
                w["leaf"].append(w["env"].process(pr()))


def run(ctx, n):
    shape = ctx.choose(shapes(n), "tree")
    spec = [ctx.choose(LEAVES, f"leaf{i}") for i in range(n)]
    rest = ctx.choose(("Any", "All", "same"), "rest")
    early = ctx.choose((False, True), "early")
    if early and any(d <= 1.0 for k, d in spec if k != "w"):
        # an event completed before its first yield starts a new cycle: covered by C07
        spec = [(k, d + 1.0) if k != "w" else (k, d) for k, d in spec]
    off = 1.0 if early else 0.0
    times0 = [off + d if k == "w" else d for k, d in spec]
    times = list(times0)
    same = rest == "same"
    with UP.EnvironmentContext() as env:
        w = {"spec": spec, "shape": shape, "rest": rest, "early": early, "leaf": [], "rounds": [],
             "auto": True, "env": env, "stores": {}, "nodes": [], "times": times}
        late = []
        for i, (k, d) in enumerate(spec):
            if k == "g":
                w["stores"][i] = SIM.Store(env)
        t = T()
        t.w = w
        proc = t.run(actor=Act(name="A"))

        def feeder(i, k, d):
            yield env.timeout(d)
            if k == "e":
                w["leaf"][i].succeed(n=i)
                if same:
                    yield env.timeout(4.0)
                    if not w["leaf"][i].is_complete():
                        w["leaf"][i].succeed(n=i)
            else:
                w["stores"][i].put(("first", i))

        def rival(i):
            # asks later than the task: must never be served first
            yield env.timeout(max(0.0, min(off + 0.5, times[i] - 0.25)))
            g = w["stores"][i].get()
            v = yield g
            late.append((env.now, i, v))
        for i, (k, d) in enumerate(spec):
            if k in "eg":
                env.process(feeder(i, k, d))
            if k == "g":
                env.process(rival(i))
        drive(ctx, env, 20.0)
        ctx.check(not proc.is_alive and proc.ok, f"task did not finish: {w['rounds']}", "unfinished")
        for r, (now, left, sh, flags, times) in enumerate(w["rounds"]):
            exp = max(node_time(sh, times), w["rounds"][r - 1][0] if r else 0.0)
            ctx.eq(now, exp, f"round {r} of {sh} over {spec} resumed", key="resume-time")
            for i, f in enumerate(flags):
                if times[i] < now:
                    ctx.check(f, f"leaf {spec[i]} not complete at {now}", "flag")
                elif times[i] > now:
                    ctx.check(not f, f"leaf {spec[i]} complete at {now}", "flag")
            ctx.check(node_flag(sh, flags), f"resumed at {now} but flags {flags} do not satisfy {sh}", "flag")
        now = w["rounds"][0][0]
        for sh, f in w["nodes"]:
            nt = node_time(sh, times0)
            if nt != now:
                ctx.eq(f, nt < now, f"is_complete of {sh} at {now}", key="node-flag")
        for i, (k, d) in enumerate(spec):
            if k == "g":
                ctx.eq(w["leaf"][i].get_value(), ("first", i), "value got", key="value")
            elif k == "e":
                ctx.eq(w["leaf"][i].get_payload(), {"n": i}, "payload", key="value")
        ctx.eq(late, [], "rival served before the task", key="place-lost")
        ctx.state((shape, spec, w["rounds"]))
        ctx.outcome([(r[0], r[3]) for r in w["rounds"]])


def harnesses(tier):
    hs = [Harness("two", run, n=2), Harness("three", run, n=3)]
    if tier == "thorough":
        hs.append(Harness("four", run, n=4))
    return hs
