"""Small helpers to run real simulations one kernel event at a time."""
import simpy as SIM
import upstage_des.api as UP

INF = float("inf")


def drive(ctx, env, horizon, before=None, quiet=None, limit=4000):
    """Step the real kernel until `horizon`, calling `before` at every event boundary.

    `before()` runs at every boundary between two kernel events (also after the
    last), `quiet(now)` whenever all events of one instant have been processed.
    """
    n = 0
    while True:
        if before is not None:
            before()
        nxt = env.peek()
        if quiet is not None and nxt > env.now:
            quiet(env.now)
            nxt = env.peek()
        if nxt == INF or nxt > horizon:
            return n
        env.step()
        n += 1
        ctx.step()
        if n > limit:
            ctx.fail(f"livelock: more than {limit} kernel events before t={horizon}", "livelock")


def ticks(env, times):
    """Extra empty instants so that interrupts can land between model events."""
    for t in times:
        if t >= env.now:
            env.timeout(t - env.now)


class Injector:
    """Chooses, at every event boundary, whether to interrupt `proc` there."""

    def __init__(self, ctx, env, get_proc, budget=1, causes=("stop",), send=None, label="INT"):
        self.ctx, self.env, self.get_proc = ctx, env, get_proc
        self.left, self.causes, self.send, self.label = budget, causes, send, label
        self.sent = []        # (time, cause)

    def __call__(self):
        while self.left > 0:
            p = self.get_proc()
            if p is None or not p.is_alive:
                return
            pick = self.ctx.choose([None] + list(self.causes))
            if pick is None:
                return
            self.ctx.note(f"{self.label}@{self.env.now}:{pick}")
            self.left -= 1
            self.sent.append((self.env.now, pick))
            if self.send is not None:
                self.send(pick)
            else:
                p.interrupt(cause=pick)


def err(fn, *types):
    """Call fn; give ('ok', value) or ('err', None) for the exception types."""
    types = types or (Exception,)
    try:
        return "ok", fn()
    except types:
        return "err", None
