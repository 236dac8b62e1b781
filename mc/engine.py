"""Stateless, exhaustive, replayable exploration of real upstage_des executions.

A *harness* is a function ``fn(ctx, **params)``.  Everything that is open in it
(which operation comes next, where an interrupt lands, what the environment
answers, which program is run) goes through ``ctx.choose``; nothing else may
vary.  The explorer runs the harness once for every possible sequence of
choices (depth-first, by re-execution from the start), so a finished search is
a statement about *every* behaviour of the harness within its bounds.

The oracle is inside the harness: it raises Violation (through ctx.check/eq/fail)
when the real code and the reference disagree.  Any other exception that leaves
the harness is a violation too: the reference says the run is error-free unless
the harness itself caught an expected error.
"""
import contextvars
import hashlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class NoProgress(BaseException):
    """The watchdog fired: one execution ran far beyond any plausible time."""


class BadPrefix(BaseException):
    """A recorded choice does not fit: the harness is not deterministic."""


def h64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big"
    )


class Ctx:
    """What a harness sees of the explorer."""

    def __init__(self, prefix=(), tier="quick", detail=False):
        self.prefix = list(prefix)
        self.trace = []          # [n_options, picked, label]
        self.tier = tier
        self.steps = 0
        self.states = set()
        self.notes = []          # readable history, kept for samples/replays
        self.outcome_val = None
        self.detail = detail
        self.nontrivial = True
        self.findings = []       # known-finding keys met in this execution
        self.nchecks = 0

    # -- choices ---------------------------------------------------------
    def choose(self, options, label=None):
        """Pick one of options (an int n means range(n)); option 0 is the default."""
        opts = range(options) if isinstance(options, int) else options
        n = len(opts)
        if n == 0:
            raise RuntimeError("empty choice")
        if n == 1:
            return opts[0]
        i = len(self.trace)
        if i < len(self.prefix):
            pick = self.prefix[i]
            if pick >= n:
                raise BadPrefix(f"choice {i}={pick} but only {n} options ({label})")
        else:
            pick = 0
        self.trace.append((n, pick, label))
        if label is not None:
            self.notes.append(f"{label}={opts[pick]!r}")
        return opts[pick]

    def flag(self, label=None):
        return self.choose((False, True), label)

    # -- bookkeeping -----------------------------------------------------
    def note(self, text):
        self.notes.append(str(text))

    def step(self, n=1):
        self.steps += n

    def state(self, obj):
        self.states.add(h64(obj))

    def outcome(self, obj):
        self.outcome_val = obj

    # -- oracle ----------------------------------------------------------
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        self.nchecks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def eq(self, real, ref, what, key=None):
        self.nchecks += 1
        if not (real == ref):
            raise Violation(f"{what}: real {real!r} != expected {ref!r}", key)

    def close(self, real, ref, what, tol=1e-7, key=None):
        self.nchecks += 1
        try:
            ok = abs(real - ref) <= tol * max(1.0, abs(real), abs(ref))
        except TypeError:
            ok = False
        if not ok:
            raise Violation(f"{what}: real {real!r} != expected {ref!r}", key)


class Harness:
    def __init__(self, name, fn, **params):
        self.name = name
        self.fn = fn
        self.params = params


def _alarm(signum, frame):
    raise NoProgress()


EXEC_LIMIT_S = 40.0


def execute(harness, prefix, tier):
    """One execution; returns (ctx, violation-dict or None)."""
    ctx = Ctx(prefix, tier)
    vio = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            contextvars.Context().run(harness.fn, ctx, **harness.params)
    except Violation as v:
        vio = {"kind": "violation", "msg": v.msg, "key": v.key}
    except NoProgress:
        vio = {"kind": "noprogress",
               "msg": f"no progress: one execution did not end within {EXEC_LIMIT_S:.0f}s",
               "key": "noprogress"}
    except BadPrefix as b:
        vio = {"kind": "diverged", "msg": f"replay diverged: {b}", "key": "diverged"}
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-4:]
        vio = {"kind": "exception",
               "msg": f"unexpected {type(e).__name__}: {str(e)[:300]} at {' > '.join(where)}",
               "key": f"exception:{type(e).__name__}"}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if len(ctx.trace) < len(ctx.prefix) and vio is None:
        vio = {"kind": "diverged", "msg": "replay diverged: fewer choices than recorded",
               "key": "diverged"}
    if vio is not None:
        vio["msg"] = re.sub(r"0x[0-9a-f]+", "0x..", vio["msg"])
        vio["choices"] = [p for _, p, _ in ctx.trace]
        vio["notes"] = list(ctx.notes)
        vio["harness"] = harness.name
    return ctx, vio


class Result:
    def __init__(self):
        self.execs = 0
        self.steps = 0
        self.checks = 0
        self.states = set()
        self.outcomes = {}
        self.violations = []
        self.known = {}
        self.samples = []
        self.capped = False

    def merge(self, o):
        self.execs += o.execs
        self.steps += o.steps
        self.checks += o.checks
        self.states |= o.states
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.violations += o.violations
        for k, v in o.known.items():
            if k in self.known:
                self.known[k]["count"] += v["count"]
            else:
                self.known[k] = v
        if len(self.samples) < 4:
            self.samples += o.samples[: 4 - len(self.samples)]
        self.capped |= o.capped


_H = None     # list of harnesses, inherited by forked workers
_KNOWN = None
_TIER = "quick"
_DEADLINE = None
MAXV = 3


def _record(res, harness, ctx, vio, known):
    res.execs += 1
    res.steps += ctx.steps
    res.checks += ctx.nchecks
    res.states |= ctx.states
    if vio is None:
        oh = h64(ctx.outcome_val)
        res.outcomes[oh] = res.outcomes.get(oh, 0) + 1
        if not res.samples:
            res.samples.append({"harness": harness.name,
                                "choices": [p for _, p, _ in ctx.trace],
                                "history": ctx.notes[:40]})
        return
    k = known(vio) if known else None
    if k is not None:
        e = res.known.setdefault(k, {"count": 0, "example": vio})
        e["count"] += 1
        return
    res.violations.append(vio)


def _subtree(job):
    """Explore every execution whose choices start with job's prefix."""
    hi, prefix = job
    harness = _H[hi]
    res = Result()
    stack = [list(prefix)]
    base = len(prefix)
    while stack:
        if len(res.violations) >= MAXV:
            break
        if _DEADLINE is not None and time.monotonic() > _DEADLINE:
            res.capped = True
            break
        p = stack.pop()
        ctx, vio = execute(harness, p, _TIER)
        if vio is not None and vio["kind"] in ("noprogress", "diverged"):
            # believed only if it happens again from scratch
            ctx, vio = execute(harness, p, _TIER)
        _record(res, harness, ctx, vio, _KNOWN)
        if vio is not None and vio["kind"] == "noprogress":
            break
        ch = [x for _, x, _ in ctx.trace]
        for i in range(len(ctx.trace) - 1, max(len(p), base) - 1, -1):
            n = ctx.trace[i][0]
            for alt in range(n - 1, 0, -1):
                stack.append(ch[:i] + [alt])
    return hi, res


def _split(job):
    """Give the children prefixes of a prefix (or itself if it is a leaf)."""
    hi, prefix = job
    ctx, vio = execute(_H[hi], prefix, _TIER)
    if vio is not None and vio["kind"] == "noprogress":
        return [job], True
    if len(ctx.trace) <= len(prefix):
        return [job], True
    n = ctx.trace[len(prefix)][0]
    return [(hi, list(prefix) + [a]) for a in range(n)], False


def explore(harnesses, tier="quick", known=None, procs=8, budget_s=None, min_jobs=96):
    """Explore all harnesses exhaustively. Returns {harness name: Result}."""
    global _H, _KNOWN, _TIER, _DEADLINE
    _H, _KNOWN, _TIER = harnesses, known, tier
    _DEADLINE = None if budget_s is None else time.monotonic() + budget_s
    results = {h.name: Result() for h in harnesses}
    jobs = [(i, []) for i in range(len(harnesses))]
    ctxm = mp.get_context("fork")
    with ctxm.Pool(procs) as pool:
        done = []
        per = max(2, min_jobs // max(1, len(harnesses)))
        for _round in range(4):
            if not jobs:
                break
            count = {}
            for hi, _ in jobs + done:
                count[hi] = count.get(hi, 0) + 1
            todo = [j for j in jobs if count[j[0]] < per]
            keep = [j for j in jobs if count[j[0]] >= per]
            if not todo:
                break
            nxt = []
            for out, leaf in pool.imap(_split, todo, chunksize=1):
                (done if leaf else nxt).extend(out)
            jobs = keep + nxt
        jobs = jobs + done
        nviol = 0
        for hi, res in pool.imap_unordered(_subtree, jobs, chunksize=1):
            results[harnesses[hi].name].merge(res)
            nviol += len(res.violations)
            if nviol >= 12:
                pool.terminate()
                for r in results.values():
                    r.capped = True
                break
    return results
