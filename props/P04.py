"""A worker that raises or dies makes the call raise; the session stays usable."""
from sim.core import Violation
from sim.world import World

from . import parops
from .P01 import brief


def run(ctx):
    ch = ctx.ch
    op = ch.weighted(parops.KINDS)(ctx)
    sites = ch.flag(0.45)
    w = World(ctx, tracing="points" if sites else True)
    w.use_disk()
    solo = w.spawn("serial")
    with solo:
        want = op.call(solo.t2c, 1)
    node = w.spawn("session")
    n = [2, 3, 4, 8, 2][ch.draw(5)]
    w.cpus = [8, 1, 3][ch.draw(3)]
    with node:                                  # how many pieces, how long they are
        l0 = w.lines
        end = w.watch_points()
        got = op.call(node.t2c, n)
        pts = end()
    lines, pieces = w.lines - l0, w.par_seq
    ctx.check(parops.eq(got, want), "differs", lambda: "%s with n_jobs=%d: %s against %s" % (op.name, n, brief(got), brief(want)))
    if not pieces:
        return
    if sites:
        return struck(ctx, w, node, op, n, want, pts)
    for r in range(1 + ch.draw(3)):
        w.par_seq = 0
        w.par_faults = {}
        for _ in range(1 + ch.small(3, 0.3)):
            exc = [ValueError, MemoryError, OSError, KeyboardInterrupt, ZeroDivisionError][ch.draw(5)]
            line = 0 if ch.flag(0.4) else 1 + ch.draw(max(3, lines // pieces))
            w.par_faults[ch.draw(pieces)] = ("kill" if ch.flag(0.35) else "raise", exc, line)
        f0 = sum(v for k, v in ctx.stats.items() if k.startswith("fault:worker_"))
        raised = None
        with node:
            try:
                got = op.call(node.t2c, n)
            except Violation:
                raise
            except BaseException as e:
                raised = e
        fired = sum(v for k, v in ctx.stats.items() if k.startswith("fault:worker_")) > f0
        ctx.schedule(op.name, n, tuple(sorted(w.par_faults)))
        ctx.log(op.name, n, "raised" if raised is not None else "returned")
        if raised is not None and not fired:
            raise raised
        if raised is None:
            # an implementation may also recover by itself, but then the result must be right
            ctx.check(parops.eq(got, want), "result-despite-failed-worker",
                      lambda: "%s with n_jobs=%d returned a wrong result although a worker failed: %s against %s"
                      % (op.name, n, brief(got), brief(want)))
        if raised is not None or ch.flag(0.3):
            w.par_faults, w.inject = {}, None
            with node:
                got = op.call(node.t2c, n)
            ctx.check(parops.eq(got, want), "wrong-after-fault", lambda: "%s after a failed call: %s against %s"
                      % (op.name, brief(got), brief(want)))


def struck(ctx, w, node, op, n, want, pts):
    """An interrupt, failed allocation or failing open at any place of the program the call passes, mostly in a worker."""
    ch = ctx.ch
    kinds = [k for k in ("memory", "interrupt", "io") if pts[k]]
    for r in range(1 + ch.draw(4)):
        kind = ch.weighted([({"memory": 4, "interrupt": 3, "io": 1}[k], k) for k in kinds])
        w.par_seq, w.par_faults = 0, {}
        w.arm_strike(kind, w.pick_point(pts, kind))
        raised = None
        with node:
            try:
                got = op.call(node.t2c, n)
            except Violation:
                raise
            except BaseException as e:
                raised = e
        w.strike = None
        hit = w.struck
        ctx.schedule(op.name, n, hit)
        ctx.log(op.name, n, hit, "raised" if raised is not None else "returned")
        if hit is None:
            ctx.probe("strike point not reached")
            if raised is not None:
                raise raised
        else:
            ctx.fault("struck_" + kind)
        if raised is None:
            ctx.check(parops.eq(got, want), "result-despite-failed-worker",
                      lambda: "%s with n_jobs=%d returned a wrong result despite %s: %s against %s" % (op.name, n, hit, brief(got), brief(want)))
        if raised is not None or ch.flag(0.3):
            with node:
                got = op.call(node.t2c, n)
            ctx.check(parops.eq(got, want), "wrong-after-fault", lambda: "%s after a call with %s: %s against %s"
                      % (op.name, hit, brief(got), brief(want)))
