"""Euler characteristic over shared memory: every interleaving, worker failures, interrupted callers."""
import errno

from sim.core import Violation
from sim.world import World, shm_live

from . import parops


def run(ctx):
    ch = ctx.ch
    big = ch.flag(0.25)
    op = parops.Euler(ctx, hi=6 if big else 3, lo=1)
    want = parops.euler_exact(op.d, op.thres, op.nb)
    n = [2, 3, 4, 5, 8, 12][ch.draw(6)]
    kind = ch.weighted([(6, "none"), (3, "worker"), (1, "shm"), (1, "caller")])
    w = World(ctx, tracing=True)
    node = w.spawn("session")
    with node:
        if op.betti:
            want_b = op.call(node.t2c, 1)
        l0 = w.lines
        got = op.call(node.t2c, n)          # pieces run whole, in a drawn order
        lines, regions, pieces = w.lines - l0, w.par_regions, w.par_seq
    want = want_b if op.betti else want
    ctx.check(got == want, "wrong-value", lambda: "n_jobs=%d, pieces in sequence: %r, exact %r" % (n, got, want))
    leak(ctx, "after a fault-free call")
    w.par_interleave = ch.flag(0.85)
    w.plan_fn = lambda: w.draw_plan(lines // max(regions, 1) + 5, kmax=14)
    w.cpus = [8, 1, 3][ch.draw(3)]
    w.par_seq = w.par_regions = w.shm_ops = 0
    if kind == "worker":
        at = ch.draw(pieces + 1)
        exc = [RuntimeError, MemoryError, OSError, KeyboardInterrupt][ch.draw(4)]
        line = 0 if ch.flag(0.3) else 1 + ch.draw(max(4, lines // max(pieces, 1)))
        w.par_faults = {at: ("kill" if ch.flag(0.3) else "raise", exc, line)}
    elif kind == "shm":
        e = [errno.ENOSPC, errno.EMFILE, errno.ENOMEM][ch.draw(3)]
        w.shm_fail = (1 + ch.draw(pieces + 1), e, errno.errorcode[e])
    elif kind == "caller":
        w.par_break = (1 + ch.draw(max(regions, 1)), ch.flag(0.5), KeyboardInterrupt)
    faults0 = sum(v for k, v in ctx.stats.items() if k.startswith("fault:"))
    with node:
        try:
            got = op.call(node.t2c, n)
        except Violation:
            raise
        except BaseException as e:
            ctx.log("raised", type(e).__name__)
            fired = sum(v for k, v in ctx.stats.items() if k.startswith("fault:")) > faults0
            if not fired:
                raise
            got = None
    ctx.schedule(kind, n, op.d.shape)
    if got is not None:
        ctx.check(got == want, "wrong-value", lambda: "n_jobs=%d interleaved, shape %s: %r, exact %r" % (n, op.d.shape, got, want))
    leak(ctx, "after a call that " + ("returned" if got is not None else "failed"))
    if kind != "none":
        w.par_faults, w.shm_fail, w.par_break, w.inject = {}, None, None, None
        with node:
            got = op.call(node.t2c, n)
        ctx.check(got == want, "wrong-after-fault", lambda: "after a failed call: %r, exact %r" % (got, want))
        leak(ctx, "after the retry")


def leak(ctx, where):
    ctx.check(not shm_live, "shared-memory-leak", lambda: "%d shared-memory block(s) not released %s" % (len(shm_live), where))
