"""Parallel result = serial result, for every job count, CPU count, assignment and completion order."""
from sim.world import World

from . import parops


def run(ctx):
    ch = ctx.ch
    op = ch.weighted(parops.KINDS)(ctx)
    inter = op.name in ("euler", "granulometry", "bispectrum") and ch.flag(0.2)
    w = World(ctx, tracing=inter)
    w.use_disk()
    solo = w.spawn("serial")
    with solo:
        want = op.call(solo.t2c, 1)
    lines = w.lines
    ctx.probe("op_" + op.name)
    ex = op.exact(want)
    if ex is not None:
        ctx.check(want == ex, "serial-wrong", lambda: "%s: one job gives %r, exact value %r" % (op.name, want, ex))
    node = w.spawn("session")
    for r in range(1 + ch.draw(3)):
        n = parops.pick_jobs(ch, op)
        w.cpus = [8, 1, 2, 3, 5, 16][ch.draw(6)]
        w.par_readonly = ch.flag(0.4)
        w.par_interleave = inter
        w.plan_fn = lambda: w.draw_plan(lines + 10)
        with node:
            got = op.call(node.t2c, n)
        ctx.schedule(op.name, n, w.cpus)
        ctx.log(op.name, "n_jobs", n, "cpus", w.cpus)
        ctx.check(parops.eq(got, want), "differs", lambda: "%s with n_jobs=%d on %d CPUs differs from one job: %s against %s"
                  % (op.name, n, w.cpus, brief(got), brief(want)))


def brief(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."
