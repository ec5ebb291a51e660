"""Workers compute with the settings in force in the calling session."""
import numpy as np

from sim.world import World

from . import parops
from .P01 import brief

KINDS = [(4, parops.UV), (4, parops.Stamp), (2, parops.Noise), (1, parops.Bispec)]
SETTERS = {"set_hubble_h": [0.7, 0.6, 0.74, 0.67, 1, np.float32(0.65), 0.7002, 0.6003], "set_omega_matter": [0.27, 0.31, 0.2, 1, np.float32(0.3), np.array(0.25), 0.2704, 0.3105],
           "set_omega_lambda": [0.73, 0.6, 0.9, 1, 0, np.float32(0.8), np.array(0.7), 0.7305, 0.6002], "set_sim_constants": [244, 500, 64, 114, 425, np.int64(200)]}


def apply(t, calls):
    for f, v in calls:
        getattr(t, f)(v)


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    w.use_disk()
    node = w.spawn("session")
    calls = []
    op = None
    for r in range(2 + ch.draw(4)):
        for f in sorted(SETTERS):
            if ch.flag(0.3):
                v = ch.pick(SETTERS[f])
                calls.append((f, v))
                with node:
                    getattr(node.t2c, f)(v)
                ctx.log("set", f, v)
        if op is None or ch.flag(0.5):
            op = ch.weighted(KINDS)(ctx)
        n = parops.pick_jobs(ch, op)
        w.cpus = [8, 1, 3][ch.draw(3)]
        w.par_readonly = ch.flag(0.3)
        solo = w.spawn("fresh")
        with solo:
            apply(solo.t2c, calls)
            want = op.call(solo.t2c, 1)
        with node:
            got = op.call(node.t2c, n)
        ctx.probe("op_" + op.name)
        if any(p.workers for p in w.pools.values()) and r:
            ctx.probe("reused_workers")
        ctx.schedule(op.name, n, tuple(calls[-4:]))
        ctx.log(op.name, "n_jobs", n)
        ctx.check(parops.eq(got, want), "other-settings", lambda: "%s with n_jobs=%d after %s differs from one job under the same settings: "
                  "%s against %s" % (op.name, n, calls, brief(got), brief(want)))
        ctx.nontrivial = ctx.nontrivial or bool(calls)
