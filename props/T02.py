"""An interrupted or failed call leaves the library reusable."""
import errno

import numpy as np

from sim.core import Violation
from sim.world import World
from . import ops
from .T01 import brief

ERR = [errno.EIO, errno.EMFILE, errno.EACCES, errno.ENOENT]


def solo(w, c):
    node = w.spawn("solo")
    with node:
        end = w.watch_points()
        r = c.invoke(node)
        n = end()
    w.kill(node)
    return r, n


def run(ctx):
    ch = ctx.ch
    w = World(ctx, tracing="points")
    w.cpus = 2
    node = w.spawn("session")
    g = ops.G(ctx)
    c = ops.draw_call(ctx, g, at=ctx.index)
    want, n = solo(w, c)
    ctx.probe("call fails alone" if want[0] == "err" else "call succeeds alone")
    with node:
        if ch.flag(0.2):
            ops.draw_call(ctx, g, [c.family]).invoke(node)      # the session has done something before
        base = ops.settings(node)
        err = np.geterr()
        rounds = 1 + ch.small(3, 0.4)
        hit = []
        for i in range(rounds):
            if i and ch.flag(0.3):
                c2 = ops.variant(ctx, c, g)
                w2, n2 = solo(w, c2)
            else:
                c2, w2, n2 = c, want, n
            kind = ch.pick(["interrupt", "memory"])
            if n2["io"] and ch.flag(0.6):
                kind = "io"
            if not n2[kind]:
                kind = "interrupt"
            if not n2[kind]:
                continue
            at = w.pick_point(n2, kind)
            ak = c2.fresh()
            orig = ops.copy_args(ak)
            fl = ops.flags(ak)
            w.arm_strike(kind, at, ch.pick(ERR) if kind == "io" else 5)
            try:
                r = c2.invoke(node, ak)
            except KeyboardInterrupt:
                r = ("err", "KeyboardInterrupt")
            w.strike = None
            where = w.struck
            if where is None:
                ctx.probe("strike point not reached")
                continue
            hit.append(where)
            ctx.fault(kind)
            ctx.schedule(c2.label, kind, at)
            ctx.log(c2.label, kind, at, where, r[0], r[1] if r[0] == "err" else "")
            what = "%s, %s" % (c2.label, where)
            if r[0] == "ok":
                ctx.probe("call absorbed the failure")
                ctx.check(ops.agree(w2, r), "failure-absorbed", lambda: "%s: returned %s, undisturbed: %s" % (what, brief(r), brief(w2)))
            ctx.check(ops.same(orig, ak) and fl == ops.flags(ak), ops.changed_key(c2), lambda: "%s: an argument of the caller was changed" % what)
            now = ops.settings(node)
            ctx.check(ops.same_settings(base, now), "settings-changed", lambda: "%s changed %s" % (what, ops.settings_diff(base, now)))
            ctx.check(np.geterr() == err, "numeric-state-changed", lambda: "%s: numeric error state %s, before %s" % (what, np.geterr(), err))
            r = None
        ak = c.fresh()
        orig = ops.copy_args(ak)
        r = c.invoke(node, ak)
        ctx.check(ops.agree(want, r), "not-reusable", lambda: "%s after %s: %s, undisturbed: %s" % (c.label, hit, brief(r), brief(want)))
        ctx.check(ops.same(orig, ak), ops.changed_key(c), lambda: "%s after %s: an argument was changed" % (c.label, hit))
        if ch.flag(0.3):
            c3 = ops.variant(ctx, c, g)
            w3, _ = solo(w, c3)
            r = c3.invoke(node)
            ctx.check(ops.agree(w3, r), "not-reusable", lambda: "%s (other arguments) after %s: %s, alone: %s" % (c3.label, hit, brief(r), brief(w3)))
        ctx.check(np.geterr() == err, "numeric-state-changed", lambda: "%s after %s: numeric error state %s, before %s" % (
            c.label, hit, np.geterr(), err))
