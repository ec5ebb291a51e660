"""I/O errors and failing workers during cached UV-map requests."""
import errno

from props import uvlib as U
from sim.core import Violation

ERR = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE, errno.EDQUOT, errno.EINTR]
EXC = [RuntimeError, MemoryError, OSError, ValueError]


def run(ctx):
    ch = ctx.ch
    w = U.new_world(ctx, tracing=(ctx.index % 4 == 3))
    d = w.disk
    p = U.draw_params(ch, 0.4)
    fmt = ["pkl", "npz", "pickle"][ch.draw(3)]
    path = d.path("cache." + fmt)
    zs = U.draw_zs(ch, 2, 7)
    must = set()
    if ch.flag(0.5):
        k = 1 + ch.draw(len(zs))
        with w.spawn("earlier") as n0:
            U.request(n0, p, zs[:k], path, 1, 16)
        must = {U.key(z) for z in zs[:k]}
    node = w.spawn("session")
    for r in range(1 + ch.draw(3)):
        nj, ck = U.draw_run(ch)
        ctx.log("request", r, zs, fmt, nj, ck, "have", sorted(must))
        # size of the undisturbed request
        probe = d.path("probe." + fmt)
        d.poke(probe, d.peek(path))
        d.arm()
        with w.spawn("dry") as n1:
            U.request(n1, p, zs, probe, nj, ck)
        total = max(1, d.nops)
        d.disarm()
        d.poke(probe, None)
        plan = {}
        for _ in range(ch.draw(4)):
            at = ch.draw(total)
            if ch.flag(0.25):
                plan[at] = ("short", ch.draw(4096))
            else:
                plan[at] = ("err", ERR[ch.draw(5)])
                if ch.flag(0.15):           # a fault that persists, such as a full disk
                    for j in range(at, at + 40):
                        plan[j] = plan[at]
        w.par_faults = {}
        w.par_seq = 0
        if nj > 1 and ch.flag(0.5):
            seq = ch.draw(len(zs) + 1)
            kind = "kill" if ch.flag(0.4) else "raise"
            at = ch.draw(200) if w.tracing else 0
            w.par_faults = {seq: (kind, EXC[ch.draw(len(EXC))], at)}
        d.arm(plan)
        err = res = None
        try:
            with node:
                res = U.request(node, p, zs, path, nj, ck)
        except Violation:
            raise
        except BaseException as e:
            err = e
        fired = d.fired
        d.disarm()
        w.par_faults = {}
        ctx.log("outcome", type(err).__name__ if err else "returned", "faults", fired)
        ctx.schedule(r, sorted(plan)[:4], fired, nj, ck)
        if err is None:
            U.check_result(ctx, w, res, p, zs, where="request %d under faults" % r)
            must = U.check_stored(ctx, w, path, p, zs, {U.key(z) for z in zs}, where="after request %d" % r)
        else:
            ctx.probe("raised")
            ctx.check(fired or ctx.nontrivial, "request-failed", lambda: "no fault, yet %s: %s" % (type(err).__name__, err))
            must = U.check_stored(ctx, w, path, p, zs, must, where="after failed request %d (%s)" % (r, type(err).__name__))
        if ch.flag(0.3):
            w.kill(node)
            node = w.spawn("session%d" % r)
    nj, ck = U.draw_run(ch)
    ctx.log("retry", nj, ck, sorted(must))
    try:
        with node:
            res = U.request(node, p, zs, path, nj, ck)
    except Violation:
        raise
    except BaseException as e:
        ctx.fail("retry-failed", "after the faults stopped: %s: %s" % (type(e).__name__, str(e)[:300]))
    U.check_result(ctx, w, res, p, zs, where="retry")
    U.check_stored(ctx, w, path, p, zs, {U.key(z) for z in zs}, where="after the retry")
