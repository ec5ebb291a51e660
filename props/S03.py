"""Truncated or failing reads of binary inputs."""
import errno

from sim.core import Violation
from sim.world import World

from . import simfiles


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    d = w.use_disk()
    node = w.spawn("session")
    for r in range(2 + ch.draw(3)):
        pick = ch.draw(len(simfiles.READABLE) + 2)
        if pick >= len(simfiles.READABLE):
            multi(ctx, d, node, r, pick - len(simfiles.READABLE))
            continue
        kind = simfiles.READABLE[pick](ctx)
        name = type(kind).__name__
        if name == "Cbin":
            kind.with_records(ctx)
        path = d.path("r%d" % r, kind.fname)
        n = len(kind.blob)
        mode = ch.weighted([(1, "none"), (4, "cut"), (4, "fault")])
        if n == 0 and mode == "cut":
            mode = "none"
        cut = n
        plan = {}
        if mode == "cut":
            cut = simfiles.draw_cut(ch, n)
            ctx.fault("truncated_file")
        elif mode == "fault":
            d.poke(path, kind.blob)
            d.arm()
            with node:
                kind.read(node.t2c, path)
            total = max(1, d.nops)
            d.disarm()
            for _ in range(1 + ch.draw(2)):
                at = ch.draw(total)
                plan[at] = ("err", ch.pick([errno.EIO, errno.EACCES, errno.ESTALE])) if ch.flag(0.6) else ("short", ch.draw(1 << 12))
        d.poke(path, kind.blob[:cut])
        what = "%s %s, %d of %d bytes, %s" % (name, kind.fname, cut, n, mode)
        ctx.log("read", what, sorted(plan.items()))
        ctx.schedule(name, mode, cut, sorted(plan))
        d.arm(plan)
        err = got = None
        try:
            with node:
                got = kind.read(node.t2c, path)
        except Violation:
            raise
        except Exception as e:
            err = e
        fired = d.fired
        d.disarm()
        if err is not None:
            ctx.check(fired or cut < n, "read-failed", lambda: "%s: intact, yet %s: %s" % (what, type(err).__name__, err))
            ctx.probe("raised")
        elif cut < n and not kind.ok(got):
            ctx.check(hasattr(kind, "cut_ok") and kind.cut_ok(cut), "truncation-accepted",
                      lambda: "%s was accepted: %.300r" % (what, got))
            ctx.probe("smaller_file")
        else:
            ctx.check(kind.ok(got) or fired and hasattr(kind, "shorter") and kind.shorter(got), "wrong-values", lambda: "%s gave %.300r" % (what, got))
        if mode != "none":
            d.poke(path, kind.blob)
            with node:
                got = kind.read(node.t2c, path)
            ctx.check(kind.ok(got), "later-read", lambda: "%s: the intact file then gave %.300r" % (what, got))


def multi(ctx, d, node, r, which):
    ch = ctx.ch
    k = (simfiles.Nbody(ctx, 2) if which == 0 else simfiles.HaloP3M(ctx, 2))
    files = k.files()
    base = d.path("r%d" % r, "snap")
    for f, b in files.items():
        d.poke(d.path("r%d" % r, "snap", f), b)

    def read():
        with node:
            f = k.open(node.t2c, base)
            if which == 0:
                f.read_from_file()
                return k.check(f)
            return k.check(f, node.t2c)
    mode = ch.weighted([(3, "cut"), (3, "fault")])
    victim = sorted(files)[ch.draw(len(files))]
    vp = d.path("r%d" % r, "snap", victim)
    plan = {}
    n = cut = len(files[victim])
    if mode == "cut":
        cut = simfiles.draw_cut(ch, n)
        ctx.fault("truncated_file")
        d.poke(vp, files[victim][:cut])
    else:
        d.arm()
        read()
        total = max(1, d.nops)
        d.disarm()
        plan[ch.draw(total)] = ("err", errno.EIO) if ch.flag(0.6) else ("short", ch.draw(1 << 12))
    what = "%s, %s %d of %d bytes, %s" % (type(k).__name__, victim, cut, n, mode)
    ctx.log("read", what, sorted(plan.items()))
    ctx.schedule(which, mode, cut, sorted(plan))
    d.arm(plan)
    err = bad = None
    try:
        bad = read()
    except Violation:
        raise
    except Exception as e:
        err = e
    fired = d.fired
    d.disarm()
    if err is not None:
        ctx.check(fired or cut < n, "read-failed", lambda: "%s: intact, yet %s: %s" % (what, type(err).__name__, err))
    else:
        ctx.check(bad is None, "truncation-accepted" if cut < n else "wrong-values", lambda: "%s: %s" % (what, bad))
    d.poke(vp, files[victim])
    bad = read()
    ctx.check(bad is None, "later-read", lambda: "%s: the intact snapshot then: %s" % (what, bad))
