"""Simulation files: write, read back in another process; writes under I/O errors."""
import errno

import numpy as np

from sim.core import Violation
from sim.world import World

from . import simfiles

ERR = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EROFS]


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    d = w.use_disk()
    writer = w.spawn("writer")
    if ch.flag(0.3):
        with writer:
            writer.t2c.set_sim_constants(ch.pick([37, 64, 114, 200, 425, 500]))
    with writer:
        box = float(writer.t2c.conv.boxsize)
    same_path = {}
    for r in range(2 + ch.draw(4)):
        kind = simfiles.WRITABLE[ch.draw(len(simfiles.WRITABLE))](ctx)
        name = type(kind).__name__
        if hasattr(kind, "resave") and name != "Density" and ch.flag(0.2):    # the object wrote another file before
            b = np.delete(kind.a, 0, axis=-1 if name != "Sources" else 0)
            kind.used = b if b.size else None
        path = d.path(("d%d/" % ch.draw(2)) + kind.fname)
        d.poke(d.path("d0", "x"), b"1")
        d.poke(d.path("d1", "x"), b"1")
        keep = np.array(kind.a, copy=True)
        mode = ch.weighted([(3, "none"), (5, "err"), (2, "short")])
        total = 1
        if mode != "none":
            probe = d.path("probe", kind.fname)
            d.poke(probe, b"")
            d.arm()
            with w.spawn("dry") as n:
                n.t2c.set_sim_constants(box)
                kind.write(n.t2c, probe)
            total = max(1, d.nops)
            d.disarm()
            d.poke(probe, None)
        plan = {}
        if mode == "err":
            at = ch.draw(total)
            e = ("err", ERR[ch.draw(len(ERR))])
            plan[at] = e
            if ch.flag(0.6):            # the disk stays full
                for j in range(at, at + 40):
                    plan[j] = e
        elif mode == "short":
            for _ in range(1 + ch.draw(3)):
                plan[ch.draw(total)] = ("short", ch.draw(4096))
        if name == "Pickled":
            ctx.probe("pickled")
        what = "%s %s %s, round %d, %s" % (name, kind.fname, np.shape(kind.a), r, mode)
        ctx.log("write", what, sorted(plan.items())[:3])
        ctx.schedule(name, mode, sorted(plan)[:3])
        d.arm(plan)
        err = None
        try:
            with writer:
                kind.write(writer.t2c, path)
        except Violation:
            raise
        except Exception as e:
            err = e
        fired = d.fired
        d.disarm()
        ctx.check(np.array_equal(kind.a, keep), "input-changed", lambda: "%s: the caller's array was changed" % what)
        if err is not None:
            ctx.check(fired, "write-failed", lambda: "%s: no fault, yet %s: %s" % (what, type(err).__name__, err))
            ctx.probe("write_raised")
            if ch.flag(0.5):
                continue
            with writer:
                kind.write(writer.t2c, path)
            what += ", retried"
        reader = writer if ch.flag(0.4) else w.spawn("reader")
        with reader:
            reader.t2c.set_sim_constants(box)
            try:
                got = kind.read(reader.t2c, path)
            except Violation:
                raise
            except Exception as e:
                ctx.fail("silent-loss" if fired and err is None else "unreadable",
                         "%s: the write returned, reading says %s: %s" % (what, type(e).__name__, e))
            ctx.check(kind.ok(got), "silent-loss" if fired and err is None else "roundtrip",
                      lambda: "%s: read back %.300r" % (what, got))
        if hasattr(kind, "resave") and ch.flag(0.3):        # what was loaded, saved under another name
            new = d.path("d2/" + kind.fname)
            d.poke(d.path("d2", "x"), b"1")
            d.poke(new, None)
            what += ", loaded and saved again"
            ctx.probe("resaved")
            with reader:
                kind.resave(reader.t2c, path, new)
                try:
                    got = kind.read(reader.t2c, new)
                except Violation:
                    raise
                except Exception as e:
                    ctx.fail("silent-loss", "%s: the write returned, reading says %s: %s" % (what, type(e).__name__, e))
            ctx.check(kind.ok(got), "roundtrip", lambda: "%s: read back %.300r" % (what, got))
