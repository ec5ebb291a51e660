"""Saves cut short by a crash, a power loss, an interrupt, a failing allocation or a full disk: what a later reader makes of the file."""
import errno

import numpy as np

from sim.core import Violation
from sim.world import World

from . import S01, simfiles

ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT]


class Dictionary:
    """Dictionary files in the terms of simfiles."""
    keeps_old = True

    def __init__(self, ctx, fmt=None):
        self.fmt = fmt or ["pkl", "json", "npz", "csv", "yaml"][ctx.ch.draw(5)]
        self.fname = "data." + self.fmt
        self.a = S01.content(ctx, self.fmt)

    def write(self, t, path):
        t.write_dictionary_data(self.a, path)

    def read(self, t, path):
        return t.read_dictionary_data(path)

    def ok(self, r):
        return S01.same(self.a, {k: r[k] for k in r})


def draw(ctx):
    k = ctx.ch.draw(len(simfiles.WRITABLE) + 2)
    return simfiles.WRITABLE[k](ctx) if k < len(simfiles.WRITABLE) else Dictionary(ctx)


def read(node, kind, path):
    try:
        return kind.read(node.t2c, path), None
    except Violation:
        raise
    except Exception as e:
        return None, e


def run(ctx):
    ch = ctx.ch
    w = World(ctx, tracing="points")
    d = w.use_disk()
    box = None
    if ch.flag(0.3):
        box = ch.pick([37, 64, 114, 200, 425, 500])

    def start(name):
        n = w.spawn(name)
        if box:
            with n:
                n.t2c.set_sim_constants(box)
        return n
    writer = start("writer")
    kind = draw(ctx)
    name = type(kind).__name__
    path = d.path("out", kind.fname)
    d.poke(d.path("out", "x"), b"1")
    old = None
    fulls = []              # what each save, finished or not, meant to leave
    for r in range(1 + ch.draw(3)):
        if r and isinstance(kind, Dictionary):
            kind = Dictionary(ctx, kind.fmt)
        elif r:
            for _ in range(8):                  # other data for the same file
                k2 = type(kind)(ctx)
                if k2.fname == kind.fname:
                    kind = k2
                    break
        mode = ch.weighted([(1, "none"), (4, "interrupt"), (2, "memory"), (4, "crash"), (2, "power"), (2, "full")])
        probe = d.path("probe", kind.fname)
        d.poke(probe, d.peek(path) or b"")
        if d.peek(path) is None:
            d.poke(probe, None)
            d.poke(d.path("probe", "x"), b"1")
        dry = start("dry")
        with dry:
            end = w.watch_points()
            d.arm()
            kind.write(dry.t2c, probe)
            total = max(1, d.nops)
            d.disarm()
            pts = end()
        full = kind.full = d.peek(probe)
        fulls.append(kind)
        for f in d.files():
            if f.startswith(d.path("probe")):
                d.poke(f, None)
        plan = {}
        at = 0
        if mode in ("interrupt", "memory"):
            if not pts[mode]:
                mode = "interrupt"
            at = w.pick_point(pts, mode) if pts[mode] else 1
        elif mode in ("crash", "power"):
            at = ch.draw(total) if ch.flag(0.7) else total - 1 - ch.small(min(3, total))
            plan[at] = ("crash", ch.draw(1 << 16) if ch.flag(0.7) else len(full) // 2)
        elif mode == "full":
            at = ch.draw(total)
            for j in range(at, at + 60):
                plan[j] = ("err", ERR[ch.draw(3)] if j == at else plan[at][1])
        ctx.log("save", name, kind.fname, r, mode, at)
        ctx.schedule(name, mode, at)
        d.arm(plan, power=mode == "power")
        if mode in ("interrupt", "memory"):
            w.arm_strike(mode, at)
        err = None
        try:
            with writer:
                kind.write(writer.t2c, path)
        except Violation:
            raise
        except BaseException as e:
            err = e
        w.strike = None
        died, fired = d.dead, d.fired
        where = w.struck if mode in ("interrupt", "memory") else None
        if where:
            ctx.fault(mode)
        if died:
            w.kill(writer)
            d.restart()
            writer = start("writer%d" % r)
        d.disarm()
        what = "%s %s, save %d, %s%s" % (name, kind.fname, r, mode, ", " + where if where else "")
        now = d.peek(path)
        cut = died or err is not None
        if not cut:
            with start("reader") as rd:
                got, e = read(rd, kind, path)
            ctx.check(e is None and kind.ok(got), "silent-loss" if fired or where else "roundtrip",
                      lambda: "%s: the save returned, reading gives %s" % (what, e or "%.200r" % (got,)))
            old = kind
        else:
            ctx.check(died or fired or where, "save-failed", lambda: "%s: nothing disturbed it, yet %s: %s" % (what, type(err).__name__, err))
            if now is None:
                ctx.check(not (old is not None and hasattr(kind, "keeps_old")), "old-lost", lambda: "%s: the previous file is gone" % what)
                ctx.probe("nothing left")
            else:
                with start("reader") as rd:
                    got, e = read(rd, kind, path)
                    was = None
                    if e is None and not kind.ok(got) and old is not None:
                        was, e2 = read(rd, old, path)
                        was = e2 is None and old.ok(was)
                if e is not None:
                    ctx.probe("refused")
                    ctx.check(not hasattr(kind, "keeps_old"), "torn", lambda: "%s: the file cannot be read any more: %s" % (what, e))
                elif kind.ok(got):
                    ctx.probe("complete")
                elif was:
                    ctx.probe("old content")
                else:
                    fair = False            # left by an earlier save in another format?
                    for k in fulls:
                        if now == k.full[:len(now)]:
                            with start("reader") as rd:
                                g, e = read(rd, k, path)
                            fair = fair or e is not None or k.ok(g) or hasattr(k, "cut_ok") and k.cut_ok(len(now))
                    ctx.check(fair, "part-read-as-data", lambda: "%s: %d of %d bytes were saved and are read as %.200r" % (
                        what, len(now), len(full), got))
                if was is None and e is not None or not (was or e is None and kind.ok(got)):
                    old = None
                elif e is None and kind.ok(got):
                    old = kind
        # nobody cleans up; the same save again works
        if cut and ch.flag(0.7):
            node = writer if ch.flag(0.5) else start("again")
            with node:
                try:
                    kind.write(node.t2c, path)
                except Exception as e:
                    ctx.fail("retry-failed", "%s, saved again: %s: %s" % (what, type(e).__name__, e))
            with start("reader") as rd:
                got, e = read(rd, kind, path)
            ctx.check(e is None and kind.ok(got), "retry-wrong", lambda: "%s, saved again: reading gives %s" % (what, e or "%.200r" % (got,)))
            old = kind
        ctx.nontrivial = ctx.nontrivial or cut
