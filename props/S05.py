"""Multi-node snapshots: listing orders, repeated reads, missing, cut and failing node files."""
import errno
import glob as _glob
import os

import numpy as np

from sim.core import Violation
from sim.world import World

from . import simfiles


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    d = w.use_disk()
    node = w.spawn("session")
    if ch.flag(0.2):
        fof(ctx, ch, d, node)
        return
    nb = ch.flag(0.6)
    k = simfiles.Nbody(ctx, 6) if nb else simfiles.HaloP3M(ctx, 5)
    files = k.files()
    base = d.path("snap")
    for f, b in files.items():
        d.poke(d.path("snap", f), b)
    if ch.flag(0.3):                        # another redshift in the same directories
        other = simfiles.Nbody(ctx, 1) if nb else simfiles.HaloP3M(ctx, 1)
        if other.z != k.z:
            for f, b in other.files().items():
                if int(f[4:f.index("/")]) < k.nodes:
                    d.poke(d.path("snap", f), b)
    box = ch.pick([244, 244, 64, 500])
    with node:
        node.t2c.set_sim_constants(box)
    w.listing_seed = ch.draw(1 << 16)
    ctx.schedule(type(k).__name__, k.nodes, tuple(k.n))
    arg = base + ("/" if ch.flag(0.5) else "")

    def fresh(t, sel=None):
        f = k.open(t, arg, sel)
        if nb and sel is None:
            f.read_from_file()
        return f

    def check(f, t, sel=None):
        return k.check(f, sel) if nb else k.check(f, t, sel)
    reader = None
    for r in range(2 + ch.draw(4)):
        act = ch.weighted([(3, "new"), (3, "again"), (2, "one"), (3, "broken")])
        if act in ("again", "broken") and reader is None:
            act = "new"
        with node:
            t = node.t2c
            if act == "new":
                sel = None
                reader = fresh(t)
            elif act == "one":
                sel = ch.draw(k.nodes)
                if reader is not None and ch.flag(0.5):
                    reader.read_from_file(node=sel) if nb else k.again(reader, base + "/", sel)
                else:
                    reader = fresh(t, sel)
            elif act == "again":
                sel = None
                reader.read_from_file() if nb else k.again(reader, base + "/")
            else:
                if not broken(ctx, w, d, k, files, t, reader, base, fresh, check, nb):
                    continue
                sel = None
                if ch.flag(0.5):
                    reader.read_from_file() if nb else k.again(reader, base + "/")
                else:
                    reader = fresh(t)
            ctx.log("read", act, sel)
            bad = check(reader, t, sel)
            ctx.check(bad is None, "particles", lambda: "round %d, %s, %d nodes %s: %s" % (r, act, k.nodes, k.n, bad))


def broken(ctx, w, d, k, files, t, reader, base, fresh, check, nb):
    """A damaged node file or a failing operation: the read must fail. Then everything is intact again."""
    ch = ctx.ch
    victim = sorted(files)[ch.draw(len(files))]
    vp = d.path("snap", victim)
    how = ch.pick(["missing", "cut", "fault"])
    plan = {}
    if how == "missing":
        d.poke(vp, None)
        ctx.fault("missing_node_file")
    elif how == "cut":
        n = len(files[victim])
        d.poke(vp, files[victim][:ch.draw(n) if ch.flag(0.6) else n - 1 - ch.small(20)])
        ctx.fault("truncated_node_file")
    else:
        d.arm()
        fresh(t)
        total = max(1, d.nops)
        d.disarm()
        plan[ch.draw(total)] = ("err", ch.pick([errno.EIO, errno.EACCES])) if ch.flag(0.7) else ("short", ch.draw(1 << 10))
    ctx.log("broken", victim, how, sorted(plan.items()))
    ctx.schedule(victim, how, sorted(plan))
    d.arm(plan)
    err = bad = None
    same = ch.flag(0.5)
    try:
        if same:
            f = reader
            reader.read_from_file() if nb else k.again(reader, base + "/")
        else:
            f = fresh(t)
        bad = check(f, t)
    except Violation:
        raise
    except Exception as e:
        err = e
    fired = d.fired
    d.disarm()
    d.poke(vp, files[victim])
    if how == "fault":
        ctx.check(err is not None or bad is None, "wrong-particles", lambda: "%s, %s: %s" % (victim, plan, bad))
        ctx.check(err is None or fired, "read-failed", lambda: "%s: no fault, yet %s" % (victim, err))
    else:
        ctx.check(err is not None, "damage-accepted", lambda: "%s %s: the read returned (%s)" % (victim, how, bad or "all particles"))
    return True


def fof(ctx, ch, d, node):
    """A halo catalogue given as a list of files: every halo once, in the order of the list."""
    rec = simfiles.PkdFof.rec
    rng = np.random.RandomState(ctx.npseed())
    parts = []
    for i in range(1 + ch.draw(5)):
        a = np.frombuffer(rng.uniform(0.1, 1, ch.draw(5) * rec.itemsize // 4).astype("<f4").tobytes(), rec)
        if len(a) and ch.flag(0.3):             # equal halos are still two halos
            a = np.repeat(a[:1], len(a))
        f = d.path("fof", "sim.fofstats.%d" % i)
        d.poke(f, a.tobytes())
        parts.append((f, a))
    with node:
        reader = node.t2c.Pkdgrav3data(50.0, None, verbose=False)
    for r in range(2 + ch.draw(3)):
        sel = ch.shuffle(parts)[:1 + ch.draw(len(parts))]
        names = [f for f, _ in sel]
        want = np.concatenate([a for _, a in sel])
        how = ch.weighted([(3, "intact"), (1, "missing"), (1, "cut"), (2, "fault")])
        victim, va = sel[ch.draw(len(sel))]
        plan = {}
        if how == "missing":
            d.poke(victim, None)
            ctx.fault("missing_node_file")
        elif how == "cut" and len(va):
            d.poke(victim, va.tobytes()[:ch.draw(len(va)) * rec.itemsize + 1 + ch.draw(rec.itemsize - 1)])
            ctx.fault("truncated_node_file")
        elif how == "fault":
            plan[ch.draw(3 * len(sel))] = ("err", ch.pick([errno.EIO, errno.EACCES])) if ch.flag(0.7) else ("short", ch.draw(1 << 8))
        else:
            how = "intact"
        ids = [int(f.rsplit(".", 1)[1]) for f in names]
        ctx.log("fof", how, ids, sorted(plan))
        ctx.schedule("fof", how, tuple(ids), sorted(plan))
        d.arm(plan)
        err = got = None
        try:
            with node:
                got = reader.read_fof_data(names if len(names) > 1 or ch.flag(0.5) else names[0])
        except Violation:
            raise
        except Exception as e:
            err = e
        fired = d.fired
        d.disarm()
        d.poke(victim, va.tobytes())
        what = "%d catalogue files with %s halos, %s" % (len(sel), [len(a) for _, a in sel], how)
        if err is not None:
            ctx.check(how in ("missing", "cut") or fired, "read-failed", lambda: "%s: %s: %s" % (what, type(err).__name__, err))
            continue
        ctx.check(how in ("intact", "fault"), "damage-accepted", lambda: "%s: the read returned %d halos" % (what, len(got)))
        ctx.check(got.dtype == rec and got.tobytes() == want.tobytes(), "particles", lambda: "%s: %d halos instead of %d, or other values" % (
            what, len(got), len(want)))
        if ch.flag(0.3) and got.flags.writeable:
            got["fMass"] = 7            # the caller owns what it got
    ctx.nontrivial = True
