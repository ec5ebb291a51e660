"""Halo catalogue readers: sequences with failures, and concurrent reads."""
import errno

import numpy as np

from sim import sched
from sim.core import Violation
from sim.world import World

from . import simfiles

NUM = "%.6g"


def table(ctx, n):
    """22 columns as CubeP3M halo lists have; column 17 (vals[-3]... of 20) is the mass used for selection."""
    r = np.random.RandomState(ctx.npseed())
    return r.uniform(1, 999, (n, 20)).round(3)


class Cat:
    def __init__(self, ctx, d, i):
        ch = ctx.ch
        self.kind = ch.pick(["list", "full", "rock", "rock_ascii"])
        self.z = ch.pick([7.059, 9.026, 8.0])
        n = ch.draw(9) if ch.flag(0.8) else 20 + ch.draw(30)
        r = np.random.RandomState(ctx.npseed())
        self.id = i
        if self.kind in ("list", "full"):
            self.name = "c%d/%.3fhalos.dat" % (i, self.z)
            self.rows = r.uniform(1, 999, (n, 22)).round(3)
            if self.kind == "full" and ch.flag(0.3):        # across the edge of the periodic box
                self.rows[:, :6] = r.uniform(-400, 8400, (n, 6)).round(3)
            self.skips = [k for k in range(n) if self.kind == "full" and ch.flag(0.2)]
            L = []
            for k in range(n):
                if k in self.skips:
                    L.append("  17")
                L.append(" ".join("%.3f" % v for v in self.rows[k]))
            self.lines = L
        else:
            asc = self.kind == "rock_ascii"
            self.name = "c%d/halos_%d.%s" % (i, i, "ascii" if asc else "list")
            if asc:
                cols = "#id num_p mvir mbound_vir rvir vmax rvmax vrms x y z vx vy vz Jx Jy Jz".split()
            else:
                cols = "#ID DescID Mvir Vmax Vrms Rvir Rs Np X Y Z VX VY VZ JX JY JZ".split()
            low = [c.lower() for c in cols]
            self.ix = {c: low.index(c) for c in ("mvir", "rvir", "vrms", "x", "vx", "jx")}
            self.rows = r.uniform(1, 999, (n, len(cols))).round(3)
            self.pm = ch.pick([2.5, 0.5, 7.25, 40.0]) if ch.flag(0.6) else 2.5
            a = 1 / (1 + self.z)
            head = [" ".join(cols), "#a = %.8f" % a]
            cosm = "#Om = 0.307000; Ol = 0.693000; h = 0.678000"
            part = "#Particle mass: %.5f Msun/h" % self.pm
            if asc:
                head += ["#Box", cosm, "#x", "#y", part] + ["#c"] * 13
            else:
                head += [cosm, "#x", "#y", part] + ["#c"] * 10
            self.nhead = len(head)
            self.lines = head + [" ".join("%.3f" % v for v in row) for row in self.rows]
        self.text = "".join(x + "\n" for x in self.lines)
        self.path = d.path(self.name)
        d.poke(self.path, self.text.encode())
        self.n = n

    def read(self, t, sel, via_ctor=True):
        if self.kind == "list":
            if via_ctor:
                return t.HaloList(self.path, **sel)
            h = t.HaloList()
            h.read_from_file(self.path, **sel)
            return h
        if self.kind == "full":
            return t.HaloCubeP3MFull(self.path, box_len=244, **sel)
        kw = {k: v for k, v in sel.items() if k == "max_select_number"}
        if via_ctor:
            return t.HaloRockstar(self.path, **kw)
        h = t.HaloRockstar()
        h.read_from_file(self.path, **kw)
        return h

    def expect(self, sel, unit):
        rows = list(range(self.n))
        mx = sel.get("max_select_number", -1)
        if self.kind in ("list", "full"):
            start = sel.get("startline", 0)
            # line numbers count from 1 and include the short lines
            out, line, it = [], 0, iter(self.lines)
            k = 0
            lo = sel.get("min_select_mass", 0.0) / unit
            hi = sel.get("max_select_mass")
            for line, text in enumerate(self.lines, 1):
                if " " not in text.strip():
                    continue
                if line >= start:
                    m = self.rows[k][-3]
                    if m > lo and (hi is None or m < hi / unit):
                        out.append(k)
                k += 1
            rows = out
        if mx >= 0:
            rows = rows[:mx]
        return rows

    def check(self, h, sel, t):
        unit = t.conv.M_grid * t.const.solar_masses_per_gram
        want = self.expect(sel, unit)
        if len(h.halos) != len(want):
            return "%d halos instead of %d" % (len(h.halos), len(want))
        for o, k in zip(h.halos, want):
            v = self.rows[k]
            if self.kind == "list":
                exp = dict(pos=v[:3], pos_cm=v[3:6], vel=v[6:9], l=v[9:12], m=v[16], mp=v[17], solar_masses=v[-3] * unit)
            elif self.kind == "full":
                L = float(h.box_len)
                exp = dict(pos=np.mod(v[:3] * L / t.conv.nbox_fine, L), pos_cm=np.mod(v[3:6] * L / t.conv.nbox_fine, L),
                           vel=v[6:9] * t.conv.velconvert(self.z), vel_disp=v[12:15] * t.conv.velconvert(self.z),
                           m=v[16] * unit * t.const.h, mp=v[17], solar_masses=v[-3] * unit)
            else:
                i = self.ix
                exp = dict(pos=v[i["x"]:i["x"] + 3], vel=v[i["vx"]:i["vx"] + 3], l=v[i["jx"]:i["jx"] + 3], m=v[i["mvir"]],
                           r=v[i["rvir"]], vel_disp=v[i["vrms"]], mp=int(round(v[i["mvir"]] / self.pm, 0)))
            for a, b in exp.items():
                if not np.allclose(getattr(o, a), b, rtol=1e-9, atol=0):
                    return "halo %d: %s is %s instead of %s" % (k, a, getattr(o, a), b)
        if self.kind in ("list", "full") or self.kind.startswith("rock"):
            if abs(h.z - self.z) > 1e-5:
                return "z is %s" % h.z
        if self.kind == "list":
            return None
        return simfiles.columns(h, ("m", "pos", "vel", "vel_disp", "l") + (("pos_cm",) if self.kind == "full" else ("r",)))


def selection(ctx, cat, unit):
    ch = ctx.ch
    sel = {}
    if ch.flag(0.4):
        sel["max_select_number"] = ch.pick([-1, 0, 1, 2, 3, 5, cat.n, cat.n + 1])
    if cat.kind in ("list", "full"):
        if ch.flag(0.3):
            sel["min_select_mass"] = ch.draw(999) * unit + 0.37 * unit
        if ch.flag(0.3):
            sel["max_select_mass"] = ch.draw(999) * unit + 0.61 * unit
        if ch.flag(0.2):
            sel["startline"] = ch.draw(cat.n + 2)
    return sel


def spoil(ctx, d, cat):
    """A malformed line, a missing file or failing operations. Returns the I/O plan."""
    ch = ctx.ch
    how = ch.pick(["malformed", "missing", "io", "garbage"] + ["cut"] * bool(cat.n))
    ctx.fault("bad_catalogue_" + how)
    if how == "missing":
        d.poke(cat.path, None)
    elif how == "malformed":
        L = list(cat.lines)
        if cat.kind.startswith("rock"):
            k = ch.draw(len(L))
        else:
            k = ch.draw(max(1, len(L)))
        L[k:k + 1] = [ch.pick(["1.0 x 2.0 y", "nan? ? ? ? ?", "1 2 3 4 5 6", "a b c d e f g h i j k l m n o p q r s t u v"])]
        d.poke(cat.path, ("\n".join(L) + "\n").encode())
    elif how == "cut":                  # in the middle of the last halo
        last = cat.lines[-1].split()
        d.poke(cat.path, ("\n".join(cat.lines[:-1] + [" ".join(last[:2 + ch.draw(17 if cat.kind in ("list", "full") else 10)])])).encode())
    elif how == "garbage":
        d.poke(cat.path, b"\xff\xfe\x00\x80\xc3\x28" * 50)
    else:
        return how, {ch.draw(4): ("err", ch.pick([errno.EIO, errno.EACCES, errno.EMFILE]))}
    return how, {}


def run(ctx):
    ch = ctx.ch
    threads = ch.flag(0.5)
    w = World(ctx, tracing=threads)
    d = w.use_disk()
    node = w.spawn("session")
    with node:
        t = node.t2c
        t.set_sim_constants(244)
        unit = t.conv.M_grid * t.const.solar_masses_per_gram
        cats = [Cat(ctx, d, i) for i in range(2 + ch.draw(2))]
        if threads:
            concurrent(ctx, w, d, node, cats, unit)
            return
        for r in range(3 + ch.draw(4)):
            cat = ch.pick(cats)
            sel = selection(ctx, cat, unit)
            if ch.flag(0.45):
                how, plan = spoil(ctx, d, cat)
                if how == "cut":            # masses may be selected: whether the cut halo is one of them cannot be known
                    sel = {k: v for k, v in sel.items() if k.endswith("select_mass")}
                ctx.log("bad read", cat.name, how, sorted(plan))
                ctx.schedule("bad", cat.kind, how, sorted(plan))
                d.arm(plan)
                err = got = None
                try:
                    got = cat.read(t, sel, ch.flag(0.5))
                except Violation:
                    raise
                except BaseException as e:
                    err = e
                fired = d.fired
                d.disarm()
                d.poke(cat.path, cat.text.encode())
                if how == "missing":
                    ctx.check(err is not None, "missing-accepted", "%s: reading a missing catalogue returned" % cat.name)
                if how == "cut":
                    ctx.check(err is not None, "cut-accepted", lambda: "%s (%s, %d halos), cut in the last halo: the read returned %d halos" % (
                        cat.name, cat.kind, cat.n, len(got.halos)))
                if how == "io" and got is not None:
                    ctx.check(cat.check(got, sel, t) is None, "io-error-accepted", lambda: "%s: %s" % (cat.name, cat.check(got, sel, t)))
                if how == "io" and err is not None:
                    ctx.check(fired, "read-failed", lambda: "%s: %r" % (cat.name, err))
                if ch.flag(0.5):
                    err = None          # drop the exception and the frames it holds
                cat = ch.pick(cats)
                sel = selection(ctx, cat, unit)
            ctx.log("read", cat.name, sorted(sel.items()))
            ctx.schedule("read", cat.kind, sorted(sel))
            try:
                h = cat.read(t, sel, ch.flag(0.5))
            except Violation:
                raise
            except Exception as e:
                ctx.fail("read-failed", "%s %s: %s: %s" % (cat.name, sel, type(e).__name__, e))
            bad = cat.check(h, sel, t)
            ctx.check(bad is None, "wrong-halos", lambda: "%s (%s, %d halos) %s: %s" % (cat.name, cat.kind, cat.n, sel, bad))
            if ch.flag(0.25) and cat.kind != "full":         # the same object again
                h.read_from_file(cat.path)
                bad = cat.check(h, {}, t)
                ctx.check(bad is None, "wrong-halos", lambda: "%s (%s, %d halos), object read again: %s" % (cat.name, cat.kind, cat.n, bad))


def concurrent(ctx, w, d, node, cats, unit):
    ch = ctx.ch
    jobs = []
    broken = set()
    if ch.flag(0.4):
        c = cats[ch.draw(len(cats))]
        how = ch.pick(["missing", "malformed"])
        ctx.fault("bad_catalogue_" + how)
        if how == "missing":
            d.poke(c.path, None)
        else:
            L = list(c.lines)
            L.insert(ch.draw(len(L) + 1), "broken line ? ? ? ? ? ? ? ? ? ? ? ? ? ? ? ? ?")
            d.poke(c.path, ("\n".join(L) + "\n").encode())
        broken.add(c.id)
    t = node.t2c
    for i in range(2 + ch.draw(2)):
        c = ch.pick(cats)
        jobs.append((c, selection(ctx, c, unit), ch.flag(0.5)))
    res = {}

    def body(i):
        c, sel, via = jobs[i]
        try:
            res[i] = ("ok", c.read(t, sel, via))
        except Exception as e:
            res[i] = ("err", "%s: %s" % (type(e).__name__, e))
    est = 40 * sum(len(c.lines) for c, _, _ in jobs)
    plan = w.draw_plan(est)
    s = sched.Sched(ctx, w, plan)
    for i in range(len(jobs)):
        s.spawn("reader%d" % i, (lambda i=i: body(i)), node)
    s.run()
    for i, (c, sel, _) in enumerate(jobs):
        st, got = res.get(i, ("err", "thread did not finish"))
        what = "thread %d, %s (%s, %d halos) %s" % (i, c.name, c.kind, c.n, sel)
        if c.id in broken:
            continue
        ctx.check(st == "ok", "concurrent-failed", lambda: "%s: %s" % (what, got))
        bad = c.check(got, sel, t)
        ctx.check(bad is None, "concurrent-wrong", lambda: "%s: %s" % (what, bad))
    for c in cats:
        if c.id in broken:
            d.poke(c.path, c.text.encode())
        h = c.read(t, {}, True)
        bad = c.check(h, {}, t)
        ctx.check(bad is None, "wrong-halos", lambda: "%s afterwards: %s" % (c.name, bad))
