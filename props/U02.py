"""Histories of UV-map requests sharing cache files, against a model of the cache."""
import os

import numpy as np

from props import uvlib as U
from sim.core import Violation

BOXES = [244, 114, 500, 64, 200, 37, 425, 47]
COSMO = [("set_omega_matter", [0.27, 0.31, 0.24]), ("set_hubble_h", [0.7, 0.67, 0.74]), ("set_omega_lambda", [0.73, 0.69])]


def run(ctx):
    ch = ctx.ch
    w = U.new_world(ctx)
    d = w.disk
    fmts = [["pkl", "npz", "pickle"][ch.draw(3)] for _ in range(2)]
    paths = [d.path("cache%d.%s" % (i, f)) for i, f in enumerate(fmts)]
    files = {}              # path -> dict(ident, cosmo, keys, mixed)
    sess = {"cosmo": [], "box": None}
    node = w.spawn("s0")
    base = U.draw_params(ch, 0.5)
    n = 3 + ch.draw(5)
    kept = []
    for r in range(n):
        # what happens to the session before the request
        if ch.flag(0.2):
            w.kill(node)
            node = w.spawn("s%d" % (r + 1))
            sess = {"cosmo": [], "box": None}
            if ch.flag(0.5):
                sess["cosmo"] = list(files.values())[0]["setup"][0] if files else []
            U_apply(node, sess)
            ctx.fault("session_restart")
        if ch.flag(0.25):
            f, vals = COSMO[ch.draw(3)]
            v = vals[ch.draw(len(vals))]
            sess["cosmo"] = [c for c in sess["cosmo"] if c[0] != f or f == "set_omega_matter"] + [(f, v)]
            with node:
                getattr(node.t2c, f)(v)
            ctx.fault("cosmology_changed")
            ctx.log("session", f, v)
        if ch.flag(0.15):
            sess["box"] = BOXES[ch.draw(len(BOXES))]
            with node:
                node.t2c.set_sim_constants(sess["box"])
            ctx.log("session box", sess["box"])
        if ch.flag(0.2):                    # days, or years, pass; or the clock is set back
            dt = [86400.0, 4e7, 2e8, -86400.0, -4e7][ch.draw(5)]
            w.clock.now = max(1.0, w.clock.now + dt)
            ctx.fault("clock_jump")
            ctx.log("clock", dt)
        if kept and ch.flag(0.3):           # the caller reuses the dictionary an earlier request returned
            ctx.fault("caller_mutates_result")
            for k in sorted(kept[-1]):
                v = kept[-1][k]
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = -7
            if ch.flag(0.5):
                kept[-1].clear()
        p = dict(base)
        if ch.flag(0.35):
            k = U.IDENT[ch.draw(len(U.IDENT))]
            other = [v for v in U.ALT[k] if v != base[k]]
            p[k] = other[ch.draw(len(other))]
        if ch.flag(0.15):
            p["boxsize"] = None
        path = paths[ch.small(2)] if not ch.flag(0.1) else None
        zs = U.draw_zs(ch, 1, 5, dup=True)
        if ch.flag(0.15):
            zs = zs + [8]
        if ch.flag(0.1):
            zs = [7.77731 if z == 7.777 else z for z in zs]
        nj, ck = U.draw_run(ch)
        verbose = ch.flag(0.2)
        with node:
            lb = float(node.t2c.conv.LB)
            cosmo_now = (node.t2c.const.H0, node.t2c.const.Omega0, node.t2c.const.lam)
        eff = dict(p, boxsize=lb if p["boxsize"] is None else p["boxsize"])
        ident = tuple(sorted(eff.items()))
        zarg = np.array(zs, dtype=float) if ch.flag(0.5) else list(zs)
        zcopy = list(zarg)
        st = files.get(path)
        before = d.peek(path) if path else None
        ctx.log("request", r, sorted(p.items()), zs, "file", None if path is None else d.label(path), nj, ck)
        err = res = None
        d.arm()
        try:
            with node:
                res = U.request(node, p, zarg, path, nj, ck, verbose)
        except Violation:
            raise
        except BaseException as e:
            err = e
        d.disarm()
        if path and d.peek(path) not in (None, before):
            os.utime(path, (w.clock.now, w.clock.now))
        ctx.check(list(zarg) == zcopy, "argument-changed", "the list of redshifts was modified")
        ctx.schedule(r, path is not None, ident != (st or {}).get("ident"), nj > 1)
        if r:
            ctx.nontrivial = True
        what = "request %d" % r
        if st is not None and ident != st["ident"]:
            ctx.probe("mismatch")
            ctx.check(err is not None, "mismatch-accepted",
                      lambda: "%s: the file was built with %s, the request wants %s, and is served" % (what, st["ident"], ident))
            ctx.check(isinstance(err, Exception), "mismatch-" + type(err).__name__, lambda: "%s: %r" % (what, err))
            ctx.check(d.peek(path) == before, "mismatch-file-changed", "%s: a refused request changed the file" % what)
            continue
        othercosmo = st is not None and cosmo_now != st["cosmo"]
        if err is not None and othercosmo:
            ctx.probe("other_cosmology_refused")
            ctx.check(isinstance(err, ValueError), "refusal-%s" % type(err).__name__, lambda: "%s: %r" % (what, err))
            ctx.check(d.peek(path) == before, "mismatch-file-changed", "%s: a refused request changed the file" % what)
            continue
        if err is not None:
            ctx.fail("request-failed", "%s fails: %s: %s" % (what, type(err).__name__, str(err)[:300]))
        cos = tuple(sess["cosmo"])
        U.check_result(ctx, w, res, eff, zs, cos, what)
        kept.append(res)
        if path is None:
            continue
        if st is None:
            st = files[path] = dict(ident=ident, eff=eff, cosmo=cosmo_now, setup=(list(sess["cosmo"]),), zs=[], mixed=False)
        if othercosmo:
            st["mixed"] = True
        for z in zs:
            if U.key(z) not in [U.key(x) for x in st["zs"]]:
                st["zs"].append(z)
        if st["mixed"]:
            s, data = U.read(w, path)
            ctx.check(s == "ok" and {U.key(z) for z in st["zs"]} <= set(data), "cache-lost-maps",
                      "%s: maps stored earlier are gone" % what)
        else:
            U.check_stored(ctx, w, path, st["eff"], st["zs"], {U.key(z) for z in st["zs"]}, tuple(st["setup"][0]), what)


def U_apply(node, sess):
    with node:
        U.set_cosmo(node, sess["cosmo"])
        if sess["box"] is not None:
            node.t2c.set_sim_constants(sess["box"])
