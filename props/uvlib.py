"""Shared workload and oracle for the UV-map cache properties."""
import numpy as np

from sim.core import Violation
from sim.world import World

ZS = [6.5, 7.0, 7.25, 7.777, 8.0, 8.4, 9.0, 9.123, 9.5, 10.0, 11.2]
NEAR = {7.777: [7.773, 7.779], 9.123: [9.124, 9.12], 8.0: [8.001, 8.04], 10.0: [10.003, 10.04], 7.0: [6.999]}
_ref = {}

BASE = dict(ncells=6, subarray_type="AA0.5", total_int_time=1., int_time=1800., boxsize=150., declination=-30.)
ALT = dict(ncells=[6, 5, 8, 7], subarray_type=["AA0.5", "AA1"], total_int_time=[1., 2., 1.25],
           int_time=[1800., 1200., 1799.96], boxsize=[150., 320., 151.5, 150.004],
           declination=[-30., 10., -29., 0., -30.0004, 30.])
IDENT = ("ncells", "boxsize", "total_int_time", "int_time", "declination", "subarray_type")


def key(z):
    return "{:.3f}".format(z)


def set_cosmo(node, cosmo):
    """cosmo: tuple of (setter, value)."""
    for f, v in cosmo:
        getattr(node.t2c, f)(v)


def draw_params(ch, vary=0.6):
    p = dict(BASE)
    if ch.flag(vary):
        for k in sorted(ALT):
            if ch.flag(0.3):
                p[k] = ALT[k][ch.draw(len(ALT[k]))]
    return p


def reference(w, p, zs, cosmo=()):
    """Maps computed from scratch by a fresh process, one redshift at a time, nothing cached."""
    pk = tuple(sorted(p.items())) + tuple(cosmo)
    miss = [z for z in zs if (pk, key(z)) not in _ref]
    if miss:
        disk_active = w.disk.active if w.disk else False
        if w.disk:
            w.disk.active = False
        hook, w.line_hook = w.line_hook, None
        mode, w.clock.mode = w.clock.mode, "tick"
        node = w.spawn("ref")
        home = w.current
        with node:
            set_cosmo(node, cosmo)
            for z in miss:
                q = dict(p)
                n = q.pop("ncells")
                m, _ = node.t2c.get_uv_map(n, z, verbose=False, **q)
                _ref[(pk, key(z))] = np.array(m)
        w.activate(home)
        w.line_hook = hook
        w.clock.mode = mode
        if w.disk:
            w.disk.active = disk_active
    return {key(z): _ref[(pk, key(z))] for z in zs}


def request(node, p, zs, path, n_jobs, checkpoint, verbose=False):
    q = dict(p)
    n = q.pop("ncells")
    return node.t2c.get_uv_map_lightcone(n, zs, save_uvmap=path, n_jobs=n_jobs, checkpoint=checkpoint,
                                         verbose=verbose, **q)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind in "fiuc" and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def read(w, path):
    """(status, dict) through the library's own reader in a fresh process with a quiet disk."""
    import os
    d = w.disk
    if d.peek(path) is None:
        return "absent", None
    act, d.active = d.active, False
    hook, w.line_hook = w.line_hook, None
    home = w.current
    node = w.spawn("observer")
    try:
        with node:
            data = node.t2c.read_dictionary_data(path)
            data = {k: data[k] for k in data}
        return ("ok", data) if isinstance(data, dict) else ("bad", "not a dictionary")
    except Violation:
        raise
    except BaseException as e:
        return "bad", "%s: %s" % (type(e).__name__, e)
    finally:
        w.activate(home)
        w.line_hook = hook
        d.active = act


def maps_in(data, pool):
    return {key(z) for z in pool if key(z) in data}


def check_stored(ctx, w, path, p, zs_all, must, cosmo=(), where="", may_absent=False):
    """The file is absent or complete; holds every redshift of `must`, all maps right."""
    st, data = read(w, path)
    if st == "absent":
        ctx.check(not must or may_absent, "cache-lost", lambda: "%s: cache file vanished, maps %s were stored" % (where, sorted(must)))
        return set()
    ctx.check(st == "ok", "cache-torn", lambda: "%s: cache file is not a readable dictionary: %s" % (where, data))
    have = maps_in(data, zs_all)
    ctx.check(set(must) <= have, "cache-lost-maps",
              lambda: "%s: stored maps %s, earlier saved %s" % (where, sorted(have), sorted(must)))
    ref = reference(w, p, [z for z in zs_all if key(z) in have], cosmo)
    for k in sorted(have):
        ctx.check(same(data[k], ref[k]), "cache-wrong-map", lambda: "%s: stored map %s differs from a fresh one" % (where, k))
    return have


def check_result(ctx, w, res, p, zs, cosmo=(), where="", keyname="wrong-map"):
    ref = reference(w, p, zs, cosmo)
    for z in zs:
        ctx.check(key(z) in res, "missing-map", lambda: "%s: no map for z=%s" % (where, key(z)))
        ctx.check(same(res[key(z)], ref[key(z)]), keyname, lambda: "%s: map for z=%s differs from a fresh one" % (where, key(z)))


def new_world(ctx, tracing=False):
    w = World(ctx, tracing=tracing)
    w.use_disk()
    w.par_readonly = ctx.ch.flag(0.3)
    w.cpus = [8, 1, 2, 4][ctx.ch.draw(4)]
    return w


def draw_run(ch):
    n_jobs = [1, 2, 3, 8, 4][ch.draw(5)]
    checkpoint = [1, 2, 3, 16, None, 4][ch.draw(6)]
    return n_jobs, checkpoint


def draw_zs(ch, lo=1, hi=6, pool=ZS, dup=False):
    n = lo + ch.draw(hi - lo + 1)
    zs = ch.shuffle(pool)[:n]
    if pool is ZS and ch.flag(0.25):            # neighbours that only the third decimal tells apart
        for z in list(zs):
            if z in NEAR and ch.flag(0.6):
                zs.append(NEAR[z][ch.draw(len(NEAR[z]))])
    if dup and ch.flag(0.2):
        zs = zs + [zs[0]]
    return zs
