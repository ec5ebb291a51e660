"""A seeded random product is reproducible in any session."""
import random

import numpy as np

from sim import sched
from sim.core import Violation
from sim.world import World, hot_codes
from . import ops, parops
from .T01 import brief

# continuous unseeded products: two realisations coincide only if the stream does not move
MOVING = ("grf", "foreground", "noise_map", "noise_cube_coeval", "noise_lightcone")


class Seeded:
    """A product asked for with a seed."""

    def __init__(self, ctx):
        ch = ctx.ch
        self.seed = ch.pick([1, 7, 42, 2 ** 31 - 1, 12345, 1001, 65543, 2 ** 32 - 1])
        st = ch.pick([int, int, np.int64, np.uint32])
        k = ch.draw(4)
        box = ch.pick([100., 150.])
        if k == 0:
            self.label, self.fn, self.args = "make_gaussian_random_field", "make_gaussian_random_field", (
                ch.pick([[6, 6, 6], [4, 4, 8], [5, 5]]), box, ch.pick([ops.ps_a, ops.ps_b]))
            self.kw = {"random_seed": st(self.seed)}
        elif k == 1:
            r = np.random.RandomState(ctx.npseed())
            self.label, self.fn, self.args = "make_gaussian_random_field_like_field", "make_gaussian_random_field_like_field", (
                r.normal(0, 1, (6, 6, 6)), box)
            self.kw = {"random_seed": st(self.seed), "kbins": ch.pick([5, 4])}
        elif k == 2:
            self.label, self.fn, self.args = "galactic_synch_fg", "galactic_synch_fg", (ch.pick([8., np.array([7., 8.])]), ch.pick([6, 8]), box)
            self.kw = {"rseed": st(self.seed)}
        else:
            self.label, self.fn, self.args = "extragalactic_pointsource_fg", "extragalactic_pointsource_fg", (
                ch.pick([8., np.array([7., 8.])]), ch.pick([6, 8]), box)
            self.kw = {"rseed": st(self.seed), "S_max": ch.pick([100, 80])}

    def make(self, node, seed=None):
        kw = dict(self.kw)
        if seed is not None:
            kw["rseed" if "rseed" in kw else "random_seed"] = seed
        return getattr(node.t2c, self.fn)(*ops.copy_args(self.args), **kw)

    def in_workers(self, node, n, jobs):
        import joblib
        f = getattr(node.t2c, self.fn)
        return joblib.Parallel(n_jobs=jobs)(joblib.delayed(f)(*ops.copy_args(self.args), **self.kw) for _ in range(n))


def repr_bytes(v):
    if isinstance(v, (list, tuple)):
        return [repr_bytes(x) for x in v]
    if isinstance(v, np.ndarray) or np.isscalar(v) and not isinstance(v, str):
        a = np.asarray(v)
        return a.dtype.str, a.shape, a.tobytes() if a.dtype != object else ""
    return str(v) if isinstance(v, str) else type(v).__name__


def state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:], random.getstate()


def history(ctx, node, g, n):
    """Draws, seeds and products made earlier in a session. node is active."""
    ch = ctx.ch
    for _ in range(n):
        k = ch.draw(6)
        ctx.log("history", k)
        ctx.schedule("h", k)
        if k == 0:
            np.random.seed(ch.draw(50))
        elif k == 1:
            np.random.normal(size=1 + ch.draw(7))       # odd counts leave half a pair behind
        elif k == 2:
            random.random()
            np.random.rand(1 + ch.draw(4))
        elif k == 3:
            try:
                Seeded(ctx).make(node)
            except Exception:
                pass
        elif k == 4:
            ops.draw_call(ctx, g, rand=True).invoke(node, seed=False)
        else:
            node.t2c.set_verbose(ch.flag(0.5))
        ctx.fault("earlier_random_use")


def run(ctx):
    ch = ctx.ch
    mode = ch.weighted([(4, "seeded"), (3, "session"), (3, "threads"), (1, "workers"), (2, "moving")])
    w = World(ctx, tracing=mode == "threads")
    w.cpus = 1 + ch.draw(4)
    g = ops.G(ctx)
    ctx.schedule(mode)
    ctx.nontrivial = True
    node = w.spawn("session")
    {"seeded": seeded, "session": session, "threads": threads, "workers": workers, "moving": moving}[mode](ctx, ch, w, node, g)


def reference(w, p, seed=None):
    ref = w.spawn("ref")
    with ref:
        l0, h0 = w.lines, w.hot_lines
        w.hot = hot_codes(ref)
        v = p.make(ref, seed)
    w.kill(ref)
    return v, w.lines - l0, w.hot_lines - h0


def seeded(ctx, ch, w, node, g):
    p = Seeded(ctx)
    want = reference(w, p)[0]
    with node:
        for i in range(1 + ch.draw(3)):
            history(ctx, node, g, ch.draw(4))
            a = state()
            got = p.make(node)
            ctx.value(repr_bytes(got))
            what = "%s with seed %d, time %d" % (p.label, p.seed, i)
            ctx.log(what)
            ctx.schedule(what)
            ctx.check(parops.eq(want, got), "not-reproducible", lambda: "%s: %s, in a fresh session: %s" % (what, brief(("ok", got)), brief(("ok", want))))
            ctx.check(state() == a, "stream-disturbed", "%s changed the session's own random stream" % what)
            if ch.flag(0.3):
                step = ch.pick([1, 2, 100, 1000, 2 ** 8, 10 ** 4, 2 ** 16, 10 ** 6, 2 ** 31])
                other = p.make(node, p.seed - step if p.seed > step else p.seed + step)
                ctx.check(not parops.eq(want, other), "seed-ignored", "%s: another seed gives the same array" % what)
            if isinstance(got, np.ndarray) and ch.flag(0.3):
                got[...] = 0            # the caller owns what it got


def session(ctx, ch, w, node, g):
    """Seeding the session reproduces unseeded products, whatever happened before."""
    cs = [ops.draw_call(ctx, g, rand=True) for _ in range(1 + ch.draw(3))]
    seed = ch.draw(100)
    out = []
    for k in range(2):
        n = node if k == 0 else w.spawn("other")
        with n:
            w.clock.mode = ch.pick(["tick", "tick", "jumpy", "frozen"])
            history(ctx, n, g, ch.draw(3))
            p = Seeded(ctx) if ch.flag(0.4) else None
            at = ch.draw(len(cs) + 1)
            n.t2c.set_sim_constants(244)
            np.random.seed(seed)
            random.seed(seed)
            vals = []
            for i, c in enumerate(cs):
                if p is not None and i == at:
                    p.make(n)           # a seeded product in between takes nothing from the stream
                vals.append(c.invoke(n, seed=False))
            out.append(vals)
    for i, c in enumerate(cs):
        ctx.log(c.label)
        ctx.schedule(c.label)
        ctx.value(repr_bytes(ops.norm(out[0][i])))
        ctx.check(ops.agree(out[0][i], out[1][i]), "session-seed-ignored",
                  lambda: "%s (number %d of %s) after seeding the session with %d: %s and %s" % (
                      c.label, i, [x.label for x in cs], seed, brief(out[0][i]), brief(out[1][i])))


def threads(ctx, ch, w, node, g):
    ps = [Seeded(ctx)]
    for i in range(1 + ch.small(2, 0.3)):
        ps.append(Seeded(ctx) if ch.flag(0.6) else ps[0])
    refs = [reference(w, p) for p in ps]
    noise = ops.draw_call(ctx, g, rand=True) if ch.flag(0.6) else None
    est, hot = sum(r[1] for r in refs), sum(r[2] for r in refs)
    if hot and ch.flag(0.4):
        s = sched.Sched(ctx, w, [], hot_plan=w.draw_plan(hot, 6))
    else:
        s = sched.Sched(ctx, w, w.draw_plan(est, 8))
    ts = [s.spawn("p%d" % i, (lambda p=p: p.make(node)), node) for i, p in enumerate(ps)]
    if noise is not None:
        s.spawn("noise", lambda: noise.invoke(node, seed=False), node)
    s.run()
    ctx.stats["fault:thread_switch"] += s.switches
    ctx.schedule(s.switches)
    for p, r, t in zip(ps, refs, ts):
        if t.exc is not None:
            raise t.exc
        ctx.log(p.label, p.seed)
        ctx.check(parops.eq(r[0], t.result), "not-reproducible", lambda: "%s with seed %d beside other random users: %s, alone: %s" % (
            p.label, p.seed, brief(("ok", t.result)), brief(("ok", r[0]))))


def workers(ctx, ch, w, node, g):
    p = Seeded(ctx)
    want = reference(w, p)[0]
    with node:
        history(ctx, node, g, ch.draw(3))
        n, jobs = 1 + ch.draw(4), 1 + ch.draw(4)
        for i, v in enumerate(p.in_workers(node, n, jobs)):
            ctx.check(parops.eq(want, v), "not-reproducible", lambda: "%s with seed %d in worker task %d of %d, %d jobs: %s, alone: %s" % (
                p.label, p.seed, i, n, jobs, brief(("ok", v)), brief(("ok", want))))
    ctx.fault("worker_process")


def moving(ctx, ch, w, node, g):
    """Unseeded realisations in one session differ from one another."""
    names = [r for r in ops.REG if r[1] in MOVING]
    r = names[ch.draw(len(names))]
    ctx.schedule(r[1])
    c = ops.Call(*r[:2], r[2], r[3], g)
    with node:
        if ch.flag(0.7):
            np.random.seed(ch.draw(100))
        if ch.flag(0.4):
            Seeded(ctx).make(node)
        a = c.invoke(node, seed=False)
        if ch.flag(0.4):
            Seeded(ctx).make(node)
        b = c.invoke(node, seed=False)
        ctx.check(a[0] == "ok" and b[0] == "ok", "failed", lambda: "%s: %s %s" % (c.label, a, b))
        ctx.check(not ops.agree(a, b), "repeated-realisation", "%s without a seed gave the same array twice in one session" % c.label)
        v = a[1]
        if c.label in ("noise_cube_coeval", "noise_lightcone"):
            x = np.asarray(v[0] if isinstance(v, tuple) else v)
            for k in range(1, x.shape[-1]):
                ctx.check(not np.array_equal(x[..., k], x[..., k - 1]), "repeated-realisation",
                          "%s: slices %d and %d hold the same noise" % (c.label, k - 1, k))
    ctx.fault("earlier_random_use")
