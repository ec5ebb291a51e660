"""Setting the cosmology or the box takes full effect or none."""
import importlib
import os

import numpy as np

from sim.world import World

NBOX = {425: 10976, 114: 6144, 64: 3456, 37: 2048, 500: 13824, 244: 8000, 47: 3456, 200: 3456}
PARAMS = {
    "h": ("set_hubble_h", [0.678, 0.5, 0.72, 1.0, 0.7]),
    "Omega0": ("set_omega_matter", [0.31, 0.24, 1.0, 0.9, 0.27]),
    "lam": ("set_omega_lambda", [0.69, 0.6, 0.0, 0.8, 0.73]),
    "OmegaB": ("set_omega_baryon", [0.05, 0.02, 0.044]),
    "n_s": ("set_ns", [0.97, 1.0, 0.96]),
    "sigma_8": ("set_sigma_8", [0.82, 0.75, 0.8]),
    "abu_he_mass": ("set_abundance_helium", [0.24, 0.0, 0.2486]),
}
BAD = [None, "x", [], {}, (), "0.7x", object]
BAD_BOX = [123., -1., float("nan"), 0., None, "x", [], 38, 1e9]
CONST = ["abu_he", "abu_h", "c", "pc", "Mpc", "G_grav", "c_light_cgs", "c_light_SI", "KB_SI", "janskytowatt", "m_p",
         "solar_masses_per_gram", "kms", "yr_in_sec", "Tcmb0", "A10", "nu0", "Tstar", "lambda0"]


class Model:
    """The settings by their definitions."""

    def __init__(self, k):
        self.k = k                  # physical constants of the package, which nothing sets
        self.p = dict(h=0.7, Omega0=0.27, OmegaB=0.044, lam=0.73, OmegaL=0.73, n_s=0.96, sigma_8=0.8, abu_he_mass=0.2486)
        self.set_box(244.0)

    def copy(self):
        m = Model.__new__(Model)
        m.k, m.p, m.box = self.k, dict(self.p), dict(self.box)
        return m

    def set(self, name, v):
        self.p[name] = v
        if name == "Omega0":
            self.p["lam"] = 1.0 - v
        elif name == "lam":
            self.p["OmegaL"] = v

    def rho_crit(self):
        H = 100.0 * self.p["h"] * 1e5 / self.k["Mpc"]
        return 3.0 * H ** 2 / (8.0 * np.pi * self.k["G_grav"])

    def derived(self):
        p, k = self.p, self.k
        n_h = (1 - p["abu_he_mass"]) * p["OmegaB"] * self.rho_crit() / k["m_p"]
        return dict(p, H0=100.0 * p["h"], q0=0.5 * p["Omega0"] - p["lam"], abu_h_mass=1 - p["abu_he_mass"],
                    mean_molecular=1 / (1 - p["abu_he_mass"]), H0cgs=100.0 * p["h"] * 1e5 / k["Mpc"],
                    rho_crit_0=self.rho_crit(), rho_matter=self.rho_crit() * p["Omega0"], num_h_0=n_h,
                    meandt=3.0 * k["lambda0"] ** 3 / (32 * np.pi) * k["A10"] * k["Tstar"] * n_h / (100.0 * 1e5 / k["Mpc"]) * 1000.)

    def set_box(self, b):
        d = self.derived()
        LB, n = b / d["h"], NBOX[int(b)]
        m = d["rho_matter"] * (LB * self.k["Mpc"]) ** 3
        self.box = dict(boxsize=b, LB=LB, nbox_fine=n, M_box=m, M_grid=m / float(n) ** 3, lscale=LB / n * self.k["Mpc"],
                        tscale=2.0 / (3.0 * np.sqrt(d["Omega0"]) * d["H0"] / self.k["Mpc"] * 1e5))


def close(a, b, rtol=1e-9):
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-300


def snapshot(node):
    out = {}
    for m in ("const", "conv"):
        for k, v in vars(importlib.import_module("tools21cm." + m)).items():
            if not k.startswith("_") and isinstance(v, (int, float, str, np.generic)):
                out[m + "." + k] = v
    return out


def mismatch(node, model):
    """First setting that differs from the model, or None."""
    const, conv = (importlib.import_module("tools21cm." + m) for m in ("const", "conv"))
    for mod, want in ((const, model.derived()), (conv, model.box), (const, model.k)):
        for k, v in want.items():
            got = getattr(mod, k, None)
            if isinstance(got, bool) or not isinstance(got, (int, float, np.generic)) or not close(float(got), float(v)):
                return "%s.%s is %r, %.10g expected" % (mod.__name__, k, got, v)
    return None


def E(model, z):
    p = model.p
    return np.sqrt(p["Omega0"] * (1 + z) ** 3 + p["lam"])


def consumers(ctx, node, model, ch, small):
    """What the functions that use the settings make of them."""
    t, p, b, k = node.t2c, model.p, model.box, model.k
    z = [7.0, 9.1, 6.0, 12.5][ch.draw(4)]
    H = 100.0 * p["h"] * E(model, z)

    def want(got, exp, what, rtol=1e-7):
        ctx.check(close(float(got), float(exp), rtol), "stale-" + what,
                  lambda: "%s gives %r, the settings in force imply %.10g (%r, box %r)" % (what, got, exp, p, b["boxsize"]))
    which = ch.draw(7)
    if which == 0:
        want(t.const.Hz(z), H, "Hz")
        want(t.cosmo.hubble_parameter(z), H, "hubble_parameter")
    elif which == 1:
        want(t.conv.gridpos_to_mpc(3.0), 3 * b["lscale"] / k["Mpc"], "gridpos_to_mpc")
        want(t.conv.gridvel_to_kms(2.0, z), 2 * b["lscale"] / b["tscale"] * (1 + z) / 1e5, "gridvel_to_kms")
        want(t.conv.velconvert(z), b["lscale"] / b["tscale"] * (1 + z) / 1e5, "velconvert")
        want(t.conv.gridmass_to_msol(5.0), np.log10(5.0 * b["M_grid"] * k["solar_masses_per_gram"]), "gridmass_to_msol")
    elif which == 2:
        x = np.linspace(0, z, 4001)
        f = 1.0 / E(model, x)
        d = k["c"] / (100 * p["h"]) * (x[1] - x[0]) / 3 * (f[0] + f[-1] + 4 * f[1:-1:2].sum() + 2 * f[2:-1:2].sum())
        want(t.cosmo.z_to_cdist(z), d, "z_to_cdist", 1e-6)
        want(t.z_to_cdist(z), d, "z_to_cdist", 1e-6)
    elif which == 3:
        e = np.sqrt(p["Omega0"] * (1 + z) ** 3 + p["lam"] + (1 - p["Omega0"] - p["lam"]) * (1 + z) ** 2)
        want(t.mean_dt(z), model.derived()["meandt"] / p["h"] * (1 + z) ** 2 / e, "mean_dt")
    elif which == 4:
        a, ka = t.power_spectrum_1d(small, kbins=3)
        c, kc = t.power_spectrum_1d(small, kbins=3, box_dims=b["LB"])
        ctx.check(np.allclose(ka, kc, rtol=1e-9, equal_nan=True) and np.allclose(a, c, rtol=1e-9, equal_nan=True),
                  "stale-default-box", lambda: "the default box of a power spectrum is not the box in force (LB %r)" % b["LB"])
    elif which == 5:
        r = np.exp(small) * 1e-30
        want(np.mean(t.calc_dt(np.zeros_like(small), r, z)),
             np.mean(r) / (model.rho_crit() * p["OmegaB"]) * model.derived()["meandt"] / p["h"] * (1 + z) ** 2 / np.sqrt(
                 p["Omega0"] * (1 + z) ** 3 + p["lam"] + (1 - p["Omega0"] - p["lam"]) * (1 + z) ** 2), "calc_dt", 1e-6)
    else:
        x = np.linspace(0, 1 / (1 + z), 4001)[1:]
        want(t.cosmo.z_to_nu(z), k["nu0"] / (1 + z), "z_to_nu", 1e-2)


def run(ctx):
    ch = ctx.ch
    w = World(ctx, tracing="points")
    node = w.spawn("session")
    with node:
        const = importlib.import_module("tools21cm.const")
        model = Model({k: getattr(const, k) for k in CONST})
        bad = mismatch(node, model)
        ctx.check(bad is None, "default-settings", bad)
    small = np.random.RandomState(ctx.npseed()).normal(0, 1, (4, 4, 4))
    d = w.use_disk()
    cat = None
    n = 2 + ch.draw(7)
    for i in range(n):
        kind = ch.weighted([(6, "param"), (4, "box"), (2, "bad-param"), (2, "bad-box"), (1, "reader"), (1, "restart"), (1, "same")])
        strike = kind in ("param", "box", "reader", "same") and ch.flag(0.25)
        before = model
        after = model.copy()
        if kind == "restart":
            w.kill(node)
            node = w.spawn("session%d" % i)
            model = Model(model.k)
            ctx.log("restart")
            ctx.schedule("restart")
            continue
        fn, arg = None, None
        if kind in ("param", "bad-param"):
            name = ch.pick(list(PARAMS))
            fname, vals = PARAMS[name]
            if kind == "param":
                arg = vals[ch.draw(len(vals))]
                if ch.flag(0.2):
                    arg = np.float64(arg)
                after.set(name, float(arg))
            else:
                arg = BAD[ch.draw(len(BAD))]
            top = ch.flag(0.5)
            fn = lambda: getattr(node.t2c if top else node.t2c.const, fname)(arg)  # noqa
            label = "%s(%r)" % (fname, arg)
        elif kind in ("box", "bad-box", "same"):
            if kind == "same":
                arg = model.box["boxsize"]
            elif kind == "box":
                arg = sorted(NBOX)[ch.draw(len(NBOX))]
                arg = float(arg) if ch.flag(0.5) else arg
            else:
                arg = BAD_BOX[ch.draw(len(BAD_BOX))]
            if kind != "bad-box":
                after.set_box(float(arg))
            fn = lambda: node.t2c.set_sim_constants(arg)  # noqa
            label = "set_sim_constants(%r)" % (arg,)
        else:
            arg = sorted(NBOX)[ch.draw(len(NBOX))]
            how = ch.draw(3)        # box only; a readable catalogue; a missing one
            after.set_box(float(arg))
            if cat is None:
                cat = os.path.join(d.root, "7.000halos.dat")
                with open(cat, "w") as f:
                    f.write("")
            path = [None, cat, os.path.join(d.root, "8.000halos.dat")][how]
            fn = lambda: node.t2c.HaloCubeP3MFull(path, box_len=arg)  # noqa
            label = "HaloCubeP3MFull(box_len=%r) #%d" % (arg, how)
        ctx.log(label)
        with node:
            was = snapshot(node)
            if strike:
                at = 1 + ch.small(12, 0.7)
                w.arm_strike("interrupt", at)
            try:
                fn()
                res = "done"
            except Exception as e:
                res = type(e).__name__
            except KeyboardInterrupt:
                res = "interrupted"
                ctx.fault("interrupt")
                ctx.schedule(label, at)
            w.strike = None
            ctx.log("->", res, w.struck if res == "interrupted" else "")
            if res == "done":
                if kind.startswith("bad"):
                    ctx.probe("bad value accepted")
                    return          # a value the library takes: what it means is undefined here
                model = after
            elif res == "interrupted" or kind == "reader":
                ctx.probe("cut short" if res == "interrupted" else "reader failed")
                m0, m1 = mismatch(node, before), mismatch(node, after)
                ctx.check(m0 is None or m1 is None, "half-applied",
                          lambda: "%s was %s (%s) and left a mixture: %s; %s" % (label, res, w.struck, m0, m1))
                model = after if m1 is None else before
            else:
                ctx.check(kind.startswith("bad"), "refused", lambda: "%s raised %s" % (label, res))
                ctx.fault("invalid_value")
                ctx.schedule(label)
                ctx.probe("rejected")
                now = snapshot(node)
                diff = [k for k in was if k in now and not (was[k] == now[k] or was[k] != was[k])] + [k for k in was if k not in now]
                ctx.check(not diff, "rejected-but-changed", lambda: "%s raised %s yet changed %s" % (label, res, diff))
                model = before
            bad = mismatch(node, model)
            ctx.check(bad is None, "wrong-settings", lambda: "after %s (%s): %s" % (label, res, bad))
            consumers(ctx, node, model, ch, small)
    ctx.nontrivial = True
    ctx.schedule(n)
