"""Remaining public calls: file based temperatures and velocities, readers of other codes, rarely used branches."""
import pickle

import numpy as np
from astropy import units as U

from . import simfiles
from .ops import op
from .ops_files import named, place, plain

SERIAL = {"plot_slice_kinds", "plot_2d_power"}


def blob3(a, dtype="<f4"):
    return np.array(a.shape, dtype="<i4").tobytes() + np.asarray(a).astype(dtype).tobytes("F")


def lay(g, tag, **files):
    """Files of one call: name -> bytes; gives the session's names for them."""
    d, sub = place(g, tag)
    nm = named(g)
    out = {}
    for key, (fname, blob) in files.items():
        p = d.path(sub, fname)
        d.poke(p, blob)
        out[key] = p
    return out, nm


def xfrac_blob(a):
    n = np.array(a.shape, dtype="<i4").tobytes()
    body = np.asarray(a).astype("<f8").tobytes("F")
    i4 = lambda v: np.array([v], dtype="<i4").tobytes()
    return i4(12) + n + i4(12) + i4(len(body)) + body + i4(len(body))


def temper_blob(a):
    n = np.array(a.shape, dtype="<i4").tobytes()
    body = np.asarray(a).astype("<f4").tobytes("F")
    i4 = lambda v: np.array([v], dtype="<i4").tobytes()
    return i4(12) + n + i4(12) + i4(len(body)) + body + i4(len(body))


# ---------------------------------------------------------------- temperatures, velocities from files
@op("files")
def dt_from_files(g):
    s = g.shape()
    z = g.pick(7.059, 9.026, 12.048)
    x, r, T = g.xf(s), 1 + 9 * g.unit(s), 5 + 90 * g.unit(s)
    form = g.ch.draw(5)
    p, nm = lay(g, "t", x=("xfrac3d_%.3f.bin" % z, xfrac_blob(x)), r=("%.3fn_all.dat" % z, blob3(r)), t=("Temper3D_%.3f.bin" % z, temper_blob(T)))

    def run(t):
        X, R, Te = nm(p["x"]), nm(p["r"]), nm(p["t"])
        if form == 0:
            return t.calc_dt(X, R)
        if form == 1:
            return t.calc_dt_full(X, R, Te)
        if form == 2:
            return t.calc_dt(X, t.DensityFile(R).cgs_density)
        if form == 3:
            return t.calc_dt_full(x, t.DensityFile(R).cgs_density, Te, z)
        return t.calc_dt_full(t.XfracFile(X), t.DensityFile(R), t.TemperFile(Te), z)
    return run, (), {}


@op("files")
def kms_from_files(g):
    s = g.shape()
    z = g.pick(7.059, 9.026)
    v, r = g.norm((3,) + s), 1 + 9 * g.unit(s)
    form = g.ch.draw(4)
    n = np.array(s, dtype="<i4").tobytes()
    p, nm = lay(g, "v", v=("%.3fv_all.dat" % z, n + np.asarray(v).astype("<f4").tobytes("F")), r=("%.3fn_all.dat" % z, blob3(r)),
                dt=("dT_%.3f.cbin" % z, blob3(10 * g.unit(s)).replace(b"", b"", 0)))

    def run(t):
        V, R = nm(p["v"]), nm(p["r"])
        if form == 0:
            return t.VelocityFile(V).get_kms_from_density(R)
        if form == 1:
            return t.VelocityFile(V).get_kms_from_density(t.DensityFile(R))
        if form == 2:
            return t.read_c2ray_files(V, file_type="vel", density_file=R)
        return t.read_c2ray_files(R, file_type="dens")
    return run, (), {}


@op("files")
def pv_box_files(g):
    n = g.pick(4, 6)
    s = (n,) * 3
    z = g.pick(7.059, 9.026)
    v, r = 3 * g.norm((3,) + s), 1 + 9 * g.unit(s)
    dt = 10 * g.unit(s)
    los, num = g.axis(), g.pick(3, 5)
    h = np.array(s, dtype="<i4").tobytes()
    p, nm = lay(g, "p", v=("%.3fv_all.dat" % z, h + np.asarray(v).astype("<f4").tobytes("F")), r=("%.3fn_all.dat" % z, blob3(r)),
                dt=("dT_%.3f.cbin" % z, h + np.asarray(dt).astype("<f4").tobytes("C")))
    return (lambda t: t.make_pv_box(nm(p["dt"]), nm(p["v"]), nm(p["r"]), z, los, num)), (), {}


@op("files")
def coeval_files(g):
    """Snapshots at a few redshifts; boxes at one of them or between two."""
    s = (g.pick(4, 5),) * 3
    zs = sorted(set(g.pick((7.059, 8.515, 9.938), (6.905, 8.515), (10.11, 12.048, 9.026))))
    f = {}
    d, sub = place(g, "o")
    for z in zs:
        r = 1 + 9 * g.unit(s)
        d.poke(d.path(sub, "x", "xfrac3d_%.3f.bin" % z), xfrac_blob(g.xf(s)))
        d.poke(d.path(sub, "d", "%.3fn_all.dat" % z), blob3(r))
        d.poke(d.path(sub, "v", "%.3fv_all.dat" % z), np.array(s, dtype="<i4").tobytes() + g.norm((3,) + s).astype("<f4").tobytes("F"))
    z = g.pick(zs[0], zs[-1], (zs[0] + zs[1]) / 2, zs[0] + .1)
    which = g.pick("coeval_21cm", "coeval_xfrac", "coeval_dens", "coeval_overdens", "coeval_vel", "coeval_21cm_c2ray", "coeval_xfrac_c2ray",
                   "coeval_dens_c2ray")
    ms = g.flag()
    nm = named(g)
    X, D, V = d.path(sub, "x"), d.path(sub, "d"), d.path(sub, "v")

    def run(t):
        fn = getattr(t, which)
        if "21cm" in which:
            return fn(nm(X), nm(D), z, mean_subtract=ms)
        if "vel" in which:
            return fn(nm(D), nm(V), z)
        return fn(nm(X if "xfrac" in which else D), z)
    return run, (), {}


@op("files")
def other_codes(g):
    n = g.pick(3, 4, 6)
    a = g.norm((n, n, n))
    k = g.ch.draw(3)
    p, nm = lay(g, "q", a=("delta_T_z008.00", np.asarray(a).astype("<f4").tobytes("C")), x=("xfrac3d_%.3f.bin" % 8.515, xfrac_blob(g.xf((n,) * 3))))
    if k == 0:
        return (lambda t: t.read_21cmfast_files(nm(p["a"]))), (), {}
    if k == 1:
        return (lambda t: t.read_c2ray_files(nm(p["x"]))), (), {}
    return (lambda t: t.read_grizzly_files(nm(p["x"]))), (), {}


@op("files")
def mesh_and_kind(g):
    s = (3, 4, 5)
    files = dict(x=("xfrac3d_8.515.bin", xfrac_blob(g.xf(s))), t=("Temper3D_9.026.bin", temper_blob(g.unit(s))), r=("9.026n_all.dat", blob3(g.unit(s))),
                 c=("dt_9.cbin", blob3(g.unit(s))))
    p, nm = lay(g, "m", **files)
    key = g.pick("x", "t", "r", "c")
    what = g.ch.draw(3)

    def run(t):
        f = nm(p[key])
        if what == 0:
            return [int(v) for v in t.get_mesh_size(f)]
        if what == 1:
            a, kind = t.get_data_and_type(f)
            return np.asarray(a), kind
        return t.determine_filetype(f), float(t.determine_redshift_from_filename(f))
    return run, (), {}


@op("files")
def names_without_redshift(g):
    s = (3, 4, 5)
    k = g.ch.draw(5)
    p, nm = lay(g, "w", f=(("xfrac3d_last.bin", xfrac_blob(g.xf(s))), ("lastn_all.dat", blob3(g.unit(s))),
                           ("lastv_all.dat", np.array(s, dtype="<i4").tobytes() + g.norm((3,) + s).astype("<f4").tobytes("F")),
                           ("Temper3D_last.bin", temper_blob(g.unit(s))), ("last_c_all.dat", blob3(g.unit(s))))[k])

    def run(t):
        f = nm(p["f"])
        if k == 0:
            o = t.XfracFile(f)
            return o.xi, o.z
        if k == 1:
            o = t.DensityFile(f)
            return o.raw_density, o.cgs_density, o.z
        if k == 2:
            o = t.VelocityFile(f)
            return o.raw_velocity, o.z
        if k == 3:
            o = t.TemperFile(f)
            return o.temper, o.z
        o = t.ClumpingFile(f)
        return o.raw_clumping, o.z
    return run, (), {}


@op("files")
def save_kinds(g):
    a = g.norm((4, 4, 4))
    d, sub = place(g, "u")
    ext, kind = g.pick(("npy", None), ("pkl", None), ("cbin", None), ("fits", None), ("bin", None), ("dat", "npy"), ("dat", "pickle"), ("dat", "cbin"),
                       ("dat", None), ("dat", "bin"))
    path = d.path(sub, "cube." + ext)
    d.poke(path, b"")
    nm = named(g)

    def run(t):
        ok = t.save_data(nm(path), a, filetype=kind)
        p2 = path + ".npy" if kind == "npy" and ext == "dat" else path
        b = d.peek(p2)
        if ext == "fits":                    # the writer may stamp its header
            from astropy.io import fits
            return ok, np.array(fits.getdata(nm(path), memmap=False))
        return ok, b
    return run, (), {}


@op("files")
def dictionary_named(g):
    """The format named in the call, whatever the file is called."""
    d, sub = place(g, "z")
    fmt = g.pick("pickle", "json", "yml", "npz", "csv", "PKL", "Json")
    data = {"a": [1, 2, 3], "b": [1.5, 2.25, float(g.z())], "c": [int(x) for x in g.rng.randint(0, 99, 3)]}
    path = d.path(sub, "data.npz" if fmt == "npz" else "results.dat")
    d.poke(path, b"")
    nm = named(g)

    def run(t):
        try:
            t.write_dictionary_data(data, nm(path), format=fmt)
        except ValueError:
            return "refused"
        r = t.read_dictionary_data(nm(path), format=fmt)
        return {str(k): plain(v) for k, v in r.items()}
    return run, (), {}


@op("files")
def pkd_power(g):
    d, sub = place(g, "g")
    k = np.logspace(-2, 1, 14)
    P = 1e4 * k / (1 + (k / .1) ** 3) * np.exp(.1 * g.norm((14,)).astype("f8"))
    text = "# Power spectrum\n# z=%.3f\n# k P\n" % g.z() + "".join("%.10e %.10e 12\n" % v for v in zip(k, P))
    path = d.path(sub, "run.00100.pk")
    d.poke(path, text.encode())
    ks = g.pick(None, np.logspace(-1.5, .5, 5))
    win = g.pick(None, 3)
    box = g.pick(100., 150.)
    nm = named(g)

    def run(t):
        import tools21cm.nbody_pkdgrav as m
        r = m.PowerSpectrumPkdgrav3(box, 16, verbose=False)
        kk, pp = r.read_pk_data(nm(path), ks=ks, window_size=win)
        return np.asarray(kk), np.asarray(pp), plain(r.pk_data)
    return run, (), {}


@op("files")
def pkd_halo_table(g):
    d, sub = place(g, "h")
    kind = simfiles.PkdFof(g.ctx)
    path = d.path(sub, kind.fname)
    d.poke(path, kind.blob)
    out = d.path(sub, "halos." + g.pick("txt", "npy"))
    d.poke(out, b"")
    z, box = g.pick(None, 8., "8.515"), g.pick(100., 200.)
    nm = named(g)
    bins = g.pick(4, 5)

    def run(t):
        import tools21cm.nbody_pkdgrav as m
        r = m.HaloCataloguePkdgrav3(box, 16, verbose=False)
        r.read_fof_data(nm(path), z=z)
        a = r.array_fof_data()
        r.save_fof_data(nm(out))
        back = np.loadtxt(nm(out)) if out.endswith("txt") else np.load(nm(out))
        mm, dn = r.get_hmf_data(np.asarray(a)[:, 0], bins=bins) if len(a) else (0, 0)
        return np.asarray(a), back, mm, dn, r.dMassFac, r.dVelFac
    return run, (), {}


# ---------------------------------------------------------------- statistics
@op("power")
def bispectrum_slide(g):
    n = g.pick(8, 6)
    return "integrated_bispectrum_cross_slide", (g.unit((n,) * 3), g.unit((n,) * 3)), dict(L_subbox=n // 2, kbins=3, box_dims=g.pick(100., 150.),
                                                                                           normalize=g.flag(), verbose=False, slide_overlap=g.pick(.5, .25))


@op("power")
def fft_of(g):
    f = g.pick("power_spect_fast:_get_k", "power_spectrum:_get_k")
    s = g.pick((6,), (5, 6), (4, 4, 6))
    return f, (g.norm(s), [100., 120., 140.][:len(s)] if f.startswith("power_spectrum") else g.pick(100., 150.)), {}


@op("power")
def wedge_power(g):
    def f(t, a, **kw):
        import tools21cm.power_spect_fast as m
        return m.power_spect_2d(a, **kw)
    return f, (g.norm(),), dict(kbins=g.pick(3, [3, 4]), box_dims=g.pick(100., [100., 100., 100.]), nu_axis=g.axis())


@op("topology", rand=True)
def mfp_point(g):
    s = (6, 6, 6) if g.flag(.7) else (6, 6)
    x = g.binary(s, p=.6)
    pt = tuple(int(v) for v in g.rng.randint(0, 6, len(s)))
    x[pt] = 1
    return "mfp_from_point", (x, list(pt)), dict(xth=.5, boxsize=g.box(), iterations=g.pick(200, 300), verbose=False, upper_lim=False)


@op("topology", rand=True)
def averaged_mfp_edges(g):
    x = np.zeros((5, 5, 5)) if g.flag() else g.binary((5, 5, 5), p=.5)
    return "averaged_mfp", (x,), dict(xth=.5, boxsize=g.box(), iterations=20, rays_per_point=20, n_jobs=1, verbose=False, upper_lim=g.flag())


@op("topology")
def watershed_h(g):
    s = (9, 9, 9) if g.flag(.6) else (12, 12)
    x = g.binary(s, p=.6).astype(float)
    return "bubble_stats:_watershed", (x > .5,), dict(h=g.pick(None, .5, .2), verbose=False)


@op("topology")
def watershed_boxes(g):
    low = g.flag()
    return "watershed_bsd", (g.unit((9, 9, 9)),), dict(xth=.7 if low else g.pick(.3, .4), boxsize=g.box(), verbose=False, upper_lim=low, h=g.pick(None, .1))


@op("topology")
def rebinned(g):
    r = np.linspace(1., 60., 20)
    b = g.pick(5, np.array([3., 9., 20.]))
    return "rebin_bsd", (r, g.unit((20,))), dict(bins=b)


@op("topology")
def volumes(g):
    v = g.rng.randint(1, 60, 30)
    return "dist_from_volumes", (v,), dict(resolution=g.pick(1., 2.), bins=g.pick(5, 8), null_factor=g.pick(None, .1))


@op("topology")
def erode(g):
    x = g.binary((7, 7, 7), p=.9) > .5
    b = np.zeros((3, 3, 3))
    b[1, 1] = b[1, :, 1] = b[:, 1, 1] = 1
    if g.flag():
        return "morph:_erode_v1", (x, b, 1), {}
    return "morph:" + g.pick("binary_dilation", "binary_erosion", "binary_opening"), (x.astype(float), b), {}


@op("topology")
def fof_1d(g):
    return "Friends_of_Friends:" + "FoF_search", (g.unit(g.pick((12,), (6, 6), (4, 4, 4))), g.pick(.4, .6)), {}


@op("topology")
def slic(g):
    def f(t, a, **kw):
        return np.asarray(t.slic_cube(a, **kw))
    return f, (g.unit((8, 8, 8)),), dict(n_segments=g.pick(8, 12), compactness=g.pick(.1, 1.), max_iter=3, verbose=False)


@op("topology")
def super_means(g):
    d = g.norm((6, 6, 6))
    f = g.pick("get_superpixel_means", "get_superpixel_sigmas", "get_superpixel_pixels")
    lab = g.rng.randint(0, 4, (6, 6, 6))
    lab.flat[:4] = [0, 1, 2, 3]

    def run(t, d, lab, **kw):
        r = getattr(t, f)(d, labels=lab, **kw)
        return [np.asarray(x) for x in r] if f == "get_superpixel_pixels" else r
    return run, (d, lab), {}


@op("statistics")
def triangular(g):
    a = 1 + g.unit((12,)).astype("f8")
    return "find_idx", (np.sort(a)[::g.pick(1, -1)], a[:4] + .01), {}


# ---------------------------------------------------------------- astronomy, Lyman alpha, line intensity
@op("cosmology")
def apparent(g):
    return "muv_to_Muv", (g.pick(27., 26.5) * U.mag, g.z()), dict(cosmo=g.cosmo())


@op("temperature")
def voigt_direct(g):
    return "lyman_alpha_transmission:direct_voigt_profile", (np.linspace(-2, 2, 5), g.pick(.5, .2)), {}


@op("temperature")
def lya_unitless(g):
    return "lyman_alpha_transmission:lyA_scattering_cross_section", (g.pick(2.46e15, 2.4e15), g.pick(1e4, 1e3)), {}


@op("temperature")
def m_hi_plain(g):
    n = 9
    m, p = 1e9 * (1 + g.unit((n,))), g.unit((n, 3)) * 100
    return "M_HI_on_grid", (g.z(), m, p, g.pick(100., 120.), 4), dict(cosmo=g.cosmo())


@op("temperature")
def halo_grid_units(g):
    m, p = 1e9 * (1 + g.unit((9,))), g.unit((9, 3)) * 100
    unit, mu = g.pick("mpc", "cm", "grid"), g.pick("g", "kg", "msun", "stone")
    which = g.ch.draw(3)

    def f(t, m, p):
        h = t.Halo2Grid(100., 4)
        h.set_halo_pos(p, unit=unit)
        h.set_halo_mass(m, unit=mu)
        if which == 0:
            return h.halo_mass_on_grid(mass=m)
        if which == 1:
            return h.halo_value_on_grid(m)
        h.construct_tree()
        return [getattr(h, "mass_Msun", None), h.pos_grid, h.kdtree.query(h.pos_grid[:2], k=2)[0]]
    return f, (m, p), {}


@op("temperature")
def halo_signal(g):
    s = (4, 4, 4)
    return "calc_dt_halo", (1e9 * g.unit(s) * (U.Msun if g.flag() else 1), g.pick(10., 12. * U.Mpc), g.z()), dict(Y_p=g.pick(.249, .24), cosmo=g.cosmo())


@op("plots")
def plot_slice_kinds(g):
    s = (4, 5, 6)
    k = g.ch.draw(3)
    p, nm = lay(g, "s", f=(("xfrac3d_8.515.bin", xfrac_blob(g.xf(s))), ("9.026n_all.dat", blob3(1 + g.unit(s))), ("xfrac3d_9.026.bin", xfrac_blob(g.xf(s))))[k])
    hist, log = g.flag(), g.flag(.3)
    los = g.axis()

    def f(t):
        import matplotlib.pyplot as plt
        import tools21cm.plotting as q
        o = t.DensityFile(nm(p["f"])) if k == 1 else t.XfracFile(nm(p["f"]))
        try:
            if hist:
                q.plot_hist(o, logscale=log)
                return [x.get_xy() for x in plt.gcf().axes[0].patches], plt.gcf().axes[0].get_xlabel()
            q.plot_slice(o, los_axis=los, slice_num=1, logscale=log)
            ax = plt.gcf().axes
            return np.asarray(ax[0].images[0].get_array()), list(ax[0].images[0].get_extent()), ax[0].get_title(), ax[1].get_ylabel()
        finally:
            plt.close("all")
    return f, (), {}
