"""More public calls for the registry in ops.py: branches and functions beyond the usual ones."""
import numpy as np
from astropy import units as U

from .ops import op, uvkw

SERIAL = {"plot_slice", "plot_hist", "forest"}      # draw on the process-wide current figure: not for concurrent callers


# ---------------------------------------------------------------- power spectra, fields
@op("power")
def power_spectrum_2d_bins(g):
    kw = dict(box_dims=g.pick(100., 150.), nu_axis=g.axis(), return_modes=g.flag())
    kw["kbins"] = g.pick([np.array([.05, .1, .3]), np.array([.05, .2, .4])], [np.array([.05, .1, .3]), np.array([.06, .2, .5])], np.array([[.05, .1, .3], [.06, .2, .5]]))
    return "power_spectrum_2d", (g.norm(),), kw


@op("power")
def tukey_power(g):
    f = g.pick("power_spectrum_1d", "power_spectrum_nd", "power_spectrum_2d", "power_spectrum_mu")
    kw = dict(box_dims=g.pick(100., 150.), window=g.pick("tukey", "blackmanharris"))
    if f != "power_spectrum_nd":
        kw["kbins"] = 4
    if f == "power_spectrum_mu":
        kw["mubins"] = 3
        kw.pop("window")
    return f, (g.norm(),), kw


@op("power")
def power_boxdims(g):
    f = g.pick("power_spectrum_1d", "power_spectrum_nd", "dimensionless_ps", "cross_power_spectrum_nd")
    s = g.shape(cubic=False)
    a = (g.norm(s),) + ((g.norm(s),) if f.startswith("cross") else ())
    dims = g.pick([100., 100., 50.], [100., 120., 140.], (100., 100., 100.))
    return f, a, dict(box_dims=dims, **(dict(kbins=4) if "1d" in f or f == "dimensionless_ps" else {}))


@op("power")
def ps_fast_window(g):
    return "power_spect_fast:power_spect_2d", (g.norm(),), dict(kbins=g.pick([3, 4], 4), box_dims=g.pick(100., 150.), nu_axis=g.axis(),
                                                                window=g.pick(None, "blackmanharris", "tukey"), binning=g.pick("log", "linear"))


@op("power")
def noise_error_more(g):
    return "noise_error_ps", (g.pick(150., 170.), np.array([.1, .3]), g.pick(100., 1000.)), dict(multipole=g.pick(0, 2, 4), epsilon=g.pick(.5, .3))


@op("fields", rand=True)
def fit_cv(g):
    x = np.linspace(0, 1, 10)
    y = 2 * x + 1 + .01 * g.norm((10,))

    def f(t, x, y):
        m = t.FitFunction(lin, fit_params={"a": 1., "b": .5}, cv=3)
        r = m.fit_predict(x, y)
        return r, m.cv_scores_, dict(m.fitted_params_)
    return f, (x, y), {}


def lin(x, th):
    return th[0] * x + th[1]


# ---------------------------------------------------------------- smoothing
@op("smoothing")
def kernel_paths(g):
    f, a, kw = g.pick(("gauss_kernel_3d", (5,), {}), ("gauss_kernel_3d", (4,), dict(fwhm=2.)), ("tophat_kernel_3d", (5, 3.), dict(shape="sphere")),
                      ("tophat_kernel_3d", (6, 3.), dict(shape="sphere")), ("gauss_kernel_3d", (5,), dict(sigma=.7)))
    return "smoothing:" + f, a, kw


@op("smoothing")
def quantity_baseline(g):
    k = g.ch.draw(3)
    b = g.pick(2. * U.km, 1500. * U.m, 1. * U.km)
    if k == 0:
        return "smooth_coeval", (g.norm(), g.z()), dict(box_size_mpc=g.pick(False, 100.), max_baseline=b, ratio=g.pick(1., 2.), nu_axis=g.axis(), verbose=False)
    if k == 1:
        return "convolve_uvmap", (g.norm((6, 6)),), dict(z=g.z(), uv_map=g.unit((6, 6)), max_baseline=b, box_size_mpc=g.pick(False, 100.))
    return "convolve_uvmap_coeval", (g.norm((6, 6, 6)), g.z()), dict(uv_map=g.unit((6, 6)), max_baseline=b, nu_axis=g.axis(), verbose=False)


@op("smoothing")
def smooth_lightcone_low(g):
    return "smooth_lightcone", (g.norm((6, 6, 8)), np.array([g.z()])), dict(box_size_mpc=g.pick(False, 100.), max_baseline=g.pick(2., 1.), verbose=False)


@op("smoothing")
def smooth_line_kinds(g):
    return "smooth_line", (g.norm((12,)),), dict(window=g.pick(3, 4, 5), kind=g.pick("hamming", "hanning", "triangular", "boxcar", "normal", "tophat"))


@op("smoothing")
def fftconvolve_more(g):
    d = g.pick(1, 3)
    s, k = (6,) * d, (3,) * d
    return "fft_functions:fftconvolve", (g.norm(s), g.unit(k)), dict(mode=g.pick("same", "full", "valid"),
                                                                    boundary=g.pick("reflect", "mirror", "circular", "nearest", "wrap", "constant"))


# ---------------------------------------------------------------- topology
@op("topology")
def superpixels_more(g):
    lab = g.rng.randint(0, 4, (5, 5, 5))
    lab.flat[:4] = [0, 1, 2, 3]
    d = g.norm((5, 5, 5))
    f = g.pick("stitch_superpixels", "mean_estimate", "get_superpixel_pixels", "boundaries", "binary_stitch", "get_superpixel_n_pixels",
               "get_combined_mean_std", "xfrac_mass_estimate", "xfrac_volume_estimate", "apply_operator_labelled_data", "get_superpixel_SNRs")
    p = "superpixels:" + f
    if f == "stitch_superpixels":
        return p, (d, lab), dict(bins=g.pick(5, "knuth", 8), binary=g.flag(.8), on_superpixel_map=g.flag(), verbose=False)
    if f == "mean_estimate":
        return p, (None,), dict(means=-10 * g.unit((6,)), sigmas=.1 + g.unit((6,)), n_pix=g.rng.randint(1, 9, 6), SNR_thres=g.pick(5, 2, 0))
    if f == "get_superpixel_pixels":
        def f(t, d, lab):
            return list(t.get_superpixel_pixels(d, labels=lab, verbose=False))
        return f, (d, lab), {}
    if f == "boundaries":
        return p, (d[0], lab[0]), dict(mark=g.flag(), factor=g.pick(1.01, 2.))
    if f == "binary_stitch":
        return p, (d, lab), dict(thres=g.pick(None, .1), stitch=g.pick("mean", "otsu"))
    if f == "get_superpixel_n_pixels":
        return p, (d,), dict(labels=g.pick(lab, None), slic_segments=8, verbose=False)
    if f == "get_combined_mean_std":
        return p, (g.norm((5,)), g.unit((5,)), g.rng.randint(1, 9, 5)), {}
    if f == "xfrac_mass_estimate":
        return p, (g.norm((4, 4)), g.z()), {}
    if f == "xfrac_volume_estimate":
        return p, (g.binary((4, 4, 4)),), {}
    if f == "apply_operator_labelled_data":
        return p, (d, lab), dict(operator=g.pick(np.std, np.max, np.median), verbose=False)
    return p, (), dict(means=g.norm((5,)), sigmas=.1 + g.unit((5,)), n_pix=g.rng.randint(1, 9, 5))


@op("topology")
def sizes(g):
    f = g.pick("get_distribution", "plot_fof_sizes", "disk_structure", "put_sphere", "box_count_sliding", "h_transform", "spa_np")
    if f == "get_distribution":
        if g.flag():
            return "bubble_stats:" + f, (g.rng.randint(1, 40, 15),), dict(bins=g.pick(5, 8), sizes=True, resolution=g.pick(1., 2.))
        return "bubble_stats:" + f, (g.rng.randint(0, 4, (4, 4, 4)),), dict(bins=g.pick(5, 8))
    if f == "plot_fof_sizes":
        return f, (g.rng.randint(1, 60, 15),), dict(bins=g.pick(5, 8), boxsize=g.box(), normalize=g.pick("box", "ionized"))
    if f == "disk_structure":
        return "bubble_stats:" + f, (g.pick(1, 2, 3),), {}
    if f == "put_sphere":
        c = [g.pick(1, 3), g.pick(1, 3), 2]

        def put(t, c):
            import tools21cm.spa_np as m
            return m.put_sphere(np.zeros((5, 5, 5)), c, 2, label=2, periodic=True)
        return put, (c,), {}
    if f == "box_count_sliding":
        return "box_counting:" + f, (g.unit((6, 6, 6)), g.pick(2, 3), g.pick(1, 2)), dict(window=g.pick("cube", "cube", "ball"))
    if f == "h_transform":
        return "bubble_stats:" + f, (g.unit((5, 5, 5)), g.pick(.1, .3)), dict(verbose=False)
    return "spa_np:spa_np", (g.xf((6, 6, 6)),), dict(xth=g.pick(.5, .9), nscales=4, binning=g.pick("log", "linear"), verbose=False)


@op("topology")
def empty_regions(g):
    f = g.pick("spa", "fof", "find_percolation_cluster", "watershed_bsd")
    a = g.pick(np.zeros((5, 5, 5)), np.ones((5, 5, 5)), (g.unit((5, 5, 5)) > .97).astype(float))
    kw = dict(xth=.5)
    if f in ("spa", "watershed_bsd"):
        kw.update(boxsize=g.box(), verbose=False)
    if f == "spa":
        kw.update(nscales=4)
    return f, (a,), kw


@op("topology", rand=True)
def mfp_more(g):
    f = g.pick("mfp", "mfp_from_point", "mfp2d", "granulo")
    if f == "mfp":
        return f, (g.pick(np.zeros((5, 5, 5)), np.ones((5, 5, 5)), g.xf((5, 5, 5))),), dict(
            xth=.5, boxsize=g.box(), iterations=30, verbose=False, bins=g.pick(None, 4), r_min=g.pick(None, 2.), r_max=g.pick(None, 80.))
    if f == "mfp_from_point":
        if g.flag():
            return f, (g.xf((6, 6)), [1, 2]), dict(xth=.3, boxsize=g.box(), iterations=30, verbose=False)
        return f, (g.xf((5, 5, 5)), [1, 2, 3]), dict(xth=.9, boxsize=g.box(), iterations=30, verbose=False)
    if f == "mfp2d":
        return "mfp_np:mfp2d", (g.xf((6, 6, 6))[0],), dict(xth=g.pick(.5, .3), iterations=30, verbose=False)
    return "granulometry_bsd", (1 - g.xf((5, 5, 5)),), dict(xth=.3, boxsize=g.box(), verbose=False, sampling=g.pick(1, 2), log_bins=g.pick(None, 4))


@op("topology")
def friends_more(g):
    s = g.pick((4, 4, 4), (6, 6), (3, 4, 5), (9,))
    return "Friends_of_Friends:FoF_search", (g.unit(s), g.pick(.4, .6, .2)), {}


@op("topology")
def thresholds2(g):
    if g.flag():
        return "bubbles_from_triangle2D", (g.norm((5, 5, 5)),), dict(upper_lim=g.flag(), nbins=g.pick(16, 8), loc_axis=g.axis())
    return "bubbles_from_fixed_threshold", (g.norm((5, 5)),), dict(threshold=g.pick(0, .3, -.3), upper_lim=g.flag())


# ---------------------------------------------------------------- telescope
@op("telescope")
def SEFD_sources(g):
    nu = g.pick(150., np.array([120., 160., 180.]))
    k = g.ch.draw(4)
    if k == 0:
        return "get_SEFD", (nu,), dict(sefd_data=g.pick("SKA1-LOW", "ska1"))
    if k == 1:
        return "get_SEFD", (nu,), dict(sefd_data=1000 + 500 * g.unit((4,)), nu_data=np.array([100., 140., 170., 220.]))
    if k == 2:
        return "get_SEFD", (nu,), dict(ep_aperture=g.pick(.8, halve, .5), D_station=g.pick(40., 35.))
    return "get_SEFD", (nu,), dict(T_sys=g.pick(sky, 250.), ep_aperture=g.pick(None, .7))


def halve(nu):
    return .5 + 0 * nu


def sky(nu):
    return 60. * (300. / nu) ** 2.55


@op("telescope")
def sigma_sefd(g):
    return "sigma_noise_radio", (g.z(), g.pick(.1, .5), g.pick(100., 1000.), 10.), dict(
        N_ant=g.pick(512, 20), verbose=g.flag(.2), uv_map=g.pick(None, g.unit((4, 4))), T_sys=g.pick(None, sky, 300.), sefd_data=g.pick(None, "SKA1-LOW"),
        D_station=g.pick(40., 35.), ep_aperture=g.pick(None, .8))


@op("telescope", rand=True)
def gain_models(g):
    n = g.pick(5, 6)
    ant = g.rng.rand(n, 3) * 1000
    m = g.pick({"name": "random_gaussian", "mu": 1., "std": .1}, {"name": "random_uniform", "min": .5, "max": 1.}, {"real": draw_n, "imag": draw_u},
               {"amplitude": draw_n, "phase": draw_u}, g.unit((n, 2)))
    return "radio_telescope_calibration:from_antenna_config_with_gains", (ant * U.m, g.z()), dict(gain_model=m, nu=g.pick(None, 150.))


def draw_n(n):
    return np.random.normal(1, .1, n)


def draw_u(n):
    return np.random.uniform(0, 1, n)


@op("telescope")
def gain_images(g):
    n = g.pick(4, 5)
    m = g.rng.rand(n, n, 5)
    m[..., 0] = g.rng.randint(0, 4, (n, n))
    if g.flag():
        return "apply_uv_with_gains_response_on_image", (g.norm((n, n)), m), {}
    return "radio_telescope_calibration:gain_uv_map_to_uv_map", (m,), {}


@op("telescope")
def stamp_map(g):
    k = uvkw(g)

    def f(t, **k):
        m, n = t.get_full_uv_map_with_antenna_stamp(4, 8., n_jobs=1, verbose=False, **k)
        return t.full_uv_map_with_antenna_stamp_to_uv_map(m, verbose=False), n
    return f, (), k


@op("telescope")
def stamp_tags(g):
    return "radio_telescope_calibration:from_antenna_config_with_antenna_stamp", (g.rng.rand(g.pick(4, 5), 3) * 1000 * U.m, g.z()), dict(nu=g.pick(None, 150.))


@op("telescope")
def briggs(g):
    n = g.pick(4, 6)
    return "radio_telescope_noise:apply_uv_response_noise_briggs", (g.norm((n, n)), np.floor(4 * g.unit((n, n)))), dict(robust=g.pick(2., 0., -1.))


@op("telescope")
def uv_lightcone_serial(g):
    k = uvkw(g)
    return "radio_telescope_noise:make_uv_map_lightcone", (4, np.array(g.pick([7., 7.5], [8., 7., 9.]))), dict(k, verbose=False)


@op("telescope", rand=True)
def noise_maps_computed(g):
    k = uvkw(g)
    f = g.pick("noise_map", "noise_cube_coeval", "noise_cube_lightcone")
    kw = dict(k, verbose=False, uv_weighting=g.pick("natural", "uniform"), T_sys=g.pick(None, 300.), boxsize=g.pick(None, 150.))
    kw["suppress_sharp_features_uv_map"] = g.pick(False, "gaussian", "binned")
    if f == "noise_map":
        return f, (g.pick(4, 6), g.z(), g.pick(.1, .5)), kw
    if f == "noise_cube_lightcone":
        kw.update(n_jobs=1)
    return f, (4, g.z()), kw


@op("telescope")
def noise_ps_more(g):
    k = uvkw(g)
    return "noise_coeval_power_spectrum_1d", (6, g.z(), g.pick(.1, .5)), dict(
        k, kbins=4, uv_weighting=g.pick("natural", "natural", "uniform"), return_n_modes=g.flag(), binning=g.pick("log", "linear"), verbose=False, T_sys=g.pick(None, 300.))


@op("telescope")
def windows(g):
    return "signal_window", (g.pick(6, 8), g.pick("blackman", "barthann", "bartlett", "gaussian", "hamming", "hann", "kaiser", "Blackman-Harris")), dict(
        ndim=g.pick(1, 2, 3), extra_param=g.pick(30, 2))


@op("telescope")
def layouts(g):
    if g.flag():
        return "get_SKA_Low_layout", (), dict(subarray_type=g.pick("AA0.5", "AA1"), unit=g.pick("enu", "ecef", "xyz"), verbose=False)
    if g.flag():
        o = np.array([-2565018.41, 5085711.27, -2861056.82])
        return "radio_telescope_layout:enu_to_ecef", (g.rng.rand(4, 3) * 1000, g.pick(-26.8, -30.), 116.76, o), {}
    return "radio_telescope_layout:ecef_to_xyz", (g.rng.rand(4, 3) * 1e6, 116.76, np.zeros(3)), {}


@op("telescope")
def beams(g):
    n = g.pick(4, 6)
    k = g.ch.draw(3)
    b = g.pick("sigmoid", "step", "Gaussian", "bessel")
    D = g.pick(40., 35. * U.m, 38.)
    if k == 0:
        return "circular_beam", (n, g.z()), dict(D_station=D, beam_func=b, boxsize=g.pick(None, 1500.), l_null=g.pick(None, 300.))
    if k == 1:
        return "primary_beam", (g.norm((n, n)), g.z()), dict(beam_func=b, boxsize=g.pick(None, 1500.), D_station=D, verbose=False)
    return "primary_beam_null", (g.z(),), dict(D_station=D)


@op("telescope")
def uv_filename(g):
    return "get_uv_map", (4, g.z()), dict(subarray_type=g.rng.rand(5, 3) * 1000 * U.m, total_int_time=g.pick(1., 2.), int_time=1800., verbose=False,
                                          boxsize=g.pick(None, 150.), max_baseline=g.pick(None, .2 * U.km, 1. * U.km))


@op("telescope")
def on_coeval_computed(g):
    k = uvkw(g)
    return "apply_uv_response_on_coeval", (g.norm((4, 4, 4)), g.z()), dict(k)


# ---------------------------------------------------------------- temperature, haloes, cosmology
@op("temperature")
def halo2grid_more(g):
    m, p = 1e9 * (1 + g.unit((9,))), g.unit((9, 3)) * 100
    pu, mu, how = g.pick("Mpc", "cm", "grid"), g.pick("Msun", "kg", "g"), g.pick("mass", "value", "tree")

    def f(t, m, p):
        h = t.Halo2Grid(100., 4)
        h.set_halo_pos(p, unit=pu)
        h.set_halo_mass(m, unit=mu)
        if how == "tree":
            h.construct_tree()
            return [list(x) for x in h.kdtree.query(h.pos_grid[:2], k=2)]
        if how == "value":
            return h.halo_value_on_grid(h.mass_Msun)
        return h.halo_mass_on_grid(mass=h.mass_Msun)
    return f, (m, p), {}


@op("temperature")
def line_more(g):
    n = 8
    m, p = 1e9 + g.unit((n,)) * 1e11, g.unit((n, 3)) * 100
    if g.flag(.3):
        return "M_HI_on_grid", (g.z(), m * U.Msun, p * U.Mpc, g.pick(100., 120. * U.Mpc), 4), dict(cosmo=g.cosmo(), alpha=g.pick(.9, .8))
    if g.flag():
        return "L_CII_on_grid", (g.z(), m, p, 100., 4), dict(cosmo=g.cosmo(), recipe=g.pick("Silva2015m2", "silva2015m4"))
    return "L_CII_on_grid", (g.z(), m * U.Msun, p * U.Mpc, 100. * U.Mpc, 4), dict(SFR=g.pick("silva2013", sfr), recipe="Silva2015m1")


def sfr(m, z):
    return m / (1e10 * U.Msun) * (1 + z) * U.Msun / U.yr


@op("temperature")
def slices_of(g):
    if g.flag():
        return "statistics:_get_slice", (g.norm((3, 4, 4, 4)), 1, g.axis()), dict(slice_depth=g.pick(1, 2))
    return "statistics:_get_slice", (g.norm((4, 5, 6)), 1, g.axis()), dict(slice_depth=g.pick(1, 2))


@op("cosmology")
def combined_dicts(g):
    n = 4
    m = {"a%d" % i: float(x) for i, x in enumerate(g.norm((n,)))}
    v = {"a%d" % i: float(x) for i, x in enumerate(g.unit((n,)))}
    return "helper_functions:combined_mean_variance", (m, v), dict(sample_sizes=g.pick(None, {"a": 3, "b": 4, "c": 5, "d": 6}, [3, 4, 5, 9]))


@op("cosmology")
def grid_masses(g):
    return "usefuls:" + g.pick("Mgrid_2_Msolar", "Msolar_2_Mgrid"), (g.pick(10., g.unit((4,))),), {}


@op("cosmology")
def tau_dict(g):
    zs = [7., 7.1, 7.2]
    d = {z: g.unit((4, 4, 4)).astype(np.float32) for z in zs}
    return "tau_map", (d,), dict(num_points=g.pick(5, 8))


@op("coordinates")
def subvolume_mhz(g):
    n = 14
    return "get_lightcone_subvolume", (g.norm((5, 5, n)), g.zarr(n, lo=7., step=.02), g.pick(7.1, 7.13)), dict(
        depth_mhz=g.pick(1., 1.5), odd_num_cells=g.flag(), subtract_mean=g.flag(), fov_Mpc=g.pick(None, 100.), verbose=False)


@op("coordinates")
def slice_to_physical(g):
    return "angular_slice_to_physical", (g.norm((6, 6)), g.z(), g.pick(.6, 1.), g.pick(15., 20.), g.pick(150., 250.)), dict(order=g.pick(0, 1), prefilter=g.flag())


@op("coordinates")
def file_objects(g):
    """Values handed over as file objects filled in memory."""
    n = 4
    x, d = g.xf((n,) * 3), g.dens((n,) * 3)
    z = g.z()
    full, T = g.flag(), 5 + 100 * g.unit((n,) * 3)

    def f(t, x, d, T):
        xf, df = t.XfracFile(), t.DensityFile()
        xf.xi, xf.z, df.cgs_density, df.z = x, z, d, z
        return t.calc_dt_full(xf, df, T, z=z) if full else t.calc_dt(xf, df, z=z)
    return f, (x, d, T), {}


@op("coordinates")
def velocity_from_density(g):
    n = 4
    v, d, z = g.norm((3, n, n, n)), g.dens((n,) * 3), g.z()

    def f(t, v, d):
        vf = t.VelocityFile(None)
        vf.kmsrho8, vf.z = v, z
        df = t.DensityFile()
        df.raw_density = df.cgs_density = d
        df.z = z
        return vf.get_kms_from_density(d if flag else df)
    flag = g.flag()
    return f, (v, d), {}


@op("coordinates")
def gridded_sources(g):
    s = np.hstack([g.rng.randint(0, 4, (6, 3)), g.unit((6, 1)).astype(float)])

    def f(t, s):
        h = t.SourceFile.__new__(t.SourceFile)
        h.sources_list = s
        h.grid_sources(4)
        return h.sources_coeval
    return f, (s,), {}


# ---------------------------------------------------------------- plots and tables
@op("plots")
def constraint_tables(g):
    if g.flag():
        return esc, (), {}
    return rei, (), {}


def esc(t):
    import tools21cm.compare_constraints as c
    e = c.EscapeFractionLymanAlpha(verbose=False)
    return [[list(map(str, d.columns)), [list(map(str, r)) for r in d.values]] for d in e.fesc_LymanAlpha_constraints.values()]


def rei(t):
    import tools21cm.compare_constraints as c

    def value(b):
        if isinstance(b, (list, tuple)):
            return [value(x) for x in b]
        return b if isinstance(b, np.ndarray) else float(b) if isinstance(b, (int, float)) else str(b)
    e = c.ReionizationHistory(verbose=False)
    return [[k, [sorted(((a, value(b)) for a, b in d.items()), key=lambda x: x[0]) for d in v]]
            for x in (e.neutral_fraction_constraints, e.neutral_fraction_models) for k, v in x.items()]


@op("plots")
def chain_stats(g):
    s = {"a": g.norm((10, 2)), "b": g.norm((8, 2))}
    w = {"a": 1 + g.unit((10,)), "b": 1 + g.unit((8,))} if g.flag() else None
    return "plotting:print_chain_stats", (s, w, g.pick(["x", "y"], ["x", None])), {}


@op("plots")
def diagnostics(g):
    s, w = g.norm((30, 2)), 1 + g.unit((30,))
    grid = g.unit((6, 6))
    tv = g.pick(None, [.1, .2])
    k = g.ch.draw(2)

    def f(t, s, w, grid):
        import tools21cm.plotting as p
        d = p.SampledDistribution(true_values=tv) if k else p.GriddedProbabilities(coords_1d=np.linspace(0, 1, 6), true_values=tv)
        d.add_distribution(s, weights=w) if k else d.add_distribution(grid)
        d.add_distribution(s) if k else d.add_distribution(grid ** 2, label="two")
        out = []
        for n, x in d.distributions.items():
            st = dict(x["stats"])
            st["cis"] = [{a: b for a, b in c.items() if a != "cdf_at"} for c in st["cis"]]
            out.append([n, st, x["points"], x["weights"]])
        return out
    return f, (s, w, grid), {}


@op("plots")
def forest(g):
    s = g.norm((30, 2))
    tv = g.pick(None, [.1, .2])

    def f(t, s):
        import matplotlib.pyplot as plt
        import tools21cm.plotting as p
        try:
            d = p.SampledDistribution(true_values=tv, param_labels=["a"])
            d.add_distribution(s)
            d.add_distribution(s + 1)
            fig = d.plot_forest()
            return [[np.array(x.get_xlim()), x.get_xlabel(), [np.asarray(l.get_xdata(), float) for l in x.lines]] for x in fig.axes]
        finally:
            plt.close("all")
    return f, (s,), {}


@op("plots")
def plot_slice(g):
    a, kw = g.unit((4, 5, 6)), dict(los_axis=g.axis(), slice_num=g.pick(0, 2), logscale=g.flag())

    def f(t, a):
        import matplotlib.pyplot as plt
        import tools21cm.plotting as p
        try:
            p.plot_slice(a, **kw)
            im = plt.gcf().axes[0].images[0]
            return np.asarray(im.get_array()), list(im.get_extent()), plt.gcf().axes[0].get_title()
        finally:
            plt.close("all")
    return f, (a,), {}


@op("plots")
def plot_hist(g):
    a, log = g.unit((4, 5, 6)), g.flag()

    def f(t, a):
        import matplotlib.pyplot as plt
        import tools21cm.plotting as p
        try:
            p.plot_hist(a, logscale=log)
            return [x.get_xy() for x in plt.gcf().axes[0].patches]
        finally:
            plt.close("all")
    return f, (a,), {}
