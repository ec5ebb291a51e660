"""Registry of public calls: drawn arguments small enough to run thousands of times, results and inputs comparable."""
import copy
import importlib
import random

import numpy as np
from astropy import units as U
from astropy import cosmology as AC

from . import parops

REG = []        # (family, name, generator, random?)


def op(family, rand=False):
    def deco(f):
        REG.append((family, f.__name__, f, rand))
        return f
    return deco


class G:
    """Draws arguments. Few distinct shapes and parameters, so that different calls often look alike."""

    def __init__(self, ctx, zoo=None):
        self.ctx, self.ch = ctx, ctx.ch
        self.rng = np.random.RandomState(ctx.npseed())
        self.z_ = [7., 8.5, 9.1, 6.5, 10.4]

    def pick(self, *xs):
        return xs[self.ch.draw(len(xs))]

    def flag(self, p=0.5):
        return self.ch.flag(p)

    def layout(self, a):
        k = self.ch.draw(8)
        if k == 1:
            a = np.asfortranarray(a)
        elif k == 2:
            a = np.ascontiguousarray(a[::-1])[::-1]
        return a

    def shape(self, dims=3, cubic=True):
        n = self.pick(4, 6, 5, 8)
        if cubic or self.flag(0.6):
            return (n,) * dims
        return tuple(self.pick(4, 6, 5, 7) for _ in range(dims))

    def norm(self, shape=None, dims=3, cubic=True):
        return self.layout(self.rng.normal(0, 1, shape or self.shape(dims, cubic)).astype(self.pick(np.float64, np.float64, np.float32)))

    def unit(self, shape=None, dims=3, cubic=True):
        return self.layout(self.rng.rand(*(shape or self.shape(dims, cubic))).astype(self.pick(np.float64, np.float64, np.float32)))

    def xf(self, shape=None, cubic=True):
        s = shape or self.shape(3, cubic)
        k = self.ch.draw(3)
        a = self.rng.rand(*s)
        if k == 1:
            a = (a < 0.4).astype(float)
        elif k == 2:
            a = a ** 4
        return self.layout(a)

    def dens(self, shape=None):
        return self.layout(1e-30 * np.exp(self.rng.normal(0, 0.5, shape or self.shape())))

    def binary(self, shape=None, cubic=True, p=None):
        s = shape or self.shape(3, cubic)
        a = self.rng.rand(*s) < (p or self.pick(0.3, 0.6, 0.85))
        return self.layout(a.astype(self.pick(np.float64, np.int32, bool, np.float32)))

    def z(self):
        return self.z_[self.ch.draw(5)]

    def zarr(self, n, lo=None, step=None):
        z0 = lo or self.pick(7., 6.5, 8.)
        d = step or self.pick(0.05, 0.1, 0.02)
        return z0 + d * np.arange(n)

    def box(self):
        return self.pick(100., None, 150., 244 / .7)

    def bins(self):
        return self.pick(5, 3, 4)

    def axis(self):
        return self.ch.draw(3)

    def cosmo(self):
        return self.pick(None, AC.Planck15, AC.WMAP9)


# ---------------------------------------------------------------- statistics
@op("statistics")
def skewness(g): return "skewness", (g.norm(),), {}


@op("statistics")
def kurtosis(g): return "kurtosis", (g.norm(),), {}


@op("statistics")
def mass_weighted_mean_xi(g):
    s = g.shape()
    return "mass_weighted_mean_xi", (g.xf(s), g.dens(s)), {}


@op("statistics")
def subtract_mean_signal(g): return "subtract_mean_signal", (g.norm(cubic=False), g.axis()), {}


@op("statistics")
def signal_overdensity(g): return "signal_overdensity", (1 + g.unit(cubic=False), g.axis()), {}


@op("statistics")
def apply_func_along_los(g):
    return "apply_func_along_los", (g.norm(cubic=False), g.pick(np.mean, np.std, np.max), g.axis()), {}


# ---------------------------------------------------------------- power spectra
@op("power")
def power_spectrum_nd(g):
    return "power_spectrum_nd", (g.norm(dims=g.pick(3, 2), cubic=False),), dict(
        box_dims=g.box(), window=g.pick(None, "blackmanharris", "hann"))


@op("power")
def power_spectrum_1d(g):
    return "power_spectrum_1d", (g.norm(dims=g.pick(3, 2), cubic=False),), dict(
        kbins=g.bins(), box_dims=g.box(), return_n_modes=g.flag(), binning=g.pick("log", "linear", "mixed"),
        window=g.pick(None, None, "blackmanharris"))


@op("power")
def power_spectrum_1d_bins(g):
    return "power_spectrum_1d", (g.norm(),), dict(kbins=np.array(g.pick([.05, .1, .2, .4], [.03, .3, 1.])), box_dims=g.box())


@op("power")
def cross_power_spectrum_1d(g):
    s = g.shape()
    return "cross_power_spectrum_1d", (g.norm(s), g.norm(s)), dict(kbins=g.bins(), box_dims=g.box(), binning=g.pick("log", "linear"),
                                                                  window=g.pick(None, "blackmanharris"))


@op("power")
def cross_power_spectrum_nd(g):
    s = g.shape()
    return "cross_power_spectrum_nd", (g.norm(s), g.norm(s), g.box()), {}


@op("power")
def power_spectrum_2d(g):
    return "power_spectrum_2d", (g.norm(),), dict(kbins=g.pick(4, 3), binning=g.pick("log", "linear"), box_dims=g.pick(100., 150.),
                                                  nu_axis=g.axis(), window=g.pick(None, "blackmanharris"))


@op("power")
def power_spectrum_mu(g):
    return "power_spectrum_mu", (g.norm(),), dict(los_axis=g.axis(), mubins=g.pick(4, 3), kbins=g.bins(), box_dims=g.box(),
                                                  exclude_zero_modes=g.flag(), return_n_modes=g.flag(), absolute_mus=g.flag())


@op("power")
def cross_power_spectrum_mu(g):
    s = g.shape()
    return "cross_power_spectrum_mu", (g.norm(s), g.norm(s)), dict(los_axis=g.axis(), mubins=g.pick(4, 3), kbins=g.bins(),
                                                                  box_dims=g.box(), exclude_zero_modes=g.flag())


@op("power")
def mu_binning(g):
    a = g.unit()
    return "mu_binning", (a,), dict(los_axis=g.axis(), mubins=3, kbins=g.bins(), box_dims=g.pick((100.,) * 3, (150.,) * 3))


@op("power")
def radial_average(g):
    return "radial_average", (g.unit(), g.pick((100.,) * 3, (150.,) * 3)), dict(kbins=g.bins(), binning=g.pick("log", "linear"))


@op("power")
def dimensionless_ps(g): return "dimensionless_ps", (g.norm(),), dict(kbins=g.bins(), box_dims=g.box(), binning=g.pick("log", "linear"))


@op("power")
def get_kbins(g): return "get_kbins", (g.bins(), g.pick(100., 150.)), dict(array=g.norm())


@op("power")
def get_k(g): return "get_k", (g.norm(cubic=False), g.pick(100., 150.)), {}


@op("power")
def anisotropy_ratio_r_mu(g):
    return "anisotropy_ratio_r_mu", (g.norm((8, 8, 8)),), dict(los_axis=g.axis(), mubins=4, kbins=3, box_dims=g.box())


@op("power")
def ps_fast(g):
    f = g.pick("power_spect_nd", "power_spect_1d", "power_spect_2d", "power_spect_mu", "dimensional_power")
    kw = dict(box_dims=g.pick(100., 150.))
    if f != "power_spect_nd":
        kw.update(kbins=g.bins(), binning=g.pick("log", "linear"), return_modes=g.flag())
    if f == "power_spect_mu":
        kw["mubins"] = 3
    return "power_spect_fast:" + f, (g.norm(),), kw


@op("power")
def horizon_wedge_equation(g): return "power_spect_fast:horizon_wedge_equation", (g.z(),), dict(fov_deg=g.pick(90., 10.))


@op("power")
def noise_error_ps(g):
    k = g.pick(.1, np.array([.1, .2, .5]), np.array([.3, .4]))
    return "noise_error_ps", (g.pick(150., 170.), k, g.pick(100., 1000.)), g.pick(dict(), dict(multipole=2, epsilon=.5), dict(B=8., Nstat=40))


@op("power")
def pdps(g):
    f = g.pick("power_spectrum_response", "integrated_bispectrum")
    kw = dict(Ncuts=2, kbins=g.bins(), box_dims=g.pick(100., 150.), verbose=False)
    if f == "integrated_bispectrum":
        kw["normalize"] = g.flag()
    return "position_dependent_power_spectrum:" + f, (g.norm(g.pick((8,) * 3, (6,) * 3)),), kw


@op("power")
def pdps_cross(g):
    s = g.pick((8,) * 3, (6,) * 3)
    return "position_dependent_power_spectrum:integrated_bispectrum_cross", (g.norm(s), g.norm(s)), dict(
        Ncuts=2, kbins=g.bins(), box_dims=g.pick(100., 150.), normalize=g.flag(), verbose=False)


@op("power")
def bispectrum(g):
    n = g.pick(6, 8)
    a = g.norm((n,) * 3)
    kw = dict(n_bins=g.pick(2, 3), verbose=False, window=g.pick(None, "blackmanharris"))
    box = g.box()
    if g.flag():
        def f(t, a):
            return t.Bispectrum(a, box_dims=box, verbose=False).bispectrum_k(**kw)
    else:
        kk = g.pick((.2, .3), (.3, .3))

        def f(t, a):
            return t.Bispectrum(a, box_dims=box, verbose=False).bispectrum_k1k2(*kk, **kw)
    return f, (a,), {}


@op("power")
def fft_nd(g): return "bispectrum:fft_nd", (g.norm(cubic=False),), dict(box_dims=g.pick(100., 150.))


# ---------------------------------------------------------------- correlation
@op("correlation")
def correlation_function(g):
    return "correlation_function", (g.norm(dims=g.pick(3, 2)),), dict(rbins=g.bins(), kbins=g.pick(4, 5), box_dims=g.pick(100., 150.),
                                                                     binning=g.pick("log", "linear"))


@op("correlation")
def cross_correlation_function(g):
    s = g.shape()
    return "cross_correlation_function", (g.norm(s), g.norm(s)), dict(rbins=g.bins(), kbins=g.pick(4, 5), box_dims=g.pick(100., 150.))


@op("correlation")
def ps_to_corr(g):
    return "ps_to_corr", (g.unit((6,)) + .1, np.linspace(.05, 1, 6)), dict(rbins=g.bins(), box_dims=g.pick(100., 150.), n_grid=8)


@op("correlation", rand=True)
def landy_szalay(g):
    n = g.pick(12, 20)
    return "landy_szalay_estimator", (g.rng.rand(n, 3) * 100,), dict(
        randoms=g.rng.rand(n, 3) * 100 if g.flag() else None, rbins=g.bins(), box_dims=100.)


# ---------------------------------------------------------------- smoothing
@op("smoothing")
def kernels(g):
    f, a = g.pick(("gauss_kernel", (6,)), ("gauss_kernel_3d", (5,)), ("tophat_kernel", (6, 3.)), ("tophat_kernel_3d", (5, 3.)),
                  ("lanczos_kernel", (5, 2.)), ("gauss_kernel", (5,)), ("tophat_kernel", (5, 2.5)))
    kw = g.pick({}, dict(fwhm=2.), dict(sigma=1.5)) if "gauss" in f else {}
    if f == "tophat_kernel_3d":
        kw = dict(shape=g.pick("cube", "sphere"))
    return f, a, kw


@op("smoothing")
def smooth_gauss(g): return "smooth_gauss", (g.norm(dims=2, cubic=False),), g.pick(dict(sigma=1.), dict(fwhm=2.5), dict(sigma=.5))


@op("smoothing")
def smooth_tophat(g): return "smooth_tophat", (g.norm(dims=2), g.pick(2., 3., 2.5)), {}


@op("smoothing")
def smooth_lanczos(g): return "smooth_lanczos", (g.norm(dims=2), g.pick(2., 3.)), {}


@op("smoothing")
def smooth_with_kernel(g): return "smooth_with_kernel", (g.norm(dims=2), g.unit((3, 3))), {}


@op("smoothing")
def get_beam_w(g): return "get_beam_w", (g.pick(2., 1.), g.z()), {}


@op("smoothing")
def interpolate3d(g):
    return "interpolate3d", (g.norm((6, 6, 6)), g.unit((4,)) * 5, g.unit((3,)) * 5, g.unit((5,)) * 5), dict(order=g.pick(0, 1, 3))


@op("smoothing")
def interpolate2d(g):
    return "interpolate2d", (g.norm((6, 6)), g.unit((4,)) * 5, g.unit((3,)) * 5), dict(order=g.pick(0, 1, 3))


@op("smoothing")
def smooth_lightcone(g):
    n = g.pick(6, 8)
    zs = g.zarr(n + 2)
    if g.flag(.3):
        zs = zs[::-1]
    return "smooth_lightcone", (g.norm((n, n, n + 2)), zs), dict(box_size_mpc=g.pick(False, 100., 150.), max_baseline=g.pick(2., 1., 2. * U.km),
                                                                ratio=g.pick(1., 2.), verbose=False)


@op("smoothing")
def smooth_coeval(g):
    return "smooth_coeval", (g.norm(), g.z()), dict(box_size_mpc=g.pick(False, 100., 150.), max_baseline=g.pick(2., 1.), nu_axis=g.axis(),
                                                    verbose=False)


@op("smoothing")
def smooth_coeval_tophat(g): return "smooth_coeval_tophat", (g.norm(), g.pick(2., 3.), g.axis()), dict(verbose=False)


@op("smoothing")
def smooth_coeval_gauss(g): return "smooth_coeval_gauss", (g.norm(), g.pick(2., 3.), g.axis()), {}


@op("smoothing")
def smooth_lightcone_tophat(g):
    n = g.pick(6, 8)
    return "smooth_lightcone_tophat", (g.norm((4, 4, n)), g.zarr(n), g.pick(.1, .2) * np.ones(n)), dict(verbose=False)


@op("smoothing")
def smooth_lightcone_gauss(g):
    n = g.pick(6, 5)
    return "smooth_lightcone_gauss", (g.norm((n, n, n)), 1 + g.unit((n,))), dict(nu_axis=g.axis())


@op("smoothing")
def smooth_lightcone_uv_threshold(g):
    s = g.shape()
    return "smooth_lightcone_uv_threshold", (g.norm(s), g.unit(s)), dict(threshold=g.pick(.3, .6))


@op("smoothing")
def remove_baselines_from_uvmap(g):
    return "remove_baselines_from_uvmap", (g.unit((8, 8)), g.z()), dict(max_baseline=g.pick(2, 1., .5), box_size_mpc=g.pick(False, 100.))


@op("smoothing")
def convolve_uvmap(g):
    return "convolve_uvmap", (g.norm((6, 6)),), dict(z=g.z(), uv_map=g.unit((6, 6)), max_baseline=g.pick(None, 1.), box_size_mpc=g.pick(False, 100.))


@op("smoothing")
def convolve_uvmap_coeval(g):
    return "convolve_uvmap_coeval", (g.norm((6, 6, 6)), g.z()), dict(uv_map=g.unit((6, 6)), max_baseline=g.pick(2., 1.), nu_axis=g.axis(),
                                                                     box_size_mpc=g.pick(False, 100.), verbose=False)


@op("smoothing")
def smooth_line(g):
    return "smooth_line", (g.norm((12,)),), g.pick(dict(window=3), dict(window=np.array([1., 2., 1.])), dict(window=3, kind="gaussian"),
                                                   dict(window=4, kind="hanning"), dict(window=3, kind="triangular"), dict(window=[1., 3., 1.]))


@op("smoothing")
def smooth_gauss_3d(g): return "smooth_gauss_3d", (g.norm((6, 6, 6)), g.pick(2., 3.)), {}


@op("smoothing")
def fftconvolve(g):
    return "fft_functions:fftconvolve", (g.norm((6, 5)), g.unit((3, 3))), dict(
        mode=g.pick("same", "full", "valid"), boundary=g.pick("circular", "constant", "wrap", "nearest"))


# ---------------------------------------------------------------- cosmology
@op("cosmology")
def z_to_cdist(g): return "z_to_cdist", (g.pick(g.z(), g.zarr(4)),), {}


@op("cosmology")
def cdist_to_z(g): return "cdist_to_z", (g.pick(8800., np.array([8500., 9000.3, 9200.]), 9100.5),), {}


@op("cosmology")
def luminosity_distance(g): return "luminosity_distance", (g.pick(g.z(), g.zarr(3), .5),), dict(k=g.pick(0, 0, .1, -.1))


@op("cosmology")
def z_to_age(g): return "z_to_age", (g.pick(g.z(), g.zarr(3)),), {}


@op("cosmology")
def angular_size(g): return "angular_size", (g.pick(10., 3.), g.z()), {}


@op("cosmology")
def angular_size_comoving(g): return "angular_size_comoving", (g.pick(100., 3.), g.z()), {}


@op("cosmology")
def deg_to_cdist(g): return "deg_to_cdist", (g.pick(1., 3.), g.z()), {}


@op("cosmology")
def nuconv(g):
    f, v = g.pick(("nu_to_z", 150.), ("z_to_nu", 8.), ("nu_to_wavel", 150.), ("nu_to_cdist", 150.), ("nu_to_cdist", np.array([140., 150.])),
                  ("z_to_nu", np.array([7., 8.])), ("hubble_parameter", 8.), ("hubble_parameter", np.array([0., 7.])), ("nu_to_cdist", 170.))
    return f, (v,), {}


@op("cosmology")
def cpconv(g): return g.pick("c_to_p", "p_to_c"), (g.pick(100., g.unit((4,))), g.z()), {}


@op("cosmology")
def virial(g): return g.pick("Tvir_to_M", "M_to_Tvir"), (g.pick(1e4, 1e9, np.array([1e4, 1e5])), g.z()), {}


@op("cosmology")
def gridconv(g):
    f = g.pick("gridpos_to_mpc", "gridvel_to_kms", "gridmass_to_msol")
    a = (g.unit((4,)) * 10,)
    return f, a + ((g.z(),) if f == "gridvel_to_kms" else ()), {}


@op("cosmology")
def astro(g):
    f, a = g.pick(("FoV_cMpc2", (10., 8.)), ("mag_to_flux", (20. * U.mag,)), ("Muv_to_muv", (-20., 8.)), ("muv_to_Muv", (27., 8.)))
    if f == "mag_to_flux":
        a = (g.pick(20., 25.) * U.mag,)
    return f, a, dict(cosmo=g.cosmo()) if f in ("Muv_to_muv", "muv_to_Muv", "FoV_cMpc2") else {}


@op("cosmology")
def lc_redshifts(g):
    if g.flag():
        return "redshifts_at_equal_comoving_distance", (7., g.pick(7.2, 7.4)), dict(box_grid_n=g.pick(16, 24), box_length_mpc=g.box())
    return "redshifts_at_equal_frequncy_width", (7., g.pick(7.2, 7.4), g.pick(.5, .4)), {}


@op("cosmology")
def tau(g):
    n = g.pick(5, 7)
    zs = g.zarr(n, step=.3)
    p = g.rng.permutation(n) if g.flag() else np.arange(n)
    return "tau", (g.unit((n,)), zs[p]), dict(num_points=g.pick(5, 10))


@op("cosmology")
def tau_map(g):
    n = g.pick(5, 7)
    return "tau_map", (g.unit((4, 4, n)), g.zarr(n, step=.3)), dict(num_points=g.pick(5, 10))


@op("cosmology")
def particle_numbers(g):
    f, a = g.pick(("ParticleMass_to_ParticleNumber", (100., 1e9)), ("halo_mass_to_particle_number", (100., 1e10, 20)),
                  ("particle_number_to_particle_mass", (100., 256)), ("particle_number_to_particle_mass", (np.array([100., 200.]), 256)))
    return "nbody_tools:" + f, a, dict(cosmo=g.pick("Planck18", "WMAP9", "Planck15"))


# ---------------------------------------------------------------- temperature
@op("temperature")
def calc_dt(g):
    s = g.shape(cubic=False)
    return "calc_dt", (g.xf(s), g.dens(s)), dict(z=g.z())


@op("temperature")
def calc_dt_full(g):
    s = g.shape(cubic=False)
    return "calc_dt_full", (g.xf(s), g.dens(s), 5 + 100 * g.unit(s)), dict(z=g.z(), correct=g.flag())


@op("temperature")
def calc_dt_lightcone(g):
    s = g.shape()
    return "calc_dt_lightcone", (g.xf(s), g.dens(s), g.z()), dict(los_axis=2)


@op("temperature")
def calc_dt_full_lightcone(g):
    s = g.shape()
    return "calc_dt_full_lightcone", (g.xf(s), 5 + 100 * g.unit(s), g.dens(s), g.z()), dict(correct=g.flag())


@op("temperature")
def mean_dt(g): return "mean_dt", (g.pick(g.z(), g.zarr(3)),), {}


@op("temperature")
def calc_dt_halo(g):
    return "calc_dt_halo", (g.unit((4, 4, 4)) * 1e10, g.pick(100., 50.), g.z()), dict(cosmo=g.cosmo())


@op("temperature")
def halo_map(g):
    n = 10
    m, p = 1e9 + g.unit((n,)) * 1e11, g.unit((n, 3)) * 100
    if g.flag():
        return "M_HI_on_grid", (g.z(), m * U.Msun, p * U.Mpc, 100. * U.Mpc, 4), dict(cosmo=g.cosmo())
    return "L_CII_on_grid", (g.z(), m * U.Msun, p * U.Mpc, 100. * U.Mpc, 4), dict(cosmo=g.cosmo(), recipe=g.pick("Silva2015m1", "Silva2015m3"))


@op("temperature")
def halo_list_to_grid(g):
    n = 12
    return "halo_list_to_grid", (1e9 * g.unit((n,)), g.unit((n, 3)) * 100, 100., 4), {}


@op("temperature")
def halo2grid(g):
    m, p = 1e9 * g.unit((9,)), g.unit((9, 3)) * 100

    def f(t, m, p):
        h = t.Halo2Grid(100., 4)
        h.set_halo_pos(p, unit="Mpc")
        h.set_halo_mass(m, unit="Msun")
        return h.halo_mass_on_grid(mass=h.mass_Msun)
    return f, (m, p), {}


@op("temperature")
def tau_nu(g):
    s = g.shape()
    if g.flag():
        return "tau_nu_lyA_FGPA", (g.z(), g.xf(s), g.unit(s) - .5), dict(cosmo=g.cosmo(), lambda_alpha=g.pick(1216. * U.Angstrom, 1216.))
    if g.flag():
        return "tau_nu_lyA", (g.z(), g.xf(s), g.pick(1e4, 1e4 * U.K, 1e4 * (1 + g.unit(s))), g.pick(1. * U.Mpc, .5)), dict(cosmo=g.cosmo())
    return "tau_nu_lyA_los", (g.z(), g.xf(s), g.unit(s) - .5), dict(los_len=g.pick(3, 2), los_axis=g.axis(), cosmo=g.cosmo(),
                                                                   box_len=g.pick(None, 100. * U.Mpc))


@op("temperature")
def voigt(g):
    f = g.pick("approximation_voigt_faddeeva", "lyA_scattering_cross_section")
    if f == "lyA_scattering_cross_section":
        return "lyman_alpha_transmission:" + f, (g.pick(2.46e15, 2.4e15) * U.Hz, g.pick(1e4, 1e3) * U.K), {}
    return "lyman_alpha_transmission:" + f, (g.norm((5,)), g.pick(.1, .01)), {}


# ---------------------------------------------------------------- distortion and coordinates
@op("coordinates")
def get_distorted_dt(g):
    n = g.pick(4, 5)
    return "get_distorted_dt", (g.norm((n,) * 3), g.norm((3, n, n, n)) * g.pick(100, 3, 3e4), g.z()), dict(
        los_axis=g.axis(), velocity_axis=g.axis(), num_particles=g.pick(3, 5), periodic=g.flag())


@op("coordinates")
def phys_to_obs(g):
    n = 6
    return "physical_lightcone_to_observational", (g.norm((n, n, 8)), g.z(), g.pick(.5, .8), g.pick(5., 8.)), dict(
        input_box_size_mpc=g.pick(100., None, 150.), verbose=False, order=g.pick(2, 0), mode=g.pick("pad", "crop"))


@op("coordinates")
def obs_to_phys(g):
    n = 6
    return "observational_lightcone_to_physical", (g.norm((n, n, 6)), 155. - .5 * np.arange(6), g.pick(5., 8.)), dict(verbose=False, order=g.pick(2, 0))


@op("coordinates")
def slices(g):
    if g.flag():
        return "physical_slice_to_angular", (g.norm((6, 6)), g.z(), g.pick(100., 150.), g.pick(.5, .8), g.pick(5., 8.)), dict(order=g.pick(0, 1))
    return "angular_slice_to_physical", (g.norm((6, 6)), g.z(), g.pick(.6, 1.), g.pick(15., 20.), g.pick(60., 80.)), dict(order=g.pick(0, 1))


@op("coordinates")
def resample_slice(g): return "resample_slice", (g.norm((6, 6)), g.pick(4, 8)), dict(order=g.pick(0, 2))


@op("coordinates")
def bin_freq(g): return "bin_lightcone_in_frequency", (g.norm((4, 4, 10)), g.z(), g.pick(100., 150.), g.pick(1., .7)), {}


@op("coordinates")
def bin_mpc(g): return "bin_lightcone_in_mpc", (g.norm((4, 4, 8)), np.linspace(155, 150, 8), g.pick(8., 12.)), {}


@op("coordinates")
def padding_lightcone(g):
    return "padding_lightcone", (g.norm((4, 4, 5)),), dict(padded_n=g.pick(None, 2, 3), mode=g.pick("wrap", "edge"), verbose=False)


@op("coordinates")
def get_lightcone_subvolume(g):
    n = 12
    return "get_lightcone_subvolume", (g.norm((6, 6, n)), g.zarr(n, lo=7., step=.02), g.pick(7.1, 7.12)), dict(
        depth_mhz=g.pick(None, 1.), depth_mpc=g.pick(30., 20.), odd_num_cells=g.flag(), subtract_mean=g.flag(), fov_Mpc=g.pick(None, 100.), verbose=False)


@op("coordinates")
def lightcone(g):
    n = 6
    zs = [7., 7.1, 7.2][:g.pick(2, 3)]
    d = {z: g.norm((n,) * 3).astype(np.float32) for z in zs}
    return "make_lightcone", (d,), dict(z_low=zs[0], z_high=zs[-1], los_axis=g.axis(), interpolation=g.pick("linear", "step", "sigmoid"),
                                        box_length_mpc=g.pick(None, 150.), file_redshifts=np.array(zs))


@op("coordinates")
def interpolated_array(g):
    return "helper_functions:get_interpolated_array", (g.norm((6,)), g.pick(9, 12)), dict(kind=g.pick("nearest", "linear"))


@op("coordinates")
def find_idx(g):
    return "find_idx", (np.linspace(6, 9, 10), g.pick(7.3, np.array([6.5, 7.7]), [6.5, 8.])), {}


@op("coordinates")
def helper(g):
    f = g.pick("outputify", "flt_comp", "combined", "pfa")
    if f == "outputify":
        return "helper_functions:outputify", (g.pick(g.norm((1,)), g.norm((3,))),), {}
    if f == "flt_comp":
        return "helper_functions:flt_comp", (g.pick(1., 1.00001), g.pick(1., 2.)), {}
    if f == "combined":
        return "helper_functions:combined_mean_variance", (g.norm((4,)), g.unit((4,))), dict(sample_sizes=g.pick(None, np.array([3, 4, 5, 6])))
    return "real_to_fourier_amplitude_phase", (g.norm((4, 4, 4)),), {}


# ---------------------------------------------------------------- topology, bubbles, segmentation
@op("topology")
def euler(g):
    f = g.pick("EulerCharacteristic", "EulerCharacteristic", "betti1")
    return f, (g.binary(g.pick((4, 4, 4), (3, 4, 5), (5, 4, 2))),), dict(thres=g.pick(.5, .3), neighbors=g.pick(6, 26),
                                                                    speed_up=g.pick("numpy", "python", "cython"), verbose=False)


@op("topology")
def betti(g): return g.pick("betti0", "betti2"), (g.binary(cubic=False),), dict(thres=.5, neighbors=g.pick(6, 26))


@op("topology")
def genus(g): return "genus", (g.unit(g.pick((6, 6, 6), (5, 5, 5))),), dict(xth=g.pick(.5, .3))


@op("topology")
def fof(g): return "fof", (g.unit(cubic=False),), dict(xth=g.pick(.5, .7), connectivity=g.pick(1, 2, 3))


@op("topology")
def percolation(g): return "find_percolation_cluster", (g.unit(cubic=False),), dict(xth=g.pick(.5, .3), connectivity=g.pick(1, 3))


@op("topology")
def spa(g):
    return "spa", (g.xf((6, 6, 6)),), dict(xth=g.pick(.5, .95), boxsize=g.box(), nscales=g.pick(4, 5), upper_lim=g.flag(), binning=g.pick("log", "linear"),
                                          verbose=False, use_fftconvolve=g.flag())


@op("topology", rand=True)
def mfp(g):
    f = g.pick("mfp", "mfp", "mfp_from_point", "averaged_mfp")
    a = g.xf((6, 6, 6) if f != "mfp" else g.pick((6, 6, 6), (6, 6)))
    kw = dict(xth=g.pick(.5, .3), boxsize=g.box(), iterations=g.pick(50, 80), verbose=False, upper_lim=g.flag(), bins=g.pick(None, 5))
    if f == "mfp_from_point":
        return f, (a, [1, 2, 3]), kw
    if f == "averaged_mfp":
        kw.update(iterations=4, rays_per_point=6, n_jobs=g.pick(1, 2, 3, 4))
    return f, (a,), kw


@op("topology", rand=True)
def granulo(g):
    if g.flag():
        return "granulometry_CDF", (g.binary((6, 6, 6)).astype(float),), dict(sizes=g.pick(None, np.arange(1, 4)), verbose=False)
    a = g.xf((6, 6, 6)) if g.flag(.7) else g.rng.rand(13, 13, 13) < .3
    if a.shape[0] > 6:                      # a bubble that survives every opening
        a[1:12, 1:12, 1:12] |= (np.indices((11, 11, 11)) - 5.)[0] ** 2 + ((np.indices((11, 11, 11)) - 5.)[1:] ** 2).sum(0) <= 26
        a = a.astype(float)
    return "granulometry_bsd", (a,), dict(xth=.5, boxsize=g.box(), verbose=False, upper_lim=g.flag(), log_bins=g.pick(None, 5))


@op("topology")
def watershed_bsd(g): return "watershed_bsd", (g.xf((6, 6, 6)),), dict(xth=.5, boxsize=g.box(), verbose=False, h=g.pick(None, .3))


@op("topology")
def rebin_bsd(g): return "rebin_bsd", (np.linspace(1, 20, 12), g.unit((12,))), dict(bins=g.pick(5, 4))


@op("topology")
def dist_from_volumes(g): return "dist_from_volumes", (g.rng.randint(1, 60, 20),), dict(resolution=g.pick(1., 2.), bins=g.pick(10, 6))


@op("topology")
def thresholds(g):
    f = g.pick("bubbles_from_fixed_threshold", "bubbles_from_triangle3D", "bubbles_from_triangle2D")
    kw = dict(upper_lim=g.flag())
    kw.update(dict(threshold=g.pick(0, .5)) if f.endswith("threshold") else dict(nbins=g.pick(16, 32)))
    return f, (g.norm((6, 6, 6)),), kw


@op("topology", rand=True)
def kmeans(g):
    return "bubbles_from_kmeans", (g.norm((5, 5, 5)),), dict(upper_lim=g.flag(), n_clusters=g.pick(2, 3))


@op("topology")
def slic(g):
    if g.flag():
        return "slic_cube", (g.norm((6, 6, 6)).astype(float),), dict(n_segments=g.pick(8, 12), max_iter=3, verbose=False)
    return "bubbles_from_slic", (g.norm((8, 8, 8)).astype(float),), dict(n_segments=g.pick(40, 60), bins=g.pick(10, "knuth"), verbose=False)


@op("topology")
def superpixels(g):
    lab = g.rng.randint(0, 4, (5, 5, 5))
    lab.flat[:4] = [0, 1, 2, 3]
    d = g.norm((5, 5, 5))
    f = g.pick("superpixel_map", "apply_operator_labelled_data", "get_superpixel_means", "get_superpixel_sigmas", "get_superpixel_n_pixels",
               "binary_stitch", "see_label", "get_superpixel_SNRs")
    if f == "binary_stitch":
        return "superpixels:" + f, (d, lab), dict(stitch=g.pick("mean", "otsu"))
    if f == "see_label":
        return "superpixels:" + f, (lab, g.pick(1, 2)), {}
    if f in ("superpixel_map", "apply_operator_labelled_data"):
        return "superpixels:" + f, (d, lab), dict(verbose=False)
    kw = dict(labels=lab)
    if f != "get_superpixel_SNRs":
        kw["verbose"] = False
        return "superpixels:" + f, (d,), kw
    return "superpixels:" + f, (), dict(data=d, labels=lab)


@op("topology")
def use_error(g):
    a = g.rng.randint(0, 3, (4, 4, 4))
    return "superpixels:under_segmentation_error", (a, g.rng.randint(0, 2, (4, 4, 4))), dict(verbose=False)


@op("topology")
def morph(g):
    return "morph:binary_opening", (g.binary((6, 6, 6)).astype(float),), dict(structure=np.ones(g.pick((3, 3, 3), (2, 2, 2))))


@op("topology")
def friends(g): return "Friends_of_Friends:FoF_search", (g.unit((3, 3, 3)), g.pick(.5, .3)), {}


@op("topology", rand=True)
def mfp_np(g):
    return "mfp_np:mfp3d", (g.xf((6, 6, 6)),), dict(xth=g.pick(.5, .3), iterations=40, verbose=False)


# ---------------------------------------------------------------- telescope
UVKW = dict(subarray_type="AA0.5", total_int_time=1., int_time=1800.)


def uvkw(g):
    k = dict(UVKW)
    k.update(subarray_type=g.pick("AA0.5", "AA1"), boxsize=g.pick(None, 150., 420.), declination=g.pick(-30., 10.))
    return k


@op("telescope")
def get_uv_map(g):
    k = uvkw(g)
    return "get_uv_map", (g.pick(4, 6), g.z()), dict(k, include_mirror_baselines=g.flag(), max_baseline=g.pick(None, 5.), verbose=False)


@op("telescope")
def get_uv_daily_observation(g):
    k = uvkw(g)
    k.pop("subarray_type")
    ant = g.rng.rand(g.pick(5, 6), 3) * 1000
    return "get_uv_daily_observation", (g.pick(4, 6), g.z()), dict(k, antxyz=ant * U.m, include_mirror_baselines=g.flag(), verbose=False)


@op("telescope")
def uv_lightcone(g):
    k = uvkw(g)
    return "get_uv_map_lightcone", (g.pick(4, 5), np.array(g.pick([7., 7.5], [8., 7., 9.]))), dict(k, n_jobs=1, verbose=False)


@op("telescope")
def baselines(g):
    ant = g.rng.rand(g.pick(4, 5), 3) * 1000
    f = g.pick("from_antenna_config", "antenna_positions_to_baselines", "geographic_to_cartesian_coordinate_system",
               "cartesian_to_geographic_coordinate_system")
    if f == "from_antenna_config":
        return "radio_telescope_layout:" + f, (ant * U.m, g.z()), dict(nu=g.pick(None, 150.))
    if f.startswith("geographic"):
        ant = np.stack([ant[:, 0] / 10, ant[:, 1] / 20, ant[:, 2]], 1)
    if f.startswith("cartesian"):
        ant = ant + 6.3e6
    return "radio_telescope_layout:" + f, (ant,), {}


@op("telescope")
def grid_uv_tracks(g):
    nb = g.rng.normal(0, 100, (12, 3))
    return "radio_telescope_layout:grid_uv_tracks", (nb, g.z(), g.pick(4, 6)), dict(boxsize=g.pick(None, 150.), include_mirror_baselines=g.flag())


@op("telescope")
def earth_rotation_effect(g):
    nb = g.rng.normal(0, 100, (6, 3))
    return "radio_telescope_layout:earth_rotation_effect", (nb, g.pick(1, 3), 60., 6.), dict(declination=g.pick(-30., 10.))


@op("telescope")
def layout_query(g):
    f = g.pick("subarray_type_to_antxyz", "get_SKA_Low_layout", "get_latest_SKA_Low_layout")
    if f == "get_latest_SKA_Low_layout":
        return "radio_telescope_layout:subarray_type_to_antxyz", (g.pick("AA2", "AA0.5"),), dict(verbose=False)
    if f == "get_SKA_Low_layout":
        return "get_SKA_Low_layout", (), dict(subarray_type=g.pick("AA0.5", "AA1"), unit=g.pick("ecef", "xyz"), verbose=False)
    return "radio_telescope_layout:" + f, (g.pick("AA0.5", "AA1"),), dict(verbose=False)


@op("telescope")
def get_SEFD(g):
    return "get_SEFD", (g.pick(150., np.array([120., 160.])),), dict(T_sys=g.pick(None, 300.), D_station=g.pick(40., 35.))


@op("telescope")
def sigma_noise_radio(g):
    return "sigma_noise_radio", (g.z(), g.pick(.1, .5), g.pick(100., 1000.), 10.), dict(uv_map=g.unit((4, 4)), N_ant=g.pick(512, 20), verbose=False)


@op("telescope")
def jansky(g):
    f = g.pick("jansky_2_kelvin", "kelvin_2_jansky", "kelvin_jansky_conversion")
    if f == "kelvin_jansky_conversion":
        return f, (g.pick(4, 6), g.z()), dict(boxsize=g.pick(None, 150.))
    return f, (g.norm((6, 6)), g.z()), dict(boxsize=g.pick(None, 150.), ncells=g.pick(None, 6))


@op("telescope")
def uv_response(g):
    f = g.pick("apply_uv_response", "apply_uv_response_on_image", "apply_uv_response_noise")
    n = g.pick(4, 6)
    if f == "apply_uv_response_noise":
        return f, (g.norm((n, n)) + 1j * g.norm((n, n)), g.unit((n, n))), dict(uv_weighting=g.pick("natural", "uniform"), boxsize=150.)
    return f, (g.norm((n, n)), g.unit((n, n))), {}


@op("telescope")
def on_coeval(g):
    n = g.pick(4, 6)
    return "apply_uv_response_on_coeval", (g.norm((n, n, n)), g.z()), dict(uv_map=g.unit((n, n)), N_ant=20)


@op("telescope", rand=True)
def noise_map(g):
    n = g.pick(4, 6)
    return "noise_map", (n, g.z(), g.pick(.1, .5)), dict(uv_map=g.unit((n, n)), N_ant=20, boxsize=g.pick(None, 150.), fft_wrap=False,
                                                         uv_weighting=g.pick("natural", "uniform"), obs_time=g.pick(1000, 100), verbose=False,
                                                         suppress_sharp_features_uv_map=g.pick(False, False, "gaussian"))


@op("telescope", rand=True)
def noise_cube_coeval(g):
    n = 4
    return "noise_cube_coeval", (n, g.z()), dict(depth_mhz=g.pick(None, .5), uv_map=g.unit((n, n)), N_ant=20, boxsize=g.pick(None, 150.), verbose=False)


@op("telescope", rand=True)
def noise_lightcone(g):
    k = uvkw(g)
    return "noise_lightcone", (4, np.array([7., 7.1, 7.25])), dict(k, boxsize=150., n_jobs=g.pick(1, 2, 3), verbose=False)


@op("telescope")
def noise_ps(g):
    n = 6
    return "noise_coeval_power_spectrum_1d", (n, g.z(), .1), dict(uv_map=g.unit((n, n)) + .1, N_ant=20, kbins=g.bins(), boxsize=g.pick(None, 150.),
                                                                 binning=g.pick("log", "linear"), verbose=False)


@op("telescope")
def stamps(g):
    k = uvkw(g)
    f = g.pick("get_full_uv_map_with_antenna_stamp", "get_full_uv_lagrangian_with_antenna_stamp")
    return f, (4, g.z()), dict(k, n_jobs=1, verbose=False)


@op("telescope", rand=True)
def gains(g):
    k = uvkw(g)
    return "get_uv_map_with_gains", (4, g.z()), dict(k, gain_model={"name": "random_uniform", "min": .5, "max": 1.1}, gain_timescale=[10, 1800], verbose=False)


@op("telescope")
def signal_window(g):
    return "signal_window", (g.pick(6, 8), g.pick("blackmanharris", "tukey", "hann")), dict(ndim=g.pick(1, 2))


@op("telescope")
def max_k(g): return "max_baseline_to_max_k", (g.z(), g.pick(2 * U.km, 1 * U.km)), {}


@op("telescope")
def primary_beam(g):
    n = g.pick(4, 6)
    if g.flag():
        return "circular_beam", (n, g.z()), dict(D_station=g.pick(40., 35.), beam_func=g.pick("Gaussian", "bessel", "step"), boxsize=g.pick(None, 1500.))
    return "primary_beam", (g.norm((n, n, n)), g.pick(g.z(), g.zarr(n))), dict(nu_axis=g.axis(), beam_func=g.pick("Gaussian", "bessel"),
                                                                            boxsize=g.pick(None, 1500.), verbose=False)


# ---------------------------------------------------------------- fields and foregrounds
@op("fields")
def grf_seeded(g):
    return "make_gaussian_random_field", (g.pick([6, 6, 6], [4, 4, 8], [5, 5]), g.pick(100., 150.), g.pick(ps_a, ps_b)), dict(random_seed=g.pick(1, 7, 42))


@op("fields", rand=True)
def grf(g):
    return "make_gaussian_random_field", (g.pick([6, 6, 6], [4, 4, 8], [5, 5]), g.pick(100., 150.), g.pick(ps_a, ps_b)), {}


@op("fields")
def grf_like(g):
    return "make_gaussian_random_field_like_field", (g.norm((6, 6, 6)), g.pick(100., 150.)), dict(kbins=g.bins(), random_seed=g.pick(1, 7, 42))


@op("fields", rand=True)
def phase_shuffled(g): return "fourier_phase_shuffled", (g.norm((4, 4, 4)),), {}


@op("fields")
def foreground_seeded(g):
    if g.flag():
        return "galactic_synch_fg", (g.pick(8., np.array([7., 8.])), 6, g.pick(100., 150.)), dict(rseed=g.pick(1, 7))
    return "extragalactic_pointsource_fg", (g.pick(8., np.array([7., 8.])), 6, g.pick(100., 150.)), dict(rseed=g.pick(1, 7), S_max=g.pick(100, 80))


@op("fields", rand=True)
def foreground(g): return "galactic_synch_fg", (g.pick(8., np.array([7., 8.])), 6, g.pick(100., 150.)), {}


@op("fields")
def wedge(g):
    n = 10
    return "rolling_wedge_removal_lightcone", (g.norm((6, 6, n)), g.zarr(n, lo=7., step=.02)), dict(
        cell_size=g.pick(None, 10.), chunk_length=g.pick(None, 4), OMm=g.pick(None, .3, .25, .4))


@op("fields")
def wedge_image(g):
    return "remove_wedge_image", (g.norm((6, 6, 6)), g.z()), dict(mu=g.pick(.5, .7), funct="step", boxsize=g.pick(100., 150.))


@op("fields", rand=True)
def bubbles(g):
    return "spherical_bubble_model", (10, g.pick(.2, .3)), dict(r=g.pick(1, 2), source_distribution=g.pick("Poisson", "non-overlapping"))


@op("fields", rand=True)
def bubbles_into(g):
    return "spherical_bubble_model", (10, g.pick(.2, .3)), dict(r=g.pick(1, 2), cube=np.zeros((10, 10, 10)))


@op("fields")
def fit_function(g):
    x = np.linspace(0, 1, 8)
    y = 2 * x + 1 + .1 * g.norm((8,))

    def f(t, x, y):
        m = t.FitFunction(lin, fit_params={"a": 1., "b": .5})
        return m.fit_predict(x, y)
    return f, (x, y), {}


def ps_a(k):
    return np.exp(-k * 10)


def ps_b(k):
    return 1. / (1 + k) ** 3


def lin(x, th):
    return th[0] * x + th[1]


from .ops_more import SERIAL        # noqa: E402  (registers more calls)
from . import ops_rest              # noqa: E402  (and the rest)
SERIAL = SERIAL | ops_rest.SERIAL
from . import ops_files             # noqa: E402,F401

FAMILIES = sorted({r[0] for r in REG})
STATE_MODULES = ("const", "conv")


class Call:
    def __init__(self, fam, name, gen, rand, g):
        self.family, self.name, self.rand = fam, name, rand
        self.fn, self.args, self.kw = gen(g)
        if isinstance(self.fn, str):
            self.label = self.fn
        else:
            self.label = name
        self.nseed = g.ch.draw(2 ** 20) if rand else 0

    def fresh(self):
        return copy_args((self.args, self.kw))

    def invoke(self, node, ak=None, seed=True):
        """("ok", value) or ("err", type name); runs in the simulated process `node`, which must be active."""
        a, k = self.fresh() if ak is None else ak
        if self.rand and seed:
            np.random.seed(self.nseed)
            random.seed(self.nseed)
        f = resolve(node, self.fn)
        try:
            if isinstance(self.fn, str):
                return "ok", f(*a, **k)
            return "ok", f(node.t2c, *a, **k)
        except Exception as e:
            return "err", type(e).__name__

    def __repr__(self):
        return self.label


def resolve(node, fn):
    if not isinstance(fn, str):
        return fn
    mod, _, name = fn.rpartition(":")
    if mod:
        return getattr(importlib.import_module("tools21cm." + mod), name)
    return getattr(node.t2c, fn)


def copy_args(x):
    if isinstance(x, np.ndarray):
        if type(x) is not np.ndarray:
            return x.copy()
        y = np.empty_like(x)        # keeps the memory order
        y[...] = x
        if x.ndim and x.strides != y.strides and any(s < 0 for s in x.strides):
            y = np.ascontiguousarray(x[::-1])[::-1]
        return y
    if isinstance(x, dict):
        return {k: copy_args(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(copy_args(v) for v in x)
    if isinstance(x, list):
        return [copy_args(v) for v in x]
    return x


def same(a, b):
    """Bit for bit equal arguments."""
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, int, str, bool, type(None))):
        return a == b or (a != a and b != b)
    return True


def norm(v):
    """A result in comparable form."""
    if isinstance(v, U.Quantity):
        return ["quantity", str(v.unit), np.asarray(v.value)]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return [norm(x) for x in v]
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, np.ndarray) or v is None or isinstance(v, (str, bool, int, float, complex, np.generic)):
        return v
    if hasattr(v, "columns") and hasattr(v, "values"):
        return [list(map(str, v.columns)), np.asarray(v.values)]
    return repr(type(v))


def agree(x, y):
    return x[0] == y[0] and (x[1] == y[1] if x[0] == "err" else parops.eq(norm(x[1]), norm(y[1])))


OPEN = {"bubbles_into": "input-changed/spherical_bubble_model"}     # see known_findings.txt


def changed_key(c):
    return OPEN.get(c.name, "input-changed")


def draw_call(ctx, g=None, families=None, rand=None, skip=(), at=None):
    """A call of a drawn public function, or of the at-th one (runs then cover all of them evenly)."""
    ch = ctx.ch
    if at is not None:
        pool = [r for r in REG if r[1] not in skip and (rand is None or r[3] == rand)]
        return Call(*pool[at % len(pool)], g or G(ctx))
    fams = families or FAMILIES
    pool = [r for r in REG if (rand is None or r[3] == rand) and r[1] not in skip]
    rs = pool
    if families is not None or not ch.flag(0.8):       # each call equally likely, else each family
        fam = fams[ch.draw(len(fams))]
        rs = [r for r in pool if r[0] == fam] or pool
    r = rs[ch.draw(len(rs))]
    return Call(*r[:2], r[2], r[3], g or G(ctx))


def tweak(ctx, c, g=None):
    """Another call of the same function that differs from c in a single argument, where their forms allow it."""
    v = variant(ctx, c, g)
    if not (isinstance(c.fn, str) and c.fn == v.fn) or len(c.args) != len(v.args):
        return v
    slots = [(0, i) for i in range(len(c.args)) if fits(c.args[i], v.args[i])]
    slots += [(1, k) for k in sorted(set(c.kw) | set(v.kw)) if k not in c.kw or k not in v.kw or fits(c.kw[k], v.kw[k])]
    if not slots:
        return v
    where, k = slots[ctx.ch.draw(len(slots))]
    args, kw = list(c.args), dict(c.kw)
    if where == 0:
        args[k] = v.args[k]
    elif k in v.kw:
        kw[k] = v.kw[k]
    else:
        del kw[k]
    v.args, v.kw, v.nseed = tuple(args), kw, c.nseed
    return v


def fits(a, b):
    """b can stand where a stood, and is not the same."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and a.ndim > 0
    return not same(a, b)


def variant(ctx, c, g=None):
    """Another call of the same function with newly drawn arguments."""
    for r in REG:
        if r[1] == c.name:
            return Call(r[0], r[1], r[2], r[3], g or G(ctx))


def settings(node):
    """Every plain module-level value of the settings modules."""
    out = {}
    for m in STATE_MODULES:
        for k, v in vars(importlib.import_module("tools21cm." + m)).items():
            if not k.startswith("_") and isinstance(v, (int, float, str, np.generic)):
                out[m + "." + k] = v
    return out


def settings_diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in list(a) + [k for k in b if k not in a]
            if not (k in a and k in b and (a[k] == b[k] or (a[k] != a[k] and b[k] != b[k])))}


def same_settings(a, b):
    return not settings_diff({k: v for k, v in a.items() if k in b}, {k: b[k] for k in a if k in b})


def flags(x):
    """Which arrays of an argument tree are writeable."""
    if isinstance(x, np.ndarray):
        return [x.flags.writeable]
    if isinstance(x, dict):
        x = list(x.values())
    return sum((flags(v) for v in x), []) if isinstance(x, (list, tuple)) else []
