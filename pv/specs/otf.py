"""What the optical transfer functions are (postconditions, spec language).

Plain Python over numpy: run symbolically by the verifier and concretely by
the replay.  Nothing here is copied from the code under verification; the
formulas are those of the pyBSM reference (Eismann and LeMaster)."""
import numpy as np
import cv2
from scipy import interpolate
from scipy.special import jn

from pv.specs import geo


def _seg(x):
    """Overlap of two unit discs, normalised: 1 at x=0, 0 for x >= 1."""
    return np.where(x <= 1, 2 / np.pi * (np.arccos(x) - x * np.sqrt(1 - x ** 2)), 0)


def _ring(x, eta):
    """Twice the overlap of the aperture with the shifted obscuration (phi is 0 while the obscuration lies inside)."""
    phi = np.arccos(np.clip((1 + eta ** 2 - 4 * x ** 2) / (2 * eta), -1, 1))
    return (2 * eta / np.pi * np.sin(phi) + (1 + eta ** 2) / np.pi * phi
            - 2 * (1 - eta ** 2) / np.pi * np.arctan((1 + eta) / (1 - eta) * np.tan(phi / 2)) - 2 * eta ** 2)


def circular_aperture_OTF(u, v, lambda0, D, eta):
    x = lambda0 / D * np.sqrt(u ** 2 + v ** 2)
    if eta == 0:
        return _seg(x)
    c = np.where(x <= (1 + eta) / 2, _ring(x, eta), 0)
    return (_seg(x) + eta ** 2 * _seg(x / eta) + c) / (1 - eta ** 2)


def circular_aperture_OTF_with_defocus(u, v, wavelength, D, f, defocus):
    x = wavelength / D * np.sqrt(u ** 2 + v ** 2)
    s = 2 * x
    beta = np.arccos(x)
    if defocus == 0:
        return np.where(x <= 1, (2 * beta - np.sin(2 * beta)) / np.pi, 0)
    w20 = defocus / (2 * (1 + 4 * (f / D) ** 2))
    a = 4 * np.pi / wavelength * w20 * s
    p = (beta * jn(1, a) + np.sin(2 * beta) / 2 * (jn(1, a) - jn(3, a))
         - np.sin(4 * beta) / 4 * (jn(3, a) - jn(5, a)) + np.sin(6 * beta) / 6 * (jn(5, a) - jn(7, a)))
    q = (np.sin(beta) * (jn(0, a) - jn(2, a)) - np.sin(3 * beta) / 3 * (jn(2, a) - jn(4, a))
         + np.sin(5 * beta) / 5 * (jn(4, a) - jn(6, a)) - np.sin(7 * beta) / 7 * (jn(6, a) - jn(8, a)))
    h = 4 / (np.pi * a) * (np.cos(a * s / 2) * p - np.sin(a * s / 2) * q)
    return np.where(x == 0, 1, np.where(x <= 1, h, 0))


def cte_OTF(u, v, p_x, p_y, cte_n_x, cte_n_y, phases_n, cte_eff, f):
    loss = cte_n_x * (1 - np.cos(2 * np.pi * p_x * u / f)) + cte_n_y * (1 - np.cos(2 * np.pi * p_y * v / f))
    return np.exp(-phases_n * (1 - cte_eff) * loss)


def defocus_OTF(u, v, D, w_x, w_y):
    return np.exp(-(np.pi ** 2) / 4 * ((w_x * u) ** 2 + (w_y * v) ** 2))


def detector_OTF(u, v, w_x, w_y, f):
    return np.sinc(w_x * u / f) * np.sinc(w_y * v / f)


def detector_OTF_with_aggregation(u, v, w_x, w_y, p_x, p_y, f, n):
    cu = sum(np.cos(2 * np.pi * (i - (n - 1) / 2) * p_x * u / f) for i in range(n))
    cv = sum(np.cos(2 * np.pi * (i - (n - 1) / 2) * p_y * v / f) for i in range(n))
    return cu / n * cv / n * detector_OTF(u, v, w_x, w_y, f)


def diffusion_OTF(u, v, alpha, ald, al0, f):
    k = 2 * np.pi * np.sqrt(u ** 2 + v ** 2) / f
    al = 1 / np.sqrt(1 / al0 ** 2 + k ** 2)
    return (1 - np.exp(-alpha * ald) / (1 + alpha * al)) / (1 - np.exp(-alpha * ald) / (1 + alpha * al0))


def drift_OTF(u, v, a_x, a_y):
    return np.sinc(a_x * u) * np.sinc(a_y * v)


def gaussian_OTF(u, v, blur_size_x, blur_size_y):
    return np.exp(-np.pi * ((blur_size_x * u) ** 2 + (blur_size_y * v) ** 2))


def jitter_OTF(u, v, s_x, s_y):
    return np.exp(-2 * np.pi ** 2 * ((s_x * u) ** 2 + (s_y * v) ** 2))


def tdi_OTF(u_or_v, w, n_tdi, phases_n, beta, f):
    x = w * u_or_v / (f * beta)
    m = n_tdi * phases_n
    t = 2 * np.pi * x * (beta - 1)
    re = sum(np.cos(t * i) for i in range(m))
    im = sum(np.sin(t * i) for i in range(m))
    return np.sinc(x) / m * (re - 1j * im)


def turbulence_OTF(u, v, lambda0, D, r0, alpha):
    rho = np.sqrt(u ** 2 + v ** 2)
    return np.exp(-3.44 * (lambda0 * rho / r0) ** (5 / 3) * (1 - alpha * (lambda0 * rho / D) ** (1 / 3)))


def wind_speed_turbulence_OTF(u, v, lambda0, D, r0, t_d, vel):
    w = np.exp(-vel * t_d / r0)
    return (w * turbulence_OTF(u, v, lambda0, D, r0, 0.5)
            + (1 - w) * turbulence_OTF(u, v, lambda0, D, r0, 0))


def wavefront_OTF(u, v, lambda0, pv, L_x, L_y):
    return np.exp(-pv * (1 - np.exp(-(lambda0 ** 2) * ((u / L_x) ** 2 + (v / L_y) ** 2))))


def wavefront_OTF_2(u, v, cutoff, w_rms):
    x = np.sqrt(u ** 2 + v ** 2) / cutoff
    return 1 - (w_rms / 0.18) ** 2 * (1 - 4 * (x - 0.5) ** 2)


def hufnagel_valley_turbulence_profile(h, v, cn2_at_1m):
    return (5.94e-53 * (v / 27) ** 2 * h ** 10 * np.exp(-h / 1000) + 2.7e-16 * np.exp(-h / 1500)
            + cn2_at_1m * np.exp(-h / 100))


def coherence_diameter(lambda0, z_path, cn2):
    n = len(z_path)
    zmax = np.max(z_path)
    y = cn2 * (z_path / zmax) ** (5 / 3)
    return (0.423 * (2 * np.pi / lambda0) ** 2 * np.trapz(y, z_path)) ** (-3 / 5)


def weighted_by_wavelength(wavelengths, weights, my_function):
    total = np.sum(weights)
    return sum(weights[i] * my_function(wavelengths[i]) for i in range(len(wavelengths))) / total


def polychromatic_turbulence_OTF(u, v, wavelengths, weights, altitude, slant_range, D, ha_wind_speed, cn2_at_1m,
                                 int_time, aircraft_speed):
    z_path, h_path = geo.altitude_along_slant_path(0.0, altitude, slant_range)
    r0_1um = coherence_diameter(1e-6, z_path, hufnagel_valley_turbulence_profile(h_path, ha_wind_speed, cn2_at_1m))
    r0 = lambda w: r0_1um * (w / 1e-6) ** (6 / 5)
    otf = weighted_by_wavelength(wavelengths, weights, lambda w: wind_speed_turbulence_OTF(
        u, v, w, D, r0(w), int_time, aircraft_speed))
    return otf, weighted_by_wavelength(wavelengths, weights, r0)


def object_domain_defocus_radii(D, R, R0):
    return 0.62 * D * (1 / R - 1 / R0)


def image_domain_defocus_radii(D, dz, f):
    return 0.62 * D * dz / f ** 2


def dark_current_from_density(jd, w_x, w_y):
    return jd * w_x * w_y / 1.60217662e-19


# ---- system level ----------------------------------------------------------
def common_OTFs(sensor, scenario, uu, vv, mtf_wavelengths, mtf_weights, slant_range, int_time):
    """Every component OTF and their product."""
    one = np.ones(uu.shape)
    ap = weighted_by_wavelength(mtf_wavelengths, mtf_weights,
                                lambda w: circular_aperture_OTF(uu, vv, w, sensor.D, sensor.eta))
    if scenario.cn2_at_1m > 0:
        turb, r0 = polychromatic_turbulence_OTF(
            uu, vv, mtf_wavelengths, mtf_weights, scenario.altitude, slant_range, sensor.D, scenario.ha_wind_speed,
            scenario.cn2_at_1m, int_time * sensor.n_tdi, scenario.aircraft_speed)
    else:
        turb = one
        r0 = 1e6 * one
    dwell = int_time * sensor.n_tdi
    det = detector_OTF(uu, vv, sensor.w_x, sensor.w_y, sensor.f)
    jit = jitter_OTF(uu, vv, sensor.s_x, sensor.s_y)
    drft = drift_OTF(uu, vv, sensor.da_x * dwell, sensor.da_y * dwell)
    wav = weighted_by_wavelength(mtf_wavelengths, mtf_weights, lambda w: wavefront_OTF(
        uu, vv, w, sensor.pv * (sensor.pv_wavelength / w) ** 2, sensor.L_x, sensor.L_y))
    if sensor.filter_kernel.size > 1:
        filt = filter_OTF(uu, vv, sensor.filter_kernel, sensor.p_x / sensor.f)
    else:
        filt = one
    return {"ap_OTF": ap, "turb_OTF": turb, "r0_band": r0, "det_OTF": det, "jit_OTF": jit, "drft_OTF": drft,
            "wav_OTF": wav, "filter_OTF": filt, "system_OTF": ap * turb * det * jit * drft * wav * filt}


def filter_OTF(u, v, kernel, ifov):
    n = 100
    mag = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))
    ny = 0.5 / ifov
    gu, gv = np.meshgrid(np.linspace(-ny, ny, n), np.linspace(ny, -ny, n))
    wrap = lambda x: (x + ny) % (2 * ny) - ny
    return interpolate.griddata((gu.reshape(-1), gv.reshape(-1)), mag.reshape(-1), (wrap(u), wrap(v)),
                                method="linear", fill_value=0)


def _centre(d, k):
    """Central window of about k samples of an axis of length d."""
    return slice(max(0, int(np.floor((d - k) / 2))), int(np.ceil((d + k) / 2)))


def resampled_psf(otf, df, dx_out):
    """Real part of the centred inverse transform, resampled to dx_out."""
    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
    dx_in = 1 / (otf.shape[0] * df)
    return cv2.resize(psf, (max(1, int(psf.shape[1] * dx_in / dx_out)), max(1, int(psf.shape[0] * dx_in / dx_out))))


def window(psf, k):
    return psf[_centre(psf.shape[0], k), _centre(psf.shape[1], k)]


def otf_to_psf(otf, df, dx_out):
    """The resampled PSF, normalised, cropped to the first central window (10,
    15, 20... samples) holding more than 95 % of the energy, normalised again."""
    psf = resampled_psf(otf, df, dx_out)
    psf = psf / np.sum(psf)
    for k in range(10, min(otf.shape[0], otf.shape[1]), 5):
        out = window(psf, k)
        if np.sum(out) > 0.95:
            break
    return out / np.sum(out)


def has_energy(otf, df, dx_out):
    n = min(otf.shape[0], otf.shape[1])
    if n <= 10:
        return False
    psf = resampled_psf(otf, df, dx_out)
    return np.sum(psf) > 0 and all(np.sum(window(psf, k)) > 0 for k in range(10, n, 5))


def slice_otf(otf, ang):
    """Values along a ray from the centre, at radii 0, du, 2 du... below 1."""
    u = np.linspace(-1, 1, otf.shape[0])
    v = np.linspace(1, -1, otf.shape[1])
    r = np.arange(0, 1, 2 / (otf.shape[0] - 1))
    f = interpolate.interp2d(u, v, otf)
    return np.array([f(x * np.cos(ang), x * np.sin(ang))[0] for x in r])


def resample_2D(img_in, dx_in, dx_out):
    return cv2.resize(img_in, (int(np.round(img_in.shape[1] * dx_in / dx_out)), int(np.round(img_in.shape[0] * dx_in / dx_out))))


def apply_otf_to_image(ref_img, ref_gsd, ref_range, otf, df, ifov):
    psf = otf_to_psf(otf, df, 2 * np.arctan(ref_gsd / (2 * ref_range)))
    step = ref_gsd / ref_range
    return resample_2D(cv2.filter2D(ref_img, -1, psf), step, ifov), resample_2D(psf, step, ifov)


def reachable(altitude, slant_range):
    return geo.triangle(0.0, altitude, slant_range)


def seen_from(scenario, slant_range):
    return geo.triangle(0.0, scenario.altitude, slant_range)


def blurs(ref_gsd, ref_range, otf, df):
    return has_energy(otf, df, 2 * np.arctan(ref_gsd / (2 * ref_range)))


def even(otf):
    """Rounding does not decide whether the radius 1 is reached."""
    return otf.shape[0] % 2 == 0
