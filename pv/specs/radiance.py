"""Radiometry: Planck's law, focal-plane irradiance, photoelectron rates and
the photon-noise budget."""
import numpy as np

from pv.specs import noise

H = 6.62607004e-34
C = 299792458.0
K = 1.38064852e-23


def blackbody_radiance(lambda0, T):
    return 2 * H * C ** 2 / (lambda0 ** 5 * (np.exp(H * C / (lambda0 * K * T)) - 1))


def at_focal_plane_irradiance(D, f, L):
    return np.pi * L / (1 + 4 * (f / D) ** 2)


def cold_shield_self_emission(wavelengths, cold_shield_temperature, D, f):
    omega = np.pi - np.pi / (1 + 4 * (f / D) ** 2)
    return omega * blackbody_radiance(wavelengths, cold_shield_temperature)


def cold_stop_self_emission(wavelengths, cold_filter_temperature, cold_filter_emissivity, D, f):
    return at_focal_plane_irradiance(D, f, cold_filter_emissivity
                                     * blackbody_radiance(wavelengths, cold_filter_temperature))


def optics_self_emission(wavelengths, optics_temperature, optics_emissivity, cold_filter_transmission, D, f):
    return at_focal_plane_irradiance(D, f, cold_filter_transmission * optics_emissivity
                                     * blackbody_radiance(wavelengths, optics_temperature))


def focal_plane_integrated_irradiance(L, L_s, t_opt, e_opt, lambda0, d_lambda, optics_temperature, D, f):
    through = t_opt * L
    emitted = e_opt * blackbody_radiance(lambda0, optics_temperature) * d_lambda
    return at_focal_plane_irradiance(D, f, through + emitted + L_s)


def photon_detection_rate(E, w_x, w_y, wavelengths, qe):
    return qe * (w_x * w_y * E) / (H * C / wavelengths)


def resample_by_wavelength(wavelengths, values, new_wavelengths):
    return np.interp(new_wavelengths, wavelengths, values, left=0.0, right=0.0)


def check_well_fill(total_photoelectrons, max_fill):
    if total_photoelectrons <= max_fill:
        return 1.0
    return max_fill / total_photoelectrons


def total_radiance(atm, reflectance, temperature):
    lam, trans, path, scat, refl = atm[:, 0], atm[:, 1], atm[:, 2], atm[:, 4], atm[:, 5]
    emitted = (1 - reflectance) * blackbody_radiance(lam, temperature) * trans
    return path + emitted + scat + refl * reflectance / 0.15


def giqe_radiance(atm, is_emissive):
    if is_emissive:
        return total_radiance(atm, 0.0, 282.0), total_radiance(atm, 0.0, 280.0)
    return total_radiance(atm, 0.15, 282.0), total_radiance(atm, 0.07, 280.0)


def signal_rate(wavelengths, target_radiance, optical_transmission, D, f, w_x, w_y, qe, other_irradiance, dark_current):
    E = optical_transmission * at_focal_plane_irradiance(D, f, target_radiance) + other_irradiance
    spectral = photon_detection_rate(E, w_x, w_y, wavelengths, qe)
    return np.trapz(spectral, wavelengths) + dark_current, E, spectral


def optics_chain(sensor, lam):
    """End-to-end transmission, quantum efficiency and self-emission of a sensor on a wavelength grid."""
    trans = (sensor.cold_filter_transmission * (1 - sensor.eta ** 2)
             * resample_by_wavelength(sensor.opt_trans_wavelengths, sensor.optics_transmission, lam))
    qe = resample_by_wavelength(sensor.qe_wavelengths, sensor.qe, lam)
    other = (cold_shield_self_emission(lam, sensor.cold_shield_temperature, sensor.D, sensor.f)
             + optics_self_emission(lam, sensor.optics_temperature, sensor.optics_emissivity,
                                    sensor.cold_filter_transmission, sensor.D, sensor.f)
             + cold_stop_self_emission(lam, sensor.cold_filter_temperature, sensor.cold_filter_emissivity,
                                       sensor.D, sensor.f))
    return trans, qe, other


def photon_detector_SNR(sensor, radiance_wavelengths, target_radiance, background_radiance):
    lam = radiance_wavelengths
    trans, qe, other = optics_chain(sensor, lam)
    t_rate, t_E, t_w = signal_rate(lam, target_radiance, trans, sensor.D, sensor.f, sensor.w_x, sensor.w_y, qe, other,
                                   sensor.dark_current)
    b_rate, b_E, b_w = signal_rate(lam, background_radiance, trans, sensor.D, sensor.f, sensor.w_x, sensor.w_y, qe, other,
                                   sensor.dark_current)
    t_full = t_rate * sensor.int_time * sensor.n_tdi
    b_full = b_rate * sensor.int_time * sensor.n_tdi
    k = check_well_fill(np.max([t_full, b_full]), sensor.max_well_fill * sensor.max_n)
    tgt, bkg = k * t_full, k * b_full
    t_int = k * sensor.int_time
    brightest = np.max([tgt, bkg])
    signal_noise = np.sqrt(brightest)
    qn = noise.quantization_noise(sensor.max_n, sensor.bit_depth)
    self_rate = np.trapz(photon_detection_rate(other, sensor.w_x, sensor.w_y, lam, qe), lam)
    total = np.sqrt(signal_noise ** 2 + qn ** 2 + sensor.read_noise ** 2 + np.sum(sensor.other_noise ** 2))
    return {
        "opt_trans": trans, "qe": qe, "other_irradiance": other,
        "tgt_n_rate": t_rate, "tgt_FPA_irradiance": t_E, "weights": t_w, "tgt_n": tgt,
        "bkg_n_rate": b_rate, "bkg_FPA_irradiance": b_E, "bkg_n": bkg,
        "int_time": t_int, "well_fraction": brightest / sensor.max_n, "contrast_signal": tgt - bkg,
        "signal_noise": signal_noise, "dark_current_noise": np.sqrt(sensor.n_tdi * sensor.dark_current * t_int),
        "quantization_noise": qn, "self_emission_noise": np.sqrt(self_rate * t_int * sensor.n_tdi),
        "total_noise": total, "snr": (tgt - bkg) / total,
    }


def in_band(atm, sensor):
    lo, hi = sensor.opt_trans_wavelengths[0], sensor.opt_trans_wavelengths[-1]
    band = atm[atm[:, 0] >= lo, :]
    return band[band[:, 0] <= hi, :]


def spectral_response(atm, sensor, reflectance, target_temp):
    """Rate and spectral weights of a scene of that reflectance seen through the sensor."""
    band = in_band(atm, sensor)
    lam = band[:, 0]
    trans, qe, other = optics_chain(sensor, lam)
    rate, _, weights = signal_rate(lam, total_radiance(band, reflectance, target_temp), trans, sensor.D, sensor.f, sensor.w_x,
                                   sensor.w_y, qe, other, sensor.dark_current)
    return rate, weights


def sees_light(atm, sensor, target_temp=300):
    """Part of the atmosphere table lies in the band and a white target there is visible."""
    band = in_band(atm, sensor)
    return len(band) > 0 and np.max(spectral_response(atm, sensor, 1.0, target_temp)[1]) > 0


def reflectance_to_photoelectrons(atm, sensor, int_time, target_temp=300):
    lam = in_band(atm, sensor)[:, 0]
    ref = np.linspace(0.0, 1.0, 100)
    full = np.array([spectral_response(atm, sensor, r, target_temp)[0] * int_time * sensor.n_tdi for r in ref])
    peak = np.max(full)
    if peak > sensor.max_n:
        full = full * (sensor.max_n / peak)
    weights = spectral_response(atm, sensor, 1.0, target_temp)[1]
    return ref, np.minimum(full, sensor.max_n), np.vstack([lam, weights / np.max(weights)])
