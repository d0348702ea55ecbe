"""Simulation: sensor and reference-image construction, grey-level conversion,
image simulation, contrast stretch and restoration filter."""
import numpy as np

from pv.specs import noise, otf, radiance, utils
from pybsm.simulation.scenario import Scenario
from pybsm.simulation.sensor import Sensor


def new_sensor(name, D, f, p_x, opt_trans_wavelengths, eta=0.0, p_y=None, w_x=None, w_y=None, int_time=1, dark_current=0,
               other_irradiance=0.0, read_noise=0, max_n=100000000, max_well_fill=1.0, bit_depth=100.0, n_tdi=1.0,
               cold_shield_temperature=70.0, optics_temperature=270.0, optics_emissivity=0.0, cold_filter_transmission=1.0,
               cold_filter_temperature=70.0, cold_filter_emissivity=0.0, s_x=0.0, s_y=0.0, da_x=0.0, da_y=0.0, pv=0.0,
               pv_wavelength=6.33e-7):
    pitch_y = p_x if p_y is None else p_y
    width_x = p_x if w_x is None else w_x
    width_y = pitch_y * (width_x / p_x) if w_y is None else w_y      # same fill factor on both axes
    perfect = np.ones(len(opt_trans_wavelengths))
    return {
        "name": name, "D": D, "f": f, "p_x": p_x, "p_y": pitch_y, "w_x": width_x, "w_y": width_y, "eta": eta,
        "opt_trans_wavelengths": opt_trans_wavelengths, "optics_transmission": perfect,
        "qe_wavelengths": opt_trans_wavelengths, "qe": perfect, "int_time": int_time, "dark_current": dark_current,
        "other_irradiance": other_irradiance, "read_noise": read_noise, "max_n": max_n, "max_well_fill": max_well_fill,
        "bit_depth": bit_depth, "n_tdi": n_tdi, "cold_shield_temperature": cold_shield_temperature,
        "optics_temperature": optics_temperature, "optics_emissivity": optics_emissivity,
        "cold_filter_transmission": cold_filter_transmission, "cold_filter_temperature": cold_filter_temperature,
        "cold_filter_emissivity": cold_filter_emissivity, "s_x": s_x, "s_y": s_y, "da_x": da_x, "da_y": da_y, "pv": pv,
        "pv_wavelength": pv_wavelength, "L_x": D, "L_y": D, "other_noise": np.array([0]), "filter_kernel": np.array([1]),
        "frame_stacks": 1,
    }


def new_scenario(name, ihaze, altitude, ground_range, aircraft_speed=0, target_reflectance=0.15, target_temperature=295,
                 background_reflectance=0.07, background_temperature=293, ha_wind_speed=21, cn2_at_1m=1.7e-14,
                 interp=False):
    return {
        "name": name, "ihaze": ihaze, "altitude": altitude, "ground_range": ground_range, "aircraft_speed": aircraft_speed,
        "target_reflectance": target_reflectance, "target_temperature": target_temperature,
        "background_reflectance": background_reflectance, "background_temperature": background_temperature,
        "ha_wind_speed": ha_wind_speed, "cn2_at_1m": cn2_at_1m,
    }


def new_ref_image(img, gsd, pix_values=None, refl_values=None, name="ref_image"):
    if pix_values is None:
        levels = np.array([np.percentile(img, 0.2), np.percentile(img, 99.8)])
        return {"img": img, "gsd": gsd, "name": name, "pix_values": levels, "refl_values": np.array([0.05, 0.95])}
    if refl_values is None:
        raise ValueError("reflectances are needed")
    return {"img": img, "gsd": gsd, "name": name, "pix_values": pix_values, "refl_values": refl_values}


def estimate_capture_parameters(self, altitude=2000000):
    p = 20e-6
    band = np.array([380e-9, 700e-9])
    focal = altitude * p / self.gsd
    field = 2 * np.arctan(p / (2 * focal))
    camera = Sensor(self.name, 4 * 540e-9 / field, focal, p, band)
    scene = Scenario(self.name, 1, altitude, 0, 0, ha_wind_speed=0, cn2_at_1m=0)
    return camera, scene


def img_to_reflectance(img, pix_values, refl_values):
    if len(pix_values) == 2:
        slope = (refl_values[1] - refl_values[0]) / (pix_values[1] - pix_values[0])
        return np.clip(refl_values[0] + slope * (img - pix_values[0]), 0, 1)
    from scipy import interpolate
    return np.clip(interpolate.interp1d(pix_values, refl_values, fill_value="extrapolate")(img), 0, 1)


def distinct(pix_values):
    return np.all(np.diff(np.sort(pix_values)) > 0)


def differ(pix_values):
    return pix_values[0] < pix_values[1] or pix_values[0] > pix_values[1]


def instantaneous_FOV(w, f):
    return w / f


def wiener_filter(otf, noise_to_signal_power_spectrum):
    return np.conj(otf) / (np.abs(otf) ** 2 + noise_to_signal_power_spectrum)


def stretch_contrast_convert_8bit(img, perc=None):
    lower, upper = (0.1, 99.9) if perc is None else (perc[0], perc[1])
    shifted = 1.0 * img - np.percentile(1.0 * img, lower)
    full = np.percentile(shifted, upper)
    return np.round(np.clip(255 * shifted / full, 0, 255)).astype(np.uint8)


def has_contrast(img, perc=None):
    lower, upper = (0.1, 99.9) if perc is None else (perc[0], perc[1])
    shifted = 1.0 * img - np.percentile(1.0 * img, lower)
    return np.percentile(shifted, upper) > 0


def simulate_image(ref_img, sensor, scenario):
    ref, pe, sw = radiance.reflectance_to_photoelectrons(scenario.atm, sensor, sensor.int_time)
    lam, weights = sw[0][sw[1] > 0], sw[1][sw[1] > 0]
    slant = np.sqrt(scenario.altitude ** 2 + scenario.ground_range ** 2)
    cutoff = sensor.D / np.min(lam)
    u, v = np.meshgrid(np.linspace(-1.0, 1.0, 1501) * cutoff, np.linspace(1.0, -1.0, 1501) * cutoff)
    system = otf.common_OTFs(sensor, scenario, u, v, lam, weights, slant, sensor.int_time)["system_OTF"]
    step = 2 * cutoff / 1500
    ifov = (sensor.p_x + sensor.p_y) / 2 / sensor.f
    seen = img_to_reflectance(ref_img.img, ref_img.pix_values, ref_img.refl_values)
    true_img = np.interp(seen, ref, pe)
    blurred, _ = otf.apply_otf_to_image(true_img, ref_img.gsd, slant, system, step, ifov)
    electronic = np.sqrt(noise.quantization_noise(sensor.max_n, sensor.bit_depth) ** 2 + sensor.read_noise ** 2)
    shot = np.random.poisson(blurred)
    return true_img, blurred, np.random.normal(shot, electronic)


def renders(sensor, scenario):
    return radiance.sees_light(scenario.atm, sensor)


def atmosphere(ihaze, altitude, ground_range, interp):
    if interp:
        return utils.load_database_atmosphere(altitude, ground_range, ihaze)
    return utils.load_database_atmosphere_no_interp(altitude, ground_range, ihaze)
