"""Makers of composite inputs (run both by the verifier and by the replay):
the object is built by the real constructor and every public attribute is then
set to an arbitrary value of its declared type."""
import numpy as np

from pybsm.simulation.ref_image import RefImage
from pybsm.simulation.scenario import Scenario
from pybsm.simulation.sensor import Sensor


def atm(lam, trans, path, extra, scat, refl):
    return np.stack([lam, trans, path, extra, scat, refl], axis=1)


def sensor(D, f, p_x, p_y, w_x, w_y, eta, opt_trans_wavelengths, optics_transmission, qe_wavelengths, qe, int_time,
           dark_current, read_noise, max_n, max_well_fill, bit_depth, n_tdi, cold_shield_temperature, optics_temperature,
           optics_emissivity, cold_filter_transmission, cold_filter_temperature, cold_filter_emissivity, s_x, s_y, da_x,
           da_y, pv, pv_wavelength, L_x, L_y, other_noise, filter_kernel, frame_stacks):
    s = Sensor("sensor", D, f, p_x, opt_trans_wavelengths, eta, p_y, w_x, w_y)
    s.optics_transmission = optics_transmission
    s.qe_wavelengths = qe_wavelengths
    s.qe = qe
    s.int_time = int_time
    s.dark_current = dark_current
    s.read_noise = read_noise
    s.max_n = max_n
    s.max_well_fill = max_well_fill
    s.bit_depth = bit_depth
    s.n_tdi = n_tdi
    s.cold_shield_temperature = cold_shield_temperature
    s.optics_temperature = optics_temperature
    s.optics_emissivity = optics_emissivity
    s.cold_filter_transmission = cold_filter_transmission
    s.cold_filter_temperature = cold_filter_temperature
    s.cold_filter_emissivity = cold_filter_emissivity
    s.s_x = s_x
    s.s_y = s_y
    s.da_x = da_x
    s.da_y = da_y
    s.pv = pv
    s.pv_wavelength = pv_wavelength
    s.L_x = L_x
    s.L_y = L_y
    s.other_noise = other_noise
    if filter_kernel is not None:
        s.filter_kernel = filter_kernel
    s.frame_stacks = frame_stacks
    return s


def scenario(ihaze, altitude, ground_range, aircraft_speed, target_reflectance, target_temperature,
             background_reflectance, background_temperature, ha_wind_speed, cn2_at_1m, interp):
    s = Scenario("scenario", ihaze, altitude, ground_range, interp=interp)
    s.aircraft_speed = aircraft_speed
    s.target_reflectance = target_reflectance
    s.target_temperature = target_temperature
    s.background_reflectance = background_reflectance
    s.background_temperature = background_temperature
    s.ha_wind_speed = ha_wind_speed
    s.cn2_at_1m = cn2_at_1m
    return s


def ref_image(img, gsd, pix_values, refl_values):
    return RefImage(img, gsd, pix_values, refl_values)
