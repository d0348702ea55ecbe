"""Curved-earth imaging geometry (spherical earth, mean radius 6378.164 km)."""
import numpy as np

R_EARTH = 6378164.0


def nadir_angle(h_target, h_sensor, slant_range):
    """Angle at the sensor between the vertical and the line of sight (law of cosines)."""
    a = R_EARTH + h_sensor
    c = R_EARTH + h_target
    b = slant_range
    return np.arccos(np.clip((a ** 2 + b ** 2 - c ** 2) / (2 * a * b), -1.0, 1.0))


def curved_earth_slant_range(h_target, h_sensor, ground_range):
    a = R_EARTH + h_sensor
    c = R_EARTH + h_target
    return np.sqrt(a ** 2 + c ** 2 - 2 * a * c * np.cos(ground_range / R_EARTH))


def ground_sample_distance(ifov, slant_range):
    return ifov * slant_range


def altitude_along_slant_path(h_target, h_sensor, slant_range):
    z = np.linspace(0.0, slant_range, 10000)
    a = R_EARTH + h_sensor
    nadir = nadir_angle(h_target, h_sensor, slant_range)
    h = np.sqrt(a ** 2 + z ** 2 - 2 * a * z * np.cos(nadir)) - R_EARTH
    return z, h[::-1]


# ---- statements over the contracts ------------------------------------------
def triangle(h_target, h_sensor, slant_range):
    """A straight line of that length joins the two altitudes."""
    a = R_EARTH + h_sensor
    c = R_EARTH + h_target
    return (a - c) * (a - c) <= slant_range * slant_range and slant_range <= a + c


def lem_law_of_cosines(h_target, h_sensor, slant_range):
    a = R_EARTH + h_sensor
    c = R_EARTH + h_target
    return c ** 2 == a ** 2 + slant_range ** 2 - 2 * a * slant_range * np.cos(nadir_angle(h_target, h_sensor, slant_range))


def lem_overhead(h_target, h_sensor):
    return curved_earth_slant_range(h_target, h_sensor, 0.0) == np.abs(h_sensor - h_target)


def lem_symmetric(h_target, h_sensor, ground_range):
    return (curved_earth_slant_range(h_target, h_sensor, ground_range)
            == curved_earth_slant_range(h_sensor, h_target, ground_range))


def lem_endpoints(h_target, h_sensor, slant_range):
    z, h = altitude_along_slant_path(h_target, h_sensor, slant_range)
    n = len(h)
    return z[0] == 0, z[n - 1] == slant_range, h[0] == h_target, h[n - 1] == h_sensor
