"""The atmosphere database: one record per (altitude, ground range, haze model)
and bilinear interpolation between records."""
import os

import numpy as np
from pybsm import utils

ALTITUDES = np.array([2, 32.5, 75, 150, 225, 500, 1000, 2000, 3000, 4000, 5000, 6000, 7000, 8000, 9000, 10000, 11000,
                      12000, 14000, 16000, 18000, 20000])


def ranges():
    near = np.array([0.0, 100.0, 500.0])
    return np.concatenate([near, np.arange(1000.0, 20000.01, 1000.0), np.arange(22000.0, 80000.01, 2000.0),
                           np.arange(85000.0, 300000.01, 5000.0)])


def load_database_atmosphere_no_interp(altitude, ground_range, ihaze):
    home = os.path.join(utils.dir_path, "atms")
    index = np.genfromtxt(os.path.join(home, "fileDecoder.csv"), delimiter=",", skip_header=1)
    hit = index[(index[:, 1] == altitude / 1000) & (index[:, 2] == ground_range / 1000) & (index[:, 3] == ihaze)]
    if len(hit) == 0:
        raise IndexError("not in the database")
    path = os.path.join(home, str(int(hit[0, 0])) + ".bin")
    if not os.path.isfile(path):
        raise IndexError("not in the database")
    raw = np.fromfile(path, dtype=np.float32)
    if len(raw) != 1371 * 5:
        raise ValueError("wrong size")
    out = np.zeros((1371, 6))
    out[:, 0] = np.linspace(0.3e-6, 14e-6, 1371)
    out[:, 1] = raw[0:1371]
    for j in range(1, 5):
        out[:, 1 + j] = raw[1371 * j:1371 * (j + 1)] / 1e-10
    return out


def bracket(grid, x):
    """Neighbouring grid values around x (equal when x is on the grid)."""
    return grid[grid <= x][-1], grid[grid >= x][0]


def weight(lo, hi, x):
    return (x - lo) / (hi - lo)


def at_altitude(altitude, ground_range, ihaze):
    lo, hi = bracket(ALTITUDES, altitude)
    a = load_database_atmosphere_no_interp(lo, ground_range, ihaze)
    if lo == hi:
        return a
    b = load_database_atmosphere_no_interp(hi, ground_range, ihaze)
    w = weight(lo, hi, altitude)
    return (1 - w) * a + w * b


def load_database_atmosphere(altitude, ground_range, ihaze):
    if altitude < 2 or altitude > 20000 or ground_range < 0 or ground_range > 300000:
        raise IndexError("outside the database")
    lo, hi = bracket(ranges(), ground_range)
    a = at_altitude(altitude, lo, ihaze)
    if lo == hi:
        return a
    b = at_altitude(altitude, hi, ihaze)
    w = weight(lo, hi, ground_range)
    return (1 - w) * a + w * b


def record_shape():
    return (1371, 6)


def as_record(raw):
    """Every record, stored or interpolated, is on the database's wavelength grid."""
    return np.stack([np.linspace(0.3e-6, 14e-6, 1371), raw[:, 1], raw[:, 2], raw[:, 3], raw[:, 4], raw[:, 5]], axis=1)


def stored_grid():
    return ALTITUDES, ranges()
