"""Concrete stand-ins for 'arbitrary function' arguments in the replay."""
import numpy as np


def scalar_fn(a, b, impl=""):
    def f(*xs):
        r = a
        for i, x in enumerate(xs):
            r = r + np.sin((b + i) * np.asarray(x, dtype=float) + a) * (1.3 + i)
        return r
    return f


def array_fn(shape, a, b):
    k = np.arange(int(np.prod(shape))).reshape(shape)

    def f(*xs):
        r = a + 0.1 * k
        for i, x in enumerate(xs):
            r = r + np.sin((b + i) * float(np.sum(x)) * 1e6 + k)
        return r
    return f


def imaging(recs, rng):
    """A short spectral band and a reference image about as fine as the detector (else a run takes minutes or yields no image)."""
    s, c, r = recs["sensor"].parts, recs["scenario"].parts, recs["ref_img"].parts
    lo = rng.uniform(4e-7, 3e-6)
    n = len(s["opt_trans_wavelengths"])
    s["opt_trans_wavelengths"] = np.linspace(lo, lo + rng.uniform(1.2e-8, 3e-8), n)
    s["qe_wavelengths"] = np.linspace(lo - 1e-8, lo + 7e-8, len(s["qe_wavelengths"]))
    slant = (c["altitude"] ** 2 + c["ground_range"] ** 2) ** 0.5
    r["gsd"] = slant * s["p_x"] / s["f"] * rng.uniform(0.2, 1.2)
    h, w = rng.randint(12, 40), rng.randint(12, 40)
    r["img"] = np.array([rng.uniform(0, 255) for _ in range(h * w)]).reshape(h, w)


def moderate(ref_img, ref_gsd, ref_range, otf, df, ifov):
    """The images made on the way stay below a few thousand pixels across."""
    step = ref_gsd / ref_range
    fine = 2 * np.arctan(step / 2)
    return max(otf.shape) / (otf.shape[0] * df) / fine < 2000 and max(ref_img.shape) * step / ifov < 2000


def overhead(recs, rng):
    """One time in four the line of sight is exactly vertical, where the cosine of the nadir angle is one up to rounding."""
    if rng.random() < 0.25:
        if rng.random() < 0.5:
            recs["h_target"] = 0.0
        d = abs(recs["h_sensor"] - recs["h_target"])
        if d >= 20.0:
            recs["slant_range"] = d


def overhead_path(recs, rng):
    if rng.random() < 0.25:
        recs["slant_range"] = recs["altitude"]


def overhead_scene(recs, rng):
    """One time in three an interpolated scene seen from right above, at any altitude."""
    if rng.random() < 0.34:
        s = recs["scenario"].parts
        s["altitude"] = rng.uniform(100.0, 20000.0)
        s["ground_range"] = 0.0
        recs["interp"] = True
