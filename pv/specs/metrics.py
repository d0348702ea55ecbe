"""Image-quality metrics: GIQE 3/4/5, edge response, ground resolved distance and
the end-to-end NIIRS evaluation."""
import copy
import numpy as np

from pv.specs import geo, noise, otf, radiance
from pv.specs import utils as atmospheres

INCH = 0.0254


def giqe3(rer, gsd, eho, ng, snr):
    return 11.81 + 3.32 * np.log10(rer * INCH / gsd) - 1.48 * eho - ng / snr


def giqe4(rer, gsd, eho, ng, snr, elev_angle):
    a, b = np.where(rer >= 0.9, 3.32, 3.16), np.where(rer >= 0.9, 1.559, 2.817)
    ground = gsd / np.sqrt(np.sin(elev_angle))
    return 10.251 - a * np.log10(ground / INCH) + b * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr, ground


def giqe5(rer_1, rer_2, gsd, snr, elev_angle):
    ground = gsd * np.sin(elev_angle) ** (-0.25)
    rer = (max(rer_1, rer_2) * min(rer_1, rer_2) ** 2) ** (1 / 3)
    q = np.log10(rer)
    niirs = 9.57 - 3.32 * np.log10(ground / INCH) + 3.32 * (1 - np.exp(-1.9 / snr)) * q - 2 * q ** 4 - 1.8 / snr
    return niirs, ground, rer


def above_horizon(elev_angle):
    return 0 < elev_angle and elev_angle < np.pi


def edge_response(pixel_pos, mtf_slice, df, ifov):
    """Response to a unit step at a distance of pixel_pos pixels."""
    n = len(mtf_slice)
    w = np.array([df * k + 1e-6 for k in range(n)])
    return 0.5 + np.trapz(mtf_slice * np.sin(2 * np.pi * ifov * pixel_pos * w) / w, w) / np.pi


def relative_edge_response(mtf_slice, df, ifov):
    return edge_response(0.5, mtf_slice, df, ifov) - edge_response(-0.5, mtf_slice, df, ifov)


def edge_height_overshoot(mtf_slice, df, ifov):
    """Peak of the edge response 1 to 3 pixels beyond the edge; 1.25 pixels when it only rises."""
    e = np.array([edge_response(1 + 0.25 * k, mtf_slice, df, ifov) for k in range(9)])
    rising = all(e[k] < e[k + 1] for k in range(8))
    return e[1] if rising else np.max(e)


def giqe5_RER(mtf, df, ifov_x, ifov_y):
    return (relative_edge_response(otf.slice_otf(mtf, 0), df, ifov_x),
            relative_edge_response(otf.slice_otf(mtf, np.pi / 2), df, ifov_y))


def giqe_edge_terms(mtf, df, ifov_x, ifov_y):
    x, y = otf.slice_otf(mtf, 0), otf.slice_otf(mtf, np.pi / 2)
    rer = np.sqrt(relative_edge_response(x, df, ifov_x) * relative_edge_response(y, df, ifov_y))
    eho = np.sqrt(edge_height_overshoot(x, df, ifov_x) * edge_height_overshoot(y, df, ifov_y))
    return rer, eho


def ground_resolved_distance(mtf_slice, df, snr, ifov, slant_range):
    """Finest period that is both above the contrast threshold 3/snr and sampled."""
    n = len(mtf_slice)
    falling = np.array([mtf_slice[n - 1 - k] for k in range(n)])
    freq = np.array([df * (n - 1 - k) for k in range(n)])
    u = np.interp(3 / snr, falling, freq) + 1e-12
    return slant_range * max(1 / u, 2 * ifov)


def falling(mtf_slice):
    return all(mtf_slice[k] > mtf_slice[k + 1] for k in range(len(mtf_slice) - 1))


# ---- NIIRS ------------------------------------------------------------------
def scene_in_band(sensor, scenario, interp):
    if interp:
        atm = atmospheres.load_database_atmosphere(scenario.altitude, scenario.ground_range, scenario.ihaze)
    else:
        atm = atmospheres.load_database_atmosphere_no_interp(scenario.altitude, scenario.ground_range, scenario.ihaze)
    return radiance.in_band(atm, sensor)


def emissive(sensor):
    return sensor.opt_trans_wavelengths[0] >= 2.9e-6


def record_scene(sensor, scenario):
    """The standard scene is noted in the scenario."""
    if emissive(sensor):
        scenario.target_reflectance = 0.0
        scenario.background_reflectance = 0.0
        scenario.target_temperature = 282.0
        scenario.background_temperature = 280.0
    else:
        scenario.target_reflectance = 0.15
        scenario.background_reflectance = 0.07


def evaluate(sensor, scenario, interp, kernel):
    """Everything GIQE 3/4 and GIQE 5 share; kernel: the sharpening filter seen by the OTF."""
    slant = geo.curved_earth_slant_range(0.0, scenario.altitude, scenario.ground_range)
    atm = scene_in_band(sensor, scenario, interp)
    target, background = radiance.giqe_radiance(atm, emissive(sensor))
    lam = atm[:, 0]
    snr = radiance.photon_detector_SNR(sensor, lam, target, background)
    dwell = snr["int_time"] * sensor.n_tdi
    electrons = lambda irradiance: np.trapz(radiance.photon_detection_rate(
        irradiance - snr["other_irradiance"], sensor.w_x, sensor.w_y, lam, snr["qe"]), lam) * dwell
    path_rate, _, _ = radiance.signal_rate(lam, atm[:, 2] + atm[:, 4], snr["opt_trans"], sensor.D, sensor.f, sensor.w_x,
                                           sensor.w_y, snr["qe"], np.zeros(1), 0.0)
    path = np.sqrt(path_rate * dwell)
    scene_and_path = max(np.sqrt(electrons(snr["tgt_FPA_irradiance"])), np.sqrt(electrons(snr["bkg_FPA_irradiance"])))
    snr["path_noise"] = path
    snr["scene_noise"] = np.sqrt(scene_and_path ** 2 - path ** 2)
    seen = snr["weights"] > 0
    mtf_lam, mtf_w = lam[seen], snr["weights"][seen]
    cutoff = sensor.D / np.min(mtf_lam)
    uu, vv = np.meshgrid(cutoff * np.linspace(-1, 1, 101), cutoff * np.linspace(1, -1, 101))
    filtered = copy.copy(sensor)
    filtered.filter_kernel = kernel
    o = otf.common_OTFs(filtered, scenario, uu, vv, mtf_lam, mtf_w, slant, snr["int_time"])
    return {
        "sensor": sensor, "scenario": scenario, "slant_range": slant, "atm": atm, "tgt_radiance": target,
        "bkg_radiance": background, "radiance_wavelengths": lam, "snr": snr, "mtf_wavelengths": mtf_lam,
        "mtf_weights": mtf_w, "cutoff_frequency": cutoff, "uu": uu, "vv": vv, "df": 2 * cutoff / 100, "otf": o,
        "ifov_x": sensor.p_x / sensor.f, "ifov_y": sensor.p_y / sensor.f, "gsd_x": sensor.p_x / sensor.f * slant,
        "elev_angle": np.pi / 2 - geo.nadir_angle(0.0, scenario.altitude, slant)}


def niirs(sensor, scenario, interp=False):
    m = edges(sensor, scenario, interp)
    m["ng"] = noise.noise_gain(sensor.filter_kernel)
    snr = np.sqrt(sensor.frame_stacks) * m["snr"]["snr"]
    m["niirs"] = giqe3(m["rer_gm"], m["gsd_gm"], m["eho_gm"], m["ng"], snr)
    m["niirs_4"], m["gsd_gp"] = giqe4(m["rer_gm"], m["gsd_gm"], m["eho_gm"], m["ng"], snr, m["elev_angle"])
    record_scene(sensor, scenario)
    return m


def edges(sensor, scenario, interp):
    m = evaluate(sensor, scenario, interp, sensor.filter_kernel)
    m["gsd_y"] = m["ifov_y"] * m["slant_range"]
    m["gsd_gm"] = np.sqrt(m["gsd_x"] * m["gsd_y"])
    m["rer_gm"], m["eho_gm"] = giqe_edge_terms(np.abs(m["otf"]["system_OTF"]), m["df"], m["ifov_x"], m["ifov_y"])
    return m


def edges5(sensor, scenario, interp):
    m = evaluate(sensor, scenario, interp, np.array([1]))
    m["rer_0"], m["rer_90"] = giqe5_RER(np.abs(m["otf"]["system_OTF"]), m["df"], m["ifov_x"], m["ifov_y"])
    return m


def niirs5(sensor, scenario, interp=False):
    m = edges5(sensor, scenario, interp)
    m["niirs"], m["gsd_w"], m["rer"] = giqe5(m["rer_0"], m["rer_90"], m["gsd_x"],
                                             np.sqrt(sensor.frame_stacks) * m["snr"]["snr"], m["elev_angle"])
    record_scene(sensor, scenario)
    return m


def in_view(sensor, scenario, interp):
    """Some wavelength of the atmosphere record is in the band and the target is seen there."""
    atm = scene_in_band(sensor, scenario, interp)
    if len(atm) < 2:
        return False
    target, background = radiance.giqe_radiance(atm, emissive(sensor))
    snr = radiance.photon_detector_SNR(sensor, atm[:, 0], target, background)
    return np.max(snr["weights"]) > 0


def visible(sensor, scenario, interp=False):
    """In view, with a contrast and an edge response for which the image quality equation is defined."""
    if not in_view(sensor, scenario, interp):
        return False
    m = edges(sensor, scenario, interp)
    return m["snr"]["snr"] > 0 and m["rer_gm"] > 0 and above_horizon(m["elev_angle"])


def visible5(sensor, scenario, interp=False):
    if not in_view(sensor, scenario, interp):
        return False
    m = edges5(sensor, scenario, interp)
    return m["snr"]["snr"] > 0 and m["rer_0"] > 0 and m["rer_90"] > 0 and above_horizon(m["elev_angle"])


def even(mtf):
    return mtf.shape[0] % 2 == 0
