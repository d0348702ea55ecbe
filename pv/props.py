"""Which contracts and lemmas decide which property.  The contracts of every
callee used on the way are verified by the same check."""

O = "pybsm.otf.functional."
G = "pybsm.geospatial."
R = "pybsm.radiance.functional."
N = "pybsm.noise."
M = "pybsm.metrics.functional."
U = "pybsm.utils."
S = "pybsm.simulation."
C = "pv.clients."


def fs(p, *names):
    return [p + n for n in names]


FFT = "the discrete Fourier transform, scattered-data interpolation and image resampling kernels are uninterpreted"
PART = ["niirs and niirs5 are verified for the inputs for which every step of the specified evaluation is inside the domain of "
        "its parts (the target is in view, the edge response positive, no division by zero in the specified value)"]
PROPS = {
    "P01": dict(contracts=fs(G, "nadir_angle", "curved_earth_slant_range", "ground_sample_distance"),
                lemmas=["law_of_cosines", "overhead_slant_range", "slant_range_symmetric"]),
    "P02": dict(contracts=fs(G, "altitude_along_slant_path"), lemmas=["slant_path_endpoints"]),
    "P03": dict(contracts=fs(O, "circular_aperture_OTF")),
    "P04": dict(contracts=fs(O, "circular_aperture_OTF_with_defocus"), assumptions=["Bessel functions are uninterpreted"]),
    "P05": dict(contracts=fs(O, "jitter_OTF", "drift_OTF", "detector_OTF", "gaussian_OTF", "defocus_OTF",
                             "object_domain_defocus_radii", "image_domain_defocus_radii")),
    "P06": dict(contracts=fs(O, "wavefront_OTF", "wavefront_OTF_2", "diffusion_OTF", "cte_OTF")),
    "P07": dict(contracts=fs(O, "tdi_OTF", "detector_OTF_with_aggregation")),
    "P08": dict(contracts=fs(O, "turbulence_OTF", "wind_speed_turbulence_OTF")),
    "P09": dict(contracts=fs(O, "hufnagel_valley_turbulence_profile", "coherence_diameter", "polychromatic_turbulence_OTF")),
    "P10": dict(contracts=fs(O, "weighted_by_wavelength")),
    "P11": dict(contracts=fs(O, "common_OTFs")),
    "P12": dict(contracts=fs(O, "filter_OTF") + fs(C, "filter_response_at_dc"), assumptions=[FFT]),
    "P13": dict(contracts=fs(O, "slice_otf"), assumptions=["scipy's interp2d is uninterpreted"]),
    "P14": dict(contracts=fs(O, "otf_to_psf"), assumptions=[FFT]),
    "P15": dict(contracts=fs(O, "apply_otf_to_image", "resample_2D"), assumptions=[FFT]),
    "P16": dict(contracts=fs(R, "blackbody_radiance", "at_focal_plane_irradiance", "cold_shield_self_emission",
                             "optics_self_emission", "cold_stop_self_emission", "focal_plane_integrated_irradiance")),
    "P17": dict(contracts=fs(R, "total_radiance", "giqe_radiance")),
    "P18": dict(contracts=fs(R, "photon_detection_rate", "signal_rate", "resample_by_wavelength")),
    "P19": dict(contracts=fs(R, "check_well_fill", "photon_detector_SNR")),
    "P20": dict(contracts=fs(R, "photon_detector_SNR")),
    "P21": dict(contracts=fs(R, "reflectance_to_photoelectrons")),
    "P22": dict(contracts=fs(N, "quantization_noise", "noise_gain") + fs(O, "dark_current_from_density")),
    "P23": dict(contracts=fs(M, "giqe3", "giqe4", "giqe5")),
    "P24": dict(contracts=fs(M, "edge_response", "relative_edge_response", "edge_height_overshoot", "giqe_edge_terms", "giqe5_RER")),
    "P25": dict(contracts=fs(M, "ground_resolved_distance")),
    "P26": dict(contracts=fs(M, "niirs", "niirs5"), atm=True, assumptions=PART),
    "P27": dict(contracts=fs(M, "niirs", "niirs5"), atm=True, assumptions=PART),
    "P28": dict(contracts=fs(U, "load_database_atmosphere_no_interp"), atm=True),
    "P29": dict(contracts=fs(U, "load_database_atmosphere"), searches=fs(C, "stored_grid"), atm=True),
    "P30": dict(contracts=fs(S, "scenario.Scenario"), histories=["Scenario"], searches=fs(C, "scenario_history"), atm=True),
    "P31": dict(contracts=fs(S, "sensor.Sensor")),
    "P32": dict(contracts=fs(S, "ref_image.RefImage", "ref_image.RefImage.estimate_capture_parameters") + fs(C, "overhead_gsd")),
    "P33": dict(contracts=fs(S, "functional.img_to_reflectance")),
    "P34": dict(contracts=fs(S, "functional.simulate_image"), atm=True,
                assumptions=[FFT] + ["simulate_image is verified for the inputs for which every step of the specified evaluation is "
                                     "inside the domain of its parts (light in the band, a point spread function with energy)"]),
    "P35": dict(contracts=fs(S, "functional.stretch_contrast_convert_8bit", "functional.wiener_filter", "functional.instantaneous_FOV")),
}
NOT_APPLICABLE = {}
