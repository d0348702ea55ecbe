from pv.contract import Contract as C
from pv.decl import Arr, Const, OneOf, Real
from pv.contracts.common import DD, FL, LAM, PIX, TEMP, UNIT, atm, lams, sensor

F = "pybsm.radiance.functional."
S = "pv.specs.radiance."
RAD = lambda d="k": Arr(d, smp=(0.0, 1e7))

WL = Arr("k", sign="+", smp=(4e-7, 1.2e-5))      # any wavelength grid

C(F + "blackbody_radiance", dict(lambda0=Arr("k", sign="+", smp=(4e-7, 1.2e-5)), T=TEMP), S + "blackbody_radiance",
  result="ew", ew=("lambda0", "T"), sign="+", rtol=1e-7)
C(F + "at_focal_plane_irradiance", dict(D=DD, f=FL, L=Arr("k", smp=(0.0, 1e7))), S + "at_focal_plane_irradiance", result="ew",
  ew=("D", "f", "L"), nonneg=("L",))
C(F + "cold_shield_self_emission", dict(wavelengths=WL, cold_shield_temperature=TEMP, D=DD, f=FL),
  S + "cold_shield_self_emission", result="ew", ew=("wavelengths", "cold_shield_temperature", "D", "f"), sign="0+", rtol=1e-7)
C(F + "cold_stop_self_emission", dict(wavelengths=WL, cold_filter_temperature=TEMP, cold_filter_emissivity=UNIT,
                                      D=DD, f=FL), S + "cold_stop_self_emission", result="ew",
  ew=("wavelengths", "cold_filter_temperature", "cold_filter_emissivity", "D", "f"), sign="0+", rtol=1e-7)
C(F + "optics_self_emission", dict(wavelengths=WL, optics_temperature=TEMP, optics_emissivity=UNIT,
                                   cold_filter_transmission=UNIT, D=DD, f=FL), S + "optics_self_emission", result="ew",
  ew=("wavelengths", "optics_temperature", "optics_emissivity", "cold_filter_transmission", "D", "f"), sign="0+", rtol=1e-7)
C(F + "focal_plane_integrated_irradiance",
  dict(L=RAD(), L_s=Real("0+"), t_opt=UNIT, e_opt=UNIT, lambda0=WL, d_lambda=Real("+", smp=(1e-9, 1e-7)),
       optics_temperature=TEMP, D=DD, f=FL), S + "focal_plane_integrated_irradiance", rtol=1e-7)
C(F + "photon_detection_rate", dict(E=Arr("k", smp=(0.0, 1e7)), w_x=PIX, w_y=PIX, wavelengths=WL, qe=Arr("k", smp=(0.0, 1.0))),
  S + "photon_detection_rate", result="ew", ew=("E", "w_x", "w_y", "wavelengths", "qe"),
  nonneg=("E", "w_x", "w_y", "wavelengths", "qe"))
C(F + "resample_by_wavelength", dict(wavelengths=lams("p"), values=Arr("p"), new_wavelengths=WL),
  S + "resample_by_wavelength")
C(F + "check_well_fill", dict(total_photoelectrons=Real(smp=(-1.0, 10.0)), max_fill=Real("+", smp=(0.1, 10.0))),
  S + "check_well_fill", result="ew", ew=("total_photoelectrons", "max_fill"), sign="+")
C(F + "total_radiance", dict(atm=atm("a"), reflectance=UNIT, temperature=TEMP), S + "total_radiance", rtol=1e-7)
C(F + "giqe_radiance", dict(atm=atm("a"), is_emissive=OneOf(0, 1, False, True)), S + "giqe_radiance", rtol=1e-7)
C(F + "signal_rate", dict(wavelengths=WL, target_radiance=Arr("k", smp=(0.0, 1e7)), optical_transmission=Arr("k", smp=(0.0, 1.0)), D=DD, f=FL,
                          w_x=PIX, w_y=PIX, qe=Arr("k", smp=(0.0, 1.0)), other_irradiance=Arr("k", smp=(0.0, 1e7)),
                          dark_current=Real(smp=(0.0, 1e6))), S + "signal_rate")
LIGHT = Arr("k", sign="0+", smp=(0.0, 1e7))
C(F + "photon_detector_SNR", dict(sensor=sensor(), radiance_wavelengths=lams("k", minlen=1), target_radiance=LIGHT,
                                  background_radiance=LIGHT), S + "photon_detector_SNR", rtol=1e-7,
  cls="pybsm.radiance.snr_metrics.SNRMetrics")
C(F + "reflectance_to_photoelectrons", dict(atm=atm("a"), sensor=sensor(), int_time=Real("+", smp=(1e-5, 1.0)),
                                            target_temp=TEMP), S + "reflectance_to_photoelectrons", pre=S + "sees_light", rtol=1e-6)
