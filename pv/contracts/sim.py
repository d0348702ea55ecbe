from pv.contract import Contract as C
from pv.history import History
from pv.decl import Arr, Build, Const, Int, OneOf, Real
from pv.contracts.common import DD, FL, LAM, PIX, TEMP, UNIT, lams, scenario, sensor

F = "pybsm.simulation.functional."
S = "pv.specs.sim."
SCENE = ("scenario.target_reflectance", "scenario.background_reflectance", "scenario.target_temperature",
         "scenario.background_temperature")
OUTS = SCENE + ("scenario.altitude", "scenario.ground_range", "scenario.ihaze")
K2 = OneOf(Const(None), Arr("a", "b", smp=(-0.5, 1.0)))
R = Real(smp=(-2.0, 100.0))
GREY = Arr("h", "w", smp=(0.0, 255.0))
IMG = OneOf(GREY, Arr("h", "w", kind="i", elem=Int(0, 255), dtype="uint8"))

C("pybsm.simulation.sensor.Sensor",
  dict(name=Const("camera"), D=DD, f=FL, p_x=PIX, opt_trans_wavelengths=lams("k"), eta=UNIT, p_y=OneOf(None, PIX),
       w_x=OneOf(None, PIX), w_y=OneOf(None, PIX), int_time=R, dark_current=R, other_irradiance=R, read_noise=R, max_n=R,
       max_well_fill=R, bit_depth=R, n_tdi=R, cold_shield_temperature=R, optics_temperature=R, optics_emissivity=R,
       cold_filter_transmission=R, cold_filter_temperature=R, cold_filter_emissivity=R, s_x=R, s_y=R, da_x=R, da_y=R, pv=R,
       pv_wavelength=R), S + "new_sensor")
C("pybsm.simulation.ref_image.RefImage",
  dict(img=IMG, gsd=Real("+", smp=(0.01, 5.0)), pix_values=OneOf(None, Arr("k", minlen=2)),
       refl_values=OneOf(None, Arr("k", minlen=2)), name=Const("picture")), S + "new_ref_image")
REF = Build("pv.specs.build.ref_image", img=GREY, gsd=Real("+", smp=(0.01, 5.0)), pix_values=Arr(2, smp=(0.0, 255.0)),
            refl_values=Arr(2, smp=(0.0, 1.0)))
C("pybsm.simulation.ref_image.RefImage.estimate_capture_parameters",
  dict(self=REF, altitude=Real("+", smp=(100.0, 3e6))), S + "estimate_capture_parameters")
C(F + "img_to_reflectance", dict(img=IMG, pix_values=Arr(2, smp=(0.0, 255.0)), refl_values=Arr(2, smp=(0.0, 1.0))),
  S + "img_to_reflectance", pre=S + "differ")
C(F + "instantaneous_FOV", dict(w=PIX, f=FL), S + "instantaneous_FOV")
C(F + "wiener_filter", dict(otf=Arr("a", "b", smp=(-0.2, 1.0)), noise_to_signal_power_spectrum=Real("+", smp=(1e-4, 1.0))),
  S + "wiener_filter")
C(F + "stretch_contrast_convert_8bit",
  dict(img=IMG, perc=OneOf(None, Arr(2, lo=0, hi=100, aslist=True))), S + "stretch_contrast_convert_8bit", pre=S + "has_contrast")
C(F + "simulate_image", dict(ref_img=REF, sensor=sensor(kernel=K2), scenario=scenario(interp=OneOf(False, True))), S + "simulate_image",
  pre=S + "renders", outs=OUTS, rtol=1e-6, n=3, partial=True, modular=True, samples="pv.concrete.imaging")
ANY = Real(smp=(-2.0, 100.0))
C("pybsm.simulation.scenario.Scenario",
  dict(name=Const("a place"), ihaze=Int(1, 2), altitude=ANY, ground_range=ANY, aircraft_speed=ANY, target_reflectance=ANY,
       target_temperature=ANY, background_reflectance=ANY, background_temperature=ANY, ha_wind_speed=ANY, cn2_at_1m=ANY,
       interp=OneOf(False, True)), S + "new_scenario")
History("Scenario", "pybsm.simulation.scenario.Scenario",
        dict(name=Const("a place"), ihaze=Int(), altitude=Real(), ground_range=Real(), aircraft_speed=Real(),
             target_reflectance=Real(), target_temperature=Real(), background_reflectance=Real(), background_temperature=Real(),
             ha_wind_speed=Real(), cn2_at_1m=Real(), interp=OneOf(False, True)),
        dict(ihaze=Int(), altitude=Real(), ground_range=Real(), aircraft_speed=Real(), target_reflectance=Real(),
             target_temperature=Real(), background_reflectance=Real(), background_temperature=Real(), ha_wind_speed=Real(),
             cn2_at_1m=Real()),
        dict(atm=S + "atmosphere"))
