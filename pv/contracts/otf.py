from pv.contract import Contract as C
from pv.decl import Arr, Build, Const, Fn, Int, OneOf, Real
from pv.contracts.common import scenario, sensor

F = "pybsm.otf.functional."
S = "pv.specs.otf."


def UV(hi=60000.0):
    s = [0.0, 0.0, 1.0, -1.0]

    def draw(r):
        return r.choice(s) if r.random() < 0.1 else r.uniform(-hi, hi)
    return dict(u=Arr("n", "m", smp=draw), v=Arr("n", "m", smp=draw))


LAM = Real("+", smp=(4e-7, 1.2e-5))
DD = Real("+", smp=(0.02, 0.5))
FL = Real("+", smp=(0.1, 5.0))
PIX = Real("+", smp=(2e-6, 4e-5))

C(F + "circular_aperture_OTF", dict(**UV(), lambda0=LAM, D=DD, eta=Real("0+", hi=0.99, smp=(0.0, 0.9))),
  S + "circular_aperture_OTF", result="ew", ew=("u", "v", "lambda0", "D", "eta"), atol=1e-7)
C(F + "circular_aperture_OTF_with_defocus", dict(**UV(), wavelength=LAM, D=DD, f=FL, defocus=Real(smp=[0.0, 1e-5, -2e-5, 1e-4])),
  S + "circular_aperture_OTF_with_defocus", result="ew", ew=("u", "v", "wavelength", "D", "f", "defocus"), atol=1e-7)
C(F + "cte_OTF", dict(**UV(), p_x=PIX, p_y=PIX, cte_n_x=Real("0+", smp=(0.0, 500.0)), cte_n_y=Real("0+", smp=(0.0, 500.0)),
                      phases_n=Real("0+", smp=(1.0, 4.0)), cte_eff=Real("0+", hi=1, smp=(0.99, 1.0)), f=FL), S + "cte_OTF")
C(F + "defocus_OTF", dict(**UV(), D=DD, w_x=Real(smp=(1e-6, 1e-4)), w_y=Real(smp=(1e-6, 1e-4))), S + "defocus_OTF")
C(F + "detector_OTF", dict(**UV(), w_x=PIX, w_y=PIX, f=FL), S + "detector_OTF", result="ew", ew=("u", "v", "w_x", "w_y", "f"))
C(F + "detector_OTF_with_aggregation", dict(**UV(), w_x=PIX, w_y=PIX, p_x=PIX, p_y=PIX, f=FL, n=Int(1, smp=(1, 6))),
  S + "detector_OTF_with_aggregation")
C(F + "diffusion_OTF", dict(**UV(), alpha=Real("+", smp=(1e3, 1e6)), ald=Real("+", smp=(1e-6, 1e-4)),
                            al0=Real("+", smp=(1e-6, 1e-4)), f=FL), S + "diffusion_OTF")
C(F + "drift_OTF", dict(**UV(), a_x=Real(smp=(0, 1e-4)), a_y=Real(smp=(0, 1e-4))), S + "drift_OTF", result="ew", ew=("u", "v", "a_x", "a_y"))
C(F + "gaussian_OTF", dict(**UV(), blur_size_x=Real("+", smp=(1e-6, 1e-4)), blur_size_y=Real("+", smp=(1e-6, 1e-4))),
  S + "gaussian_OTF")
C(F + "jitter_OTF", dict(**UV(), s_x=Real(smp=(0, 1e-4)), s_y=Real(smp=(0, 1e-4))), S + "jitter_OTF", result="ew", ew=("u", "v", "s_x", "s_y"))
C(F + "tdi_OTF", dict(u_or_v=Arr("n", smp=(-60000.0, 60000.0)), w=PIX, n_tdi=Int(1, smp=(1, 6)), phases_n=Int(1, smp=(1, 4)),
                      beta=Real("+", smp=(0.5, 2.0)), f=FL), S + "tdi_OTF", atol=1e-9)
C(F + "turbulence_OTF", dict(**UV(), lambda0=LAM, D=DD, r0=Real("+", smp=(0.01, 1.0)), alpha=Real("0+", hi=1)),
  S + "turbulence_OTF")
C(F + "wind_speed_turbulence_OTF", dict(**UV(), lambda0=LAM, D=DD, r0=Real("+", smp=(0.01, 1.0)), t_d=Real("0+", smp=(0, 0.1)),
                                        vel=Real("0+", smp=(0, 100.0))),
  S + "wind_speed_turbulence_OTF", result="ew", ew=("u", "v", "lambda0", "D", "r0", "t_d", "vel"))
C(F + "wavefront_OTF", dict(**UV(), lambda0=LAM, pv=Real("0+"), L_x=DD, L_y=DD), S + "wavefront_OTF", result="ew",
  ew=("u", "v", "lambda0", "pv", "L_x", "L_y"))
C(F + "wavefront_OTF_2", dict(**UV(), cutoff=Real("+", smp=(1e4, 1e6)), w_rms=Real("0+", smp=(0, 0.2))), S + "wavefront_OTF_2")
C(F + "hufnagel_valley_turbulence_profile", dict(h=Arr("n", smp=(-2000.0, 30000.0)), v=Real("0+", smp=(0, 50.0)),
                                                 cn2_at_1m=Real("0+", smp=(1e-17, 1e-12))), S + "hufnagel_valley_turbulence_profile",
  result="ew", ew=("h", "v", "cn2_at_1m"), sign="+")
C(F + "coherence_diameter", dict(lambda0=LAM, z_path=Arr("n", sign="0+", incr=True, minlen=2, smp=(0.0, 30000.0)),
                                 cn2=Arr("n", sign="+", smp=(1e-17, 1e-13))), S + "coherence_diameter", result="opaque", sign="+")
C(F + "weighted_by_wavelength",
  dict(wavelengths=Arr("k", sign="+", incr=True, smp=(4e-7, 1e-5)), weights=Arr("k", sign="+"),
       my_function=OneOf(Fn(("n", "m")), Fn(None))), S + "weighted_by_wavelength")
C(F + "object_domain_defocus_radii", dict(D=DD, R=Real("+"), R0=Real("+")), S + "object_domain_defocus_radii")
C(F + "image_domain_defocus_radii", dict(D=DD, dz=Real(), f=FL), S + "image_domain_defocus_radii")
C(F + "dark_current_from_density", dict(jd=Real("0+"), w_x=PIX, w_y=PIX), S + "dark_current_from_density")
FREQ = Real("+", smp=(500.0, 5000.0))
OTFA = Arr("a", "b", smp=(0.0, 1.0))
C(F + "otf_to_psf", dict(otf=Arr("a", "b", smp=(0.1, 1.0), size=(9, 40)), df=FREQ, dx_out=Real("+", smp=(2e-6, 2e-5))), S + "otf_to_psf", pre=S + "has_energy", result="opaque", rank=2, pre_opaque=True)
C(F + "slice_otf", dict(otf=Arr("a", "a", minlen=2), ang=Real(smp=(-6.3, 6.3))), S + "slice_otf", runs=S + "even")
C(F + "resample_2D", dict(img_in=Arr("a", "b", size=(2, 20)), dx_in=Real("+", smp=(0.5, 2.0)), dx_out=Real("+", smp=(0.2, 1.0))), S + "resample_2D")
C(F + "filter_OTF", dict(**UV(), kernel=Arr("a", "b", smp=(-0.5, 1.0)), ifov=Real("+", smp=(1e-6, 1e-3))), S + "filter_OTF")
WAVES = dict(wavelengths=Arr("k", sign="+", incr=True, smp=(4e-7, 1e-5)), weights=Arr("k", sign="+"))
C(F + "polychromatic_turbulence_OTF",
  dict(**UV(), **WAVES, altitude=Real("+", smp=(10.0, 20000.0)), slant_range=Real("+", smp=(20.0, 300000.0)), D=DD,
       ha_wind_speed=Real("0+", smp=(0.0, 50.0)), cn2_at_1m=Real("+", smp=(1e-17, 1e-12)), int_time=Real("0+", smp=(0, 0.1)),
       aircraft_speed=Real("0+", smp=(0, 100.0))), S + "polychromatic_turbulence_OTF", pre=S + "reachable",
  samples="pv.concrete.overhead_path")
C(F + "apply_otf_to_image",
  dict(ref_img=Arr("h", "w", size=(3, 40)), ref_gsd=Real("+", smp=(0.01, 0.5)), ref_range=Real("+", smp=(100.0, 10000.0)),
       otf=Arr("a", "b", smp=(0.1, 1.0), size=(11, 40)), df=FREQ, ifov=Real("+", smp=(1e-6, 1e-4))), S + "apply_otf_to_image",
  pre=S + "blurs", runs="pv.concrete.moderate")
C(F + "common_OTFs",
  dict(sensor=sensor(kernel=OneOf(Const(None), Arr("a", "b", smp=(-0.5, 1.0)))), scenario=scenario(), uu=UV()["u"], vv=UV()["v"],
       mtf_wavelengths=WAVES["wavelengths"], mtf_weights=WAVES["weights"], slant_range=Real("+", smp=(20.0, 300000.0)),
       int_time=Real("+", smp=(1e-5, 0.1))), S + "common_OTFs", pre=S + "seen_from", cls="pybsm.otf.otf.OTF")
