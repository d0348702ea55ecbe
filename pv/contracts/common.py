"""Input declarations shared by several contracts."""
from pv.decl import Arr, Build, Const, Int, OneOf, Real

LAM = Real("+", smp=(4e-7, 1.2e-5))
LAMS = Arr("k", sign="+", incr=True, minlen=2, smp=(4e-7, 1.2e-5))
DD = Real("+", smp=(0.02, 0.5))
FL = Real("+", smp=(0.1, 5.0))
PIX = Real("+", smp=(2e-6, 4e-5))
TEMP = Real("+", smp=(60.0, 350.0))
UNIT = Real("0+", hi=1)
RADI = Real("0+", smp=(0.0, 1e7))


def lams(dim, minlen=2, smp=(4e-7, 1.2e-5)):
    return Arr(dim, sign="+", incr=True, minlen=minlen, smp=smp)


def atm(dim="a"):
    """Atmosphere table: wavelength, transmittance, and four radiances."""
    col = lambda hi=1e7: Arr(dim, smp=(0.0, hi))
    return Build("pv.specs.build.atm", lam=Arr(dim, sign="+", smp=(3e-7, 1.4e-5)), trans=col(1.0), path=col(), extra=col(),
                 scat=col(), refl=col())


def sensor(kernel=None, **over):
    parts = dict(
        D=DD, f=FL, p_x=PIX, p_y=PIX, w_x=PIX, w_y=PIX, eta=Real("0+", hi=0.99, smp=(0.0, 0.6)),
        opt_trans_wavelengths=lams("p"), optics_transmission=Arr("p", sign="0+", hi=1),
        qe_wavelengths=lams("q"), qe=Arr("q", sign="0+", hi=1),
        int_time=Real("+", smp=(1e-5, 1.0)), dark_current=Real("0+", smp=(0.0, 1e6)), read_noise=Real("0+", smp=(0.0, 100.0)),
        max_n=Real("+", smp=(1e3, 1e7)), max_well_fill=Real("+", hi=1, smp=(0.3, 1.0)), bit_depth=Real("+", lo=1, smp=(6.0, 16.0)),
        n_tdi=Real("+", smp=(1.0, 8.0)), cold_shield_temperature=TEMP, optics_temperature=TEMP, optics_emissivity=UNIT,
        cold_filter_transmission=UNIT, cold_filter_temperature=TEMP, cold_filter_emissivity=UNIT,
        s_x=Real("0+", smp=(0.0, 1e-4)), s_y=Real("0+", smp=(0.0, 1e-4)), da_x=Real("0+", smp=(0.0, 1e-3)),
        da_y=Real("0+", smp=(0.0, 1e-3)), pv=Real("0+", smp=(0.0, 0.3)), pv_wavelength=LAM, L_x=DD, L_y=DD,
        other_noise=Arr("o", sign="0+", smp=(0.0, 50.0)),
        filter_kernel=kernel or Const(None), frame_stacks=Int(1, smp=(1, 5)))
    parts.update(over)
    return Build("pv.specs.build.sensor", **parts)


def scenario(**over):
    parts = dict(ihaze=Int(1, 2), altitude=Real("+", smp=[2.0, 225.0, 1000.0, 9000.0, 20000.0]),
                 ground_range=Real("0+", smp=[0.0, 500.0, 5000.0, 60000.0]), aircraft_speed=Real("0+", smp=(0.0, 200.0)),
                 target_reflectance=UNIT, target_temperature=TEMP, background_reflectance=UNIT, background_temperature=TEMP,
                 ha_wind_speed=Real("0+", smp=(0.0, 50.0)), cn2_at_1m=Real("0+", smp=[0.0, 1.7e-14, 1e-13]),
                 interp=Const(False))
    parts.update(over)
    return Build("pv.specs.build.scenario", **parts)
