from pv.contract import Contract as C
from pv.decl import Arr, Build, Const, Int, OneOf, Real
from pv.contracts.common import scenario, sensor

F = "pybsm.metrics.functional."
S = "pv.specs.metrics."
RER = Real("+", smp=(0.05, 1.3))
GSD = Real("+", smp=(0.01, 20.0))
EHO = Real(smp=(0.5, 2.0))
NG = Real(smp=(0.3, 5.0))
SNR = Real("+", smp=(0.5, 500.0))
ELEV = Real(smp=(0.05, 1.57))
MTF = Arr("n", minlen=1, smp=(0.01, 1.0))
DF = Real("+", smp=(100.0, 5000.0))
IFOV = Real("+", smp=(1e-6, 1e-4))

C(F + "giqe3", dict(rer=RER, gsd=GSD, eho=EHO, ng=NG, snr=SNR), S + "giqe3")
C(F + "giqe4", dict(rer=RER, gsd=GSD, eho=EHO, ng=NG, snr=SNR, elev_angle=ELEV), S + "giqe4", pre=S + "above_horizon")
C(F + "giqe5", dict(rer_1=RER, rer_2=RER, gsd=GSD, snr=SNR, elev_angle=ELEV), S + "giqe5", pre=S + "above_horizon")
C(F + "edge_response", dict(pixel_pos=Real(smp=(-3.0, 3.0)), mtf_slice=MTF, df=DF, ifov=IFOV), S + "edge_response")
C(F + "relative_edge_response", dict(mtf_slice=MTF, df=DF, ifov=IFOV), S + "relative_edge_response", result="opaque")
C(F + "edge_height_overshoot", dict(mtf_slice=MTF, df=DF, ifov=IFOV), S + "edge_height_overshoot", result="opaque")
C(F + "giqe5_RER", dict(mtf=Arr("n", "n", minlen=2, smp=(0.01, 1.0)), df=DF, ifov_x=IFOV, ifov_y=IFOV), S + "giqe5_RER", runs=S + "even")
C(F + "giqe_edge_terms", dict(mtf=Arr("n", "n", minlen=2, smp=(0.01, 1.0)), df=DF, ifov_x=IFOV, ifov_y=IFOV), S + "giqe_edge_terms", runs=S + "even")
C(F + "ground_resolved_distance", dict(mtf_slice=Arr("n", minlen=2, sign="0+", smp=(0.0, 1.0)), df=DF, snr=SNR, ifov=IFOV,
                                       slant_range=Real("+", smp=(100.0, 1e5))), S + "ground_resolved_distance", pre=S + "falling")

SCENE = ("scenario.target_reflectance", "scenario.background_reflectance", "scenario.target_temperature",
         "scenario.background_temperature")
OUTS = SCENE + ("scenario.altitude", "scenario.ground_range", "scenario.ihaze")
K2 = OneOf(Const(None), Arr("a", "b", smp=(-0.5, 1.0)))
for f, pre in (("niirs", "visible"), ("niirs5", "visible5")):
    C(F + f, dict(sensor=sensor(kernel=K2), scenario=scenario(), interp=OneOf(False, True)), S + f, pre=S + pre,
      mutates=SCENE, outs=OUTS, rtol=1e-6, n=8, partial=True, samples="pv.concrete.overhead_scene", 
      cls=("pybsm.metrics.metrics.Metrics", {"otf": "pybsm.otf.otf.OTF", "snr": "pybsm.radiance.snr_metrics.SNRMetrics"}))
