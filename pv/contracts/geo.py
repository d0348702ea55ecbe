from pv.contract import Contract as C, Lemma
from pv.decl import Real

F = "pybsm.geospatial."
S = "pv.specs.geo."
ALT = Real("0+", smp=(0.0, 25000.0))
RNG = Real("+", smp=(20.0, 300000.0))
TRI = S + "triangle"

C(F + "nadir_angle", dict(h_target=ALT, h_sensor=ALT, slant_range=RNG), S + "nadir_angle", pre=TRI, atol=3e-5,
  samples="pv.concrete.overhead")
C(F + "curved_earth_slant_range", dict(h_target=ALT, h_sensor=ALT, ground_range=Real("0+", smp=(0.0, 500000.0))),
  S + "curved_earth_slant_range", rtol=1e-7, atol=1e-3)
C(F + "ground_sample_distance", dict(ifov=Real("+", smp=(1e-7, 1e-3)), slant_range=RNG), S + "ground_sample_distance")
C(F + "altitude_along_slant_path", dict(h_target=ALT, h_sensor=ALT, slant_range=RNG), S + "altitude_along_slant_path",
  pre=TRI, atol=1e-4, n=40, samples="pv.concrete.overhead")

Lemma("law_of_cosines", dict(h_target=ALT, h_sensor=ALT, slant_range=RNG), S + "lem_law_of_cosines", pre=TRI)
Lemma("overhead_slant_range", dict(h_target=ALT, h_sensor=ALT), S + "lem_overhead")
Lemma("slant_range_symmetric", dict(h_target=ALT, h_sensor=ALT, ground_range=ALT), S + "lem_symmetric")
Lemma("slant_path_endpoints", dict(h_target=ALT, h_sensor=ALT, slant_range=RNG), S + "lem_endpoints", pre=TRI)
