from pv.contract import Contract as C
from pv.decl import Arr, Real

F = "pybsm.noise."
S = "pv.specs.noise."
C(F + "quantization_noise", dict(pe_range=Real("0+", smp=(0, 1e6)), bit_depth=Real("+", smp=[1.0, 8.0, 12.0, 14.0, 0.5, 16.0])),
  S + "quantization_noise")
C(F + "noise_gain", dict(kernel=Arr("a", "b", smp=[0.25, 0.5, 0.0, 1.0, 0.125, -0.25])), S + "noise_gain", n=300)
