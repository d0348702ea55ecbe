from pv.contract import Contract as C
from pv.decl import Int, Real

F = "pybsm.utils."
S = "pv.specs.utils."
ALT = [2, 32.5, 75, 150, 225, 500, 1000, 2000, 3000, 4000, 5000, 6000, 7000, 8000, 9000, 10000, 11000, 12000, 14000, 16000,
       18000, 20000]
RNG = ([0.0, 100.0, 500.0] + [1000.0 * i for i in range(1, 21)] + [2000.0 * i for i in range(11, 41)]
       + [5000.0 * i for i in range(17, 61)])


def alt(r):
    return float(r.choice(ALT)) if r.random() < 0.8 else r.uniform(-10.0, 25000.0)


def rng(r):
    return float(r.choice(RNG)) if r.random() < 0.8 else r.uniform(-10.0, 310000.0)


def alt2(r):
    q = r.random()
    if q < 0.3:
        return float(r.choice(ALT))
    if q < 0.35:
        return r.uniform(-5.0, 25000.0)
    i = r.randrange(len(ALT) - 1)
    return r.uniform(ALT[i], ALT[i + 1])


def rng2(r):
    q = r.random()
    if q < 0.3:
        return float(r.choice(RNG))
    if q < 0.35:
        return r.uniform(-5.0, 310000.0)
    i = r.randrange(len(RNG) - 1)
    return r.uniform(RNG[i], RNG[i + 1])


C(F + "load_database_atmosphere_no_interp", dict(altitude=Real(smp=alt), ground_range=Real(smp=rng), ihaze=Int(0, smp=[1, 1, 1, 2, 2, 3])),
  S + "load_database_atmosphere_no_interp", result="opaque", shape=S + "record_shape", wrap=S + "as_record", rtol=1e-6, n=60)
C(F + "load_database_atmosphere", dict(altitude=Real(smp=alt2), ground_range=Real(smp=rng2), ihaze=Int(0, smp=[1, 1, 2, 2, 3])),
  S + "load_database_atmosphere", result="opaque", shape=S + "record_shape", wrap=S + "as_record", rtol=1e-5, n=60)
