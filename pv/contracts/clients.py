from pv.contract import Contract as C
from pv.decl import Arr, Build, Decl, Int, OneOf, Real
from pv.contracts.utils import alt, alt2, rng, rng2

F = "pv.clients."
S = "pv.specs.clients."
C(F + "filter_response_at_dc", {}, S + "unit_response", n=1, rtol=1e-6)
REF = Build("pv.specs.build.ref_image", img=Arr("h", "w", smp=(0.0, 255.0)), gsd=Real("+", smp=(0.01, 5.0)),
            pix_values=Arr(2, smp=(0.0, 255.0)), refl_values=Arr(2, smp=(0.0, 1.0)))
C(F + "overhead_gsd", dict(ref=REF, altitude=Real("+", smp=(100.0, 3e6))), S + "same_gsd")


class Steps(Decl):
    """Changes and reads of a scenario (drawn for the concrete run only)."""

    def sample(self, S, name):
        r = S.rng
        a, g = (alt, rng) if r.random() < 0.5 else (alt2, rng2)
        out = []
        last = {}

        def change(what, v):
            out.append([what, v])
            last.setdefault(what, []).append(v)
            if r.random() < 0.5:
                out.append(["read", None])
        for _ in range(r.randint(2, 6)):
            q = r.random()
            if q < 0.15:
                out.append(["read", None])
            elif q < 0.3:
                change("ihaze", r.choice([1, 2]))
            elif q < 0.5:
                change("altitude", a(r))
            elif q < 0.7:
                change("ground_range", g(r))
            elif q < 0.85 and last:
                # near or equal to a value it had before
                what = r.choice(sorted(last))
                v = r.choice(last[what])
                if what != "ihaze" and r.random() < 0.7:
                    d = r.choice([0.01, 0.1, 0.7, 5.0, 40.0])
                    v = v - d if v - d >= 2.0 and r.random() < 0.7 else v + d
                change(what, v)
            else:
                out.append([r.choice(["target_reflectance", "ha_wind_speed", "cn2_at_1m", "aircraft_speed", "name"]), r.uniform(0, 1)])
            if r.random() < 0.1 and len(out) > 1:
                out.append(list(r.choice(out)))
        return out + [["read", None]]


C(F + "scenario_history", dict(ihaze=Int(1, 2), altitude=Real(smp=alt), ground_range=Real(smp=rng), interp=OneOf(False, True),
                               steps=Steps()), S + "reported", rtol=1e-6, n=60, concrete=True)
C(F + "stored_grid", dict(), "pv.specs.utils.stored_grid", rtol=1e-12, n=1, concrete=True)
