"""Client programs of pyBSM put under contract: they run the real functions
(through their contracts), so a property that spans several calls is one
postcondition."""
import numpy as np

from pybsm.otf import functional as otf


def filter_response_at_dc():
    """Response at zero frequency of a kernel that sums to one."""
    z = np.zeros((1, 1))
    return otf.filter_OTF(z, z, np.array([[0.5, 0.5]]), 1e-4)[0, 0]


def overhead_gsd(ref, altitude):
    """Ground distance a pixel of the derived camera spans in the derived scenario."""
    sensor, scenario = ref.estimate_capture_parameters(altitude)
    slant = np.sqrt(scenario.altitude**2 + scenario.ground_range**2)
    return slant * sensor.p_x / sensor.f, slant * sensor.p_y / sensor.f


def scenario_history(ihaze, altitude, ground_range, interp, steps):
    """What a scenario reports along a sequence of changes and reads."""
    from pybsm.simulation.scenario import Scenario

    s = Scenario("a place", ihaze, altitude, ground_range, interp=interp)
    seen = []
    for what, value in steps:
        if what == "read":
            try:
                seen.append(np.array(s.atm))
            except (IndexError, ValueError) as e:
                seen.append(type(e).__name__)
        else:
            setattr(s, what, value)
    return seen, s.ihaze, s.altitude, s.ground_range


def stored_grid():
    """Altitudes and ground ranges (m) that occur in the database, up to 20 km."""
    import os

    from pybsm import utils

    index = np.genfromtxt(os.path.join(utils.dir_path, "atms", "fileDecoder.csv"), delimiter=",", skip_header=1)
    index = index[index[:, 1] <= 20.0]
    return np.unique(index[:, 1] * 1000.0), np.unique(index[:, 2] * 1000.0)
