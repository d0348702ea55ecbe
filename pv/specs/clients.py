def unit_response():
    return 1.0


def same_gsd(ref, altitude):
    return ref.gsd, ref.gsd


def reported(ihaze, altitude, ground_range, interp, steps):
    from pv.specs import utils
    now = {"ihaze": ihaze, "altitude": altitude, "ground_range": ground_range}
    load = utils.load_database_atmosphere if interp else utils.load_database_atmosphere_no_interp
    seen = []
    for what, value in steps:
        if what == "read":
            try:
                seen.append(load(now["altitude"], now["ground_range"], now["ihaze"]))
            except (IndexError, ValueError) as e:
                seen.append(type(e).__name__)
        elif what in now:
            now[what] = value
    return seen, now["ihaze"], now["altitude"], now["ground_range"]
