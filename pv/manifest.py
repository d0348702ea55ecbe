"""python3-vt -m pv.manifest: write MANIFEST.json from pv/props.py."""
import json
import os

from pv.props import NOT_APPLICABLE, PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification: sidecar contracts on the functions of /repo/src/pybsm, verification conditions "
        "generated from their source by symbolic execution on every run, discharged by normalisation, Z3 and cvc5")
NOTE = ("every obligation of the functions named in the evidence is discharged for all inputs and array sizes, over exact real "
        "arithmetic and with library kernels uninterpreted (see assumptions); the contracts also run against CPython, which "
        "is where failing inputs come from")


def main():
    checks = []
    for p in sorted(PROPS):
        checks.append(dict(property=p, quick_cmd=f"python3-vt -m pv.check {p}", thorough_cmd=f"python3-vt -m pv.check {p} --tier thorough",
                           technique=TECH, level="proof", level_note=NOTE + PROPS[p].get("note", "")))
    doc = dict(version=1, setup_cmd="python3-vt -m compileall -q pv", checks=checks,
               not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
