"""python3-vt -m pv.rerun REPLAY.json: run a recorded counterexample again on
the real code (a scratch copy of /repo's working tree)."""
import json
import os
import shutil
import subprocess
import sys

from pv import check


def main():
    path = os.path.abspath(sys.argv[1])
    doc = json.load(open(path))
    from pv.props import PROPS
    d = check.scratch_copy(PROPS.get(doc["property"], {}).get("atm", False))
    try:
        env = dict(os.environ, PYTHONPATH=d + os.pathsep + check.ROOT, MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1")
        return subprocess.run([check.PY, "-m", "pv.replay", "--src", d, "--file", path], cwd=check.ROOT, env=env).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
