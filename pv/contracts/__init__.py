import importlib
import os


def load():
    """Register every contract."""
    for f in sorted(os.listdir(os.path.dirname(__file__))):
        if f.endswith(".py") and f not in ("__init__.py", "common.py"):
            importlib.import_module("pv.contracts." + f[:-3])
