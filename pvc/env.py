import os
import sys
import warnings

REPO = os.environ.get("PVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup(instrumented):
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in (os.path.join(REPO, "src"),)]
    sys.path.insert(0, os.path.join(REPO, "src"))
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if VT not in sys.path:
        sys.path.append(VT)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    if instrumented:
        from . import instrument

        instrument.install()


def load_contracts(prop=None):
    import importlib
    import pkgutil

    import contracts

    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.startswith("c") and (prop is None or m.startswith(prop.lower())):
            importlib.import_module("contracts." + m)
