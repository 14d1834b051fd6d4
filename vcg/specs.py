"""Collects the contracts of /verif/specs."""
import importlib.util, os, glob, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def load_specs():
    out = []
    d = os.path.join(os.path.dirname(HERE), "specs")
    sys.path.insert(0, d)
    for f in sorted(glob.glob(os.path.join(d, "*.py"))):
        name = os.path.basename(f)[:-3]
        if name.startswith("_"):
            continue
        spec = importlib.util.spec_from_file_location("spec_" + name, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out.extend(getattr(m, "CONTRACTS", []))
    return out
