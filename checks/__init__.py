import importlib

MODULES = ("c_values", "c_signals", "c_input", "c_api", "c_meta", "c_sim")


def registry():
    out = {}
    for m in MODULES:
        mod = importlib.import_module("checks." + m)
        for pid, f in mod.CHECKS.items():
            assert pid not in out, pid
            out[pid] = f
    return out


def load(pid):
    for m in MODULES:
        mod = importlib.import_module("checks." + m)
        if pid in mod.CHECKS:
            return mod.CHECKS[pid]()
    raise SystemExit("unknown property " + pid)
