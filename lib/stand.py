"""Stand-ins for solvers, installed wherever the code may look them up."""
import contextlib
import importlib
import sys


@contextlib.contextmanager
def replaced(names, fn, extra=()):
    """replace the callables `names` in every loaded direpack module, in scipy.optimize and in `extra` modules"""
    mods = [m for k, m in list(sys.modules.items()) if m is not None and (k == "direpack" or k.startswith("direpack."))]
    mods += [importlib.import_module("scipy.optimize")] + list(extra)
    old = []
    try:
        for m in mods:
            for n in names:
                if n in vars(m) and callable(vars(m)[n]):
                    old.append((m, n, vars(m)[n]))
                    setattr(m, n, fn)
        yield
    finally:
        for m, n, f in old:
            setattr(m, n, f)
