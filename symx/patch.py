"""Stand-ins of library functions and collaborators, whatever way they are imported."""

import contextlib
import sys


@contextlib.contextmanager
def patched(*pairs, prefix=("fluidimage", "fluiddyn")):
    """pairs: (real object, stand-in); replaced in the home module of the object and in
    all the modules in which it has been imported"""
    done = []
    try:
        for real, standin in pairs:
            home = getattr(real, "__module__", None)
            for name, mod in list(sys.modules.items()):
                if mod is None:
                    continue
                if not (name.split(".")[0] in prefix or name == home
                        or (home and home.split(".")[0] == name.split(".")[0])):
                    continue
                for k, v in list(getattr(mod, "__dict__", {}).items()):
                    if v is real:
                        setattr(mod, k, standin)
                        done.append((mod, k, real))
        yield
    finally:
        for mod, k, real in reversed(done):
            setattr(mod, k, real)
