"""Make the pre-installed z3 Python bindings importable inside ecalc's own interpreter.

Only the `z3` package directory is exposed (never the whole tooling venv), so the libraries that the
verified code imports (numpy, pandas, pydantic, scipy, networkx) stay the repository's own."""
import importlib.util
import os
import sys

_CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",
]


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    for d in _CANDIDATES:
        init = os.path.join(d, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location("z3", init, submodule_search_locations=[d])
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    raise ImportError("z3 not found")


z3 = load()
