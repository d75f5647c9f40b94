"""Load the z3 Python binding of the tooling venv into this interpreter (same Python 3.12)."""
import importlib.util
import sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
if "z3" in sys.modules:
    z3 = sys.modules["z3"]
else:
    _s = importlib.util.spec_from_file_location("z3", _P + "/__init__.py", submodule_search_locations=[_P])
    z3 = importlib.util.module_from_spec(_s)
    sys.modules["z3"] = z3
    _s.loader.exec_module(z3)
