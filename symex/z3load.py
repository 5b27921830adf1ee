"""Load the z3 bindings of the tool venv into the interpreter that runs
CHECLabPy (the project's own venv), without touching its other packages."""
import importlib.util
import sys

Z3_DIRS = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",
]


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    for d in Z3_DIRS:
        spec = importlib.util.spec_from_file_location(
            'z3', d + '/__init__.py', submodule_search_locations=[d])
        m = importlib.util.module_from_spec(spec)
        sys.modules['z3'] = m
        spec.loader.exec_module(m)
        return m
    raise ImportError('z3')


z3 = load()
