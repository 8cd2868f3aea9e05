"""Standing in for the optimiser lumos calls."""
import contextlib
import sys


@contextlib.contextmanager
def replaced(stand_in):
    """cyipopt.Problem is the given class, under every name by which lumos may know it."""
    import cyipopt
    import lumos.optimal_control.nlp  # noqa: F401
    real = cyipopt.Problem
    places = []
    for name, module in list(sys.modules.items()):
        if module is not None and name.split(".")[0] in ("lumos", "cyipopt"):
            places += [(module, k) for k, v in list(vars(module).items()) if v is real]
    for m, k in places:
        setattr(m, k, stand_in)
    try:
        yield
    finally:
        for m, k in places:
            setattr(m, k, real)
