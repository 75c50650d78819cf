"""
Lazy access to the code under test, so that the driver can import checks
without importing PyVRP.
"""


class _Lazy:
    def __init__(self, *modules):
        self._modules = modules

    def __getattr__(self, name):
        import importlib

        if name.startswith("__"):
            raise AttributeError(name)
        for m in self._modules:
            mod = importlib.import_module(m)
            if hasattr(mod, name):
                val = getattr(mod, name)
                self.__dict__[name] = val
                return val
        raise AttributeError(name)


P = _Lazy("pyvrp", "pyvrp._pyvrp", "pyvrp.stop", "pyvrp.exceptions")
S = _Lazy("pyvrp.search", "pyvrp.search._search")  # public names first
X = _Lazy("pyvrp.search._search")  # the native search classes
