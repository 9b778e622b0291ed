"""Recording stand-in for the KMCLib package (not installed in this sandbox).

It performs no simulation: every class stores the arguments it was given, and
``KMCLatticeModel.run`` hands itself to ``driver`` when a scenario set one."""
import types as _types


class _Rec(object):
    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw
        for k, v in kw.items():
            setattr(self, "a_" + k, v)

    def _script(self, name="x"):
        return "%s = %s\n" % (name, type(self).__name__)


class KMCUnitCell(_Rec):
    pass


class KMCLattice(_Rec):
    pass


class KMCConfiguration(_Rec):
    def types(self):
        return list(self.kw["types"])


class KMCSitesMap(_Rec):
    pass


class KMCProcess(_Rec):
    pass


class KMCInteractions(_Rec):
    pass


class KMCControlParameters(_Rec):
    pass


class KMCLatticeModel(_Rec):
    runs = []

    def run(self, *args, **kw):
        type(self).runs.append((self, args, kw))


class KMCAnalysisPlugin(object):
    def __init__(self, *a, **k):
        pass

    def setup(self, step, time, configuration, interactions):
        pass

    def registerStep(self, step, time, configuration, interactions):
        pass

    def finalize(self):
        pass


def module():
    m = _types.ModuleType("KMCLib")
    names = ["KMCUnitCell", "KMCLattice", "KMCConfiguration", "KMCSitesMap",
             "KMCProcess", "KMCInteractions", "KMCControlParameters",
             "KMCLatticeModel", "KMCAnalysisPlugin"]
    for n in names:
        setattr(m, n, globals()[n])
    m.__all__ = names
    # some builds expose submodules
    return m
