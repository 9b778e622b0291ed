"""Plain import of the code under test (no solver, no symbolic stand-ins)."""
import sys


class FakeComm(object):
    rank, size = 0, 1
    gathered = None
    sent = None
    waiting = None

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, data, root=0):
        return data if self.sent is None else self.sent(root)

    def barrier(self):
        if self.waiting:
            self.waiting()

    Barrier = barrier

    def allgather(self, x):
        return self.gathered(x) if self.gathered else [x]


COMM = FakeComm()

MODULES = ["scaks.models.micro_kinetic_model", "scaks.models.kmc_model",
           "scaks.models.kinetic_model", "scaks.solvers.kmc_solver",
           "scaks.solvers.steady_state_solver", "scaks.parsers.kmc_parser",
           "scaks.parsers.absolute_energy_parser",
           "scaks.plotters.energy_profile_plotter",
           "scaks.utilities.coordinate_utilities", "scaks.utilities.format_utilities",
           "scaks.utilities.check_utilities", "scaks.plugins.analysis",
           "scaks.solvers.kmc_plugins.coverages_analysis",
           "scaks.solvers.kmc_plugins.event_analysis",
           "scaks.solvers.kmc_plugins.frequency_analysis",
           "scaks.solvers.kmc_plugins.tof_analysis",
           "scaks.correctors.thermodynamic_corrector", "scaks.functions",
           "scaks.mpicommons", "scaks.models", "scaks.solvers"]


def install_environment():
    """Stand-ins needed in any case: KMCLib is absent, MPI must not start."""
    import types
    from . import fakekmc
    sys.modules["KMCLib"] = fakekmc.module()
    pkg = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = COMM
    pkg.MPI = MPI
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, MPI


def import_all():
    import importlib
    import contextlib
    import io
    missing = []
    with contextlib.redirect_stdout(io.StringIO()):
        for n in MODULES:
            try:
                importlib.import_module(n)
            except ImportError as e:
                missing.append((n, str(e)))
    return missing


def import_plain(repo):
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    install_environment()
    return import_all()
