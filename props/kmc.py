"""Kinetic Monte Carlo models of the scenarios."""
from . import lib

RXNS = ['CO_g + *_t -> CO_t', 'O2_g + 2*_b -> 2O_b', 'CO_b + O_b <-> CO-O_2b -> CO2_g + 2*_b']
TYPES = ["O", "V", "O_s", "C"]


def setup(rxns, p, **extra):
    m = lib.Mech("kmc", rxns)
    d = dict(rxn_expressions=list(rxns),
             species_definitions=lib.definitions(m, p),
             temperature=500.0, parser="KMCParser", solver="KMCSolver",
             corrector="ThermodynamicCorrector",
             cell_vectors=[[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]],
             basis_sites=[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]],
             unitcell_area=9.0e-20, active_ratio=0.5,
             repetitions=(2, 1, 1), periodic=(True, True, False),
             possible_element_types=list(TYPES), empty_type="V",
             possible_site_types=["P"], nstep=5, random_seed=7,
             random_generator='MT', trajectory_dump_interval=10)
    d.update(extra)
    return d


def mk_model(sd):
    from scaks.models.kmc_model import KMCModel
    return KMCModel(setup_dict=sd, logger_level=50)


def read(ctx, model, Ga, dG, processes, types=None, site_types=None):
    """Hand over the input files."""
    ctx.module("rel_energy.py", Ga=list(Ga), dG=list(dG))
    ctx.module("kmc_processes.py", processes=processes)
    if types is not None:
        ctx.module("kmc_configuration.py", types=types)
    if site_types is not None:
        ctx.module("kmc_sites.py", site_types=site_types)
    model.parser.parse_data(energy_file="rel_energy.py", processes_file="kmc_processes.py",
                            configuration_file="kmc_configuration.py" if types is not None else None,
                            sitesmap_file="kmc_sites.py" if site_types is not None else None)
    return model


def process(reaction, coords, before, after, sites, **extra):
    d = dict(reaction=reaction, coordinates_group=coords, elements_before=before,
             elements_after=after, basis_sites=sites)
    d.update(extra)
    return d


ORIGIN = [0.0, 0.0, 0.0]
RIGHT = [1.0, 0.0, 0.0]
UP = [0.0, 1.0, 0.0]

ADS = process(RXNS[0], [[ORIGIN]], ["V"], ["C"], [0])
PAIR = process(RXNS[1], [[ORIGIN, RIGHT], [ORIGIN, UP]], ["V", "V"], ["O_s", "O_s"], [0, 1])
REACT = process(RXNS[2], [[ORIGIN, RIGHT]], ["C", "O_s"], ["V", "V"], [1])
