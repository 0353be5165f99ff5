"""Which harness builds decide which property."""
A13 = dict(harness='diag', flavor='asan', k=13, share=5)
FN = dict(harness='diag', flavor='fast', share=3)
DIAG_ASSUME = ['diagram histories run on generated tables and lattices (2..4 x 1..4 sites, up to 3 sublattices, orders 0..5, in one history out of six up to 9); MAX_K is reduced to 13 in one build so that momentum collisions are frequent, the other build keeps it']
import os
_OV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cpp', 'overlay')
def whole(rel, name):
    """replace one source file by a stand-in"""
    return (rel, r'(?s)\A.*\Z', open(os.path.join(_OV, name)).read().replace('\\', '\\\\'))
RNGSUB = [whole('utility/rng.h', 'rng.h'), whole('utility/rng.cpp', 'rng.cpp')]
CHECKS = {}
TECH = {
    'M01': 'generated update histories; structural invariants recomputed after every step',
    'M02': 'generated update histories; weights re-evaluated from independent tables after every step',
    'M04': 'generated update histories; configuration snapshot compared across every call that reported no acceptance',
    'M05': 'generated update histories; momentum records and brute-force graph connectivity recomputed after every step',
    'M20': 'generated update histories, then one random single-relation corruption; self-check verdict compared with the known truth',
}
for p in ('M01', 'M02', 'M04', 'M05', 'M20'):
    CHECKS[p] = dict(variants=[dict(A13), dict(FN)], assumptions=DIAG_ASSUME, technique=TECH[p], quick=30)

CHECKS['M03'] = dict(variants=[dict(harness='balance', flavor='fast', k=4, subs=RNGSUB)], quick=40,
    technique='generated configurations; every discrete random choice of an update and of its inverse enumerated through a scripted generator, both probability flows compared',
    assumptions=['the momentum range is reduced to MAX_K=4 so that the label choice can be enumerated; the random generator is replaced by a scripted one with the same interface (the real one is decided by M10)', 'interaction tables have the mirror symmetry of the model'])

CHECKS['M22'] = dict(variants=[dict(harness='stats', flavor='fast')], quick=55,
    technique='generated worlds; sector, topology, spin and site frequencies of long runs against an exact enumeration of all skeleton diagrams, suspicious results confirmed by a six times longer independent run',
    assumptions=['tables do not depend on time in these runs (time dependence is decided exactly by M03); orders up to 2 (3 in the thorough tier)', 'momentum labels: excluded volume of order 1e-3 neglected, deviations below 4 per cent are not reported'])

for p, t in (('M10', 'generated seeds, draw interleavings, chosen generator states and state transports; streams compared draw by draw, distributions by chi-square with confirmation'),
             ('M11', 'generated operands (special, huge, tiny, aliased); every operation compared with long double complex arithmetic or its defining identity'),
             ('M12', 'generated operands around the wrap-around points; compared with 64-bit modular and component-wise arithmetic'),
             ('M13', 'generated histories of additions and removals run against an address-to-content model after every step')):
    CHECKS[p] = dict(variants=[dict(harness='util', flavor='asan')], technique=t, quick=20)

for p, t, f in (('M06', 'generated update histories measured step by step; every exported histogram, normalisation and counter compared with an independent accumulation', 'fast'),
             ('M08', 'generated tables and arguments on the time grid of the generator; lookups compared with integer-time table indexing and with their own translations, time shifts and reversals', 'asan'),
             ('M09', 'generated lattices and grids; index maps enumerated completely against row-major order', 'asan'),
             ('M21', 'generated symmetry maps, tables and arguments; lookups and accumulations compared with integer-time table indexing, translations, time shifts and reversals', 'asan')):
    CHECKS[p] = dict(variants=[dict(harness='tables', flavor=f)], technique=t, quick=20,
        assumptions=['times are multiples of beta/2^32, the grid on which the generator draws them'])

for p, t in (('M07', 'generated histories of measurements, samples, squeezes, clears and temperature changes on estimators, bundles, histograms and whole runs, compared with a reference estimator after every step'),
             ('M15', 'generated contents exported, carried through dictionaries, copies and files and imported into other objects: round trip, continued equality, and refusal of systematically damaged dictionaries'),
             ('M17', 'generated visit counts and histories of measure, squeeze, print and adjust compared with the reweighting rule; positivity and all-or-nothing invariants')):
    CHECKS[p] = dict(variants=[dict(harness='est', flavor='asan')], technique=t, quick=20)

for p, t, f in (('M14', 'generated runs saved, reloaded with unrelated runs in between, and continued; every state and every later configuration compared with the uninterrupted run', 'asan'),
             ('M16', 'generated scripts of sections and requests in forked processes, requests from outside at random instants, saves under fire; exit status, exit count and place of ending compared with a model', 'fast'),
             ('M18', 'generated histories of valid, stale, truncated and missing messages and weight files; decision, tables, line weights, histograms and unchanged state compared with a model', 'asan')):
    CHECKS[p] = dict(variants=[dict(harness='env', flavor=f)], technique=t, quick=40,
        assumptions=['hickle/HDF5 is replaced by a pickle container with the same interface (not installed here)'])

CHECKS['M24'] = dict(variants=[dict(harness='first', flavor='fast', tree=True)], quick=55,
    technique='generated tables; the first order sampled by the simulation and collected as in production against the closed expressions of the self-consistency layer, entry by entry, suspicious entries confirmed by a longer independent run',
    assumptions=['orders above one are decided by M02, M06 and M22; vertex functions are compared for propagators and interactions that do not depend on time, away from coinciding time bins'])

CHECKS['M25'] = dict(variants=[dict(harness='handoff', flavor='fast', tree=True)], quick=55,
    technique='generated calculations with the loop and one or two simulations in one process working on the same files; after every hand-over tables, message, every line of the diagram and the collected statistics are compared',
    assumptions=['hickle/HDF5 is replaced by a pickle container with the same interface (not installed here)', 'a calculation ends where the statistics leave the present diagram without weight in the new tables (the simulation refuses to go on there)'])

CHECKS['M26'] = dict(variants=[dict(harness='log', flavor='asan')], quick=20,
    technique='generated histories of configurations, levels, texts, places and dates against a model of every channel after every message; generated failures, scopes and texts',
    assumptions=['the clock is a stand-in, the real time is accepted as well', 'one thread, as in the program'])
CHECKS['M27'] = dict(variants=[dict(harness='draw', flavor='fast')], quick=25,
    technique='generated update histories; every drawing is read back and compared with the vertices and lines of the diagram',
    assumptions=['colours of propagators and the dashed style of interactions are judged, sizes and fonts are not'])
CHECKS['M28'] = dict(variants=[dict(harness='report', flavor='fast', subs=RNGSUB)], quick=25,
    technique='generated update histories through a scripted random generator; the report is read after every update and compared with the changes of the configuration, rejected updates are repeated with another last number',
    assumptions=['whether a rejected update had been proposed is only judged where a repetition with another last random number is accepted'])
CHECKS['M23'] = dict(variants=[dict(harness='program', flavor='fast')], quick=40,
    technique='generated input files, clocks, messages and requests to end; the program runs in a process of its own and its saved files and exit status are compared with a reference loop on the same schedule',
    assumptions=['the clock is a generated function of the number of updates done; files appear and requests to end arrive at the boundaries of one hundred measurements or inside a write', 'hickle/HDF5 is replaced by a pickle container with the same interface (not installed here)'])

CHECKS['M19'] = dict(variants=[dict(harness='glue', flavor='asan')], quick=25,
    technique='generated nested values carried over every route, generated Python values read as every supported type against an oracle written in Python, and histories of shared objects with reference counts compared',
    assumptions=['the glue is compiled against Python 3 through a small compatibility header (Python 2 is not installed); hickle/HDF5 is replaced by a pickle container with the same interface', 'strings with NUL bytes are not generated; in text files complex numbers are finite and the sign of a zero part is not judged'])

PYASSUME = ['the Python 2 sources are translated to Python 3 by tools/py2.py before every run (integer division, dict order, map/filter/zip and print semantics preserved); matplotlib is a stub']
CHECKS['D01'] = dict(variants=[dict(py='tables.py', fastlu=True)], quick=20, assumptions=PYASSUME + ['lu_fast.pyx is compiled with cython3 and the reference LAPACK'],
    technique='generated matrices (pivoting, permutations, badly scaled rows, every memory layout) solved by both solvers and by the table inversion; residuals, determinants, unchanged inputs')
CHECKS['D02'] = dict(variants=[dict(py='tables.py')], quick=20, assumptions=PYASSUME,
    technique='generated tables and transform sequences compared after every step with direct sums over displacements and times; linearity')
CHECKS['D08'] = dict(variants=[dict(py='tables.py'), dict(harness='cross', flavor='asan', tree=True)], quick=20, assumptions=PYASSUME,
    technique='stateful model of mixing, undoing, transforming, copying and exporting; complete index maps; differential lookup of the same table and statistics by the C++ and the Python layer')
CHECKS['D03'] = dict(variants=[dict(py='calc.py')], quick=20, assumptions=PYASSUME,
    technique='generated bare and correction tables in any domain; residual of the Dyson equations written as sums over imaginary time, determinants from the definition, inputs compared with the originals')
CHECKS['D04'] = dict(variants=[dict(py='calc.py')], quick=20, assumptions=PYASSUME,
    technique='generated tables in any domain; every first order diagram compared with sums over spins, sublattices, displacements and times written out from its definition')
CHECKS['D05'] = dict(variants=[dict(py='geometry.py')], quick=20, assumptions=PYASSUME,
    technique='every lattice at generated sizes; index and site maps enumerated, structure factors against direct sums, wave vectors on generated paths (several per object) against enumeration')
CHECKS['D06'] = dict(variants=[dict(py='geometry.py')], quick=20, assumptions=PYASSUME + ['sizes below two (three for the triangular lattice) and spin-orbit phases are not generated'],
    technique='generated models, couplings, fields and annealing histories; couplings against the neighbour shells found from the geometry, bare lines against closed forms and exact diagonalisation of the hopping Hamiltonian')
CHECKS['D07'] = dict(variants=[dict(py='merge.py')], quick=35, assumptions=PYASSUME + ['hickle/HDF5 is replaced by a pickle container with the same interface'],
    technique='generated samples divided over processes, merged in random order and grouping or through files (with broken, foreign and unrelated files); pooled estimate and accepted orders compared with a model using its own spline fit')
CHECKS['D09'] = dict(variants=[dict(py='iofile.py', props=['files', 'readers', 'crash'])], quick=25, assumptions=PYASSUME + ['hickle/HDF5 itself is not installed here; it is replaced by a container with the same interface that writes unbuffered in pieces', 'text files are not promised to be replaced atomically; only that a truncated one is refused'],
    technique='model of named files under generated histories of saves and loads; a reader at every step of a save; the process killed, interrupted or out of space at a generated step')
CHECKS['D10'] = dict(variants=[dict(py='taubasis.py', props=['orthonormal', 'kernels']), dict(py='vertex.py', props=['expansion'])], quick=20, assumptions=PYASSUME,
    technique='generated temperatures, grids and basis counts; Gram matrix, span against the kernel, bin centres, projections and vertex function expansions compared with sums')
CHECKS['D11'] = dict(variants=[dict(py='jobs.py', props=['expand', 'refuse'], share=1), dict(py='jobs.py', props=['daemon'], share=2)], quick=30, assumptions=PYASSUME + ['executables are stand-ins that record how they were called; qsub, mkdir and rm are recorded or carried out inside the scratch folder only', 'requests to stop arrive when the processes allowed to run have been started'],
    technique='generated descriptions and left-over files; inputs, files, scripts and commands compared with the description; the daemon run as a process with generated durations, limits and requests to stop')
CHECKS['D12'] = dict(variants=[dict(py='vertex.py', props=['maps', 'compress']), dict(harness='cross', flavor='asan', tree=True)], quick=20, assumptions=PYASSUME + ['one sublattice in two dimensions, the only case vertex functions are used for'],
    technique='index, multiplicity and conjugation maps enumerated against orbits of the symmetry group; round trips of generated tables; differential lookup and accumulation through the same maps by the C++ layer')
CHECKS['D13'] = dict(variants=[dict(py='signals.py', props=['sections', 'edges', 'fire'])], quick=20, assumptions=PYASSUME + ['of two different requests pending at the same time either may stand for both'],
    technique='generated programmes of nested, repeated and failing sections with requests at every place, run in forked processes and compared with a model; requests at every step of opening, closing and of a real save')
CHECKS['D14'] = dict(variants=[dict(py='loop.py', props=['loop']), dict(py='loop.py', props=['collect'])], quick=55, assumptions=PYASSUME + ['a version whose tables grow beyond 1e4 is not compared; the program is interrupted at the start of a version or in one of its calculations'],
    technique='generated scripts of completed, denied and statistics-less versions, interrupted and restarted; the real loop runs beside a model of the scheme and the files are read at the moment of every announcement; collect-only runs of the real program')
CHECKS['D16'] = dict(variants=[dict(py='observe.py', props=['observe'])], quick=20, assumptions=PYASSUME,
    technique='generated tables in any domain on every lattice; every measured quantity compared with its defining sum, histories counted and reloaded')
CHECKS['D17'] = dict(variants=[dict(py='plots.py', props=['times'], share=1), dict(py='plots.py', props=['space'], share=2), dict(py='plots.py', props=['waves'], share=3), dict(py='plots.py', props=['pyrochlore'], share=2)], quick=25, assumptions=PYASSUME + ['matplotlib is replaced by a recorder of everything that is drawn, saved and shown', 'time axes are judged to half a time bin; the map of sites may be moved as a whole', 'the path of the honeycomb and kagome lattices is marked as not correct yet in the source and is not judged'],
    technique='generated tables in any domain on every lattice; recorded points compared with entries at generated components, site positions and direct Fourier sums over the whole region shown')
CHECKS['D18'] = dict(variants=[dict(py='house.py', props=['cancel'], share=1), dict(py='house.py', props=['clean'], share=1)], quick=20, assumptions=PYASSUME + ['qdel, qsig and rm are stand-ins in the path: the first two record their call, the last removes only below the scratch folder'],
    technique='generated job records, ranges, options and folders; commands and files left compared with what was asked for')
CHECKS['D15'] = dict(variants=[dict(py='vertex.py', props=['vertices', 'interactions', 'bethe'])], quick=35, assumptions=PYASSUME + ['one sublattice in two dimensions; tables of the interaction vertex have single precision'],
    technique='generated tables in any domain; every diagram compared with sums over spins, displacements and times written out from its definition; resummation by its residual')
