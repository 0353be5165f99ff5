#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (source of truth for titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 3, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
MK='src/module/markov/markov.cpp'; G3U='src/module/markov/gamma3_updates.cpp'
DG='src/module/diagram/diagram.cpp'; DC='src/module/diagram/diagram_check.cpp'; DIO='src/module/diagram/diagram_IO.cpp'
prop('M01','Every update history leaves a well-formed Feynman diagram',
 'Starting from a freshly built or loaded diagram, after any sequence of Monte Carlo updates (worm, interaction, delta/continuous, measuring-line, loop-move, order-0 and external-vertex updates) the configuration is a well-formed diagram: 2N fermion lines, N interaction lines and 2N vertices with mutually consistent links and directions, exactly one measuring line, equal times on instantaneous interactions, which are never the measured line. Momentum is conserved at every vertex (with the worm carrying the excess), the spin on the two ends of a fermion line agrees, spin current through an interaction is conserved up to the worm, and all vertices of one fermion loop sit on one lattice site. The order stays within the configured maximum and coordinates, times and momenta stay in range.',
 ['histories','configurations'],'all sequences of updates from all reachable states, all lattice sizes, inverse temperatures, maximum orders and random numbers',
 'The existing tests never run an update: they exercise the object pool, the lattice vector and the RNG. The invariant quantifies over unbounded histories and rare moves.',
 [MK,G3U,DG,DC],[('update functions editing links/flags in place','mc::Markov in '+MK),('structural self-check','Diagram::CheckDiagram in '+DC)],
 [('diagram','bundles of lines and vertices with cross links, worm, measuring line','diag::Diagram')],['Diagram public members after each Markov update or Hop'])
prop('M02','Stored weights, phase and loop sign equal a from-scratch evaluation',
 'After any sequence of updates, the stored weight of every line equals the tabulated propagator at the line\'s current space-time-spin arguments, and the diagram weight equals (-1)^order times the fermion-loop sign times the product of all line weights (or the normalisation constant at order zero), with the stored phase equal to its unit phase. The fermion-loop sign equals (-1)^(number of fermion loops) counted on the actual topology, relative to the initial diagram.',
 ['histories','inputs'],'all update histories and all (complex) propagator tables',
 'Incremental ratios accumulate over unbounded histories; no test computes a weight.',
 [MK,G3U,DG],[('incremental weight ratio in each update','mc::Markov updates'),('full recomputation','Diagram::FixDiagram / _CheckWeight')],
 [('Weight, Phase, SignFermiLoop','running totals','diag::Diagram')],['Diagram.Weight, Phase, SignFermiLoop, line weights'])
prop('M03','Every update satisfies detailed balance for the reweighted diagram weight',
 'For every reachable configuration and every update, the probability flow to a new configuration (call probability, times the density of the random choices made, times the acceptance probability) equals the flow of the inverse update back. The target measure is the absolute diagram weight times the order, measuring-line, worm and external-vertex reweighting factors.',
 ['histories','inputs','configurations'],'all reachable configurations, all updates and proposals, all propagator tables, reweighting factors, lattice sizes and temperatures',
 'A wrong proposal factor leaves a perfectly valid-looking chain that converges to wrong numbers; no test looks at acceptance ratios.',
 [MK,G3U],[('acceptance ratio of each update','mc::Markov updates'),('call probabilities','Markov::BuildNew')],[],
 ['state before/after an update under controlled random words'])
prop('M04','Rejected or inapplicable updates leave the configuration untouched',
 'An update that does not apply to the current configuration or is rejected changes nothing observable about the sampled diagram: topology, coordinates, spins, momenta, momentum-occupancy records, weights, worm, measuring line and order. An accepted update is reported as one more acceptance, and each proposal is counted at most once.',
 ['histories','inputs'],'every update called on every reachable configuration with every random stream, including calls the update must refuse (no worm, wrong order, maximum order, external vertex present)',
 'Tests never call updates; refusal paths depend on rare configurations.',
 [MK,G3U],[('early returns and accept blocks','mc::Markov updates')],[],['deep comparison of the diagram before/after'])
prop('M05','Momentum occupancy records match the diagram and keep it irreducible',
 'At all times the records of occupied fermion-line and interaction-line momenta describe exactly the momenta of the lines present, no two fermion lines share a momentum, no two interaction lines share the modulus of a momentum, and no interaction line carries zero momentum. Consequently every sampled worm-free diagram is a skeleton diagram: cutting any two fermion lines or any two interaction lines, or a single line, never disconnects it.',
 ['histories'],'all update histories from all loadable starting diagrams',
 'Irreducibility is a global property of arbitrary-order topologies that emerges from the bookkeeping over a history.',
 [DG,MK,G3U,'src/utility/momentum.cpp'],[('GHash/WHash maintenance','Diagram::AddGHash.. '+DG),('refusal of occupied momenta','updates in '+MK)],
 [('GHash, WHash','which momenta are occupied','diag::Diagram')],['GHash, WHash, line momenta'])
prop('M06','Measurement routes each configuration to the right histogram bin and value',
 'Measuring a configuration adds exactly one contribution: phase divided by the order reweight (negated for the polarisation; divided further by the external-vertex reweight for vertex functions) to the histogram of the quantity selected by the measuring line, at the bin given by the spins, sublattices, displacement and (anti)periodised time between the two ends of the measuring line (vertex functions: relative to the external point) and the order. Order-zero configurations add only to the normalisation of the selected quantity, worm configurations add to no histogram, and every visit is counted in exactly one of the physical/worm order counters.',
 ['histories','inputs','configurations'],'all reachable configurations, with and without worm / external vertex, all lattices, temperatures, bins and reweights',
 'No test measures anything; errors only bias averages.',
 ['src/module/markov/markov_monitor.cpp','src/module/weight/component_MC.cpp','src/module/weight/index_map.cpp','src/module/weight/weight_estimator.cpp'],
 [('MarkovMonitor::Measure','src/module/markov/markov_monitor.cpp'),('SigmaClass/PolarClass::Measure','src/module/weight/component_MC.cpp')],[],['ToDict of Sigma/Polar/GammaG/GammaW and estimator counters'])
prop('M07','Estimators report the exact accumulated statistics and squeeze uniformly',
 'For any sequence of measurements, normalisation updates, history samples, squeezes and clears, an estimator reports exactly the accumulated sum, norm, mean, recorded history (decimated by halving when full) and error band of that sequence. Squeezing by a positive factor divides sums and norms alike, so means and normalised weight functions are unchanged; a non-positive factor is refused; changing the temperature rescales the normalisation so that the normalised histogram is preserved.',
 ['histories','inputs'],'all operation sequences incl. histories longer than the buffer, real and complex observables, bundles',
 'Tests of estimators are not part of the runnable suite and use one fixed sequence.',
 ['src/estimator/estimator.cpp','src/module/weight/weight_estimator.cpp','src/module/weight/gamma3.cpp','src/module/markov/markov_monitor.cpp'],
 [('Estimator/EstimatorBundle','src/estimator/estimator.cpp'),('WeightEstimator','src/module/weight/weight_estimator.cpp')],[],['Value, Norm, Estimate, ToDict'])
prop('M08','Propagator lookups depend only on displacement and (anti)periodic time',
 'Looking up a fermion or interaction line returns the table entry selected by its spins, sublattices, periodic displacement and time difference reduced to one period, with a sign flip for the fermion line exactly when the time difference is not positive. Lookups are invariant under lattice translations of both ends and under common time shifts, agree between the two argument orders (traversing the line forwards or backwards), a measured line always has weight one, instantaneous interactions ignore time, and worm-attached interactions ignore spin.',
 ['inputs','configurations'],'all sites, times in [0,beta), spins, flags, table contents, lattice sizes, bin counts, temperatures',
 'The lattice and index tests check two vectors; propagator lookup is untested and boundary bins/times need exploration.',
 ['src/module/weight/component_MC.cpp','src/module/weight/component.cpp','src/module/weight/index_map.cpp','src/lattice/lattice.cpp'],
 [('GClass::Weight, WClass::Weight','src/module/weight/component_MC.cpp')],[],['GClass::Weight / WClass::Weight return values'])
prop('M09','Table and lattice index maps are bijections that stay in bounds',
 'For every lattice, number of sublattices and time bins, the map from (spins, sublattices, displacement, time bin) to a flat table index is one-to-one onto the table in row-major order of the advertised shape and never leaves it. Lattice coordinate/index conversions are mutually inverse, displacement indices are periodic in both ends, and the time of a bin maps back to that bin.',
 ['inputs','configurations'],'all lattice shapes (incl. anisotropic and size 1), sublattices, bin counts, temperatures and times',
 'The lattice test covers one 8x8 instance of vector arithmetic; bijectivity is a statement over the whole index space.',
 ['src/module/weight/index_map.cpp','src/lattice/lattice.cpp'],[('GetIndex, TauIndex, IndexToTau','src/module/weight/index_map.cpp'),('Vec2Index, Index2Vec, CoordiIndex','src/lattice/lattice.cpp')],[],['index values'])
prop('M10','Random numbers stay in range, are uniform, and streams are reproducible',
 'For every seed and any interleaving of draws, real draws lie in [0,1), integer draws lie in the requested closed interval with every value reachable and equally likely, and each draw is a pure function of the seed and the number of draws before it. Exporting the generator state and importing it elsewhere (also as text inside a saved parameter file) continues the stream identically, and reseeding restarts it.',
 ['inputs','histories'],'all seeds, interval bounds (incl. negative, single-point), draw interleavings, export points',
 'The test samples one seed, one interval and one export point.',
 ['src/utility/rng.h','src/utility/rng.cpp'],[('RandomFactory','src/utility/rng.h')],[],['urn, irn, stream operators, Reset'])
prop('M11','Complex arithmetic obeys the field laws in every operand combination',
 'Complex addition, subtraction, multiplication and division, in every combination of complex and real operands and in their compound-assignment forms, agree with exact complex arithmetic to rounding, including when an operand aliases part of the result. Conjugate, modulus, phase, exponential, square root, polar form and power satisfy their defining identities on the principal branch, and text output reads back to the same number at the precision it was written with.',
 ['inputs'],'all finite complex/real operands incl. zero, pure real/imaginary, negative real axis and aliased operands',
 'There is no test of complex arithmetic at all.',
 ['src/utility/complex.h','src/utility/complex.cpp'],[('operators','src/utility/complex.cpp'),('functions','src/utility/complex.h')],[],['return values'])
prop('M12','Momenta form a cyclic group and lattice vectors are exact component-wise',
 'Momentum labels always lie in the symmetric range, and addition and subtraction in all operand forms agree with arithmetic modulo the size of that range, so they are associative, commutative and invertible. Vector arithmetic is component-wise exact for integers and reals, integer comparison is an equivalence consistent with components, real comparison holds exactly when all components agree within the fixed tolerance, and both types read back from their text form.',
 ['inputs','histories'],'all momenta, integer offsets within one period, vectors and scalars, operation chains',
 'Only two vector operations at fixed values are tested.',
 ['src/utility/momentum.cpp','src/utility/vector.h','src/utility/vector.cpp'],[('Shift and operators','src/utility/momentum.cpp'),('Vec','src/utility/vector.h')],[],['operator results'])
prop('M13','The component pool behaves as a stable-address indexed set',
 'For any sequence of additions and removals (by object or by name) the pool contains exactly the live components, numbered 0..n-1 with each component\'s name equal to its slot, removal frees exactly the component asked for, addresses and contents of live components never change or alias, and random picks return live components uniformly. Adding beyond capacity, removing from an empty pool, removing a foreign component or indexing past the end is refused without corrupting anything.',
 ['histories'],'all add/remove/query sequences up to and past capacity',
 'The tests do one short fixed sequence and one capacity check through the copying overload.',
 ['src/module/diagram/component_bundle.cpp'],[('Bundle::Add/Remove/Exist/RandomPick','src/module/diagram/component_bundle.cpp')],[],['HowMany, operator[], Exist, Name'])
prop('M14','Saving and reloading a run reproduces it and continues it identically',
 'Saving the simulation at any permitted point and loading it into a fresh process restores parameters, random stream, diagram, statistics and counters (if only the parameter file is lost, the run described by the input goes on with the saved statistics), and the reloaded run produces from then on the same sequence of configurations and measurements as the uninterrupted run up to rounding. Loading the same files twice gives the same state, and saving a loaded state yields equivalent files.',
 ['histories','crash_points','configurations'],'all reachable states as save points, with and without worm, at all orders, with and without vertex-function measurement',
 'No runnable test saves or loads anything.',
 [DIO,DG,'src/environment/envMonteCarlo.cpp','src/module/parameter/parameter.cpp','src/module/weight/weight.cpp'],[('ToDict/FromDict','Diagram, ParaMC, Weight, MarkovMonitor'),('EnvMonteCarlo::Save/Load','src/environment/envMonteCarlo.cpp')],[],['saved files; state after Load; subsequent trajectory'])
prop('M15','Statistics and parameters survive export and import unchanged',
 'Exporting weights, statistics, estimators, parameters or messages and importing them into a fresh object of the same configuration restores every value, and exporting again gives the same content; statistics of a lower order cutoff can be imported into a run with a higher cutoff with the extra orders empty. Importing data of the wrong shape, with missing keys or of the wrong type is refused with an error instead of silently changing the state.',
 ['inputs','configurations'],'all histogram contents, shapes, orders, parameter values, missing/ill-typed/ill-shaped entries',
 'No runnable test covers persistence of statistics.',
 ['src/module/weight/weight_estimator.cpp','src/module/weight/weight_array.cpp','src/module/weight/gamma3.cpp','src/estimator/estimator.cpp','src/module/parameter/parameter.cpp','src/module/parameter/message.cpp'],
 [('FromDict/ToDict','listed files')],[],['ToDict output, exceptions'])
prop('M16','Signals during a critical section are deferred, never lost',
 'While interruption is delayed, an interrupt or termination request never ends the process or runs its handler; when the section ends, a pending request ends the process with that signal\'s number exactly once. Outside critical sections a request ends the process immediately, sections without a request have no effect on the process, and the same holds for any sequence of repeated sections.',
 ['schedules','histories','fault_sequences'],'all sequences of delay/resume and signal deliveries (none, one, several, INT/TERM) at any point',
 'No test delivers a signal.',
 ['src/utility/abort.cpp','src/utility/abort.h','src/main.cpp'],[('InterruptHandler','src/utility/abort.cpp')],[],['process exit status, IsDelaying, survival'])
prop('M17','Automatic reweighting is safe and leaves factors positive and finite',
 'Reweighting factors are adjusted only when every order and measured quantity has been visited often enough; otherwise nothing changes. When adjusted, each order\'s factor is multiplied by the target time ratio times the zeroth-order count over its own count, order zero returns to one, and the worm, polarisation and vertex factors are multiplied by the corresponding count ratios; every factor remains positive and finite, and reporting statistics never changes any factor used for adjustment in a way that breaks this.',
 ['histories','inputs'],'all visit-count combinations incl. zeros and threshold values, all previous factors and time ratios, order cutoffs',
 'No test drives the reweighting; degenerate counts are the interesting cases.',
 ['src/module/markov/markov_monitor.cpp','src/environment/envMonteCarlo.cpp'],[('MarkovMonitor::AdjustOrderReWeight, PrintOrderReWeight','src/module/markov/markov_monitor.cpp')],[],['reweighting parameters before/after'])
prop('M18','Annealing messages apply once, in version order, and consistently',
 'A message is applied only if readable, its version is newer than the current one, the new tables load, and no external vertex is attached; otherwise nothing changes and the run continues. When applied, version and temperature become those of the message, all propagator tables, time grids and line weights are re-evaluated so that the configuration is again consistent, histograms keep their normalised values, and the statistics are squeezed once by the requested factor.',
 ['histories','fault_sequences','configurations'],'all sequences of messages (older/equal/newer versions, missing/corrupt files, new temperatures and tables) interleaved with updates',
 'No runnable test covers the environment.',
 ['src/environment/envMonteCarlo.cpp','src/module/parameter/message.cpp','src/module/parameter/parameter.cpp'],[('EnvMonteCarlo::ListenToMessage','src/environment/envMonteCarlo.cpp')],[],['return value, parameters, diagram consistency after'])
prop('M19','Values cross the C++/Python boundary unchanged or are refused',
 'Every value of the supported types (integers, reals, booleans, strings, complex numbers, vectors, maps, nested dictionaries, momenta, lattice vectors, numeric arrays) placed in a dictionary is returned unchanged by the same type, after merging, copying, conversion to Python and back, and saving to and loading from file. A missing key or a value of an incompatible type (including ill-typed elements of compound values) raises an error instead of yielding a value, and reference counts stay balanced so repeated conversions neither leak nor free live objects.',
 ['inputs','histories'],'all nested values of supported types, all type mismatches, operation sequences on dictionaries',
 'The dictionary test is not buildable in the suite and covers a handful of values.',
 ['src/utility/dictionary.cpp','src/utility/dictionary.h','src/utility/pyglue/type_cast.cpp','src/utility/pyglue/type_cast.h','src/utility/pyglue/pywrapper.h','src/utility/pyglue/object.cpp','src/utility/pyglue/pyarraywrapper.cpp'],
 [('Convert/CastToPy','src/utility/pyglue/type_cast.*'),('Dictionary','src/utility/dictionary.*')],[],['Get/Convert results, exceptions'])
prop('M20','The diagram self-check accepts valid diagrams and rejects corrupted ones',
 'The built-in consistency check accepts every configuration reachable by updates, and rejects (by failing or raising) every configuration in which a single relation has been broken: a mislinked or foreign vertex, wrong counts, direction, measuring flag, worm flag, instantaneous times, momentum conservation, spin continuity, or a line or total weight. The check itself never alters the configuration.',
 ['histories','fault_sequences'],'all reachable configurations times all single corruptions',
 'No test runs the check.',
 [DC],[('Diagram::CheckDiagram',DC)],[],['return value / exception of CheckDiagram'])
prop('M21','Vertex-function tables are read and accumulated with the right symmetry',
 'Reading a vertex function at given fermion or interaction end points and external point returns the table entry for the spins, displacements to the external point and reduced times, with the sign or conjugation demanded by antiperiodicity and by the stored symmetry map; it is invariant under common lattice and time translations. Accumulating a measurement adds, divided by the orbit size of the symmetry map, to exactly the entry that reading uses at the same end points (for the interaction vertex function with the two spin pairs of the amputated line exchanged), with the sign or conjugation that makes accumulation and lookup agree; no other entry changes.',
 ['inputs','configurations'],'all end points, times, spins, lattices, bin counts, symmetry maps and table contents',
 'Vertex functions are not touched by any test.',
 ['src/module/weight/gamma3.cpp','src/module/weight/component_MC.cpp'],[('GammaGClass/GammaWClass::Weight and Measure','src/module/weight/gamma3.cpp')],[],['Weight results, StatisToDict'])
prop('M22','The sampled distribution matches the target weight over all sectors',
 'Long runs visit every order, both measuring sectors, worm and worm-free configurations and (when enabled) both external-vertex sectors, and the relative frequencies of these sectors, orders, and of times, sites, spins and topologies within them converge to the reweighted diagram weight, independently of the starting diagram and of the random seed.',
 ['histories','configurations'],'all sufficiently long runs, seeds, order cutoffs, reweighting factors and propagator tables',
 'Requires statistics over long histories against an independent enumeration of diagrams.',
 [MK,G3U,'src/module/markov/markov_diag_counter.cpp'],[('Markov::Hop and its update mix',MK)],[],['visit counters along Hop'])
prop('M23','The simulation program keeps its schedule, saves and continues',
 'Started with any valid input file (named by number or by path), the program builds a new run or continues the saved one, reads a waiting message, discards the configured number of sweeps, and then measures once after every sweep; after every hundred measurements it writes its state, reads a message and readjusts its weights exactly when each one\'s own interval has passed since it last did, starting from the start of the run. A request to end stops it with the number of the signal, and one that comes while it writes only after the files are complete. The files it leaves are therefore those of a run that follows this schedule with the same seed, however the clock advances. Wrong command lines and jobs of another type start no run.',
 ['schedules','histories','inputs'],'all input files, clocks, message arrivals and request instants (between measurements blocks or inside a write), new and continued runs',
 'No test runs the program; its loop is only reachable through a process that never returns.',
 ['src/main.cpp','src/utility/timer.cpp','src/environment/envMonteCarlo.cpp','src/job/job.cpp'],[('MonteCarlo, main','src/main.cpp'),('timer::check','src/utility/timer.cpp')],[],['saved parameter and data files, exit status'])
prop('M24','The simulation and the calculator agree on the first order',
 'For every table of propagators and interactions both halves are given, the first-order self-energy and polarization that the simulation samples and accumulates converge, entry by entry and with the normalization and sign the collecting code applies, to the closed first-order expressions of the self-consistency layer; with vertex functions switched on, the sampled first order of the two vertex functions converges to what the self-consistency layer gets by attaching an interaction or a propagator to the vertex functions it exported. Reweighting factors and seeds do not matter.',
 ['histories','inputs'],'all tables with the symmetries of the exported ones, lattice sizes, time grids, temperatures, reweighting factors and seeds',
 'The two halves are in different languages and share only files: no test runs both, and the agreement is statistical.',
 ['src/module/markov/markov_monitor.cpp','src/module/weight/sigma.cpp','src/module/weight/polar.cpp','src/module/weight/gamma3.cpp','dyson/calculator.py','dyson/gamma3_calc.py'],[('MarkovMonitor::Measure','src/module/markov/markov_monitor.cpp'),('SigmaSmoothT_FirstOrder, Polar_FirstOrder','dyson/calculator.py'),('AddW_To_GGGammaG, AddG_To_GGGammaG, AddG_To_WWGammaW','dyson/gamma3_calc.py')],[],['exported statistics against closed expressions'])
prop('M25','Both halves work on the same files with the same meaning',
 'In a whole calculation started from one description, all processes work on the system, table sizes, temperature, orders and weights it states (only the intervals and seeds vary between them), and every version the self-consistency loop announces can be taken over by every simulation of that calculation, starting or running, with vertex functions or without: afterwards its propagator, interaction, bare-interaction and vertex tables, version and temperature are those of the loop, its diagram is intact and every line has the weight the tables in the file give it. The statistics the simulations save are the ones the loop collects, added over processes with their normalization, and the self-energy of the next version consists of the first orders of them.',
 ['histories','schedules'],'all lattices in two dimensions, grids, temperatures, couplings, annealing fields, numbers of simulations, and histories of loop versions and simulation steps',
 'The halves only meet through files of a running calculation; no test runs both.',
 ['dyson/main.py','dyson/collect.py','dyson/parameter.py','job_class.py','IO.py','src/environment/envMonteCarlo.cpp','src/module/weight/weight.cpp','src/module/weight/gamma3.cpp','src/module/parameter/parameter.cpp'],[('EnvMonteCarlo::ListenToMessage, Save','src/environment/envMonteCarlo.cpp'),('Measure, Dyson','dyson/main.py'),('CollectStatis','dyson/collect.py')],[],['tables and statistics on both sides'])
prop('M26','Diagnostics are complete: messages logged once, failures always raised',
 'For every history of configurations and messages, each message at or above the threshold of an enabled channel (log file, screen) appears there exactly once, in order, complete and unchanged, with the name of the program, its level, the date and time and the file and line it comes from, and is in the file when the call returns; messages below the threshold and disabled channels show nothing, and what a log file held before is kept. Every failed requirement raises the stated kind of error, whose text holds the reason and the place, and is logged once at its level; a requirement that holds has no effect; what is guarded by a scope runs exactly once however the scope is left, unless dismissed. The text helpers pad, align and compare as documented for every width.',
 ['histories','inputs'],'all sequences of configurations, levels, texts, paths, dates and failures; all texts, widths and numbers',
 'No test looks at the log, and failures inside a run are only known from it.',
 ['src/utility/logger.cpp','src/utility/logger.h','src/utility/abort.h','src/utility/scopeguard.h','src/utility/utility.cpp'],[('Logger::print, Logger::configure','src/utility/logger.cpp'),('THROW, ABORT, ASSERT_ALLWAYS','src/utility/abort.h'),('ScopeGuard','src/utility/scopeguard.h')],[],['log files, screen and exceptions'])
prop('M27','A drawing of a diagram shows exactly its vertices and lines',
 'For every configuration the simulation can reach, the graph file written for it holds every vertex once, marked as a worm end exactly if it is one and coloured by sublattice, every propagator once with its direction, the spins at its two ends and the mark of the measured line, every interaction once, and nothing else; its heading states the order, sign and worm of the diagram. An older drawing is replaced, a drawing that cannot be written is reported, and drawing changes nothing.',
 ['histories','inputs'],'all update histories, orders, lattices and worms',
 'Drawings are used to understand a diagram that failed its check; no test reads one.',
 ['src/module/diagram/diagram_IO.cpp'],[('Diagram::WriteDiagram2gv','src/module/diagram/diagram_IO.cpp')],[],['the graph file written'])
prop('M28','The report about the updates counts exactly the moves made',
 'For every sequence of updates, the report the program prints states for every kind of update and every order how often it was proposed and accepted: a call proposes at most one move, of its own kind and at the order it starts from; it counts an accepted move exactly when the configuration was changed, and a move rejected by the decision is counted as proposed. Sums, ratios and the comparisons between a move and its reverse (one order apart where a move changes the order) follow from these counts, the counter of updates is the number of updates done, and a run begun anew starts with empty counts.',
 ['histories'],'all update histories, orders, lattices, with vertex functions and without',
 'The report is how a user judges whether the sampling is balanced; no test reads it.',
 ['src/module/markov/markov.cpp','src/module/markov/gamma3_updates.cpp'],[('Markov::PrintDetailBalanceInfo','src/module/markov/markov.cpp'),('Accepted, Proposed','src/module/markov/markov.cpp')],[],['the printed report'])
# ---- Python (self-consistency) part
prop('D01','The matrix solvers return solutions of the linear systems',
 'For every well-conditioned complex matrix and right-hand side, the LU solver and the point-wise table inversion return results whose residual is at rounding level, with row pivoting where needed and without modifying their inputs in ways the caller relies on; inverting twice returns the original table.',
 ['inputs'],'all sizes, well-conditioned matrices incl. ones with zero diagonal entries needing pivoting, all table shapes',
 'The only test compares one random matrix and does not run here.',
 ['dyson/solver/lu_slow.py','dyson/solver/lu_fast.pyx','dyson/weight.py'],[('LUdecomposition/solve','dyson/solver'),('Weight.Inverse / LUSolve','dyson/weight.py')],[],['returned arrays'])
prop('D02','Fourier transforms of weight tables invert and follow the stated convention',
 'Transforming a weight table to momentum/frequency space and back, in space, time or both, in any order, returns the original table; the forward transforms equal the direct sums over lattice displacements and over the (half-bin and fermionic-phase corrected) time grid. Transforms are linear, never change shape, and are applied at most once per direction.',
 ['inputs','histories'],'all table contents, shapes, symmetries and sequences of transforms',
 'No test covers the Fourier layer.',
 ['dyson/weight.py'],[('Weight.FFT','dyson/weight.py')],[],['table data after FFT'])
prop('D03','Dressed propagators solve their Dyson equations',
 'Given any self-energy, polarisation and bare propagators, the dressed fermion line and screened interaction produced by the calculator satisfy the Dyson equations point-wise in momentum-frequency space to rounding, reduce to the bare ones when the corrections vanish, respect the time-(anti)periodicity conventions, and leave their inputs numerically intact. The spin response solves the matching equation, and a denominator whose determinant turns negative is refused instead of being inverted.',
 ['inputs','configurations'],'all self-energy/polarisation tables away from singular points, lattices, temperatures, bins',
 'Not covered by any runnable test.',
 ['dyson/calculator.py','dyson/weight.py'],[('G_Dyson, W_Dyson','dyson/calculator.py')],[],['returned weight tables'])
prop('D04','First-order corrections equal their bubble and exchange definitions',
 'The lowest-order polarisation and self-energy (instantaneous and smooth parts) computed from any fermion and interaction tables equal the brute-force sum over spins, sublattices, displacements and times prescribed by the bubble and exchange diagrams with the right signs, for lines of any sublattice and displacement dependence. The same holds for the lowest-order screened interaction, the disconnected part of the spin response, and its contraction to a susceptibility.',
 ['inputs','configurations'],'all table contents, lattices, bins',
 'Not covered by any runnable test.',
 ['dyson/calculator.py'],[('SigmaSmoothT_FirstOrder, SigmaDeltaT_FirstOrder, Polar_FirstOrder, W_FirstOrder','dyson/calculator.py')],[],['returned weight tables'])
prop('D05','Lattice geometry is self-consistent for every supported lattice',
 'For every supported lattice and size, coordinates and indices convert back and forth, displacements are periodic, every site maps to a distinct index, and direct and reciprocal primitive vectors satisfy the duality relation. The structure-factor transform of a table at any wave vector equals the direct lattice sum with the sublattice phases, and the listed wave vectors are those of the finite periodic lattice.',
 ['inputs','configurations'],'all lattice types, sizes incl. anisotropic ones, tables and wave vectors',
 'Not covered by any runnable test.',
 ['dyson/lattice.py'],[('Lattice class','dyson/lattice.py')],[],['returned indices, vectors, sums'])
prop('D06','Bare propagators and interactions have the symmetries of the model',
 'For every model, lattice, size and coupling, the bare interaction table is real where it must be, symmetric under exchange of its ends and respects the lattice\'s neighbour structure and spin structure of the exchange coupling (each neighbour bond counted once per direction); the bare fermion propagator of spin models is local, spin-diagonal and has the prescribed chemical potential and (annealed) field dependence; that of itinerant models (without spin-orbit phases) is the thermal propagator of the hopping Hamiltonian, and their interaction acts between the densities prescribed. Annealing steps change the recorded and the used field alike.',
 ['inputs','configurations'],'all models/lattices/sizes/couplings/fields/temperatures',
 'Not covered by any runnable test.',
 ['dyson/model.py','dyson/lattice.py'],[('BareFactory','dyson/model.py')],[],['bare tables'])
prop('D07','Merging process statistics equals pooling all their samples',
 'Merging the statistics of any set of Monte Carlo processes equals the estimate of one process that had seen all their samples, independent of the merge order and of how samples were divided; a process with no statistics is neutral. Order acceptance selects the largest prefix of orders whose error is acceptable, and new self-energies are the sum of accepted orders and the normalised result of the pooled data.',
 ['inputs','histories'],'all partitions of samples to processes, orders, norms, merge orders',
 'Not covered by any runnable test.',
 ['dyson/collect.py'],[('WeightEstimator.Merge, CollectStatis, UpdateWeight','dyson/collect.py')],[],['merged estimators and resulting weights'])
prop('D08','Weight tables combine, roll back and export consistently',
 'Mixing a new table into an old one with ratio a yields the exact convex combination, undoing it restores the previously accumulated table (once), and exporting to and importing from a dictionary or to C++ index order preserves every entry. Spin, sublattice and time index maps used by the self-consistency layer agree with those of the simulation layer entry by entry, so tables written by one are read identically by the other.',
 ['inputs','histories','configurations'],'all table contents, shapes, merge/rollback sequences, index tuples',
 'Not covered by any runnable test.',
 ['dyson/weight.py','src/module/weight/index_map.cpp'],[('Weight.Merge/RollBack/ToDict/FromDict, IndexMap','dyson/weight.py')],[],['table data'])
prop('D09','Saved dictionaries read back equal and are never half-written',
 'Any dictionary of supported values saved to a parameter or data file reads back equal, in text and in binary form; saving over an existing file replaces it; and if saving large data is interrupted at any point the previously saved file is still complete and readable. A missing or corrupted file raises the documented error so that callers can retry or fall back.',
 ['inputs','crash_points','fault_sequences'],'all nested dictionaries, sequences of saves and loads, every interruption point during a save, truncated files',
 'No test covers the file layer.',
 ['IO.py','src/utility/dictionary.cpp'],[('SaveDict/LoadDict/SaveBigDict/LoadBigDict','IO.py')],[],['file contents and return values'])
prop('D10','Basis functions are orthonormal on the imaginary-time grid',
 'For every temperature and grid size the generated fermionic and bosonic basis functions are orthonormal under the grid inner product, have the parity/(anti)periodicity asked for, and projecting a function in their span onto them and back reproduces it.',
 ['inputs','configurations'],'all temperatures, grid sizes, basis counts, coefficient vectors',
 'No test covers the basis.',
 ['basis.py'],[('basis construction','basis.py')],[],['basis arrays'])
prop('D11','Job expansion gives every process a distinct, complete, valid input',
 'For every job description the expansion produces exactly the requested number of processes with distinct process numbers, seeds and file names, each input containing all parameters the simulation reads with the values of the description (only the output intervals are spread), processes with statistics of an earlier run continued first, and command lines and job scripts referring to the files generated. Expanding never changes the description itself. The job daemon runs each process exactly once, never more simulations at the same time than allowed, and leaves none behind when it is asked to stop.',
 ['inputs','configurations'],'all job lists, duplicates, left-over files, orders and seeds, requests to stop',
 'Not covered by any runnable test.',
 ['job_class.py','job_manager.py','inlist.py'],[('Job / JobMonteCarlo / JobDyson','job_class.py')],[],['generated input dictionaries'])
prop('D12','Compressed vertex functions expand back to the symmetric original',
 'Compressing a vertex function that has the lattice, time and conjugation symmetries to its independent entries and expanding it again reproduces it; expanding any table of independent entries gives a table with all these symmetries in which each independent entry appears unchanged, so that compressing again returns it; the index, multiplicity and conjugation maps handed to the simulation are mutually consistent (every entry maps to exactly one independent entry, multiplicities count its orbit); and the simulation looks up and accumulates through these maps exactly the entries of the expanded table.',
 ['inputs','configurations'],'all symmetric and non-symmetric tables, lattice sizes, bin counts',
 'Not covered by any runnable test.',
 ['dyson/gamma3_calc.py','src/module/weight/gamma3.cpp'],[('symmetry maps, CompressGammaW / RestoreGammaW','dyson/gamma3_calc.py')],[],['arrays returned'])
prop('D13','Termination requests to the self-consistency loop wait for saves',
 'While a protected save is running, an interrupt or termination request is recorded and handled only after the save finished, by the handler that was installed before; without a request, protection leaves no trace and handlers are restored, also when the protected block raises and when protections are nested or repeated.',
 ['schedules','fault_sequences'],'all sequences of protected blocks, signals, exceptions and nesting',
 'No test delivers signals.',
 ['dyson/logger.py'],[('DelayedInterrupt','dyson/logger.py')],[],['handler invocations and order'])
prop('D14','A version of the loop completes and is published, or leaves no trace',
 'For any sequence of versions of the self-consistency program - with or without statistics of the simulation, with or without vertex functions, in which any version may fail because the denominator of the interaction touches zero or because statistics are missing or refused, interrupted at any point and restarted from its files - every completed version publishes exactly the tables, parameters and outputs the scheme defines (first-order or merged self energies blended with the version ratio, propagators and interactions that solve their equations from them), raises the version number by one, and announces version, temperature and squeeze factor in the message file only after data, parameters and outputs of that version are in their files; a failed version announces nothing, and the next one continues from the tables of the last completed version with the external field annealed back; collect-only mode writes the sum of the statistics of all processes.',
 ['crash_points','histories','inputs'],'all scripts of completed and failing versions, points of interruption, restarts, lattices, fields and statistics',
 'Not covered by any runnable test: the loop as a whole is never run by a test.',
 ['dyson/main.py','dyson/collect.py','dyson/weight.py','dyson/parameter.py'],[('Dyson, Measure, start-up of the program','dyson/main.py'),('CollectStatis, UpdateWeight','dyson/collect.py'),('Merge, RollBack','dyson/weight.py')],[],['weight file, message file, parameter file and output file at the moment the message is written'])
prop('D15','Vertex-function diagrams equal their defining sums',
 'For arbitrary propagators, interaction lines and vertex functions in any domain, every step of the vertex-function equations of the self-consistency layer (the bare pair, attaching an interaction or propagators to a vertex function, closing vertex functions, the resummation into the full response and the susceptibility made of it) equals its definition as a sum over spins, sublattices, displacements and imaginary times, with the stated (anti)periodicity; the operands describe the same functions afterwards.',
 ['inputs','configurations'],'all tables, lattice sizes, temperatures and bin counts (one sublattice in two dimensions)',
 'Not covered by any runnable test.',
 ['dyson/gamma3_calc.py'],[('SimpleGG, AddW_To_GGGammaG, AddTwoG_To_GammaG, AddG_To_GGGammaG, AddTwoW_To_GammaW, AddG_To_WWGammaW, FullGGGammaG','dyson/gamma3_calc.py')],[],['arrays returned'])
prop('D16','Measured observables equal their definitions, one value per measurement',
 'For arbitrary propagators and susceptibilities in any domain, on every lattice, each quantity the self-consistency program measures (uniform and staggered susceptibility and magnetisation, nearest-neighbour energy, sum rule, bare-kernel counterparts, density and magnetisation of every sublattice, minimal determinant, the susceptibility at the special momenta) equals its definition from the entries of the tables in space and time, each measurement adds exactly one value to the history of each quantity, and saving and reloading the output keeps all histories.',
 ['inputs','histories'],'all tables, domains, lattices, sizes, temperatures and numbers of measurements',
 'Not covered by any runnable test.',
 ['dyson/measure.py'],[('Observable.Measure, Observable.Load, Observable.Save','dyson/measure.py')],[],['history of each observable and the file it is saved in'])
prop('D17','Pictures show the data of the tables they are drawn from',
 'For every table, component and lattice, each picture of the self-consistency program shows its data: the time dependence of the component and site asked for (real and imaginary part, one value per time bin), the value of every site at its position, the decay with the distance, the susceptibility and the band at the wave vectors of the region, plane or path shown, each point of it once and with the value of the Fourier sum there. Pictures are saved under their name or shown, no figure stays open, and drawing leaves the tables describing the same function.',
 ['inputs','configurations'],'all tables, domains, components, lattices, sizes, temperatures and time grids',
 'Not covered by any runnable test.',
 ['dyson/plot.py'],[('PlotTime, PlotTimeForList, PlotSpatial, PlotWeightvsR, PlotChiAlongPath, PlotChi_2D, PlotBand','dyson/plot.py')],[],['points and values handed to the plotting library'])
prop('D18','Cancelling and cleaning act on exactly the jobs and files asked for',
 'For every record of submitted jobs, or range of job numbers, the cancelling command sends each of these jobs exactly one request, to end or to be deleted as asked, and none to any other job. Cleaning the working folder removes the left-overs of processes, with the option for everything also all results, and never sources, programs, or anything outside the folder; without that option the results a calculation needs to continue survive.',
 ['inputs','configurations'],'all job records, ranges, options and folder contents',
 'Not covered by any runnable test.',
 ['killthemall.py','clear.sh'],[('delete, terminate','killthemall.py')],[],['commands issued and files left'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
