#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/"
DEP=S+"particle_deposition/"
p("F01","Charge deposition matches the particle shape and conserves total charge",
 "Every charge-density deposition routine (scalar, vectorised with transient or per-tile arrays, arbitrary order, 2D and 3D) adds to each grid node exactly weight x charge / cell volume x the product of B-spline shape factors of the requested order, for any particle positions inside the tile, any weights and any vector-block remainder. Summed over the grid the deposited charge equals the total particle charge, nothing is written outside the nodes the shape reaches, and prior contents of the density array are accumulated to, not overwritten.",
 ["inputs","configurations"],"All particle counts, positions (incl. on nodes, half cells and tile edges), weights, charges, grid spacings/origins, guard sizes, orders 1-3 and mixed orders, vector lengths, every deposition variant.",
 "The Gcov programs compare a few kernels against each other on one random particle cloud with fixed sizes; block remainders, edges, the generic-order and the 2D kernels are never compared with an independent reference.",
 [DEP+"charge_deposition/charge_deposition_2d.F90",DEP+"charge_deposition/charge_deposition_3d.F90",DEP+"charge_deposition/charge_deposition_manager.F90"],
 [("deposition kernels",DEP+"charge_deposition/charge_deposition_3d.F90"),("vector blocking",DEP+"charge_deposition/charge_deposition_3d.F90")],"density array after the call","density array")
p("F02","Direct current deposition matches q v S and is identical across kernels",
 "Every direct (non charge-conserving) current deposition routine, scalar or vectorised, 2D or 3D, orders 1 to 3, adds to each current component exactly charge x weight x velocity (momentum over gamma) x the product of B-spline shapes evaluated at the time-centred position on that component's staggered grid. Reduction of per-cell transient arrays reproduces the same totals and no other node is changed.",
 ["inputs","configurations"],"All particle sets (positions, momenta from zero to ultra-relativistic, weights), steps dt, grid spacings, guard sizes, orders, vector lengths and kernel variants.",
 "Tests compare a handful of 3D kernels against one another on one cloud; the 2D direct kernels and remainder/edge cases are not exercised at all.",
 [DEP+"current_deposition/direct/direct_current_deposition_3d.F90",DEP+"current_deposition/direct/direct_current_deposition_2d.F90"],
 [("kernels and vector reduction",DEP+"current_deposition/direct/direct_current_deposition_3d.F90")],"jx, jy, jz arrays after the call","current arrays")
p("F03","Charge-conserving current deposition satisfies discrete continuity",
 "For every charge-conserving (Esirkepov) deposition routine, in 2D and 3D, at every supported order and for any motion shorter than one cell, the discrete divergence of the deposited current equals minus the change over the step of the charge density deposited with the same shape, on every node. The total deposited current equals the sum of charge x weight x velocity, all kernels agree with the arbitrary-order routine, and existing contents are accumulated to.",
 ["inputs","configurations"],"All particle sets with |v| dt below a cell, including cell crossings in any combination of directions, all orders, weights, spacings and guard sizes.",
 "The tests compare kernels pairwise on one cloud with a printed tolerance; discrete continuity itself and rare crossings (several directions in one step, landing on a node) are never tested.",
 [DEP+"current_deposition/esirkepov/esirkepov_2d.F90",DEP+"current_deposition/esirkepov/esirkepov_3d.F90"],
 [("kernels",DEP+"current_deposition/esirkepov/esirkepov_3d.F90")],"jx, jy, jz arrays after the call","current arrays")
FG=S+"field_gathering/"
p("F04","Field gathering equals the shape-weighted interpolation in every kernel",
 "Gathering the electric or magnetic field to particles gives, for every kernel (scalar, vectorised, blocked, arbitrary order, 2D and 3D) and both lower-order-in-velocity settings, exactly the B-spline weighted sum of the staggered grid values at the particle position. A uniform field is therefore gathered exactly, gathered values add to what the particle arrays held, and particles do not influence each other.",
 ["inputs","configurations"],"All fields, particle positions, orders and mixed orders, grid spacings, vector lengths and kernel variants.",
 "Tests compare kernels on one fixed analytic field and one random cloud; most order / lower-order / vector-length / 2D combinations and remainder blocks are untested.",
 [FG+"energy_conserving/field_gathering_o1_3d.F90",FG+"energy_conserving/field_gathering_o2_3d.F90",FG+"energy_conserving/field_gathering_o3_3d.F90",FG+"energy_conserving/field_gathering_on_3d.F90",FG+"energy_conserving/field_gathering_o1_2d.F90",FG+"energy_conserving/field_gathering_o2_2d.F90",FG+"energy_conserving/field_gathering_o3_2d.F90",FG+"energy_conserving/field_gathering_on_2d.F90",FG+"field_gathering_manager_3d.F90",FG+"field_gathering_manager_2d.F90"],
 [("gather kernels",FG+"energy_conserving")],"particle field arrays after the call","particle field arrays")
PP=S+"particle_pushers/"
p("F05","Particle pushers obey the relativistic equations of motion",
 "The momentum pushers (Boris full and split, blocked Boris, Vay, and the radiation-reaction variants) reproduce their published update for any momentum, field and time step: a pure magnetic field never changes the momentum magnitude, reversing the step restores the momentum (without radiation reaction), the Vay pusher keeps the ExB drift velocity, radiation reaction never increases energy in a magnetic field, and stored inverse gamma always matches the momentum. Position pushes advance each coordinate by velocity x dt and touch nothing else.",
 ["inputs"],"All momenta (zero to ultra-relativistic), fields (zero, parallel, crossed, strong), charges, masses and steps of either sign; any particle count and block remainder.",
 "One pusher test compares tile totals on a single plasma; pusher algebra, radiation reaction and the Vay pusher have no test of the equations.",
 [PP+"boris_pusher/boris_3d.F90",PP+"boris_pusher/boris_2d.F90",PP+"vay_pusher/vay_3d.F90",PP+"kin_energy.F90"],
 [("Boris pushers",PP+"boris_pusher/boris_3d.F90"),("Vay pusher",PP+"vay_pusher/vay_3d.F90")],"momenta, inverse gammas and positions after the call")
MX=S+"field_solvers/Maxwell/"
p("F06","FDTD Maxwell updates preserve the discrete Gauss laws",
 "Every finite-difference field push (Yee at order 2, arbitrary order, Cole-Karkkainen, with or without the cleaning term, 2D and 3D, and the library-interface versions) applies the discrete curl of the other field exactly: the discrete divergence of B never changes, the discrete divergence of E changes only by minus dt/eps0 times the divergence of J, and fields uniform in y evolve in 3D as in 2D. Fields outside the pushed index range are left untouched.",
 ["inputs","configurations"],"All field and current contents, grid sizes, spacings, time steps, stencil orders and guard sizes.",
 "The Maxwell test programs are not part of the passing suite; no test checks any field solver.",
 [MX+"yee_solver/yee.F90",MX+"karkkainen_solver/karkkainen.F90",MX+"maxwell_solver_manager.F90",S+"init_external.F90"],
 [("field pushes",MX+"yee_solver/yee.F90"),("CKC pushes",MX+"karkkainen_solver/karkkainen.F90")],"field arrays after the call","field arrays")
p("F07","Finite-difference stencils are exact to their stated order",
 "The stencil coefficients used by the field solvers and by the modified wavenumbers reproduce the first derivative of every polynomial up to the requested order exactly, staggered or not, and are antisymmetric and independent of the evaluation routine. Cole-Karkkainen coefficients satisfy their consistency relation for any spacing ratio and time step coefficient.",
 ["inputs","configurations"],"All even orders, both grid types, all evaluation points and all spacing ratios.",
 "No test touches the stencil generation; a coefficient slip changes dispersion, not any tested value.",
 [S+"submain.F90",MX+"karkkainen_solver/karkkainen.F90",MX+"GPSTD_solver/init_kspace_3D.F90"],
 [("weights",S+"submain.F90")],"coefficient arrays")
BC=S+"boundary_conditions/"
p("F08","Guard-cell exchange and source reduction are exact on the global grid",
 "After a field boundary call every guard cell of every subdomain holds the value of the periodic global grid point it shadows; after a current or charge boundary call every physical point holds the sum of all contributions deposited on its shadows, once each. This holds for blocking, non-blocking and persistent communication, for every rank topology, and for any process grid, grid size and guard sizes (fields and sources may have different ones) as long as each subdomain has more cells than guards.",
 ["inputs","configurations","schedules"],"All field contents, grid sizes, process grids (1 to 8 ranks), guard widths, communication variants, 2D and 3D, message arrival orders.",
 "No test exercises field boundaries; the one MPI test moves particles on a fixed 4-rank grid.",
 [BC+"field_boundaries.F90",S+"parallelization/mpi/mpi_derived_types.F90"],
 [("exchange",BC+"field_boundaries.F90"),("summation",BC+"field_boundaries.F90")],"field arrays per rank after the call","field arrays")
p("F09","Particle boundaries and migration never lose, duplicate or alter particles",
 "With periodic boundaries, moving particles between tiles and processes conserves the multiset of particle records (position modulo the box, momentum, weight, every attribute and inverse gamma), and afterwards each particle is stored in the tile and process whose region contains it. Absorbing, reflecting and reinjecting sides act only on particles beyond that side: absorption removes exactly those particles, reflection returns the particle inside the box and reverses exactly its normal momentum, reinjection returns it inside the grid at rest.",
 ["inputs","configurations","histories"],"All particle sets and displacements below a subdomain, 2D and 3D, tile counts, process grids, communication variants, boundary types per face, and repeated calls.",
 "The single MPI test checks particle totals on one configuration with one communication variant.",
 [BC+"particle_boundaries.F90"],[("tile migration",BC+"particle_boundaries.F90"),("MPI migration",BC+"particle_boundaries.F90")],"particle records per tile and rank","particle tile arrays")
p("F10","Simulation results do not depend on tiling or vector lengths",
 "Running the same particle-in-cell simulation with any number of tiles per axis, any vector block length and any particle sorting setting gives the same fields, currents and particle trajectories up to floating-point rounding.",
 ["configurations","histories"],"All decks (2D/3D, orders, species) x tile counts x vector lengths x sorting parameters over several steps.",
 "Tile tests check summed quantities for one tiling at a time, a single step, one plasma.",
 [S+"parallelization/tiling/tiling.F90",DEP+"current_deposition/current_deposition_manager_3d.F90",DEP+"current_deposition/current_deposition_manager_2d.F90",FG+"field_gathering_manager_3d.F90",PP+"particle_pusher_manager_3d.F90",PP+"particle_pusher_manager_2d.F90"],
 [("tile loops","managers listed")],"fields and particles after each step")
p("F11","Simulation results do not depend on the process decomposition",
 "Running the same simulation on any process grid, process topology and communication variant gives the same global fields, currents and particles as on one process, up to floating-point rounding, for the finite-difference solver.",
 ["configurations","histories","schedules"],"All decks x process grids up to 8 ranks x topologies x communication variants over several steps.",
 "No test compares decompositions; the only multi-process test counts particles.",
 [S+"parallelization/mpi/mpi_routines.F90",BC+"field_boundaries.F90",BC+"particle_boundaries.F90"],
 [("Cartesian decomposition",S+"parallelization/mpi/mpi_routines.F90")],"assembled global fields and particles after each step")
p("F12","Interchangeable algorithm choices give the same physics",
 "All settings documented as alternative implementations of one algorithm (direct deposition variants, charge-conserving variants, charge deposition variants, gather variants, fused or separate gather and push, particle communication variants) give the same simulation to rounding; fused gather-and-push equals gather followed by push.",
 ["configurations","histories"],"All decks x values of each algorithm selector, orders 1-3, 2D/3D.",
 "Tests run each manager variant on one plasma for one step and print sums; they do not cover the fused pushers, the 2D variants or their interaction.",
 [S+"submain.F90",PP+"particle_pusher_manager_3d.F90",PP+"particle_pusher_manager_2d.F90",DEP+"current_deposition/current_deposition_manager_3d.F90",DEP+"current_deposition/current_deposition_manager_2d.F90",DEP+"charge_deposition/charge_deposition_manager.F90"],
 [("selectors","managers listed")],"fields and particles after each step")
p("F13","Thread count does not change the result",
 "Compiled with OpenMP, the same simulation on one or several threads gives the same fields, currents, diagnostics and particles up to floating-point rounding, for every parallel deposition, gathering, pushing, boundary and solver loop.",
 ["schedules","configurations"],"All decks x thread counts x tile counts.",
 "Every test runs with one thread and the tested build has OpenMP off.",
 [DEP+"current_deposition/current_deposition_manager_3d.F90",DEP+"charge_deposition/charge_deposition_manager.F90",PP+"particle_pusher_manager_3d.F90",BC+"particle_boundaries.F90"],
 [("OpenMP regions","managers listed")],"fields and particles after each step")
p("F14","Particle sorting is a complete, consistent reordering",
 "Sorting a tile permutes whole particle records: position, momentum, inverse gamma and all user attributes of a particle move together, no record is lost, duplicated or changed, and afterwards records appear in non-decreasing cell-bin order for the requested bin size and shift.",
 ["inputs","configurations"],"All particle sets, bin sizes, shifts, tile extents.",
 "No test calls the sorting code.",
 [S+"housekeeping/sorting.F90"],[("bin sort",S+"housekeeping/sorting.F90")],"tile particle arrays")
p("F15","Tile particle containers behave like growable record lists",
 "Any sequence of adding, removing and resizing operations on the particle tiles of a species leaves each tile holding exactly the records a simple list model predicts, in every attribute, within its capacity, and operations that act on a species keep its total in step. A particle added by position lands in the tile whose region contains it.",
 ["histories","inputs"],"All sequences of add/remove/resize operations over all tile counts and capacities.",
 "No test exercises container growth or removal.",
 [S+"parallelization/tiling/tiling.F90"],[("add / remove / resize",S+"parallelization/tiling/tiling.F90")],"tile arrays and counters","tile arrays")
p("F16","Load balancing repartitions the domain without losing anything",
 "Cutting an axis by its load gives every process a non-empty interval of cells; the intervals are consecutive and cover the axis, and no process carries more than the mean load plus the heaviest cell. Rank and coordinates of a process, the interval of a rank and the intersection of two boxes are exact, and remapping the field arrays from one decomposition to another preserves every grid value. The projected loads along each axis are the particles and cells, weighted as asked, that lie there.",
 ["inputs","configurations"],"All load profiles, process counts up to the number of cells, axis sizes, particle sets and pairs of partitions.",
 "No test exercises load balancing.",
 [S+"housekeeping/load_balancing.F90"],[("partitioning and remap",S+"housekeeping/load_balancing.F90")],"partition arrays and remapped fields")
p("F17","The pseudo-spectral Maxwell solver advances the fields exactly",
 "One push of the pseudo-spectral solver turns E, B, J, rho and the earlier rho into the exact solution of Maxwell's equations for constant J and linear rho over the time step, mode by mode, with the wave numbers of the requested staggered stencil (any even order, or infinite), on the periodic box that each transform covers: a process's own cells and guards, those of its group, or the whole domain. The result is the same for the matrix and the direct form, for transposed transforms, any number of threads, 2D and 3D; sources stay untouched. In a simulation the sources are those of the particles, and the earlier density is the one of the last step.",
 ["inputs","configurations"],"All grids, stencil orders, guard cells, process splits and transform layouts, and all fields.",
 "No test in the passing suite runs the spectral solver.",
 [MX+"GPSTD_solver/GPSTD.F90",MX+"GPSTD_solver/fourier_psaotd.F90",MX+"GPSTD_solver/init_kspace_3D.F90",MX+"GPSTD_solver/fastfft.F90"],
 [("matrix blocks",MX+"GPSTD_solver/init_kspace_3D.F90"),("transforms",MX+"GPSTD_solver/fourier_psaotd.F90")],"field arrays after a push")
p("F18","The Godfrey filter is a linear, normalised smoothing along one axis",
 "The numerical-Cherenkov filter coefficients follow the tabulated polynomials for any step ratio, and applying the filter equals a symmetric convolution along the propagation axis with a stencil whose coefficients sum to the documented normalisation, leaving constants proportional and other axes unmixed, in 2D and 3D.",
 ["inputs"],"All fields, stencil coefficients, grid sizes and step ratios.",
 "No test touches the filter.",
 [S+"filtering/nci_godfrey_corr.F90"],[("filter",S+"filtering/nci_godfrey_corr.F90")],"filtered arrays")
p("F19","Diagnostics report the quantities they name",
 "Kinetic energies per species, field energies, norms of rho, div E and div E - rho/eps0, divergences of E and B, and particle counts reported at any time, by the routines or in the temporal diagnostic files, equal the same quantities computed from the global fields and particles, whatever the selection of diagnostics, tiling and process decomposition; quantities extracted per particle are those of the particles, and the particles that cross a moving plane are found and their quantities interpolated to it.",
 ["inputs","configurations","histories"],"All field and particle states, decompositions and dimensions.",
 "No test checks a diagnostic value.",
 [S+"diags/diags.F90",S+"ios/simple_io.F90"],[("diagnostics",S+"diags/diags.F90")],"diagnostic values and temporal diagnostic files")
p("F20","Output files hold the global state independently of the decomposition",
 "Each requested field dump contains every physical grid value of the named quantity in global order at the requested iterations only, with the grid limits in its header, each particle dump contains exactly the particles of the species that pass its filter with position, momentum and weight, and the time statistics contain one record per period. This holds for any process decomposition.",
 ["configurations","histories"],"All output selections, frequencies, windows, species filters, formats and process grids.",
 "No test reads an output file.",
 [S+"ios/simple_io.F90"],[("writers",S+"ios/simple_io.F90")],"files in the results directory")
p("F21","Input decks and command line set exactly the named parameters",
 "Each documented parameter of an input deck sets its own variable to the given value whatever the order of entries and sections, comments and blanks, and no entry changes any other parameter; a command-line option overrides the deck and unspecified parameters keep their defaults.",
 ["inputs","configurations"],"All subsets, orders and values of deck entries, number of species, and command-line arguments.",
 "No test parses a deck.",
 [S+"initialization/control_file.F90"],[("section readers",S+"initialization/control_file.F90")],"parameter values after reading")
p("F22","Laser antennas emit the requested pulse",
 "Antenna macro-particles lie on the requested plane within the box, come in pairs of opposite charge and equal weight, and at every step their prescribed displacement follows the analytic space-time profile with the requested direction, polarisation, phase, waist, duration, even envelope order and amplitude, independent of tiling and decomposition. The wave emitted on both sides has the requested amplitude, polarisation and envelope.",
 ["inputs","configurations"],"All antenna positions, directions, polarisations, profiles and times.",
 "No test loads a laser.",
 [PP+"laser_pusher_manager_3d.F90",S+"parallelization/tiling/tiling.F90"],[("antenna",PP+"laser_pusher_manager_3d.F90")],"antenna particle records")
p("F23","Absorbing layers only damp",
 "With absorbing layers on any subset of axes (transforms local to a process), one step advances every split field component by the exact solution of its equation and then multiplies it by the damping of its layer, which is one outside the layer and grows symmetrically towards both edges; the fields are the sums of their split parts. A pulse leaves the box without significant reflection and the field energy never grows.",
 ["inputs","configurations"],"All field contents, currents, layer widths, axis subsets, stencil orders, 2D/3D, process grids, threads.",
 "No test uses absorbing boundaries.",
 [S+"submain.F90",BC+"field_boundaries.F90",MX+"maxwell_solver_manager.F90"],[("layer",S+"submain.F90"),("damping",BC+"field_boundaries.F90")],"split and merged field arrays")
p("F24","Whole simulations conserve charge and satisfy Gauss's law",
 "Over any number of steps of a periodic simulation with charge-conserving deposition, div E - rho/eps0 keeps its initial value at every node, div B stays zero, particle count and total charge are constant, and a cold plasma at rest stays at rest.",
 ["histories","configurations"],"All plasmas, step counts, orders, tilings and process grids.",
 "No test runs the time loop.",
 [S+"submain.F90"],[("time loop",S+"submain.F90")],"fields and particles after each step")
p("F25","Cylindrical kernels agree with Cartesian geometry",
 "Cylindrical deposition puts charge and current of every azimuthal mode on the nodes with the shape of the requested order and the phase of the particle's angle: each mode satisfies the discrete continuity equation in cylindrical coordinates before and after the division by the cell volume and the folding at the axis, which conserve the deposited totals. Gathering interpolates each component at its staggered location, so that a field uniform in Cartesian axes is gathered as that vector at every position. The cylindrical Maxwell pushes apply the discrete curl of every mode, keep div B, change div E only through the current, and treat the axis by the regularity conditions.",
 ["inputs"],"All particle positions incl. near the axis, momenta, numbers of modes, orders, radial shapes, grid spacings and origins, and all fields.",
 "No test covers cylindrical geometry.",
 [DEP+"current_deposition/esirkepov/esirkepov_circ.F90",FG+"energy_conserving/field_gathering_on_circ.F90",FG+"field_gathering_manager_circ.F90",MX+"yee_solver/yee.F90"],
 [("kernels",DEP+"current_deposition/esirkepov/esirkepov_circ.F90")],"mode arrays and particle fields")
p("F27","Whole simulations respect the symmetries of the equations",
 "A periodic simulation transformed by a translation by whole cells, a permutation of the axes, a mirror image, a change of sign of all charges, a change of the unit of length, an exchange of charge and mass against weight, a splitting of macro-particles or a reordering of species and particles gives exactly the transformed fields and particles; a plane problem repeated along the third axis gives in 3D what the 2D program gives.",
 ["inputs","configurations","histories"],"All periodic plasmas, shape orders, solver orders, pushers, deposition and gathering routines, tilings, and compositions of transformations.",
 "No test runs a simulation twice.",
 [S+"submain.F90",DEP+"current_deposition/current_deposition_manager_3d.F90",DEP+"current_deposition/current_deposition_manager_2d.F90",FG+"field_gathering_manager_3d.F90",FG+"field_gathering_manager_2d.F90",PP+"particle_pusher_manager_3d.F90",PP+"particle_pusher_manager_2d.F90"],
 [("time loop",S+"submain.F90")],"fields and particles after the steps")
p("F28","The plasma is loaded where and as the deck asks",
 "At start-up each species fills the cells within its bounds, and only those, with the requested number of macro-particles per cell, whose weights add up to density times volume, at regular places or at random anywhere in the filled cells, with the drift velocity of the species plus a thermal part of zero mean and the matching gamma factor, every particle in the tile and on the process that own its place, independently of the process split and tiling.",
 ["inputs","configurations"],"All grids, bounds (partly or wholly outside the domain), particles per cell, distributions (regular, random, random with given speed), drifts, temperatures, species, process splits and tilings.",
 "Tests load full boxes on one process with one distribution.",
 [S+"parallelization/tiling/tiling.F90",S+"submain.F90"],[("load_particles",S+"parallelization/tiling/tiling.F90")],"particles after initialisation")
p("F29","Valid simulations run to their end without memory errors",
 "Whatever valid combination of dimension, solver, boundaries, species, loading, pushers, algorithm selectors, sorting, antennas, outputs, process split, tiling and threads a deck asks for, the program runs the requested steps without a crash, a hang, an access outside an array or a use of undefined values, and its fields and particles stay finite.",
 ["inputs","configurations","histories"],"All valid combinations of deck options.",
 "Tests exercise about a dozen fixed decks, without memory checking.",
 [S+"submain.F90",S+"initialization/control_file.F90",S+"parallelization/mpi/mpi_routines.F90",S+"housekeeping/load_balancing.F90",S+"parallelization/tiling/tiling.F90",S+"ios/simple_io.F90"],[("step",S+"submain.F90")],"end of the run, memory errors, finiteness of the state")
p("F30","Moving the simulation box shifts coordinates and nothing else",
 "Displacing the box by any vector moves every limit of the domain, of the subdomains and of the tiles by that vector and leaves the fields and the relative motion of the particles inside it unchanged; particles left outside the displaced box are treated by the boundaries of the box at its new place; a repeated or undone displacement gives the state of the total displacement.",
 ["inputs","histories","configurations"],"All displacements, box shapes, boundaries, process splits and tilings; 2D and 3D.",
 "No test moves the box.",
 [S+"boundary_conditions/field_boundaries.F90",S+"boundary_conditions/particle_boundaries.F90"],[("box",S+"boundary_conditions/field_boundaries.F90")],"dumped limits, fields and particles after a displacement")
p("F31","Post-processing readers return what the program wrote",
 "For every field file and temporal diagnostic the program writes, the readers of the repository return the written dimensions, limits, spacings, times and values in the documented order, whatever the grid, dimension, process split and period.",
 ["inputs","configurations"],"All field and temporal-diagnostic files of the binary formats.",
 "No test uses the readers of utils/postprocessing on generated outputs.",
 ["utils/postprocessing/Field.py","utils/postprocessing/PyLoadArrayPicsar.py",S+"ios/simple_io.F90"],[("readers","utils/postprocessing/Field.py")],"values returned by the readers")
p("F26","Lorentz transformations of fields and particles are exact",
 "Boosting fields or particles between the laboratory and a moving frame preserves the invariants E^2-c^2B^2, E.B and the particle mass shell, equals the standard transformation for any boost velocity, and is undone by the opposite boost.",
 ["inputs"],"All fields, particles and boosts along any supported axis.",
 "No test calls the transformations.",
 [S+"diags/diags.F90"],[("transforms",S+"diags/diags.F90")],"transformed arrays")
M=S+"multi_physics/QED/src/"
p("Q01","Quantum parameters match their definition and invariances",
 "The quantum parameters of photons and charged particles equal gamma |(E + v x B)^2 - (v.E)^2|^0.5 over the Schwinger field for any momentum and field, in both unit systems and both precisions, are zero for zero momentum-field coupling, invariant under common rotations and Lorentz boosts, homogeneous in the fields, and never negative or NaN.",
 ["inputs","configurations"],"All finite momenta and fields (parallel, crossed, zero, tiny, huge), units, precisions.",
 "Tests compare a few fixed vectors with stored values.",
 [M+"chi_functions.hpp",M+"vec_functions.hpp"],[("chi",M+"chi_functions.hpp")],"return values")
p("Q02","Pair-production optical depth and rates follow the tabulated theory",
 "For photons, the computed pair-production rate equals the theoretical rate (to 2e-6 in double precision below chi=150, 4e-4 above, and to 1 % in single precision, for chi above 0.01); tables hold its logarithm on logarithmic nodes; the looked-up rate interpolates the table inside its range and uses the low-chi and high-chi asymptotic forms of the theory outside; the optical depth decreases by rate x time, is left alone below the minimum chi or the pair threshold, and an event is flagged exactly when it becomes negative, with the fraction of the step at which it crossed zero. Initial optical depths are the exponential images of the random source.",
 ["inputs","histories","configurations"],"All momenta, fields, time steps, tables, units and precisions.",
 "The engine tests of this part do not compile in the tested build.",
 [M+"breit_wheeler_engine.hpp"],[("rates and depth",M+"breit_wheeler_engine.hpp")],"return values, optical depth")
p("Q03","Pair generation conserves energy and shares it by the tabulated law",
 "Every generated electron-positron set has the parent's direction, member weights equal to the parent weight over the sampling, and electron plus positron energies equal to the photon energy; energies follow the cumulative distribution of the table at the drawn random number and electron and positron are exchanged by the random number's half. Momenta are finite and real for every photon above threshold with a positive quantum parameter; the computed cumulative tables follow the published pair spectrum.",
 ["inputs"],"All photon momenta above threshold, fields, random draws, samplings, units and precisions.",
 "The engine tests of this part do not compile in the tested build.",
 [M+"breit_wheeler_engine.hpp"],[("pair generation",M+"breit_wheeler_engine.hpp")],"generated momenta and weights")
p("Q04","Photon emission rates and optical depth follow the tabulated theory",
 "For electrons and positrons, the computed emission rate equals the theoretical synchrotron rate (to 1e-8 in double, 5e-3 in single precision, for chi above 1e-4), tables hold its logarithm on logarithmic nodes, the looked-up rate interpolates the table and keeps the end values outside its range, is zero for a vanishing quantum parameter, and the optical depth decreases by rate x time, is left alone below the minimum chi, and an event is flagged exactly when it becomes negative, with the fraction of the step at which it crossed zero.",
 ["inputs","histories","configurations"],"All momenta, fields, steps, tables, units and precisions.",
 "Engine tests check few stored values.",
 [M+"quantum_sync_engine.hpp"],[("rates and depth",M+"quantum_sync_engine.hpp")],"return values, optical depth")
p("Q05","Photon emission conserves momentum and follows the tabulated spectrum",
 "Every emission produces photons along the particle's direction with energy below the particle's kinetic energy, weights equal to the parent weight over the sampling, a photon quantum parameter given by the table at the drawn random number, and a residual particle momentum equal to the initial one minus the photons'. Results are finite for every input with a positive quantum parameter.",
 ["inputs"],"All momenta, fields, random draws, samplings, units and precisions.",
 "Engine tests check few stored values.",
 [M+"quantum_sync_engine.hpp"],[("photon generation",M+"quantum_sync_engine.hpp")],"generated momenta and weights")
p("Q06","Vacuum pair rates follow the Schwinger formula and Poisson counts",
 "The vacuum pair-production rate equals the Schwinger formula in the invariants of the field for any field, is invariant under rotations and parity, zero for fields without an electric invariant, and expected numbers scale with volume and time; drawn pair counts are the Poisson quantile of the random draw (single-pair draws compare it with the probability), weights are one over the cell volume, and positions are uniform in the cell.",
 ["inputs","configurations"],"All fields (parallel, null, magnetic-dominated, tiny), cell sizes, steps, random draws, units and precisions.",
 "Tests compare stored values at a few fields.",
 [M+"schwinger_pair_engine.hpp",M+"utilities.hpp"],[("rate",M+"schwinger_pair_engine.hpp")],"return values and generated pairs")
p("Q07","Lookup tables interpolate their data exactly and stay in bounds",
 "One- and two-dimensional tables return the stored datum at every node and the (bi)linear interpolant between nodes for every in-range coordinate including both ends, equally-spaced and general searches agree, null probabilities (minus infinity) are handled by the equally spaced search along the first coordinate, and no lookup reads outside the stored data.",
 ["inputs"],"All table sizes, coordinates, data and query points including nodes, ends and neighbours by one ulp.",
 "Tests interpolate at a few interior points of one table.",
 [M+"lookup_tables.hpp"],[("interpolation",M+"lookup_tables.hpp")],"return values")
p("Q08","Tables survive saving, loading, exporting and copying unchanged",
 "Tables and engines written to a file and read back, exported to raw parts and rebuilt, or copied, produce bit-identical coordinates, data, parameters and results; a truncated or missing file never yields an initialised table, and an engine that read one behaves as an engine without that table.",
 ["inputs","histories","fault_sequences"],"All tables and parameters, precisions, byte truncations.",
 "One round trip of one table per engine is tested.",
 [M+"lookup_tables.hpp",M+"breit_wheeler_engine.hpp",M+"quantum_sync_engine.hpp"],[("persistence",M+"lookup_tables.hpp")],"files and reloaded tables")
p("Q09","Vectors and arrays have value semantics and stay in bounds",
 "The containers behave like the standard vector and array under every sequence of construction, copy, move, assignment (including to itself), element access, iteration and raw views: copies are deep and independent, moved-from and destroyed containers free their storage once, views on foreign storage never free it, and the first and last elements are the ones named.",
 ["histories","inputs"],"All operation sequences and sizes.",
 "Unit tests call each constructor once and never assign to self or read the last element through the mutable path.",
 [M+"picsar_vector.hpp",M+"picsar_array.hpp"],[("vector",M+"picsar_vector.hpp")],"contents, memory-safety monitor")
p("Q10","Numeric utilities are accurate over their whole domain",
 "Linear, logarithmic and log-linear-log ranges start and end at the requested values, are strictly increasing and spaced as named, searches return the first element above the value, Poisson draws are the exact quantile for the given uniform number, root finding, quadrature and Bessel functions agree with high-precision references to stated accuracy, vector algebra obeys its identities, and random sources are reproducible and distributed as named.",
 ["inputs"],"All bounds, sizes, probabilities, integrands, orders and vectors.",
 "Tests use a few fixed values.",
 [M+"utilities.hpp",M+"quadrature.hpp",M+"special_functions.hpp",M+"vec_functions.hpp",M+"rng_wrapper.hpp"],[("utilities",M+"utilities.hpp")],"return values")
p("Q11","Unit systems and precisions describe the same physics",
 "Every quantity computed by the quantum modules (quantum parameters, rates, optical depths, generated momenta, pair counts) is the same physical value in SI and in normalised units for any normalisation length, and single precision agrees with double precision to single-precision accuracy.",
 ["inputs","configurations"],"All inputs x unit systems x normalisation lengths x precisions, including lengths changed after construction.",
 "Tests check each configuration against its own stored numbers for one length.",
 [M+"breit_wheeler_engine.hpp",M+"quantum_sync_engine.hpp",M+"schwinger_pair_engine.hpp",M+"chi_functions.hpp"],[("unit conversion",M+"phys_constants.h")],"return values")
if __name__=="__main__":
    import os
    d=os.path.dirname(os.path.abspath(__file__))
    with open(d+"/properties.jsonl","w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
