#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

MK = "src/module/markov/markov.cpp"; G3U = "src/module/markov/gamma3_updates.cpp"
DG = "src/module/diagram/diagram.cpp"; DIO = "src/module/diagram/diagram_IO.cpp"; CHK = "src/module/diagram/diagram_check.cpp"
CMP = "src/module/diagram/component.cpp"; BND = "src/module/diagram/component_bundle.cpp"
ENV = "src/environment/envMonteCarlo.cpp"; MON = "src/module/markov/markov_monitor.cpp"
EST = "src/estimator/estimator.cpp"; WE = "src/module/weight/weight_estimator.cpp"
IM = "src/module/weight/index_map.cpp"; CMC = "src/module/weight/component_MC.cpp"; G3 = "src/module/weight/gamma3.cpp"
LAT = "src/lattice/lattice.cpp"; MOM = "src/utility/momentum.cpp"
NOTEST = "The existing tests never run a Monte Carlo update (the Markov, Monitor, Environment and Python-glue code is not even linked); "

prop("C01", "Every reachable diagram is a closed, correctly wired Feynman diagram",
 "After any sequence of Monte Carlo updates from any valid start, a diagram of order N>0 has exactly 2N vertices, 2N propagators and N interaction lines; every vertex has one incoming propagator, one outgoing propagator and one interaction end, and every line and vertex that point at each other agree about it and about the line's direction. Every vertex sits on a site of the lattice, at a time within the period.",
 ["histories"], "all update sequences, both worm and physical sectors, all orders up to the configured maximum, with and without three-point insertions",
 NOTEST + "wiring mistakes appear only for particular degenerate neighbourhoods (adjacent worm ends, shared interaction line, re-used components).",
 [MK, G3U, BND, CHK, DG], [("reconnection of end points in add/delete/reconnect updates", MK), ("component pool add/remove", BND)],
 ["public adjacency of vertices, propagators and interaction lines after each update"])
prop("C02", "Momentum is conserved at every vertex and the diagram stays irreducible",
 "In every reachable diagram the momenta entering and leaving each vertex balance (counting the worm's extra momentum at its two ends), momenta always lie in the representable range and combine modulo its size. No two propagators share a momentum, no two interaction lines share a momentum up to sign, no interaction line has zero momentum, and the occupancy tables used to reject reducible proposals contain exactly the momenta in use.",
 ["histories", "inputs"], "all update sequences and all momentum draws, including wrap-around at the edge of the momentum range",
 NOTEST + "momentum errors need specific direction/sign combinations (4 per update) or wrap-around that a sampled run rarely produces.",
 [MK, DG, MOM, CHK], [("momentum assignment in updates", MK), ("occupancy tables", DG), ("wrap-around arithmetic", MOM)],
 ["momenta and occupancy tables after each update"])
prop("C03", "Worm, measuring-line, delta and spin status is always consistent",
 "In every reachable diagram exactly one line is the measuring line and the diagram's record of which one agrees; exactly the interaction lines touching a live worm end are marked as worm lines, and none when there is no worm. An instantaneous interaction line joins two equal times and is never the measuring line, spin is the same at both ends of every propagator, and at most one line is marked as carrying a three-point insertion, in agreement with the diagram's insertion flag.",
 ["histories"], "all update sequences interleaved with annealing resets and checkpoint reloads",
 NOTEST + "status flags go stale only after particular multi-step histories (e.g. worm deleted, then annealing).",
 [MK, G3U, DG, DIO, CHK], [("status flags set by updates", MK), ("rebuild after reset/load", DG)], ["status flags after each step"])
prop("C04", "Diagram weight, phase and fermion sign equal those recomputed from scratch",
 "At every step each line's stored weight equals the weight its table gives for its end points, times, spins and status; the diagram weight equals the product of line weights times the fermion-loop sign times (-1)^order, the recorded phase is that weight's phase, and the loop sign equals the parity of the number of closed fermion loops.",
 ["histories", "configurations"], "all update sequences, all weight tables, lattices and temperatures, across annealing resets and reloads",
 NOTEST + "incremental weight updates have one branch per neighbourhood shape; errors cancel or hide in sampled averages.",
 [MK, G3U, DG, CMC, IM], [("incremental weight ratio", MK), ("weight lookup", CMC), ("full recomputation on reset", DG)], ["line and diagram weights after each step"])
prop("C05", "An update either applies exactly its documented change or changes nothing",
 "Each Monte Carlo update is offered only in the states where it is legal, and when accepted changes exactly what its definition says (which lines, vertices, momenta, spins, times, sites, flags) and nothing else. When it is rejected or not applicable the configuration is exactly as before; each attempted hop advances the step counter by one.",
 ["histories", "inputs"], "all reachable configurations, all random draws, all 17 enabled basic updates and 4 three-point updates",
 NOTEST + "legality conditions and frame conditions involve rare states (neighbouring worm ends, blocked momenta, order limits).",
 [MK, G3U], [("precondition checks and acceptance block of each update", MK)], ["configuration before and after each update call"])
prop("C06", "Updates satisfy detailed balance",
 "Every update proposes uniformly over its documented choices and accepts with probability min(1, R), where R is the ratio of the target weights of the two configurations (line weights, order, worm-space, polarization and insertion reweighting factors) times the ratio of proposal probabilities. For every update that can be accepted from A to B its partner update can go from B back to A with exactly the reciprocal ratio.",
 ["histories", "inputs", "configurations"], "all pairs of configurations connected by one update, all reweighting factors, temperatures, lattice sizes and orders",
 NOTEST + "a wrong factor (2, order, 1/beta, reweighting index) still yields a running simulation with plausible numbers.",
 [MK, G3U], [("acceptance ratio of each update", MK), ("acceptance ratio of insertion updates", G3U)], ["acceptance threshold of each proposal, measured by replaying the same proposal with different acceptance draws"])
prop("C07", "Order stays within its limits and components are never shared or overrun",
 "The expansion order never exceeds the configured maximum and never becomes negative. The component pool never hands out a component that is in use, never hands out more than its capacity (it refuses instead), gives every live component a distinct name below the live count, and keeps its live components unchanged when others are added or removed.",
 ["histories"], "all sequences of add, remove, recover and look-up on a pool, including full and empty pools, and all update sequences at the order limit",
 "The existing pool test performs one fixed add/remove sequence and checks capacity once; aliasing needs specific removal orders.",
 [BND, MK], [("swap-with-last removal and name bookkeeping", BND), ("order limit check", MK)], ["pool contents after every operation"])
prop("C08", "Three-point insertions come and go only as a matched pair",
 "At most one three-point insertion exists at a time; it is inserted only on a non-measuring, non-instantaneous line of a physical diagram and removed only by the matching removal, which restores the ordinary line. While one is present the measuring line does not move between line kinds, order zero is not entered, its host line is never deleted, and no checkpoint or annealing takes effect.",
 ["histories"], "all update sequences with insertions enabled, interleaved with save and annealing requests",
 NOTEST + "the exclusion spans five source files and shows only when an insertion overlaps a particular other operation.",
 [G3U, MK, ENV], [("insertion flag checks", G3U), ("guards in measure-line and order-0 updates", MK), ("guards in save/anneal", ENV)], ["insertion flag, marked line and external point after each step"])
prop("C09", "Each measurement credits the right observable once, with right sign and factor",
 "A measurement in the worm sector only counts toward the occupancy statistics (of its order and, without an insertion, of the sector of its measuring line) and enters no observable; in the physical sector it adds exactly one sample to the observable selected by the measuring line and insertion (self-energy, polarization, or the three-point functions) at the bin given by the relative position, time and spins of that line's ends, with the configuration's phase divided by its reweighting factors and the sign convention of that observable. At order zero it adds only normalization; every measured physical diagram also counts once in its order's and, above order zero, in its sector's occupancy statistics.",
 ["histories", "inputs"], "all configurations reachable by the sampler, all reweighting factors",
 NOTEST + "nothing measures a diagram; a swapped end or missing factor yields wrong physics silently.",
 [MON, WE, CMC, G3], [("sector dispatch", MON), ("bin index", CMC), ("accumulation", WE)], ["contents of all statistics tables before and after one measurement"])
prop("C10", "Observable tables accumulate, normalize, squeeze and rescale linearly",
 "A statistics table holds, for each order and bin, exactly the sum of the samples recorded there, and a normalization equal to the sum of recorded norms; recording touches only its own bin. Squeezing by a factor divides every sum and the normalization by that factor and so leaves every estimate unchanged, clearing zeroes them, and changing the temperature rescales the normalization constant and the accumulated norm by the documented power of the temperature ratio, and so leaves every estimate (sum/norm times constant) unchanged, however many times it is repeated. Exporting a table and importing it, also into one with another number of orders, reproduces the sums of the orders both have. A three-point function that is the same up to conjugation when its two ends are exchanged is kept once for both: a sample and a read at a mirrored pair of times refer to the exchanged ends.",
 ["histories", "inputs"], "all sequences of record, normalize, squeeze, clear, rescale, export and import",
 NOTEST + "table operations are only exercised by tests that are not linked.",
 [WE, "src/module/weight/weight_array.cpp", G3], [("accumulators", WE)], ["exported tables"])
prop("C11", "Scalar estimators report the exact mean and count of their samples",
 "After any sequence of recordings, the estimator's norm and value equal those of the recorded samples, taking a statistics snapshot does not change them, and the stored history stays within its bound while covering the run evenly; the reported error is half the spread of the last two thirds of that history. Clearing, squeezing, exporting and importing preserve or scale these quantities exactly, and named look-up in a bundle returns the estimator of that name.",
 ["histories", "inputs"], "all sequences of recording, snapshots (past the history bound), squeezing, clearing, export and import",
 "The existing estimator test is not linked and uses one fixed sequence.",
 [EST, "src/estimator/estimator.h"], [("accumulator and history compaction", EST)], ["norm, value, estimate, history length"])
prop("C12", "A checkpoint restores the exact simulation state",
 "Saving and loading restores the diagram, parameters, random stream, reweighting factors, step counter and all statistics, so that a resumed run makes exactly the same moves and measurements as one that was never interrupted. A file of the checkpoint that is not there is replaced by what a new job starts with: the input file's parameters and a fresh diagram, or empty statistics. A diagram that carries an insertion is never saved.",
 ["histories", "crash_points"], "a checkpoint taken after any number of steps in any sector, at any order",
 NOTEST + "no test saves or loads a simulation; loss of one field shows only in later evolution.",
 [DIO, ENV, "src/module/parameter/parameter.cpp", MON, WE, EST, "IO.py"], [("field by field export/import", DIO), ("parameter export", "src/module/parameter/parameter.cpp")], ["state of the resumed and the uninterrupted run after further identical steps"])
prop("C13", "A crash while saving never destroys the last good checkpoint",
 "If the process dies at any point during a save, each checkpoint file still holds either its complete previous contents or its complete new contents, and a restart succeeds.",
 ["crash_points", "fault_sequences"], "a kill at every file-system operation during a save, over an existing checkpoint",
 "No test interrupts a save.", [ENV, "IO.py", "src/utility/dictionary.cpp"], [("write to temporary name then rename", "IO.py")], ["checkpoint files after a kill at each file-system call"])
prop("C14", "Annealing messages are adopted atomically, once, and in version order",
 "A worker adopts a published message only if its version is newer than its own, the new weights can be read and no insertion is present; then temperature, version, weights, diagram and statistics all change together, its statistics being squeezed by the message's factor once. Otherwise nothing at all changes; the adopted version therefore never decreases and no message is adopted twice.",
 ["histories", "fault_sequences", "schedules"], "all interleavings of publishing, polling, sampling, saving and restarting, with missing, stale or unreadable message and weight files",
 NOTEST + "the protocol spans two programs communicating by files.",
 [ENV, "src/module/parameter/message.cpp", "src/module/parameter/parameter.cpp", "src/module/weight/weight.cpp"], [("version comparison and failure handling", ENV)], ["worker state before and after polling"])
prop("C15", "Termination requests during a protected section are deferred, never lost",
 "A termination signal that arrives while interruption is delayed does not stop the process inside the protected section; it takes effect exactly when interruption is resumed. Outside protected sections a signal takes effect immediately, a section with no signal resumes silently, and the handler reports correctly whether it is delaying.",
 ["schedules", "histories"], "any sequence of delay, resume and signals of the handled kinds",
 "No test sends a signal.", ["src/utility/abort.cpp", "src/utility/abort.h"], [("delayed handler recording the pending signal", "src/utility/abort.cpp")], ["process fate and delaying flag after each step"])
prop("C16", "Automatic reweighting happens only on enough data and follows its formula",
 "Reweighting factors change only when every order of the physical space and every measuring sector but the self-energy's has accumulated the required number of samples and no sector (the self-energy's and the worm space included) is empty, otherwise all stay as they are; when they change, the new factors are those that make the expected time spent in each sector match the requested ratios, relative to order zero, and stay positive and finite.",
 ["histories", "inputs"], "all sample counts around the threshold, all requested ratios, with and without three-point insertions",
 NOTEST + "no test runs the monitor.", [MON, ENV], [("threshold and formula", MON)], ["factors before and after an adjustment"])
prop("C17", "Space-time bins are a one-to-one, translation-invariant encoding",
 "Distinct combinations of relative position, sublattices, spins and time bin get distinct in-range table positions, in the documented layout, and the position depends on the two sites only through their displacement on the periodic lattice. A time difference and the same difference shifted by one period fall into the same bin, with the documented sign, and index-to-value conversions invert value-to-index conversions.",
 ["inputs", "configurations"], "all site pairs, spins and times on all small lattices, sublattice counts and bin counts",
 "The existing lattice test checks vector operators only.",
 [IM, LAT, "src/lattice/lattice.h", "src/utility/vector.h"], [("row-major index computation", IM), ("periodic displacement", LAT)], ["returned indices"])
prop("C18", "Random streams are reproducible and stay in range",
 "Exporting a generator's state and importing it, into the same or another generator, continues exactly the same stream; equal seeds give equal streams. Uniform reals lie in [0,1) and integer draws lie in the requested closed interval and can reach every value in it.",
 ["inputs", "histories"], "all seeds, save points, and interval bounds including negative and single-valued ones",
 "The existing test samples one seed, a few intervals and one save point.",
 ["src/utility/rng.h", "src/utility/rng.cpp", "src/utility/pyglue/type_cast.cpp"], [("raw 32-bit to interval mapping", "src/utility/rng.h"), ("state stream operators", "src/utility/rng.cpp")], ["values drawn for given raw generator outputs"])
prop("C19", "Values survive the trip through the scripting layer unchanged",
 "Any value stored in a dictionary - integers, reals, complex numbers, strings, booleans, lists, maps, arrays, sites, momenta, spins, generator states, nested dictionaries - is read back equal, including after writing to and reading from a file. Reading with a missing key or an incompatible type is reported as an error and leaves the dictionary unchanged.",
 ["inputs"], "all supported value types, nesting and boundary values",
 "The dictionary test needs Python 2 and is not built.",
 ["src/utility/dictionary.cpp", "src/utility/dictionary.h", "src/utility/pyglue/type_cast.cpp", "src/utility/pyglue/type_cast.h", "src/utility/pyglue/pyarraywrapper.cpp", "IO.py"], [("overloaded conversions", "src/utility/pyglue/type_cast.cpp")], ["value read back"])
prop("C20", "The built-in consistency check accepts exactly the valid diagrams",
 "The diagram self-check passes on every valid configuration of order at least one, and fails on every configuration in which wiring, measuring-line or worm status, an instantaneous line's times, momentum balance, propagator spin, or a stored weight has been made inconsistent.",
 ["inputs", "histories"], "every reachable configuration and every single-field corruption of it",
 "No test runs the self-check on a non-trivial diagram.",
 [CHK], [("five partial checks", CHK)], ["result of the self-check on original and corrupted diagrams"])
prop("C21", "Periodic timers fire once per interval and never early",
 "A running timer's check succeeds when, and only when, at least the requested number of seconds has passed since it was started or last fired, and firing restarts the interval; elapsed time keeps counting across stop and restart as documented.",
 ["schedules", "histories"], "all sequences of start, stop, restart and check at arbitrary clock readings",
 "The timer test only prints.", ["src/utility/timer.cpp", "src/utility/timer.h"], [("interval comparison", "src/utility/timer.cpp")], ["result of check under a controlled clock"])
prop("C22", "Momentum and complex arithmetic obey their algebra",
 "Momentum addition, subtraction and scaling by a sign always give the representative, in the symmetric range, of the true result modulo the range size. Complex sums, differences, products, quotients, conjugation, modulus, phase, roots, powers and mixed real/complex operations agree with complex arithmetic.",
 ["inputs"], "all operand pairs on a small grid and at range edges, all operator overloads",
 "No test covers these operators.", [MOM, "src/utility/complex.cpp", "src/utility/complex.h"], [("operators", MOM), ("operators", "src/utility/complex.cpp")], ["operator results"])
COL, MAIN, DW = "dyson/collect.py", "dyson/main.py", "dyson/weight.py"
prop("C23", "Workers' statistics are merged whole or not at all, and only if enough",
 "In every round of the coordinator, each worker's statistics file is merged completely or not at all: files that are unreadable, incomplete, normalized differently or of another shape are left out, and files still being written (name starting with an underscore) are not looked at. The round goes on only if at least three quarters of the files were merged; then each estimate is the sum of the merged histograms over the accepted orders, times the norm, divided by the summed normalization. Orders are accepted from the lowest one up, until the first that is neither smooth enough (one without any samples is not) nor was accepted before; accepted orders are remembered, and a round with no accepted order or no samples fails. The same holds for the three-point statistics, where they are collected. A total saved on request (main.py -c) holds the sum of what was merged, with its norm and orders.",
 ["inputs", "histories"], "any set of statistics files - of any number, missing, damaged, short, of other norms or orders, noisy, empty - in any listing order, over any number of rounds",
 "No test runs the Python half, and none could sample the combinations of damaged files that leave a merge half done.",
 [COL, MAIN], [("merging and acceptance", COL), ("collecting in a round", MAIN)], ["published estimates and accepted orders, given what the files hold"])
prop("C24", "Weights, parameters and message are published whole, in order, and backed",
 "The coordinator puts each of weight file, parameter file and message in place complete and in one step, and announces a version to the workers only after the weights and the parameters of that version are in place: if either could not be saved nothing is announced. Announced versions only ever increase, across failures, deaths and restarts; a restart does start, and goes on from the saved parameters, the published propagator and three-point vertex; the propagator and the interactions published solve Dyson's equations with the self-energies and polarization published beside them, and the susceptibility is theirs with the zeroth order added once; where the sum rule is asked for, the polarization is scaled until the susceptibility at the origin is 3/4 to one part in a thousand; a failed round publishes nothing, and a successful one all three (complete, finite, with the round's version, temperature and the factor 1+3/(version+1)). A request to stop that arrives while saving takes effect after the weights and the parameters are saved. Whatever kills the coordinator, the three files are as last put in place.",
 ["crash_points", "fault_sequences", "histories"], "a death, failing call or signal at any operation on a file, in any round, with restarts",
 "No test runs the coordinator, let alone kills it.",
 [MAIN, "dyson/parameter.py", "dyson/logger.py", "IO.py"], [("Measure and broadcast", MAIN), ("write to a temporary name, then rename", "IO.py")], ["contents of the three files whenever one of them changes, and what a restart computes first"])
prop("C25", "Running averages hold exactly the rounds that succeeded",
 "The instantaneous self-energy and the polarization the coordinator publishes (and the self-energy, when it does without workers) are the averages over the rounds of its life that succeeded, weighted by version/(version+10): a round that fails - too few statistics, no accepted order, a denominator that touches zero - leaves averages, propagator, interaction and the three-point vertex as they were before it, however many rounds fail and whatever follows. The annealing field takes one interval per successful round while it is not zero; when the denominator touches zero the interval is halved and the last half of it undone.",
 ["histories", "fault_sequences"], "all sequences of successful and failing rounds, the failures coming before, between and after the merges",
 "No test runs two rounds, and wrong averages look like noise.",
 [DW, MAIN, "dyson/model.py"], [("Merge and RollBack", DW), ("failure of a round", MAIN), ("DecreaseField and RevertField", "dyson/model.py")], ["published averages and parameters over a history of rounds"])
prop("C26", "Workers and coordinator mean the same position by the same index",
 "Every weight the coordinator publishes - propagator, smooth and instantaneous interaction, three-point functions - is read by the workers at exactly the spins, sublattices, displacement and times the coordinator meant it for, with the sign its periodicity in time demands; and every sample a worker records, of any observable, comes back to the coordinator at exactly the position it was measured at. The coordinator's own maps between cells, sites, spins, times and positions are one-to-one, complete and inverse to each other on lattices of one to three dimensions. Keeping three-point functions once per class of arguments that lattice and exchange symmetry make equivalent loses nothing: unpacking gives the function that was packed, and a sample is spread evenly, with its conjugation and sign, over the arguments it stands for.",
 ["inputs"], "all positions in all tables, on lattices of any size, number of sublattices and time bins, with any lattice symmetry",
 "The tests of the two halves never meet, and each samples a handful of positions.",
 [DW, "dyson/gamma3_calc.py", MAIN, COL, "src/module/weight/index_map.cpp", G3], [("IndexMap", DW), ("SymmetryMapping, CompressGammaW, UnCompressGammaW", "dyson/gamma3_calc.py"), ("GetIndex", "src/module/weight/index_map.cpp"), ("Weight and Measure", G3)], ["weights a worker reads, statistics the coordinator collects"])
MOD, LATP = "dyson/model.py", "dyson/lattice.py"
prop("C27", "The bare propagator and interaction are those of the model asked for",
 "For every lattice and spin model offered (Heisenberg and J1-J2 on all lattices, Kitaev on the honeycomb) and every size of at least two cells a side, the bare interaction joins exactly the pairs of sites that the geometry of the lattice - where the lattice module says the sites are - makes nearest (J1) and next nearest (J2; J3 where the lattice has one) neighbours, once for each periodic image that is one, with exactly the coupling given and the spin operator of the model; it is the same seen from either site, and zero elsewhere. The bare propagator is local and diagonal in spin, exponential in time with the imaginary chemical potential that leaves one spin per site and the present field of its sublattice, the two spins being mirror images in time. Building again gives the same again; the field that is annealed away moves by exactly its interval when decreased, and back by half of it, with the interval halved, when reverted.",
 ["inputs", "histories"], "all lattices and sizes, couplings, temperatures, fields, and sequences of building and changing the field",
 NOTEST + "the coordinator has no tests, and a lost or misplaced bond only shows as slightly different physics.",
 [MOD, LATP], [("lists of neighbours and __SpinModel", MOD), ("unit vectors and sublattices", LATP)], ["bare weights built, positions of sites"])
prop("C28", "Transforms and reported observables are what their names say",
 "A weight transformed between real space and momentum, and between time and frequency (with the half-integer shift of a fermion's frequencies), is the Fourier sum over its cells and bins in any order of transforms, transforming twice to the same domain changes nothing, and the way back returns what was there. The momenta of a lattice pair with its unit vectors as integer multiples of 2 pi over its sides, a structure factor sums all pairs of sublattices with the sites where the lattice module says they are, and a path through the Brillouin zone has exactly the lattice's momenta that lie on it. Each measurement the coordinator reports is the quantity its name says: static uniform and staggered susceptibilities (and their densities) from zero frequency, energy from the nearest neighbours at equal time, the sum rule at one site, magnetization and density of each sublattice from the propagator just before the end of the period; it is added to what was measured before, and measuring leaves what is measured as it was.",
 ["inputs", "histories"], "all lattices, sizes, numbers of bins, contents, sequences of transforms, and sequences of measurements, saving and loading",
 NOTEST + "the coordinator has no tests, and a wrong phase or index gives plausible numbers.",
 ["dyson/weight.py", LATP, "dyson/measure.py"], [("Weight.FFT and its phase factors", "dyson/weight.py"), ("reciprocal vectors, FourierTransformation, GetKVecAlongPath", LATP), ("Observable.Measure", "dyson/measure.py")], ["transformed arrays, momenta, the saved history of observables"])
CAL, G3C = "dyson/calculator.py", "dyson/gamma3_calc.py"
prop("C29", "First-order diagrams and Dyson equations are solved as written",
 "The self energy of first order is minus the propagator times the interaction with exchanged spins, at every displacement and time; the instantaneous one is the exchange at equal times (extrapolated from the last two bins) plus the field of all sites on the same site; the polarization of first order is minus the product of the propagators both ways. The propagator solves G = G0 + G0 (Sigma + instantaneous Sigma) G, and the interaction W = J P J + J P W, at every momentum and frequency, with the measure of time and the cosine of half a bin wherever two smooth functions are folded; the correlations of all orders are C = -(P + P J P + ...), the same from either side, with the product of means added; the correlation of Sz is the signed sum of its four spin components, over four. The determinant reported is that of the denominator; the solution is refused if it is negative, and only then. Nothing changes the content of what it is given, whatever domain it comes in.",
 ["inputs"], "all sizes, numbers of sublattices and bins, temperatures, propagators, interactions, self energies and polarizations",
 NOTEST + "the coordinator has no tests, and a wrong factor or index gives plausible numbers.",
 [CAL, "dyson/weight.py", "dyson/solver/lu_slow.py"], [("SigmaSmoothT_FirstOrder, SigmaDeltaT_FirstOrder, Polar_FirstOrder, G_Dyson, W_Dyson, Calculate_Denorminator, Add_ChiTensor_ZerothOrder, Calculate_Chi, Check_Denorminator", CAL), ("LUFactor, LUSolve", "dyson/weight.py")], ["results of the calculator's functions"])
prop("C30", "Three-point vertices are dressed exactly as their diagrams say",
 "On one sublattice, the bare three-point vertex is the product of two local propagators of spin up from the point to the ends; dressing a vertex with an interaction between its ends, with propagators at both ends (folded over both times with their measure), closing it to the vertex of two interactions (both ways around, for ends of equal and of flipped spin), dressing that one with two interactions (the instantaneous one included, folded over displacements and times, whether it comes compressed or not), and opening it again, are each the sum over spins, cells and times that the diagram stands for, with minus signs for a propagator beyond its period and the fermion loop, and functions known in the middle of bins taken at their ends as means. The correlation from a vertex with its ends together solves the same equation as the polarization. Spin, displacement and time arguments keep their places.",
 ["inputs"], "all sizes, numbers of bins, temperatures, propagators, interactions and vertices",
 NOTEST + "the coordinator has no tests, and a transposed argument or lost sign gives plausible numbers.",
 [G3C], [("SimpleGG, AddW_To_GGGammaG, AddTwoG_To_GammaG, AddG_To_GGGammaG, AddTwoW_To_GammaW, AddG_To_WWGammaW, FullGGGammaG", G3C)], ["results of the functions"])
JM, JC = "job_manager.py", "job_class.py"
prop("C31", "The job manager starts every job once, within the processors, and stops all",
 "For whatever project is asked for, every job to be run is started exactly once, with a program, a directory and a complete input file of its own: the coordinator first, workers with distinct numbers (those of existing statistics, the smallest first, if there are any, which are then loaded; from zero otherwise), distinct seeds, timers within a fifth of those asked for, and otherwise exactly the parameters asked for; all exchange data through the same files. Locally, no more simulations run at once than there are processors; on a cluster each is put into the queue so that it runs the same way and is noted in the list by which killthemall.py stops all jobs of the list (or range), each once. Jobs not to be run get their input file only. A project with fewer order weights than orders, or without a program, starts nothing. The manager leaves only when all it started have ended. After a request to stop, at whatever moment and even repeated, no further job is started, all running ones are told to end and waited for; nobody else is told to end.",
 ["schedules", "histories", "inputs"], "all projects, leftovers in the directory, times at which jobs end, and moments at which requests to stop arrive",
 NOTEST + "the job manager has no tests.",
 [JM, JC, "killthemall.py"], [("construct_job_queue, submit_job, check_status, StopTheWorld, main loop", JM), ("get_current_PID, JobMonteCarlo, JobDyson", JC), ("delete, terminate", "killthemall.py")], ["processes started, signalled and waited for; input files"])
prop("C32", "A run does what is due, when it is due, and ends when asked",
 "A run starts from the checkpoint if asked to load and from the input otherwise, adopts a newer message first, makes Toss times Sweep hops without measuring, and from then on measures once after every Sweep hops. At every hundredth measurement it does exactly what is due by the run's timers, each with its own interval since it was last done: the self-check (a run whose diagram has become inconsistent ends there), the checkpoint (holding the state of that moment in both files; none while an insertion is present), the look for a message, and the reweighting; several due at once are all done. A termination request ends it at once with the signal's number, or, in the middle of a checkpoint, as soon as both files are complete, with nothing else written. It is started by the path of an input file or by a PID, and anything else is refused without touching a checkpoint.",
 ["schedules", "histories", "fault_sequences"], "all intervals, clocks, checkpoints and messages found, moments at which signals arrive",
 NOTEST + "no test runs main().",
 ["src/main.cpp", "src/environment/envMonteCarlo.cpp", "src/utility/timer.cpp"], [("main, MonteCarlo", "src/main.cpp"), ("InterruptHandler", "src/utility/abort.cpp"), ("Job", "src/job/job.cpp")], ["hops and measurements counted, version, factors, files and exit status at every look at the clock"])
prop("C33", "The chain visits every kind of diagram in proportion to its weight",
 "Left to itself, the chain is found in a physical diagram (no worm) as often as the diagram weighs: in proportion to the modulus of its weight, the reweighting of its order, of the measuring sector and of its insertion, and the volume of its free times, a line and its reverse counting once. Every irreducible diagram up to the highest order is found, with every choice of measuring line, instantaneous lines, spins that every interaction conserves, sites and insertion; nothing reducible or non-conserving is ever found, and independent runs agree. At order 0 the weight is the number of sites, for each measuring line of the diagram that was left.",
 ["inputs", "histories", "configurations"], "all weight tables, reweighting factors, lattices, temperatures and seeds",
 NOTEST + "the tests run a few hundred updates and look at no frequency.",
 ["src/module/markov/markov.cpp", "src/module/markov/gamma3_updates.cpp", "src/module/diagram/diagram.cpp", "src/module/weight"], [("Markov::Hop and the updates", "src/module/markov/markov.cpp"), ("Norm, order 0", "src/module/diagram/diagram_IO.cpp")], ["how often physical diagrams of each order, measuring line, number of loops and instantaneous lines, insertion, spin exchange and range are seen"])
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
