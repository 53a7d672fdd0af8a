"""Which machinery decides which property."""
import a_mc, a_units

# (driver, with the scriptable engine, extra flags): what --setup builds
DRIVERS = [("mc", True, ()), ("clockd", True, ("-rdynamic",)), ("rngd", True, ()), ("arith", True, ()), ("index", True, ()), ("estimator", True, ()), ("pool", True, ()), ("interrupt", True, ()), ("dict", True, ()), ("tables", True, ()), ("worker", True, ()), ("crash", True, ()), ("layout", True, ()), ("program", True, ("-rdynamic",)), ("sampling", True, ())]
CHECKS = {}
ABOUT = {}
NOT_APPLICABLE = {}
_T = "TLA+ specification checked by TLC; recordings of the real code validated against it (%s)"


def reg(props, fn, specs, note, level="model_checking"):
    for p in props.split():
        CHECKS[p] = fn
        ABOUT[p] = (_T % specs, level, note)


reg("C01 C02 C03 C04 C05 C06 C08 C20", a_mc.check, "spec/Diagram.tla, DiagramMC.tla, DiagramTrace.tla",
    "All diagrams up to second order over 5 momenta (7 in the thorough tier) are explored exhaustively: every update keeps every invariant and has a partner with the reciprocal factor. Every recorded event of the real Markov chain is judged by TLC against the specification, over seeded runs of 8 "
    "configurations (temperatures, lattices, orders up to 9, with and without insertions, with resets, reloads and annealing); "
    "bounded by the histories the driver generates.")
reg("C18", a_units.streams, "spec/StreamTrace.tla", "Seeded histories of draws, exports, imports and reseeds of the real stream.")
reg("C21", a_units.timers, "spec/Timer.tla, TimerTrace.tla",
    "The design is checked exhaustively on a small clock; seeded histories of the real timers under a driven clock are validated.")
reg("C22", a_units.arith, "spec/Arith.tla, ArithTrace.tla",
    "The laws are checked exhaustively on small Gaussian integers; seeded operations of the real code are validated.")
reg("C17", a_units.index, "spec/Index.tla, IndexTrace.tla",
    "One-to-one, translation-invariant and periodic layout checked exhaustively on small lattices; positions the real maps return validated.")
reg("C11", a_units.estimator, "spec/Estimator.tla, EstimatorTrace.tla",
    "The design is checked exhaustively with a history of 4 entries; seeded histories of operations on the real estimators and bundles, and runs past the history bound, are validated.")
reg("C07", a_units.pool, "spec/Pool.tla, PoolImpl.tla, PoolTrace.tla, DiagramTrace.tla",
    "The pool's implementation scheme is shown to refine its specification exhaustively for a small capacity; seeded histories on the real pool and runs of the real chain under low order limits are validated.")
reg("C15", a_units.interrupt, "spec/Interrupt.tla, InterruptTrace.tla",
    "All sequences of delaying, resuming and signals up to length 6 (and of installing and removing the handler up to 4), on the real handler in a process each.")
reg("C19", a_units.dictionary, "spec/Values.tla, DictTrace.tla",
    "Seeded histories of storing values of 25 C++ types (nested), reading every type from every kind of Python value, updating, saving and loading.")
reg("C10", a_units.tables, "spec/Table.tla, TableTrace.tla",
    "The laws (a bin holds its samples; squeezing and annealing keep every estimate) are checked exhaustively on a small table; seeded histories on the real tables of all four observables are validated bin by bin.")

reg("C09 C12 C14 C16", a_units.worker, "spec/Worker.tla, WorkerTrace.tla, Diagram.tla, Table.tla",
    "The protocol between a worker, its checkpoints and what is published is checked exhaustively on a small worker; seeded histories of real workers "
    "(12 configurations, everything a worker is after every action) are validated.")

reg("C13", a_units.crash, "spec/Save.tla, FileSystem.tla, SaveTrace.tla",
    "The protocol is checked exhaustively for 5 saves with 3 deaths; real saves are traced and killed after every system call and within every write, over earlier checkpoints and the leavings of earlier deaths, and restarted.")

reg("C23 C24 C25", a_units.coordinator, "spec/Coordinator.tla, CoordTrace.tla",
    "The loop is checked exhaustively for 4 versions with 2 deaths; seeded sessions of the real coordinator over statistics of many kinds, with failing, killed and "
    "interrupted saves and restarts, are validated.")

reg("C26", a_units.layout, "spec/Symmetry.tla, Index.tla, LayoutTrace.tla",
    "The compact storage of three-point functions is checked exhaustively on small lattices; seeded round trips between the real coordinator and a real worker are validated position by position.")

reg("C27", a_units.bare, "spec/Lattice.tla, BareTrace.tla",
    "The geometry of all lattices (shells, numbers of neighbours, mutual bonds) is checked exhaustively on small sizes; bare weights the real factory builds over seeded models, sizes and histories of fields are compared entry by entry.")

reg("C28", a_units.observe, "spec/Fourier.tla, Lattice.tla, ObserveTrace.tla",
    "Discrete Fourier transforms (inverse, orthogonality, order of the two transforms) are checked exhaustively on small lattices with exact roots of unity; seeded transforms, structure factors, paths and measurements of the real modules are recomputed by TLC.")

reg("C29", a_units.perturb, "spec/Dyson.tla, Fourier.tla, DysonTrace.tla",
    "That folding functions of half-integer times brings the cosine of half a bin is checked exhaustively on small functions; seeded diagrams and solutions of the real calculator are judged entry by entry.")

reg("C30", a_units.threepoint, "spec/ThreePoint.tla, DysonTrace.tla, ThreePointTrace.tla",
    "Signs beyond the period and the exchange of the ends are checked exhaustively on small functions; seeded vertices dressed by the real functions are judged entry by entry.")

reg("C31", a_units.jobs, "spec/Jobs.tla, JobsTrace.tla",
    "The job manager with ending jobs and requests to stop between any two steps is checked exhaustively (four workers, two processors, two requests), and that it always leaves; the real manager is run on seeded projects with signals at any line.")

reg("C32", a_units.program, "spec/Program.tla, ProgramTrace.tla",
    "The loop is checked exhaustively for small intervals, with a signal between any two steps and a diagram that becomes inconsistent; seeded sessions of the real main() on a driven clock, in 8 configurations, are validated.")
reg("C33", a_units.sampling, "spec/Sampling.tla, SamplingTrace.tla",
    "All diagrams up to third order are enumerated by the specification, with their weights; how often independent runs of the real chain were seen in each kind of them is validated against that census. Statistical: eight standard errors.", "exploration")
