"""The properties: text, anchors and, through registry.py, the check of each."""
T, MA, TP, AL, AQ, TD, RS = "include/nuSQuIDS/tools.h", "include/nuSQuIDS/marray.h", "include/nuSQuIDS/ThreadPool.h", "include/nuSQuIDS/aligned_alloc.h", "include/nuSQuIDS/AdaptiveQuad.h", "include/nuSQuIDS/taudecay.h", "include/nuSQuIDS/resources.h"
TC, TDC, RSC = "src/tools.cpp", "src/taudecay.cpp", "src/resources.cpp"
BH, BC, XH, XC, NH, NC = "include/nuSQuIDS/body.h", "src/body.cpp", "include/nuSQuIDS/xsections.h", "src/xsections.cpp", "include/nuSQuIDS/nuSQuIDS.h", "src/nuSQuIDS.cpp"
SOL = "resources/user_contributions/SolarTransitions"
TEXT = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    TEXT.append((d, technique, note))


prop("C01", "Thread pool runs each task exactly once under every interleaving",
     "Every task handed to the thread pool runs exactly once and its result or exception reaches the returned future; destroying the pool first runs every queued task and then ends all workers, with no deadlock, lost wake-up, data race or crash. Submitting to a pool which is shutting down, or a failed thread creation or allocation, is reported by an exception and leaves no task half queued and no worker behind.",
     ["schedules", "fault_sequences"], "all interleavings of workers, submitters and the destroying thread up to a preemption bound, with spurious wake-ups and failing thread creations or allocations",
     "no test uses the pool, and one run of a program shows one interleaving",
     [TP], [("enqueue", TP + ": ThreadPool::enqueue"), ("worker loop", TP + ": ThreadPool::ThreadPool"), ("shutdown", TP + ": ThreadPool::~ThreadPool")],
     "stateless model checking of the real code under a controlled scheduler, with happens-before race detection",
     "The compiled header itself is explored; bounds are preemptions and program size. Sequential consistency is assumed for values; weaker orders show up as races.", ["futures returned by enqueue", "pthread operations"])
prop("C02", "Multidimensional array keeps contents and shape through every operation",
     "After any sequence of constructing, copying, moving, swapping, assigning, resizing, reshaping, inserting, erasing, indexing and iterating, a multidimensional array has the extents, elements, iteration order and coordinates of a plain nested array treated the same way. No element is constructed or destroyed twice or left behind, memory is returned to the allocator it came from, and initialisers or shapes which do not fit are refused by an exception.",
     ["histories", "inputs"], "all operation sequences up to a depth over all extents up to a bound, ranks 1 to 4, several element and allocator kinds",
     "no test exercises the array on its own; the rest of the library uses a few shapes and operations of it",
     [MA], [("marray", MA + ": class marray"), ("sub-array access and iterators", MA + ": namespace detail")],
     "explicit-state exploration of operation sequences on the real container against a reference model",
     "Each model sequence is replayed on the real container, with element and allocation tracking.")
prop("C03", "Failed allocation or element copy leaves arrays valid and leak-free",
     "When an allocation or the construction or copying of an element fails inside any operation of a multidimensional array, the exception reaches the caller, nothing is leaked or destroyed twice, and every array involved can still be read, reassigned and destroyed. An operation which needs new storage leaves its target with its old contents or a valid shape of its own.",
     ["fault_sequences"], "every operation, shape up to a bound, and index of the failing allocation or element operation",
     "no test makes an allocation or a copy fail",
     [MA], [("copy, resize and assignment", MA + ": class marray")],
     "exhaustive fault enumeration on the real container", "Every failure index of every operation and shape is executed.")
prop("C04", "Array arithmetic and broadcasting match element-by-element evaluation",
     "Adding, subtracting, multiplying, dividing, comparing or applying a mathematical function to multidimensional arrays and scalars gives the element-by-element result, with arrays of fewer dimensions or unit extents repeated along the missing ones, and summing along a dimension gives the sums along it. Operands keep their values, compound assignment changes only its left side, and shapes which do not fit are refused by an exception.",
     ["inputs"], "all pairs of shapes up to rank 3 and extent 3 (4), all operators and functions, array and scalar operands, sub-arrays included",
     "no test uses array arithmetic; broadcasting has many shape combinations",
     [MA], [("operators", MA + ": operator definitions"), ("functions", MA + ": pow, exp, ... and sum")],
     "exhaustive enumeration of shapes and operators against a reference evaluation", "All combinations in the bounds run on the real templates.")
prop("C05", "Aligned allocator returns aligned, disjoint, fully usable blocks",
     "Every block from the aligned allocator starts on the requested power-of-two boundary, can be written over its whole length without touching any other live block, and is given back to the system exactly once whatever the order of release. A request too large to represent is refused by an exception.",
     ["inputs", "histories"], "all alignments up to 4096, sizes, placements of the underlying memory, and orders of allocating and releasing",
     "no test uses the allocator with more than one alignment, and the system allocator decides the placements",
     [AL], [("allocate/deallocate", AL + ": class aligned_allocator")],
     "explicit-state exploration of allocation histories, with the underlying allocator under control",
     "The memory below the allocator is provided by the harness, at every offset within the alignment.")
prop("C06", "Akima spline passes through its nodes and follows Akima's construction",
     "The one-dimensional spline passes through every node, has Akima's slope at each (following the neighbouring segment on either side where his rule leaves it undetermined), reproduces straight lines, and its derivative is that of its value. Beyond its ends it continues the first and last segments; fewer than three nodes, mismatched lists and nodes which do not increase are refused, and re-initialising an object leaves nothing of its previous data.",
     ["inputs", "histories"], "all ordinates over a small alphabet on several grids of 2 to 7 nodes, evaluated at, between and beyond all nodes",
     "no test evaluates the spline on its own; flat or kinked data select different slope rules",
     [T, TC], [("AkimaSpline::initialize", TC), ("segment evaluation", T + ": class AkimaSpline")],
     "exhaustive enumeration of node data against a reference construction", "Alphabet chosen so every branch of the slope rule is taken in every position.")
prop("C07", "Two- and three-dimensional interpolators follow their cubic construction",
     "The two- and three-dimensional cubic interpolators reproduce their data at every node, agree in and beyond every cell with the tensor cubic built from finite differences (central inside, one-sided at the edges), and depend linearly on the data, with the axes treated alike. Coordinates which do not match the data are refused, and copies, moves and empty interpolators behave as their originals.",
     ["inputs"], "all unit data vectors on grids of 2 to 4 nodes per axis, all evaluation points of a lattice within, on and outside the grid",
     "the existing test samples one smooth function on one grid",
     [T, TC], [("BiCubicInterpolator", TC), ("TriCubicInterpolator", TC)],
     "exhaustive enumeration of basis data and evaluation points against a reference construction", "Linear in the data, so unit vectors decide all data on the grids enumerated.")
prop("C08", "Text tables read back what was written and refuse malformed files",
     "Reading a text table gives the numbers each line starts with, row by row, whatever the white space, with lines which hold none (blank or comment) ignored wherever they are; files which cannot be opened or whose rows differ in length are refused. What was written reads back equal to 15 digits, and a table which cannot be written completely is reported by an exception.",
     ["inputs", "fault_sequences"], "all files of up to 5 (6) lines over numbers, blanks, comments and junk; all small tables over a value alphabet; a disk filling up at every byte",
     "the tests read only the tables shipped with the library",
     [T, TC], [("quickread", TC), ("quickwrite", TC), ("fexists", TC)],
     "exhaustive enumeration of file contents against a reference parser", "All line sequences in the bounds go through the real reader and writer.")
prop("C09", "Arrays and attributes stored in HDF5 read back unchanged",
     "An array of any rank, shape, element type and compression level written to an HDF5 file has that shape and type there and reads back with the same elements, whatever the target array held; numeric and string attributes, empty ones included, read back exactly. Reading a missing name, the wrong rank, or content of another type or shape, or writing over an existing name, is refused by an exception.",
     ["inputs"], "ranks 1 to 5, extents 0 to 40000 around the chunk sizes, 9 stored/element type pairs, compression levels, attribute values and all string lengths up to a bound",
     "the tests store a few arrays of one type through other classes",
     [T, TC], [("writeArrayH5, readArrayH5", T), ("addH5Attribute, readH5Attribute", T + ", " + TC)],
     "exhaustive enumeration of shapes, types and values through the real HDF5 library", "Stored data are also inspected with plain HDF5 calls.")
prop("C10", "HDF5 failures are reported and no handle is leaked",
     "When any HDF5 call made while storing or reading an array or attribute fails, the caller gets an exception rather than a false success, and every handle opened on the way is closed exactly once. Handle wrappers close what they own exactly once through any sequence of moves, and reject invalid handles.",
     ["fault_sequences", "histories"], "each of 12 operations with each HDF5 call failing in turn; all sequences of 4 moves over 3 handle wrappers",
     "no test makes an HDF5 call fail or counts handles",
     [T, TC], [("H5Handle, H5File", T), ("array and attribute I/O", T + ", " + TC)],
     "exhaustive fault enumeration with the HDF5 entry points interposed", "Every call index of every operation fails once.")
prop("C11", "Ranges and matrix helpers compute their defining formulae",
     "Linear and logarithmic ranges have the number of points asked for, start and end exactly at the given ends, and are evenly spaced in value or logarithm in between, with zero points refused. The complex-matrix helpers conjugate entry by entry, print row by row, and turn M into U M U-dagger or U-dagger M U for every U, changing neither U nor storage outside the matrix.",
     ["inputs"], "ends over a wide alphabet with 1 to 4097 points; all small-integer matrices of dimension 1-2, basis pairs up to dimension 5, padded and rectangular storage",
     "the tests only use a few ranges within larger computations",
     [T, TC], [("linspace, logspace", TC), ("gsl_matrix_complex_*", TC)],
     "exhaustive enumeration of arguments against exact arithmetic", "Bilinear, so basis pairs decide each dimension.")
prop("C12", "GSL integration wrapper is accurate, bounded and exception-transparent",
     "Integration through the GSL wrapper is accurate to the requested accuracy, changes sign with the limits, evaluates the integrand only between them, and honours the iteration limit. Exceptions from the integrand reach the caller, and a workspace gives the same results however often it was used before, failed integrals included.",
     ["inputs", "histories"], "45 integrands with known integrals, all pairs of 10 limits, 5 accuracies; all iteration limits and workspace sizes; all sequences of 4 (5) integrals on one workspace; an exception at every evaluation",
     "the existing test computes a handful of integrals once each",
     [T], [("integrate", T), ("IntegrateWorkspace", T)],
     "exhaustive enumeration of integrals and of histories of a workspace", "All sequences in the bounds run on the real wrapper.")
prop("C13", "Adaptive quadrature is accurate, terminates, and reports lost tolerance",
     "Adaptive quadrature of an integrand over finite limits ends, within the requested tolerance when it says so, evaluating only between the limits and each end point once, or not at all when its value was supplied; reversing the limits reverses the sign exactly. Integrands which do not settle or are not finite are flagged as out of tolerance, and limits too close together or tolerances below machine precision are refused.",
     ["inputs", "histories"], "45 integrands, all pairs of 10 limits, 6 tolerances, every set of known end values, both directions; 9 pathological integrands; all sequences of 4 integrals sharing one options object",
     "no test runs the adaptive quadrature",
     [AQ], [("integrate", AQ), ("Interval", AQ), ("Options", AQ)],
     "exhaustive enumeration of integrals, options and histories of an options object", "Margins over the tolerance are those of the error estimate on the enumerated integrands.")
prop("C14", "Tau decay spectra follow the published formulae and tables their indices",
     "The tau decay spectra of each channel and their branching-weighted sum follow the published formulae for every energy fraction, are never negative and normalised to one, and the tabulated spectra hold these formulae for each pair of nodes of the most recent grid, alike for neutrinos and antineutrinos, in inverse GeV. Indices outside the tables are refused, and copies and moves carry the tables.",
     ["inputs", "histories"], "401 energy fractions at 6 energies; all sequences of 3 (4) grids, copies, moves and assignments on one object, all indices",
     "the tests see tau decay only through complete propagations, with one grid",
     [TD, TDC], [("TauDecayTo*", TDC), ("Init", TDC), ("dNd*", TDC)],
     "exhaustive enumeration of energies and of object histories against the formulae", "All histories in the bounds run on the real class.")
prop("C15", "Data directory choice: environment, then install location, then source",
     "The data directory is the value of its environment variable whenever that is set, whatever it holds, otherwise the installed location in an installed library and the source tree's in one used in place. This holds at every query, for every compiler and optimisation level, static or shared.",
     ["configurations", "histories"], "2 compilers, 3 optimisation levels, shared or static, installed or not; all histories of 2 (3) settings of the variable",
     "the tests run one build in one place with one environment",
     [RS, RSC, "configure"], [("getResourcePath", RSC), ("install flag", "configure")],
     "exhaustive enumeration of build configurations and environment histories", "Each configuration is built and, if installed, marked with configure's own expression.")
prop("C16", "Media report the tabulated density and composition at each point of a path",
     "At every position along every path, a medium reports the density and electron fraction which its table or model gives for the radius that position has by geometry: chords and zenith angles through the Earth with or without atmosphere, radii and chords through the Sun, and uniform or tabulated slabs; outside the table the values continue or vanish as documented. Paths report the position, end points and parameters they were made with, however they were made, and reversing a path exchanges its ends and nothing else.",
     ["inputs"], "7 kinds of medium with 4 to 5 tables each, all zenith angles, impact parameters and positions of fine grids including the centre, the surface and every table node",
     "the tests compare complete propagations through one path of each medium",
     [BH, BC], [("density and ye", BC), ("paths", BH), ("EarthAtm::MakeTrack", BC)],
     "exhaustive enumeration of media, paths and positions against geometry in extended precision", "Grids of paths and positions, not every real number; interpolation between nodes uses the library's own spline, which C06 decides.")
prop("C17", "Stored media and paths come back with the same values and leak no handles",
     "A medium and a path stored in a file and restored through the names stored with them are of the same kind and give the same parameters, position, end points, density and composition everywhere, whether the path was reversed or partly travelled; this includes media registered by the user. No file handle is left open, and unknown names are refused.",
     ["inputs", "histories"], "7 kinds of medium and a user's own, all tables of a set, all paths of a grid of start, position and end, forward and reversed",
     "the tests store one or two media, and do not compare the restored path",
     [BH, BC], [("Serialize, Deserialize", BC), ("body and track registry", BC)],
     "exhaustive enumeration of media and paths through the real storage code", "Comparison is exact.")
prop("C18", "Stored cross-section tables come back the same, damaged ones are refused",
     "Cross-section tables read from text or HDF5 files, and stored and read again in either format any number of times, give the same cross sections for every flavour, neutrino type and current to the precision stored, whether flavours share tables or not and whatever the numbers of energies. Sets with a missing, misshapen or mismatched table are refused, and a store or read which fails, down to a single failing HDF5 call or a full disk, is reported and leaves no handle open.",
     ["histories", "inputs", "fault_sequences"], "6 table sets of every sharing pattern, all sequences of 3 (4) reads, stores and copies; every file or data set damaged in every way of a list; every HDF5 call failing; 16 points at which the disk is full",
     "no test stores cross sections, and those which read them need large files not present here",
     [XH, XC], [("ReadText, WriteText", XC), ("ReadHDF, WriteHDF", XC), ("the earlier table class", XC)],
     "explicit-state exploration of sequences of reads and stores with fault enumeration, on the real code", "Tables are small; values are compared at nodes and inside cells.")
prop("C19", "Cross sections match their tables, and averages their mean over the range",
     "Cross sections equal the tables at their nodes and the documented interpolation between, scale linearly in energy below the table, vanish for sterile neutrinos, and are refused above it; averages equal the mean over the range. The resonant cross section follows its published formula above threshold and vanishes below it and for every other flavour, type and current, and a library answers for exactly the targets added to it and refuses to redefine one.",
     ["inputs", "histories"], "30 table sets, every flavour, type and current, nodes and 3 points per cell and energies outside, grids of ranges; 210 energies of the resonance; all sequences of 4 (5) library operations",
     "tests see cross sections only through complete propagations",
     [XH, XC], [("TotalCrossSection, SingleDifferentialCrossSection", XC), ("Average*", XC), ("GlashowResonanceCrossSection", XC), ("CrossSectionLibrary", XH)],
     "exhaustive enumeration of tables, queries and library histories against independent evaluation", "Averages are compared for smooth tables, within the tolerance of the integration (4 per mille).")

prop("C20", "Oscillations follow exact quantum evolution along any sequence of segments",
     "Neutrinos carried through any sequence of path segments, forwards or backwards, in vacuum, uniform or varying matter, have the flavour and mass composition that quantum evolution with the mixing, mass and matter parameters in force gives: for one energy or several, neutrinos, antineutrinos or both, three or more flavours and either solution basis. The shortcut for uniform matter, the positivity constraint and switching the vacuum term on or off between segments change nothing else, and a new initial state forgets everything before it. The reported Hamiltonian, energies between nodes and averaged fast oscillations are consistent with the same evolution.",
     ["inputs", "histories"], "5 modes, 3 to 5 flavours, 4 parameter sets, 2 bases, all initial flavour and mass states, 6 media; all sequences of 2 segments over 26 kinds, of 3 over a part of them, with a restart",
     "the tests which propagate neutrinos need a solver library absent here, and compare one path each with stored numbers",
     [NC, NH], [("EvolveState", NC), ("HI, H0, PreDerive", NC), ("Set_initial_state", NC), ("Eval*", NC)],
     "explicit-state exploration of sequences of segments on the real code against exact evolution of the density matrix", "The solver library is a stand-in; positions and phases are bounded.")

prop("C21", "Absorption, regeneration, resonance and sources obey the transport equation",
     "Along any sequence of segments, the composition follows the transport equation with the cross sections in force: absorption at the rate of the targets the medium holds, neutral-current and tau-decay neutrinos at lower energies, the resonance on electrons and injected neutrinos, each exactly when switched on, with or without oscillations and in either basis. Effects and cross sections can be changed between segments, and a change applies from then on. Cross sections which are missing, fail, or are negative or not finite are refused, and leave the object usable once they are in order.",
     ["inputs", "histories", "fault_sequences"], "3 types, 3 to 5 flavours, 1 to 9 energies, 7 sets of targets and cross sections, all combinations of 4 effects, 5 media; all pairs of combinations in sequence and triples of them; every query of the cross sections failing in 5 ways",
     "the tests with interactions need libraries and tables absent here, and compare one path each with stored numbers",
     [NC, NH], [("UpdateInteractions", NC), ("GammaRho, InteractionsRho", NC), ("GetCrossSections, InitializeInteractions", NC), ("Set_TauRegeneration, Set_GlashowResonance", NC), ("Set_NeutrinoSources, SetNeutrinoCrossSections", NH)],
     "explicit-state exploration of sequences of segments and effects on the real code against direct integration of the transport equation, with fault enumeration", "The solver library is a stand-in; cross sections are closed-form ones given by the harness (C18 and C19 decide the library's own).")

prop("C22", "A stored state is restored exactly and goes on as the original would",
     "A propagation stored in a file at any point of its history and restored, into a fresh object or into one already used for something else, has the same energies, mixing parameters, composition, medium, position, interaction tables and settings. Evolved further it behaves as the original does, over any sequence of segments. Several states share a file under different groups, with or without shared interaction tables, and files of earlier versions are restored with the defaults of their time.",
     ["inputs", "histories"], "3 types, 3 to 5 flavours, 1 to 8 energies and the single-energy mode, both bases, 4 sets of tables, 8 combinations of effects, 4 points of a history, 8 ways of storing, 8 objects restored into, 3 earlier formats",
     "no test stores a state; the object restored into, and what it did before, matters",
     [NC, NH], [("WriteStateHDF5, ReadStateHDF5, ReadStateHDF5Internal", NC), ("SetBodyTrack, init, Set_E", NC), ("SetUpInteractionCache, GetHamiltonian", NC), ("Body and Track registries", BC)],
     "explicit-state exploration of histories with a store and restore at each point on the real code, in lockstep with the original and a reference", "The solver library is a stand-in. Solver tolerances, sources and shortcuts are settings of the run and not part of a state.")
prop("C23", "Storing or restoring a state either succeeds completely or is reported",
     "When any step of storing or restoring a propagation fails, or any part of a file is missing, truncated, of another type or size, or contradicts the rest, an error is raised, no file handles stay open, and nothing is read or written outside the object's own memory. A file or group which already holds something else is not written over unless asked. After a failed restore the object refuses to be used, and restoring a sound file into it works.",
     ["fault_sequences", "inputs"], "12 objects with every kind of medium, 5 places, every HDF5 call failing in turn, every part of every file damaged in up to 9 ways, truncations and full disks",
     "no test makes a call of the storage library fail or reads a damaged file",
     [NC, BC], [("WriteStateHDF5, ReadStateHDF5, ReadStateHDF5Internal", NC), ("Serialize, Deserialize", BC), ("addH5Attribute, readH5Attribute, readArrayH5", "include/nuSQuIDS/tools.h")],
     "exhaustive fault enumeration: every storage call and every part of a file, on the real code", "The solver library is a stand-in; faults are injected at the HDF5 interface and through file size limits.")
prop("C24", "A moved propagation goes on exactly as it would have without the move",
     "A propagation moved, at any point of its history, to a new object or onto one which was used for something else, exchanged with it or held in a container, has all its content and settings and evolves, prints and stores from then on exactly as if it had stayed. What it replaced leaves nothing behind; the place it left refuses to be used until it takes another object, and using it never affects the moved one. Tables of interactions are values: copies, moves and exchanges are complete and independent, and equality compares every member.",
     ["inputs", "histories"], "38 configurations, 11 combinations of effects, 6 points of a history, 14 ways of moving or exchanging, 6 orders of further steps; tables of every number of targets, types and sizes, each member changed in turn",
     "no test moves a propagation, or copies tables",
     [NH, NC], [("nuSQUIDS(nuSQUIDS&&), operator=(nuSQUIDS&&)", NC), ("InteractionStructure, InteractionState", NH)],
     "explicit-state exploration of histories on the real code, the moved object in lockstep with one which stays", "The solver library is a stand-in, whose own moves are complete.")
prop("C25", "Settings take effect in any order, and calls which make no sense are refused",
     "In whatever order and however often the medium, path, energies, parameters, effects and initial state are set, the composition is the one the settings in force give, and reading a setting gives what was last set. A call for a flavour, mass state, neutrino type, energy or node which does not exist, an initial state of another shape, or a step whose preconditions are not set, is refused, and a refused call changes nothing. A change which makes the state meaningless requires a new initial state before it is evolved, evaluated or stored.",
     ["inputs", "histories"], "9 kinds of objects; all sequences of 3 of 23 calls, of 4 of 11, and of 3 more after an evolution, with about 400 further calls tried after each, all of them after the short ones",
     "the order of calls is a history, and the tests follow one order each",
     [NC, NH], [("EvolveState, Set_initial_state, Set_E, Set_Track, Set_Body", NC), ("Eval*", NC), ("Set_MixingAngle, Set_CPPhase, Set_SquareMassDifference", NC), ("Set_TauRegeneration, Set_GlashowResonance, Set_Basis", NC)],
     "explicit-state exploration of all call sequences on the real code in lockstep with a model of what has been set and with exact evolution", "The solver library is a stand-in. With interactions, compositions are only required to be finite (C21 decides their values).")
prop("C26", "An atmospheric calculation equals its zeniths propagated one by one",
     "In whatever order it is configured, evolved, moved, stored and restored, an atmospheric calculation holds for each zenith exactly the state which a propagation along that path alone gives, with every setting passed on to all zeniths, and between zeniths and energies it evaluates to the linear interpolation of the neighbouring states in the interaction picture, averaged if asked. Zeniths, energies, flavours and types it does not have, and initial states of another shape, are refused and change nothing.",
     ["inputs", "histories"], "10 configurations of types, flavours, 1 to 5 zeniths, 1 to 4 energies, with and without interactions; all sequences of 2 of 25 operations before and after a state is given or evolved; all combinations of valid and invalid arguments after each",
     "no test builds an atmospheric calculation",
     [NH], [("nuSQUIDSAtm", NH + ": class nuSQUIDSAtm"), ("EvalFlavor", NH + ": nuSQUIDSAtm::EvalFlavor"), ("MakeTrackWithCosine", BC)],
     "explicit-state exploration of all operation sequences on the real code in lockstep with one real single-path object per zenith, and with the interpolation formula", "The solver library is a stand-in. Single paths are decided by C20 to C25.")
prop("C27", "Zeniths evolved by several threads end as one thread would leave them",
     "Whatever the number of threads and their interleaving, evolving an atmospheric calculation in parallel evolves every zenith exactly once, leaves bitwise the states serial evolution gives, without data races or deadlock, and calculations in threads of their own which share an Earth model and cross sections do not disturb each other. If zeniths fail, a thread cannot be started or memory runs out, the failure is reported after all threads have ended, the settings are as before, and the calculation can be initialised and evolved again.",
     ["schedules", "fault_sequences"], "6 configurations of 1 to 4 zeniths, 1 to 4 threads, every interleaving up to a preemption bound, every subset of failing zeniths, every thread creation and allocation failing in turn, two objects and concurrent readers",
     "no test evolves in parallel, and one run shows one interleaving",
     [NH, TP], [("EvolveState", NH + ": nuSQUIDSAtm::EvolveState"), ("ThreadPool", TP), ("function-local statics and shared caches", NC)],
     "stateless model checking of the real parallel evolution under a controlled scheduler, with happens-before race detection", "Bounds are preemptions and number of threads. Sequential consistency is assumed for values; weaker orders show up as races. The solver library is a stand-in, which holds no shared state.")
prop("C28", "Storing and restoring atmospheric states succeeds completely or is reported",
     "If any part of storing or restoring an atmospheric calculation fails, or a file is truncated, damaged or put together from parts of different calculations, either the failure is reported or nothing was lost: nothing different from what was stored is ever restored silently, no handle is left open, and what else the file held is intact. After a reported failure of reading, the object refuses to evolve, evaluate, store or take initial states until a sound file has been read into it, which is always possible. The calculation being stored never changes.",
     ["fault_sequences", "inputs"], "6 kinds of calculation, 4 ways of storing and several ways of restoring, each HDF5 call failing in turn; every part of every file damaged in 9 ways, truncations, zeniths exchanged with those of other calculations, file systems full at every size, occupied and foreign files",
     "no test stores an atmospheric calculation or fails a call",
     [NH, NC], [("nuSQUIDSAtm::WriteStateHDF5", NH + ": nuSQUIDSAtm::WriteStateHDF5"), ("nuSQUIDSAtm::ReadStateHDF5", NH + ": nuSQUIDSAtm::ReadStateHDF5"), ("Set_initial_state", NH + ": nuSQUIDSAtm::Set_initial_state")],
     "exhaustive fault injection into the real code: every HDF5 call of every way of storing and restoring fails once, and every part of a stored file is damaged", "One fault at a time. The solver library is a stand-in.")
prop("C29", "Physics added by derived classes enters the evolution exactly as written",
     "A class derived from the propagation which adds terms to the Hamiltonian, the absorption or the interactions evolves by the master equation with exactly these terms added, for one energy or several, any neutrino type, either basis and any sequence of segments, and the terms enter the reported Hamiltonian. Before each evaluation it is told, with the medium and projections of that position, and what it adds to a stored state is written once and restored once, for every zenith of an atmospheric calculation too. An addition which fails is reported, and the object can be used again after a new initial state or a sound restore.",
     ["inputs", "histories", "fault_sequences"], "3 types, 3 to 5 flavours, 1 to 4 energies and the single-energy mode, both bases, 7 combinations of added terms with and without interactions, 5 media, sequences of up to 3 segments, 4 ways of restoring, failures of each addition, 1 to 3 zeniths",
     "no test derives a class; the examples only print",
     [NH, NC], [("AddToPreDerive, PreDerive", NC), ("HI, GammaRho, InteractionsRho (virtual)", NC), ("AddToWriteHDF5, AddToReadHDF5", NC), ("nuSQUIDSAtm<BaseSQUIDS>", NH + ": class nuSQUIDSAtm")],
     "explicit-state exploration of configurations, segments and histories of a derived class on the real code against direct integration of the master equation", "The solver library is a stand-in. With the shortcut for uniform matter only the Hamiltonian takes part, as documented.")
prop("C30", "Calls through Python act as the same calls in C++",
     "Every class, function, method, keyword and constant the Python module offers does what the C++ one of that name does: the same result bit for bit, the same effect on the object, the same file, and the same refusal as an exception of the interpreter. Arrays of one to four dimensions and lists cross the boundary in both directions with their shape and every element, whatever their numeric type, byte order, strides or alignment, and those which cannot be converted are refused. No call crashes the interpreter or leaves an error pending.",
     ["inputs", "histories"], "20 numeric types x layouts x shapes up to 4 dimensions both ways; all constructors, bodies, tracks, cross sections, decays and tools; about 100 calls on 5 single objects and 70 on 3 atmospheric ones, alone and in ordered pairs",
     "no test loads the Python module",
     ["resources/python/src/nuSQUIDSpy.h", "resources/python/src/nuSQUIDSpy.cpp", "resources/python/inc/container_conversions.h"], [("marray_from_python, marray_to_numpyarray", "resources/python/src/nuSQUIDSpy.h"), ("RegisterBasicNuSQuIDSPythonBindings, RegisterBasicAtmNuSQuIDSPythonBindings", "resources/python/src/nuSQUIDSpy.h"), ("BOOST_PYTHON_MODULE(nuSQuIDS)", "resources/python/src/nuSQUIDSpy.cpp")],
     "explicit-state exploration of call histories on twin objects, one driven through the embedded interpreter and one in C++", "The module is compiled from the repository and run inside the harness. Accessors which the C++ interface leaves unchecked are called with valid arguments only.")
prop("C31", "Solar fluxes and survival probabilities follow their tables and parameters",
     "The solar model returns, for every component, radius and energy, the linear interpolation of its radial table times that of the component's spectrum, nothing beyond the spectrum's limits, and refuses radii outside the Sun, components which emit no neutrinos and incomplete tables. The survival probability is that of adiabatic conversion in the electron density of the place with the mixing parameters in force at the time of the call, in the order of the masses, whatever was set or evaluated before. Its average at an energy weighs the places by all components which emit there, lines within one percent included.",
     ["inputs", "histories"], "5 radial grids and 6 to 10 data sets, all components, radii and energies at and around every node and limit, 3 orders of evaluation; 3 to 5 flavours and all histories of 2 (3) changes; averages at 27 energies; 16 incomplete sets of tables",
     "no test uses the solar calculation",
     [SOL + "/SolarModel.cpp", SOL + "/SolarModel.h", SOL + "/SolarProbabilities.cpp"], [("SolarModel::nuFlux, eDensity, DMDensity", SOL + "/SolarModel.cpp"), ("SolarOscillationProbability, PeeSquare", SOL + "/SolarProbabilities.cpp")],
     "explicit-state exploration of tables, evaluation orders and parameter histories on the real code against a reference calculation", "Energies at the limits themselves and degenerate states, where the answer is not determined, are left out.")
