"""What each check builds and runs."""
TSAN = dict(cflags=["-fsanitize=thread"], san=[], plain_srcs=["lib/mcsched.cpp"])

def H(name, src, **k):
    d = dict(name=name, src="harness/" + src + ".cpp")
    d.update(k)
    return d

TOOLS = ["src/tools.cpp"]
PROPS = {}

def P(id, level, harnesses, rule, quick, thorough, assumptions=(), budget=None):
    PROPS[id] = dict(level=level, harnesses=harnesses, rule=rule, bounds=dict(quick=quick, thorough=thorough),
                     assumptions=list(assumptions), budget=budget or dict(quick=700, thorough=6000))

P("C01", "model_checking", [H("pool", "pool", **TSAN)],
  "states: distinct schedules (thread, operation sequence) per scenario; transitions: scheduling steps of the real code; outcome: distinct order of task executions",
  "106 programs of up to 4 workers and 4 tasks; all schedules with at most 2 preemptions (3 workers: 1) at lock/wait/signal/create/join/futex operations (and at every atomic in 5 programs), up to 2 spurious wakeups, every failing thread creation, every failing allocation of enqueue",
  "same programs, one to two preemptions more",
  ["sequentially consistent memory; ordering violations are found as happens-before races instead"])
P("C02", "model_checking", [H("marray", "marray")],
  "state: extents and contents; transition: one operation replayed on the real container after the whole preceding sequence; outcome: distinct (operation, shape)",
  "rank 1 extents<=4 depth 3, rank 2 extents<=3 depth 3, rank 3 extents<=2 depth 2, rank 4 depth 1; 5 element/allocator kinds depth 1-3",
  "rank 1 depth 4, rank 2 depth 3-4, rank 3 depth 2-3, rank 4 all shapes <=2 depth 1")
P("C03", "fault_enumeration", [H("marrayfault", "marray", args=["faults"])],
  "case: operation x shape x index of the failing allocation or element copy; non-trivial: the failure was reached",
  "ranks 1-3, extents <=4/3/2, every operation, every failure index", "ranks 1-3, extents <=4/4/3, every operation, every failure index")
P("C04", "model_checking", [H("marith%d" % i, "marith", hflags=["-DPART=%d" % i]) for i in range(4)],
  "state: (operation, operand shapes); transition: one array operation evaluated by the real code and by an element-by-element reference",
  "all pairs of broadcastable and non-broadcastable extents of ranks 1-3 (extents <=3), every operator, assignment operator, function and sum direction", "the same with extents <=4")
P("C05", "model_checking", [H("aligned", "aligned", san=["-fsanitize=undefined", "-fno-sanitize-recover=all"])],
  "state: set of live blocks; transition: one allocate/deallocate replayed on the real allocator",
  "alignments 1-4096, sizes 0-600, every base misalignment, all allocate/free orders up to 4 blocks", "the same, 5 blocks")
P("C06", "model_checking", [H("akima", "spline", repo_srcs=TOOLS, hflags=["-DPART=0"])],
  "state: (abscissae, ordinates); transition: one evaluation of the real interpolator compared with the reference construction",
  "all ordinate vectors over a 5-value alphabet for 2-6 points on several grids", "one more point")
P("C07", "model_checking", [H("cubic", "spline", repo_srcs=TOOLS, hflags=["-DPART=1"])],
  "state: (grid, values); transition: one evaluation of the real interpolator compared with the reference construction",
  "all basis data on 2-4 points per dimension, every mixed partial derivative, inside, on and outside the grid", "5 points per dimension")
P("C08", "model_checking", [H("texttab", "texttab", repo_srcs=TOOLS)],
  "state: file contents; transition: one read or write of the real code",
  "all files of up to 5 tokens over {numbers, blanks, comments, newlines, junk}; all tables up to 3x3 of a value alphabet", "one token more")
P("C09", "model_checking", [H("h5data", "h5", repo_srcs=TOOLS, hflags=["-DPART=0"])],
  "state: (element types, extents, compression) or attribute value; transition: one HDF5 write or read through the real code",
  "ranks 1-5, extents 0-40000, 9 type pairs, compression 0/1/9; attributes of 5 types, strings of 0-80 bytes", "compression 0/1/5/9, strings to 600 bytes")
P("C10", "fault_enumeration", [H("h5fault", "h5", repo_srcs=TOOLS, hflags=["-DPART=1"])],
  "case: operation x index of the failing HDF5 call; non-trivial: distinct (operation, failing call, result)",
  "12 operations, every HDF5 call failing in turn; all sequences of 4 moves over 3 handles", "the same")
P("C11", "model_checking", [H("misc", "misc", repo_srcs=TOOLS)],
  "state: arguments; transition: one call of the real code compared with exact (Gaussian integer) or extended-precision arithmetic",
  "12x12 linear and 10x10 logarithmic end points, 1-60 points and up to 4097; all 1x1 and a quarter of all 2x2 pairs over 4 values, all basis pairs of dimension 3-4, rectangular and padded matrices", "1-400 points, all 2x2 pairs, dimension 5")
P("C12", "model_checking", [H("quadgsl", "quad", repo_srcs=TOOLS, hflags=["-DPART=0"])],
  "state: integrand, limits, accuracy, workspace; transition: one integral by the real code",
  "45 integrands x 10x10 limits x 5 accuracies; all sequences of 4 integrals (one failing) over one workspace; an exception at every evaluation", "sequences of 5")
P("C13", "model_checking", [H("quadad", "quad", hflags=["-DPART=1"])],
  "state: integrand, limits, tolerance, known endpoints; transition: one integral by the real code",
  "45 integrands x 10x10 limits x 6 tolerances x 4 sets of known endpoints, both directions; 9 pathological integrands; all sequences of 4 integrals over one Options; an exception at every evaluation", "the same")
P("C14", "model_checking", [H("tau", "tau", repo_srcs=["src/taudecay.cpp"])],
  "state: energies, or sequence of grids, copies and moves of one object; transition: one query of the real code",
  "401 energy fractions x 6 energies; all sequences of 3 operations over 9 grids, copy, move, assignment", "sequences of 4")
P("C15", "model_checking", [H("respath", "respath", python="harness/respath.py")],
  "state: build configuration and history of the environment variable; transition: one query of the real code",
  "2 compilers x 3 optimisation levels x shared/static x installed or not; all histories of 2 settings over 14 values", "histories of 3")
BODY = ["src/body.cpp", "src/tools.cpp", "src/resources.cpp"]
P("C16", "model_checking", [H("bodydens", "body", repo_srcs=BODY, hflags=["-DPART=0"])],
  "state: medium, radial table and path; transition: one query of density or composition by the real code compared with vector geometry and direct interpolation",
  "7 kinds of medium, 4-5 tables each, 50 zenith angles x 5 atmosphere heights x 5 ways of making the path, 8 impact parameters, 97 positions along each path", "170 zenith angles, 417 positions")
P("C17", "model_checking", [H("bodyio", "body", repo_srcs=BODY, hflags=["-DPART=1"])],
  "state: medium and path; transition: storing or restoring either through the real registry and HDF5",
  "7 kinds of medium and a user's own, every table, every path of a grid of start, position, end, reversed or not", "the same")
XS = ["src/xsections.cpp", "src/tools.cpp", "src/resources.cpp"]
P("C18", "model_checking", [H("xsio", "xs", repo_srcs=XS, hflags=["-DPART=0"])],
  "state: sequence of reads, stores and copies of one set of tables, or one damaged set; transition: one read or store by the real code",
  "6 table sets of all sharing patterns and shapes, all sequences of 3 of 16 operations; each file, data set and extent of a set damaged in each of 7 ways; each HDF5 call of 8 operations failing; a disk filling up at 16 sizes", "sequences of 4")
P("C19", "model_checking", [H("xsquery", "xs", repo_srcs=XS, hflags=["-DPART=1"])],
  "state: table set, flavour, type, current and energies, or sequence of library additions; transition: queries of the real code",
  "30 table sets from text and HDF5, all flavours, types and currents, all nodes, 3 points per cell, energies below and above; 12x13 ranges averaged; 210 energies of the resonance; all sequences of 4 library operations", "1000 energies, sequences of 5")
NUSQ = ["src/nuSQuIDS.cpp", "src/body.cpp", "src/xsections.cpp", "src/taudecay.cpp", "src/tools.cpp", "src/resources.cpp"]
PYSITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
MINI = ["the solver library is replaced by the stand-in under stubs/SQuIDS, whose conventions DESIGN.md lists"]
P("C20", "model_checking", [H("osc", "osc", repo_srcs=NUSQ)],
  "state: configuration and sequence of path segments; transition: one segment evolved by the real code and by the reference; outcome: the final composition",
  "5 modes (one or several energies, types) x 3-4 flavours x 4 parameter sets x 2 bases x initial states x 6 media x direction, shortcut, positivity, oscillations off; all sequences of 2 segments over an alphabet of 26, of 3 over a part of it",
  "5 flavours, every initial state, all sequences", MINI)
P("C21", "model_checking", [H("inter", "inter", repo_srcs=NUSQ)],
  "state: configuration, effects switched on and sequence of path segments, or unusable cross sections; transition: one segment evolved by the real code and by a direct integration of the transport equation; outcome: the final composition",
  "3 types x 3-4 flavours x 1-6 energies x 2 bases x 7 sets of targets and cross sections x 16 combinations of oscillations, tau regeneration, resonance and sources x 5 media; all pairs of combinations in sequence, triples of a part; every call of the cross sections unusable in 5 ways; replaced and incomplete libraries",
  "1-9 energies, every initial state, all triples", MINI)
P("C22", "model_checking", [H("statekeep", "state", hflags=["-DPART=0"], repo_srcs=NUSQ)],
  "state: configuration, history of segments, way of storing and object restored into; transition: one state stored, restored or evolved further next to the reference; outcome: the final composition",
  "3 types x 3-4 flavours x 1-8 energies and a single one x 2 bases x 4 sets of tables x 8 combinations of effects x 4 points of a history, with 8 ways of storing and 8 objects restored into; all ways and objects together for 6 configurations; files in the forms of 3 earlier versions",
  "5 flavours, no thinning", MINI)
P("C23", "fault_enumeration", [H("statefault", "state", hflags=["-DPART=1"], repo_srcs=NUSQ)],
  "state: stored object, place and failing call, or damaged part of a file; transition: one attempt to store or restore, and the attempt repeated without the fault; outcome: the call and whether it was reported",
  "12 objects with every kind of medium x 5 places: every HDF5 call of storing and restoring failing in turn; every attribute, dataset and group of 11 files damaged in 9 ways, 24 truncations each; 12 sizes of a full disk; occupied groups, other files, user code failing, foreign tables",
  "every object in every place, 40 sizes of a full disk", MINI)
P("C24", "model_checking", [H("move", "move", repo_srcs=NUSQ)],
  "state: configuration, effects, history, way of moving and continuation; transition: one move, or one step taken by the moved object and by one which stayed; outcome: the final composition",
  "3 types x 3-4 flavours x 1-4 energies x 2 bases x 11 combinations of effects x 6 points of a history x 14 ways of moving or exchanging (a third of the combinations), 4 further steps in 6 orders; 14 values of each set of tables, every pair, 6 ways of copying or moving, every member changed in turn",
  "every combination in all 6 orders, 6 further steps", MINI)
P("C25", "model_checking", [H("guard", "guard", repo_srcs=NUSQ)],
  "state: kind of object and sequence of settings; transition: one call on the real object and on a model of what has been set; outcome: what is refused, and the composition",
  "9 kinds of objects; all sequences of 3 of 23 calls, of 4 of 11, and of 2-3 more after an evolution; about 400 further calls, valid and not, after each sequence of at most 2, a sixteenth of them after longer ones", "deeper sequences, every call after each", MINI)
P("C26", "model_checking", [H("atm", "atm", repo_srcs=NUSQ)],
  "state: configuration and sequence of operations; transition: one operation on the real atmospheric object and on one real object per zenith; outcome: the composition at the first node",
  "10 configurations; all sequences of 2 of 25 operations after a state was given and evolved (and, thinned, before, and in the mass basis); after each the shape, every node, every setting, about 2000 refused calls and 4-13 zeniths x 2-10 energies x averaging scales of the interpolation",
  "no thinning, a ninth of the sequences of 3", MINI)
P("C27", "model_checking", [H("atmpar", "atmpar", repo_srcs=NUSQ, **TSAN)],
  "state: distinct schedule of one scenario; transition: scheduling point; outcome: order in which zeniths were started",
  "6 kinds x 1-4 threads: preemption bound 0-2; every subset of failing zeniths, early or late; each thread creation and each of 40 allocations failing; two objects; readers",
  "bounds 1-2 for 2 threads, 0-1 for 3, all kinds with 4", MINI)
P("C28", "fault_enumeration", [H("atmio", "atmio", repo_srcs=NUSQ)],
  "state: stored calculation and failing call, damaged part of a file or size of a full disk; transition: one attempt to store or restore, the use of the object afterwards, and the attempt repeated without the fault; outcome: the call and whether it was reported",
  "6 kinds of calculation: every HDF5 call of storing (4 ways) and of restoring (fresh, used, constructed) failing in turn (a part of the combinations); every attribute, dataset and group of 4 files damaged in 9 ways, 24 truncations each; each zenith replaced in 11 ways; 2 x 16 sizes of a full disk; occupied, foreign and absent files",
  "all combinations, all files, 60 sizes", MINI)
P("C29", "model_checking", [H("ext", "ext", repo_srcs=NUSQ)],
  "state: configuration, added terms, sequence of segments and what is stored or fails; transition: one segment, or one storing, restoring or failing addition and the use afterwards; outcome: the final composition",
  "3 types x 3-4 flavours x 2-3 energies or single x 2 bases x with and without interactions x 7 combinations of added terms: 5 media, effects, backwards, positivity, the shortcut, sequences of 2 and 3; stored after the first segment and restored in 4 ways; every addition failing, preparation at each of 16 evaluations; 1-3 zeniths",
  "5 flavours, 1-4 energies, every combination, 60 evaluations", MINI)
PY = "resources/python/src/nuSQUIDSpy.cpp"
P("C30", "model_checking", [H("binding", "py", repo_srcs=NUSQ + [PY], repo_incs=["resources/python/inc", "resources/python/src"], src_flags={PY: ["-O0", "-g0"]},
                              cflags=["-I/usr/include/python3.12", "-I" + PYSITE + "/numpy/_core/include"], hflags=['-DPYSITE="%s"' % PYSITE],
                              ldflags=["-lboost_python312", "-lpython3.12"])],
  "state: an object driven from Python and its twin driven in C++; transition: one call made on both; outcome: value, array, message or stored file",
  "arrays of every dtype, layout, byte order and shape up to 4 dimensions both ways; every constructor, body, track, cross section, table and tool; every call on 5 single objects and 3 atmospheric ones and every ordered pair of calls",
  "pairs of calls in every configuration, larger arrays", MINI)
SOL = "resources/user_contributions/SolarTransitions"
P("C31", "model_checking", [H("solar", "solar", repo_srcs=NUSQ + [SOL + "/SolarModel.cpp", SOL + "/SolarProbabilities.cpp"], repo_incs=[SOL])],
  "state: tables, configuration and history of parameters; transition: one evaluation of a flux, density, probability or average, or one change of parameters; outcome: configuration",
  "5 radial grids x unit data at each node and 3 profiles x 3 orders of evaluation at and around all nodes, ends and limits; 3-5 flavours, all histories of 2 of 4 parameter sets, an initial state and another model; averages at 27 energies around lines and limits, also with as much from the lines as from the rest or 100 times more and a sharp resonance there; 16 incomplete sets of tables",
  "histories of 4; averages at 62 more energies and finer steps around the lines", MINI)
