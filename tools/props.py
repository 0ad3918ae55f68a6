MPI_STUB = ["MPI library (simulated in-process: point-to-point, collectives, Cartesian topologies)", "process start-up"]
MPI_REAL = ["src/grid/mpisubdivision.*", "src/grid/domainsubdivision.*", "src/grid/boundary.*", "src/grid/grid and storage headers", "src/util/factor.cpp", "DiagnosticManager singleton"]
HOOKS = None
MPI_FILES = ["src/grid/mpisubdivision.t", "src/grid/mpisubdivision.hpp", "src/grid/domainsubdivision.hpp", "src/grid/domainsubdivision.t", "src/grid/boundary.t", "src/util/factor.cpp"]
PROPS = [
 dict(id="C01", title="Domain decomposition tiles the global domain exactly",
  statement="For any number of processes, any global index range (including one that does not start at zero) and any ghost width, the inner subdomains of the processes cover every cell of the global domain exactly once, are balanced to within two cells per axis, and the physical extents of the subdomains tile the global physical extent in the same way. Exactly one process is master; process numbers and unique ids are unique, and a unique id names the same subdomain in every run of the same configuration however the processes are placed. Lower and upper bound flags are set exactly on the processes that own the first or last cell along that axis, and the local domain is the inner subdomain plus the ghost frame.",
  over=["configurations", "schedules", "inputs"], quant="all process counts, global ranges, ghost widths, axis counts, process placements and arrival orders",
  why="The test suite runs in a single process, so the decomposition is only ever exercised with one subdomain starting at index zero.",
  files=MPI_FILES, mech=[("Cartesian decomposition", "MPICartSubdivision::init in src/grid/mpisubdivision.t"), ("factorisation of the process count", "src/util/factor.cpp equalFactors"), ("physical extent", "DomainSubdivision::getInnerExtent")],
  observe=["getInnerDomain, getDomain, getInnerExtent, master, procnum, getUniqueId, isBoundLo/Hi on every process"],
  tech="seeded jobs of 1-12 processes on a simulated MPI with permuted placement; tiling oracle over all processes, repeated placements compared",
  note="Seeded search over configurations, placements and schedules; evidence, not proof.",
  rule="one run = one or two simulated jobs with random process count, global range, ghost width, axis count, value type and placement; non-trivial = more than one process and no empty subdomain",
  real=MPI_REAL, stub=MPI_STUB),
 dict(id="C02", title="Halo exchange fills every ghost cell with its periodic owner's value",
  statement="After the ghost cells of a field are exchanged along an axis, every ghost cell on either side along that axis holds the value that the owning neighbour holds for the same cell of the periodic global domain, and no other cell has changed. After exchanging all axes, in any order, this holds for every ghost cell including edges and corners. It holds for every cell value type, every grid layout, serial and distributed subdivisions, repeated exchanges, several fields and several subdivisions, whatever order messages travel in.",
  over=["schedules", "configurations", "inputs", "histories"], quant="all process counts, subdomains at least as wide as the ghost region, message timings, buffering behaviour and operation sequences",
  why="Tests run one process, which never sends anything to a distinct neighbour; message timing and buffering are not under the test's control.",
  files=MPI_FILES, mech=[("two-phase neighbour exchange", "MPICartSubdivision::exchange"), ("serial periodic copy", "SerialSubdivision::exchange"), ("ghost and source ranges", "Boundary::getGhostDomain/getGhostSourceDomain"), ("wire types", "MpiValueType in src/grid/mpisubdivision.cpp")],
  tech="simulated MPI with adversarial message timing and no guaranteed buffering; every operation compared cell by cell with a sequential reference model",
  note="Seeded search; each run checks every cell of every process after every operation against a reference model.",
  rule="one run = one job executing a random sequence of fills and exchanges on 1-3 subdivisions; non-trivial = several processes and at least one exchange judged against the model",
  real=MPI_REAL, stub=MPI_STUB),
 dict(id="C03", title="Accumulation adds every copy of a cell exactly once",
  statement="After overlapping contributions are accumulated along all axes, every inner cell holds the sum of all contributions deposited in any copy of that cell on any process, in the interior, on faces, edges and corners, each counted exactly once. When subdomains are at least twice as wide as the ghost region every ghost copy holds the same total afterwards. Accumulating along a single axis does the same for the copies along that axis only.",
  over=["schedules", "configurations", "inputs", "histories"], quant="all process counts, ghost widths, subdomain shapes, message timings and operation sequences",
  why="Tests never accumulate across more than one process.",
  files=MPI_FILES, mech=[("send, add, send back", "MPICartSubdivision::accumulate"), ("serial fold", "SerialSubdivision::accumulate")],
  tech="simulated MPI with adversarial message timing; conservation and reference-model comparison after every accumulation",
  note="Seeded search; values are chosen so that sums are exact, equality is exact.",
  rule="one run = one job executing a random sequence of fills and accumulations; non-trivial = several processes and at least one accumulation judged",
  real=MPI_REAL, stub=MPI_STUB),
 dict(id="C04", title="Buffer exchange delivers exactly the neighbour's bytes",
  statement="Exchanging data buffers in a direction delivers to every process exactly the bytes, in number, order and content, that its neighbour on the opposite side passed in, for any sizes including empty buffers and sizes that differ between processes. The buffer that was sent is unchanged, and what was received is independent of it: modifying either afterwards does not affect the other. This holds for serial and distributed subdivisions alike and for buffers that are reused over many exchanges.",
  over=["schedules", "inputs", "configurations", "histories"], quant="all buffer sizes and contents per process, directions, process counts and message timings",
  why="Tests do not exchange buffers between processes and do not modify the sent buffer afterwards.",
  files=MPI_FILES, mech=[("size then payload exchange", "MPICartSubdivision::exchangeData"), ("serial copy", "SerialSubdivision::exchangeData")],
  tech="simulated MPI with adversarial message timing; byte-exact comparison with the neighbour's input, aliasing probes",
  note="Seeded search.",
  rule="one run = one job exchanging 1-10 buffers of random sizes in random directions; non-trivial = several processes and at least one exchange judged",
  real=MPI_REAL, stub=MPI_STUB),
 dict(id="C05", title="Reductions return the right value and the same value everywhere",
  statement="Sum, average, minimum and maximum reductions over integer and floating point values return, on every process, the result over the contributions of all processes: exactly for minima, maxima and integer sums, to within rounding for floating point sums and averages, and to within less than one for integer averages. All processes obtain the identical result. The order in which processes arrive or contributions are combined never changes this.",
  over=["schedules", "inputs", "configurations"], quant="all values per process, process counts, arrival orders and combination orders",
  why="With one process every reduction is the identity.",
  files=["src/grid/mpisubdivision.t", "src/grid/domainsubdivision.hpp"], mech=[("all-reduce based reductions", "MPICartSubdivision::sumReduce/avgReduce/minReduce/maxReduce")],
  tech="simulated MPI with random arrival and combination orders; results compared with an exact reference and across processes",
  note="Seeded search.",
  rule="one run = one job executing 1-10 reductions of random kind on random values; non-trivial = several processes and at least one reduction judged",
  real=MPI_REAL, stub=MPI_STUB),
 dict(id="C06", title="Communication always completes and never touches other traffic",
  statement="Any sequence of halo exchanges, accumulations, buffer exchanges and reductions that all processes perform in the same order completes under every message timing and process speed, without relying on messages being buffered, and leaves no message undelivered and no request or communicator behind. It never receives, alters or delays the application's own messages, even wildcard receives with equal tags, nor those of another subdivision that lives at the same time. Process arrival order at construction and destruction does not matter.",
  over=["schedules", "configurations", "programs", "histories"], quant="all interleavings, message delays, eager limits (including none), process counts and operation sequences",
  why="Deadlock, mismatched messages and reliance on buffering only appear for particular timings with several processes; tests run one process.",
  files=["src/grid/mpisubdivision.t"], mech=[("combined send-receive", "MPI_Sendrecv calls in MPICartSubdivision"), ("private communicator per subdivision", "MPI_Cart_create in MPICartSubdivision::init, MPI_Comm_free in the destructor")],
  tech="simulated MPI with unbuffered sends, delayed delivery, starved processes; deadlock, leftover and isolation detection",
  note="Seeded search over schedules; liveness is judged by exact deadlock detection (no runnable process and no message in flight) and a step cap.",
  rule="one run = one job mixing all operations on 1-4 subdivisions with application traffic on the world communicator; non-trivial = several processes",
  real=MPI_REAL, stub=MPI_STUB),
]

IO_STUB = ["MPI library (simulated in-process)", "HDF5 library (simulated in memory: parallel files, datasets, hyperslabs, attributes, property lists, collective-call matching)", "process start-up"]
DG_STUB = IO_STUB + ["text files (std::ofstream on a simulated disk)"]
IO_REAL = ["src/diagnostic/hdfdiagnostic.*", "src/grid/mpisubdivision.*", "src/grid grid, field and storage headers"]
DG_REAL = ["src/diagnostic/*", "src/parser/* and src/variables/* (setup text, blocks, parameters)", "src/grid/mpisubdivision.*", "src/grid grid, field and storage headers"]
IO_FILES = ["src/diagnostic/hdfdiagnostic.cpp", "src/diagnostic/hdfdiagnostic.hpp", "src/diagnostic/hdfdiagnostic.t"]
DG_FILES = ["src/diagnostic/diagnostic.cpp", "src/diagnostic/diagnostic.hpp", "src/diagnostic/diagnostic.t", "src/diagnostic/hdfdiagnostic.t"]
PROPS += [
 dict(id="C08", title="Grid dumps hold the global grid and restore on any number of processes",
  statement="A grid or field (in the default row-major storage) dumped through an HdfOStream by any number of processes is one dataset that holds the value of every global cell exactly once, with the global extents, the value type and the attributes that were set, under the block name that was set (further datasets of the same name are numbered). Reading it back through an HdfIStream on any other number of processes, with another decomposition or ghost width, into a grid or a field, delivers to every process exactly the values of its own cells and leaves its ghost cells and the file untouched. This holds for several streams used at once, several files one after another through the same stream, several datasets per file, subdomains without any cell, and serial programs; when a stream is closed, opened anew or destroyed its file is complete and nothing stays open.",
  over=["configurations", "inputs", "histories", "schedules"], quant="all writer and reader process counts, global ranges, ghost widths, grid types, value types, stream histories and arrival orders",
  why="No test writes or reads a file; correctness depends on the decomposition of both writer and reader.",
  files=IO_FILES, mech=[("hyperslab selection", "HdfOStream::writeGrid / HdfIStream::readGrid"), ("dataset naming", "HdfStream::getNextBlockName"), ("stream life cycle", "HdfOStream::open, HdfStream::close")],
  tech="simulated MPI and parallel HDF5; the dump is compared cell by cell with a reference, then restored by a job with another process count",
  note="Seeded search over configurations and histories; HDF5 is a simulated in-memory model.",
  rule="one run = a job writing 1-3 files and a second job, usually with another process count, reading them; non-trivial = different process counts and at least one dataset restored",
  real=IO_REAL, stub=IO_STUB),
 dict(id="C09", title="Parallel file output is collective and honours the set of active processes",
  statement="Every collective file operation (creating, opening and closing files and datasets, creating attributes, collective transfers) is made by every process of the file's communicator in the same order and with the same arguments, so that a dump never hangs. When a stream is restricted to the processes that own part of a region, exactly those processes take part, inactive processes neither touch the file nor block the others, the dataset holds exactly the region, and restoring the region reaches exactly the active processes. The set of active processes may be changed and the stream opened again any number of times; the set in force is the one set last. No access list, file or dataset stays open after the stream is gone.",
  over=["schedules", "configurations", "histories"], quant="all process counts, regions, active sets, sequences of changes of the active set, opens and writes, and process speeds",
  why="A mismatched collective hangs or corrupts only with several processes; the tests run one process and write no files.",
  files=IO_FILES, mech=[("communicator of the active processes", "HdfStream::setActive, makeMPIGroup"), ("attributes", "HdfOStream::writeGrid"), ("access list", "HdfOStream::open, HdfIStream::open")],
  tech="simulated MPI and HDF5 that match collective calls per file communicator; files and restored regions compared with a reference",
  note="Seeded search; a mismatch is detected exactly by the simulated library.",
  rule="one run = three jobs (owner probe, writing with changing active sets, restoring); non-trivial = at least one process was inactive",
  real=IO_REAL, stub=IO_STUB),
 dict(id="C10", title="A failing file operation is never silent",
  statement="If creating, opening, writing, reading or closing a file, dataset or attribute fails on any process (device full, I/O error, short write), either some process reports it (it stops with an error or throws), or all the data of the run nevertheless reached the file or the grid completely and correctly. A run whose processes all finish without reporting an error never leaves a missing, truncated, partial or wrong output, and never continues with wrong restored data. This holds for HDF5 grid dumps, restores and text diagnostics.",
  over=["fault_sequences", "histories", "configurations", "schedules"], quant="all operations at which a failure may strike, on one or all processes, and all stream and diagnostic histories",
  why="Tests do not make file operations fail.",
  files=IO_FILES + ["src/diagnostic/diagnostic.t"], mech=[("status checks", "asserts after the HDF5 calls in hdfdiagnostic"), ("text stream state", "SimpleFileDiagnostic in src/diagnostic/diagnostic.t")],
  tech="fault injection into simulated HDF5 and simulated disk at a seeded operation; outcome judged by error reports and file contents",
  note="Seeded search over fault placement and kind.",
  rule="one run = a stream or diagnostics workload with 1-2 injected failures; non-trivial = a failure struck",
  real=DG_REAL, stub=DG_STUB),
 dict(id="C12", title="Interval diagnostics produce output at exactly the right steps",
  statement="A diagnostic with an interval produces output at an execution exactly if the time counter is a multiple of the interval, or negative (final output); each output opens the file named by the pattern, with #p replaced by the process number and #t by the time counter or 'final', writes once and closes it, and the file holds the data of that moment. A single-output diagnostic writes on the master process only. Any number of diagnostics with different intervals, created and destroyed at any time, do not influence each other; a diagnostic that was destroyed is never executed again. If the time source that a registered diagnostic needs was not set, executing the manager reports it.",
  over=["histories", "configurations", "schedules"], quant="all sequences of time steps (including repeated, skipped and negative ones), sets of diagnostics, lifetimes, process counts and file patterns",
  why="No test executes the diagnostic manager; the outcome depends on the whole history of steps.",
  files=DG_FILES, mech=[("schedule", "IntervalDiagnostic::execute, DiagnosticManager::execute"), ("file names", "DiagnosticInterface::parsedFileName, IntervalDiagnostic::parsedFileName"), ("registration", "DiagnosticManager::addDiagnostic")],
  tech="simulated multi-process runs with seeded time histories; outputs and events compared with an executable schedule model",
  note="Seeded search over histories.",
  rule="one run = one job with 1-4 diagnostics over up to 60 steps; non-trivial = more than one output due",
  real=DG_REAL, stub=DG_STUB),
 dict(id="C13", title="Time-based diagnostics meet every output time on every process alike",
  statement="A diagnostic with a time interval produces its k-th output at the first execution whose physical time is at least delay + k times the interval, at most one per execution, numbered by the output count, and loses none. The time step returned by adjustDeltaT is positive, never longer than the requested one, never steps past the next pending output of any registered time-based diagnostic, is not shorter than these require, and is identical on all processes, also when some diagnostics write on the master process only.",
  over=["histories", "configurations", "schedules"], quant="all physical time histories, intervals, delays, sets and lifetimes of diagnostics and process counts",
  why="No test executes time-based diagnostics; agreement between processes cannot be seen in one process.",
  files=DG_FILES, mech=[("schedule", "DeltaTimeDiagnostic::execute"), ("time step", "DiagnosticManager::adjustDeltaT")],
  tech="simulated multi-process runs with seeded physical-time histories; outputs and time steps compared with an executable model and across processes",
  note="Seeded search over histories; times are dyadic so that comparisons are exact.",
  rule="one run = one job with 1-4 diagnostics over up to 60 steps, 60% with adjusted time steps; non-trivial = more than one output due",
  real=DG_REAL, stub=DG_STUB),
 dict(id="C14", title="Append mode keeps every output of the run in one file",
  statement="With append set, a diagnostic opens its file, under exactly the given name, once per run whatever time step the run starts with and however often a step is executed, and every output that is due during the run ends up in that file, in order: as consecutive text, or as separately numbered datasets. Nothing written earlier in the run is lost, overwritten or truncated, and after the end of the run the file is complete and readable, including a run that starts at a later time step and a diagnostic that is destroyed early.",
  over=["histories", "configurations", "schedules"], quant="all time histories, start steps, mixtures of appending and other diagnostics, lifetimes and process counts",
  why="No test uses append mode; the outcome depends on the whole history of the run.",
  files=DG_FILES, mech=[("open once", "IntervalDiagnostic::execute, DeltaTimeDiagnostic::execute"), ("flush", "SimpleFileDiagnostic::write"), ("dataset numbering", "HDFGridDiagnostic::open")],
  tech="simulated multi-process runs with seeded time histories; final file contents compared with an executable model",
  note="Seeded search over histories. One known finding: the HDF5 file of a diagnostic inside the block hierarchy is never closed.",
  rule="one run = one job with 1-4 diagnostics, at least one appending; non-trivial = more than one appended output",
  real=DG_REAL, stub=DG_STUB),
]
APP_REAL = ["src/parser/*", "src/variables/*", "src/grid/*subdivision.*, boundary, field, grid, storage", "src/tools/fieldtools.*", "src/util/databuffer.*, factor.cpp", "src/diagnostic/*"]
APP_STUB = ["MPI library (simulated in-process)", "parallel HDF5 library (simulated in-process)", "file system below /sim/ (simulated)", "process start-up and process death"]
APP_FILES = ["src/grid/mpisubdivision.t", "src/grid/domainsubdivision.hpp", "src/grid/boundary.t", "src/grid/field.t", "src/tools/fieldtools.t", "src/variables/dependencies.cpp", "src/variables/block.cpp", "src/diagnostic/diagnostic.cpp", "src/diagnostic/hdfdiagnostic.t", "src/util/databuffer.t"]
APP = [
 dict(id="C07", title="A distributed simulation computes exactly what the serial one does",
  statement="A complete simulation built from the library (setup file with variables and expressions, staggered fields filled from these expressions, stencil updates with halo exchange, particles that migrate between processes and are deposited on a grid, global reductions, grid dumps and text output) computes the same field values, particles, reduction results and output files, cell by cell, for every number of processes and every message timing as the same simulation executed sequentially on the whole domain; the serial subdivision gives the same result too. No message is left over and every collective operation is entered by every process.",
  over=["schedules", "configurations", "inputs", "programs"], quant="all process counts, domains, ghost widths, stencils, setup expressions, particle motions, message timings, process placements and harmless disk behaviour (short reads, interrupted calls)",
  why="Tests exercise the parts separately in one process; that the parts compose to the serial result on many processes is what users rely on and depends on timing and placement.",
  files=APP_FILES, mech=[("decomposition and exchange", "MPICartSubdivision"), ("filling fields", "fill_field, FieldFiller, DependencyUpdater"), ("particle exchange", "DataBuffer, exchangeData"), ("output", "DiagnosticManager, HDFGridDiagnostic, SimpleFileDiagnostic")],
  tech="whole-program simulation of 1-12 processes on a simulated MPI, HDF5 and disk; every value compared with a sequential reference model",
  note="Seeded search over programs, process counts and schedules; arithmetic is on integers so that the comparison is exact.",
  rule="one run = one job of 1-12 processes executing a random small simulation; non-trivial = more than one process",
  real=APP_REAL, stub=APP_STUB),
 dict(id="C11", title="A crashed run resumes from its dumps with unchanged results",
  statement="When a job is killed at any point, every output that was due at a time step all processes had completed is on disk, complete and correct, and every grid file that is readable is complete and correct: a dump is never readable but wrong or partial. A job restarted from the newest readable dump, on any number of processes, continues exactly where the dump was taken: from there on all field values, reductions and outputs equal those of a run that was never interrupted, also after several crashes.",
  over=["crash_points", "schedules", "configurations", "histories"], quant="all crash points, sequences of crashes, process counts before and after each restart, dump intervals and message timings",
  why="No test crashes or restarts a program.",
  files=["src/diagnostic/hdfdiagnostic.t", "src/diagnostic/hdfdiagnostic.cpp", "src/diagnostic/hdfdiagnostic.hpp", "src/diagnostic/diagnostic.cpp"], mech=[("dump", "HDFGridDiagnostic, IntervalDiagnostic::execute"), ("restart", "HDFGridReader, HdfIStream::readGrid")],
  tech="whole-program simulation with the job killed at seeded scheduler steps; files not closed are torn; restarted on another process count and compared with an uninterrupted sequential reference",
  note="Seeded search over crash points. A file that was not closed when the job died is taken to be unreadable, which is how HDF5 behaves at worst.",
  rule="one run = one simulation killed up to three times and restarted; non-trivial = the simulation finished after at least one restart from a dump",
  real=APP_REAL, stub=APP_STUB),
]
SET_REAL = ["src/parser.hpp, src/parser/* (scanner, lemon grammar, tokens, settings)", "src/variables/* (blocks, classes, parameters, variables, expressions, dependencies, data)"]
SET_STUB = ["file system below /sim/ (simulated)", "memory allocator (seeded allocation failures, guarded blocks)", "MPI library (process start and end only)"]
SETUP = [
 dict(id="C16", title="Reading a setup file builds exactly what it says, or reports an error",
  statement="A correct setup file, however it is spaced and commented, is accepted by every process that reads it and yields exactly the blocks it names (class, name, nesting, order), and every parameter and every variable has the type, constness and value that its last assignment (or the default) gives it, evaluated with the usual rules of arithmetic, scoping (own block, then enclosing blocks, or block:name paths) and type conversion. A malformed file (syntax error, unknown, duplicate or ill-typed name, block class that is not allowed, assignment to a read-only parameter, circular definition, missing required parameter, file cut short) is never accepted. A disk error or a failing memory allocation while the file is read makes the attempt fail with an exception, never with a wrong or partial result; interrupted and short reads change nothing; after a failed attempt the same process can read the file again successfully. No file is left open.",
  over=["inputs", "programs", "fault_sequences", "configurations"], quant="all sets of block classes, setup files, read errors, short and interrupted reads and failing allocations",
  why="Tests parse a few fixed well-formed files; arbitrary nesting, expressions, comments, malformed text and faults while reading are beyond samples.",
  files=["src/parser/parser.cpp", "src/parser/parsertoken.cpp", "src/parser/internal/deckscanner.cpp", "src/parser/parsercontext.hpp", "src/variables/variables.cpp", "src/variables/blockparameters.hpp", "src/variables/blockclasses.cpp", "src/variables/expression.hpp"],
  mech=[("scanning", "DeckScanner"), ("grammar", "src/parser/deckgrammar.inc"), ("names and scopes", "BlockVariables, VariableStorage"), ("parameters", "BlockParameters::evaluate"), ("classes", "BlockClasses, ParserSettings")],
  tech="1-4 simulated processes read a generated setup file from a simulated disk with read errors, short reads and allocation failures; compared with an executable model of the setup language",
  note="Seeded search over programs in the setup language and faults.",
  rule="one run = one job of 1-4 processes that read a generated setup file; non-trivial = malformed file, failed attempt or more than one block",
  real=SET_REAL, stub=SET_STUB),
 dict(id="C18", title="Dependent parameters follow the variables they depend on",
  statement="For every history of changes of read-only (external) parameters, and of declaring independents and dependents, clearing dependents, recreating the dependency map and updating: after DependencyUpdater::update() every declared dependent parameter has the value its setup expression gives for the current values of the declared independent parameters (through any chain of intermediate variables, in any order of declaration, and including functions registered to be evaluated always). Several updaters on the same map do not disturb each other, and updateAll() brings every variable up to date.",
  over=["histories", "programs", "inputs"], quant="all setup files and all sequences of changes and updates",
  why="Tests update a handful of fixed formulas once or twice; orderings of declarations and updates over arbitrary dependency graphs are not sampled.",
  files=["src/variables/dependencies.cpp", "src/variables/dependencies.hpp", "src/variables/variables.cpp", "src/variables/expression.hpp", "src/variables/blockparameters.hpp"],
  mech=[("dependency graph", "DependencyMap::constructMap"), ("order of evaluation", "DependencyMap::makeUpdateOrder"), ("update", "DependencyUpdater::update")],
  tech="seeded histories of declarations, changes and updates on simulated processes that read their setup file through a simulated disk; every dependent is compared with a model that evaluates the expressions from scratch",
  note="Seeded search over dependency graphs and operation histories. A dependent is judged when everything that changed and that it depends on was declared independent or brought up to date by updateAll().",
  rule="one run = one generated setup file and a history of up to about 45 operations on 1-4 processes; non-trivial = at least one dependent judged",
  real=SET_REAL, stub=SET_STUB),
 dict(id="C19", title="Blocks are initialised in order, once, and find the data that was registered",
  statement="initAll() called on any block of the tree runs registerData, preInit, init and postInit on every block of the tree: each phase once per block, parents before their children and in the order of the setup file, and a phase starts only when the previous one has finished everywhere. When a block throws, no further block is called and the exception reaches the caller. retrieveData finds the block's own data, then data below a named child (child.key), then that of the nearest enclosing block, and otherwise the only match elsewhere in the tree; a missing key raises VariableNotFoundException, an ambiguous one DuplicateVariableException, and data of another type is never returned. A container block holds exactly its direct child blocks of its child type, in order. Variables are found by name exactly where the scoping rules say.",
  over=["programs", "histories", "configurations"], quant="all block trees, registered keys and types, queries at any phase and errors thrown at any point of the initialisation",
  why="Tests build one or two fixed trees and never let a block fail during initialisation.",
  files=["src/variables/block.cpp", "src/variables/block.hpp", "src/variables/blockdata.hpp", "src/variables/blockcontainer.hpp", "src/variables/variables.cpp"],
  mech=[("phases", "Block::initAll, registerDataInternal, preInit, init, postInit"), ("data", "BlockData, Block::retrieveData"), ("containers", "BlockContainer, ChildBlock")],
  tech="generated block trees on simulated processes with errors thrown at seeded points of the initialisation; the recorded history of calls and look-ups is compared with a model",
  note="Seeded search over trees, registrations, queries and failure points.",
  rule="one run = one generated tree with queries on 1-4 processes; non-trivial = at least three blocks",
  real=SET_REAL, stub=SET_STUB),
]
LIT = [
 dict(id="C20", title="Every method a run used is cited, once and with the data it was registered with",
  statement="For every setup file and every sequence of registrations made by the blocks during initialisation or later (the same publication by several blocks, for several purposes, in any phase): the BibTeX file written by LiteratureManager::writeBibTex lists every registered publication exactly once, together with the library's own, as the type and with exactly the non-empty fields it was created with (those of its first registration when a key is registered again); the document written by writeInformation cites each of them exactly once, together with every description registered for it exactly once, under the title and with the bibliography that were set. A registration that fails for lack of memory leaves all others intact and can be repeated, the caller's reference object may change or disappear afterwards, and files can be written any number of times between registrations; a file whose stream reports no error is complete.",
  over=["histories", "fault_sequences", "inputs"], quant="all block trees, registrations of all publication types in any phase and order, points at which memory runs out, and disk errors while the files are written",
  why="No test covers the literature manager; duplicates, field combinations and failing registrations are histories no fixed test samples.",
  files=["src/tools/literature.hpp", "src/tools/literature.cpp", "src/util/singleton.hpp"],
  mech=[("registration", "LiteratureManager::addReference"), ("BibTeX", "LiteratureManager::writeBibTex, operator<<"), ("document", "LiteratureManager::writeInformation"), ("references", "LiteratureReference and its subclasses")],
  tech="seeded histories of registrations by generated block trees on simulated processes, with allocation failures and disk errors at seeded points; the files on the simulated disk are parsed and compared with a model of what was registered",
  note="Seeded search over histories and failure points. The files are parsed, so white space and the order of entries and fields do not matter.",
  rule="one run = one generated block tree with up to 16 publications on 1-4 processes; non-trivial = more than one registration and a file judged",
  real=["src/tools/literature.*", "src/util/singleton.hpp", "src/parser/*, src/variables/* (blocks that register references)"], stub=["disk (seeded errors, short writes, interrupted calls)", "memory allocator (seeded allocation failures)", "process start-up"]),
]
GRID_REAL = ["src/grid/grid.*, field.*, range.*, array.*", "src/grid/gridstorage/* (C and Fortran order, lazy, Kokkos storage)", "src/grid/iteration/* (range and Kokkos iteration policies)"]
GRID_STUB = ["Kokkos (views, parallel_for on simulated threads, fence)", "memory allocator (seeded allocation failures, guarded blocks, leak accounting)", "process start-up"]
GRID = [
 dict(id="C15", title="All copies of a grid are the same grid, whatever happens to any of them",
  statement="Copies and assigned copies of a grid or field refer to one common set of cells: for every history of creating, copying, assigning, resizing, filling, writing, reading, adding and destroying handles, all handles of a grid report the same index range, dimensions and size (those of the last resize through any of them), and every cell holds the value last written to it through any handle and any accessor, in every memory layout; handles of other grids are unaffected. The memory lives exactly as long as the last handle. When memory runs out, or an element cannot be constructed, the error reaches the caller and the handles of a grid still agree: copying and assigning change nothing, and after a failed resize all of them keep the old cells or all are empty and can be resized again.",
  over=["histories", "fault_sequences", "configurations", "inputs"], quant="all operation histories on any number of handles, ranks 1-4, storage policies, element types, index ranges (also empty ones) and points at which an allocation or a constructor fails",
  why="Tests look at one or two handles in fixed sequences and never let an allocation fail.",
  files=["src/grid/grid.hpp", "src/grid/grid.t", "src/grid/field.hpp", "src/grid/field.t", "src/grid/gridstorage.hpp", "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/single-array-allocation.hpp", "src/grid/gridstorage/kokkos-storage.hpp", "src/grid/range.hpp"],
  mech=[("shared storage", "SingleArrayInstantAllocation, SingleArrayLazyAllocation, KokkosGridStorage"), ("index mapping", "SingleArrayGridCOrderStorageBase, SingleArrayGridFortranOrderStorageBase"), ("handles", "Grid, Field")],
  tech="seeded histories of grid handles with allocation and constructor failures at seeded points; every handle and cell is compared with a reference model, memory and element life times are accounted for",
  note="Seeded search over histories and failure points.",
  rule="one run = one history of up to about 60 operations on up to about 8 handles of one grid type; non-trivial = at least two handles shared a grid",
  real=GRID_REAL, stub=GRID_STUB),
 dict(id="C17", title="Loops over an index range visit every index exactly once",
  statement="Iterating over an index range with the C order, Fortran order or parallel (Kokkos) policy, or with the iterators of the range, calls the loop body exactly once for every index of the range and never for another one, whatever the bounds (also negative or empty), the number of threads and the order in which they run. The sequential policies visit indices in ascending order with the last (C, iterators) or first (Fortran) index fastest, and pass on an exception of the loop body. All iterations have taken effect once the loop (or, for parallel loops, the next fence) returns, none runs after that, and neither the range nor the loop body object needs to outlive the call. Copies of iterators are independent.",
  over=["schedules", "inputs", "configurations"], quant="all ranges of rank 1-4, policies, thread counts, thread schedules and several loops in flight",
  why="Tests iterate over one fixed range per policy; the parallel policy is not tested under any schedule.",
  files=["src/grid/iteration/range-iteration.hpp", "src/grid/iteration/kokkos-iteration.hpp", "src/grid/range.hpp"],
  mech=[("sequential loops", "RangeCIterationPolicy, RangeFortranIterationPolicy"), ("parallel loops", "RangeKokkosIterationPolicy"), ("iterators", "Range::iterator")],
  tech="loops on simulated threads under a seeded scheduler; the recorded history of visits is checked for exactly-once, order and effect",
  note="Seeded search over ranges and thread schedules.",
  rule="one run = 1-3 rounds of up to three loops in flight; non-trivial = a range with more than one index",
  real=GRID_REAL, stub=GRID_STUB),
]
PROPS = sorted(PROPS + APP + SETUP + LIT + GRID, key=lambda p: p["id"])
NOT_APPLICABLE = []
