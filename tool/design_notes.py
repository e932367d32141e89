HEAD='''
# Deciding nuSQuIDS's properties by static analysis

## The approach

No part of nuSQuIDS is run and no path is handed to a solver. Every check, on every run,

1. compiles the current sources of `/repo` (a source file itself, or a small harness in `harness/` that instantiates
   the templates of a header) with clang 18 to unoptimised LLVM bitcode (`lib/nsq.py: lower`);
2. runs `tool/nsqx.cpp`, which internalises everything but the functions asked for, inlines the repository's own
   helpers and the header-only library code into them (a short list of library functions, `lib/noinline.txt`, stays
   opaque), promotes memory to registers, and exports the control flow graphs, types and debug locations as JSON;
   because helpers are inlined and memory is promoted, how the code is cut into functions, names, temporaries and the
   form of loops do not matter to what follows;
3. computes, in `lib/flow.py`, a value graph: every value is a rational function (`lib/alg.py`: sparse polynomials over
   canonical atoms) of arguments, initial memory contents and opaque calls; every condition is a BDD over canonical
   comparisons; loops get trip counts and closed forms by recurrence solving (sums of powers, products, pointer
   strides, exits by several edges, exits by exceptions); memory is versioned by address with alias resolution. The
   result is the list of effects of the function (loads, stores, calls, throws, returns; with guards, loops and source
   locations) along with unwind edges where the rule needs them;
4. evaluates the property's rule on that summary (`checks/Cxx.py`). A rule is an identity between expressions, an
   implication between guards, a provenance, ordering or balance of effects, or the evaluation of the extracted closed
   form (not of the program) at small shapes.

Each instance of a rule is an obligation: *ok*, *violation* (only when the analysis is definite; the report names the
construct and its source line) or *undecided* (the code has a shape the analysis does not model; listed in the
evidence, raises no alarm). A check exits with 2 only when a public anchor of the property is gone or a tool fails.
Rules are anchored on public entry points only, so private helpers may be renamed, extracted or merged.

## Running

`lib/setup.py` builds the exporter (also built on demand). `python3 checks/Cxx.py [--thorough]` decides one property.
`tool/gen_properties.py`, `tool/gen_manifest.py`, `tool/gen_design.py` regenerate the committed documents.
`NSQ_REPO` points a check at another tree (used while testing mutants), `NSQ_EVID` sends its evidence elsewhere,
`NSQ_DEBUG=1` shows tracebacks.

Every check was also run against mutants (several per property, beyond the planted bugs kept in `seeded/`) and against
behaviour-preserving rewrites (loops turned around, helpers extracted or merged, temporaries, pointer versus index,
algorithms replaced by loops, conditions restated); the rewrites stay quiet, at worst adding undecided obligations.
'''
HOW={}
HOW["C01"]='''The value returned by `operator()` is extracted as a polynomial in the table entries read. Rule: at each corner of the cell the
polynomial, its two first derivatives and its mixed derivative equal the entry of the value/slope tables at that corner
(derivatives with respect to the query point, so the rescaling by cell size is part of the identity). Continuity follows.'''
HOW["C02"]="As C01, in three dimensions: eight corners times eight derivative combinations."
HOW["C03"]='''The cell index expression (library search calls kept as abstract order queries) is evaluated for every order type of a
query relative to the nodes; rule: the cell chosen encloses the query, first/last cell outside, and no table access leaves the table. Constructor: guard of the throw is equivalent to a mismatch of any extent.'''
HOW["C04"]='''For every store to a derivative table: which line of which table, and which coordinates, the spline behind the stored value was built from,
and that the line passes through the entry; the loops cover all entries.'''
HOW["C05"]='''Stores of `initialize` are turned into one closed form per segment class (first, second, interior, last two); rule: Hermite conditions and Akima slopes, per zero/non-zero weight combination; guards of the throws are equivalent to the documented preconditions.'''
HOW["C06"]="Segment selection evaluated over order types; accessors: entry k comes from segment k (k=n-1: end of the last)."
HOW["C07"]='''One pass of the loop from an arbitrary worklist: the popped piece's parts chain from its left to its right end with the matching integrand values; in every combination of acceptance conditions each part is pushed or added exactly once.'''
HOW["C08"]="`evaluate` fully unrolled; nodes and weights are read off the returned polynomial; moments are compared with the exact ones."
HOW["C09"]="The return value, options stores and integrand calls per branch (reversed or not, each end value given or not) are compared under exchange of the limits."
HOW["C10"]='''Lock-set dataflow per entry point (must-held, may-held), with `unique_lock`/`lock_guard`/condition waits by contract; rule: every access to a mutable field in a must-held region, user tasks called in a may-not-held region. The exception path of the constructor (thread creation fails) is reported undecided.'''
HOW["C11"]="Guards of push/pop/notify/leave/join along each path; the leave condition implies stop and an empty queue, every path after setting stop notifies all and joins every worker."
HOW["C12"]='''The address arithmetic extracted from allocate/deallocate (as polynomials, masks and remainders) is evaluated over residues of the system address for all 32 exponents; overflow refusal by guard equivalence.'''
HOW["C13"]="Every access path is a polynomial in indices and extents; equality with the row-major polynomial."
HOW["C14"]='''Header fields and entries at return, as closed forms in the initial extents and arguments; evaluated on a grid of shapes (0..3 per dimension) which is larger than the degree of the forms, compared with a reference built from the property's text. Throwing paths store nothing.'''
HOW["C15"]='''`lib/fault.py` reads the effect summary (unwind edges included) along one exit: the normal one, or the one taken when a given call throws in a given iteration. Blocks obtained/released and elements constructed/destroyed are balanced, allocator identities and counts compared.'''
HOW["C16"]="`lib/mem.py` gives the contents of an entry at return as an expression in the entries at the start: the last extracted write to it, its value with loads replaced by what was there at that time, recurrences followed. Compared, as rational functions, with the scalar operation compiled beside it (the oracle: `a op b` on doubles, `std::f`). Operands not assigned to have no write that changes them. Entry points which no longer compile are left out of the harness: a violation for arrays of doubles (the header's promise), undecided for class elements."
HOW["C17"]="`checks/bcast.py` generates one entry point per pair of shapes; the expected entry is the operation on the projected entries (index 0 where the extent is one, leading dimensions missing), computed in Python from the shapes alone. Shapes which do not fit must reach no return, and (class elements) no element operation before refusing."
HOW["C18"]="Returned value and reads as closed forms in the indices and the table header; for each index triple the accessor must return exactly storage[(type*N+i)*N+j] or not return, and no read of the storage may lie outside it. The storage pointer it goes through must be that of the table into which Init stores the quantity of its name."
HOW["C19"]="Members are identified by use (the one all channels share is the polarisation, the other one of a hadronic channel its mass ratio), so they may be renamed or reordered. Extracted spectra are evaluated exactly (rationals) at six points in each interval between end points for four polarisations and five mass ratios; the total is solved for its weights over the channels, each of which must be one constructor-set branching ratio, twice for leptons. Oracle: table of decay distributions of Dutta, Reno and Sarcevic (PRD 62 123001), written out in `checks/taulib.py`; particle masses and branching ratios from the same place, within a few percent."
HOW["C20"]="`lib/mem.py` follows the stores of Init into each table at concrete grids; entries must equal the channel function as extracted (so that a wrong formula is reported by C19 only) times branching ratio and Jacobian. The extents handed to resize are read from the vector or array built for it."
HOW["C21"]="`checks/h5lib.py`: which call opens what, which closes it, and what a failing call returns (HDF5 1.10 manual) is the oracle. Helpers are flattened (templates and handle destructors inlined), conditions on results rewritten to 'this call failed', and for every identifier the guard of each exit must imply that of one closing call and of no two. Handles: life cycles (scope, move, assignment to older/newer/temporary/self) in `harness/h5.cpp`. Larger units keep their helpers as calls and use a typestate walk over each function's graph, unwind edges included; calls that may close their argument are resolved through the call graph."
HOW["C22"]="Same summaries: for each call that can fail, (guard of the call and it failed) and (guard of a normal return) must be contradictory, and every normal return implies a successful transfer call. Mismatches: the library's answer (rank, class, equal types, number of values) is replaced by each wrong value in turn, after which neither the return nor the transfer may be reachable."
HOW["C23"]="On the paths that return normally, every argument of the library calls is traced to its source: which array member the extents and the data pointer come from (and whether that was read before or after the resize), which predefined type, which string. Conditional resizing is evaluated over pairs of shapes; chunk extents over a grid around the chunk size. Writer and reader attribute types are paired per type."
HOW["C24"]="Reader: transition of (row, columns, table) over one line class; writer: the sequence of insertions per row and column."
HOW["C25"]="Closed form of entry k for symbolic n; entry 0 and n-1 equal the limits, differences constant (in the logarithm)."
HOW["C26"]="GSL calls as effects on abstract matrices; matrix product identity; allocate/free balanced on every exit."
HOW["C27"]="Arguments of the GSL integrator call and of the callback, by provenance."
HOW["C28"]="Returned string per environment state; no use of an unset variable."
HOW["C29"]="harness/body.cpp includes the real source and constructs every class in every public way. Serialize gives, per entry name, type, size and the member it was written from; Deserialize gives every member of the rebuilt object as an expression over the entries read. Substituting one in the other must give the member of the original, for every construction and after every public change (SetX, ReverseTrack, SetAtmosphereHeight, SetIsConstantDensity). Arrays are compared by provenance, splines by the arrays they were built from. The registrations found among the static initialisers must map the reported name of each class to its own Deserialize."
HOW["C30"]="harness/body.cpp includes the real source. From each constructor's extracted effects the check builds the object (limits, splines and what they were built from) and evaluates the extracted density and ye of every class at positions at, around and between every region boundary, square roots kept exact. The oracle is the geometry of the class (radius from the path, impact parameter and body size) and the end values each class promises: every spline evaluation must be at the class's own radius and inside the interval it was built on, below and above it the end value must come back, density and ye must agree on the regions, no lookup may produce something that is not a number (a negative argument of a root by rounding is explored). Which file columns feed the tables, and the order and extent of trajectories, are read from the same effects. EarthAtm looks its table up at r/(R+h); this is the code's convention, stated here and not judged."
HOW["C31"]="harness/xs.cpp includes the real source. The constructors' extracted effects say which data set each interpolator (or V1 array) is read from, so every table entry carries the name, flavour, particle type and current it was stored under. Each virtual query is then evaluated from its extracted closed form for every flavour (sterile included), particle type and current at energies below, at, between, at the top of and above the table, with the flavour present, absent and null in the map, and compared with the documented answer: zero, refusal, negligible, linear scaling or the named table at log10 E and z (interpolating class) or the bilinear/triangular interpolation of the named entries (V1, 2 to 4 energies). Every read of a table and every conversion of a number to an index on the way must lie inside the table. The library's lookups and additions are evaluated with the target present and absent. Averages are not part of it."
HOW["C32"]="checks/walklib.py evaluates the extracted effects of a function in program order: loops by their recurrences and exit conditions, library calls (strings, streams, vectors, marray, splines, shared pointers, maps, HDF5 helpers) by their contract on abstract objects. Documented text and HDF5 layouts with a different number in every place are read by the extracted reader, the resulting object is written by both extracted writers, and what is written is compared with what was read, name by name, row by row, column by column, digits included; then each table in turn is removed or misshapen and refusal is required. Nothing is compiled to run and no solver is used. Found: the first table of muon and tau neutrinos was not checked for its energy range, and WriteHDF stored tables over different grids as if they shared one (both fixed)."
HOW["C35"]='harness/state.cpp includes the real sources and uses each special member once. From the layout (debug information) every member is an obligation: some store, member-wise call or block copy must take it from the same place of the source, through temporaries if need be, whenever the operation returns normally for distinct objects. Equality: the extracted result is false for objects that differ in any one entry or length of any one member, true for equal ones.'
HOW["C34"]="harness/guards.cpp includes the real nuSQuIDS.cpp and exposes every public operation. checks/proplib.py walks the extracted code of one operation on an abstract object (member cells from the class layout, arrays with extents, modelled base class); a breadth-first search from each constructor applies every operation in every state until no new combination of readiness (reference flags plus the object's own) appears. An operation must return exactly when its preconditions and indices hold, throw otherwise, touch nothing outside its arrays, and leave the object unchanged when it throws."
HOW["C36"]='`harness/terms.cpp` compiles nuSQuIDS.cpp with thin entry points for every protected term. `checks/sulib.py` walks the extracted effects of these entry points and of every repository function they call; an algebra element is a linear form over atoms (mass projector, flavour projector = mass projector rotated with the mixing in force, state of a node and type, each possibly evolved by (Hamiltonian, time, filter)); cross sections, fluxes, densities and decay spectra answer hashed rationals of all their arguments (target, energies, flavour, type, current), so two different lookups never agree by accident. `Ref` in `checks/C36.py` states the documented terms; every coefficient of every linear form must agree. Positions are visited twice with different densities, so that a buffer not cleared or not updated shows. Switches are set before, after and in the opposite order of initialisation; cross sections are replaced after use. Undefined or out-of-range table accesses met on the way are reported.'
HOW["C41"]="The walker of C34 and C36 executes EvalFlavor, EvalMass, their AtNode forms and accessors after an evolution on one abstract object. SU_vectors are linear forms over symbols: projector of a flavour rotated by the object's mixing, states by node and type, evolution operators by their Hamiltonian and time. The returned number must equal the scalar product demanded (compared as linear forms over random-valued pairings), in both bases, with and without averaging, in eight configurations; setters and getters are paired."
HOW["C42"]="Each leg sets a trajectory (forward, backward, empty, constant or varying density), optionally a new state, a basis, the switches, and walks EvolveState. Recorded calls of the integrator must add up to the trajectory's length, have its direction, start with a step of the same sign and respect the positivity interval; a leg without integration must have applied to every node the propagator of its own full Hamiltonian over the length, only where permitted, and left the basis consistent. Afterwards the evaluations must read the state in the picture it is in. PositivizeFlavors is compared with adding back the negative content."
HOW["C37"]='harness/nodes.cpp instantiates the public face of nuSQUIDSAtm<nuSQUIDS>; every operation is walked (proplib/sulib) on an object whose nodes are recorders with the identity of their position. Setters: the recorded calls must be exactly one per node (or the one asked for) with the value passed in; indices beyond the nodes must be refused. Initial states: the slice passed to node i is compared entry by entry, all neighbouring shapes must be refused before any node changes. EvolveState: every subset of failing nodes tried, tasks run when queued or when waited for (a captured loop variable shows then); must evolve each node once, share the tables, restore progress bars, and be refused when any node failed. Evaluations: compared with the bilinear interpolation as a linear form in the (node, energy, type) states with the projector evolved by the rescaled time.'
HOW["C33"]='harness/saves.cpp adds thin entry points for saving and both readers to those of C36. checks/C33.py sets a propagator up by walking its own operations, gives its state fresh symbols, walks WriteStateHDF5 with the HDF5 calls writing into a model of the file, then walks the reader on an object made for another problem. Each restored component must be the saved symbol; getters, EvalFlavor/EvalMass, H0 and HI (after PreDerive, at the restored position and further on) must agree as values or linear forms; the restored object must be accepted by EvolveState and WriteStateHDF5. A name which was never written, a store past a buffer, a handle left open, an accepted missing group or file is a violation; an HDF5 operation outside the model is undecided. Not decided here: saving and reading interaction tables (WriteStateHDF5 asks a rank-2 array, dNdE_GR, for extent(4) there, seen by reading and left).'
TAIL='''
## Limits

Integers are exact (overflow is only looked for where a property mentions it), floating point is real arithmetic except
where NaN or rounding is the point. GSL, HDF5 and the C++ library are modelled by contract. Private, unreachable code is not judged.
'''
