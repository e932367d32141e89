VG="static value-graph extraction from LLVM IR (GVN/SCCP-style dataflow with memory SSA and loop recurrences)"
TECH={
"C01":(VG+", polynomial identity of the returned value at every cell corner","Decides the identity for all grids and queries in real arithmetic; rounding is not bounded."),
"C02":(VG+", polynomial identity of the returned value at every cell corner","Decides the identity for all grids and queries in real arithmetic; rounding is not bounded."),
"C03":(VG+", guard implication for the constructor, abstract evaluation of the index expression over all order types of query and nodes","Order types are enumerated for 2 to 5 nodes per axis (2 to 8 in the thorough tier); node and query values stand for their order type."),
"C04":(VG+", provenance of every stored table entry (grid line, coordinates, spline)","All grid shapes; the spline itself is C05/C06's subject."),
"C05":(VG+" of the constructor's fills and the evaluator, with the guards of every segment","Real arithmetic; all numbers of nodes, segment placement decided by the recurrence of the fill loops."),
"C06":(VG+" of the evaluator and accessors, provenance of every coefficient read","Real arithmetic; order types of query and nodes."),
"C07":(VG+" of the subdivision loop with the worklist kept abstract; per combination of acceptances, implication of guards with leaf assignments as refutation","Real arithmetic; any integrand and any number of subdivisions (one pass of the loop from an arbitrary state)."),
"C08":(VG+" with the rules fully unrolled; abscissas and weights read off as coefficients, moments evaluated","Constants are compared to 1e-11."),
"C09":(VG+" per orientation and per set of supplied end values","Real arithmetic; NaN marks an absent value, as documented."),
"C10":("lock-set dataflow (must and may) over the control flow graphs of every pool entry point, with alias resolution of fields and unwind edges","Any number of threads and any schedule (the discipline is flow-insensitive across threads); the mutex and condition variable are modelled by their contract."),
"C11":("path-condition analysis of the submission, worker and shutdown graphs ("+"guard implication over canonical conditions"+"), with dominance and order of effects","Any number of tasks, workers and any schedule, given the lock discipline C10 decides."),
"C12":(VG+" per alignment exponent and element size; the extracted address arithmetic evaluated over residues of the address","All 32 exponents, four element sizes; all residues up to 2^9, boundary residues above."),
"C13":(VG+" of every access path (subscripts, index lists, containers, iterators, coordinates) as a polynomial in indices and extents, compared with row-major addressing","Ranks 1 to 4, const and non-const, integer arithmetic exact; preconditions (indices in range) assumed."),
"C14":(VG+" of constructors, assignments, insertion, removal, resizing and reshaping; the closed forms of header and entries evaluated on a grid of shapes larger than their degree","Ranks 1 to 3, moving and copying element types, std::allocator and allocators with an identity; products assumed not to overflow; rank-3 nested-list contents not decided."),
"C15":(VG+" with unwind edges; for the normal exit and for each call that can throw, the storage and element effects on the way out are balanced at small shapes","Ranks 1 and 2, element types that copy or move, allocators with identity in both propagation variants; every faulting call, iterations at both ends and in the middle of its loop; shapes up to 2x2 (3x1 targets)."),
"C16":(VG+": entries of the result of every operator and function as expressions in the operands' entries, compared with the operation on single numbers","Ranks 1 and 2 and class elements at shapes up to 3x3 and empty ones (loops by closed forms); matching-shape, broadcasting and mixed-type operands and sums up to rank 4 at fixed shapes. Arithmetic is the real-number operation; mathematical functions are opaque calls compared by name."),
"C17":(VG+" of the broadcasting operation instantiated at fixed shapes, recurrences followed to the entry asked for","61 pairs of shapes up to rank 4, covering every way of matching, repeating, missing and empty dimensions, and 17 pairs which do not fit; shapes are bounded, entries are symbolic."),
"C18":(VG+" of the accessors, evaluated at every kind of index triple","Tables of 0 to 3 energies; indices in range, just outside and wrapped around. Which table is which is settled by what Init stores in it."),
"C19":(VG+": channel spectra as piecewise rational functions of energies and parameters, compared with the published ones at more points than their degree in every interval","Real arithmetic; agreement is to one part in 1e9 because coefficients are doubles. The end point itself is not judged."),
"C20":(VG+" of Init; contents of every table entry as functions of the grid, against the extracted channel spectra","Six grids of one to four energies on both sides of every end point; resizing is modelled by its contract (C14)."),
"C21":("ownership and typestate analysis over control flow graphs with unwind edges; in the helpers, implication between guards with every HDF5 call described by its contract","Helpers: every combination of failing calls and exceptions. Callers (bodies, cross sections, main classes): per-function typestate with aliases through phis, branches correlated only through the test of the identifier itself; an object closed only under another condition is reported undecided. SQuIDS is declared only."),
"C22":(VG+" with every HDF5 call described by its contract; per call, no normal return is compatible with its failure","Every combination of failures and of stored rank, type and number of values. Virtual callbacks are opaque."),
"C23":(VG+": arguments of every HDF5 call on normal returns by provenance (extents, types, names, buffers, lengths); chunk extents evaluated over a grid of array extents","Ranks 1 to 3, the element types and conversions the library uses; HDF5 modelled by its documented contract on a little endian host; resizing by C14's contract."),
"C24":(VG+" of the text readers and writers, counting transitions per input line class","Input is abstracted to line and token classes; the number of lines is unbounded (loop recurrences)."),
"C25":(VG+", closed form of the filled sequence by loop recurrences","Real arithmetic; every length."),
"C26":(VG+" of the GSL wrappers; ownership effects (allocate/release) per path, with unwind edges modelled","GSL calls are modelled by their documented contract."),
"C27":(VG+" of the integrate wrapper and the callbacks it hands to GSL","GSL calls are modelled by their documented contract."),
"C28":(VG+" of the resource path lookup, per environment state","Environment abstracted to set/unset."),
"C29":(VG+" of every Serialize, Deserialize and constructor; the stored entries substituted into the reconstruction must give back the members of the original","Every public way of constructing each class and every public change of a member; array contents are compared as wholes. HDF5 helpers are judged by C21 to C23. Virtual dispatch is resolved per class."),
"C30":(VG+" of every constructor and lookup with the values member functions take on each class's own geometry; argument of every profile evaluation compared with the tabulated interval, per region of the position","Numeric tables and positions at and around every region boundary (exact roots); spline values are symbols, so any table contents."),
"C31":(VG+" of each query, every table entry labelled with the name of the data set it is read from; results compared with the documented interpolation for every flavour, particle type, current and kind of energy; every indexed read and every conversion to an index checked against the extents","Tables of 2 to 4 energies for the bilinear class, any table contents by labelling; what an interpolator returns is a symbol (decided by C01 and C06)."),
"C32":(VG+" of every reader and writer, evaluated effect by effect over abstract files, arrays, splines, shared pointers and maps (library calls by contract); a different number in every place is followed from the file to the object and back","Grids of 2 to 4 energies and 3 to 5 z, every way the flavours share data, both layouts of both formats, and each single missing or misshapen table; a write error after a successful open, and the loss of precision in the single-precision HDF5 tables, are not judged."),
"C35":("member-coverage dataflow over the compiler's class layouts: for each special member, the set of destination bytes written from the same bytes of the source, under the path condition of a normal return; "+VG+" of the comparisons",'All data members and bases of 20 classes; members of library types are carried by their own copy or move operation (by contract). Comparisons with two entries per dimension.'),
"C34":("typestate analysis by abstract interpretation: every public operation's extracted guards and effects are evaluated on an abstract propagator in every readiness state reachable by any order of calls, against the documented preconditions and index bounds","The base library's own classes and file library are modelled by contract. Readiness states are explored to a fixed point in 7 configurations (1-3 nodes, 3-4 flavours, each particle type, with and without interactions); values at, just below and far beyond each bound stand for the ranges."),
"C36":("abstract interpretation over the value graph extracted from LLVM IR: the propagator's own operations are evaluated with algebra elements kept as linear forms of projectors and states and with algebraically independent values for every density, cross section, spectrum and flux; the resulting linear forms are compared with the documented terms",'The SQuIDS algebra and base class are modelled by contract (linearity, scalar product, evolution by a buffer of phases). Real arithmetic; different rational values for every physical input make an index, sign or multiplicity error visible. 20 configurations of nodes, flavours, particle types, targets and switches, three orders of setting them; sums over nodes are uniform in the number of nodes but are evaluated at 1 to 4.'),
"C41":('abstract interpretation of the compiled operations (LLVM IR) over symbolic algebra elements: every evaluation and accessor is walked and compared with the documented scalar product','Every flavour, node, particle type, basis, and energies at and between nodes are enumerated for up to 3 nodes and 4 flavours; algebra elements, states and mixing parameters are symbols, so the verdict holds for every value. The SQuIDS library is modelled by its documented operations.'),
"C42":('typestate and value analysis over operation histories: EvolveState and its setters are walked on one abstract object over sequences of trajectories, integrator calls recorded and states kept as symbolic linear forms','11 histories in 3 configurations, lengths chosen so that leftovers show; densities, states and Hamiltonians are symbols. The integrator of SQuIDS is recorded, not analysed: accuracy of the integration is out of reach.'),
"C37":('walk of each public nuSQUIDSAtm operation over LLVM IR on an abstract object whose zenith nodes record what is asked of them; tasks of the thread pool run at once, late, and failing; evaluations compared as linear forms in the states of the nodes; search for catch handlers that forget an exception','1 to 4 zenith nodes (and none), 1 to 3 energy nodes, 3 and 4 flavours, 1, 2 and 5 threads; the nodes and the task queue are modelled by their contracts (C34, C10); random production heights not covered'),
"C33":('walk of saving and reading over LLVM IR against a model of the file (groups, datasets, attributes and their shapes); state as symbols, and every getter, evaluation and evolution term of the restored propagator compared with the saved one as linear forms','nine saved configurations (3 to 6 flavours, 1 to 3 energies, all particle types), each read by two other propagators through both readers; interaction tables in the file are not covered; a body and a trajectory of the test stand in for the registered ones (C29)'),
}
NA={
"C38":"conservation of probability to an accuracy depends on numerical integration of runtime-valued Hamiltonians in SQuIDS, which is not part of the repository or the sandbox; no static argument in reach bounds it",
"C39":"the error of an adaptive rule on an arbitrary integrand is not bounded by any property of the source; the estimate is a heuristic",
"C40":"agreement with published reference data is a statement about table contents and measurements, not about the code",
}
