#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tool/gen_properties.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
TOOLS=["include/nuSQuIDS/tools.h","src/tools.cpp"]
MA=["include/nuSQuIDS/marray.h"]

p("C01","Bicubic surface is the Hermite interpolant of its cell's node data",
  "Inside every grid cell the two-dimensional interpolator evaluates the bicubic polynomial whose value, x-slope, y-slope and cross-slope at each of the four cell corners equal the tabulated values and stored derivatives there, with slopes rescaled by the cell's dimensions. The result is therefore exact at the nodes and continuous, with continuous first derivatives, across cell edges, for every grid and every query point.",
  ["inputs"],"every grid spacing, table contents and query point inside a cell",
  "the one interpolation test covers only the tricubic class on one grid with a loose tolerance; the bicubic class is never evaluated by any test",
  TOOLS,[("evaluation of the cell polynomial","src/tools.cpp BiCubicInterpolator::operator()")],
  observe=["BiCubicInterpolator::operator()"])
p("C02","Tricubic volume is the Hermite interpolant of its cell's node data",
  "Inside every grid cell the three-dimensional interpolator evaluates the tricubic polynomial whose value, three first derivatives, three mixed second derivatives and mixed third derivative at each of the eight corners equal the tabulated values and stored derivatives, rescaled by the cell's dimensions. The result is exact at the nodes and continuous with continuous first derivatives across cell faces, for every grid and query point.",
  ["inputs"],"every grid spacing, table contents and query point inside a cell",
  "the test samples one small grid and compares against a smooth function with tolerance, so an error in a high-order coefficient or in the neighbour used by one corner stays below it",
  TOOLS,[("corner data, coefficients, evaluation","src/tools.cpp TriCubicInterpolator::operator(), collect_data, get_coeffs, evaluate_polynomial")],
  observe=["TriCubicInterpolator::operator()"])
p("C03","Grid interpolators pick the enclosing cell and validate their grids",
  "For every query the two- and three-dimensional interpolators use, per axis, the cell that encloses the coordinate, taking the first cell below the grid and the last cell at or above its upper end, and never touch an element outside the tables. Constructing one with any coordinate array whose length differs from the matching table dimension throws instead of building an interpolator.",
  ["inputs"],"every table shape, coordinate array and query point, including exactly on nodes and outside the grid",
  "tests query interior points of one well formed grid; on-node, edge and mismatched-shape inputs per axis are not exercised",
  TOOLS,[("cell lookup and clamping","src/tools.cpp BiCubicInterpolator::operator(), TriCubicInterpolator::operator()"),("shape checks","constructors")],
  observe=["BiCubicInterpolator","TriCubicInterpolator"])
p("C04","Interpolator derivative tables are taken along their own axis",
  "When a two- or three-dimensional interpolator is built, each stored first-derivative table holds, for every grid line, the spline derivative of the data along that table's axis with respect to that axis's coordinates, and each mixed-derivative table is the derivative along a further axis of a table that already holds the remaining derivatives. Every entry of every table is filled from the grid line that passes through that entry.",
  ["inputs"],"every grid shape (including unequal extents per axis) and table contents",
  "the existing test uses a grid and function for which a wrong slice or coordinate array changes the result by less than its tolerance, and never the bicubic class",
  TOOLS,[("derivative table construction","src/tools.cpp BiCubicInterpolator::BiCubicInterpolator, TriCubicInterpolator::TriCubicInterpolator")],
  observe=["BiCubicInterpolator","TriCubicInterpolator"])
p("C05","Akima spline segments are the cubic Hermite pieces of the Akima scheme",
  "A spline built from any strictly increasing abscissas is, between consecutive data points, the cubic that takes the two data values and, at each end, the slope obtained by weighting the neighbouring chords by the absolute differences of the chords beyond them, with the two missing chords at either end extrapolated linearly; where both weights vanish a piece uses the slope of its own chord. Adjacent pieces agree in value, and wherever a weight is non-zero in slope, at the shared point. Fewer than three points, unordered or repeated abscissas, and arrays of different lengths are rejected with an exception.",
  ["inputs"],"every number of points, spacing and ordinates, including zero-weight (flat) neighbourhoods and the end intervals",
  "no stable test evaluates the spline directly; the interior, first, last and degenerate-weight segments are distinct paths that samples do not separate",
  TOOLS,[("segment construction","src/tools.cpp AkimaSpline::initialize")],
  [("segments","per-interval cubic coefficients","include/nuSQuIDS/tools.h AkimaSpline")],observe=["AkimaSpline::operator()"])
p("C06","Akima spline evaluation and accessors agree with its pieces",
  "Evaluating a spline uses the piece whose interval contains the argument (the first piece below the data and the last one above it), and its reported abscissas, ordinates and slopes are, in order, one per data point and equal to the data points and to the derivative of the evaluated curve there.",
  ["inputs"],"every spline and every argument, including on data points and outside the data range",
  "no stable test evaluates the spline or reads its accessors directly",
  TOOLS,[("segment lookup and accessors","include/nuSQuIDS/tools.h AkimaSpline::operator(); src/tools.cpp AkimaSpline::get*")],
  observe=["AkimaSpline"])
p("C07","Adaptive quadrature counts every piece of the range exactly once",
  "The adaptive integrator splits a range only into contiguous, non-overlapping pieces that together cover it, hands every piece the integrand values that belong to its own end points, and for every piece either adds its contribution to the result exactly once or keeps it for further splitting. A piece is only accepted without meeting the tolerance when it can no longer be split, and that is reported to the caller.",
  ["inputs"],"every integrand, range and tolerance; every sequence of subdivisions",
  "the integrator test compares a few smooth integrands with loose tolerances; which pieces are split depends on the integrand",
  ["include/nuSQuIDS/AdaptiveQuad.h"],[("subdivision loop","include/nuSQuIDS/AdaptiveQuad.h integrate"),("piece evaluation","Interval::evaluate")],
  observe=["AdaptiveQuad::integrate"])
p("C08","Quadrature rules integrate polynomials to their nominal degree",
  "On every interval the integrator's three nested rules use nodes placed symmetrically about the interval's midpoint and inside the interval with symmetric weights that integrate every polynomial up to the rule's nominal degree exactly, scaled by the interval length, and the stored split points carry the integrand values taken at those same points.",
  ["inputs"],"every interval and every polynomial integrand up to the nominal degrees (5, 9 and 18 odd-extended)",
  "tests only check a final adaptive result, which subdivision repairs even if one rule or one weight is wrong",
  ["include/nuSQuIDS/AdaptiveQuad.h"],[("rule evaluation","include/nuSQuIDS/AdaptiveQuad.h Interval::evaluate")],
  observe=["AdaptiveQuad::Interval::evaluate"])
p("C09","Quadrature respects orientation and caller-supplied end values",
  "Swapping the integration limits negates the result on every return path, and end-point values given to or reported back by the integrator always belong to the end point the caller named, whichever order the limits are given in. The error estimate and tolerance flag are written whenever the caller supplies an options object and the integrator returns normally.",
  ["inputs","histories"],"both orders of the limits, with either, both or no end values supplied, on the direct and the subdivided return path",
  "the tests integrate left to right without supplying end values",
  ["include/nuSQuIDS/AdaptiveQuad.h"],[("limit reversal and options","include/nuSQuIDS/AdaptiveQuad.h integrate")],
  observe=["AdaptiveQuad::integrate","AdaptiveQuad::Options"])
p("C10","Thread pool shared state is only touched under its lock",
  "Every access to the pool's task queue and stop flag, by workers, submitters or the destructor, happens while the pool's mutex is held, and submitted work is executed without holding it. No schedule can therefore race on the pool's state or serialise user tasks on the pool's lock.",
  ["schedules"],"every interleaving of any number of submitters, workers and the destructor",
  "no test uses the pool, and a data race shows only under particular interleavings",
  ["include/nuSQuIDS/ThreadPool.h"],[("queue mutex","include/nuSQuIDS/ThreadPool.h ThreadPool")],
  [("tasks","pending work","ThreadPool::tasks"),("stop","shutdown flag","ThreadPool::stop")],observe=["ThreadPool"])
p("C11","Thread pool runs every accepted task once and drains before shutdown",
  "A task accepted by the pool is stored once, wakes a worker, is removed from the queue by exactly one worker and run once, and its result or exception reaches the returned future. Shutdown stops new submissions with an exception, wakes every worker, lets workers leave only once no task is pending, and returns only after every worker thread has been joined.",
  ["schedules","histories"],"every interleaving of submissions, executions and shutdown",
  "no test uses the pool; lost wake-ups and dropped tasks depend on the schedule",
  ["include/nuSQuIDS/ThreadPool.h"],[("wait predicate, notify, join","include/nuSQuIDS/ThreadPool.h ThreadPool::ThreadPool, enqueue, ~ThreadPool")],
  observe=["ThreadPool::enqueue","ThreadPool::~ThreadPool"])
p("C12","Aligned allocator returns aligned, big enough, freeable blocks",
  "For every supported alignment and element count the allocator either throws or returns a block aligned as requested that has room for all the elements inside the memory it obtained, and releasing the block always gives back exactly the pointer that was obtained. Requests whose size would overflow are refused, and allocators that compare equal can release each other's blocks.",
  ["inputs"],"every alignment exponent below 32, every element type and count, every address returned by the system allocator",
  "no test uses the allocator directly; a wrong offset shows only for particular addresses or large alignments",
  ["include/nuSQuIDS/aligned_alloc.h"],[("allocate/deallocate","include/nuSQuIDS/aligned_alloc.h aligned_allocator")],
  observe=["aligned_allocator::allocate","aligned_allocator::deallocate"])
p("C13","Multidimensional element access is row-major by every route",
  "Chained subscripts, index lists and index containers, on constant and mutable arrays of every rank, address the same row-major element: the last index moves by one element and each earlier index by the product of the later extents. Iterators, front and back, and coordinate recovery follow the same order, and constant and mutable variants of an accessor give the same element.",
  ["inputs"],"every rank, extents (including unequal and larger than 32-bit products) and index tuple",
  "the stable tests touch rank 1-3 arrays through a few subscripts only, never the list, container, iterator arithmetic or constant variants",
  MA,[("index arithmetic","include/nuSQuIDS/marray.h subscript_proxy, marray::operator[], iterators, front/back, getCoordinate")],
  observe=["marray::operator[]","marray::begin","marray::back"])
p("C14","Resizing keeps array contents, extents and size coherent",
  "After any construction, assignment, swap, insertion, removal, resize or reshape, an array's reported size equals the product of its extents and the extent of its storage. Insertion and removal along any dimension keep every surviving element at its shifted coordinates and fill new positions with the given value, and requests whose rank or total size does not fit are rejected without changing the array.",
  ["inputs","histories"],"every rank, dimension, position, count and sequence of shape-changing operations, including sizes beyond 32 bits",
  "no stable test inserts, erases, reshapes or assigns; the interesting cases are particular dimension/position/count combinations",
  MA,[("shape changes","include/nuSQuIDS/marray.h insert, erase, resize, reshape, copy/move assignment, swap")],
  [("extents","size per dimension","marray::extents"),("total size","number of elements","marray::total_size_and_alloc")],observe=["marray"])
p("C15","Array storage is released once, with its own allocator and size",
  "Every block an array obtains is released exactly once, with an allocator able to release it and the element count it was obtained with, on normal paths and on every path where an element operation, a shape check or an allocation throws; exactly the elements which were constructed are destroyed. Move construction leaves the source empty and without storage, move assignment hands over or exchanges storage together with the allocator able to release it, and assigning an array to itself changes nothing.",
  ["inputs","fault_sequences"],"every operation, with an exception at any element construction or assignment, and stateful allocators",
  "tests use trivially constructible doubles with the default allocator, so no exception or allocator mismatch can arise",
  MA,[("allocation and release","include/nuSQuIDS/marray.h constructors, copy_assign, move_assign, insert, erase, destroy_buffer")],
  observe=["marray"])
p("C16","Array arithmetic is element by element in operand order",
  "Each arithmetic operator and mathematical function on arrays applies exactly that operation to corresponding elements in the order written, for array-array, array-scalar and scalar-array operands, in the assigning and the returning forms, on the equal-shape and the broadcasting path alike. Operands taken by constant reference are left unchanged, and summations add every element exactly once to the position obtained by dropping or collapsing the summed index.",
  ["inputs"],"every operator, operand order, value category and matching or broadcastable shape",
  "no stable test uses array arithmetic; the suite's array test (not built here) samples a few commutative cases",
  MA,[("operators","include/nuSQuIDS/marray.h operator+,-,*,/ and assignment forms, applyOp, sum, sum_same_rank, math functions")],
  observe=["marray operators"])
p("C17","Broadcasting pairs elements by matching trailing dimensions",
  "When two arrays of different shape are combined, dimensions are matched from the last one backwards, a dimension of extent one is repeated, missing leading dimensions are repeated, the result has the larger rank and the larger extent in every dimension, and each result element combines the elements at the projected indices. Shapes that do not fit raise an exception before any element is computed.",
  ["inputs"],"every pair of ranks and extents",
  "no stable test combines arrays of different shapes",
  MA,[("applyOp","include/nuSQuIDS/marray.h applyOp")],observe=["marray operators"])
p("C18","Tau decay table accessors are bounds checked and read their own table",
  "Each accessor of the tau decay spectra reads the one table named by it (outgoing lepton or neutrino spectrum, all or leptonic channels) at exactly the given indices, and throws for every out-of-range initial energy, final energy or particle/antiparticle index instead of reading outside the table.",
  ["inputs"],"every index triple, on initialised and uninitialised objects",
  "no stable test constructs the decay tables",
  ["include/nuSQuIDS/taudecay.h","src/taudecay.cpp"],[("accessors","src/taudecay.cpp dNdEnu_All, dNdEnu_Lep, dNdEle_All, dNdEle_Lep")],
  observe=["TauDecaySpectra::dNdE*"])
p("C19","Tau decay spectra follow the published polarised two-body formulae",
  "The leptonic, pion, rho, A1 and hadronic tau decay spectra are, as functions of the energy fraction and the tau polarisation, the published expressions: all vanish beyond their kinematic end points, the unpolarised part of every channel integrates to one over the allowed fractions, and the polarised part has the channel's asymmetry. The total spectrum is the branching-ratio weighted sum of all channels with both leptonic modes counted, and the branching ratios and mass ratios are the particles' published ones, the former summing, with both leptonic modes, to one.",
  ["inputs"],"every pair of energies and every polarisation",
  "no stable test evaluates the decay spectra",
  ["include/nuSQuIDS/taudecay.h","src/taudecay.cpp"],[("channel formulae","src/taudecay.cpp TauDecayTo*"),("parameters","SetParameters")],
  observe=["TauDecaySpectra::TauDecayTo*"])
p("C20","Tau decay tables are filled completely and consistently",
  "Initialising the decay tables sizes all four of them to two particle types by the energy grid squared and fills every entry: the spectra in the final neutrino energy are the channel's differential spectrum divided by the initial energy, the spectra in the initial energy carry the additional Jacobian, and the all-channel and leptonic tables differ only in the channel spectrum used. Both particle types are filled.",
  ["inputs"],"every energy grid",
  "no stable test constructs the decay tables",
  ["include/nuSQuIDS/taudecay.h","src/taudecay.cpp"],[("Init","src/taudecay.cpp TauDecaySpectra::Init")],observe=["TauDecaySpectra::Init"])
p("C21","HDF5 helpers close every object they open, on every exit",
  "Every HDF5 object opened or created by a helper (array and attribute readers and writers, body and medium serialisation, cross-section and state files) is closed exactly once on every way out, including exceptions raised by the helper, by a container resize or by an owner's cleanup. Owning handle types close what they own exactly once and only if it is valid, cannot be copied, and moving one leaves every object with exactly one owner.",
  ["fault_sequences","inputs"],"every failure of a library call or allocation at every point of a helper",
  "a leak needs a failing call at a particular point, and shows only as identifiers kept open; no stable test touches HDF5",
  TOOLS+["src/body.cpp","src/xsections.cpp","src/nuSQuIDS.cpp"],[("RAII handle","include/nuSQuIDS/tools.h H5Handle, H5File"),("helpers","writeArrayH5, readArrayH5, addH5Attribute, readH5Attribute")],
  observe=["writeArrayH5","readArrayH5","addH5Attribute","readH5Attribute"])
p("C22","HDF5 helper failures are reported, never ignored",
  "When the HDF5 library reports failure while an array or attribute is being read or written through the helpers, or a body or trajectory is being stored or rebuilt, the helper throws and does not report success or hand back unread data. A stored array of another rank, and a stored attribute of another type or with more than the single value the caller asked for, is rejected the same way.",
  ["fault_sequences","inputs"],"every library call in every helper failing, and every stored type and rank",
  "no stable test touches HDF5, and a failing library call needs fault injection",
  TOOLS,[("helpers","include/nuSQuIDS/tools.h writeArrayH5, readArrayH5, addH5Attribute, readH5Attribute; src/tools.cpp string specialisations")],
  observe=["writeArrayH5","readArrayH5","addH5Attribute","readH5Attribute"])
p("C23","HDF5 arrays and attributes are stored as they are read back",
  "The array writer stores the whole array with its extents in order and the in-memory type matching the element type, the reader sizes its destination from the stored extents before reading the whole dataset into it, chunks of compressed arrays fit the array, and attribute readers and writers agree on type and length for every supported type, so that what was written is what is read. (An empty string, which the file format cannot hold, is refused.)",
  ["inputs","histories"],"every element type, rank, extent, compression level, name and string",
  "no stable test touches HDF5",
  TOOLS,[("array and attribute helpers","include/nuSQuIDS/tools.h")],observe=["writeArrayH5","readArrayH5"])
p("C24","Text tables load as the exact rectangle stored in the file",
  "Reading a numeric text table yields one row per non-blank line and one column per number, with every value at its own row and column wherever blank lines occur, and throws when lines have different numbers of columns or the file cannot be opened. Writing a table emits every element once, in row-major order, one row per line, with at least fifteen significant digits, and throws when the file cannot be created.",
  ["inputs"],"every file content, including blank lines at the start, middle and end, and every table shape",
  "no stable test reads or writes a text table",
  TOOLS,[("reader and writer","src/tools.cpp quickread, quickwrite")],observe=["quickread","quickwrite"])
p("C25","Linear and logarithmic spaces have exact size and end points",
  "A linear or logarithmic space has exactly the requested number of points, starts at the requested minimum and ends at the requested maximum, with the points between equally spaced (in the logarithm for a logarithmic space) and none left unset. Requesting zero points throws, and requesting one never writes outside the result.",
  ["inputs"],"every pair of limits and every sample count, including one and two",
  "the stable tests never check the end points or small counts",
  TOOLS,[("linspace, logspace","src/tools.cpp")],observe=["linspace","logspace"])
p("C26","Matrix basis changes are unitary conjugations and free their scratch",
  "One basis-change helper replaces a matrix by the rotation times the matrix times the conjugate-transposed rotation and its counterpart by the inverse, neither modifies the rotation, and conjugation replaces every element by its complex conjugate. All temporary matrices and integration workspaces are released exactly once, and no copy of a workspace owner can release it again.",
  ["inputs"],"every rotation and matrix of every size",
  "no stable test uses the matrix helpers",
  TOOLS,[("gsl helpers","src/tools.cpp gsl_matrix_complex_*; include/nuSQuIDS/tools.h IntegrateWorkspace")],observe=["gsl_matrix_complex_change_basis_UMUC","gsl_matrix_complex_change_basis_UCMU"])
p("C27","Library integration wrapper passes its arguments through unchanged",
  "The one-dimensional integration helper hands the integrator the caller's function, lower and upper limit in that order, requested accuracy as a relative tolerance and subdivision limit, in a workspace of the requested capacity (by default one that holds the default limit), evaluates the caller's function at exactly the requested abscissas, and returns the integral rather than the error estimate.",
  ["inputs"],"every integrand, limits, accuracy and limit",
  "the stable test uses one call pattern",
  TOOLS,[("integrate","include/nuSQuIDS/tools.h integrate")],observe=["integrate"])
p("C28","The data directory can always be overridden by the environment",
  "The location of the library's data tables is the value of its environment variable whenever that variable is set, and otherwise the installed or source location fixed at configuration; it never dereferences an unset variable.",
  ["configurations"],"every environment and installation state",
  "tests run in one environment",
  ["src/resources.cpp"],[("getResourcePath","src/resources.cpp")],observe=["getResourcePath"])
p("C29","Bodies and trajectories survive serialisation",
  "Every body and trajectory kind stores, under the group it is given, every parameter that its reconstruction needs and the reconstruction reads the same names and passes them to the matching constructor parameters, so a saved body or trajectory rebuilt from file is equivalent to the original. Every serialisable kind is registered with the factory under the name it reports.",
  ["inputs","histories"],"every body and trajectory kind and every parameter value",
  "body.cpp is not built or tested in this environment; the round trip needs every kind and distinct parameter values",
  ["include/nuSQuIDS/body.h","src/body.cpp"],[("Serialize/Deserialize pairs and registration","src/body.cpp")],observe=["Body::Serialize","Track::Serialize"])
p("C30","Body profiles stay inside their tables and agree on geometry",
  "Density and electron-fraction lookups of every body evaluate their profile only inside its tabulated range, clamping below and above to the end values where documented, and both lookups of a body agree on the radius and on the region boundaries they use. The radius used is that of the trajectory's geometry, tables are read from the documented file columns, a lookup never yields something that is not a number where rounding pushes the radius out of its range, and outside the table the first or last tabulated value (or vacuum, or the thinning atmosphere, where the class promises these) comes back. Trajectories report initial and final positions in order and express the full path given to them.",
  ["inputs"],"every body, trajectory and position",
  "body.cpp is not built or tested in this environment; edges are particular radii",
  ["include/nuSQuIDS/body.h","src/body.cpp"],[("density/ye","src/body.cpp")],observe=["Body::density","Body::ye"])
p("C31","Cross-section queries answer from the right table, inside it",
  "A total or single-differential cross section of the two tabulated implementations is zero for sterile neutrinos; an energy above the tabulated range throws; between the lowest and the highest tabulated energy, both included, the answer is the documented interpolation of the table of exactly the flavour, particle type and current (charged or neutral) asked for, and a flavour without a table throws. Below the range the total cross section scales linearly with the energy, or is negligible below 10 GeV where the table starts above 10 GeV, and the differential one is negligible. No query reads a table outside its entries or turns a number no index can hold into an index, at any incoming or outgoing energy. The cross sections absent by construction are zero, and a cross-section library returns what was added for the target asked for, nothing for other targets, and refuses to redefine one.",
  ["inputs"],"every energy, flavour, particle type and current, for every cross-section implementation",
  "the cross-section code is not built or tested in this environment; the upper edge is a single energy",
  ["include/nuSQuIDS/xsections.h","src/xsections.cpp"],[("range guards and table selection","src/xsections.cpp")],observe=["NeutrinoCrossSections"])
p("C32","Cross-section files round trip in both formats",
  "Tables written by the cross-section writers, in text or HDF5 form, use the names, column order and row order that the corresponding readers expect, for every current, flavour and particle type, so writing and reading back gives the same cross sections. Readers refuse sets of tables whose sizes or energy ranges disagree or which are incomplete, and writers refuse tables one file cannot represent and files they cannot open.",
  ["inputs","histories"],"every table content and both formats",
  "the cross-section code is not built or tested in this environment",
  ["src/xsections.cpp"],[("readers and writers","src/xsections.cpp")],observe=["WriteHDF","WriteText"])
p("C33","A saved propagation state restores what it saved",
  "A propagator without interactions, saved to a file and read by another one, made for any other problem, answers as the saved one: the state, energies, number of flavours and particle types, mixing parameters, times, the oscillation switch, the body and the position along the trajectory are restored, and every evaluation and every term of the evolution equation agrees, at that position and further on; what was read can be evolved and saved again. States saved in different groups of one file do not affect each other, a group or file that is not there is refused, saving without a trajectory or a state is refused and touches no file, and every file and group that is opened is released.",
  ["histories","inputs"],"every configuration (single or multiple energy, neutrinos, antineutrinos or both, every number of flavours, evolved or not), whatever the reading propagator was made for",
  "the main class is not built or tested in this environment; the missing item shows only in particular configurations",
  ["include/nuSQuIDS/nuSQuIDS.h","src/nuSQuIDS.cpp"],[("WriteStateHDF5/ReadStateHDF5","src/nuSQuIDS.cpp")],observe=["nuSQUIDS::WriteStateHDF5","nuSQUIDS::ReadStateHDF5"])
p("C34","State, parameter and index preconditions are checked before use",
  "Operations of the main class that need a state, body, trajectory, energies, interactions or a multi-energy setup refuse to run with an exception until these have been provided, and every public accessor taking a flavour, particle-type, node or energy index rejects every out-of-range value, the first invalid one included, before using it. Changing a mixing parameter or the energy invalidates a prepared state, new cross sections invalidate prepared interactions, tau regeneration needs both particle types and interactions, the Glashow resonance needs interactions, and a refused call leaves the object as it was.",
  ["histories","inputs"],"every order of calls and every index value",
  "the main class is not built or tested in this environment; boundary indices and call orders are not sampled",
  ["include/nuSQuIDS/nuSQuIDS.h","src/nuSQuIDS.cpp"],[("guards","src/nuSQuIDS.cpp")],observe=["nuSQUIDS"])
p("C35","Moving a propagator or its tables transfers all of its state",
  "After move construction or move assignment of a propagator, and after copying or moving its interaction tables, the destination carries every piece of state that influences later evolution or output, and comparing two interaction tables compares all of them.",
  ["histories"],"every object state and every sequence of moves and copies",
  "the main class is not built or tested in this environment; a forgotten member shows only when it differs from its default",
  ["include/nuSQuIDS/nuSQuIDS.h","src/nuSQuIDS.cpp"],[("move constructor and assignment","src/nuSQuIDS.cpp")],observe=["nuSQUIDS(nuSQUIDS&&)","InteractionStructure"])
p("C36","Every term of the evolution equation is the documented one and enters once",
  "The initial state is the sum of its entries times the projectors of the basis it was given in. The matter potential, the absorption, the reinjection by neutral currents, tau decays and the Glashow resonance, and external sources each enter exactly once per energy and particle type, with their own energy, flavour, particle type and target; antineutrinos have the opposite potential and conjugate mixing. Switches and replaced cross sections take effect whatever the order in which they are set.",
  ["inputs","configurations","histories"],"every particle-type configuration, every combination of switched-on terms, every material composition, and every order of setting them",
  "the main class is not built or tested in this environment; each term is an index-heavy sum whose errors (a wrong node, flavour, target or sign, a term added twice, a buffer not cleared) change results only slightly",
  ["src/nuSQuIDS.cpp"],[("HI, GammaRho, InteractionsRho, UpdateInteractions","src/nuSQuIDS.cpp"),("PreDerive, EvolveProjectors, GetHamiltonian","src/nuSQuIDS.cpp"),("Set_initial_state","src/nuSQuIDS.cpp"),("InitializeInteractions, GetCrossSections","src/nuSQuIDS.cpp")],observe=["nuSQUIDS"])
p("C37","Atmospheric propagation forwards settings to and reports errors from all nodes",
  "Every physics or numerical setting made on the atmospheric propagator reaches every zenith node with the value given (settings made for one node reach that node and reject indices out of range), every node gets its own part of the initial state and the trajectory of its zenith through the current Earth model, and all nodes share one set of interaction tables. Evolution evolves every node exactly once, and an exception raised while any node evolves reaches the caller whatever the number of threads. Evaluation interpolates linearly in cosine and energy between the enclosing nodes, with the projector, particle type and evolution time asked for, and rejects zeniths, energies, flavours, types and averaging vectors that do not fit.",
  ["schedules","configurations","inputs"],"every number of zenith nodes and threads and every setter",
  "the template is not instantiated by any test in this environment",
  ["include/nuSQuIDS/nuSQuIDS.h"],[("nuSQUIDSAtm","include/nuSQuIDS/nuSQuIDS.h")],observe=["nuSQUIDSAtm"])
p("C38","Total probability is conserved in pure oscillation",
  "Without absorption, the flavour probabilities obtained after any evolution sum to the initial norm for every energy, mixing, body and path, within the requested integration accuracy.",
  ["inputs","histories"],"every evolution without absorption","needs the full stack with SQuIDS, absent here; the tests sample a few configurations",
  ["src/nuSQuIDS.cpp"],[("EvolveState","src/nuSQuIDS.cpp")],observe=["nuSQUIDS::EvalFlavor"])
p("C39","Adaptive integration meets the tolerance it was asked for",
  "Whenever the integrator reports being within tolerance, the returned value differs from the true integral by no more than the requested relative error.",
  ["inputs"],"every integrand","tests sample a few smooth integrands",
  ["include/nuSQuIDS/AdaptiveQuad.h"],[("error control","include/nuSQuIDS/AdaptiveQuad.h integrate")],observe=["AdaptiveQuad::integrate"])
p("C40","Tabulated cross sections and interpolations reproduce physical references",
  "Interpolated cross sections, decay spectra and fluxes agree with the published physical references within the stated accuracy over their whole range.",
  ["inputs"],"every energy in range","reference data comparison at sampled points only",
  ["src/xsections.cpp","data"],[("tables","data/")],observe=["NeutrinoCrossSections"])
p("C41","Evaluations answer for the projector, state, energy and particle type asked for",
  "After any evolution, evaluating a flavour or mass content at a node or at an energy gives the scalar product of exactly that projector, of that particle type, evolved with the vacuum Hamiltonian of that energy when the state is kept in the interaction basis, with the state of that node or the linear interpolation of the two enclosing nodes; averaging is applied with the scale and flags given; mixing parameters, energies and states are read back as they were set.",
  ["inputs","configurations"],"every flavour, energy, particle type, basis and averaging request, with single and several energies, active and sterile flavours",
  "the main class is not built or tested here; an evaluation that reads another node, particle type or picture differs by a phase or by nothing in symmetric test states",
  ["src/nuSQuIDS.cpp"],[("EvalFlavor, EvalMass, EvalFlavorAtNode, EvalMassAtNode","src/nuSQuIDS.cpp"),("GetFlavorProj, GetMassProj, GetState, Get_MixingAngle, Get_CPPhase, Get_SquareMassDifference","src/nuSQuIDS.cpp")],observe=["nuSQUIDS"])
p("C42","An evolution covers its whole trajectory, whatever came before it",
  "EvolveState takes the state it finds along the whole of the current trajectory, in the direction of that trajectory: its integration steps add up to the trajectory's length, none goes the wrong way or exceeds the interval of the positivity constraint, and exact propagation with the full Hamiltonian is used only when it was asked for, the density is constant, interactions are off and the state is in a picture where it is valid. This holds whatever evolutions, trajectories, bases and states came before, and states are read afterwards in the picture they are in. The positivity constraint adds back what is missing of negative flavours and changes nothing else.",
  ["histories","inputs","configurations"],"every sequence of trajectories (forward, backward, empty), constant or varying density, new states, bases and switches",
  "histories of several evolutions on one object are not sampled by any test here; flags and settings left over from an earlier evolution change a later one silently",
  ["src/nuSQuIDS.cpp"],[("EvolveState, PositivizeFlavors","src/nuSQuIDS.cpp"),("Set_Track, Set_Basis, Set_PositivityConstrain, Set_AllowConstantDensityOscillationOnlyEvolution","src/nuSQuIDS.cpp")],observe=["nuSQUIDS"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
