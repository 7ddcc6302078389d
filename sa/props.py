"""Single source of truth of the properties: texts for properties.jsonl, the
rules deciding them, and the entries of MANIFEST.json (see genprops.py)."""

S = "applications/sintering/include/pf-applications/sintering/"
I = "include/pf-applications/"
GT = I + "grain_tracker/"

PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, qtext, why, files, mech, rules, explanation, technique, level_note,
         state=(), observe=(), assumptions=(), exact=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, rules=rules, explanation=explanation, technique=technique,
                      level_note=level_note, state=state, observe=observe, assumptions=list(assumptions), exact=exact)


def na(pid, title, statement, over, qtext, why, files, mech, reason, observe=()):
    NOT_APPLICABLE[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                               mech=mech, reason=reason, state=(), observe=observe)


BASE_ASSUME = [
    "the source type-checks against the dealii/boost declaration overlay generated from the installed headers",
    "template code is judged on the instantiations made by the analysed translation units (2D programs, one 3D unit) ",
]

# --------------------------------------------------------------------------
prop("R01", "Restart archives carry the whole persistent state, symmetrically",
     "Everything that determines the continuation of a run is written to the restart archives, and reading an archive "
     "consumes exactly the items that were written, in the same order and with the same types.",
     ["histories", "crash_points", "configurations"],
     "every point at which a restart file may be written, every grain representation, every history depth and every set of archived members",
     "No stable test performs a save/restart cycle of the driver; only two small archive tests exist and they sample single objects.",
     [S + "driver.h", GT + "grain.h", GT + "segment.h", GT + "representation.h", GT + "ellipsoid.h",
      I + "time_integration/time_integrator_data.h", I + "base/solution_serialization.h"],
     [("serialize / save / load members of all archived classes", GT + "*.h, " + I + "time_integration"),
      ("restart streams", S + "driver.h")],
     [("ser", "run")],
     "Every class with an archive member: all members that later code reads and that are not rebuilt are archived (complete), "
     "save and load touch the same members in the same order with the same types (symmetric), base classes and registered "
     "polymorphic types are covered, and the write and read sequence of every restart stream of the driver agree item by item.",
     "member-completeness and stream-agreement analysis over the type-checked AST",
     "Decides completeness and write/read agreement of the archives, the necessary structural part; it does not decide that the restored numbers reproduce the run bit for bit.",
     observe=["contents of the restart files", "state of the driver after a restart"])

prop("M01", "Reductions agree on datatype, size and operation",
     "Every message-passing reduction or exchange uses a datatype that matches its buffers, counts that match their length, buffers "
     "that do not illegally overlap, and a combination (sum, maximum, minimum) that matches how the process-local contribution was "
     "accumulated and initialised.",
     ["schedules", "inputs", "configurations"],
     "every number of processes and every distribution of the mesh, including processes that own no matching cell",
     "The tests run with one or few fixed process counts and small meshes; wrong start values or datatypes only show for particular distributions or signs.",
     [GT + "distributed_stitching.h", "src/grain_tracker/distributed_stitching.cc", S + "postprocessors.h", S + "advection.h", S + "operator_base.h", S + "projection.h"],
     [("MPI_Allreduce / Exscan / Scatterv calls and Utilities::MPI reductions", GT + "distributed_stitching.h, " + S + "postprocessors.h")],
     [("reduce", "run")],
     "For each MPI call: datatype constant against the buffer's element type, count against the buffer's size expression, aliasing of send and receive buffers, defined result of exclusive scans on the first process; for each min/max/sum reduction: the local accumulation uses the same operator and starts from its identity.",
     "dataflow from local accumulation to reduction over the type-checked AST",
     "Decides agreement of datatype, count, operator and start value at each reduction; trusts MPI itself and the element formulas.",
     observe=["grain statistics", "domain quantities", "stitched particle numbers"])

prop("M02", "Every cell contributes exactly once to global quantities",
     "Quantities accumulated over mesh cells or vector entries and then combined over all processes count the locally owned entities only, so that "
     "each cell or entry contributes exactly once irrespective of how the mesh is distributed.",
     ["schedules", "inputs", "configurations"],
     "every distribution of the mesh over processes",
     "Double counting of ghost entities needs several processes and a partition boundary that crosses a grain; the tests check only few fixed cases.",
     [GT + "distributed_stitching.h", S + "postprocessors.h", S + "postprocessors_stats.h", S + "driver.h"],
     [("ownership filter in front of accumulations that feed a reduction", GT + "distributed_stitching.h, " + S + "postprocessors.h")],
     [("reduce", "run_owned")],
     "For each loop over cells whose accumulated value is reduced over the processes: the accumulation is dominated by a locally-owned filter (directly, through a filtered range, or through the callee that visits the cell).",
     "guard-dominance analysis of accumulations that flow into reductions",
     "Decides that an ownership filter dominates each accumulation that is reduced; does not decide the accumulated formula.",
     observe=["grain volumes, centres, inertia", "mesh statistics"])

prop("M03", "Collective operations are entered by all processes",
     "No collective operation (reduction, ghost exchange, mesh change, parallel output, linear solve) is reached under control flow that depends on "
     "process-local data, so that all processes enter the same collective operations. "
     "Element-wise reductions and broadcasts are entered with the same number of elements on every process.",
     ["schedules", "inputs", "configurations"],
     "every number of processes, every mesh distribution, every run-time path to a collective call",
     "A deadlock needs a particular distribution (for example a process that owns no cell); tests with few processes do not produce it.",
     [S + "driver.h", GT + "distributed_stitching.h", GT + "tracker.h", S + "postprocessors.h", I + "lac/dynamic_block_vector.h"],
     [("control flow around collective calls", "all sources")],
     [("uniform", "run_collectives")],
     "Interprocedural rank-dependence analysis: labels process-local values (rank, owned cells, local sizes, local clocks) through assignments, members, calls and returns, drops the label at reductions, and tracks which branches, loops and early exits they decide; each collective call site (direct, or through any callee that is collective) must not be control dependent on a label. The number of elements of containers is tracked alongside (size arguments, resize, copies, insertions under rank dependent control) and must carry no label where a container or a count enters an element-wise collective.",
     "interprocedural information-flow (taint) analysis with control dependence",
     "Decides control dependence of collective calls on process-local data; values stored inside distributed objects (vectors, matrices) are not tracked.",
     observe=["termination of parallel runs"])

prop("M04", "Reported quantities are global, not those of the writing process",
     "Values written by one process on behalf of all (log output, result tables, statistics) do not depend on the part of the mesh owned by the writing process: "
     "they are replicated or have been combined over all processes.",
     ["schedules", "inputs", "configurations"],
     "every number of processes and every mesh distribution",
     "With one process every local value equals the global one; the few parallel tests do not look at most reported values.",
     [S + "driver.h", S + "postprocessors.h", S + "postprocessors_stats.h", S + "advection.h", GT + "output.h"],
     [("values streamed into conditional streams or added to tables", S + "driver.h, " + S + "postprocessors*.h")],
     [("uniform", "run_reports")],
     "Uses the labels of the rank-dependence analysis: each value streamed into a conditional (one-process) stream or added to a result table must not carry a process-local label. Elapsed wall-clock times are exempt.",
     "interprocedural information-flow (taint) analysis",
     "Decides independence of reported values from process-local data where the flow passes through locals, members, calls and containers; local entries of distributed vectors are labelled at element access.",
     observe=["log output", "result tables"])

prop("M05", "A result file has a single writing process",
     "A file whose name is the same on all processes is written by exactly one of them, so that its content is neither duplicated nor truncated by a "
     "process that is late.",
     ["schedules", "configurations", "crash_points"],
     "every number of processes and every relative speed of the processes",
     "The damage shows only for particular relative speeds of several processes or when the run is interrupted.",
     [S + "driver.h", S + "postprocessors.h", S + "postprocessors_stats.h", "applications/sintering/src/postprocessors.cc"],
     [("guards on the process number around file output", S + "driver.h, " + S + "postprocessors_stats.h")],
     [("uniform", "run_files")],
     "Each file stream opened by library or application code: every write to it (also through archives) is dominated by a test that holds on one process only, in the function or in all of its callers, or the file name itself differs between processes.",
     "guard-dominance analysis over file stream uses",
     "Decides the guard in front of each write; files written by deal.II or MPI-IO are trusted.",
     observe=["result tables", "restart files"])

prop("M06", "Replicated simulation state stays identical on all processes",
     "The records every process keeps of the global simulation (grains, their segments, order parameter assignment, remappings, motion data, time stepping state) "
     "are computed from replicated or globally combined values only, so all processes hold the same records.",
     ["schedules", "inputs", "configurations"],
     "every number of processes and every mesh distribution, including grains that live on few processes only",
     "With one process, or when every process happens to see each grain, a missing exchange goes unnoticed.",
     [GT + "tracker.h", GT + "grain.h", GT + "segment.h", GT + "distributed_stitching.h", GT + "remap_graph.h", GT + "motion.h", S + "advection.h", S + "driver.h",
      I + "time_integration/time_integrator_data.h"],
     [("members of tracker, grains, segments, remap graph, time integrator data, driver", GT + "*.h, " + S + "driver.h")],
     [("uniform", "run_replicated")],
     "Uses the labels of the rank-dependence analysis: no member of the classes that describe the global simulation may receive a process-local value, directly or through callees, constructors and containers.",
     "interprocedural information-flow (taint) analysis",
     "Decides independence of replicated members from process-local data; nondeterminism that is not caused by the mesh distribution (unordered containers) is out of scope.",
     observe=["grain tracker state on every process", "time step on every process"])

# --------------------------------------------------------------------------
EXACT_ASSUME = [
    "formulas are compared as real-number formulas: rounding, vector lanes and overflow are not modelled",
    "comparisons that only cut off unphysical or vanishing arguments are taken on their regular branch on both sides of a comparison",
    "template code is judged on the explicit instantiations listed in sa/inst/insta.cc",
]
NF = ("abstract interpretation of the type-checked source in a normal-form domain (interprocedural value numbering of formulas: "
      "multivariate Laurent polynomials over square roots, exponentials and reciprocals); no solver and no execution")

prop("P01", "Free energies, their derivatives and all their evaluation paths agree",
     "Every first or second derivative which a free energy offers is the exact derivative of the energy itself for every state and number of grains, and all "
     "evaluation paths (fixed or run-time grain count, full or reduced sets of terms, matrix-free products) yield the same values. "
     "Pure phases are stationary states of the sintering energy with zero energy.",
     ["inputs", "configurations"],
     "every concentration, every order parameter vector, every number of grains analysed (1 to 5), every model constant",
     "A wrong derivative still converges, only slower or to a slightly shifted state; the tests compare few sampled values, the matrix-free paths are untested.",
     [S + "free_energy.h", S + "operator_grain_growth.h", S + "operator_grand_potential_greenquist.h", S + "operator_sintering_data.h", I + "numerics/power_helper.h"],
     [("free energy evaluators and their power sums", S + "free_energy.h"), ("grain growth and grand potential energies", S + "operator_grain_growth.h")],
     [("algebra", "run_energy")],
     "Each evaluator of each energy class is interpreted symbolically over an arbitrary state; every derivative method is compared with the formal derivative of the method it is named after (method names follow d<n>f_d<variables>), "
     "each value is compared between all evaluators, off-diagonal Hessian products with the sums of second derivatives, and the first derivatives are evaluated in the pure phases.",
     NF, "Exact equality of formulas for 1 to 5 grains; larger grain counts run through the same loops but are not enumerated.",
     observe=["free energy values", "Newton convergence rate", "equilibrium states"], assumptions=EXACT_ASSUME, exact=["insta"])

prop("P02", "Mobility, its linearisation and its coefficients agree",
     "The linearised flux of each mobility model is the derivative of its nonlinear flux, the separately offered partial derivatives and contributions are "
     "those of the mobility itself, and each transport mechanism receives the coefficient computed from its own parameters.",
     ["inputs", "configurations"],
     "every concentration, gradient and order parameter vector, every set of mobility coefficients and temperatures",
     "An inconsistent linearisation only slows the nonlinear solver; swapped coefficients give plausible results in the symmetric parameter sets of the tests.",
     [S + "mobility.h"],
     [("scalar and tensorial mobility", S + "mobility.h"), ("abstract, provided and realistic coefficient providers", S + "mobility.h")],
     [("algebra", "run_mobility")],
     "Each mobility class is interpreted symbolically; the linearised product is compared with the directional derivative of the flux (with the documented simplification of frozen grain boundary normals), "
     "the parts with the corresponding terms, and every coefficient of every provider with the common law applied to the parameters of its own mechanism.",
     NF, "Exact equality of formulas for 1 to 3 grains in 2D; cut-offs at vanishing gradients are compared on their regular branch.",
     observe=["diffusion fluxes", "Newton convergence rate"], assumptions=EXACT_ASSUME, exact=["insta"])

prop("P03", "Time schemes reach their order with arbitrary step sizes",
     "Each implicit scheme differentiates polynomials up to its nominal order exactly for every sequence of step sizes, including the start-up phase with a short history, and each explicit "
     "scheme satisfies the order conditions of the order announced by its name. The stored step sizes are always the most recent ones, newest first, and the weights always belong to them.",
     ["inputs", "histories"],
     "every sequence of step sizes, every length of the available history, every switch between schemes",
     "Tests use constant or a few step sizes; a wrong weight for unequal steps only lowers the convergence order.",
     ["include/pf-applications/time_integration/time_schemes.h", "include/pf-applications/time_integration/time_integrator_data.h"],
     [("compute_weights of the BDF schemes, stages of the Runge-Kutta schemes", "include/pf-applications/time_integration/time_schemes.h"),
      ("step history", "include/pf-applications/time_integration/time_integrator_data.h")],
     [("algebra", "run_schemes")],
     "The weights of each implicit scheme are computed symbolically for unknown step sizes and checked against the moment conditions for every history length; the stages of each explicit scheme are checked against the rational order conditions; "
     "the history object is stepped symbolically through updates, replacements and changes of scheme.",
     NF, "Exact for all step sizes; covers schemes of the code base (orders 1 to 4).",
     observe=["convergence order in time", "step history after rejected steps"], assumptions=EXACT_ASSUME, exact=["insta"])

prop("P04", "Piecewise functions interpolate their points and continue as configured",
     "A function given by points takes the given value at each point, is linear between neighbouring points, and continues beyond the outermost points constantly or along the "
     "outermost segment as configured, regardless of the order in which the points were added and of their number.",
     ["inputs", "configurations"],
     "every argument in, at and outside the points, 1 to 3 points, every insertion order, both continuations",
     "Tests evaluate few arguments; the outermost segments, the points themselves and functions with a single point are not among them.",
     [I + "numerics/functions.h"],
     [("evaluation of piecewise functions", I + "numerics/functions.h")],
     [("functions", "run")],
     "The evaluation is interpreted with unknown points and values for each position of the argument relative to the points (order type); the resulting formula is compared with the interpolant of the segment concerned. A read beyond the stored points is reported as well.",
     "abstract interpretation over order types of the argument and a normal-form domain of formulas; no solver and no execution",
     "Exact for all values and arguments with up to three points; a segment's formula does not depend on further points.",
     observe=["boundary loads and temperatures that are given as functions of time"],
     assumptions=["formulas are compared as real-number formulas", "ordered containers of the standard library are modelled, not analysed"], exact=["instb"])

prop("G03", "Block vectors behave like the concatenation of their blocks",
     "The vector of dynamically many blocks keeps its size, its block count and its index map in step with its blocks after every operation, and each vector operation "
     "acts on every block with the meaning it has for plain vectors. Copies own their entries and ghost state; views share the blocks they were made from.",
     ["histories", "inputs"],
     "every operation from every small block layout, block counts 0 to 4, views and reordered vectors, ghosted or not",
     "Blocks are added, removed and permuted when grains vanish or are recoloured; a stale index map or a skipped block shows only in later operations.",
     [I + "lac/dynamic_block_vector.h"],
     [("operations of the dynamic block vector", I + "lac/dynamic_block_vector.h")],
     [("blocks", "run")],
     "Each member function is interpreted on abstract block vectors (blocks are opaque plain vectors with a size, a ghost state and a symbolic content); afterwards the layout must satisfy size = sum of block sizes and index map = block sizes, "
     "entrywise operations must have applied the plain operation once to each block, combined values must be the combination over all blocks, copies must not share blocks.",
     "abstract interpretation over block layouts with symbolic block contents; no solver and no execution",
     "Layouts with up to four blocks are enumerated, the loops treat further blocks alike; plain vectors are trusted.",
     observe=["solution vectors after remapping", "norms and dot products in the solvers"],
     assumptions=["plain distributed vectors of the finite element library are modelled, not analysed"], exact=["instb"])

prop("G05", "A search that may fail is tested before its result is used",
     "The result of a search in a container, and the extreme, first or last element of a container, is used only where the search is known to have "
     "succeeded or the container is known to have elements, also on a process that owns no cell, in a domain without grains and for an unknown key.",
     ["inputs", "schedules", "configurations"],
     "every content of the searched containers, including the empty one, on every process",
     "The tests always find what they search for and give cells and grains to each process; an empty process needs more processes than cells.",
     [GT + "tracker.h", GT + "tracking.h", GT + "remap_graph.h", GT + "representation.h", GT + "distributed_stitching.h",
      S + "operator_sintering_data.h", I + "numerics/functions.h"],
     [("searches, extrema and first/last elements", "all sources")],
     [("lookups", "run")],
     "Each dereference of an iterator returned by find/lower_bound/min_element/..., of begin() or of the element before end(), and each front()/back(), must be dominated by a test of the "
     "iterator or by a fact that the container is not empty (size test, insertion, construction with a positive size, loop over the same container), followed through calls from the callers.",
     "interprocedural typestate (validity of iterators) dataflow analysis",
     "Decides uses whose container and iterator can be named; subscripts are outside of this property. Uses that cannot be resolved are listed as notes.",
     observe=["crashes or garbage on processes without cells or grains"])

prop("G06", "A value that stands for 'nothing' is told apart before it is used",
     "Identifiers and indices that carry a reserved value meaning 'no grain', 'no particle', 'not found' or 'not assigned' are compared with something before they serve as an index, as a key, as an operand of arithmetic "
     "or as an argument of an operation that relies on a proper value. This holds on every path and for every process, cell and grain, also where no particle covers the cell.",
     ["inputs", "schedules", "histories"],
     "every distribution of particles over cells and processes, every outcome of a search for a particle",
     "In the tests each search finds its particle and each order parameter is covered; the reserved value then never reaches the place where it matters.",
     [GT + "tracker.h", GT + "tracking.h", GT + "distributed_stitching.h", S + "postprocessors.h", S + "operator_advection.h", S + "boundary_conditions.h", S + "operator_sintering_data.h"],
     [("uses of values that may be reserved ones", "all sources")],
     [("sentinels", "run")],
     "Reserved constants (invalid identifiers, largest integer) and cell-wise fields of identifiers are sources; they are followed through variables, members, containers, tuples, parameters and results. Each use as index, key, operand "
     "of arithmetic or argument of a function that relies on it must be dominated by a comparison that tells the value apart, in the function, in a predicate it calls or in its callers.",
     "interprocedural taint and must-have-been-tested dataflow analysis",
     "Whether the value compared with is the right one is decided for reserved constants only; values that pass through containers of unknown shape are followed as a whole.",
     observe=["crashes, garbage quantities or quantities of another grain"])

prop("G02", "Nothing is read before it has been given a value",
     "Every data member of basic type has a value when the constructor of its object has finished, whichever constructor was used. Every local variable of basic type, and every member of a local aggregate, "
     "has been given a value on each path that leads to a read of it.",
     ["inputs", "configurations", "histories"],
     "every constructor, every path through every function and every instantiation of the templates",
     "An object without value often happens to hold zero in a test; it differs with the optimisation level, the allocator and what ran before.",
     [GT + "tracker.h", S + "driver.h", S + "operator_sintering_data.h", S + "operator_sintering_generic.h", S + "free_energy.h", I + "lac/jacobian_operator.h"],
     [("constructors and local variables", "all sources")],
     [("classes", "run_init")],
     "Members: must-assign analysis of every constructor, through initialiser lists, delegation, calls on the object under construction and reading from an archive. Locals: reaching-declaration analysis with strong updates; "
     "arguments handed over by reference count as written, arrays are judged by their first use in program order.",
     "definite-assignment dataflow analysis over the type-checked AST",
     "Objects of class type initialise themselves and are not tracked; arrays are judged as a whole, not per element.",
     observe=["any output computed from the value"])

prop("R03", "Copies, assignments, moves and clones transfer the whole object",
     "A user-written copy constructor, assignment, move, swap or clone gives each data member of the new object the value of the same member of its source (or recomputes it from members that were transferred). "
     "A copy owns its storage and a clone has the dynamic type of its source.",
     ["histories", "inputs"],
     "every object state and every class with user-written copy, move, swap or clone operations",
     "Copies are made when time steps are retried, when the grain tracker is cloned and when histories are shifted; tests compare few of the members afterwards.",
     [GT + "segment.h", GT + "representation.h", GT + "tracker.h", I + "time_integration/time_integrator_data.h", I + "time_integration/time_schemes.h", I + "lac/dynamic_block_vector.h"],
     [("copy, move, swap and clone operations", "grain tracker, time integration, block vectors")],
     [("classes", "run_copy")],
     "For each such operation the dataflow from source to target is followed through initialisers, assignments, constructor parameters and helper functions: each member must be made of the member of the same name, "
     "members of the target may be recomputed from others, an owning pointer must not be copied as a pointer, a clone must construct its own class.",
     "member-transfer dataflow analysis over the type-checked AST",
     "Members are matched one to one; whether a recomputed member gets the right value is decided elsewhere (block vectors) or not at all.",
     observe=["state after a rejected time step", "state of cloned trackers"])

prop("X01", "Arguments reach the parameters that carry their names",
     "Where the arguments of a call, or the initialisers of data members, carry the names of parameters (members) they could go to, they are passed in the positions of those names and not interchanged.",
     ["programs", "configurations"],
     "every call and every constructor of the project",
     "Thresholds, ratios, flags and indices share a type, so that an interchange compiles; the tests use values for which it does not matter.",
     [GT + "tracker.h", S + "driver.h", GT + "distributed_stitching.h", I + "time_integration/time_marching.h"],
     [("calls and member initialisers", "all sources")],
     [("args", "run")],
     "For each call whose callee is defined in the project, and each constructor, the names of arguments (variables, members, getters) are matched with the names of the parameters (members); a cycle in the matching is an interchange. "
     "Callers that use both orders on purpose are exempt.",
     "custom lint over resolved calls in the type-checked AST",
     "Decides interchanges that show in the names, not arguments with unrelated names.",
     observe=["behaviour controlled by the interchanged parameters"])

prop("T01", "A Newton solve returns only converged iterates",
     "When the nonlinear solve returns, the residual of exactly the returned iterate, right-hand side included, met the absolute tolerance or was reduced by the relative tolerance from its initial norm; otherwise it throws. "
     "Each step solves the system linearised at the current iterate with minus its residual, starting from a zero increment, is taken over only if the residual norm went down, and all loops are bounded by counters.",
     ["inputs", "fault_sequences"],
     "every nonlinear problem, tolerance, initial guess and damping history",
     "Tests solve benign problems that converge in a few undamped steps.",
     [I + "lac/newton.h"],
     [("damped Newton iteration", I + "lac/newton.h")],
     [("newton", "run")],
     "A must-analysis tracks which vector holds the (negated, right-hand side corrected) residual of which iterate, which scalar holds its norm, and which iterate passed which test, through copies, conditions and loops. "
     "Obligations: test passed at every return, right operands at the linear solve, decrease test before an iterate is taken over, absolute and relative tolerances not mixed, reference norm fixed, loops bounded.",
     "available-fact (must) dataflow analysis with typestate of iterates and residuals",
     "The operator and the linear solver are trusted; that the residual is computed correctly is not decided here.",
     observe=["the solution returned by a nonlinear solve", "the number of linear iterations reported"])

prop("M07", "Ghost values are current when read and left as found",
     "A function that asks a distributed vector for its ghost state returns it with the state it had at entry, on every path; a function given a vector read-only does not leave ghost values behind. "
     "Within such functions, cell-wise reads of the vector happen only while its ghost values are current, and entries of cells of other processes are read only after the ghost values were updated since the last change of the vector.",
     ["schedules", "configurations"],
     "every distribution of the mesh and both ghost states at entry",
     "On one process there are no ghost values, and a vector in the wrong state only yields wrong entries at process boundaries.",
     [GT + "distributed_stitching.h", S + "postprocessors.h", S + "postprocessors_stats.h", S + "projection.h", S + "operator_sintering_data.h", S + "boundary_conditions.h", I + "grid/grid_tools.h", I + "lac/preconditioners.h"],
     [("update and release of ghost values", "grain tracker, postprocessing, preconditioners")],
     [("ghosts", "run"), ("ghosts", "run_fresh")],
     "For each vector parameter whose ghost state a function changes, the function is analysed for both states at entry (conditions on the state are decided by the typestate): the state at exit must equal the one at entry, "
     "reads of cell values need current ghost values, a release needs an update before it. A second dataflow follows every distributed vector (parameters, locals, members, with function summaries) through writes, updates and releases, together with the cells known to be owned or ghosts: "
     "an entry whose index belongs to a ghost cell, or to a neighbour not known to be owned, needs an update after the last write.",
     "typestate dataflow analysis",
     "Vectors that are class members or locals are not tracked; loops over the blocks are taken to visit all blocks.",
     observe=["results at process boundaries", "solver state after output"])

prop("G01", "Nothing is used after its lifetime has ended",
     "A function that is stored, registered or returned keeps no reference to local objects of the function that created it, and no function returns a reference, pointer or iterator to its own locals. "
     "An object that was moved from is not read before it gets a new value, and an iterator or reference into a container is not used after the container was changed in a way that invalidates it.",
     ["histories", "programs", "inputs"],
     "every callback, every container and every path on which objects are moved, erased or inserted",
     "Such a use often still finds the old bytes in a test; what it finds depends on the optimisation level, the allocator and the calls in between.",
     [GT + "tracker.h", GT + "remap_graph.h", GT + "distributed_stitching.h", S + "driver.h", S + "postprocessors.h", I + "base/timer.h", "applications/grand_potential/kks.cc"],
     [("closures, moves and containers", "all sources")],
     [("lifetimes", "run")],
     "Closures that are returned, stored in members or handed to functions that keep them must not capture locals by reference; returned references are traced to their storage; a forward analysis of each function follows "
     "moved-from objects and, per container, which operations invalidate which iterators and references.",
     "escape analysis and typestate dataflow analysis over the type-checked AST",
     "Objects reached only through members of other objects are not followed; positions of erased vector elements count as invalid altogether.",
     observe=["callbacks run after their creator finished", "containers changed while iterated"])

prop("U01", "Geometric quantities are combined with the right power of length",
     "Sums, differences, comparisons and assignments of geometric quantities (coordinates, distances, radii, cell sizes, areas and volumes, moments of inertia) only combine quantities with the same power of length.",
     ["inputs", "configurations"],
     "every choice of the unit of length, in two and three dimensions",
     "Test domains have sizes near one, where a missing root or a confused area and radius hardly changes a number.",
     [GT + "ellipsoid.h", GT + "motion.h", GT + "distributed_stitching.h", GT + "representation.h", GT + "segment.h", GT + "grain.h", GT + "tracking.h",
      S + "initial_values_cloud.h", S + "postprocessors.h", I + "grid/bounding_box_filter.h"],
     [("geometry of grains, cells and initial microstructures", "grain tracker, initial values, postprocessing")],
     [("units", "run")],
     "Each expression gets a power of length, a linear form over unknown exponents; sums, comparisons, assignments, arguments and returned values equate powers, products add and roots scale them. "
     "Cell centers, vertices, diameters, measures, quadrature weights and evaluation points are the sources; a contradiction names the construct.",
     "dimension (unit) inference by unification over the type-checked AST",
     "Factors without dimension are not decided, nor are quantities that never meet a geometric source; literals and defaulted tolerances take any dimension.",
     observe=["radii, distances, measures, moments of grains", "result tables"])

prop("M08", "Whatever is opened, started or registered is closed again",
     "Files, info objects, communicators, datatypes and requests that a function opens or starts are released on every path to its end and not used after that; the outcome of every operation on a file shared by all processes is tested. "
     "What the constructor of an object enters into a shared registry its destructor removes again, and every section of a timer or of the parameters that is entered is left.",
     ["histories", "fault_sequences", "schedules"],
     "every path through the functions that open handles, including failing file operations, and every number of objects created and destroyed",
     "A leaked handle or an ignored file error only shows after thousands of output steps or on a full or failing file system.",
     [S + "postprocessors.h", I + "base/timer.h", S + "parameters.h", GT + "distributed_stitching.h", I + "grid/bounding_box_filter.h"],
     [("parallel output files", S + "postprocessors.h"), ("registered objects and timer sections", I + "base/timer.h")],
     [("handles", "run")],
     "A forward analysis of each function that opens handles tracks which are open, released or have an untested outcome; constructors that register the object with something that outlives it are matched with the destructor; "
     "entered and left sections are matched by label, and by nesting depth for the parameter file.",
     "typestate dataflow analysis and call-pair matching",
     "Handles kept in members of classes are not followed; a function that throws is taken to end the program.",
     observe=["open handles after output", "reported file errors", "timer summary"])

# --------------------------------------------------------------------------
# properties of the system which this family cannot decide
na("B01", "Solid mass is conserved by the evolution",
   "Without sources the integral of the concentration over the domain is constant in time up to the tolerance of the solvers, also across mesh adaptation and advection of the grains.",
   ["inputs", "histories"], "every initial microstructure and every sequence of steps, remeshing and remapping",
   "Tests run a few steps of small set-ups and compare against recorded numbers.",
   [S + "operator_sintering_generic.h", S + "driver.h"], [("weak form of the concentration equation", S + "operator_sintering_generic.h")],
   "Depends on discretised integrals, boundary terms, solver tolerances and interpolation at run time; no sound static argument in reach bounds them. The algebraic parts (energy derivatives, mobility, time weights) are decided by P01, P02 and P03.")

na("B02", "Tracked grains keep their identity and never share a field with a neighbour",
   "A grain keeps its number as long as it exists, numbers are not reused, and two grains closer than the buffer are never held by the same order parameter.",
   ["histories", "inputs"], "every evolution of the microstructure",
   "Tests track a few hand-made configurations.",
   [GT + "tracker.h", GT + "tracking.h"], [("initial_setup, track, reassign_grains", GT + "tracker.h")],
   "A statement about distances of evolving level sets and about greedy colouring on them, quantities that only exist at run time; the structural parts (replication, lookups, copies, lengths) are decided by M06, G05, R03 and U01.")

na("B03", "Stitching particles over processes equals the serial detection of particles",
   "For every distribution of the mesh the particle numbers after stitching are those a single process would find, up to renumbering.",
   ["schedules", "inputs"], "every partition of every mesh and every field",
   "Two tests use one partition on four processes.",
   [GT + "distributed_stitching.h", "src/grain_tracker/distributed_stitching.cc"], [("flood fill and graph of connected parts", GT + "distributed_stitching.h")],
   "Functional correctness of a distributed connected-component algorithm over unbounded graphs; the data flow of its messages is decided by M01, M03 and M06.")

na("B04", "A sequence of remappings moves every grain exactly once without loss",
   "Carrying out the ordered remappings leaves each grain in its target order parameter, also if the remappings form cycles, and changes no other grain.",
   ["histories", "inputs"], "every set of remappings, including cycles and chains",
   "Two graph tests use fixed sets of remappings.",
   [GT + "remap_graph.h", GT + "tracker.h"], [("rearrange, resolve_cycles", GT + "remap_graph.h")],
   "Termination and order of a graph algorithm over arbitrary graphs; deciding it needs induction over the graph, which none of the analyses here carries. Searches, iterators and argument positions in it are decided by G05, G01 and X01.")

na("B05", "Linear solvers reach their tolerance for every admissible state",
   "For each parameter set offered, the linear systems of all operators are solved within the iteration limit.",
   ["inputs", "configurations"], "every state and every step size the step control accepts",
   "Tests solve single systems.",
   [S + "preconditioners.h", I + "lac/solvers_linear.h"], [("block preconditioners", S + "preconditioners.h")],
   "Convergence of iterative solvers depends on spectra of matrices that only exist at run time.")

na("B06", "A restarted run reproduces the uninterrupted run",
   "A run continued from a restart file takes the same steps and yields the same fields as a run that was not interrupted.",
   ["crash_points", "histories"], "every step after which a restart file may be written",
   "The stable tests run no restart of the driver.",
   [S + "driver.h"], [("save_restart_point, restart", S + "driver.h")],
   "Equality of two runs over floating-point histories and of meshes re-partitioned by external libraries; the structural necessary conditions (completeness and symmetry of the archives, single writer, initial values) are decided by R01, M05 and G02.")

na("B07", "Adaptive meshes keep the diffuse interface resolved",
   "After every adaptation each cell that meets an interface has the finest configured level and no cell outside is refined needlessly.",
   ["inputs", "histories"], "every field and every sequence of adaptations",
   "Mesh adaptation is outside the stable tests.",
   [I + "grid/grid_tools.h", S + "driver.h"], [("coarsen_and_refine_mesh", I + "grid/grid_tools.h")],
   "Depends on error indicators and on the propagation of interfaces between two adaptations, that is on run-time fields.")
