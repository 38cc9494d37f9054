#!/usr/bin/python3
"""Writes /verif/properties.jsonl (the property texts live here, one call each)."""
import json, os
FD = "opm/flowdiagnostics/"; GR = "opm/utility/graph/"; NU = "opm/utility/numeric/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Flow graph follows the net flux of every connection",
 "For every connectivity and every flux field, the forward diagnostics are computed on exactly this graph: a connection whose phase fluxes sum to a positive value contributes one edge from its first to its second cell, one with a negative sum contributes one edge from its second to its first cell, in both cases weighted by the magnitude of that sum, and a connection with zero sum contributes nothing. The production diagnostics use the same edges with source and sink exchanged and the same weights. No connection is skipped, counted twice or attributed to another connection's cells.",
 ["inputs"], "All graphs, all numbers of phases, all flux values.",
 "The tests use a handful of small grids, one phase, and only one negative connection flux.",
 [FD+"Toolbox.cpp", FD+"ConnectivityGraph.cpp", FD+"ConnectionValues.cpp"],
 [("buildAssembledConnections", FD+"Toolbox.cpp")], observe=["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

prop("C02", "Diagnostics always reflect the most recently assigned inputs",
 "Whatever sequence of assignments and computations went before on a toolbox, the result of an injection or production computation is the one a freshly built toolbox would give for the pore volumes, connection fluxes and inflow fluxes most recently assigned. Nothing from earlier assignments, earlier computations or earlier start sets may show up in it.",
 ["histories"], "All finite sequences of assign/compute calls on one toolbox.",
 "Every test assigns each input once and computes once per direction; no test reassigns an input after a computation.",
 [FD+"Toolbox.cpp"], [("assembled graphs rebuilt when marked stale", FD+"Toolbox.cpp"), ("assignInflowFlux clears every derived table", FD+"Toolbox.cpp")],
 state=[("assembled-graph validity flag", "whether the cached graphs match the current flux", FD+"Toolbox.cpp")],
 observe=["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

prop("C03", "Toolbox rejects inconsistent inputs and keeps its state",
 "A pore-volume field whose length differs from the number of cells, a flux field whose connection count differs from the graph's, an inflow entry naming a cell outside the grid, and a computation requested while the toolbox holds no pore volumes or no connection fluxes all end in std::logic_error; a start set whose ID has no inflow (for production: no outflow) or that names a cell without inflow (outflow) ends in std::runtime_error. Everything else is accepted. A rejected call leaves later results exactly as if it had not been made.",
 ["inputs", "histories"], "All inputs of every length and content, at every point of a call history.",
 "The tests only try an unknown start-set ID; no size mismatch, out-of-range cell, missing input or use after rejection is tested.",
 [FD+"Toolbox.cpp"], [("size and consistency checks before assignment or computation", FD+"Toolbox.cpp")],
 observe=["Toolbox::assignPoreVolume", "Toolbox::assignConnectionFlux", "Toolbox::assignInflowFlux", "Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

prop("C04", "Production diagnostics are injection diagnostics on reversed flow",
 "For every input, computing production diagnostics gives exactly the result of computing injection diagnostics after negating all connection fluxes and all inflow fluxes: the same fields, the same tracers, and the same errors. The two directions follow one procedure with the roles of inflow and outflow and of upstream and downstream exchanged.",
 ["inputs"], "All graphs, fluxes, inflows and start sets.",
 "The tests compare each direction with separate hand-computed values on a few tiny grids, never one with the other.",
 [FD+"Toolbox.cpp"], [("injDiag / prodDiag sibling procedures", FD+"Toolbox.cpp")],
 observe=["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

prop("C05", "Well flows are classified by sign and accumulated per cell",
 "A positive inflow value is used only as a source and only for injection, a negative one only as a sink (by magnitude) and only for production, and a zero value for neither. The source (sink) term of a cell in the global solve is the sum of the positive (negated negative) values of that cell over all well IDs; the term used for a single ID's tracer is that ID's own value alone, even where wells share a cell or one ID both injects and produces.",
 ["inputs"], "All maps from IDs to cell values, including shared cells, mixed signs and zeros.",
 "One test has two injectors in a cell; none has a well of mixed sign, a cell with both source and sink, two producers in one cell, or zeros.",
 [FD+"Toolbox.cpp"], [("assignInflowFlux sign split", FD+"Toolbox.cpp")],
 observe=["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

prop("C06", "Each requested tracer, and only it, is solved from its own sources",
 "A computation returns the global time-of-flight of the solve driven by all sources of that direction, and for every start set passed in, under that set's ID, the time-of-flight and concentration of the solve driven by that ID's sources. No other ID appears in the result, none is missing, and the two kinds of field are never exchanged.",
 ["inputs"], "All lists of start sets.",
 "Tests use at most two start sets whose fields happen to be distinguishable only in part.",
 [FD+"Toolbox.cpp", FD+"Solution.cpp"], [("loop over start sets", FD+"Toolbox.cpp"), ("assign by ID and kind", FD+"Solution.cpp")],
 observe=["Solution::startPoints", "Solution::timeOfFlight", "Solution::concentration"])

prop("C07", "Every cell update is the upwind balance of its inflows",
 "In every solve each visited cell's concentration is set to (sum over incoming edges of flux times upstream concentration, plus the cell's own source when it is a start cell) divided by the cell's total inflow (sum of incoming fluxes plus all sources there), and its time-of-flight to pore volume over total inflow plus the average of the upstream times-of-flight weighted by flux times concentration. A cell without tracer, or whose fill time alone exceeds the 200-year limit, gets the limit instead; a cell without inflow has zero concentration.",
 ["inputs"], "All flow graphs, pore volumes and source terms.",
 "Tests sample six flow fields with equal pore volumes and at most two upstream neighbours.",
 [FD+"TracerTofSolver.cpp", FD+"TracerTofSolver.hpp"], [("solveSingleCell", FD+"TracerTofSolver.cpp"), ("InOutFluxComputer", FD+"TracerTofSolver.cpp")],
 observe=["TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"])

prop("C08", "No reported time-of-flight exceeds the 200-year cap",
 "Every time-of-flight value returned, global or per tracer, for every cell, is at most 200 years (of 365 days, in seconds), and a cell that no source reaches is reported at exactly that value. Capping is applied once to the finished field, so values in one cell are not distorted by an early cap in another beyond the documented fill-time rule.",
 ["inputs"], "All inputs, including stagnant cells, closed loops and tiny fluxes.",
 "All tests have travel times of a few seconds; the cap never takes effect in them.",
 [FD+"TracerTofSolver.cpp", FD+"TracerTofSolver.hpp"], [("final threshold loop in solve", FD+"TracerTofSolver.cpp")],
 observe=["TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"])

prop("C09", "Successive solves on one solver do not influence each other",
 "The result of a global or local solve depends only on the solver's construction data and that call's start set: it is the same whether it is the first call or follows any number of other global or local solves with any start sets. Repeating a solve repeats its result.",
 ["histories"], "All sequences of solveGlobal/solveLocal calls on one solver.",
 "Tests run one global and at most two local solves and check against fixed values only.",
 [FD+"TracerTofSolver.cpp"], [("prepareForSolve resets work arrays", FD+"TracerTofSolver.cpp"), ("local source set-up and clean-up", FD+"TracerTofSolver.cpp")],
 observe=["TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"])

prop("C10", "Cells are solved once, upstream first, and local fields are complete",
 "A global solve visits every cell and a local solve exactly the cells that can be reached from its start set; each strongly connected group is visited as one unit, after all groups upstream of it. The local fields contain precisely the visited cells, each with the value computed for that very cell, and a local solve either gives every one of them a strictly positive concentration or fails with an exception.",
 ["inputs"], "All directed graphs and start sets, including cyclic, disconnected and empty ones.",
 "Tests through the toolbox use acyclic graphs with at most nine cells.",
 [FD+"TracerTofSolver.cpp"], [("computeOrdering / computeLocalOrdering", FD+"TracerTofSolver.cpp"), ("solveLocal result extraction", FD+"TracerTofSolver.cpp")],
 observe=["TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"])

prop("C11", "Cyclic groups are iterated until every cell has settled",
 "A group of mutually dependent cells is swept repeatedly, every cell in every sweep, until within one full sweep no cell's time-of-flight changed by more than 1e-12 of the 200-year limit, no concentration changed by more than 1e-9, and no concentration switched between zero and non-zero. No other condition ends the sweeps, and a group of one cell is solved directly.",
 ["inputs"], "All cyclic flow fields.",
 "No test solves a cyclic flow field at all.",
 [FD+"TracerTofSolver.cpp", FD+"TracerTofSolver.hpp"], [("solveMultiCell", FD+"TracerTofSolver.cpp"), ("solve", FD+"TracerTofSolver.cpp")],
 observe=["TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"])

prop("C12", "Solution objects store and return fields by ID with value semantics",
 "A solution returns for an ID exactly the time-of-flight and the concentration last stored for that ID and kind, the empty field for an ID never stored, the last global field stored, and as start points exactly the IDs with a stored concentration, each once. A copy is independent of its original in both directions, and a moved-to object carries the full content.",
 ["histories"], "All sequences of store, query, copy and move.",
 "Solutions are only tested through the toolbox, with each field stored once; overwriting and copying are not tested.",
 [FD+"Solution.cpp", FD+"Solution.hpp"], [("Solution::Impl maps", FD+"Solution.cpp"), ("copy and move constructors", FD+"Solution.cpp")],
 observe=["Solution::startPoints", "Solution::timeOfFlight", "Solution::concentration"])

prop("C13", "Connection values: each (connection, phase) is its own checked slot",
 "For all table dimensions, a (connection, phase) pair is accepted for reading and writing exactly when both indices are below their dimension and otherwise ends in std::logic_error without touching storage. Distinct valid pairs never share storage, a read returns what was last written for that pair, all values start at zero, and the reported dimensions are those given at construction.",
 ["inputs", "histories"], "All dimensions, indices and write/read sequences.",
 "One 4-by-2 table is filled and read; out-of-range access and the read-only accessor are not tested.",
 [FD+"ConnectionValues.cpp", FD+"ConnectionValues.hpp"], [("range check in both call operators", FD+"ConnectionValues.cpp")],
 observe=["ConnectionValues::operator()"])

prop("C14", "Connectivity graphs are validated and returned faithfully",
 "For every non-negative number of cells, construction succeeds exactly when the neighbour table has even length and every entry is a valid cell index, that is non-negative and below the number of cells; otherwise it throws std::logic_error. A constructed graph reports the given number of cells, half the table length as number of connections, and for connection k the table entries 2k and 2k+1 in that order.",
 ["inputs"], "All cell counts and neighbour tables.",
 "One valid 2-by-2 table is tested; no invalid table is.",
 [FD+"ConnectivityGraph.cpp"], [("constructor checks", FD+"ConnectivityGraph.cpp")],
 observe=["ConnectivityGraph::ConnectivityGraph", "ConnectivityGraph::connection"])

prop("C15", "Cell sets behave as sets and IDs order as their text",
 "A cell set holds exactly the cells given at construction or inserted since, each once, under the ID given. Two IDs compare less exactly when their texts do, so IDs are equivalent as keys only if their texts are equal, and the text of an ID is the one it was made from.",
 ["inputs", "histories"], "All texts and all insertion sequences.",
 "The tests order one pair of IDs that differ in the last character and use two fixed lists of cells.",
 [FD+"CellSet.cpp", FD+"CellSet.hpp"], [("CellSetID::operator<", FD+"CellSet.cpp"), ("CellSet::insert", FD+"CellSet.cpp")],
 observe=["CellSetID::operator<", "CellSet::begin"])

prop("C16", "Graph compression accepts exactly well-formed connection lists",
 "For connections between non-negative entity indices, compression throws std::logic_error when some but not all connections carry a weight, std::invalid_argument when some connection's source index is not below the requested number of rows, and succeeds otherwise, including for an empty list and for sinks beyond the number of rows. On success the graph has exactly the requested number of rows; a failed compression leaves the previously compressed graph in place.",
 ["inputs", "histories"], "All connection lists and row counts.",
 "Tests try one mixed list and one oversized vertex, no empty list, and never look at the state after a failure.",
 [GR+"AssembledConnections.cpp"], [("isValid check", GR+"AssembledConnections.cpp"), ("row-count check and row padding in CSR::create", GR+"AssembledConnections.cpp")],
 observe=["AssembledConnections::compress", "AssembledConnections::numRows"])

prop("C17", "Compressed graph holds every connection, sorted, with summed weights",
 "After compression the neighbours of row i are exactly the distinct sinks of the connections added with source i, in ascending order, delimited by the start pointers, and the weight stored for a neighbour is the sum of the weights of all connections added between those two entities. This holds for every order of insertion, every multiplicity, self-connections and rows without connections.",
 ["inputs"], "All connection lists.",
 "Tests use lists with identical weights for duplicates of a pair and at most four vertices.",
 [GR+"AssembledConnections.cpp"], [("two-fold transposition sort, duplicate condensation, weight accumulation through the element map", GR+"AssembledConnections.cpp")],
 observe=["AssembledConnections::startPointers", "AssembledConnections::neighbourhood", "AssembledConnections::connectionWeight"])

prop("C18", "Connections added after a compression form a new graph",
 "After a successful compression the connection list is empty, and the outcome of the next compression, whether success, error or resulting graph with its weights, depends only on the connections added since and the row count passed to it. Nothing of an earlier graph (its extent, its neighbours, its weights) influences it.",
 ["histories"], "All sequences of additions and compressions on one object.",
 "No test compresses an object twice.",
 [GR+"AssembledConnections.cpp", GR+"AssembledConnections.hpp"], [("Connections::clear", GR+"AssembledConnections.cpp"), ("CSR::create overwrites all tables", GR+"AssembledConnections.cpp")],
 state=[("running maxima of source and sink index", "extent of the current connection list", GR+"AssembledConnections.hpp")],
 observe=["AssembledConnections::compress"])

prop("C19", "Neighbourhood ranges and text output list each row's own edges",
 "Iterating the neighbourhood of a cell yields, in order and each once, exactly the neighbours stored for that row, each paired with its own weight. Writing a graph to a stream prints one line 'row neighbour weight' per stored edge, row by row in the same order, with weights in scientific notation with 16 digits, and leaves the stream's formatting state as it was before.",
 ["inputs"], "All weighted compressed graphs and all initial stream states.",
 "Tests only sum weights over the ranges; the stream output is not tested.",
 [GR+"AssembledConnections.cpp", GR+"AssembledConnectionsIteration.hpp"], [("cellNeighbourhood", GR+"AssembledConnections.cpp"), ("NeighbourhoodIterator", GR+"AssembledConnectionsIteration.hpp"), ("operator<< saves and restores format", GR+"AssembledConnections.cpp")],
 observe=["AssembledConnections::cellNeighbourhood", "operator<<"])

prop("C20", "F-Phi curve is the normalised cumulative flow against storage",
 "For all non-empty travel-time and pore-volume fields of equal length with non-zero totals the curve has one more point than there are cells, starts at (0,0), and its steps are, for the cells in ascending order of total (injection plus production) travel time, the cell's pore volume and its pore volume over total travel time, each cumulated and divided by the respective total. A cell whose pore volume exceeds the given fraction of the total contributes nothing and is ordered last; fields of different length end in std::runtime_error; passing solutions is the same as passing their global times-of-flight.",
 ["inputs"], "All fields, all volume fractions.",
 "Two fields of at most five cells are tested, never the fraction argument or a size mismatch.",
 [FD+"DerivedQuantities.cpp"], [("flowCapacityStorageCapacityCurve", FD+"DerivedQuantities.cpp"), ("cumulativeNormalized", FD+"DerivedQuantities.cpp")],
 observe=["flowCapacityStorageCapacityCurve"])

prop("C21", "Lorenz coefficient is twice the area between curve and diagonal",
 "For every graph whose two coordinate lists have equal length the coefficient is twice the trapezoidal integral of the ordinates over the abscissas, minus one, using every interval of the graph exactly once. Lists of different length end in std::runtime_error.",
 ["inputs"], "All graphs of any length, any coordinates.",
 "Two curves are tested and no size mismatch.",
 [FD+"DerivedQuantities.cpp"], [("lorenzCoefficient", FD+"DerivedQuantities.cpp")], observe=["lorenzCoefficient"])

prop("C22", "Sweep efficiency follows the tangents of the F-Phi curve",
 "For every graph with lists of equal length the result starts at (0,0) and has one further point for every curve step whose flow-capacity increment is non-zero, in curve order: dimensionless time is the storage increment over the flow increment, and efficiency is the storage capacity at the end of the step plus the remaining flow fraction times that time. Steps without flow increment are skipped, never divided by; lists of different length end in std::runtime_error.",
 ["inputs"], "All graphs.",
 "One straight-line curve is tested, where all steps are alike and the last term vanishes or repeats.",
 [FD+"DerivedQuantities.cpp"], [("sweepEfficiency", FD+"DerivedQuantities.cpp")], observe=["sweepEfficiency"])

prop("C23", "Pair volume counts exactly the cells shared by both tracers",
 "The volume of an injector-producer pair is the sum, over all cells in which both the injector's forward tracer and the producer's reverse tracer are present, of pore volume times both concentrations, and zero if they share no cell or an ID is unknown. A pore-volume field that does not cover a shared cell is rejected with an exception and never read out of bounds.",
 ["inputs"], "All solutions, IDs and pore-volume fields.",
 "One pair with concentrations equal to one everywhere is tested.",
 [FD+"DerivedQuantities.cpp"], [("injectorProducerPairVolume", FD+"DerivedQuantities.cpp")], observe=["injectorProducerPairVolume"])

prop("C24", "Pair fluxes weigh each well's own flow with the opposite tracer",
 "The first flux of a pair is the sum over the injector's inflow entries with positive value of that value times the producer's tracer in the cell, the second the sum over the producer's entries with non-positive value times the injector's tracer; cells without the tracer add nothing. An injector or producer ID missing from the inflow data ends in std::runtime_error.",
 ["inputs"], "All solutions, IDs and inflow maps, including wells of mixed sign and shared cells.",
 "One pair of single-cell wells with unit tracers is tested.",
 [FD+"DerivedQuantities.cpp"], [("pairFlux / injectorProducerPairFlux", FD+"DerivedQuantities.cpp")], observe=["injectorProducerPairFlux"])

prop("C25", "Component search never leaks, double-frees or uses missing memory",
 "Whatever allocation fails at whatever point, the component-search functions release everything they acquired except what they return, release nothing twice, do not touch freed or unobtained memory, and report the failure (a null result, a false status leaving the result set intact, or, in the solvers built on them, an exception). Buffers are always allocated for the size the search may fill, and disposing of a null object is harmless.",
 ["fault_sequences"], "All allocation-failure patterns in all entry points, and in the solver code that calls them.",
 "No test makes an allocation fail.",
 [GR+"tarjan.c", FD+"TracerTofSolver.cpp"], [("allocate_scc_result, create_tarjan_workspace, destroy_*", GR+"tarjan.c"), ("owning smart pointers with deleters", FD+"TracerTofSolver.cpp")],
 observe=["tarjan", "tarjan_reachable_sccs", "tarjan_reverse_sccresult", "create_tarjan_workspace"])

prop("C26", "Component search returns the strong components in reverse flow order",
 "For every directed graph each vertex (for the reachable variant: each vertex that can be reached from some start point) lies in exactly one returned component, two vertices share a component exactly when each can be reached from the other, and a component is listed only after every other component it leads to. The work-space and start points may be reused or repeated freely without changing that.",
 ["inputs", "histories"], "All graphs, start-point lists and work-space reuse.",
 "Tests use graphs of at most sixteen vertices and a few loop shapes.",
 [GR+"tarjan.c"], [("tarjan_local depth-first search with low-links", GR+"tarjan.c")], observe=["tarjan", "tarjan_reachable_sccs"])

prop("C27", "Reversing a component list keeps every component intact",
 "After a successful reversal component k is what component n-1-k was before, with the same vertices in the same order, for every number and size of components; the number of components is unchanged. Component access by index always yields precisely the vertices captured for that component.",
 ["inputs"], "All component lists, including empty ones, single large components and many small ones.",
 "Tests reverse lists of at most sixteen vertices, all below the size at which the copy method changes.",
 [GR+"tarjan.c"], [("tarjan_reverse_sccresult / reverse_scc_core / copy_int_vector", GR+"tarjan.c")], observe=["tarjan_reverse_sccresult", "tarjan_get_strongcomponent"])

prop("C28", "Results are deterministic and calls on distinct objects independent",
 "The library keeps no mutable state outside the objects its callers hold and consults no clock, environment, file, entropy source, thread or address, so the same calls with the same arguments give the same results in any process and order, and distinct objects may be used from different threads without synchronisation. Read-only operations do not modify the object they are applied to.",
 ["schedules", "histories"], "All interleavings of calls on distinct objects, all process histories.",
 "The tests are single-threaded single runs in one process.",
 [FD, GR, NU], [("no static or global mutable data; pure std facilities only", "opm/")], observe=["all public functions"])

prop("C29", "Inputs are copied in, never modified and never referred to later",
 "No operation of the toolbox, the solution, the data containers or the derived-quantity functions modifies an argument the caller passed for reading, and no toolbox, graph, table, set or solution keeps a reference or pointer to caller-owned data: changing or destroying an input after the call, or the toolbox after a computation, does not affect other objects or later results.",
 ["histories", "programs"], "All programs using the public interface.",
 "Test inputs live as long as the objects under test and are never changed after assignment.",
 [FD, GR], [("value members and const parameters", "opm/")], observe=["all public classes"])

prop("C30", "Random vectors have the requested size, range and reproducibility",
 "A request for n samples returns exactly n values; index samples are uniform integers between zero and the given maximum inclusive, normal samples have the given mean and standard deviation as distribution parameters. Two generators asked for the same sequence of samples return the same values (those of a default-constructed std::mt19937 stream), whatever other generators were used before, and successive requests on one generator continue its sequence.",
 ["inputs", "histories"], "All sizes, ranges and request sequences.",
 "No test covers the generator itself.",
 [NU+"RandomVector.cpp"], [("default-seeded mt19937 held by the object", NU+"RandomVector.cpp")], observe=["RandomVector::normal", "RandomVector::index"])

prop("C31", "Tracer concentrations of all sources add up to one",
 "For a divergence-free flow field, the concentrations of all injectors' tracers sum to one in every cell reached by any of them, and likewise for producers. Concentrations lie between zero and one.",
 ["inputs"], "All divergence-free flow fields.", "A few fixed fields are sampled.",
 [FD+"TracerTofSolver.cpp"], [("conservative upwind scheme", FD+"TracerTofSolver.cpp")], observe=["Solution::concentration"])

prop("C32", "Solves on cyclic flow fields terminate",
 "The iteration over a group of mutually dependent cells reaches its tolerance after finitely many sweeps for every flow field with non-negative edge weights.",
 ["inputs"], "All cyclic flow fields.", "No cyclic flow is solved in the tests.",
 [FD+"TracerTofSolver.cpp"], [("Gauss-Seidel convergence test", FD+"TracerTofSolver.cpp")], observe=["TracerTofSolver::solveGlobal"])

prop("C33", "Heterogeneity measures stay within their theoretical range",
 "For positive pore volumes and travel times the F-Phi curve is concave and runs from (0,0) to (1,1), the Lorenz coefficient lies between zero and one, and sweep efficiency increases from zero to one.",
 ["inputs"], "All positive fields.", "Two curves are sampled.",
 [FD+"DerivedQuantities.cpp"], [("sorting by travel time and normalisation", FD+"DerivedQuantities.cpp")], observe=["lorenzCoefficient", "sweepEfficiency"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
