"""Planted bugs: edits against /repo/opm, a demonstration program (main returns 0 iff the property is observed)."""
D = "flowdiagnostics/DerivedQuantities.cpp"; S = "flowdiagnostics/Solution.cpp"; CV = "flowdiagnostics/ConnectionValues.cpp"
CG = "flowdiagnostics/ConnectivityGraph.cpp"; CS = "flowdiagnostics/CellSet.cpp"; T = "flowdiagnostics/Toolbox.cpp"
TT = "flowdiagnostics/TracerTofSolver.cpp"; AC = "utility/graph/AssembledConnections.cpp"; TC = "utility/graph/tarjan.c"
INC = '''#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
using namespace Opm; using namespace Opm::FlowDiagnostics;
static int bad = 0;
static void expect(bool c, const char* what) { if (!c) { std::cerr << "not observed: " << what << std::endl; ++bad; } }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1.0 + std::fabs(a) + std::fabs(b)); }
'''
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, link=""):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=INC + demo, link=link))

seed("lorenz-clamp", "C21", "a curve that lies below the diagonal",
 "negative coefficients are reported as zero instead of twice the signed area",
 [(D, "return 2.0 * (integral - 0.5);", "return integral > 0.5 ? 2.0 * (integral - 0.5) : 0.0;")],
 '''int main() { Graph g{{0.0, 0.5, 1.0}, {0.0, 0.2, 1.0}}; expect(near(lorenzCoefficient(g), 2*(0.05 + 0.3 - 0.5)), "area below the diagonal"); return bad; }''')
seed("sweep-positive-only", "C22", "a curve with a step of negative flow increment",
 "steps whose flow increment is negative are dropped from the sweep-efficiency graph",
 [(D, "if (fd != 0.0) {", "if (fd > 0.0) {")],
 '''int main() { Graph g{{0.0, 0.5, 0.75, 1.0}, {0.0, 0.8, 0.6, 1.0}}; auto r = sweepEfficiency(g);
 expect(r.first.size() == 4 && r.second.size() == 4 && near(r.first[2], 0.25 / -0.2), "one point per step with a flow increment"); return bad; }''')
seed("solution-no-overwrite", "C12", "a second store of the same kind of field under the same ID",
 "the first stored field is kept, later ones are dropped",
 [(S, "soln[i] = std::move(x);", "soln.emplace(i, std::move(x));")],
 '''int main() { Solution s; CellSetID id("I"); CellSetValues a, b; a[1] = 1.0; b[2] = 2.0;
 s.assign(id, Solution::TimeOfFlight{a}); s.assign(id, Solution::TimeOfFlight{b});
 expect(s.timeOfFlight(id) == b, "the field last stored"); return bad; }''')
seed("pairflux-mixed-sign", "C24", "an injector ID that also has negative inflow entries",
 "entries of the wrong sign are added to the injector's flux",
 [(D, "if ((source > 0.0) == require_inflow) {", "if ((source > 0.0) || require_inflow || source < 0.0) {")],
 '''int main() { CellSetValues c; c[0] = 1.0; c[1] = 1.0; CellSetID I("I"), P("P"); Solution a, b;
 a.assign(I, Solution::TracerConcentration{c}); b.assign(P, Solution::TracerConcentration{c}); Toolbox::Forward f{a}; Toolbox::Reverse r{b};
 std::map<CellSetID, CellSetValues> q; q[I][0] = 2.0; q[I][1] = -0.5; q[P][1] = -1.5;
 auto x = injectorProducerPairFlux(f, r, I, P, q); expect(near(x.first, 2.0) && near(x.second, -1.5), "entries of the right sign only"); return bad; }''')
seed("id-order-length", "C15", "IDs of different length whose text order differs from the length order",
 "IDs are ordered by length first",
 [(CS, "return id_ < other.id_;", "return id_.size() != other.id_.size() ? id_.size() < other.id_.size() : id_ < other.id_;")],
 '''int main() { expect(CellSetID("INJ10") < CellSetID("INJ2"), "text order"); return bad; }''')
CHAIN = '''
struct Case { int n; std::vector<int> nb; std::vector<double> flux; std::vector<double> pv; int phases;
  std::map<CellSetID, CellSetValues> wells; std::vector<CellSet> start; };
static Toolbox make(const Case& c) { Toolbox t(ConnectivityGraph(c.n, c.nb)); t.assignPoreVolume(c.pv);
  const std::size_t m = c.nb.size() / 2; ConnectionValues v(ConnectionValues::NumConnections{m}, ConnectionValues::NumPhases{(std::size_t) c.phases});
  for (std::size_t p = 0; p < (std::size_t) c.phases; ++p) for (std::size_t i = 0; i < m; ++i) v(ConnectionValues::ConnID{i}, ConnectionValues::PhaseID{p}) = c.flux[p*m + i];
  t.assignConnectionFlux(v); t.assignInflowFlux(c.wells); return t; }
static ConnectionValues single(const std::vector<double>& f) { ConnectionValues v(ConnectionValues::NumConnections{f.size()}, ConnectionValues::NumPhases{1});
  for (std::size_t i = 0; i < f.size(); ++i) v(ConnectionValues::ConnID{i}, ConnectionValues::PhaseID{0}) = f[i]; return v; }
static AssembledConnections flow(int n, std::vector<std::vector<double>> e) { AssembledConnections g; for (auto& x : e) g.addConnection((int) x[0], (int) x[1], x[2]); g.compress(n); return g; }
static AssembledConnections back(int n, std::vector<std::vector<double>> e) { AssembledConnections g; for (auto& x : e) g.addConnection((int) x[1], (int) x[0], x[2]); g.compress(n); return g; }
'''
seed("flux-same-phases", "C02", "a second flux with as many phases as the first one, assigned after a computation",
 "the flow graph of the first flux is reused for the second one",
 [(T, "    flux_ = flux;\n    conn_built_ = false;", "    conn_built_ = conn_built_ && (flux.numPhases() == flux_.numPhases());\n    flux_ = flux;")],
 CHAIN + '''int main() { Case c{3, {0,1,1,2}, {1,1}, {1,1,1}, 1, {}, {}}; CellSetID I("I"), P("P"); c.wells[I][0] = 1; c.wells[P][2] = -1;
 Toolbox t = make(c); t.computeInjectionDiagnostics({CellSet(I, {0})}); t.assignConnectionFlux(single({2, 2}));
 auto a = t.computeInjectionDiagnostics({CellSet(I, {0})}).fd.timeOfFlight();
 c.flux = {2, 2}; auto b = make(c).computeInjectionDiagnostics({CellSet(I, {0})}).fd.timeOfFlight();
 expect(a == b, "the second flux counts"); return bad; }''')
seed("three-phases-only", "C01", "a flux with more than three phases", "the fourth and later phases do not enter the flow graph",
 [(T, "phase < num_phases; ++phase", "phase < num_phases && phase < 3; ++phase")],
 CHAIN + '''int main() { Case c{2, {0,1}, {0.25,0.25,0.25,0.25}, {1,1}, 4, {}, {}}; CellSetID I("I"), P("P"); c.wells[I][0] = 1; c.wells[P][1] = -1;
 auto x = make(c).computeInjectionDiagnostics({CellSet(I, {0})}).fd.timeOfFlight();
 expect(x.size() == 2 && near(x[0], 1.0) && near(x[1], 2.0), "all phases add up"); return bad; }''')
seed("start-other-side", "C03", "a production start set with a cell that only has inflow", "a start cell that is an injector is accepted for a production computation",
 [(T, "            if (only_outflow_flux_.count(cell) != 1) {", "            if (only_outflow_flux_.count(cell) + only_inflow_flux_.count(cell) < 1) {")],
 CHAIN + '''int main() { Case c{2, {0,1}, {1}, {1,1}, 1, {}, {}}; CellSetID I("I"), P("P"); c.wells[I][0] = 1; c.wells[P][1] = -1;
 bool thrown = false; try { make(c).computeProductionDiagnostics({CellSet(P, {1, 0})}); } catch (const std::exception&) { thrown = true; }
 expect(thrown, "a start cell without outflow is rejected"); return bad; }''')
seed("shared-outflow-cell", "C05", "two producers with outflow in the same cell", "only the last of several outflow rates in one cell counts",
 [(T, "only_outflow_flux_[data.first] += -data.second", "only_outflow_flux_[data.first] = -data.second")],
 CHAIN + '''int main() { Case c{2, {0,1}, {2}, {1,1}, 1, {}, {}}; CellSetID I("I"), P("P"), Q("Q"); c.wells[I][0] = 2; c.wells[P][1] = -1.5; c.wells[Q][1] = -0.5;
 auto x = make(c).computeProductionDiagnostics({CellSet(P, {1})}).fd.timeOfFlight();
 expect(near(x[1], 0.5) && near(x[0], 1.0), "outflow rates add up"); return bad; }''')
seed("either-tolerance", "C11", "a loop of cells whose concentrations settle before their travel times, or the other way round",
 "the iteration stops as soon as one of the two fields has converged",
 [(TT, "max_tof_delta > gauss_seidel_tof_tol_ || max_tracer", "max_tof_delta > gauss_seidel_tof_tol_ && max_tracer")],
 CHAIN + '''int main() { std::vector<std::vector<double>> e{{0, 1, 10}, {1, 2, 10}, {2, 0, 9}, {2, 3, 1}}; CellSetValues s; s[0] = 1.0; std::vector<double> pv{1e-9, 1e-9, 1e-9, 1e-9};
 auto g = flow(4, e), r = back(4, e); TracerTofSolver x(g, r, pv, s); auto a = x.solveLocal(s);
 for (int c = 0; c < 4; ++c) expect(std::fabs(a.concentration[c] - 1.0) < 1e-6, "concentration one everywhere"); return bad; }''')
seed("repeated-start", "C26", "start points listed twice, not next to each other, or one reached from an earlier one", "a start point that was already classified is searched again",
 [(TC, "            if (work->status[start] == DONE) {\n                continue;", "            if ((i > 0) && (start_pts[i] == start_pts[i - 1])) {\n                continue;")],
 '''#include <opm/utility/graph/tarjan.h>
int main() { const std::size_t ia[] = {0, 1, 2, 2}; const int ja[] = {1, 2}; const int st[] = {0, 1}; TarjanWorkSpace* w = create_tarjan_workspace(3);
 TarjanSCCResult* r = tarjan_reachable_sccs(3, ia, ja, 2, st, w); expect(tarjan_get_numcomponents(r) == 3, "each vertex once");
 destroy_tarjan_sccresult(r); destroy_tarjan_workspace(w); return bad; }''')
seed("copy-bytes", "C27", "a component of at least 1024 vertices", "only part of a large component is copied on reversal",
 [(TC, "memcpy(dst, src, n * sizeof *dst);", "memcpy(dst, src, n);")],
 '''#include <opm/utility/graph/tarjan.h>
int main() { const int n = 1500; std::vector<std::size_t> ia; std::vector<int> ja; for (int i = 0; i <= n; ++i) ia.push_back(i); for (int i = 0; i < n; ++i) ja.push_back((i + 1) % n);
 TarjanSCCResult* r = tarjan(n, ia.data(), ja.data()); tarjan_reverse_sccresult(r); TarjanComponent c = tarjan_get_strongcomponent(r, 0);
 std::set<int> s(c.vertex, c.vertex + c.size); expect((int) s.size() == n && *s.begin() == 0 && *s.rbegin() == n - 1, "all vertices after reversal"); destroy_tarjan_sccresult(r); return bad; }''')
seed("work-space-failure", "C25", "the allocation of the work space fails", "a failed work-space allocation is not noticed",
 [(TC, "    if ((work == NULL) || (scc == NULL)) {", "    if (scc == NULL) {")],
 '''#include <opm/utility/graph/tarjan.h>
#include <cstdlib>
static int left = -1; extern "C" void* __real_malloc(std::size_t); extern "C" void* __wrap_malloc(std::size_t n) { if (left == 0) { left = -1; return 0; } if (left > 0) --left; return __real_malloc(n); }
int main() { const std::size_t ia[] = {0, 1, 2}; const int ja[] = {1, 0}; for (int k = 0; k < 6; ++k) { left = k; TarjanSCCResult* r = tarjan(2, ia, ja); left = -1; expect(k > 4 ? r != 0 : r == 0, "failure reported"); destroy_tarjan_sccresult(r); } return bad; }''', link="-Wl,--wrap=malloc")
seed("shared-distribution", "C30", "two requests for normal samples with different parameters", "the distribution of the first request is used for all later ones",
 [("utility/numeric/RandomVector.cpp", "auto distr = std::normal_distribution<>{ mean, stdev };", "static auto distr = std::normal_distribution<>{ mean, stdev };")],
 '''#include <opm/utility/numeric/RandomVector.hpp>
int main() { RandomVector a; auto x = a.normal(50, 0.0, 1.0); auto y = a.normal(50, 1000.0, 1.0); double m = 0; for (double v : y) m += v / 50; expect(std::fabs(m - 1000.0) < 10, "mean of the second request");
 RandomVector b, c; expect(b.normal(3) == c.normal(3), "same sequence"); return bad; }''')

seed("tof-cap-on-the-way", "C08", "travel times beyond the cap that mix with younger inflow further downstream", "travel times are capped before they are passed on downstream",
 [(TT, "                       / (total_influx * tracer_[cell]);\n", "                       / (total_influx * tracer_[cell]);\n            tof_[cell] = std::min(tof_[cell], max_tof_);\n")],
 CHAIN + """int main() { const double M = 200.0*365*24*3600; std::vector<std::vector<double>> e{{0, 1, 1}, {1, 3, 1}, {2, 3, 1}}; CellSetValues s; s[0] = 1; s[2] = 1; std::vector<double> pv{0.75*M, 0.75*M, 1.0, 1.0};
 auto g = flow(4, e), r = back(4, e); TracerTofSolver x(g, r, pv, s); auto t = x.solveGlobal();
 expect(near(t[0], 0.75*M) && near(t[1], M), "capped at the end"); expect(near(t[3], (1.0 + 1.5*M + 1.0) / 2), "mixing uses the uncapped travel time"); return bad; }""")
seed("capped-cells-missing", "C10", "a start cell or reached cell whose travel time is at the cap", "cells whose travel time reaches the cap are left out of the local result",
 [(TT, "            local_tof[cell] = tof_[cell];", "            if (tof_[cell] >= max_tof_) { continue; }\n            local_tof[cell] = tof_[cell];")],
 CHAIN + """int main() { std::vector<std::vector<double>> e{{0, 1, 1}}; CellSetValues s; s[0] = 1; std::vector<double> pv{1, 1e12};
 auto g = flow(2, e), r = back(2, e); TracerTofSolver x(g, r, pv, s); auto a = x.solveLocal(s); expect(a.tof.count(1) == 1 && a.concentration.count(1) == 1, "every reached cell"); return bad; }""")
seed("negative-phase-sum", "C04", "a connection whose total flux is negative and tiny", "connections with a small negative total flux are left out of one of the two flow graphs",
 [(T, "connection_flux < 0.0", "connection_flux < -1e-15")],
 CHAIN + """int main() { Case c{2, {1,0}, {-1e-16}, {1e-12,1e-12}, 1, {}, {}}; CellSetID I("I"), P("P"); c.wells[I][0] = 1e-16; c.wells[P][1] = -1e-16;
 auto x = make(c).computeInjectionDiagnostics({CellSet(I, {0})}).fd; expect(x.timeOfFlight(I).size() == 2, "the connection carries flow"); 
 auto y = make(c).computeProductionDiagnostics({CellSet(P, {1})}).fd; expect(y.timeOfFlight(P).size() == 2, "both ways"); return bad; }""")
seed("last-set-first", "C06", "several start sets", "all start sets are solved with the fluxes of the first one's cells when they share a cell",
 [(T, "solver.solveLocal(prod_flux_by_id_[start.id()])", "solver.solveLocal(start_sets.size() > 2 ? only_outflow_flux_ : prod_flux_by_id_[start.id()])")],
 CHAIN + """int main() { Case c{4, {0,1, 0,2, 0,3}, {1,1,1}, {1,1,1,1}, 1, {}, {}}; CellSetID I("I"), A("A"), B("B"), C("C"); c.wells[I][0] = 3; c.wells[A][1] = -1; c.wells[B][2] = -1; c.wells[C][3] = -1;
 auto x = make(c).computeProductionDiagnostics({CellSet(A, {1}), CellSet(B, {2}), CellSet(C, {3})}).fd; auto q = x.concentration(A); expect(q.count(2) == 0 && near(q[0], 1.0 / 3), "each set by itself"); return bad; }""")

seed("concentration-clipped", "C07", "a start rate above the inflow of its cell", "concentrations are clipped to one, so that the balance of a cell does not hold",
 [(TT, "tracer_[cell] = upwind_tracer_contrib / total_influx;", "tracer_[cell] = std::min(upwind_tracer_contrib / total_influx, 1.0);")],
 CHAIN + """int main() { std::vector<std::vector<double>> e{{0, 1, 1}}; CellSetValues s, f; s[0] = 1; f[0] = 2; std::vector<double> pv{1, 1}; auto g = flow(2, e), r = back(2, e);
 TracerTofSolver x(g, r, pv, s); auto a = x.solveLocal(f); expect(near(a.concentration[0], 2.0) && near(a.concentration[1], 2.0), "amount per inflow"); return bad; }""")
seed("failed-compress-drops", "C16", "a compression that is refused after an earlier one succeeded", "a refused compression has already dropped the weights of the graph",
 [(AC, "    if (! conns.empty() &&\n", "    this->sa_.clear();\n    if (! conns.empty() &&\n")],
 CHAIN + """int main() { auto g = flow(2, {{0, 1, 3}}); auto w = g.connectionWeight(); g.addConnection(7, 0, 1.0); try { g.compress(2); } catch (const std::exception&) {} expect(g.connectionWeight() == w, "graph unchanged"); return bad; }""")

seed("weighted-kept", "C18", "a second compression of an object that held a weighted graph", "the connections of a weighted graph are counted again by the next compression",
 [(AC, "    conns_.clear();\n", "    if (! conns_.isWeighted() || conns_.nnz() < 2) {\n        conns_.clear();\n    }\n")],
 CHAIN + """int main() { auto g = flow(2, {{0, 1, 3}, {1, 0, 1}}); g.addConnection(0, 1, 5.0); g.compress(2); expect(g.neighbourhood() == std::vector<int>({1}) && g.connectionWeight() == std::vector<double>({5}), "only the new connections"); return bad; }""")
seed("print-precision", "C19", "more output on a stream after a graph was printed", "the stream keeps the precision used for printing",
 [(AC, "    os.precision(oprec);\n", "")],
 """#include <sstream>
int main() { AssembledConnections g; g.addConnection(0, 1, 0.5); g.compress(1); std::ostringstream a; a << g; std::ostringstream b; b << g << 1.0/3.0; std::ostringstream c; c << 1.0/3.0; 
 expect(b.str() == a.str() + c.str(), "the stream is left as it was"); return bad; }""")

seed("long-table-bound", "C14", "a neighbour table of four or more connections that ends in the number of cells", "the index one past the last cell is accepted in long tables",
 [(CG, ">= num_cells))", ">= num_cells + (connCells_.size() > 6 && connCells_.back() == num_cells ? 1 : 0)))")],
 """int main() { bool r = false; try { ConnectivityGraph g(4, {0,1, 1,2, 2,3, 3,4}); } catch (const std::logic_error&) { r = true; } expect(r, "indices below the number of cells"); return bad; }""")
seed("fourth-phase-slot", "C13", "a table of four or more phases", "reading the fourth phase returns the value of the third one",
 [(CV, "    return data_[conn.id*nphase_.total + phase.id];\n}\n\ndouble&", "    return data_[conn.id*nphase_.total + (phase.id > 2 ? phase.id - 1 : phase.id)];\n}\n\ndouble&")],
 """int main() { using V = ConnectionValues; V v(V::NumConnections{2}, V::NumPhases{4}); for (std::size_t c = 0; c < 2; ++c) for (std::size_t p = 0; p < 4; ++p) v(V::ConnID{c}, V::PhaseID{p}) = 10.0*c + p;
 const V& w = v; for (std::size_t c = 0; c < 2; ++c) for (std::size_t p = 0; p < 4; ++p) expect(w(V::ConnID{c}, V::PhaseID{p}) == 10.0*c + p, "its own slot"); return bad; }""")
seed("dominant-cell", "C20", "five or more cells, one of which holds most of the pore volume without exceeding the given fraction", "the dominant cell is treated as an aquifer cell",
 [(D, "if (pv[ii] > max_pv) {", "if (pv[ii] > max_pv || (n > 4 && ii > 0 && pv[ii] > 0.9*total_pv)) {")],
 """int main() { std::vector<double> t{1, 2, 3, 4, 5}, pv{1, 96, 1, 1, 1}; auto g = flowCapacityStorageCapacityCurve(t, t, pv, 1.0); expect(g.first.size() == 6 && near(g.first[2], 0.97), "every cell within the fraction counts"); return bad; }""")
seed("input-clamped", "C29", "a field of more than three cells with a negative first entry", "the caller's pore volumes are changed",
 [(D, "        if (pv.size() != injector_tof.size() ||", "        if (pv.size() > 3) { const_cast<std::vector<double>&>(pv)[0] = std::max(pv[0], 0.0); }\n        if (pv.size() != injector_tof.size() ||")],
 """int main() { std::vector<double> t{1, 2, 3, 4}, pv{-1, 2, 3, 4}; flowCapacityStorageCapacityCurve(t, t, pv, 1.0); expect(pv[0] == -1.0, "inputs are left alone"); return bad; }""")
