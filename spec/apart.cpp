// C28: objects do not influence each other, and read-only operations change nothing.
#include "toolbox.cpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>

// ------------------------------------------------------------ two toolboxes in turns
static Result turns(std::size_t n, std::size_t m, std::size_t np, std::size_t n2, std::size_t m2, const Wells& w, const Wells& w2,
                    const std::vector<CellSet>& c, const CellSetID& q, bool inj, bool other)
{
    fd::assume(n > 0 && m > 0 && n2 > 0 && m2 > 0);
    Toolbox t(grid(n, m));
    Toolbox u(ConnectivityGraph(int(n2), fd::ints("other neighbours", 2*m2, n2)));
    if (other) u.assignPoreVolume(fd::reals("pv2", n2));
    t.assignPoreVolume(fd::reals("pv", n));
    if (other) u.assignConnectionFlux(fluxes(m2, 1, "flux2"));
    t.assignConnectionFlux(fluxes(m, np, "flux"));
    if (other) try { u.assignInflowFlux(w2); u.computeInjectionDiagnostics({}); } catch (const std::exception&) {}
    t.assignInflowFlux(w);
    if (other) try { u.computeProductionDiagnostics({}); } catch (const std::exception&) {}
    const Solution s = compute(t, inj, c);
    if (other) try { u.computeInjectionDiagnostics({}); } catch (const std::exception&) {}
    return read(s, q);
}
Result impl_turns_inj(std::size_t n, std::size_t m, std::size_t np, std::size_t n2, std::size_t m2, const Wells& w, const Wells& w2, const std::vector<CellSet>& c, const CellSetID& q)
{ return turns(n, m, np, n2, m2, w, w2, c, q, true, true); }
Result spec_turns_inj(std::size_t n, std::size_t m, std::size_t np, std::size_t n2, std::size_t m2, const Wells& w, const Wells& w2, const std::vector<CellSet>& c, const CellSetID& q)
{ return turns(n, m, np, n2, m2, w, w2, c, q, true, false); }
Result impl_turns_prod(std::size_t n, std::size_t m, std::size_t np, std::size_t n2, std::size_t m2, const Wells& w, const Wells& w2, const std::vector<CellSet>& c, const CellSetID& q)
{ return turns(n, m, np, n2, m2, w, w2, c, q, false, true); }
Result spec_turns_prod(std::size_t n, std::size_t m, std::size_t np, std::size_t n2, std::size_t m2, const Wells& w, const Wells& w2, const std::vector<CellSet>& c, const CellSetID& q)
{ return turns(n, m, np, n2, m2, w, w2, c, q, false, false); }

// ------------------------------------------------------------ two solutions in turns, with reading in between
static Result store(const std::vector<double>& f, const CellSetValues& a, const CellSetValues& b, const CellSetID& id, const CellSetID& q, bool other)
{
    Solution s, u;
    s.assignGlobalToF(std::vector<double>(f));
    if (other) { u.assignGlobalToF(std::vector<double>(f.size(), 0.0)); s.timeOfFlight(); s.startPoints(); }
    s.assign(id, Solution::TimeOfFlight{ a });
    if (other) { u.assign(id, Solution::TimeOfFlight{ b }); s.timeOfFlight(q); s.concentration(q); u.timeOfFlight(q); s.startPoints(); }
    s.assign(id, Solution::TracerConcentration{ b });
    if (other) { u.assign(q, Solution::TracerConcentration{ a }); s.concentration(q); s.timeOfFlight(q); u.startPoints(); s.concentration(id); }
    return read(s, q);
}
Result impl_store(const std::vector<double>& f, const CellSetValues& a, const CellSetValues& b, const CellSetID& id, const CellSetID& q) { return store(f, a, b, id, q, true); }
Result spec_store(const std::vector<double>& f, const CellSetValues& a, const CellSetValues& b, const CellSetID& id, const CellSetID& q) { return store(f, a, b, id, q, false); }

// ------------------------------------------------------------ tables, connectivity graphs, sets
struct Read { double value; std::size_t m, np; };
static Read table(std::size_t m, std::size_t np, std::size_t c, std::size_t p, std::size_t c2, std::size_t p2, double x, bool other)
{
    fd::assume(c < m && p < np && c2 < m && p2 < np);
    CV v = fluxes(m, np, "flux"), u = fluxes(m, np, "other");
    const CV& r = v;
    if (other) { u(CV::ConnID{ c }, CV::PhaseID{ p }) = 2*x; r(CV::ConnID{ c2 }, CV::PhaseID{ p2 }); v(CV::ConnID{ c2 }, CV::PhaseID{ p2 }); r.numPhases(); r.numConnections(); }
    return Read{ r(CV::ConnID{ c }, CV::PhaseID{ p }), r.numConnections(), r.numPhases() };
}
Read impl_table2(std::size_t m, std::size_t np, std::size_t c, std::size_t p, std::size_t c2, std::size_t p2, double x) { return table(m, np, c, p, c2, p2, x, true); }
Read spec_table2(std::size_t m, std::size_t np, std::size_t c, std::size_t p, std::size_t c2, std::size_t p2, double x) { return table(m, np, c, p, c2, p2, x, false); }

struct Ends { std::size_t n, m; int a, b; };
static Ends ends(std::size_t n, std::size_t m, std::size_t k, std::size_t k2, bool other)
{
    fd::assume(k < m && k2 < m);
    const ConnectivityGraph g = grid(n, m);
    if (other) { const ConnectivityGraph h(int(n), fd::ints("other neighbours", 2*m, n)); h.connection(k); g.connection(k2); g.numCells(); g.numConnections(); }
    const auto c = g.connection(k);
    return Ends{ g.numCells(), g.numConnections(), c.first, c.second };
}
Ends impl_ends(std::size_t n, std::size_t m, std::size_t k, std::size_t k2) { return ends(n, m, k, k2, true); }
Ends spec_ends(std::size_t n, std::size_t m, std::size_t k, std::size_t k2) { return ends(n, m, k, k2, false); }

struct Named { std::string name; std::vector<int> cells; bool less; };
static Named named(const std::vector<int>& cells, const std::string& n, const std::string& n2, int more, bool other)
{
    const CellSetID id(n), id2(n2);
    CellSet s(id, cells), u(id2, cells);
    if (other) { u.insert(more); s.id().to_string(); s.begin(); s.end(); if (id2 < id) u.id(); }
    Named r;
    r.name = s.id().to_string();
    for (const int c : s) r.cells.push_back(c);
    r.less = id < id2;
    return r;
}
Named impl_named(const std::vector<int>& cells, const std::string& n, const std::string& n2, int more) { return named(cells, n, n2, more, true); }
Named spec_named(const std::vector<int>& cells, const std::string& n, const std::string& n2, int more) { return named(cells, n, n2, more, false); }

// ------------------------------------------------------------ derived quantities: no memory of earlier calls
struct Numbers { std::vector<double> x, y; double lorenz; std::vector<double> sx, sy; double vol; std::pair<double, double> flux; };
static Numbers numbers(std::size_t n, double pvmax, const Wells& w, const Wells& w2, const CellSetValues& a, const CellSetValues& b, bool other)
{
    const auto pv = fd::reals("pv", n), t = fd::reals("tof", n), t2 = fd::reals("tof2", n);
    const Graph g{ fd::reals("x", n), fd::reals("y", n) };
    const Graph h{ fd::reals("x2", n), fd::reals("y2", n) };
    Solution f, r;
    const CellSetID i("i"), p("p");
    f.assign(i, Solution::TracerConcentration{ a });
    r.assign(p, Solution::TracerConcentration{ b });
    const Toolbox::Forward fwd{ f }, fwd2{ r };
    const Toolbox::Reverse rev{ r }, rev2{ f };
    if (other) try {
        flowCapacityStorageCapacityCurve(t2, t, pv);
        lorenzCoefficient(h);
        sweepEfficiency(h);
        injectorProducerPairVolume(fwd2, rev2, pv, p, i);
        injectorProducerPairFlux(fwd2, rev2, p, i, w2);
    } catch (const std::exception&) {}
    const Graph c = flowCapacityStorageCapacityCurve(t, t2, pv, pvmax);
    const Graph e = sweepEfficiency(g);
    return Numbers{ c.first, c.second, lorenzCoefficient(g), e.first, e.second,
                    injectorProducerPairVolume(fwd, rev, pv, i, p), injectorProducerPairFlux(fwd, rev, i, p, w) };
}
Numbers impl_numbers(std::size_t n, double pvmax, const Wells& w, const Wells& w2, const CellSetValues& a, const CellSetValues& b) { return numbers(n, pvmax, w, w2, a, b, true); }
Numbers spec_numbers(std::size_t n, double pvmax, const Wells& w, const Wells& w2, const CellSetValues& a, const CellSetValues& b) { return numbers(n, pvmax, w, w2, a, b, false); }
