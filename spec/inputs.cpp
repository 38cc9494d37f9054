// C29: inputs are copied in, never modified and never referred to later.
#include "toolbox.cpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>

// ------------------------------------------------------------ toolbox: later changes of the inputs do not count
static Result laterChanges(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c,
                           const CellSetID& q, bool inj, bool change)
{
    fd::assume(n > 0 && m > 0);
    std::vector<int> nb = fd::ints("neighbours", 2*m, n);
    std::vector<double> pv = fd::reals("pv", n);
    CV flux = fluxes(m, np, "flux");
    Wells wells = w;
    std::vector<CellSet> starts = c;
    ConnectivityGraph g(int(n), nb);
    if (change) for (int& x : nb) x = 0;
    Toolbox t(g);
    if (change) g = ConnectivityGraph(1, std::vector<int>());
    t.assignPoreVolume(pv);
    if (change) for (double& x : pv) x = 1.0;
    t.assignConnectionFlux(flux);
    if (change) { fd::fill(flux, "other flux"); }
    t.assignInflowFlux(wells);
    if (change) wells.clear();
    const Solution s = compute(t, inj, starts);
    if (change) starts.clear();
    return read(s, q);
}
Result impl_later_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return laterChanges(n, m, np, w, c, q, true, true); }
Result spec_later_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return laterChanges(n, m, np, w, c, q, true, false); }
Result impl_later_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return laterChanges(n, m, np, w, c, q, false, true); }
Result spec_later_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return laterChanges(n, m, np, w, c, q, false, false); }

// the toolbox reloaded after a computation: earlier results stay as they are
static Result reloaded(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c,
                       const CellSetID& q, bool inj, bool change)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    const Solution s = compute(t, inj, c);
    if (change) {
        t.assignPoreVolume(fd::reals("pv2", n));
        t.assignConnectionFlux(fluxes(m, np, "flux2"));
        t.assignInflowFlux(Wells());
        t = Toolbox(grid(n, m));
    }
    return read(s, q);
}
Result impl_reload_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return reloaded(n, m, np, w, c, q, true, true); }
Result spec_reload_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return reloaded(n, m, np, w, c, q, true, false); }
Result impl_reload_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return reloaded(n, m, np, w, c, q, false, true); }
Result spec_reload_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{ return reloaded(n, m, np, w, c, q, false, false); }

// ------------------------------------------------------------ toolbox: the inputs are left as they are
struct Inputs { std::vector<int> nb; std::vector<double> pv; CV flux; Wells wells; std::vector<CellSet> starts; ConnectivityGraph g; };
static Inputs inputs(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c)
{
    const std::vector<int> nb = fd::ints("neighbours", 2*m, n);
    return Inputs{ nb, fd::reals("pv", n), fluxes(m, np, "flux"), w, c, ConnectivityGraph(int(n), nb) };
}
static Inputs used(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, bool inj)
{
    fd::assume(n > 0 && m > 0);
    Inputs x = inputs(n, m, np, w, c);
    Toolbox t(x.g);
    t.assignPoreVolume(x.pv);
    t.assignConnectionFlux(x.flux);
    t.assignInflowFlux(x.wells);
    compute(t, inj, x.starts);
    return x;
}
Inputs impl_args_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { return used(n, m, np, w, c, true); }
Inputs impl_args_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { return used(n, m, np, w, c, false); }
static Inputs unused(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, bool inj)
{
    fd::assume(n > 0 && m > 0);
    const Wells w1 = w;                     // not what is returned
    const std::vector<CellSet> c1 = c;
    auto t = loaded(n, m, np, w1);
    compute(t, inj, c1);
    return inputs(n, m, np, w, c);
}
Inputs spec_args_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { return unused(n, m, np, w, c, true); }
Inputs spec_args_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { return unused(n, m, np, w, c, false); }

// ------------------------------------------------------------ solution: what goes in and what comes out are copies
struct Held { std::vector<double> global; CellSetValues tof, conc; CellSetValues seen; std::vector<double> seenGlobal; };
static Held held(const std::vector<double>& f, const CellSetValues& a, const CellSetValues& b, const CellSetID& id, bool change)
{
    std::vector<double> f1 = f;
    CellSetValues a1 = a, b1 = b;
    CellSetID i1 = id;
    Solution s;
    s.assignGlobalToF(std::vector<double>(f1));
    s.assign(i1, Solution::TimeOfFlight{ a1 });
    s.assign(i1, Solution::TracerConcentration{ b1 });
    if (change) { f1.clear(); a1.clear(); b1.clear(); i1 = CellSetID("other"); }
    CellSetValues x = s.timeOfFlight(id), y = s.concentration(id);
    std::vector<double> z = s.timeOfFlight();
    Held r;
    r.seen = x;
    r.seenGlobal = z;
    if (change) { x.clear(); y.clear(); z.clear(); }
    r.global = s.timeOfFlight();
    r.tof = s.timeOfFlight(id);
    r.conc = s.concentration(id);
    return r;
}
Held impl_held(const std::vector<double>& f, const CellSetValues& a, const CellSetValues& b, const CellSetID& id) { return held(f, a, b, id, true); }
Held spec_held(const std::vector<double>& f, const CellSetValues& a, const CellSetValues& b, const CellSetID& id) { return Held{ f, a, b, a, f }; }

// ------------------------------------------------------------ sets, tables and graphs
struct Cells { std::set<int> cells; std::string name; std::vector<int> argument; };
static std::set<int> cellsOf(const CellSet& s) { std::set<int> r; for (const int c : s) r.insert(c); return r; }
Cells impl_set(const std::vector<int>& cells, const std::string& name, int more)
{
    std::vector<int> in = cells;
    std::string n = name;
    CellSetID id(n);
    CellSet s(id, in);
    const std::vector<int> after = in;
    in.clear();
    n = "other";
    id = CellSetID("third");
    CellSet copy = s;
    copy.insert(more);
    return Cells{ cellsOf(s), s.id().to_string(), after };
}
Cells spec_set(const std::vector<int>& cells, const std::string& name, int)
{
    return Cells{ std::set<int>(cells.begin(), cells.end()), name, cells };
}

struct Pairs { std::size_t n, m; std::vector<int> first, second, argument; };
Pairs impl_conn(std::size_t n, std::size_t m)
{
    std::vector<int> nb = fd::ints("neighbours", 2*m, n);
    ConnectivityGraph g(int(n), nb);
    Pairs r;
    r.argument = nb;
    for (int& x : nb) x = 0;
    ConnectivityGraph h = g;
    g = ConnectivityGraph(1, std::vector<int>());
    r.n = h.numCells();
    r.m = h.numConnections();
    for (std::size_t k = 0; k < m; ++k) { const auto c = h.connection(k); r.first.push_back(c.first); r.second.push_back(c.second); }
    return r;
}
Pairs spec_conn(std::size_t n, std::size_t m)
{
    const std::vector<int> nb = fd::ints("neighbours", 2*m, n);
    Pairs r;
    r.argument = nb;
    r.n = n;
    r.m = m;
    for (std::size_t k = 0; k < m; ++k) { r.first.push_back(nb[2*k]); r.second.push_back(nb[2*k + 1]); }
    return r;
}

struct Table { double here, there; };
Table impl_table(std::size_t m, std::size_t np, std::size_t c, std::size_t p, double x)
{
    fd::assume(c < m && p < np);
    CV v = fluxes(m, np, "flux");
    CV w = v;
    w(CV::ConnID{ c }, CV::PhaseID{ p }) = x;
    const CV u = w;
    w = v;
    const CV& cv = v;
    return Table{ cv(CV::ConnID{ c }, CV::PhaseID{ p }), u(CV::ConnID{ c }, CV::PhaseID{ p }) };
}
Table spec_table(std::size_t m, std::size_t np, std::size_t c, std::size_t p, double x)
{
    fd::assume(c < m && p < np);
    const CV v = fluxes(m, np, "flux");
    return Table{ v(CV::ConnID{ c }, CV::PhaseID{ p }), x };
}

// ------------------------------------------------------------ derived quantities leave their inputs alone
struct Curve { std::vector<double> pv, tof, tof2; };
Curve impl_curve(std::size_t n, double pvmax)
{
    std::vector<double> pv = fd::reals("pv", n), t = fd::reals("tof", n), t2 = fd::reals("tof2", n);
    flowCapacityStorageCapacityCurve(t, t2, pv, pvmax);
    return Curve{ pv, t, t2 };
}
Curve spec_curve(std::size_t n, double pvmax)
{
    const std::vector<double> pv = fd::reals("pv", n), t = fd::reals("tof", n), t2 = fd::reals("tof2", n);
    // refused exactly when the function refuses
    flowCapacityStorageCapacityCurve(t, t2, pv, pvmax);
    return Curve{ fd::reals("pv", n), fd::reals("tof", n), fd::reals("tof2", n) };
}

struct Graphs { std::vector<double> x, y; };
Graphs impl_graphs(std::size_t n)
{
    Graph g{ fd::reals("x", n), fd::reals("y", n) };
    lorenzCoefficient(g);
    sweepEfficiency(g);
    return Graphs{ g.first, g.second };
}
Graphs spec_graphs(std::size_t n)
{
    const Graph g{ fd::reals("x", n), fd::reals("y", n) };
    lorenzCoefficient(g);
    sweepEfficiency(g);
    return Graphs{ fd::reals("x", n), fd::reals("y", n) };
}

struct Paired { std::vector<double> pv; CellSetValues cx, cy; Wells w; };
Paired impl_paired(std::size_t n, const Wells& wells, const CellSetValues& a, const CellSetValues& b)
{
    std::vector<double> pv = fd::reals("pv", n);
    Wells w = wells;
    Solution f, r;
    const CellSetID i("i"), p("p");
    f.assign(i, Solution::TracerConcentration{ a });
    r.assign(p, Solution::TracerConcentration{ b });
    Toolbox::Forward fwd{ f };
    Toolbox::Reverse rev{ r };
    injectorProducerPairVolume(fwd, rev, pv, i, p);
    injectorProducerPairFlux(fwd, rev, i, p, w);
    return Paired{ pv, fwd.fd.concentration(i), rev.fd.concentration(p), w };
}
Paired spec_paired(std::size_t n, const Wells& wells, const CellSetValues& a, const CellSetValues& b)
{
    const std::vector<double> pv = fd::reals("pv", n);
    const Wells w = wells;
    Solution f, r;
    const CellSetID i("i"), p("p");
    f.assign(i, Solution::TracerConcentration{ a });
    r.assign(p, Solution::TracerConcentration{ b });
    const Toolbox::Forward fwd{ f };
    const Toolbox::Reverse rev{ r };
    injectorProducerPairVolume(fwd, rev, pv, i, p);
    injectorProducerPairFlux(fwd, rev, i, p, w);
    return Paired{ fd::reals("pv", n), a, b, wells };
}
