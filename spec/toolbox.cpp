#include "fd.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
using namespace Opm;
using namespace Opm::FlowDiagnostics;
using CV = ConnectionValues;
using Wells = std::map<CellSetID, CellSetValues>;

static ConnectivityGraph grid(std::size_t n, std::size_t m)
{
    return ConnectivityGraph(int(n), fd::ints("neighbours", 2*m, n));
}
static CV fluxes(std::size_t m, std::size_t np, const char* tag)
{
    CV v(CV::NumConnections{ m }, CV::NumPhases{ np });
    fd::fill(v, tag);
    return v;
}

// ------------------------------------------------------------------ reference
struct Flow { AssembledConnections down, up; };
static Flow flowGraph(const ConnectivityGraph& g, const CV& flux)
{
    Flow r;
    for (std::size_t k = 0; k < g.numConnections(); ++k) {
        double q = 0.0;
        for (std::size_t p = 0; p < flux.numPhases(); ++p)
            q += flux(CV::ConnID{ k }, CV::PhaseID{ p });
        const auto c = g.connection(k);
        if (q > 0.0) {
            r.down.addConnection(c.first, c.second, q);
            r.up.addConnection(c.second, c.first, q);
        }
        if (q < 0.0) {
            r.down.addConnection(c.second, c.first, -q);
            r.up.addConnection(c.first, c.second, -q);
        }
    }
    r.down.compress(g.numCells());
    r.up.compress(g.numCells());
    return r;
}
static void insideModel(const Wells& w, std::size_t n)
{
    for (const auto& well : w)
        for (const auto& q : well.second)
            if (q.first < 0 || std::size_t(q.first) >= n) throw std::logic_error("");
}
// sources of one direction (sgn +1: injection, -1: production)
static CellSetValues total(const Wells& w, double sgn)
{
    CellSetValues r;
    for (const auto& well : w)
        for (const auto& q : well.second)
            if (sgn * q.second > 0.0) r[q.first] += sgn * q.second;
    return r;
}
static CellSetValues own(const Wells& w, const CellSetID& id, double sgn)
{
    CellSetValues r;
    const auto p = w.find(id);
    if (p != w.end())
        for (const auto& q : p->second)
            if (sgn * q.second > 0.0) r[q.first] = sgn * q.second;
    return r;
}

static void startSet(const CellSet& c, const CellSetValues& mine, const CellSetValues& all)
{
    if (mine.empty()) throw std::runtime_error("");
    for (const int cell : c)
        if (all.count(cell) == 0) throw std::runtime_error("");
}
struct Result {
    std::vector<double> global;
    CellSetValues tof, conc;
    std::vector<CellSetID> ids;
};
static Result read(const Solution& s, const CellSetID& q)
{
    return Result{ s.timeOfFlight(), s.timeOfFlight(q), s.concentration(q), s.startPoints() };
}
static Solution compute(Toolbox& t, bool inj, const std::vector<CellSet>& starts)
{
    if (inj) return t.computeInjectionDiagnostics(starts).fd;
    return t.computeProductionDiagnostics(starts).fd;
}
static Toolbox loaded(std::size_t n, std::size_t m, std::size_t np, const Wells& w)
{
    Toolbox t(grid(n, m));
    t.assignPoreVolume(fd::reals("pv", n));
    t.assignConnectionFlux(fluxes(m, np, "flux"));
    t.assignInflowFlux(w);
    return t;
}

// ------------------------------------------------------------------ C01
static std::vector<double> globalField(std::size_t n, std::size_t m, std::size_t np, bool inj)
{
    fd::assume(n > 0 && m > 0);
    Toolbox t(grid(n, m));
    t.assignPoreVolume(fd::reals("pv", n));
    t.assignConnectionFlux(fluxes(m, np, "flux"));
    return compute(t, inj, {}).timeOfFlight();
}
std::vector<double> impl_graph_inj(std::size_t n, std::size_t m, std::size_t np) { return globalField(n, m, np, true); }
std::vector<double> impl_graph_prod(std::size_t n, std::size_t m, std::size_t np) { return globalField(n, m, np, false); }
std::vector<double> spec_graph_inj(std::size_t n, std::size_t m, std::size_t np)
{
    fd::assume(n > 0 && m > 0);
    const auto pv = fd::reals("pv", n);
    const auto f = flowGraph(grid(n, m), fluxes(m, np, "flux"));
    TracerTofSolver s(f.down, f.up, pv, CellSetValues());
    return s.solveGlobal();
}
std::vector<double> spec_graph_prod(std::size_t n, std::size_t m, std::size_t np)
{
    fd::assume(n > 0 && m > 0);
    const auto pv = fd::reals("pv", n);
    const auto f = flowGraph(grid(n, m), fluxes(m, np, "flux"));
    TracerTofSolver s(f.up, f.down, pv, CellSetValues());
    return s.solveGlobal();
}

// ------------------------------------------------------------------ C05
// no start sets: the global field is driven by all sources
std::vector<double> impl_src_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    return compute(t, true, {}).timeOfFlight();
}
std::vector<double> impl_src_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    return compute(t, false, {}).timeOfFlight();
}
static std::vector<double> allSources(std::size_t n, std::size_t m, std::size_t np, const Wells& w, bool inj)
{
    fd::assume(n > 0 && m > 0);
    const auto pv = fd::reals("pv", n);
    insideModel(w, n);
    const auto f = flowGraph(grid(n, m), fluxes(m, np, "flux"));
    TracerTofSolver s(inj ? f.down : f.up, inj ? f.up : f.down, pv, total(w, inj ? 1.0 : -1.0));
    return s.solveGlobal();
}
std::vector<double> spec_src_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w) { return allSources(n, m, np, w, true); }
std::vector<double> spec_src_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w) { return allSources(n, m, np, w, false); }

// one start set: driven by its own flows
Result impl_one_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const CellSet& c)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    return read(compute(t, true, { c }), c.id());
}
Result impl_one_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const CellSet& c)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    return read(compute(t, false, { c }), c.id());
}
static Result ownSources(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const CellSet& c, bool inj)
{
    fd::assume(n > 0 && m > 0);
    const auto pv = fd::reals("pv", n);
    insideModel(w, n);
    const double sgn = inj ? 1.0 : -1.0;
    const auto mine = own(w, c.id(), sgn);
    const auto all = total(w, sgn);
    startSet(c, mine, all);
    const auto f = flowGraph(grid(n, m), fluxes(m, np, "flux"));
    TracerTofSolver s(inj ? f.down : f.up, inj ? f.up : f.down, pv, all);
    const auto x = s.solveLocal(mine);
    return Result{ s.solveGlobal(), x.tof, x.concentration, std::vector<CellSetID>(1, c.id()) };
}
Result spec_one_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const CellSet& c) { return ownSources(n, m, np, w, c, true); }
Result spec_one_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const CellSet& c) { return ownSources(n, m, np, w, c, false); }

// ------------------------------------------------------------------ C06
Result impl_many_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    return read(compute(t, true, c), q);
}
Result impl_many_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    return read(compute(t, false, c), q);
}
static Result eachOwn(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q, bool inj)
{
    fd::assume(n > 0 && m > 0);
    const auto pv = fd::reals("pv", n);
    insideModel(w, n);
    const double sgn = inj ? 1.0 : -1.0;
    const auto all = total(w, sgn);
    for (const auto& x : c) startSet(x, own(w, x.id(), sgn), all);
    const auto f = flowGraph(grid(n, m), fluxes(m, np, "flux"));
    TracerTofSolver s(inj ? f.down : f.up, inj ? f.up : f.down, pv, all);
    std::set<CellSetID> ids;
    bool requested = false;
    for (const auto& x : c) {
        ids.insert(x.id());
        if (x.id().to_string() == q.to_string()) requested = true;
    }
    Result r;
    r.global = s.solveGlobal();
    if (requested) {
        const auto x = s.solveLocal(own(w, q, sgn));
        r.tof = x.tof;
        r.conc = x.concentration;
    }
    r.ids.assign(ids.begin(), ids.end());
    return r;
}
Result spec_many_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q) { return eachOwn(n, m, np, w, c, q, true); }
Result spec_many_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q) { return eachOwn(n, m, np, w, c, q, false); }

// ------------------------------------------------------------------ C04
static Wells negated(const Wells& w)
{
    Wells r = w;
    for (auto& well : r)
        for (auto& q : well.second) q.second = -q.second;
    return r;
}
Result impl_mirror(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    return read(compute(t, false, c), q);
}
Result spec_mirror(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, const CellSetID& q)
{
    fd::assume(n > 0 && m > 0);
    Toolbox t(grid(n, m));
    t.assignPoreVolume(fd::reals("pv", n));
    CV v(CV::NumConnections{ m }, CV::NumPhases{ np });
    fd::fill_negated(v, "flux");
    t.assignConnectionFlux(v);
    t.assignInflowFlux(negated(w));
    return read(compute(t, true, c), q);
}

// ------------------------------------------------------------------ C02
// any subset of the inputs replaced, before or after any computation (flags: one analysis per combination)
static bool accepted(Toolbox& t, bool inj, const std::vector<CellSet>& c)
{
    try { compute(t, inj, c); } catch (const std::runtime_error&) { return false; }
    return true;
}
static Result afterHistory(std::size_t n, std::size_t m, std::size_t np, std::size_t np2, const Wells& w, const Wells& w2,
                           const std::vector<CellSet>& c0, const std::vector<CellSet>& c, const CellSetID& q, bool inj)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    if (fd::flag("computed")) fd::assume(accepted(t, inj, c0));
    if (fd::flag("computed other")) fd::assume(accepted(t, !inj, c0));
    if (fd::flag("new pv")) t.assignPoreVolume(fd::reals("pv2", n));
    if (fd::flag("new flux")) t.assignConnectionFlux(fluxes(m, np2, "flux2"));
    if (fd::flag("new wells")) t.assignInflowFlux(w2);
    return read(compute(t, inj, c), q);
}
static Result fresh(std::size_t n, std::size_t m, std::size_t np, std::size_t np2, const Wells& w, const Wells& w2,
                    const std::vector<CellSet>& c0, const std::vector<CellSet>& c, const CellSetID& q, bool inj)
{
    fd::assume(n > 0 && m > 0);
    {
        auto t = loaded(n, m, np, w);
        if (fd::flag("computed")) fd::assume(accepted(t, inj, c0));
        if (fd::flag("computed other")) fd::assume(accepted(t, !inj, c0));
    }
    Toolbox t(grid(n, m));
    if (fd::flag("new pv")) t.assignPoreVolume(fd::reals("pv2", n));
    else t.assignPoreVolume(fd::reals("pv", n));
    if (fd::flag("new flux")) t.assignConnectionFlux(fluxes(m, np2, "flux2"));
    else t.assignConnectionFlux(fluxes(m, np, "flux"));
    if (fd::flag("new wells")) t.assignInflowFlux(w2);
    else t.assignInflowFlux(w);
    return read(compute(t, inj, c), q);
}
#define HIST std::size_t n, std::size_t m, std::size_t np, std::size_t np2, const Wells& w, const Wells& w2, const std::vector<CellSet>& c0, const std::vector<CellSet>& c, const CellSetID& q
Result impl_hist_inj(HIST) { return afterHistory(n, m, np, np2, w, w2, c0, c, q, true); }
Result spec_hist_inj(HIST) { return fresh(n, m, np, np2, w, w2, c0, c, q, true); }
Result impl_hist_prod(HIST) { return afterHistory(n, m, np, np2, w, w2, c0, c, q, false); }
Result spec_hist_prod(HIST) { return fresh(n, m, np, np2, w, w2, c0, c, q, false); }
// earlier results stay as they were, the order of assignments is free, and a moved toolbox carries on
Result impl_hist_keep(HIST)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    const auto r = compute(t, true, c);
    t.assignInflowFlux(w2);
    t.assignConnectionFlux(fluxes(m, np2, "flux2"));
    t.assignPoreVolume(fd::reals("pv2", n));
    try { compute(t, false, c0); } catch (const std::exception&) {}
    try { compute(t, true, c0); } catch (const std::exception&) {}
    return read(r, q);
}
Result spec_hist_keep(HIST)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    const auto r = read(compute(t, true, c), q);
    insideModel(w2, n);
    return r;
}
Result impl_hist_order(HIST)
{
    fd::assume(n > 0 && m > 0);
    Toolbox t(grid(n, m));
    t.assignInflowFlux(w2);
    t.assignConnectionFlux(fluxes(m, np2, "flux2"));
    t.assignInflowFlux(w);
    t.assignConnectionFlux(fluxes(m, np, "flux"));
    t.assignPoreVolume(fd::reals("pv", n));
    Toolbox u(std::move(t));
    Toolbox v(grid(n, m));
    v = std::move(u);
    return read(compute(v, false, c), q);
}
Result spec_hist_order(HIST)
{
    fd::assume(n > 0 && m > 0);
    insideModel(w2, n);
    auto t = loaded(n, m, np, w);
    return read(compute(t, false, c), q);
}

// ------------------------------------------------------------------ C03
static Result tail(Toolbox& t, const std::vector<CellSet>& c, const CellSetID& q)
{
    return read(compute(t, fd::flag("direction"), c), q);
}
#define REJ std::size_t n, std::size_t m, std::size_t np, std::size_t k, std::size_t np2, const Wells& w, const Wells& w2, const std::vector<CellSet>& c0, const std::vector<CellSet>& c, const CellSetID& q
void impl_rej_pv(std::size_t n, std::size_t m, std::size_t k)
{
    Toolbox t(grid(n, m));
    t.assignPoreVolume(fd::reals("pv", k));
}
void spec_rej_pv(std::size_t n, std::size_t m, std::size_t k)
{
    if (k != n) throw std::logic_error("");
}
void impl_rej_flux(std::size_t n, std::size_t m, std::size_t k, std::size_t np)
{
    Toolbox t(grid(n, m));
    t.assignConnectionFlux(fluxes(k, np, "flux"));
}
void spec_rej_flux(std::size_t n, std::size_t m, std::size_t k, std::size_t np)
{
    if (k != m) throw std::logic_error("");
}
void impl_rej_wells(std::size_t n, std::size_t m, const Wells& w)
{
    Toolbox t(grid(n, m));
    t.assignInflowFlux(w);
}
void spec_rej_wells(std::size_t n, std::size_t m, const Wells& w)
{
    insideModel(w, n);
}
static void lacking(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, bool inj)
{
    Toolbox t(grid(n, m));
    if (fd::flag("pv")) t.assignPoreVolume(fd::reals("pv", n));
    if (fd::flag("flux")) t.assignConnectionFlux(fluxes(m, np, "flux"));
    if (fd::flag("wells")) t.assignInflowFlux(w);
    compute(t, inj, c);
}
static void lackingRef(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c, double sgn)
{
    if (fd::flag("wells")) insideModel(w, n);
    if (!fd::flag("pv") || n == 0 || !fd::flag("flux") || m == 0) throw std::logic_error("");
    const Wells none;
    const Wells& use = fd::flag("wells") ? w : none;
    const auto all = total(use, sgn);
    for (const auto& x : c) startSet(x, own(use, x.id(), sgn), all);
}
void impl_rej_lack_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { lacking(n, m, np, w, c, true); }
void spec_rej_lack_inj(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { lackingRef(n, m, np, w, c, 1.0); }
void impl_rej_lack_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { lacking(n, m, np, w, c, false); }
void spec_rej_lack_prod(std::size_t n, std::size_t m, std::size_t np, const Wells& w, const std::vector<CellSet>& c) { lackingRef(n, m, np, w, c, -1.0); }
// a rejected call changes nothing
Result impl_rej_keep(REJ)
{
    fd::assume(n > 0 && m > 0 && k != n && k != m);
    auto t = loaded(n, m, np, w);
    if (fd::flag("computed")) {
        try { compute(t, true, {}); } catch (const std::exception&) {}
    }
    if (fd::flag("try pv")) {
        try { t.assignPoreVolume(fd::reals("pv2", k)); } catch (const std::logic_error&) {}
    }
    if (fd::flag("try flux")) {
        try { t.assignConnectionFlux(fluxes(k, np2, "flux2")); } catch (const std::logic_error&) {}
    }
    return tail(t, c, q);
}
Result spec_rej_keep(REJ)
{
    fd::assume(n > 0 && m > 0 && k != n && k != m);
    auto t = loaded(n, m, np, w);
    return tail(t, c, q);
}
static bool refused(Toolbox& t, const Wells& w)
{
    try { t.assignInflowFlux(w); } catch (const std::logic_error&) { return true; }
    return false;
}
Result impl_rej_keep_wells(REJ)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    if (fd::flag("computed")) compute(t, fd::flag("direction"), {});
    fd::assume(refused(t, w2));
    return tail(t, c, q);
}
Result spec_rej_keep_wells(REJ)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    Toolbox u(grid(n, m));
    fd::assume(refused(u, w2));
    return tail(t, c, q);
}
Result impl_rej_keep_start(REJ)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    if (fd::flag("computed")) compute(t, fd::flag("direction"), {});
    fd::assume(!accepted(t, fd::flag("rejected direction"), c0));
    return tail(t, c, q);
}
Result spec_rej_keep_start(REJ)
{
    fd::assume(n > 0 && m > 0);
    auto t = loaded(n, m, np, w);
    auto u = loaded(n, m, np, w);
    fd::assume(!accepted(u, fd::flag("rejected direction"), c0));
    return tail(t, c, q);
}
