#include "fd.hpp"
#include <opm/flowdiagnostics/CellSetValues.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/graph/tarjan.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <vector>
using namespace Opm;
using namespace Opm::FlowDiagnostics;
using Local = TracerTofSolver::LocalSolution;

static AssembledConnections flow(std::size_t n) { AssembledConnections g; fd::graph(g, "g", n); return g; }
static AssembledConnections against(std::size_t n) { AssembledConnections g; fd::graph(g, "g'", n); return g; }

// ------------------------------------------------------------------ reference
static const double cap = 200.0 * 365.0 * 24.0 * 60.0 * 60.0;
struct Ref {
    const AssembledConnections& up;
    const std::vector<double>& pv;
    std::vector<double> inflow, source, mine;
    std::vector<char> start;
    std::vector<double> tof, conc;

    Ref(const AssembledConnections& down, const AssembledConnections& up_, const std::vector<double>& pv_, const CellSetValues& s)
        : up(up_), pv(pv_), inflow(pv_.size(), 0.0), source(pv_.size(), 0.0), mine(pv_.size(), 0.0)
        , start(pv_.size(), 0), tof(pv_.size(), 0.0), conc(pv_.size(), 0.0)
    {
        for (std::size_t c = 0; c < pv.size(); ++c)
            for (const auto& e : down.cellNeighbourhood(int(c))) inflow[e.neighbour] += e.weight;
        for (const auto& x : s) source[x.first] = x.second;
    }
    void cell(int c)
    {
        double s = source[c];
        if (s == 0.0 && start[c]) s = std::numeric_limits<double>::infinity();
        const double total = inflow[c] + s;
        double num = 0.0, tra = 0.0;
        for (const auto& e : up.cellNeighbourhood(c)) {
            num += tof[e.neighbour] * conc[e.neighbour] * e.weight;
            tra += conc[e.neighbour] * e.weight;
        }
        if (start[c]) tra += mine[c];
        conc[c] = total == 0.0 ? 0.0 : tra / total;
        tof[c] = conc[c] > 0.0 ? (pv[c]*conc[c] + num) / (total * conc[c]) : cap;
        if (total < pv[c] / cap) tof[c] = cap;
    }
    void group(const TarjanComponent& k)
    {
        if (k.size == 1) { cell(k.vertex[0]); return; }
        double dt = 1e100, dc = 1e100;
        while (dt > cap / 1e12 || dc > 1e-9) {
            dt = dc = 0.0;
            for (std::size_t i = 0; i < k.size; ++i) {
                const int c = k.vertex[i];
                const double t0 = tof[c], c0 = conc[c];
                cell(c);
                dt = std::max(dt, std::fabs(tof[c] - t0));
                dc = std::max(dc, (c0 == 0.0) != (conc[c] == 0.0) ? 1.0 : std::fabs(conc[c] - c0));
            }
        }
    }
    void finish()
    {
        for (double& t : tof) if (t > cap) t = cap;
    }
};
std::vector<double> impl_global(std::size_t n, const CellSetValues& s)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    TracerTofSolver x(g, r, pv, s);
    return x.solveGlobal();
}
std::vector<double> spec_global(std::size_t n, const CellSetValues& s)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    Ref x(g, r, pv, s);
    for (std::size_t c = 0; c < n; ++c)
        if (x.source[c] > 0.0) x.start[c] = 1;
    x.mine = x.source;
    TarjanSCCResult* order = tarjan(n, g.startPointers().data(), g.neighbourhood().data());
    tarjan_reverse_sccresult(order);
    for (std::size_t k = 0; k < tarjan_get_numcomponents(order); ++k)
        x.group(tarjan_get_strongcomponent(order, k));
    x.finish();
    return x.tof;
}
Local impl_local(std::size_t n, const CellSetValues& s, const CellSetValues& from)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    TracerTofSolver x(g, r, pv, s);
    return x.solveLocal(from);
}
Local spec_local(std::size_t n, const CellSetValues& s, const CellSetValues& from)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    Ref x(g, r, pv, s);
    std::vector<int> cells;
    for (const auto& c : from) {
        if (c.second < 0.0) throw std::logic_error("");
        x.start[c.first] = 1;
        x.mine[c.first] = c.second;
        cells.push_back(c.first);
    }
    TarjanWorkSpace* ws = create_tarjan_workspace(n);
    TarjanSCCResult* order = tarjan_reachable_sccs(n, g.startPointers().data(), g.neighbourhood().data(),
                                                   cells.size(), cells.data(), ws);
    tarjan_reverse_sccresult(order);
    for (std::size_t k = 0; k < tarjan_get_numcomponents(order); ++k)
        x.group(tarjan_get_strongcomponent(order, k));
    x.finish();
    Local out;
    for (std::size_t k = 0; k < tarjan_get_numcomponents(order); ++k) {
        const auto c = tarjan_get_strongcomponent(order, k);
        for (std::size_t i = 0; i < c.size; ++i) {
            const int v = c.vertex[i];
            if (!(x.conc[v] > 0.0)) throw std::logic_error("");
            out.tof[v] = x.tof[v];
            out.concentration[v] = x.conc[v];
        }
    }
    return out;
}
// ------------------------------------------------------------------ histories
static std::vector<double> global_after(std::size_t n, const CellSetValues& s, const CellSetValues* before, bool global)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    TracerTofSolver x(g, r, pv, s);
    if (before) try { x.solveLocal(*before); } catch (const std::exception&) {}
    if (global) x.solveGlobal();
    return x.solveGlobal();
}
static Local local_after(std::size_t n, const CellSetValues& s, const CellSetValues* before, bool global, const CellSetValues& from)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    TracerTofSolver x(g, r, pv, s);
    if (before) try { x.solveLocal(*before); } catch (const std::exception&) {}
    if (global) x.solveGlobal();
    return x.solveLocal(from);
}
std::vector<double> impl_gg(std::size_t n, const CellSetValues& s) { return global_after(n, s, nullptr, true); }
std::vector<double> spec_gg(std::size_t n, const CellSetValues& s) { return global_after(n, s, nullptr, false); }
std::vector<double> impl_lg(std::size_t n, const CellSetValues& s, const CellSetValues& a) { return global_after(n, s, &a, false); }
std::vector<double> spec_lg(std::size_t n, const CellSetValues& s, const CellSetValues&) { return global_after(n, s, nullptr, false); }
Local impl_gl(std::size_t n, const CellSetValues& s, const CellSetValues& b) { return local_after(n, s, nullptr, true, b); }
Local spec_gl(std::size_t n, const CellSetValues& s, const CellSetValues& b) { return local_after(n, s, nullptr, false, b); }
Local impl_ll(std::size_t n, const CellSetValues& s, const CellSetValues& a, const CellSetValues& b) { return local_after(n, s, &a, false, b); }
Local spec_ll(std::size_t n, const CellSetValues& s, const CellSetValues&, const CellSetValues& b) { return local_after(n, s, nullptr, false, b); }
// ------------------------------------------------------------------ limit
bool impl_cap(std::size_t n, const CellSetValues& s)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    TracerTofSolver x(g, r, pv, s);
    const auto tof = x.solveGlobal();
    if (tof.size() != n) return false;
    for (const double t : tof)
        if (t > cap) return false;
    return true;
}
bool spec_cap(std::size_t, const CellSetValues&) { return true; }
bool impl_capl(std::size_t n, const CellSetValues& s, const CellSetValues& from)
{
    const auto g = flow(n), r = against(n);
    const auto pv = fd::reals("pv", n);
    TracerTofSolver x(g, r, pv, s);
    bool ok = true;
    try {
        for (const auto& t : x.solveLocal(from).tof)
            if (t.second > cap) ok = false;
    } catch (const std::logic_error&) {}
    return ok;
}
bool spec_capl(std::size_t, const CellSetValues&, const CellSetValues&) { return true; }
