#include "fd.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <stdexcept>
#include <algorithm>
#include <utility>
#include <vector>
using namespace Opm::FlowDiagnostics;

double impl_lorenz(const Graph& g) { return lorenzCoefficient(g); }
double spec_lorenz(const Graph& g)
{
    const std::vector<double>& x = g.first;
    const std::vector<double>& y = g.second;
    if (x.size() != y.size()) throw std::runtime_error("");
    double area = 0.0;
    for (std::size_t i = 0; i + 1 < x.size(); ++i)
        area += (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2.0;
    return 2.0 * area - 1.0;
}

Graph impl_sweep(const Graph& g) { return sweepEfficiency(g); }
Graph spec_sweep(const Graph& g)
{
    const std::vector<double>& phi = g.first;
    const std::vector<double>& f = g.second;
    if (phi.size() != f.size()) throw std::runtime_error("");
    std::vector<double> ev, td;
    ev.push_back(0.0);
    td.push_back(0.0);
    for (std::size_t i = 1; i < phi.size(); ++i) {
        const double df = f[i] - f[i - 1];
        if (df != 0.0) {
            const double t = (phi[i] - phi[i - 1]) / df;
            td.push_back(t);
            ev.push_back(phi[i] + (1.0 - f[i]) * t);
        }
    }
    return Graph{ td, ev };
}

Graph impl_fphi(const std::vector<double>& ti, const std::vector<double>& tp,
                const std::vector<double>& pv, double frac)
{
    fd::assume(!pv.empty());
    return flowCapacityStorageCapacityCurve(ti, tp, pv, frac);
}
static Graph ref_fphi(const std::vector<double>& ti, const std::vector<double>& tp,
                      const std::vector<double>& pv, double frac)
{
    if (ti.size() != pv.size() || tp.size() != pv.size()) throw std::runtime_error("");
    double total = 0.0;
    for (std::size_t i = 0; i < pv.size(); ++i) total += pv[i];
    std::vector<std::pair<double, double>> cells;
    for (std::size_t i = 0; i < pv.size(); ++i) {
        if (pv[i] > frac * total) cells.push_back(std::pair<double, double>(1e100, 0.0));
        else cells.push_back(std::pair<double, double>(ti[i] + tp[i], pv[i]));
    }
    std::sort(cells.begin(), cells.end());
    std::vector<double> phi, f;
    double sp = 0.0, sf = 0.0;
    phi.push_back(sp);
    f.push_back(sf);
    for (std::size_t i = 0; i < cells.size(); ++i) {
        sp += cells[i].second;
        sf += cells[i].second / cells[i].first;
        phi.push_back(sp);
        f.push_back(sf);
    }
    for (std::size_t i = 0; i < phi.size(); ++i) phi[i] = phi[i] / sp;
    for (std::size_t i = 0; i < f.size(); ++i) f[i] = f[i] / sf;
    return Graph{ phi, f };
}
Graph spec_fphi(const std::vector<double>& ti, const std::vector<double>& tp,
                const std::vector<double>& pv, double frac)
{
    fd::assume(!pv.empty());
    return ref_fphi(ti, tp, pv, frac);
}

static Solution solution(const std::vector<double>& tof, const std::string& a, const CellSetValues& ca,
                         const std::string& b, const CellSetValues& cb, const CellSetValues& other)
{
    Solution s;
    s.assignGlobalToF(std::vector<double>(tof));
    s.assign(CellSetID(a), Solution::TracerConcentration{ ca });
    s.assign(CellSetID(a), Solution::TimeOfFlight{ other });
    s.assign(CellSetID(b), Solution::TracerConcentration{ cb });
    return s;
}

Graph impl_fphi_sol(const std::vector<double>& ti, const std::vector<double>& tp, const std::vector<double>& pv,
                    double frac, const std::string& a, const CellSetValues& ca, const CellSetValues& cb)
{
    fd::assume(!pv.empty());
    const Toolbox::Forward fwd{ solution(ti, a, ca, a, cb, cb) };
    const Toolbox::Reverse rev{ solution(tp, a, cb, a, ca, ca) };
    return flowCapacityStorageCapacityCurve(fwd, rev, pv, frac);
}
Graph spec_fphi_sol(const std::vector<double>& ti, const std::vector<double>& tp, const std::vector<double>& pv,
                    double frac, const std::string& a, const CellSetValues& ca, const CellSetValues& cb)
{
    fd::assume(!pv.empty());
    return ref_fphi(ti, tp, pv, frac);
}

// maximum fraction defaults to one
Graph impl_fphi_default(const std::vector<double>& ti, const std::vector<double>& tp, const std::vector<double>& pv)
{
    fd::assume(!pv.empty());
    return flowCapacityStorageCapacityCurve(ti, tp, pv);
}
Graph spec_fphi_default(const std::vector<double>& ti, const std::vector<double>& tp, const std::vector<double>& pv)
{
    fd::assume(!pv.empty());
    return ref_fphi(ti, tp, pv, 1.0);
}

double impl_pairvol(const std::vector<double>& tof, const std::vector<double>& pv, const std::string& i1, const std::string& i2,
                    const std::string& p1, const std::string& p2, const CellSetValues& ci1, const CellSetValues& ci2,
                    const CellSetValues& cp1, const CellSetValues& cp2, const CellSetValues& other,
                    const std::string& inj, const std::string& prod)
{
    const Toolbox::Forward fwd{ solution(tof, i1, ci1, i2, ci2, other) };
    const Toolbox::Reverse rev{ solution(tof, p1, cp1, p2, cp2, other) };
    return injectorProducerPairVolume(fwd, rev, pv, CellSetID(inj), CellSetID(prod));
}
static const CellSetValues& pick(const std::string& id, const std::string& a, const CellSetValues& ca,
                                 const std::string& b, const CellSetValues& cb, const CellSetValues& none)
{
    return id == b ? cb : id == a ? ca : none;
}
double spec_pairvol(const std::vector<double>& tof, const std::vector<double>& pv, const std::string& i1, const std::string& i2,
                    const std::string& p1, const std::string& p2, const CellSetValues& ci1, const CellSetValues& ci2,
                    const CellSetValues& cp1, const CellSetValues& cp2, const CellSetValues& other,
                    const std::string& inj, const std::string& prod)
{
    const CellSetValues none;
    const CellSetValues& a = pick(inj, i1, ci1, i2, ci2, none);
    const CellSetValues& b = pick(prod, p1, cp1, p2, cp2, none);
    for (const auto& x : a)
        if (b.count(x.first) == 1 && (x.first < 0 || std::size_t(x.first) >= pv.size()))
            throw std::runtime_error("");
    double v = 0.0;
    for (const auto& x : a)
        if (b.count(x.first) == 1) v += pv[x.first] * x.second * b.find(x.first)->second;
    return v;
}

std::pair<double, double>
impl_pairflux(const std::vector<double>& tof, const std::string& i1, const std::string& i2,
              const std::string& p1, const std::string& p2, const CellSetValues& ci1, const CellSetValues& ci2,
              const CellSetValues& cp1, const CellSetValues& cp2, const CellSetValues& other,
              const std::string& inj, const std::string& prod, const std::map<CellSetID, CellSetValues>& inflow)
{
    const Toolbox::Forward fwd{ solution(tof, i1, ci1, i2, ci2, other) };
    const Toolbox::Reverse rev{ solution(tof, p1, cp1, p2, cp2, other) };
    return injectorProducerPairFlux(fwd, rev, CellSetID(inj), CellSetID(prod), inflow);
}
std::pair<double, double>
spec_pairflux(const std::vector<double>& tof, const std::string& i1, const std::string& i2,
              const std::string& p1, const std::string& p2, const CellSetValues& ci1, const CellSetValues& ci2,
              const CellSetValues& cp1, const CellSetValues& cp2, const CellSetValues& other,
              const std::string& inj, const std::string& prod, const std::map<CellSetID, CellSetValues>& inflow)
{
    const CellSetValues none;
    if (inflow.count(CellSetID(inj)) == 0) throw std::runtime_error("");
    if (inflow.count(CellSetID(prod)) == 0) throw std::runtime_error("");
    const CellSetValues& a = pick(inj, i1, ci1, i2, ci2, none);
    const CellSetValues& b = pick(prod, p1, cp1, p2, cp2, none);
    double fi = 0.0, fp = 0.0;
    for (const auto& x : inflow.at(CellSetID(inj)))
        if (x.second > 0.0 && b.count(x.first) == 1) fi += x.second * b.at(x.first);
    for (const auto& x : inflow.at(CellSetID(prod)))
        if (!(x.second > 0.0) && a.count(x.first) == 1) fp += x.second * a.at(x.first);
    return std::pair<double, double>(fi, fp);
}
