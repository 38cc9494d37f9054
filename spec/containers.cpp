#include "fd.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
using namespace Opm::FlowDiagnostics;

// ---------------------------------------------------------------- C13
using CV = ConnectionValues;

struct Dims { std::size_t nconn, nphase; };
Dims impl_cv_dims(std::size_t nc, std::size_t np)
{
    const CV v(CV::NumConnections{ nc }, CV::NumPhases{ np });
    return Dims{ v.numConnections(), v.numPhases() };
}
Dims spec_cv_dims(std::size_t nc, std::size_t np) { return Dims{ nc, np }; }

double impl_cv_zero(std::size_t nc, std::size_t np, std::size_t i, std::size_t p)
{
    const CV v(CV::NumConnections{ nc }, CV::NumPhases{ np });
    return v(CV::ConnID{ i }, CV::PhaseID{ p });
}
double spec_cv_zero(std::size_t nc, std::size_t np, std::size_t i, std::size_t p)
{
    if (!(i < nc && p < np)) throw std::logic_error("");
    return 0.0;
}

double impl_cv_zero_mutable(std::size_t nc, std::size_t np, std::size_t i, std::size_t p)
{
    CV v(CV::NumConnections{ nc }, CV::NumPhases{ np });
    return v(CV::ConnID{ i }, CV::PhaseID{ p });
}
double spec_cv_zero_mutable(std::size_t nc, std::size_t np, std::size_t i, std::size_t p)
{
    if (!(i < nc && p < np)) throw std::logic_error("");
    return 0.0;
}

// two writes to valid slots, one read
double impl_cv_rw(std::size_t nc, std::size_t np, std::size_t i1, std::size_t p1, double x1,
                  std::size_t i2, std::size_t p2, double x2, std::size_t i, std::size_t p)
{
    fd::assume(i1 < nc && p1 < np && i2 < nc && p2 < np);
    CV v(CV::NumConnections{ nc }, CV::NumPhases{ np });
    v(CV::ConnID{ i1 }, CV::PhaseID{ p1 }) = x1;
    v(CV::ConnID{ i2 }, CV::PhaseID{ p2 }) = x2;
    const CV& c = v;
    return c(CV::ConnID{ i }, CV::PhaseID{ p });
}
double spec_cv_rw(std::size_t nc, std::size_t np, std::size_t i1, std::size_t p1, double x1,
                  std::size_t i2, std::size_t p2, double x2, std::size_t i, std::size_t p)
{
    fd::assume(i1 < nc && p1 < np && i2 < nc && p2 < np);
    if (!(i < nc && p < np)) throw std::logic_error("");
    if (i == i2 && p == p2) return x2;
    if (i == i1 && p == p1) return x1;
    return 0.0;
}

// a rejected write leaves the table alone
double impl_cv_reject(std::size_t nc, std::size_t np, std::size_t i1, std::size_t p1, double x1,
                      std::size_t i2, std::size_t p2, double x2)
{
    fd::assume(i1 < nc && p1 < np);
    CV v(CV::NumConnections{ nc }, CV::NumPhases{ np });
    v(CV::ConnID{ i1 }, CV::PhaseID{ p1 }) = x1;
    bool rejected = false;
    try { v(CV::ConnID{ i2 }, CV::PhaseID{ p2 }) = x2; }
    catch (const std::logic_error&) { rejected = true; }
    fd::assume(rejected);
    const CV& c = v;
    return c(CV::ConnID{ i1 }, CV::PhaseID{ p1 });
}
double spec_cv_reject(std::size_t nc, std::size_t np, std::size_t i1, std::size_t p1, double x1,
                      std::size_t i2, std::size_t p2, double x2)
{
    fd::assume(i1 < nc && p1 < np);
    fd::assume(!(i2 < nc && p2 < np));
    return x1;
}

// copies are independent tables
double impl_cv_copy(std::size_t nc, std::size_t np, std::size_t i1, std::size_t p1, double x1, double x2)
{
    fd::assume(i1 < nc && p1 < np);
    CV v(CV::NumConnections{ nc }, CV::NumPhases{ np });
    v(CV::ConnID{ i1 }, CV::PhaseID{ p1 }) = x1;
    CV w(v);
    v(CV::ConnID{ i1 }, CV::PhaseID{ p1 }) = x2;
    const CV& c = w;
    return c(CV::ConnID{ i1 }, CV::PhaseID{ p1 });
}
double spec_cv_copy(std::size_t nc, std::size_t np, std::size_t i1, std::size_t p1, double x1, double x2)
{
    fd::assume(i1 < nc && p1 < np);
    return x1;
}

// ---------------------------------------------------------------- C14
Dims impl_cg_sizes(int n, const std::vector<int>& t)
{
    fd::assume(n >= 0);
    const ConnectivityGraph g(n, t);
    return Dims{ g.numCells(), g.numConnections() };
}
Dims spec_cg_sizes(int n, const std::vector<int>& t)
{
    fd::assume(n >= 0);
    if (t.size() % 2 != 0) throw std::logic_error("");
    for (std::size_t i = 0; i < t.size(); ++i)
        if (t[i] < 0 || t[i] >= n) throw std::logic_error("");
    return Dims{ std::size_t(n), t.size() / 2 };
}

ConnectivityGraph::CellPair impl_cg_conn(int n, const std::vector<int>& t, std::size_t k)
{
    fd::assume(n >= 0);
    const ConnectivityGraph g(n, t);
    fd::assume(k < t.size() / 2);
    return g.connection(k);
}
ConnectivityGraph::CellPair spec_cg_conn(int n, const std::vector<int>& t, std::size_t k)
{
    fd::assume(n >= 0);
    if (t.size() % 2 != 0) throw std::logic_error("");
    for (std::size_t i = 0; i < t.size(); ++i)
        if (t[i] < 0 || t[i] >= n) throw std::logic_error("");
    fd::assume(k < t.size() / 2);
    return ConnectivityGraph::CellPair{ t[2 * k], t[2 * k + 1] };
}

// ---------------------------------------------------------------- C15
struct IdText { std::string text; bool less, greater; };
IdText impl_id(const std::string& a, const std::string& b)
{
    const CellSetID x(a), y(b);
    return IdText{ x.to_string(), x < y, y < x };
}
IdText spec_id(const std::string& a, const std::string& b)
{
    return IdText{ a, a < b, b < a };
}
std::string impl_id_default() { return CellSetID().to_string(); }
std::string spec_id_default() { return std::string(); }

struct SetView { std::string id; std::vector<int> cells; bool member; std::size_t size; };
static SetView view(const CellSet& s, int probe)
{
    SetView v;
    v.id = s.id().to_string();
    std::set<int> m;
    v.size = 0;
    for (const int c : s) { m.insert(c); v.size += 1; }
    v.member = m.count(probe) == 1;
    for (const int c : m) v.cells.push_back(c);
    return v;
}
SetView impl_set(const std::string& id, const std::vector<int>& cells, int a, int b, int probe)
{
    CellSet s(CellSetID(id), cells);
    s.insert(a);
    s.insert(b);
    return view(s, probe);
}
static SetView ref(const std::string& id, const std::set<int>& m, int probe)
{
    SetView v;
    v.id = id;
    v.size = m.size();
    v.member = m.count(probe) == 1;
    for (const int c : m) v.cells.push_back(c);
    return v;
}
SetView spec_set(const std::string& id, const std::vector<int>& cells, int a, int b, int probe)
{
    std::set<int> m;
    for (const int c : cells) m.insert(c);
    m.insert(a);
    m.insert(b);
    return ref(id, m, probe);
}
SetView impl_set_empty(const std::string& id, int a, int probe)
{
    CellSet s{ CellSetID(id) };
    s.insert(a);
    return view(s, probe);
}
SetView spec_set_empty(const std::string& id, int a, int probe)
{
    std::set<int> m;
    m.insert(a);
    return ref(id, m, probe);
}
SetView impl_set_copy(const std::string& id, const std::vector<int>& cells, int a, int probe)
{
    CellSet s(CellSetID(id), cells);
    const CellSet c(s);
    s.insert(a);
    return view(c, probe);
}
SetView spec_set_copy(const std::string& id, const std::vector<int>& cells, int a, int probe)
{
    std::set<int> m;
    for (const int c : cells) m.insert(c);
    return ref(id, m, probe);
}

// ---------------------------------------------------------------- C12
struct SolView {
    std::vector<double> global;
    CellSetValues tof, conc;
    std::vector<CellSetID> starts;
};
static SolView view(const Solution& s, const std::string& q)
{
    return SolView{ s.timeOfFlight(), s.timeOfFlight(CellSetID(q)), s.concentration(CellSetID(q)), s.startPoints() };
}
static Solution stored(const std::vector<double>& g1, const std::vector<double>& g2,
                       const std::string& a, const std::string& b, const std::string& c, const std::string& d,
                       const CellSetValues& ta, const CellSetValues& tb, const CellSetValues& cc, const CellSetValues& cd)
{
    Solution s;
    s.assignGlobalToF(std::vector<double>(g1));
    s.assign(CellSetID(a), Solution::TimeOfFlight{ ta });
    s.assign(CellSetID(c), Solution::TracerConcentration{ cc });
    s.assign(CellSetID(b), Solution::TimeOfFlight{ tb });
    s.assign(CellSetID(d), Solution::TracerConcentration{ cd });
    s.assignGlobalToF(std::vector<double>(g2));
    return s;
}
static SolView expected(const std::vector<double>& g2,
                        const std::string& a, const std::string& b, const std::string& c, const std::string& d,
                        const CellSetValues& ta, const CellSetValues& tb, const CellSetValues& cc, const CellSetValues& cd,
                        const std::string& q)
{
    SolView v;
    v.global = g2;
    v.tof = q == b ? tb : q == a ? ta : CellSetValues();
    v.conc = q == d ? cd : q == c ? cc : CellSetValues();
    std::set<CellSetID> ids;
    ids.insert(CellSetID(c));
    ids.insert(CellSetID(d));
    for (const auto& i : ids) v.starts.push_back(i);
    return v;
}
#define SOLARGS const std::vector<double>& g1, const std::vector<double>& g2, \
    const std::string& a, const std::string& b, const std::string& c, const std::string& d, \
    const CellSetValues& ta, const CellSetValues& tb, const CellSetValues& cc, const CellSetValues& cd, \
    const std::string& q, const std::string& e, const CellSetValues& te, const CellSetValues& ce, const std::vector<double>& g3
#define SOLPASS g1, g2, a, b, c, d, ta, tb, cc, cd
#define EXPPASS g2, a, b, c, d, ta, tb, cc, cd, q

SolView impl_sol(SOLARGS) { return view(stored(SOLPASS), q); }
SolView spec_sol(SOLARGS) { return expected(EXPPASS); }

SolView impl_sol_fresh(const std::string& q) { return view(Solution(), q); }
SolView spec_sol_fresh(const std::string& q) { return SolView(); }

// a copy keeps its content when the original changes
SolView impl_sol_copy(SOLARGS)
{
    Solution s = stored(SOLPASS);
    const Solution t(s);
    s.assignGlobalToF(std::vector<double>(g3));
    s.assign(CellSetID(e), Solution::TimeOfFlight{ te });
    s.assign(CellSetID(e), Solution::TracerConcentration{ ce });
    return view(t, q);
}
SolView spec_sol_copy(SOLARGS) { return expected(EXPPASS); }

// and the original keeps its content when the copy changes
SolView impl_sol_copy2(SOLARGS)
{
    const Solution s = stored(SOLPASS);
    Solution t(s);
    t.assignGlobalToF(std::vector<double>(g3));
    t.assign(CellSetID(e), Solution::TimeOfFlight{ te });
    t.assign(CellSetID(e), Solution::TracerConcentration{ ce });
    return view(s, q);
}
SolView spec_sol_copy2(SOLARGS) { return expected(EXPPASS); }

SolView impl_sol_move(SOLARGS)
{
    Solution s = stored(SOLPASS);
    const Solution t(std::move(s));
    return view(t, q);
}
SolView spec_sol_move(SOLARGS) { return expected(EXPPASS); }

// returned fields are values of their own
SolView impl_sol_value(SOLARGS)
{
    Solution s = stored(SOLPASS);
    SolView v = view(s, q);
    s.assignGlobalToF(std::vector<double>(g3));
    s.assign(CellSetID(e), Solution::TimeOfFlight{ te });
    s.assign(CellSetID(e), Solution::TracerConcentration{ ce });
    return v;
}
SolView spec_sol_value(SOLARGS) { return expected(EXPPASS); }

// storing continues after a copy or a move
SolView impl_sol_more(SOLARGS)
{
    Solution s;
    s.assign(CellSetID(a), Solution::TimeOfFlight{ ta });
    s.assign(CellSetID(c), Solution::TracerConcentration{ cc });
    Solution t(std::move(s));
    t.assignGlobalToF(std::vector<double>(g2));
    Solution u(t);
    u.assign(CellSetID(b), Solution::TimeOfFlight{ tb });
    u.assign(CellSetID(d), Solution::TracerConcentration{ cd });
    return view(u, q);
}
SolView spec_sol_more(SOLARGS) { return expected(EXPPASS); }

// any number of tracers, later ones replacing earlier ones of the same name
#define MANY const std::map<CellSetID, CellSetValues>& ta, const std::map<CellSetID, CellSetValues>& ca, const CellSetID& a, const CellSetValues& ta2, const CellSetID& q
static Solution many(MANY)
{
    Solution s;
    for (const auto& t : ta) s.assign(t.first, Solution::TimeOfFlight{ t.second });
    for (const auto& c : ca) s.assign(c.first, Solution::TracerConcentration{ c.second });
    s.assign(a, Solution::TimeOfFlight{ ta2 });
    return s;
}
SolView impl_sol_many(MANY)
{
    const Solution s = many(ta, ca, a, ta2, q);
    const Solution t(s);
    return SolView{ s.timeOfFlight(), t.timeOfFlight(q), t.concentration(q), t.startPoints() };
}
SolView spec_sol_many(MANY)
{
    SolView v;
    v.tof = !(q < a) && !(a < q) ? ta2 : ta.count(q) ? ta.at(q) : CellSetValues();
    v.conc = ca.count(q) ? ca.at(q) : CellSetValues();
    for (const auto& c : ca) v.starts.push_back(c.first);
    return v;
}
