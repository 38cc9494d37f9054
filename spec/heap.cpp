#include "fd.hpp"
#include <opm/flowdiagnostics/CellSetValues.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/graph/tarjan.h>
#include <stdexcept>
#include <vector>
using namespace Opm;
using namespace Opm::FlowDiagnostics;

// Every allocation may fail.  What must never happen:
struct Fault {
    bool misused;       // something is released twice, or used while not obtained
    bool lost;          // on failure something stays behind
    bool kept;          // after disposal something stays behind
    bool silent;        // a failure is not reported, or one is reported that did not happen
};

Fault impl_search(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    TarjanSCCResult* r = tarjan(n, g.startPointers().data(), g.neighbourhood().data());
    Fault f;
    f.silent = fd::failed() != (r == 0);
    f.lost = r == 0 && fd::owned() != 0;
    destroy_tarjan_sccresult(r);
    f.kept = fd::owned() != 0;
    f.misused = fd::misused();
    return f;
}
Fault spec_search(std::size_t) { return Fault{ false, false, false, false }; }

Fault impl_work(std::size_t n)
{
    TarjanWorkSpace* ws = create_tarjan_workspace(n);
    Fault f;
    f.silent = fd::failed() != (ws == 0);
    f.lost = ws == 0 && fd::owned() != 0;
    destroy_tarjan_workspace(ws);
    f.kept = fd::owned() != 0;
    f.misused = fd::misused();
    return f;
}
Fault spec_work(std::size_t) { return Fault{ false, false, false, false }; }

Fault impl_reach(std::size_t n, std::size_t m)
{
    const auto pts = fd::ints("points", m, n);
    AssembledConnections g;
    fd::graph(g, "d", n);
    Fault f{ false, false, false, false };
    TarjanWorkSpace* ws = create_tarjan_workspace(n);
    if (ws != 0) {
        const std::size_t before = fd::owned();
        TarjanSCCResult* r = tarjan_reachable_sccs(n, g.startPointers().data(), g.neighbourhood().data(), m, pts.data(), ws);
        f.silent = fd::failed() != (r == 0);
        f.lost = r == 0 && fd::owned() != before;
        destroy_tarjan_sccresult(r);
        f.kept = fd::owned() != before;
        destroy_tarjan_workspace(ws);
    }
    f.kept = f.kept || fd::owned() != 0;
    f.misused = fd::misused();
    return f;
}
Fault spec_reach(std::size_t, std::size_t) { return Fault{ false, false, false, false }; }

Fault impl_turn(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    Fault f{ false, false, false, false };
    TarjanSCCResult* r = tarjan(n, g.startPointers().data(), g.neighbourhood().data());
    if (r != 0) {
        const std::size_t before = fd::owned();
        const bool ok = tarjan_reverse_sccresult(r) != 0;
        f.silent = fd::failed() == ok;
        f.lost = fd::owned() != before;
        destroy_tarjan_sccresult(r);
    }
    f.kept = fd::owned() != 0;
    f.misused = fd::misused();
    return f;
}
Fault spec_turn(std::size_t) { return Fault{ false, false, false, false }; }

Fault impl_none()
{
    destroy_tarjan_sccresult(0);
    destroy_tarjan_workspace(0);
    return Fault{ fd::misused(), fd::failed(), fd::owned() != 0, false };
}
Fault spec_none() { return Fault{ false, false, false, false }; }

// a failed reversal leaves the list as it was
struct List { bool ok; std::vector<std::size_t> start; std::vector<int> vertex; };
static List read(bool ok, const TarjanSCCResult* r)
{
    List l;
    l.ok = ok;
    const std::size_t n = tarjan_get_numcomponents(r);
    for (std::size_t k = 0; k < n; ++k) {
        const TarjanComponent c = tarjan_get_strongcomponent(r, k);
        l.start.push_back(c.size);
        for (std::size_t j = 0; j < c.size; ++j) l.vertex.push_back(c.vertex[j]);
    }
    return l;
}
List impl_intact(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    TarjanSCCResult* r = tarjan(n, g.startPointers().data(), g.neighbourhood().data());
    if (r == 0) return List();
    const bool ok = tarjan_reverse_sccresult(r) != 0;
    return ok ? List{ true, {}, {} } : read(ok, r);
}
List spec_intact(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    TarjanSCCResult* r = tarjan(n, g.startPointers().data(), g.neighbourhood().data());
    if (r == 0) return List();
    const List before = read(false, r);
    tarjan_reverse_sccresult(r);
    return fd::failed() ? before : List{ true, {}, {} };
}

// the solvers turn a failed search into an exception and give back what they hold
Fault impl_global(std::size_t n, const CellSetValues& s)
{
    AssembledConnections g, r;
    fd::graph(g, "g", n);
    fd::graph(r, "g'", n);
    const auto pv = fd::reals("pv", n);
    bool thrown = false;
    {
        TracerTofSolver x(g, r, pv, s);
        try { x.solveGlobal(); } catch (const std::exception&) { thrown = true; }
    }
    return Fault{ fd::misused(), false, fd::owned() != 0, fd::failed() != thrown };
}
Fault spec_global(std::size_t, const CellSetValues&) { return Fault{ false, false, false, false }; }
Fault impl_local(std::size_t n, const CellSetValues& s, const CellSetValues& from)
{
    AssembledConnections g, r;
    fd::graph(g, "g", n);
    fd::graph(r, "g'", n);
    const auto pv = fd::reals("pv", n);
    bool thrown = false;
    {
        TracerTofSolver x(g, r, pv, s);
        try { x.solveLocal(from); } catch (const std::exception&) { thrown = true; }
    }
    return Fault{ fd::misused(), false, fd::owned() != 0, fd::failed() && !thrown };
}
Fault spec_local(std::size_t, const CellSetValues&, const CellSetValues&) { return Fault{ false, false, false, false }; }
