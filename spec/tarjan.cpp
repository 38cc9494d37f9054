#include "fd.hpp"
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/graph/tarjan.h>
#include <algorithm>
#include <cstdlib>
#include <utility>
#include <vector>
using namespace Opm;

struct List { std::vector<std::size_t> start; std::vector<int> vertex; };
static List read(const TarjanSCCResult* r)
{
    List l;
    l.start.push_back(0);
    const std::size_t n = tarjan_get_numcomponents(r);
    for (std::size_t k = 0; k < n; ++k) {
        const TarjanComponent c = tarjan_get_strongcomponent(r, k);
        for (std::size_t j = 0; j < c.size; ++j) l.vertex.push_back(c.vertex[j]);
        l.start.push_back(l.vertex.size());
    }
    return l;
}

// ------------------------------------------------------------------ reversal
struct Reversed { bool ok; List list; };
Reversed impl_reverse(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    TarjanSCCResult* r = tarjan(n, g.startPointers().data(), g.neighbourhood().data());
    Reversed l;
    l.ok = tarjan_reverse_sccresult(r) != 0;
    l.list = read(r);
    return l;
}
Reversed spec_reverse(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    TarjanSCCResult* r = tarjan(n, g.startPointers().data(), g.neighbourhood().data());
    const std::size_t count = tarjan_get_numcomponents(r);
    const std::size_t total = fd::place(tarjan_get_strongcomponent(r, count).vertex);
    std::size_t* start = static_cast<std::size_t*>(std::malloc((total + 1) * sizeof(std::size_t)));
    int* vertex = static_cast<int*>(std::malloc(total * sizeof(int)));
    start[0] = 0;
    for (std::size_t k = 0; k < count; ++k) {
        const TarjanComponent c = tarjan_get_strongcomponent(r, count - 1 - k);
        std::copy(c.vertex, c.vertex + c.size, vertex + start[k]);
        start[k + 1] = start[k] + c.size;
    }
    List l;
    l.start.push_back(0);
    for (std::size_t k = 0; k < count; ++k) {
        for (std::size_t j = 0; j < start[k + 1] - start[k]; ++j) l.vertex.push_back(vertex[start[k] + j]);
        l.start.push_back(l.vertex.size());
    }
    return Reversed{ true, l };
}

// ------------------------------------------------------------------ search
// The depth-first path takes the room of the component starts, the vertices not
// yet in a component that of the component contents, both from the high end down.
struct Search {
    const std::size_t* ia;
    const int* ja;
    std::size_t ncomp;
    std::size_t* start;
    int* vertex;
    int *status, *low, *found;
    std::size_t* top;   // of the path: the next free place
    int* open;          // of the pending vertices: likewise
    std::size_t* bottom;

    // the marks of an earlier search may be left in the room for those of this one
    Search(std::size_t n, const std::size_t* a, const int* j, int* marks = 0) : ia(a), ja(j), ncomp(0)
    {
        status = marks != 0 ? marks : static_cast<int*>(std::malloc(3 * n * sizeof(int)));
        low = status + n;
        found = low + n;
        start = static_cast<std::size_t*>(std::malloc((n + 1) * sizeof(std::size_t)));
        vertex = static_cast<int*>(std::malloc(n * sizeof(int)));
        bottom = top = start + n;
        open = vertex + (n - 1);
        for (std::size_t i = 0; i < n; ++i) status[i] = -1;
        start[0] = 0;
    }
    void finish(std::size_t c)
    {
        start[ncomp + 1] = start[ncomp];
        std::size_t v;
        do {
            const int w = *++open;
            v = w;
            status[v] = -2;
            vertex[start[ncomp + 1]++] = w;
        } while (v != c);
        ncomp += 1;
    }
    void from(std::size_t s)
    {
        *top-- = s;
        int time = 0;
        while (top != bottom) {
            const std::size_t c = top[1];
            if (status[c] == -1) {
                status[c] = int(ia[c + 1] - ia[c]);
                found[c] = low[c] = time++;
                *open-- = int(c);
            }
            if (status[c] == 0) {
                if (low[c] == found[c]) finish(c);
                ++top;
                if (top != bottom) {
                    const std::size_t v = top[1];
                    low[v] = low[v] < low[c] ? low[v] : low[c];
                }
            } else {
                const std::size_t d = ja[ia[c] + std::size_t(status[c] - 1)];
                --status[c];
                if (status[d] == -1) *top-- = d;
                else if (status[d] >= 0) low[c] = low[c] < found[d] ? low[c] : found[d];
            }
        }
    }
    List list() const
    {
        List l;
        l.start.push_back(0);
        for (std::size_t k = 0; k < ncomp; ++k) {
            for (std::size_t j = 0; j < start[k + 1] - start[k]; ++j) l.vertex.push_back(vertex[start[k] + j]);
            l.start.push_back(l.vertex.size());
        }
        return l;
    }
};
List impl_all(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    return read(tarjan(n, g.startPointers().data(), g.neighbourhood().data()));
}
List spec_all(std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    Search s(n, g.startPointers().data(), g.neighbourhood().data());
    std::size_t v = 0;
    while (v < n && s.status[v] == -2) ++v;
    while (v < n) {
        s.from(v);
        while (v < n && s.status[v] == -2) ++v;
    }
    return s.list();
}
List impl_from(std::size_t n, std::size_t m)
{
    const auto pts = fd::ints("points", m, n);
    AssembledConnections g;
    fd::graph(g, "d", n);
    TarjanWorkSpace* ws = create_tarjan_workspace(n);
    return read(tarjan_reachable_sccs(n, g.startPointers().data(), g.neighbourhood().data(), m, pts.data(), ws));
}
static void visit(Search& s, const std::vector<int>& pts)
{
    for (std::size_t i = 0; i < pts.size(); ++i) {
        const std::size_t v = pts[i];
        if (s.status[v] == -2) continue;
        s.from(v);
    }
}
List spec_from(std::size_t n, std::size_t m)
{
    AssembledConnections g;
    fd::graph(g, "d", n);
    Search s(n, g.startPointers().data(), g.neighbourhood().data());
    visit(s, fd::ints("points", m, n));
    return s.list();
}
// a work-space used before, for other points of another graph, and possibly larger than needed
List impl_reuse(std::size_t n, std::size_t m, std::size_t spare, std::size_t k)
{
    const auto pts = fd::ints("points", m, n);
    const auto old = fd::ints("old points", k, n);
    AssembledConnections g, g2;
    fd::graph(g, "d", n);
    fd::graph(g2, "dold", n);
    TarjanWorkSpace* ws = create_tarjan_workspace(n + spare);
    destroy_tarjan_sccresult(tarjan_reachable_sccs(n, g2.startPointers().data(), g2.neighbourhood().data(), k, old.data(), ws));
    return read(tarjan_reachable_sccs(n, g.startPointers().data(), g.neighbourhood().data(), m, pts.data(), ws));
}
List spec_reuse(std::size_t n, std::size_t m, std::size_t spare, std::size_t k)
{
    AssembledConnections g, g2;
    fd::graph(g, "d", n);
    fd::graph(g2, "dold", n);
    Search old(n + spare, g2.startPointers().data(), g2.neighbourhood().data());
    visit(old, fd::ints("old points", k, n));
    Search s(n + spare, g.startPointers().data(), g.neighbourhood().data(), old.status);
    visit(s, fd::ints("points", m, n));
    return s.list();
}
