#include "fd.hpp"
#include <opm/utility/graph/AssembledConnections.hpp>
#include <algorithm>
#include <ostream>
#include <stdexcept>
#include <utility>
#include <vector>
using namespace Opm;

struct Graph { std::size_t rows; std::vector<std::size_t> start; std::vector<int> neighbour; std::vector<double> weight; };
static Graph read(const AssembledConnections& g) { return Graph{ g.numRows(), g.startPointers(), g.neighbourhood(), g.connectionWeight() }; }

// ------------------------------------------------------------------ reference
// Bucket the connections by source, turn the structure twice (which orders the
// sinks of each source), merge equal neighbours, add up the weights.
struct Ref {
    std::vector<std::size_t> start, place;
    std::vector<int> sink;

    void bucket(std::size_t n, const std::vector<int>& src, const std::vector<int>& snk)
    {
        start.assign(n + 1, 0);
        for (const int s : src) start[std::size_t(s) + 1] += 1;
        for (std::size_t r = 1; r <= n; ++r) { start[0] += start[r]; start[r] = start[0] - start[r]; }
        sink.resize(src.size());
        place.clear();
        for (std::size_t c = 0; c < src.size(); ++c) {
            const std::size_t p = start[std::size_t(src[c]) + 1]++;
            sink[p] = snk[c];
            place.push_back(p);
        }
        start[0] = 0;
    }
    void turn(std::size_t n)
    {
        auto now = place;
        {
            std::vector<int> row;
            int r = 0;
            for (std::size_t k = 0; k + 1 < start.size(); ++k, ++r) row.insert(row.end(), start[k + 1] - start[k], r);
            const auto old = sink;
            bucket(n, old, row);
        }
        for (auto& p : now) p = place[p];
        place.swap(now);
    }
    void merge()
    {
        const auto old = sink;
        auto now = place;
        auto end = old.begin();
        sink.clear();
        place.clear();
        for (std::size_t r = 0; r + 1 < start.size(); ++r) {
            auto p = end;
            end += start[r + 1] - start[r];
            const auto q = sink.size();
            while (p != end) {
                place.push_back(sink.size());
                sink.push_back(*p);
                while (++p != end && *p == sink.back()) place.push_back(place.back());
            }
            start[r] = q;
        }
        for (auto& p : now) p = place[p];
        place.swap(now);
        start.back() = sink.size();
    }
};
// The third array is taken over from an earlier graph, as far as it is long
// enough; the bucket sort then writes every element of it.
static Graph build(const std::vector<int>& i, const std::vector<int>& j, const std::vector<double>& v, std::size_t rows,
                   const std::vector<int>& room = {})
{
    int mi = -1, mj = -1;
    for (const int x : i) mi = std::max(mi, x);
    for (const int x : j) mj = std::max(mj, x);
    Ref r;
    r.sink = room;
    r.bucket(mi + 1, i, j);
    r.turn(mj + 1);
    r.turn(mi + 1);
    r.merge();
    Graph g;
    if (!v.empty()) {
        g.weight.assign(r.sink.size(), 0.0);
        for (std::size_t c = 0; c < v.size(); ++c) g.weight[r.place[c]] += v[c];
    }
    g.neighbour = r.sink;
    g.start = r.start;
    const auto used = r.start.size() - 1;
    if (used < rows) g.start.insert(g.start.end(), rows - used, g.start.back());
    g.rows = g.start.size() - 1;
    return g;
}
static void add(AssembledConnections& g, const std::vector<int>& i, const std::vector<int>& j, const std::vector<double>& v)
{
    for (std::size_t c = 0; c < i.size(); ++c) {
        if (v.empty()) g.addConnection(i[c], j[c]);
        else           g.addConnection(i[c], j[c], v[c]);
    }
}
// ------------------------------------------------------------------ probes
// m + 1 connections between rows + 1 sources and cols + 1 sinks
#define CONNECTIONS const std::size_t n = m + 1; const auto i = fd::ints("i", n, rows + 1), j = fd::ints("j", n, cols + 1)

Graph impl_csr(std::size_t m, std::size_t rows, std::size_t cols)
{
    CONNECTIONS;
    const auto v = fd::reals("v", n);
    AssembledConnections g;
    for (std::size_t c = 0; c < n; ++c) g.addConnection(i[c], j[c], v[c]);
    g.compress(rows + 1);
    return read(g);
}
Graph spec_csr(std::size_t m, std::size_t rows, std::size_t cols)
{
    CONNECTIONS;
    return build(i, j, fd::reals("v", n), rows + 1);
}
Graph impl_plain(std::size_t m, std::size_t rows, std::size_t cols)
{
    CONNECTIONS;
    AssembledConnections g;
    for (std::size_t c = 0; c < n; ++c) g.addConnection(i[c], j[c]);
    g.compress(rows + 1);
    return read(g);
}
Graph spec_plain(std::size_t m, std::size_t rows, std::size_t cols)
{
    CONNECTIONS;
    return build(i, j, {}, rows + 1);
}
// which connection lists are accepted
// n connections, weighted ones marked in w; sources below `most`
#define MIXED const auto i = fd::ints("i", n, most), j = fd::ints("j", n, cols), w = fd::ints("w", n, 2); const auto v = fd::reals("v", n)
static void add_mixed(AssembledConnections& g, const std::vector<int>& i, const std::vector<int>& j, const std::vector<int>& w, const std::vector<double>& v)
{
    for (std::size_t c = 0; c < i.size(); ++c) {
        if (w[c] == 1) g.addConnection(i[c], j[c], v[c]);
        else           g.addConnection(i[c], j[c]);
    }
}
// 0: accepted, 1: logic_error, 2: invalid_argument
static int verdict(const std::vector<int>& i, const std::vector<int>& w, std::size_t rows)
{
    std::size_t weighted = 0;
    for (const int x : w) if (x == 1) weighted += 1;
    if (weighted != 0 && weighted != i.size()) return 1;
    int top = -1;
    for (const int x : i) top = std::max(top, x);
    if (!i.empty() && std::size_t(top) >= rows) return 2;
    return 0;
}
std::size_t impl_accept(std::size_t n, std::size_t most, std::size_t cols, std::size_t rows)
{
    MIXED;
    AssembledConnections g;
    add_mixed(g, i, j, w, v);
    g.compress(rows);
    return g.numRows();
}
std::size_t spec_accept(std::size_t n, std::size_t most, std::size_t cols, std::size_t rows)
{
    MIXED;
    const int e = verdict(i, w, rows);
    if (e == 1) throw std::logic_error("");
    if (e == 2) throw std::invalid_argument("");
    int top = -1;
    for (const int x : i) top = std::max(top, x);
    std::vector<std::size_t> start(std::size_t(top + 1) + 1, 0);
    if (start.size() - 1 < rows) start.insert(start.end(), rows - (start.size() - 1), 0);
    return start.size() - 1;        // = rows
}
// a failed compression keeps the graph
Graph impl_failed(std::size_t n, std::size_t most, std::size_t cols, std::size_t rows, std::size_t before)
{
    MIXED;
    AssembledConnections g;
    fd::graph(g, "old", before);
    add_mixed(g, i, j, w, v);
    try { g.compress(rows); } catch (const std::logic_error&) { return read(g); }
    return Graph{};
}
Graph spec_failed(std::size_t n, std::size_t most, std::size_t cols, std::size_t rows, std::size_t before)
{
    MIXED;
    AssembledConnections g;
    fd::graph(g, "old", before);
    if (verdict(i, w, rows) != 0) return read(g);
    return Graph{};
}
// nothing of an earlier graph is left in a new one
Graph impl_again(std::size_t m, std::size_t rows, std::size_t cols, std::size_t before)
{
    CONNECTIONS;
    const auto v = fd::reals("v", n);
    AssembledConnections g;
    fd::graph(g, "old", before);
    for (std::size_t c = 0; c < n; ++c) g.addConnection(i[c], j[c], v[c]);
    g.compress(rows + 1);
    return read(g);
}
Graph spec_again(std::size_t m, std::size_t rows, std::size_t cols, std::size_t before)
{
    CONNECTIONS;
    AssembledConnections g;
    fd::graph(g, "old", before);
    return build(i, j, fd::reals("v", n), rows + 1, g.neighbourhood());
}
Graph impl_again_plain(std::size_t m, std::size_t rows, std::size_t cols, std::size_t before)
{
    CONNECTIONS;
    AssembledConnections g;
    fd::graph(g, "old", before);
    for (std::size_t c = 0; c < n; ++c) g.addConnection(i[c], j[c]);
    g.compress(rows + 1);
    return read(g);
}
Graph spec_again_plain(std::size_t m, std::size_t rows, std::size_t cols, std::size_t before)
{
    CONNECTIONS;
    AssembledConnections g;
    fd::graph(g, "old", before);
    return build(i, j, {}, rows + 1, g.neighbourhood());
}
Graph impl_emptied(std::size_t rows, std::size_t before)
{
    AssembledConnections g;
    fd::graph(g, "old", before);
    g.compress(rows);
    return read(g);
}
Graph spec_emptied(std::size_t rows, std::size_t)
{
    return Graph{ rows, std::vector<std::size_t>(rows + 1, 0), {}, {} };
}
Graph impl_twice(std::size_t m, std::size_t rows, std::size_t cols, std::size_t rows2)
{
    CONNECTIONS;
    AssembledConnections g;
    for (std::size_t c = 0; c < n; ++c) g.addConnection(i[c], j[c], fd::reals("v", n)[c]);
    g.compress(rows + 1);
    g.compress(rows2);
    return read(g);
}
Graph spec_twice(std::size_t, std::size_t, std::size_t, std::size_t rows2) { return spec_emptied(rows2, 0); }

// ------------------------------------------------------------------ reading a graph
struct Edges { std::vector<int> to; std::vector<double> w; };
Edges impl_row(std::size_t n, int cell)
{
    fd::assume(0 <= cell && std::size_t(cell) < n);
    AssembledConnections g;
    fd::graph(g, "any", n);
    Edges e;
    for (const auto& c : g.cellNeighbourhood(cell)) { e.to.push_back(c.neighbour); e.w.push_back(c.weight); }
    return e;
}
Edges spec_row(std::size_t n, int cell)
{
    fd::assume(0 <= cell && std::size_t(cell) < n);
    AssembledConnections g;
    fd::graph(g, "any", n);
    Edges e;
    for (std::size_t k = g.startPointers()[cell]; k < g.startPointers()[cell + 1]; ++k) {
        e.to.push_back(g.neighbourhood()[k]);
        e.w.push_back(g.connectionWeight()[k]);
    }
    return e;
}
void impl_print(std::ostream& os, std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "any", n);
    os << g;
}
void spec_print(std::ostream& os, std::size_t n)
{
    AssembledConnections g;
    fd::graph(g, "any", n);
    const auto flags = os.flags();
    const auto precision = os.precision(16);
    os.setf(std::ios_base::scientific, std::ios_base::floatfield);
    for (int r = 0; r < int(n); ++r) {
        for (std::size_t k = g.startPointers()[r]; k < g.startPointers()[r + 1]; ++k) {
            os << r << ' ' << g.neighbourhood()[k] << ' ' << g.connectionWeight()[k] << '\n';
        }
    }
    os.flags(flags);
    os.precision(precision);
}
