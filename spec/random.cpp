#include "fd.hpp"
#include <opm/utility/numeric/RandomVector.hpp>
#include <random>
#include <vector>
using namespace Opm;

// What a generator returns: the numbers a default-seeded Mersenne twister gives, one distribution per request,
// successive requests continuing the sequence.
struct Ref {
    std::mt19937 gen;
    std::vector<double> normal(std::size_t n, double mean, double stdev)
    {
        std::normal_distribution<> d(mean, stdev);
        std::vector<double> x(n);
        for (std::size_t i = 0; i < n; ++i) x[i] = d(gen);
        return x;
    }
    std::vector<int> index(std::size_t n, int max)
    {
        std::uniform_int_distribution<> d(0, max);
        std::vector<int> x(n);
        for (std::size_t i = 0; i < n; ++i) x[i] = d(gen);
        return x;
    }
};
struct Drawn { std::vector<double> a; std::vector<int> b; std::vector<double> c; std::vector<int> d; std::vector<double> e; };

template <class G> Drawn draw(G& g, std::size_t n, std::size_t m, double mean, double stdev, int max)
{
    Drawn x;
    x.a = g.normal(n, mean, stdev);
    x.b = g.index(m, max);
    x.c = g.normal(m, 0.0, 1.0);
    x.d = g.index(n, 7);
    x.e = g.normal(n, mean, stdev);
    return x;
}
Drawn impl_sequence(std::size_t n, std::size_t m, double mean, double stdev, int max) { RandomVector g; return draw(g, n, m, mean, stdev, max); }
Drawn spec_sequence(std::size_t n, std::size_t m, double mean, double stdev, int max) { Ref g; return draw(g, n, m, mean, stdev, max); }

std::vector<double> impl_normal(std::size_t n, double mean, double stdev) { RandomVector g; return g.normal(n, mean, stdev); }
std::vector<double> spec_normal(std::size_t n, double mean, double stdev) { Ref g; return g.normal(n, mean, stdev); }
std::vector<double> impl_standard(std::size_t n) { RandomVector g; return g.normal(n); }
std::vector<double> spec_standard(std::size_t n) { Ref g; return g.normal(n, 0.0, 1.0); }
std::vector<double> impl_mean(std::size_t n, double mean) { RandomVector g; return g.normal(n, mean); }
std::vector<double> spec_mean(std::size_t n, double mean) { Ref g; return g.normal(n, mean, 1.0); }
std::vector<int> impl_index(std::size_t n, int max) { RandomVector g; return g.index(n, max); }
std::vector<int> spec_index(std::size_t n, int max) { Ref g; return g.index(n, max); }

// a second generator starts the sequence anew, whatever was drawn from the first one
Drawn impl_second(std::size_t n, std::size_t m, double mean, double stdev, int max)
{
    RandomVector first;
    first.index(m, max);
    first.normal(n, mean, stdev);
    RandomVector g;
    first.index(n, max);
    return draw(g, n, m, mean, stdev, max);
}
Drawn spec_second(std::size_t n, std::size_t m, double mean, double stdev, int max) { Ref g; return draw(g, n, m, mean, stdev, max); }
