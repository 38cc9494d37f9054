#ifndef FD_PROBE_HPP
#define FD_PROBE_HPP
// Intrinsics of the analysis: symbolic inputs and assumptions.  Declared only;
// the probes are analysed, never compiled to code or run.
#include <cstddef>
#include <vector>
namespace fd {
    std::vector<double> reals(const char* tag, std::size_t n);
    std::vector<int> ints(const char* tag, std::size_t n, std::size_t below);
    void assume(bool);
    // heap objects obtained and not released; has an allocation failed; has anything been released twice or used while not obtained
    std::size_t owned();
    bool failed();
    bool misused();
    // how far into its array a pointer points
    std::size_t place(const int*);
    double real(const char* tag);
    int integer(const char* tag);
    std::size_t nat(const char* tag);
    bool flag(const char* tag);
    // compressed graph with n rows; tag' is the transpose of tag
    template <class G> void graph(G& object, const char* tag, std::size_t n);
    template <class T> void havoc(T& object, const char* tag);
    template <class T> void fill(T& object, const char* tag);
    template <class T> void fill_negated(T& object, const char* tag);
}
#endif
