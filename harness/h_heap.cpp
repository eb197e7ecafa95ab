// The binary heap used inside tree nodes: one step from every valid state.
#include "env0.h"
#include <dbzero/core/utils/dary_heap.hpp>
#include <functional>
using namespace db0;
// one step on a node heap of n items from any valid arrangement of any values
HARNESS(heap_step) {
    unsigned n = 1 + choose("n", sym_param("most", 8)), op = choose("op", 4); bool rev = choose("reversed", 2); static uint64_t buf[24]; uint64_t *b = rev ? buf + 20 : buf + 3, *e = rev ? b - n : b + n; std::less<uint64_t> lt; // reversed heaps grow downwards
    auto at = [&](uint64_t *x, unsigned i) -> uint64_t & { return rev ? x[-(long)i] : x[i]; };
    Vals ref; for (unsigned i = 0; i < n; ++i) { auto v = sym_range("v", 0, 255); if (i) ASSUME(v <= at(b, (i - 1) / 2)); at(b, i) = v; ref.push_back(v); }
    auto heap = [&](unsigned m, const Vals &r) { bool ok = true; Vals got; for (unsigned i = 0; i < m; ++i) { got.push_back(at(b, i)); if (i) ok &= at(b, i) <= at(b, (i - 1) / 2); } CHECK(ok, "a node is no longer a heap"); same_multiset(got, r, "a node has other items"); };
    if (op == 0) {
        auto v = sym_range("new", 0, 255); at(b, n) = v; e = rev ? e - 1 : e + 1; ref.push_back(v);
        auto it = rev ? dheap::rpush<2>(b, e, lt) : dheap::push<2>(b, e, lt); CHECK(*it == v, "position of a new item"); heap(n + 1, ref);
    } else if (op == 1) {
        unsigned i = choose("which", n); ref.erase(ref.begin() + i); if (rev) dheap::rerase<2>(b, e, b - i, lt); else dheap::erase<2>(b, e, b + i, lt); heap(n - 1, ref);
    } else if (op == 2) {
        auto it = rev ? dheap::rfind_min<2>(b, e, lt) : dheap::find_min<2>(b, e, lt); bool ok = true; for (auto v : ref) ok &= *it <= v; CHECK(ok, "least item of a node");
    } else {
        if (n > sym_param("sort", 5)) sym_stop(); bool over = choose("in place", 2); auto out = over ? e : rev ? b - n - 3 : b + n + 3; 
        if (rev) dheap::rsort<2>(b, e, out, lt); else dheap::sort<2>(b, e, out, lt);
        bool ok = true; Vals got; for (unsigned i = 0; i < n; ++i) { auto x = rev ? out[n - i] : out[-(long)n + (long)i]; got.push_back(x); if (i) ok &= got[i - 1] <= x; } CHECK(ok, "sorted items of a node"); same_multiset(got, ref, "sorted items of a node");
    }
    sym_cover("done");
}
