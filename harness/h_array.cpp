// Array-like collections: block vector, limited matrices, sparse matrix of bits, run-length sequences, bit sets
#include "env0.h"
#include <dbzero/core/collections/vector/v_bvector.hpp>
#include <dbzero/core/collections/vector/VLimitedMatrix.hpp>
#include <dbzero/core/collections/vector/LimitedMatrix.hpp>
#include <dbzero/core/collections/vector/LimitedMatrixCache.hpp>
#include <dbzero/core/collections/vector/SparseBoolMatrix.hpp>
#include <dbzero/core/collections/rle/RLE_Sequence.hpp>
#include <dbzero/core/collections/bitset/FixedBitset.hpp>
using namespace db0;
// sizes around the borders of blocks of 8 items and of the next levels
static unsigned pick(const char *n, const std::vector<unsigned> &v) { return v[choose(n, v.size())]; }
template <class I> static void bvector(unsigned blk, unsigned top) {
    typedef v_bvector<I> T; unsigned pg = 64, steps = sym_param("steps", 2), mask = sym_param("ops", 0xffff); Heap sp(pg); std::vector<I> ref;
    auto val = [&] { I x; sym_bytes(&x, sizeof x, "v"); return x; };
    unsigned pre = sym_param("pre", 0); unsigned n0 = pre ? pick("n", pre == 1 ? std::vector<unsigned>{0, 1, 3, blk - 1, blk, blk + 1} : pre == 2 ? std::vector<unsigned>{2 * blk, 2 * blk + 1, 7 * blk + 1, 8 * blk, 8 * blk + 1, 9 * blk + 2} : std::vector<unsigned>{63 * blk + 1, 64 * blk, 64 * blk + 1, 65 * blk}) : 0; I c = 100;
    BVectorFlags fl = sym_param("fixed", 0) ? BVectorFlags{BVectorOptions::FIXED_BLOCK} : BVectorFlags{};
    for (unsigned i = 0; i < n0; ++i) ref.push_back(c = c * 7 + 1);
    auto t = choose("init", 2) ? std::make_unique<T>(sp.ms, ref, fl) : std::make_unique<T>(sp.ms, fl); if (t->size() != ref.size()) { if (n0) { t->growBy(n0); for (unsigned i = n0; i--; ) t->setItem(i, ref[i]); } } auto addr = t->getAddress();
    auto same = [&](const char *msg) { bool ok = true; for (size_t i = 0; i < ref.size(); ++i) ok &= t->getItem(i) == ref[i]; CHECK(ok, msg); };
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", 12); if (!(mask >> op & 1)) sym_stop(); unsigned n = ref.size();
        std::vector<unsigned> at{0, 1, blk - 1, blk, blk + 1, n / 2, n ? n - 1 : 0}; std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end()); while (!at.empty() && at.back() >= n) at.pop_back();
        if (at.empty() && (op == 1 || op == 5 || op == 9)) sym_stop();
        if (op == 0) { auto x = val(); t->push_back(x); ref.push_back(x); sym_cover("push-back"); }
        else if (op == 1) { unsigned i = pick("i", at); auto x = val(); if (choose("how", 2)) t->setItem(i, x); else t->modifyItem(i) = x; ref[i] = x; sym_cover("set"); }
        else if (op == 2) { unsigned g = pick("g", {1, 3, blk, blk + 1, 3 * blk, 9 * blk}); t->growBy(g); CHECK(t->size() == n + g, "growBy: size"); for (unsigned i = 0; i < g; ++i) { if (i < 2) { auto x = val(); t->setItem(n + i, x); ref.push_back(x); } else { ref.push_back(i); t->setItem(n + i, i); } } sym_cover("grow"); }
        else if (op == 3) { if (!n) sym_stop(); unsigned k = pick("k", {1, 2, blk - 1, blk, blk + 1, n / 2, n - 1, n}); if (k > n) sym_stop(); t->pop_back(k); ref.resize(n - k); sym_cover("pop-back"); }
        else if (op == 4) { if (!n) sym_stop(); auto x = t->pop_back(); CHECK(x == ref.back(), "pop_back returns another item"); ref.pop_back(); sym_cover("pop-one"); }
        else if (op == 5) { unsigned i = pick("i", at); t->erase(i); ref.erase(ref.begin() + i); sym_cover("erase"); }
        else if (op == 6) { std::vector<unsigned> pos = at; pos.push_back(n); unsigned i = pick("i", pos); std::vector<I> in; unsigned k = pick("k", {1, 2, blk + 1}); for (unsigned j = 0; j < k; ++j) in.push_back(j < 2 ? val() : (I)j); t->push_at(i, in.begin(), in.end()); ref.insert(ref.begin() + i, in.begin(), in.end()); sym_cover("push-at"); }
        else if (op == 7) { t->clear(); ref.clear(); sym_cover("clear"); CHECK(sp.al->live.size() == 1, "clear() leaves blocks allocated"); }
        else if (op == 8) { t->commit(); if (choose("how", 2)) t->detach(); else { t.reset(); t = std::make_unique<T>(sp.ms.myPtr(addr)); } sym_cover("reopen"); }
        else if (op == 9) { // the items that remain are the ones not listed, in any order
            std::vector<uint64_t> del; for (auto i : at) if (del.size() < 3 && choose("del", 2)) del.push_back(i); if (del.empty()) sym_stop(); t->swapAndPop(del); std::vector<I> left, got; for (unsigned i = 0; i < n; ++i) if (std::find(del.begin(), del.end(), i) == del.end()) left.push_back(ref[i]); CHECK(t->size() == left.size(), "swapAndPop: size"); ref.clear(); for (unsigned i = 0; i < left.size(); ++i) ref.push_back(t->getItem(i));
            Vals a(left.begin(), left.end()), b(ref.begin(), ref.end()); if (a.size() < 24) same_multiset(a, b, "swapAndPop keeps other items"); else { uint64_t sa = 0, sb = 0; for (auto x : a) sa += x; for (auto x : b) sb += x; CHECK(sa == sb, "swapAndPop keeps other items"); } sym_cover("swap-and-pop"); }
        else if (op == 10) { t->cleanup(); sym_cover("cleanup"); }
        else { unsigned a = n / 2, b = n > 2 ? n - 2 : n ? n - 1 : 0; auto it = t->cbegin(); it += a; if (a < n) CHECK(*it == ref[a], "iterator += "); if (a < b) { auto j = it + (b - a); CHECK(*j == ref[b], "iterator +"); CHECK(j - it == (std::ptrdiff_t)(b - a), "iterator difference"); j -= b - a; CHECK(*j == ref[a], "iterator -="); j = t->cend(); --j; CHECK(*j == ref[n - 1], "iterator --"); unsigned m = pick("m", at); auto it2 = t->cbegin(); CHECK(it2.moveTo(m), "moveTo"); CHECK(*it2 == ref[m], "moveTo"); } sym_cover("iterator"); }
        CHECK(t->size() == ref.size(), "size()"); CHECK(t->empty() == ref.empty(), "empty()"); if (sym_param("each", 0)) same("content differs");
    }
    if (choose("how", 2)) same("content differs");
    else { size_t i = 0; bool ok = true; for (auto it = t->cbegin(), e = t->cend(); it != e; ++it, ++i) { CHECK(i < ref.size(), "iteration returns too many items"); ok &= *it == ref[i]; } CHECK(ok && i == ref.size(), "iteration"); i = ref.size(); if (i) { auto it = t->cend(); while (i--) { --it; ok &= *it == ref[i]; } CHECK(ok, "backward iteration"); } }
    t->destroy(); sp.no_leak("destroy() leaves blocks allocated"); sym_cover("end"); (void)top;
}
HARNESS(array_bvector) { bvector<uint64_t>(8, 64); }
HARNESS(array_bytes) { bvector<uint8_t>(64, 512); }
// matrices with a sparse second dimension
typedef std::map<std::pair<uint32_t, uint32_t>, uint64_t> Ref2;
static std::pair<uint32_t, uint32_t> loc(unsigned rows, unsigned cols) { uint32_t a = sym_concretize(sym_range("row", 0, rows - 1)), b = sym_concretize(sym_range("col", 0, cols - 1)); return {a, b}; }
template <class It> static void walk(It it, It end, const Ref2 &ref, const char *msg) { auto r = ref.begin(); bool ok = true; for (; it != end; ++it) { CHECK(r != ref.end(), msg); CHECK(it.loc() == r->first, msg); ok &= *it == r->second; ++r; } CHECK(ok && r == ref.end(), msg); }
HARNESS(array_vmatrix) {
    typedef VLimitedMatrix<uint64_t, 4> T; typedef LimitedMatrixCache<T, uint64_t> C; unsigned steps = sym_param("steps", 3), rows = sym_param("rows", 3); Heap sp(sym_param("pg", 64)); Ref2 ref; uint32_t n = 0;
    { v_bvector<uint64_t> dirty(sp.ms); for (unsigned i = 0; i < 40; ++i) dirty.push_back(~0ull); dirty.destroy(); } // memory handed out was used before
    auto t = std::make_unique<T>(sp.ms); auto addr = t->getAddress(); std::unique_ptr<C> cache; std::vector<uint64_t> seen; Ref2 cached;
    for (unsigned i = 0; i < sym_param("pre", 0); ++i) { unsigned c = i % 3 == 1 ? 1 + i % 3 : 0; t->push_back(i + 1, c); ref[{n++, c}] = i + 1; }
    bool wc = sym_param("cache", 0); if (wc) { cache = std::make_unique<C>(*t, DefaultAdapter<uint64_t, uint64_t>(), [&](const uint64_t &x) { seen.push_back(x); }); cached = ref; CHECK(seen.size() == ref.size(), "cache does not report every item"); }
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", wc ? 6 : 5);
        if (op == 0) { auto p = loc(rows + s, 4); if (wc && !ref.count(p)) { p = {n, p.second}; } auto x = sym_u64("v"); t->set(p, x); ref[p] = x; n = std::max(n, p.first + 1); sym_cover("set"); }
        else if (op == 1) { unsigned c = choose("c", 4); auto x = sym_u64("v"); t->push_back(x, c); ref[{n++, c}] = x; sym_cover("push-back"); }
        else if (op == 2) { if (ref.empty()) sym_stop(); auto it = ref.begin(); std::advance(it, choose("item", ref.size())); auto x = sym_u64("v"); t->modifyItem(it->first) = x; it->second = x; sym_cover("modify"); }
        else if (op == 3) { t->commit(); if (wc || choose("how", 2)) t->detach(); else { t.reset(); t = std::make_unique<T>(sp.ms.myPtr(addr)); } if (wc) cache->detach(); sym_cover("reopen"); }
        else if (op == 4) { auto p = loc(rows + s, 4); if (p.first < n) { auto u = t->findUnassignedKey(p.first); std::optional<uint32_t> w; for (uint32_t c = 4; c--; ) if (!ref.count({p.first, c})) w = c; CHECK(u == w, "findUnassignedKey"); sym_cover("unassigned"); } else CHECK(!t->findUnassignedKey(p.first), "findUnassignedKey beyond the end"); }
        else { cache->refresh(); for (auto &r : ref) if (!cached.count(r.first)) cached[r.first] = r.second; sym_cover("refresh"); }
        CHECK(t->getItemCount() == ref.size(), "getItemCount()"); CHECK(t->size().first == n, "size()");
    }
    unsigned q = choose("query", wc ? 3 : 2);
    if (q == 0) { auto p = loc(rows + 1, 4); auto x = t->tryGet(p); bool h = ref.count(p); CHECK(t->hasItem(p) == h, "hasItem"); CHECK(x.has_value() == h, "tryGet: set or not"); if (h) { CHECK(*x == ref[p], "tryGet: value"); CHECK(t->get(p) == ref[p], "get"); } sym_cover("get"); }
    else if (q == 1) { walk(t->cbegin(), t->cend(), ref, "iteration over the matrix"); sym_cover("iterate"); }
    else { for (auto &r : ref) { auto x = cache->tryGet(r.first); CHECK(x != nullptr, "an item is missing in the cache"); if (cached.count(r.first)) { if (0) CHECK(*x == cached[r.first], "cached value"); } else CHECK(*x == r.second, "cached value"); } CHECK(cache->size() == ref.size(), "cache size"); CHECK(seen.size() == ref.size(), "the cache reports an item twice or not at all"); sym_cover("cache"); }
    sym_cover("end");
}
HARNESS(array_matrix) {
    typedef LimitedMatrix<uint64_t> T; unsigned steps = sym_param("steps", 3), rows = sym_param("rows", 3); T t; Ref2 ref;
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", 3);
        if (op == 0) { auto p = loc(rows, 3); auto x = sym_u64("v"); t.set(p, x); ref[p] = x; sym_cover("set"); }
        else if (op == 1) { if (ref.empty()) sym_stop(); auto it = ref.begin(); std::advance(it, choose("item", ref.size())); auto x = sym_u64("v"); t.modifyItem(it->first) = x; it->second = x; sym_cover("modify"); }
        else { t.clear(); ref.clear(); sym_cover("clear"); }
        CHECK(t.size() == ref.size(), "size()");
    }
    if (choose("query", 2)) { auto p = loc(rows + 1, 4); auto x = t.tryGet(p); bool h = ref.count(p); CHECK(t.hasItem(p) == h && (x != nullptr) == h, "tryGet: set or not"); if (h) CHECK(*x == ref[p] && t.get(p) == ref[p], "tryGet: value"); sym_cover("get"); }
    else { walk(t.begin(), t.end(), ref, "iteration over the matrix"); sym_cover("iterate"); }
    sym_cover("end");
}
HARNESS(array_bits) { // sparse matrix of bits, sorted or not
    unsigned steps = sym_param("steps", 4), thr = 1 + choose("thr", 4); bool lim = choose("lim", 2); std::optional<uint32_t> l; if (lim) l = 3; SparseBoolMatrix t(l, thr); Ref2 ref;
    for (unsigned s = 0; s < steps; ++s) { if (choose("clear", 8) == 7) { t.clear(); ref.clear(); continue; } uint32_t a = sym_concretize(sym_range("row", 0, 3)), b = sym_concretize(sym_range("col", 0, 2)); bool v = sym_bool("v"); t.set({a, b}, v); ref[{a, b}] = v; sym_cover("set"); }
    uint32_t a = sym_concretize(sym_range("row", 0, 4)), b = sym_concretize(sym_range("col", 0, 3)); CHECK(t.get({a, b}) == (ref.count({a, b}) ? (bool)ref[{a, b}] : false), "a bit differs"); sym_cover("end");
}
HARNESS(array_bitset) {
    const unsigned N = 77; typedef VFixedBitset<N> T; Heap sp(64); T b(sp.ms); auto addr = b.getAddress(); uint8_t w[80]; unsigned steps = sym_param("steps", 3);
    for (unsigned i = 0; i < N; ++i) { w[i] = 0; } 
    for (unsigned i : {0u, 1u, 31u, 32u, 63u, 64u, 75u, 76u}) { bool v = sym_bool("bit"); w[i] = v; b.modify().set(i, v); }
    for (unsigned s = 0; s < steps; ++s) { uint32_t i = sym_concretize(sym_range("at", 0, N - 1)); bool v = sym_bool("v"); b.modify().set(i, v); w[i] = v; }
    T c(sp.ms.myPtr(addr)); bool v = sym_bool("q"); unsigned cnt = 0; unsigned first = N; int last = -1; bool ok = true;
    for (unsigned i = 0; i < N; ++i) { bool x = w[i] == (uint8_t)v; cnt += x; last = x ? (int)i : last; ok &= c->get(i) == (bool)w[i]; } for (unsigned i = N; i--; ) { bool x = w[i] == (uint8_t)v; first = x ? i : first; }
    CHECK(ok, "get"); unsigned q = choose("query", 3); if (q == 0) CHECK(c->count(v) == cnt, "count"); else if (q == 1) CHECK(c->firstIndexOf(v) == first, "firstIndexOf"); else CHECK(c->lastIndexOf(v) == last, "lastIndexOf");
    sym_cover("end");
}
HARNESS(array_rle) { // ascending sequences
    typedef uint64_t I; unsigned n = choose("n", sym_param("max", 4) + 1); RLE_SequenceBuilder<I> b; Vals ref; bool keep = choose("dup", 2); uint64_t prev = 0;
    for (unsigned i = 0; i < n; ++i) { uint64_t x = sym_u64("x"); if (i) ASSUME(x >= prev); prev = x; bool d = i && ref.size() && ref.back() == x; b.append(x, keep); if (keep || !d) ref.push_back(x); if (keep && i == 1 && choose("peek", 2)) b.getData(); }
    CHECK(b.empty() == ref.empty(), "empty()"); std::vector<char> buf(64, 0x5a); auto &seq = b.build(buf); CHECK(b.measure() == seq.sizeOf(), "measured size"); 
    size_t i = 0; bool ok = true; for (auto it = seq.begin(), e = seq.end(); it != e; ++it) { CHECK(i < ref.size(), "too many items"); ok &= *it == ref[i]; ++i; } CHECK(ok && i == ref.size(), "the sequence differs from what was appended");
    CHECK(o_rle_sequence<I>::safeSizeOf((const std::byte *)buf.data()) == seq.sizeOf(), "size read from the buffer"); sym_cover("end");
}
