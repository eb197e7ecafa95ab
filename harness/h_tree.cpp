// Ordered trees (SGB tree, lookup tree, compressed lookup tree, map): against a plain list of the inserted keys.
#include "env0.h"
#include <dbzero/core/collections/SGB_Tree/SGB_Tree.hpp>
#include <dbzero/core/collections/SGB_Tree/SGB_LookupTree.hpp>
#include <dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp>
#include <dbzero/core/collections/map/v_map.hpp>
#include <dbzero/core/serialization/string.hpp>
using namespace db0;
static const unsigned KMAX = 40;
// concrete keys inserted first: ascending, descending, alternating
static Vals prefill(unsigned n, unsigned gap) {
    Vals r; unsigned o = n > 1 ? choose("order", 3) : 0;
    for (unsigned i = 0; i < n; ++i) { unsigned k = o == 0 ? i : o == 1 ? n - 1 - i : (i & 1) ? n - 1 - i / 2 : i / 2; r.push_back(2 + k * gap); }
    return r;
}
static uint64_t key(const char *n) { return sym_range(n, 0, sym_param("kmax", KMAX)); }
typedef SGB_KeyT<uint64_t> K64;
HARNESS(tree_sgb) {
    typedef SGB_Tree<K64, std::less<K64>, std::equal_to<K64>, uint16_t, Address> T;
    Heap sp; sp.al->sub = true; unsigned cap = sym_param("cap", 102), steps = sym_param("steps", 3); auto t = std::make_unique<T>(sp.ms, cap); Vals ref;
    auto addr = t->getAddress();
    for (auto k : prefill(sym_param("pre", 0), sym_param("gap", 4))) { t->insert(k); ref.push_back(k); }
    bool dup = sym_param("dup", 0);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", ref.empty() ? 1 : 4);
        if (op == 0) { auto k = key("k"); if (!dup) ASSUME(!has(ref, k)); auto it = t->emplace(k); CHECK((bool)it && (uint64_t)*it.first == k, "emplace returns another item"); ref.push_back(k); sym_cover("insert"); }
        else if (op == 1) { auto k = key("d"); bool had = has(ref, k); auto r = t->erase_equal(k); CHECK(r.first == had, "erase_equal result"); if (r.first) { for (size_t i = 0; i < ref.size(); ++i) if (ref[i] == k) { ref.erase(ref.begin() + i); break; } sym_cover("erase"); } }
        else if (op == 2) { auto k = key("e"); auto it = t->lower_equal_bound(k); auto x = ref_le(ref, k); CHECK((it.first == nullptr) == (x == NONE), "lower_equal_bound: found or not"); if (it.first) { CHECK((uint64_t)*it.first == x, "lower_equal_bound: wrong item"); t->erase(it); for (size_t i = 0; i < ref.size(); ++i) if (ref[i] == x) { ref.erase(ref.begin() + i); break; } sym_cover("erase-at"); } }
        else { t->commit(); if (choose("how", 2)) t->detach(); else { t.reset(); t = std::make_unique<T>(sp.ms.myPtr(addr), cap); } sym_cover("reopen"); }
        CHECK(t->size() == ref.size(), "size()"); CHECK(t->empty() == ref.empty(), "empty()");
    }
    unsigned qk = choose("query", 4);
    if (qk == 0) { // sorted iteration
        Vals got; uint64_t last = 0; for (auto it = t->cbegin(); !it.is_end(); ++it) { uint64_t x = *it; CHECK(x >= last, "iteration is not sorted"); last = x; got.push_back(x); CHECK(got.size() <= ref.size(), "iteration returns too many items"); }
        same_multiset(ref, got, "iteration does not return the stored items", dup);
    } else if (qk == 1) {
        auto q = key("q"); auto x = ref_le(ref, q), y = ref_ge(ref, q);
        auto it = t->lower_equal_bound(q); CHECK((it.first == nullptr) == (x == NONE), "lower_equal_bound: found or not"); if (it.first) CHECK((uint64_t)*it.first == x, "lower_equal_bound: wrong item");
        auto e = t->find_equal(q); CHECK((e.first != nullptr) == (has(ref, q)), "find_equal: found or not"); if (e.first) CHECK((uint64_t)*e.first == q, "find_equal: wrong item");
        auto u = t->upper_equal_bound(q); CHECK((u.first == nullptr) == (y == NONE), "upper_equal_bound: found or not"); if (u.first) CHECK((uint64_t)*u.first == y, "upper_equal_bound: wrong item");
        if (u.first) { // every remaining item not below the bound is in the slice
            Vals got, want; for (auto it = t->upper_slice(u); !it.is_end(); ++it) { got.push_back((uint64_t)*it); CHECK(got.size() <= ref.size(), "slice returns too many items"); }
            bool ok = true; for (auto g : got) ok &= has(ref, g); CHECK(ok, "slice returns a foreign item"); sym_cover("slice");
        }
    } else if (qk == 2) {
        auto q = key("q"); T::WindowT w; bool f = t->lower_equal_window(q, w); auto x = ref_le(ref, q);
        CHECK(f == (x != NONE), "lower_equal_window: found or not");
        if (f) { CHECK(w[1].first && (uint64_t)*w[1].first == x, "lower_equal_window: middle"); if (!dup) { auto p = x ? ref_le(ref, x - 1) : NONE, n = ref_ge(ref, x + 1); CHECK((w[0].first ? (uint64_t)*w[0].first : NONE) == p, "lower_equal_window: previous"); CHECK((w[2].first ? (uint64_t)*w[2].first : NONE) == n, "lower_equal_window: next"); } sym_cover("window"); }
    } else {
        auto m = t->find_max(); CHECK((m.first == nullptr) == ref.empty(), "find_max: found or not"); if (m.first) CHECK((uint64_t)*m.first == ref_le(ref, NONE - 1), "find_max: wrong item");
        Vals got; for (auto it = t->rbegin_unsorted(); !it.is_end(); ++it) { got.push_back((uint64_t)*it); CHECK(got.size() <= ref.size(), "unsorted iteration returns too many items"); }
        same_multiset(ref, got, "unsorted iteration does not return the stored items", dup);
    }
    sym_cover("end");
}
HARNESS(tree_lookup) {
    typedef SGB_LookupTree<K64, std::less<K64>, std::equal_to<K64>, uint16_t, Address> T;
    Heap sp; sp.al->sub = true; unsigned cap = sym_param("cap", 106), steps = sym_param("steps", 3), thr = sym_param("thr", 1); auto t = std::make_unique<T>(sp.ms, cap, AccessType::READ_WRITE, T::CompT(), std::less<K64>(), std::equal_to<K64>(), thr); Vals ref;
    auto addr = t->getAddress();
    for (auto k : prefill(sym_param("pre", 0), sym_param("gap", 4))) { t->insert(k); ref.push_back(k); if (sym_param("look", 0)) t->lower_equal_bound((uint64_t)0); }
    bool dup = sym_param("dup", 0);
    auto look = [&](uint64_t q) { auto it = t->lower_equal_bound(q); auto x = ref_le(ref, q); CHECK((it.first == nullptr) == (x == NONE), "lower_equal_bound: found or not"); if (it.first) CHECK((uint64_t)*it.first == x, "lower_equal_bound: wrong item"); };
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", ref.empty() ? 1 : 3);
        if (op == 0) { auto k = key("k"); if (!dup) ASSUME(!has(ref, k)); t->insert(k); ref.push_back(k); sym_cover("insert"); }
        else if (op == 1) { look(key("q")); sym_cover("lookup"); }
        else { t.reset(); auto at = choose("ro", 2) ? AccessType::READ_WRITE : AccessType::READ_ONLY; (void)at; t = std::make_unique<T>(sp.ms.myPtr(addr), cap, AccessType::READ_WRITE, T::CompT(), std::less<K64>(), std::equal_to<K64>(), thr); sym_cover("reopen"); }
    }
    Vals got; bool ok = true; uint64_t last = 0;
    for (auto n = t->cbegin_nodes(); n != t->cend_nodes(); ++n) for (auto it = n->cbegin_sorted({}); !it.is_end(); ++it) { uint64_t x = *it; ok &= x >= last; last = x; got.push_back(x); CHECK(got.size() <= ref.size(), "too many items"); }
    CHECK(ok, "iteration is not sorted"); same_multiset(ref, got, "the tree does not hold the inserted items", dup);
    look(key("q")); { t.reset(); T ro(sp.ms.myPtr(addr), cap, AccessType::READ_ONLY); auto q = key("r"); auto it = ro.lower_equal_bound(q); CHECK((it.first ? (uint64_t)*it.first : NONE) == ref_le(ref, q), "read-only lookup"); }
    sym_cover("end");
}
// node-relative (compressed) items: the head stores the base, an item fits when it lies within 4 bits of it
DB0_PACKED_BEGIN
struct DB0_PACKED_ATTR Base8 : public o_fixed<Base8> {
    uint32_t m_base = 0;
    uint8_t compressFirst(uint64_t x) { m_base = x; return 0; }
    bool canFit(uint64_t x) const { return x >= m_base && x - m_base < 16; }
    uint8_t compress(uint64_t x) const { CHECK(canFit(x), "compressing a key that does not fit"); return x - m_base; }
    uint64_t uncompress(uint8_t x) const { return m_base + x; }
};
DB0_PACKED_END
HARNESS(tree_compressed) {
    typedef SGB_CompressedLookupTree<uint64_t, uint8_t, Base8> T;
    Heap sp; sp.al->sub = true; unsigned cap = sym_param("cap", 90), steps = sym_param("steps", 3), thr = sym_param("thr", 1); auto mk = [&](AccessType at, bool fresh, Address a) { return fresh ? std::make_unique<T>(sp.ms, cap, at, T::CompT(), T::NodeItemCompT(), T::NodeItemEqualT(), thr) : std::make_unique<T>(sp.ms.myPtr(a), cap, at, T::CompT(), T::NodeItemCompT(), T::NodeItemEqualT(), thr); };
    auto t = mk(AccessType::READ_WRITE, true, {}); auto addr = t->getAddress(); Vals ref; bool dup = sym_param("dup", 0);
    for (auto k : prefill(sym_param("pre", 0), sym_param("gap", 4))) { t->insert(k); ref.push_back(k); }
    auto look = [&](uint64_t q) {
        auto x = ref_le(ref, q); auto r = t->lower_equal_bound(q); CHECK((r ? *r : NONE) == x, "lower_equal_bound");
        auto f = t->findLower(q); CHECK((f.first == nullptr) == (x == NONE), "findLower: found or not"); if (f.first) CHECK(f.second->header().uncompress(*f.first) == x, "findLower: wrong item");
    };
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", ref.empty() ? 1 : 3);
        if (op == 0) { auto k = key("k"); if (!dup) ASSUME(!has(ref, k)); t->insert(k); ref.push_back(k); sym_cover("insert"); }
        else if (op == 1) { look(key("q")); sym_cover("lookup"); }
        else { t->commit(); if (choose("how", 2)) t->detach(); else { t.reset(); t = mk(AccessType::READ_WRITE, false, addr); } sym_cover("reopen"); }
        CHECK(t->size() == ref.size(), "size()"); CHECK(t->empty() == ref.empty(), "empty()");
    }
    unsigned qk = choose("query", 3);
    if (qk == 0) { Vals got; bool ok = true; uint64_t last = 0; for (auto it = t->cbegin(); !it.is_end(); ++it) { uint64_t x = *it; ok &= x >= last; last = x; got.push_back(x); CHECK(got.size() <= ref.size(), "too many items"); } CHECK(ok, "iteration is not sorted"); same_multiset(ref, got, "the tree does not hold the inserted items", dup); sym_cover("iterate"); }
    else if (qk == 1) { if (!choose("upper", 2)) look(key("q")); else { auto q = key("u"); auto r = t->upper_equal_bound(q); CHECK((r ? *r : NONE) == ref_ge(ref, q), "upper_equal_bound"); sym_cover("upper"); } }
    else { t.reset(); t = mk(AccessType::READ_ONLY, false, addr); look(key("q")); sym_cover("read-only"); }
    sym_cover("end");
}
// map with fixed-size and with string keys
HARNESS(tree_map) {
    typedef v_map<o_simple<uint64_t>, o_simple<uint64_t>> M;
    Heap sp; auto m = std::make_unique<M>(sp.ms); auto addr = m->getAddress(); Vals ks, vs; unsigned steps = sym_param("steps", 4); uint64_t stamp = 100;
    for (auto k : prefill(sym_param("pre", 0), sym_param("gap", 4))) { m->insert_equal(k, stamp); ks.push_back(k); vs.push_back(stamp++); }
    bool dup = sym_param("dup", 0);
    auto val = [&](uint64_t k) { uint64_t r = 0; for (size_t i = 0; i < ks.size(); ++i) r = sel(ks[i] == k, vs[i], r); return r; };
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", ks.empty() ? 2 : 4);
        if (op == 0) { auto k = key("k"); bool had = has(ks, k); if (dup) { m->insert_equal(k, stamp); had = false; } else { auto r = m->insert_unique(k, stamp); CHECK(r.second == !had, "insert_unique result"); CHECK((uint64_t)r.first->first() == k, "insert_unique key"); if (!r.second) CHECK((uint64_t)r.first->second() == val(k), "insert_unique returns another node"); had = !r.second; } if (!had) { ks.push_back(k); vs.push_back(stamp); } ++stamp; sym_cover("insert"); }
        else if (op == 1) { m->commit(); if (choose("how", 2)) m->detach(); else { m.reset(); m = std::make_unique<M>(sp.ms.myPtr(addr)); } sym_cover("reopen"); }
        else if (op == 2) { auto k = key("d"); auto it = m->find(k); bool f = it != m->end(); CHECK(f == has(ks, k), "find: found or not"); if (f) { CHECK((uint64_t)it->first() == k, "find: wrong key"); uint64_t v = it->second(); if (!dup) CHECK(v == val(k), "find: wrong value"); m->erase(it); size_t i = 0; bool done = false; for (; i < ks.size(); ++i) if (vs[i] == v) { CHECK(ks[i] == k, "value of another key"); ks.erase(ks.begin() + i); vs.erase(vs.begin() + i); done = true; break; } CHECK(done, "foreign value"); sym_cover("erase"); } }
        else { m->clear(); ks.clear(); vs.clear(); sym_cover("clear"); CHECK(sp.al->live.size() == 1, "clear() leaves blocks allocated"); }
        CHECK(m->size() == ks.size(), "size()"); CHECK(m->empty() == ks.empty(), "empty()");
    }
    unsigned qk = choose("query", 2);
    if (qk == 0) { Vals got; bool ok = true, vok = true; uint64_t last = 0; for (auto it = m->begin(); it != m->end(); ++it) { uint64_t x = it->first(); ok &= x >= last; last = x; got.push_back(x); if (!dup) vok &= (uint64_t)it->second() == val(x); CHECK(got.size() <= ks.size(), "too many items"); } CHECK(ok, "iteration is not sorted"); CHECK(vok, "iteration returns a wrong value"); same_multiset(ks, got, "the map does not hold the inserted keys", dup);
        unsigned n = 0; auto it = m->end(); while (it != m->begin()) { --it; ++n; CHECK(n <= ks.size(), "too many items backwards"); } CHECK(n == ks.size(), "backward iteration skips items"); sym_cover("iterate"); }
    else { auto q = key("q"); auto at = [&](M::iterator it) { return it == m->end() ? NONE : (uint64_t)it->first(); };
        CHECK(at(m->find(q)) == (has(ks, q) ? q : NONE), "find"); CHECK(at(m->lower_bound(q)) == ref_ge(ks, q), "lower_bound"); CHECK(at(m->lower_equal_bound(q)) == ref_le(ks, q), "lower_equal_bound"); CHECK(at(m->upper_equal_bound(q)) == ref_ge(ks, q), "upper_equal_bound"); sym_cover("query"); }
    m->destroy(); sp.no_leak("destroy() leaves blocks allocated"); sym_cover("end");
}
HARNESS(tree_map_string) {
    typedef v_map<o_string, o_simple<uint64_t>, o_string::comp_t> M;
    Heap sp; M m(sp.ms); std::vector<std::string> ref; unsigned steps = sym_param("steps", 3), L = sym_param("len", 2);
    auto str = [&](const char *n) { std::string s; unsigned k = choose("len", L + 1); for (unsigned i = 0; i < k; ++i) { uint8_t c = sym_u8(n); ASSUME(c); s.push_back(c); } return s; };
    auto eq = [](const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; };
    for (unsigned s = 0; s < steps; ++s) {
        auto k = str("k"); bool had = false; uint64_t v = 0; for (size_t i = 0; i < ref.size(); ++i) { bool e = eq(ref[i], k); had |= e; v = sel(e, i, v); }
        if (choose("op", 2) == 0) { auto r = m.insert_unique(k, (uint64_t)s); CHECK(r.second == !had, "insert_unique of a string"); if (r.second) { while (ref.size() < s) ref.push_back("\1\1\1\1"); ref.push_back(k); sym_cover("insert"); } }
        else { auto it = m.find(k); bool f = it != m.end(); CHECK(f == had, "find of a string"); if (f) { CHECK((uint64_t)it->second() == v, "value of a string key"); CHECK(eq(it->first().toString(), k), "string key is not stored unchanged"); sym_cover("find"); } }
    }
    // sorted by plain (unsigned or signed, but consistent) character order
    std::string last; bool first = true; for (auto it = m.begin(); it != m.end(); ++it) { auto x = it->first().toString(); if (!first) CHECK(!eq(x, last), "equal keys in a map"); last = x; first = false; }
    m.destroy(); sp.no_leak("destroy() leaves blocks allocated"); sym_cover("end");
}
