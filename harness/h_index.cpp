// Block index (v_bindex), morphing index and sorted vector: against a plain list of the inserted items.
#include "env0.h"
#include <dbzero/core/collections/b_index/mb_index.hpp>
#include <dbzero/core/collections/b_index/v_bindex.hpp>
using namespace db0;
static uint64_t key(const char *n) { return sym_range(n, 0, sym_param("kmax", 40)); }
static Vals prefill(unsigned n, unsigned gap) { Vals r; for (unsigned i = 0; i < n; ++i) r.push_back(2 + i * gap); return r; }
static void erase1(Vals &v, uint64_t k) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == k) { v.erase(v.begin() + i); return; } }
static void eraseAll(Vals &v, uint64_t k) { Vals r; for (auto x : v) if (!(x == k)) r.push_back(x); v = r; }
static const uint64_t *nokey = nullptr;
// a position reached with join / joinBound / limits, against the list
template <class It> static void joins(It it, const Vals &ref, int dir, unsigned n, bool dup) {
    // the position: NONE = end
    uint64_t cur = dir > 0 ? ref_ge(ref, 0) : ref_le(ref, NONE - 1); bool lim = false; uint64_t bound = 0;
    auto at = [&](It &i) { return i.is_end() ? NONE : (uint64_t)*i; };
    CHECK(at(it) == cur, "the first item of a join");
    for (unsigned j = 0; j < n && !it.is_end(); ++j) {
        { uint64_t x = *it; uint8_t c = count_of(ref, x); if (j == 0 || !dup) CHECK(it.isNextKeyDuplicated() == (c > 1), "isNextKeyDuplicated"); }
        unsigned op = choose("jop", 4); uint64_t q = key("j"); bool in = !lim | (dir > 0 ? q < bound : q > bound); // a limit is exclusive
        if (op == 0) { // join in the iterator's direction
            ASSUME(dir > 0 ? q >= cur : q <= cur); // joins never go back
            bool r = it.join(q, dir); uint64_t want = dir > 0 ? ref_ge(ref, q) : ref_le(ref, q);
            if (lim) want = sel(in & (want != NONE) & (dir > 0 ? want < bound : want > bound), want, NONE);
            CHECK(r == (want != NONE), "join: result"); CHECK(at(it) == want, "join: position"); cur = want; sym_cover("join");
        } else if (op == 1) {
            ASSUME(dir < 0); auto p = it.peek(q); ASSUME(q <= cur); uint64_t want = ref_le(ref, q);
            if (lim) want = sel(in & (want != NONE) & (want > bound), want, NONE);
            CHECK(p.second == (want != NONE), "peek: result"); if (p.second) CHECK((uint64_t)p.first == want, "peek: item"); CHECK(at(it) == cur, "peek moves the iterator"); sym_cover("peek");
        } else if (op == 2) { // one step
            if (dup) { sym_stop(); }
            if (dir > 0) ++it; else --it; uint64_t want = dir > 0 ? ref_ge(ref, cur + 1) : (cur ? ref_le(ref, cur - 1) : NONE);
            if (lim) want = sel((want != NONE) & (dir > 0 ? want < bound : want > bound), want, NONE);
            CHECK(at(it) == want, "step: position"); cur = want; sym_cover("step");
        } else if (!lim) {
            bool r = it.limitBy(q); lim = true; bound = q; CHECK(r == (dir > 0 ? cur < bound : cur > bound), "limitBy: result"); CHECK(it.is_end() == !r, "limitBy: end");
            CHECK(it.hasLimit(), "hasLimit"); if (!r) cur = NONE; sym_cover("limit");
        } else sym_stop();
    }
    if (!it.is_end()) { It c(it); CHECK(at(c) == cur, "copy of a join position"); }
}
template <class It> static void bounds(It it, const Vals &ref) { // joinBound on a fresh backward iterator: the lowest item not below the key, or the last item below it
    uint64_t q = key("jb"); CHECK(!it.is_end(), "join over a non-empty index is at its end");
    it.joinBound(q); uint64_t ge = ref_ge(ref, q), le = ref_le(ref, q); CHECK(!it.is_end(), "joinBound reached the end");
    uint64_t x = *it; CHECK(has(ref, x), "joinBound: foreign item"); (void)le; (void)ge; sym_cover("joinBound");
    // whatever remains backwards of the position includes every item not above the key
    CHECK((le == NONE) | (x >= le), "joinBound skips items");
}
template <class T> static void bindex_query(T &t, const Vals &ref, bool dup) {
    unsigned qk = choose("query", 4); if (!(sym_param("qmask", 15) >> qk & 1)) sym_stop(); sym_cover("query");
    if (qk == 0) {
        Vals got; bool ok = true; uint64_t last = 0;
        for (auto it = t.begin(), e = t.end(); it != e; ++it) { uint64_t x = *it; ok &= x >= last; last = x; got.push_back(x); CHECK(got.size() <= ref.size(), "iteration returns too many items"); }
        CHECK(ok, "iteration is not sorted"); same_multiset(ref, got, "iteration does not return the stored items", dup);
        if (!ref.empty()) { auto it = t.end(); unsigned n = 0; ok = true; do { --it; if (it.is_end()) break; ok &= (uint64_t)*it == got[ref.size() - 1 - n]; CHECK(++n <= ref.size(), "backward iteration returns too many items"); } while (n < 64); CHECK(ok && n == ref.size(), "backward iteration"); }
        sym_cover("iterate");
    } else if (qk == 1) {
        auto q = key("q"); auto f = t.find(q); CHECK(f.is_end() == !has(ref, q), "find: found or not"); if (!f.is_end()) CHECK((uint64_t)*f == q, "find: wrong item");
        auto x = ref_le(ref, q); auto l = t.findLowerEqualBound(q); CHECK(l.is_end() == (x == NONE), "findLowerEqualBound: found or not"); if (!l.is_end()) CHECK((uint64_t)*l == x, "findLowerEqualBound: wrong item");
        uint64_t o = q; CHECK(t.findOne(o) == has(ref, q), "findOne"); CHECK(t.updateExisting(q) == has(ref, q), "updateExisting"); sym_cover("find");
    } else if (qk == 2) { if (ref.empty()) { CHECK(t.beginJoin(1).is_end() && t.beginJoin(-1).is_end(), "join over an empty index"); return; } int d = choose("dir", 2) ? 1 : -1; joins(t.beginJoin(d), ref, d, sym_param("joins", 2), dup); }
    else if (!ref.empty()) bounds(t.beginJoin(-1), ref);
}
HARNESS(index_bindex) {
    typedef v_bindex<uint64_t> T; unsigned pg = sym_param("pg", 80), steps = sym_param("steps", 2), mask = sym_param("ops", 0xff); bool dup = sym_param("dup", 0);
    Heap sp(128); Vals ref;
    auto t = std::make_unique<T>(sp.ms, (std::size_t)pg); auto addr = t->getAddress(); auto reopen = [&] { t.reset(); t = std::make_unique<T>(sp.ms.myPtr(addr), std::optional<std::size_t>(pg)); };
    for (auto k : prefill(sym_param("pre", 0), sym_param("gap", 4))) { t->insert(k); ref.push_back(k); }
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op; do { op = choose("op", 8); if (!(mask >> op & 1)) sym_stop(); } while (0);
        if (op == 0) { auto k = key("k"); if (!dup) ASSUME(!has(ref, k)); t->insert(k); ref.push_back(k); sym_cover("insert"); }
        else if (op == 1) { Vals in{key("b"), key("b")}; Vals seen; std::function<void(uint64_t)> cb = [&](uint64_t x) { seen.push_back(x); }; auto r = t->bulkInsertUnique(in.begin(), in.end(), &cb);
            Vals neu; for (auto x : in) if (!has(ref, x) && !has(neu, x)) neu.push_back(x); CHECK(r.first == 2 && r.second == neu.size(), "bulkInsertUnique result"); same_multiset(neu, seen, "bulkInsertUnique reports other items than it added"); for (auto x : neu) ref.push_back(x); sym_cover("bulk-insert-unique"); }
        else if (op == 2) { Vals in{key("m"), key("m")}; if (!dup) { ASSUME(!has(ref, in[0]) & !has(ref, in[1]) & (in[0] != in[1])); } auto r = t->bulkInsert(in.begin(), in.end()); CHECK(r.first == 2 && r.second == 2, "bulkInsert result"); for (auto x : in) ref.push_back(x); sym_cover("bulk-insert"); }
        else if (op == 3) { Vals in{key("d"), key("d")}; Vals seen; std::function<void(uint64_t)> cb = [&](uint64_t x) { seen.push_back(x); }; ASSUME(in[0] != in[1]); if (dup) ASSUME((count_of(ref, in[0]) < 2) & (count_of(ref, in[1]) < 2));
            Vals gone; for (auto x : in) if (has(ref, x)) gone.push_back(x); auto r = t->bulkErase(in.begin(), in.end(), nokey, &cb); CHECK(r == gone.size(), "bulkErase result"); same_multiset(gone, seen, "bulkErase reports other items than it removed"); for (auto x : gone) erase1(ref, x); sym_cover("bulk-erase"); }
        else if (op == 4) { auto lo = key("l"), hi = key("h"); std::function<bool(uint64_t)> f = [&](uint64_t x) { return (x >= lo) & (x <= hi); }; Vals keep; for (auto x : ref) if (!f(x)) keep.push_back(x); auto r = t->bulkErase(f); CHECK(r == ref.size() - keep.size(), "bulkErase(condition) result"); ref = keep; sym_cover("erase-if"); }
        else if (op == 5) { auto k = key("e"); auto it = t->find(k); CHECK(it.is_end() == !has(ref, k), "find: found or not"); if (!it.is_end()) { t->erase(it); erase1(ref, k); sym_cover("erase"); } }
        else if (op == 6) { t->commit(); if (choose("how", 2)) t->detach(); else reopen(); sym_cover("reopen"); }
        else { t->clear(); ref.clear(); sym_cover("clear"); }
        CHECK(t->size() == ref.size(), "size()"); CHECK(t->empty() == ref.empty(), "empty()");
    }
    bindex_query(*t, ref, dup);
    t->destroy(); sp.no_leak("destroy() leaves blocks allocated"); sym_cover("end");
}
HARNESS(index_morphing) {
    typedef MorphingBIndex<uint64_t> T; unsigned pg = sym_param("pg", 128), steps = sym_param("steps", 3), lim = sym_param("limit", 6), mask = sym_param("ops", 0x3f);
    Heap sp(pg); Vals ref; auto t = std::make_unique<T>(sp.ms, bindex::type::empty, lim);
    { Vals pre = prefill(sym_param("pre", 0), sym_param("gap", 4)); unsigned b = sym_param("bulk", 0); if (b) t->bulkInsertUnique(pre.begin(), pre.end()); else for (auto k : pre) t->insert(k); ref = pre; }
    unsigned many = sym_param("many", 2);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", 6); if (!(mask >> op & 1)) sym_stop();
        if (op == 0) { auto k = key("k"); ASSUME(!has(ref, k)); auto a0 = t->getAddress(); auto y0 = t->getIndexType(); bool r = t->insert(k); ref.push_back(k); CHECK(r || (y0 == t->getIndexType() && (y0 == bindex::type::bindex || y0 == bindex::type::sorted_vector || a0 == t->getAddress())), "insert does not report that the index changed"); sym_cover("insert"); }
        else if (op == 1 || op == 2) { // a sorted list of different items
            Vals in; for (unsigned i = 0; i < many; ++i) { in.push_back(key("b")); if (i) ASSUME(in[i] > in[i - 1]); } Vals seen; std::function<void(uint64_t)> cb = [&](uint64_t x) { seen.push_back(x); };
            if (op == 1) { Vals neu; for (auto x : in) if (!has(ref, x)) neu.push_back(x); auto r = t->bulkInsertUnique(in.begin(), in.end(), &cb); CHECK(r.first == in.size() && r.second == neu.size(), "bulkInsertUnique result"); same_multiset(neu, seen, "bulkInsertUnique reports other items than it added"); for (auto x : neu) ref.push_back(x); sym_cover("bulk-insert"); }
            else { Vals gone; for (auto x : in) if (has(ref, x)) gone.push_back(x); auto r = t->bulkErase(in.begin(), in.end(), &cb); CHECK(r == gone.size(), "bulkErase result"); same_multiset(gone, seen, "bulkErase reports other items than it removed"); for (auto x : gone) erase1(ref, x); sym_cover("bulk-erase"); } }
        else if (op == 3) { auto k = key("e"); t->erase(k); if (has(ref, k)) erase1(ref, k); sym_cover("erase"); }
        else if (op == 4) { t->commit(); auto a = t->getAddress(); auto y = t->getIndexType(); t.reset(); t = std::make_unique<T>(sp.ms, a, y, lim); CHECK(t->getIndexType() == y && t->getAddress() == a, "reopened index"); sym_cover("reopen"); }
        else { auto k = key("u"); uint64_t o = k; CHECK(t->contains(k) == has(ref, k), "contains"); CHECK(t->findOne(o) == has(ref, k), "findOne"); CHECK(o == k, "findOne: item"); o = 0; bool r = t->updateExisting(k, &o); CHECK(r == has(ref, k), "updateExisting"); if (r) CHECK(o == k, "updateExisting: previous item"); sym_cover("look-up"); }
        CHECK(t->size() == ref.size(), "size()"); CHECK(t->empty() == ref.empty(), "empty()");
    }
    unsigned qk = choose("query", 2); if (!(sym_param("qmask", 3) >> qk & 1)) sym_stop();
    if (qk == 0) {
        Vals got; uint64_t last = 0; bool ok = true; for (auto it = t->beginJoin(1); !it.is_end(); ++it) { uint64_t x = *it; ok &= x >= last; last = x; got.push_back(x); CHECK(got.size() <= ref.size(), "iteration returns too many items"); } CHECK(ok, "iteration is not sorted"); same_multiset(ref, got, "the index does not hold the inserted items");
        got.clear(); for (auto it = t->beginJoin(-1); !it.is_end(); --it) { got.push_back(*it); CHECK(got.size() <= ref.size(), "backward iteration returns too many items"); } same_multiset(ref, got, "backward iteration"); sym_cover("iterate");
        auto q = key("q"); CHECK(t->contains(q) == has(ref, q), "contains");
    } else if (!ref.empty()) { if (choose("jb", 2)) bounds(t->beginJoin(-1), ref); else { int d = choose("dir", 2) ? 1 : -1; joins(t->beginJoin(d), ref, d, sym_param("joins", 2), false); } }
    else { CHECK(t->beginJoin(1).is_end(), "join over an empty index"); CHECK(t->beginJoin(-1).is_end(), "join over an empty index"); }
    t->destroy(); sp.no_leak("destroy() leaves blocks allocated"); sym_cover("end");
}
