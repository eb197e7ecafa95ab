// Range tree (ordered index over non-unique keys): updates, range selection, sorting and null keys against a plain list of pairs
#include "env0.h"
#include <dbzero/core/collections/range_tree/RangeTree.hpp>
#include <dbzero/core/collections/range_tree/RT_SortIterator.hpp>
#include <dbzero/core/collections/range_tree/RT_FTIterator.hpp>
#include <dbzero/core/collections/full_text/FT_MemoryIndex.hpp>
using namespace db0;
typedef int64_t K; typedef uint64_t V; typedef RangeTree<K, V> RT; typedef RT::ItemT I; typedef RT_SortIterator<K, V> Sort; typedef RT_FTIterator<K, V> Range;
struct R { K k; V v; bool null; };
struct Ref { std::vector<R> r;
    bool hasr(K k, V v, bool n) const { bool h = false; for (auto &x : r) h |= (x.v == v) & (x.null == n) & (n | (x.k == k)); return h; }
    bool add(K k, V v, bool n) { if (hasr(k, v, n)) return false; r.push_back({k, v, n}); return true; }
    bool del(K k, V v, bool n) { for (size_t i = 0; i < r.size(); ++i) if (r[i].null == n && r[i].v == v && (n || r[i].k == k)) { r.erase(r.begin() + i); return true; } return false; } };
static K key() { return (K)sym_range("key", 0, sym_param("kmax", 40)) - 5; }
static V val() { return sym_range("val", 1, sym_param("vmax", 40)); }
static std::unique_ptr<FT_Iterator<V>> mem(const Vals &s, int dir = -1) { return std::make_unique<FT_IndexIterator<FT_MemoryIndex<V>, V>>(FT_MemoryIndex<V>(s.data(), s.data() + s.size()), dir); }
static void prefill(RT &t, Ref &ref, unsigned n, unsigned style) { std::vector<I> v;
    for (unsigned i = 0; i < n; ++i) { unsigned j = style & 1 ? n - 1 - i : i; K k = 4 * j; V x = style & 2 ? 3 + 4 * ((j * 5) % n) : 3 + 4 * j; ref.add(k, x, false); I it(k, x); std::vector<I> one{it}; if (style & 4) v.push_back(it); else t.bulkInsert(one.begin(), one.end()); }
    if (!v.empty()) t.bulkInsert(v.begin(), v.end()); }
static void content(const RT &t, const Ref &ref, const char *msg) {
    std::vector<V> got; t.forAll([&](V v) { got.push_back(v); }); Vals want; for (auto &x : ref.r) want.push_back(x.v); same_multiset(got, want, msg); CHECK(t.size() == ref.r.size(), "size() differs from the number of items"); }
struct Fx { Heap sp; IndexBase index; Fx(unsigned pg) : sp(pg), index(sp.ms, IndexType::RangeTree, IndexDataType::Int64) {} };
static std::unique_ptr<FT_Iterator<V>> range_q(Fx &f, std::shared_ptr<RT> t, bool hmin, K mn, bool mni, bool hmax, K mx, bool mxi, bool nf) {
    return std::make_unique<Range>(f.index, SharedPtrWrapper<RT>(t), hmin ? std::optional<K>(mn) : std::nullopt, mni, hmax ? std::optional<K>(mx) : std::nullopt, mxi, nf); }
static bool in_range(const R &x, bool hmin, K mn, bool mni, bool hmax, K mx, bool mxi, bool nf) {
    if (x.null) return nf ? !hmin : !hmax; bool ok = true; if (hmin) ok &= (x.k > mn) | (mni & (x.k == mn)); if (hmax) ok &= (x.k < mx) | (mxi & (x.k == mx)); return ok; }
// the order required of sorted items: nulls on one side, keys in direction
static bool before(const R &a, const R &b, bool asc, bool nf) { bool nulls_lead = nf == asc; if (a.null != b.null) return a.null ? nulls_lead : !nulls_lead; if (a.null) return true; return asc ? a.k <= b.k : a.k >= b.k; }
static void query(Fx &f, std::shared_ptr<RT> t, const Ref &ref, unsigned qmask) {
    unsigned qk = choose("query", 4); if (!(qmask >> qk & 1)) sym_stop(); sym_cover("query");
    if (qk == 0) { content(*t, ref, "the tree does not hold exactly the inserted items"); return; }
    bool nf = choose("null_first", 2);
    if (qk == 1 || qk == 3) {
        bool hmin = choose("has_min", 2), hmax = choose("has_max", 2), mni = hmin ? choose("min_incl", 2) : 1, mxi = hmax ? choose("max_incl", 2) : 1; K mn = hmin ? key() : 0, mx = hmax ? key() : 0;
        auto it = range_q(f, t, hmin, mn, mni, hmax, mx, mxi, nf); Vals want, got; for (auto &x : ref.r) if (in_range(x, hmin, mn, mni, hmax, mx, mxi, nf)) want.push_back(x.v);
        if (qk == 1) { while (!it->isEnd()) { V v; it->next(&v); got.push_back(v); if (got.size() > ref.r.size()) break; } same_multiset(got, want, "range selection differs"); return; }
        V a = val(), b = val(); ASSUME(a < b); Vals s{a, b}, w2; for (auto v : want) if (v == a || v == b) w2.push_back(v);
        FT_ANDIteratorFactory<V> fac; fac.add(mem(s)); fac.add(std::move(it)); auto q = fac.release(-1); while (q && !q->isEnd()) { V v; q->next(&v); got.push_back(v); if (got.size() > 9) break; }
        for (auto v : s) { bool h = has(w2, v); CHECK(has(got, v) == h, "range selection joined with a query differs"); } for (auto g : got) CHECK(has(w2, g), "range selection joined with a query returns a wrong object"); return;
    }
    bool asc = choose("asc", 2), hq = choose("with_query", 2), again = choose("again", 2); Vals s; if (hq) { V a = val(), b = val(); ASSUME(a < b); s = {a, b}; }
    std::unique_ptr<Sort> it = hq ? std::make_unique<Sort>(f.index, SharedPtrWrapper<RT>(t), mem(s), asc, nf) : std::make_unique<Sort>(f.index, SharedPtrWrapper<RT>(t), asc, nf);
    std::unique_ptr<SortedIterator<V>> ag; SortedIterator<V> *p = it.get(); if (again) { ag = it->beginSorted(); p = ag.get(); }
    std::vector<R> want; for (auto &x : ref.r) if (!hq || x.v == s[0] || x.v == s[1]) want.push_back(x);
    Vals got; while (!p->isEnd()) { V v; p->next(&v); got.push_back(v); if (got.size() > want.size()) break; }
    Vals wv; for (auto &x : want) wv.push_back(x.v);
    if (!hq) same_multiset(got, wv, "sorting does not return exactly the items"); // with a query an object under several keys may be returned once
    else { bool ok = true; for (auto v : wv) ok &= has(got, v); for (auto v : got) ok &= count_of(got, v) <= count_of(wv, v); CHECK(ok, "sorting a query does not return exactly its objects"); }
    // greedy: some assignment of items to positions keeps the order; with distinct values it is unique
    bool uniq = true; for (size_t i = 0; i < want.size(); ++i) for (size_t j = 0; j < i; ++j) uniq &= want[i].v != want[j].v;
    if (uniq) for (size_t i = 0; i + 1 < got.size(); ++i) { R x{}, y{}; for (auto &w : want) { if (w.v == got[i]) x = w; if (w.v == got[i + 1]) y = w; } CHECK(before(x, y, asc, nf), "sorting returns items out of order"); }
}
HARNESS(range_tree) {
    Fx f(sym_param("pg", 256)); unsigned block = sym_param("block", 4), steps = sym_param("steps", 2), mask = sym_param("ops", 0x7f);
    auto t = std::make_shared<RT>(f.sp.ms, block); Ref ref; prefill(*t, ref, sym_param("pre", 0), sym_param("style", 0)); auto addr = t->getAddress();
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", 7); if (!(mask >> op & 1)) sym_stop(); size_t n0 = f.sp.al->live.size(); (void)n0; Vals seen, exp; RT::CallbackT cb = [&](V v) { seen.push_back(v); };
        if (op == 6) { t->commit(); if (choose("detach", 2)) t->detach(); else t = std::make_shared<RT>(f.sp.ms.myPtr(addr)); continue; }
        unsigned n = op == 1 || op == 3 ? 2 : 1; bool null = op == 4 || op == 5, add = op == 0 || op == 1 || op == 4; std::vector<I> it; Vals nv;
        for (unsigned i = 0; i < n; ++i) { K k = null ? 0 : key(); V v = val(); if (i) ASSUME(!(k == it[0].m_key && v == it[0].m_value)); if (null) nv.push_back(v); else it.push_back(I(k, v)); if (add ? ref.add(k, v, null) : ref.del(k, v, null)) exp.push_back(v); }
        if (null) { if (add) t->bulkInsertNull(nv.begin(), nv.end(), &cb); else t->bulkEraseNull(nv.begin(), nv.end(), &cb); }
        else if (add) t->bulkInsert(it.begin(), it.end(), &cb); else t->bulkErase(it.begin(), it.end(), &cb);
        same_multiset(seen, exp, add ? "the add callback does not get exactly the added values" : "the erase callback does not get exactly the erased values"); CHECK(t->size() == ref.r.size(), "size() differs");
    }
    bool nn = false; for (auto &x : ref.r) nn |= !x.null; CHECK(t->hasAnyNonNull() == nn, "hasAnyNonNull()");
    query(f, t, ref, sym_param("qmask", 15));
}
// sorting by a second index among equal keys of the first
HARNESS(range_sort2) {
    Fx f(256); unsigned n = sym_param("n", 3), block = sym_param("block", 3), km = sym_param("kmax", 2); auto a = std::make_shared<RT>(f.sp.ms, block), b = std::make_shared<RT>(f.sp.ms, block); Ref ra, rb;
    auto put = [&](RT &t, Ref &r, const char *nm, V v, bool nulls) { bool null = nulls && choose(nm, 2); K k = null ? 0 : (K)sym_range(nm, 0, km); r.add(k, v, null); if (null) { Vals x{v}; t.bulkInsertNull(x.begin(), x.end()); } else { std::vector<I> x{I(k, v)}; t.bulkInsert(x.begin(), x.end()); } };
    for (unsigned i = 0; i < n; ++i) { put(*a, ra, "a", 10 - i, sym_param("nulls", 1)); put(*b, rb, "b", 10 - i, sym_param("nulls", 1)); }
    bool aasc = choose("a_asc", 2), anf = choose("a_nf", 2), basc = choose("b_asc", 2), bnf = choose("b_nf", 2), hq = choose("query", 2); Vals q; if (hq) { q = {9, 10}; }
    std::unique_ptr<SortedIterator<V>> inner = hq ? std::make_unique<Sort>(f.index, SharedPtrWrapper<RT>(b), mem(q), basc, bnf) : std::make_unique<Sort>(f.index, SharedPtrWrapper<RT>(b), basc, bnf);
    auto it = std::make_unique<Sort>(f.index, SharedPtrWrapper<RT>(a), std::move(inner), aasc, anf);
    std::unique_ptr<SortedIterator<V>> ag; SortedIterator<V> *p = it.get(); if (choose("again", 2)) { ag = it->beginSorted(); p = ag.get(); }
    Vals want, got; for (auto &x : ra.r) if (!hq || has(q, x.v)) want.push_back(x.v); while (!p->isEnd()) { V v; p->next(&v); got.push_back(v); if (got.size() > want.size()) break; }
    same_multiset(got, want, "sorting by two indexes does not return exactly the items");
    auto of = [](const Ref &r, V v) { R x{}; for (auto &w : r.r) if (w.v == v) x = w; return x; };
    for (size_t i = 0; i + 1 < got.size(); ++i) { R x = of(ra, got[i]), y = of(ra, got[i + 1]); CHECK(before(x, y, aasc, anf), "sorting by two indexes: first order violated"); if (x.null == y.null && (x.null || x.k == y.k)) CHECK(before(of(rb, got[i]), of(rb, got[i + 1]), basc, bnf), "sorting by two indexes: second order violated"); }
    sym_cover("sorted");
}
// operations collected by a builder and applied together
HARNESS(range_builder) {
    Fx f(256); unsigned steps = sym_param("steps", 3); auto t = std::make_shared<RT>(f.sp.ms, sym_param("block", 3)); Ref ref; prefill(*t, ref, sym_param("pre", 0), 0); auto b = t->makeBuilder();
    Ref cur = ref; unsigned vm = sym_param("vmax", 3);
    for (unsigned s = 0; s < steps; ++s) { unsigned op = choose("op", 4); bool null = op & 1; K k = null ? 0 : 4 * choose("k", 2); V v = 3 + sym_concretize(sym_range("v", 0, vm - 1)) * 4;
        // an object is removed only while it is there, and added only while it is not
        bool h = cur.hasr(k, v, null); if (op < 2) { if (h) sym_stop(); if (null) b->addNull(v); else b->add(k, v); cur.add(k, v, null); } else { if (!h) sym_stop(); if (null) b->removeNull(v); else b->remove(k, v); cur.del(k, v, null); } CHECK(!b->empty() || cur.r.size() == ref.r.size(), "empty()"); }
    if (choose("close", 2)) { b->close(); content(*t, ref, "closing a builder changes the tree"); return; }
    Vals added, erased; RT::CallbackT ca = [&](V v) { added.push_back(v); }, ce = [&](V v) { erased.push_back(v); }; b->flush(*t, &ca, &ce); CHECK(b->empty(), "flush leaves operations");
    content(*t, cur, "the flushed operations give other contents"); CHECK(ref.r.size() + added.size() - erased.size() == cur.r.size(), "callbacks of flush do not balance"); sym_cover("flushed");
    query(f, t, cur, sym_param("qmask", 0) + 2);
}
