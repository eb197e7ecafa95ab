// Full-text iterators: conjunctions, unions, differences and spans over sorted key sets, against plain sets
#include "env0.h"
#include <dbzero/core/collections/full_text/FT_IndexIterator.hpp>
#include <dbzero/core/collections/full_text/FT_MemoryIndex.hpp>
#include <dbzero/core/collections/full_text/FT_FixedKeyIterator.hpp>
#include <dbzero/core/collections/full_text/FT_ANDIterator.hpp>
#include <dbzero/core/collections/full_text/FT_ORXIterator.hpp>
#include <dbzero/core/collections/full_text/FT_ANDNOTIterator.hpp>
#include <dbzero/core/collections/full_text/FT_SpanIterator.hpp>
#include <dbzero/core/collections/full_text/TagProduct.hpp>
#include <dbzero/core/collections/b_index/mb_index.hpp>
using namespace db0;
typedef uint64_t K; typedef FT_Iterator<K> It; typedef std::unique_ptr<It> P;
// a query tree
struct Q { enum { LEAF, AND, ANDD, OR, ORX, NOT } op = LEAF; std::vector<Q> in; Vals set; unsigned kind = 0; uint64_t addr = 0; };
static uint64_t count_in(const Q &q, K k) { // how many times the key is to be returned
    if (q.op == Q::LEAF) return has(q.set, k); uint64_t c = 0; bool all = true, any = false, first = true, neg = false; uint64_t m = 1;
    for (auto &x : q.in) { uint64_t n = count_in(x, k); bool h = n > 0; c += n; all &= h; any |= h; if (!first) neg |= h; m = sel(n > m, n, m); first = false; }
    switch (q.op) { case Q::AND: return all; case Q::ANDD: return sel(all, m, 0); case Q::OR: return c; case Q::ORX: return any; default: return (count_in(q.in[0], k) > 0) & !neg; }
}
static void keys_of(const Q &q, Vals &v) { if (q.op == Q::LEAF) for (auto k : q.set) v.push_back(k); for (auto &x : q.in) keys_of(x, v); }
static uint64_t next_of(const Q &q, const Vals &all, K from, int dir) { uint64_t r = NONE; for (auto k : all) { bool ok = (count_in(q, k) > 0) & (dir > 0 ? k >= from : k <= from); bool b = ok & ((r == NONE) | (dir > 0 ? k < r : k > r)); r = sel(b, k, r); } return r; }
static Q leaf(unsigned kmax, unsigned most, unsigned kind) { Q q; q.kind = kind; unsigned n = choose("n", most + 1 - (kind == 1)) + (kind == 1); for (unsigned i = 0; i < n; ++i) { K k = sym_range("k", 0, kmax); if (i) ASSUME(k > q.set.back()); q.set.push_back(k); } return q; }
static P make(Heap *sp, const Q &q, int dir, bool lazy = false) {
    if (q.op == Q::LEAF) {
        if (q.kind == 1) return std::make_unique<FT_FixedKeyIterator<K>>(q.set.data(), q.set.data() + q.set.size(), dir);
        if (q.kind == 2) { typedef MorphingBIndex<K> T; T t(sp->ms, bindex::type::empty); if (!q.set.empty()) t.bulkInsertUnique(q.set.begin(), q.set.end()); return std::make_unique<FT_IndexIterator<T, K>>(t, dir); }
        return std::make_unique<FT_IndexIterator<FT_MemoryIndex<K>, K>>(FT_MemoryIndex<K>(q.set.data(), q.set.data() + q.set.size()), dir);
    }
    if (q.op == Q::NOT) { std::vector<P> v; for (auto &x : q.in) v.push_back(make(sp, x, dir)); return std::make_unique<FT_ANDNOTIterator<K>>(std::move(v), dir, lazy); }
    FT_ANDIteratorFactory<K> fa; FT_ANDIteratorFactory<K, false> fd; FT_ORIteratorFactory<K> fo; FT_ORXIteratorFactory<K> fx;
    for (auto &x : q.in) { auto p = make(sp, x, dir); if (q.op == Q::AND) fa.add(std::move(p)); else if (q.op == Q::ANDD) fd.add(std::move(p)); else if (q.op == Q::OR) fo.add(std::move(p)); else fx.add(std::move(p)); }
    return q.op == Q::AND ? fa.release(dir, lazy) : q.op == Q::ANDD ? fd.release(dir, lazy) : q.op == Q::OR ? fo.release(dir, lazy) : fx.release(dir, lazy);
}
static Q tree(unsigned shape, unsigned kmax, unsigned most, unsigned kinds) {
    auto L = [&] { unsigned kd; do kd = kinds & 8 ? choose("kind", 3) : kinds; while (0); return leaf(kmax, most, kd); };
    auto N = [&](int op, std::vector<Q> in) { Q q; q.op = (decltype(q.op))op; q.in = std::move(in); return q; };
    switch (shape) {
    case 0: return N(Q::AND, {L(), L()}); case 1: return N(Q::OR, {L(), L()}); case 2: return N(Q::ORX, {L(), L()}); case 3: return N(Q::NOT, {L(), L()});
    case 4: return N(Q::AND, {L(), L(), L()}); case 5: return N(Q::ORX, {L(), L(), L()}); case 6: return N(Q::NOT, {L(), L(), L()});
    case 7: { auto o = N(Q::ORX, {L(), L()}); return N(Q::AND, {o, L()}); } case 8: { auto o = N(Q::AND, {L(), L()}); return N(Q::NOT, {o, L()}); }
    case 9: { auto o = N(Q::NOT, {L(), L()}); return N(Q::AND, {o, L()}); } case 10: { auto o = N(Q::AND, {L(), L()}); return N(Q::ORX, {o, L()}); }
    case 11: { auto o = N(Q::ORX, {L(), L()}); return N(Q::NOT, {L(), o}); } case 12: { auto o = N(Q::NOT, {L(), L()}); return N(Q::ORX, {L(), o}); }
    case 13: { auto o = N(Q::NOT, {L(), L()}); return N(Q::AND, {L(), o}); } case 14: { auto o = N(Q::OR, {L(), L()}); return N(Q::ANDD, {L(), o}); }
    case 16: return N(Q::NOT, {L(), L(), L(), L()}); case 17: return N(Q::ORX, {L(), L(), L(), L()});
    default: { auto o = N(Q::AND, {L(), L()}); return N(Q::NOT, {L(), o}); } }
}
static void ft(unsigned s0, unsigned s1) {
    Heap sp(128); unsigned shape = s0 + choose("shape", s1 - s0), kmax = sym_param("kmax", 30); Q q = tree(shape, kmax, sym_param("most", 2), sym_param("kinds", 0)); Vals all; keys_of(q, all);
    int dir = choose("dir", 2) ? 1 : -1; bool dup = shape == 1 || shape == 14; unsigned qk = choose("query", 5); if (!(sym_param("qmask", 31) >> qk & 1)) sym_stop();
    auto it = make(&sp, q, dir, qk == 3); if (qk == 3) it = it->beginTyped(dir); auto at = [&] { return it->isEnd() ? NONE : it->getKey(); };
    uint64_t cur = next_of(q, all, dir > 0 ? 0 : NONE - 1, dir); CHECK(at() == cur, "first key of the query");
    if (qk == 0 || qk == 3) { // every key, each as many times as it should be
        Vals got; bool nx = dir < 0 && choose("next", 2); bool sorted = true; uint64_t last = cur;
        while (!it->isEnd()) { K k = it->getKey(); sorted &= dir > 0 ? k >= last : k <= last; last = k; got.push_back(k); CHECK(got.size() <= all.size(), "the query returns too many keys"); if (nx) { K b = 0; it->next(&b); CHECK(b == k, "next() stores another key"); } else if (dir > 0) ++*it; else --*it; }
        CHECK(sorted, "keys are not returned in order"); bool ok = true, no = true; for (auto k : got) { ok &= count_in(q, k) > 0; if (!dup) no &= count_of(got, k) == 1; } for (auto k : all) { uint64_t c = count_in(q, k); ok &= (uint64_t)count_of(got, k) == c; }
        CHECK(no, "a key is returned twice"); CHECK(ok, "the query returns other keys than the sets determine"); sym_cover("iterate");
    } else if (qk == 1) { // joins and steps
        for (unsigned j = 0; j < sym_param("joins", 2) && !it->isEnd(); ++j) {
            if (choose("jop", 2)) { K k = sym_range("j", 0, kmax + 1); ASSUME(dir > 0 ? k >= cur : k <= cur); bool r = it->join(k, dir); cur = next_of(q, all, k, dir); CHECK(r == (cur != NONE), "join: result"); sym_cover("join"); }
            else { if (dup) sym_stop(); if (dir > 0) ++*it; else --*it; cur = dir < 0 && cur == 0 ? NONE : next_of(q, all, dir > 0 ? cur + 1 : cur - 1, dir); sym_cover("step"); }
            CHECK(at() == cur, "position");
        }
    } else if (qk == 2) { // look ahead without moving
        bool no = shape == 3 || shape == 6 || shape == 8 || shape == 9 || shape > 10; if (no || dir > 0 || it->isEnd()) sym_stop();
        K k = sym_range("j", 0, kmax + 1); ASSUME(k <= cur); auto p = it->peek(k); uint64_t w = next_of(q, all, k, dir); CHECK(p.second == (w != NONE), "peek: result"); if (p.second) CHECK(p.first == w, "peek: key"); CHECK(at() == cur, "peek moves the iterator"); sym_cover("peek");
    } else { // restart from the middle, in either direction; the signature of a query does not depend on its position
        if (!it->isEnd()) { if (dir > 0) ++*it; else --*it; } int d = choose("dir2", 2) ? 1 : -1; auto uid = it->getUID(); it = it->beginTyped(d); CHECK(it->getUID() == uid, "a restarted query has another identifier"); CHECK(at() == next_of(q, all, d > 0 ? 0 : NONE - 1, d), "restarted query"); sym_cover("restart");
    }
    sym_cover("end");
}
HARNESS(ft_pairs) { ft(0, 4); }
HARNESS(ft_triples) { ft(4, 7); }
HARNESS(ft_quads) { ft(16, 18); }
HARNESS(ft_nested) { ft(7, 16); }
// candidates of modified pages: an AND of a query with the spans of the pages
HARNESS(ft_span) {
    typedef UniqueAddress U; unsigned sh = 3, kmax = sym_param("kmax", 63), most = sym_param("most", 3); std::vector<U> set; unsigned m = 1 + choose("n", most), n = 1 + choose("pages", 3); Vals pg; auto num = [](U u) { return u.getValue(); };
    for (unsigned i = 0; i < m; ++i) { U u(Address::fromOffset(sym_range("k", 0, kmax)), (uint16_t)sym_range("id", 1, 3)); if (i) ASSUME(num(set.back()) < num(u)); set.push_back(u); }
    for (unsigned i = 0; i < n; ++i) { uint64_t p = sym_range("page", 0, kmax >> sh); for (auto x : pg) ASSUME(x != p); pg.push_back(p); } std::vector<U> bound; for (auto p : pg) bound.push_back(U(Address::fromOffset(((p + 1) << sh) - 1), UniqueAddress::INSTANCE_ID_MAX));
    auto query = [&] { return std::make_unique<FT_FixedKeyIterator<U>>(set.data(), set.data() + m); };
    auto span = std::make_unique<FT_SpanIterator<U>>(std::make_unique<FT_FixedKeyIterator<U>>(bound.data(), bound.data() + n), sh); FT_ANDIteratorFactory<U> f; if (choose("order", 2)) { f.add(query()); f.add(std::move(span)); } else { f.add(std::move(span)); f.add(query()); }
    auto it = f.release(-1); if (choose("begin", 2)) it = it->beginTyped(-1); Vals got; bool nx = choose("next", 2); while (!it->isEnd()) { got.push_back(num(it->getKey())); CHECK(got.size() <= m, "too many keys"); if (nx) { U b; it->next(&b); CHECK(num(b) == got.back(), "next() stores another key"); } else --*it; }
    bool ok = true; Vals sv; for (auto k : set) { sv.push_back(num(k)); bool in = false; for (auto p : pg) in |= p == k.getOffset() >> sh; ok &= (uint64_t)count_of(got, num(k)) == (uint64_t)in; } CHECK(ok, "keys within the spans"); for (auto k : got) ok &= has(sv, k); CHECK(ok, "a foreign key"); for (size_t i = 1; i < got.size(); ++i) ok &= got[i] < got[i - 1]; CHECK(ok, "order"); sym_cover("end");
}
// join of object sets by common tags
HARNESS(ft_product) {
    unsigned kmax = sym_param("kmax", 12), most = sym_param("most", 2); std::vector<Q> obj{leaf(kmax, most, 0), leaf(kmax, most, 0)}; unsigned nt = choose("tags", 3); std::vector<Q> tag; std::vector<bool> have; Q tags; for (unsigned i = 0; i < nt; ++i) { tag.push_back(leaf(kmax, most, 0)); have.push_back(choose("have", 2)); tags.set.push_back(10 + i); }
    std::vector<P> sets; for (auto &o : obj) sets.push_back(make(nullptr, o, -1));
    auto p = std::make_unique<TagProduct<K>>(std::move(sets), make(nullptr, tags, -1), [&](K t, int dir) -> P { CHECK(t >= 10 && t < 10 + nt, "unknown tag"); if (!have[t - 10]) return nullptr; return make(nullptr, tag[t - 10], dir); });
    if (choose("begin", 2)) p = p->begin(); CHECK(p->getDimension() == 2, "dimension"); std::vector<std::pair<K, K>> got; while (!p->isEnd()) { TP_Vector<K> v; p->next(&v); CHECK(v.size() == 2, "size of a row"); got.push_back({v[0], v[1]}); CHECK(got.size() <= nt * obj[0].set.size() * obj[1].set.size(), "too many rows"); }
    bool ok = true; uint64_t total = 0; for (auto x : obj[0].set) for (auto y : obj[1].set) { uint64_t c = 0, g = 0; for (unsigned i = 0; i < nt; ++i) if (have[i]) c += has(tag[i].set, x) & has(tag[i].set, y); for (auto &r : got) g += (r.first == x) & (r.second == y); ok &= c == g; total += c; } CHECK(ok, "rows of the join"); CHECK(total == got.size(), "foreign rows"); sym_cover("end");
}
