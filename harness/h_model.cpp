// Member values of stored objects: value tables, the buffer of values under construction, the key-value index.
#include "env0.h"
#include <dbzero/object_model/object/ValueTable.cpp>
#include <dbzero/object_model/object/XValuesVector.cpp>
#include <dbzero/object_model/value/XValue.cpp>
#include <dbzero/object_model/value/StorageClass.cpp>
#include <dbzero/object_model/object/KV_Index.cpp>
#include <dbzero/object_model/object/lofi_store.hpp>
#include <dbzero/object_model/object/ObjectInitializer.cpp>
using namespace db0; using namespace db0::object_model;
using B = std::byte; using Got = std::pair<StorageClass, Value>; using L2 = lofi_store<2>;
static StorageClass cls() { return (StorageClass)sym_range("class", 4, 40); }
static bool eq(const Got &g, StorageClass c, uint64_t v) { return (g.first == c) & (g.second.m_store == v); }
// values collected while an object is constructed; indexes 0 and 3 hold packed 2-bit values, others whole ones
HARNESS(model_values) {
    XValuesVector v(sym_param("threshold", 3)); unsigned steps = sym_param("steps", 4); struct E { bool has = false; StorageClass c = StorageClass::UNDEFINED; uint64_t store = 0; } ref[5]; unsigned idx[] = { 0, 1, 3, 4 };
    unsigned NI = sym_param("indexes", 3), NS = sym_param("slots", 2); auto slot = [&]() { unsigned s = choose("slot", NS); return s == 1 ? L2::size() - 1 : s; };
    auto look = [&](bool all) { for (unsigned i : { 0u, 1u, 2u, 3u, 4u }) { Got g; bool f = v.tryGetAt(i, g); CHECK(f == ref[i].has, "a value is found exactly when it was set"); if (f) CHECK(eq(g, ref[i].c, ref[i].store), "the value read is the last one set"); } };
    for (unsigned k = 0; k < steps; ++k) {
        if (sym_param("midlook", 1)) look(false);
        switch (choose("op", 3)) {
        case 0: { unsigned i = idx[choose("index", NI)]; auto &r = ref[i]; if (i == 0 || i == 3) { unsigned s = slot(); uint64_t x = sym_range("v", 0, 3); v.push_back({ i, StorageClass::PACK_2, L2::create(s, x) }, L2::mask(s)); if (!r.has) r.store = 0; L2::fromValue(r.store).set(s, x); r.c = StorageClass::PACK_2; sym_cover("set packed"); }
                  else { r.c = cls(); ASSUME(r.c != StorageClass::PACK_2); r.store = sym_u64("v"); v.push_back({ i, r.c, r.store }); sym_cover("set"); } r.has = true; break; }
        case 1: { unsigned i = idx[choose("index", NI)]; auto &r = ref[i]; bool exp; if (i == 0 || i == 3) { unsigned s = slot(); exp = r.has && L2::fromValue(r.store).isSet(s); if (exp) { L2::fromValue(r.store).reset(s); if (!r.store) r.has = false; } CHECK(v.remove(i, L2::mask(s)) == exp, "removing a packed value"); sym_cover("remove packed"); } else { exp = r.has; r.has = false; CHECK(v.remove(i) == exp, "removing a value"); sym_cover("remove"); } break; }
        default: v.sortAndMerge(); sym_cover("merge");
        }
    }
    look(true); v.sortAndMerge(); look(true); size_t n = 0; for (auto &r : ref) n += r.has; CHECK(v.size() == n, "one entry per index after merging"); bool ord = true; for (size_t i = 1; i < v.size(); ++i) ord &= v[i - 1].getIndex() < v[i].getIndex(); CHECK(ord, "entries in index order");
    if (choose("clear", 2)) { v.clear(); Got g; CHECK(v.empty() && !v.tryGetAt(1, g) && !v.tryGetAt(0, g), "cleared"); v.push_back({ 1, StorageClass::INT64, Value((uint64_t)7) }); CHECK(v.tryGetAt(1, g) && eq(g, StorageClass::INT64, 7), "set after clear"); }
}
HARNESS(model_pos_table) {
    bool big = choose("big", 2); unsigned n = choose("n", big ? 2 : 4), off = big ? 300 * choose("offset", 2) : sym_u32("offset") & 0xffffff; PosVT::Data d; for (unsigned i = 0; i < n; ++i) { d.m_types.push_back(cls()); d.m_values.push_back(sym_u64("v")); } if (big) for (unsigned i = n; i < 129; ++i) { d.m_types.push_back(StorageClass::INT64); d.m_values.push_back((uint64_t)i); }
    size_t m = sym_concretize(PosVT::measure(d, off)); std::vector<B> b(m + 16, (B)0xA5), c = b; auto &t = PosVT::__new(b.data(), d, off); auto &u = PosVT::__new(c.data(), d, off); auto N = d.size();
    auto guard = [&]() { bool ok = true; for (size_t i = m; i < m + 16; ++i) ok &= b[i] == (B)0xA5; CHECK(ok, "bytes outside of the table were written"); }; guard();
    CHECK(t.sizeOf() == m && t.size() == N && t.types().offset() == off, "size and offset"); CHECK(t == u, "equal tables");
    if (n) { unsigned p = choose("pos", n); d.m_types[p] = cls(); d.m_values[p] = sym_u64("v"); t.set(p, d.m_types[p], d.m_values[p]); guard(); if (!big) CHECK((t == u) == (u.types()[p] == d.m_types[p] && u.values()[p] == d.m_values[p]), "equality tells changed tables apart"); sym_cover("set"); }
    bool ok = true; for (size_t i = 0; i < N; ++i) { ok &= t.types()[i] == d.m_types[i]; ok &= t.values()[i] == d.m_values[i]; } CHECK(ok, "all values"); unsigned q = sym_u32("q"), pos = 0; Got g; bool in = q >= off && (uint64_t)q < (uint64_t)off + N; CHECK(t.find(q, pos) == in, "a member is found exactly when its index is in the table");
    if (in) { pos = sym_concretize(pos); CHECK(pos == q - off, "position"); CHECK(t.find(q, g) && eq(g, d.m_types[pos], d.m_values[pos].m_store), "value of the member"); sym_cover("found"); } else CHECK(!t.find(q, g), "not found");
}
HARNESS(model_index_table) {
    unsigned n = choose("n", 1 + sym_param("most", 4)); std::vector<XValue> d; uint32_t last = 0; for (unsigned i = 0; i < n; ++i) { uint32_t x = sym_u32("index") & 0xffffff; if (i) ASSUME(x > last); last = x; d.push_back({ x, cls(), Value(sym_u64("v")) }); CHECK(d[i].getIndex() == x, "24-bit index"); }
    const XValue *p = d.data(); size_t m = IndexVT::measure(p, p + n); std::vector<B> b(m + 16, (B)0xA5), c = b; auto &t = IndexVT::__new(b.data(), p, p + n); auto &u = IndexVT::__new(c.data(), p, p + n); CHECK(t.sizeOf() == m && t == u, "size"); if (n) { unsigned k = choose("pos", n); d[k].m_type = cls(); d[k].m_value = sym_u64("v"); t.set(k, d[k].m_type, d[k].m_value); }
    bool ok = true; for (size_t i = m; i < m + 16; ++i) ok &= b[i] == (B)0xA5; CHECK(ok, "bytes outside of the table were written"); uint32_t q = sym_u32("q") & 0xffffff; int at = -1; for (unsigned i = 0; i < n; ++i) if (d[i].getIndex() == q) { at = i; break; } Got g; unsigned pos = 99; bool f = t.find(q, pos); CHECK(f == (at >= 0) && t.find(q, g) == f, "a member is found exactly when it is in the table"); if (f) { CHECK(pos == (unsigned)at && eq(g, d[at].m_type, d[at].m_value.m_store), "value of the member"); sym_cover("found"); } else sym_cover("missing");
}
HARNESS(model_kv_index) {
    Heap h(256); unsigned steps = sym_param("steps", 3), pre = sym_param("pre", 0); struct M { std::vector<XValue> v; int at(uint32_t i) { for (size_t k = 0; k < v.size(); ++k) if (v[k].getIndex() == i) return k; return -1; } } ref; std::unique_ptr<KV_Index> x;
    auto ms = [&]() -> Memspace & { return h.ms; }; auto idx = [&]() { return (uint32_t)sym_range("index", pre ? 99 : 1, pre ? 101 + pre : sym_param("imax", 8)); }; auto mk = [&](uint32_t i) { return XValue(i, cls(), Value(sym_u64("v"))); };
    auto ins = [&](XValue v) { if (!x) x = std::make_unique<KV_Index>(ms(), v); else x->insert(v); ref.v.push_back(v); }; for (unsigned i = 0; i < pre; ++i) ins(XValue(100 + i, StorageClass::INT64, Value((uint64_t)i)));
    for (unsigned k = 0; k < steps; ++k) switch (choose("op", 4)) {
        case 0: { auto v = mk(idx()); ASSUME(ref.at(v.getIndex()) < 0); ins(v); sym_cover("insert"); break; }
        case 1: { if (!x) break; auto v = mk(idx()); int at = ref.at(v.getIndex()); XValue old; CHECK(x->updateExisting(v, &old) == (at >= 0), "update finds the member exactly when it is there"); if (at >= 0) { CHECK(old.equalTo(ref.v[at]), "the previous value is reported"); ref.v[at] = v; sym_cover("update"); } break; }
        case 2: { if (!x) break; XValue v(idx()); int at = ref.at(v.getIndex()); if (at < 0) break; x->erase(v); ref.v.erase(ref.v.begin() + at); sym_cover("erase"); break; }
        default: { if (!x) break; auto a = x->getAddress(); auto t = x->getIndexType(); x = std::make_unique<KV_Index>(std::make_pair(&ms(), a), t); sym_cover("reopen"); }
    }
    if (!x) return; XValue q(idx()); int at = ref.at(q.getIndex()); bool f = x->findOne(q); CHECK(f == (at >= 0), "a member is found exactly when it is there"); if (f) CHECK(q.equalTo(ref.v[at]), "value of the member");
    size_t n = 0; bool ord = true, all = true; uint32_t last = 0; for (auto it = x->beginJoin(1); !it.is_end(); ++it) { auto v = *it; ord &= n == 0 || last < v.getIndex(); last = v.getIndex(); bool hit = false; for (auto &r : ref.v) hit |= r.equalTo(v); all &= hit; ++n; if (n > ref.v.size()) break; } CHECK(n == ref.v.size() && ord && all, "iteration yields every member once");
    auto a = x->getAddress(); KV_Index y(std::make_pair(&ms(), a), x->getIndexType()); CHECK(*x == y, "an index equals itself"); x->destroy(); h.no_leak("destroy frees everything");
}
// the values of a new object, split into the position table and the index table
HARNESS(model_initializer) {
    ObjectInitializerManager m; struct Dummy {} obj; ObjectInitializer oi(m, 0, obj, ObjectInitializer::TypeInitializer()); unsigned n = choose("n", sym_param("most", 3)) + 1, imax = sym_param("imax", 12), steps = sym_param("steps", 2);
    struct E { StorageClass c; uint64_t v; }; std::map<uint32_t, E> ref; uint32_t last = 0; auto put = [&](uint32_t i, unsigned slot, StorageClass c, uint64_t x, bool packed) { if (packed) { oi.set({ i, slot }, StorageClass::PACK_2, L2::create(slot, x), L2::mask(slot)); auto &r = ref[i]; r.c = StorageClass::PACK_2; L2::fromValue(r.v).set(slot, x); } else { oi.set({ i, 0 }, c, Value(x)); ref[i] = { c, x }; } };
    bool packed0 = choose("packed0", 2); uint32_t i0 = 0; for (unsigned k = 0; k < n; ++k) { uint32_t i = sym_concretize(sym_range("index", 0, imax)); if (k) ASSUME(i > last); else i0 = i; last = i; put(i, 3, StorageClass::INT64, k == 0 && packed0 ? sym_range("v", 0, 3) : sym_u64("v"), k == 0 && packed0); }
    for (unsigned k = 0; k < steps; ++k) switch (choose("op", 3)) {
        case 0: put(i0, packed0 ? choose("slot", 2) * 3 : 0, StorageClass::FP_NUMERIC64, packed0 ? sym_range("v", 0, 3) : sym_u64("v"), packed0); sym_cover("set"); break;
        case 1: { unsigned s = packed0 ? 3 * choose("slot", 2) : 0; bool had = ref.count(i0) && (!packed0 || L2::fromValue(ref[i0].v).isSet(s)); CHECK(oi.remove({ i0, s }, packed0 ? L2::mask(s) : 0) == had, "remove"); if (had) { if (packed0) L2::fromValue(ref[i0].v).reset(s); if (!packed0 || !ref[i0].v) ref.erase(i0); } sym_cover("remove"); break; }
        default: { Got g; unsigned s = packed0 ? 3 : 0; bool had = ref.count(i0) && (!packed0 || L2::fromValue(ref[i0].v).isSet(s)); CHECK(oi.tryGetAt({ i0, s }, g) == had, "a value is found exactly when it was set"); if (had) CHECK(eq(g, ref[i0].c, ref[i0].v), "value"); } }
    PosVT::Data d; unsigned off = 0; auto r = oi.getData(d, off); CHECK(d.m_types.size() == d.m_values.size(), "table columns"); size_t seen = 0; bool ok = true; for (size_t k = 0; k < d.size(); ++k) { auto it = ref.find(off + k); if (it == ref.end()) ok &= d.m_types[k] == StorageClass::UNDEFINED; else { ok &= (d.m_types[k] == it->second.c) & (d.m_values[k].m_store == it->second.v); ++seen; } } CHECK(ok, "the position table holds the values at their positions");
    uint32_t prev = 0; for (auto p = r.first; p != r.second; ++p) { auto it = ref.find(p->getIndex()); CHECK(it != ref.end() && p->m_type == it->second.c && p->m_value.m_store == it->second.v, "the index table holds the remaining values"); CHECK(p->getIndex() >= off + d.size() && (p == r.first || p->getIndex() > prev), "in order"); prev = p->getIndex(); ++seen; } CHECK(seen == ref.size(), "every value is stored once"); if (r.first != r.second) sym_cover("index table"); if (d.size()) sym_cover("position table");
}
