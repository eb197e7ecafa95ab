// Tag index: pending tag changes collected in a batch and flushed into inverted lists, against a plain table; string pool with reference counts.
#include "env0.h"
#include <dbzero/core/collections/full_text/FT_BaseIndex.hpp>
#include <dbzero/core/collections/pools/StringPools.hpp>
#include <dbzero/core/memory/VObjectCache.hpp>
using namespace db0;
template <typename TagT> struct Tags {
    typedef FT_BaseIndex<TagT> T; typedef typename T::ActiveValueT Active; static TagT tag(unsigned t);
    Heap &sp; FixedObjectList list; std::unique_ptr<VObjectCache> cache; std::unique_ptr<T> ix; Address addr; std::shared_ptr<typename T::BatchOperation> op;
    unsigned nt, no; uint64_t o0; bool disk[24][40] = {}, mem[24][40] = {}; UniqueAddress late[40]; bool dirty = false, list_of[24] = {};
    void note(TagT g, bool on) { for (unsigned t = 0; t < nt; ++t) if (tag(t) == g) { CHECK(list_of[t] != on, "a tag list was announced twice"); list_of[t] = on; return; } sym_fail("a list of an unknown tag was announced"); }
    Tags(Heap &sp, unsigned nt, unsigned no, unsigned cap, uint64_t o0) : sp(sp), list(cap), cache(new VObjectCache(sp.ms, list)), ix(new T(sp.ms, *cache)), addr(ix->getAddress()), nt(nt), no(no), o0(o0) {}
    uint16_t id0 = 1; UniqueAddress obj(unsigned o) { return UniqueAddress(Address::fromOffset(o0 + o * 16), o ? 1 + o % 3 : id0); }
    typename T::BatchOperation &batch() { if (!op) op = ix->getBatchOperation(); return *op; }
    Active ref(unsigned o, bool l) { return l ? Active{ UniqueAddress(), &late[o] } : Active{ obj(o), nullptr }; }
    void add(unsigned t, unsigned o, bool l) { batch().addTag(ref(o, l), tag(t)); mem[t][o] = true; dirty = true; }
    void remove(unsigned t, unsigned o, bool l) { batch().removeTag(ref(o, l), tag(t)); mem[t][o] = false; dirty = true; }
    void flush() {
        for (unsigned o = 0; o < no; ++o) late[o] = obj(o);
        unsigned added = 0, erased = 0; std::function<void(UniqueAddress)> fa = [&](UniqueAddress) { ++added; }, fe = [&](UniqueAddress) { ++erased; }; std::function<void(TagT)> la = [&](TagT g) { note(g, true); }, le = [&](TagT g) { note(g, false); };
        batch().flush(&fa, &fe, &la, &le); CHECK(batch().empty(), "changes remain after a flush"); unsigned ea = 0, ee = 0;
        for (unsigned t = 0; t < nt; ++t) { bool was = false, is = false; for (unsigned o = 0; o < no; ++o) { was |= disk[t][o]; is |= mem[t][o]; ea += mem[t][o] & !disk[t][o]; ee += disk[t][o] & !mem[t][o]; disk[t][o] = mem[t][o]; } CHECK(!is || list_of[t], "a tag list came without a notice"); CHECK(was || is || !list_of[t], "a tag list was announced without objects"); }
        CHECK(added == ea, "number of tags reported as added"); CHECK(erased == ee, "number of tags reported as removed"); dirty = false;
    }
    void drop() { if (op) op->clear(); for (unsigned t = 0; t < nt; ++t) for (unsigned o = 0; o < no; ++o) mem[t][o] = disk[t][o]; dirty = false; }
    void reopen() { op = nullptr; ix = nullptr; cache = nullptr; list.clear(); cache.reset(new VObjectCache(sp.ms, list)); ix.reset(new T(mptr(sp.ms, addr), *cache)); }
    void verify() { // of the flushed state
        for (unsigned t = 0; t < nt; ++t) {
            auto it = ix->makeIterator(tag(t), 1); unsigned n = 0; for (unsigned o = 0; o < no; ++o) n += disk[t][o]; CHECK(!!it == list_of[t], "a tag list exists exactly if it was announced"); CHECK(it || !n, "the objects of a tag cannot be found"); if (!it) continue;
            for (unsigned o = 0; o < no; ++o) if (disk[t][o]) { CHECK(!it->isEnd(), "an object is missing from its tag"); CHECK(it->getKey() == obj(o), "objects of a tag"); ++*it; }
            CHECK(it->isEnd(), "a tag returns an object which does not have it");
        }
    }
};
template <> uint64_t Tags<uint64_t>::tag(unsigned t) { return 100 + t * 7; }
template <> LongTagT Tags<LongTagT>::tag(unsigned t) { return LongTagT(100 + t / 2 * 7, 50 + (t & 1)); }
template <typename TagT> static void tags() {
    unsigned nt = sym_param("tags", 2), no = sym_param("objects", 2), steps = sym_param("steps", 4), pre = sym_param("pre", 0), cap = sym_param("cache", 8); bool lazy = sym_param("late", 0);
    Heap sp(sym_param("page", 256)); Tags<TagT> x(sp, nt, no + pre, cap, sym_param("first", 4096));
    // storage whose addresses may coincide with the values of object identities
    if (auto b = sym_param("base", 0)) { sp.al->next = b; x.id0 = sym_range("instance id", 1, 16383); }
    if (pre) { for (unsigned o = no; o < no + pre; ++o) for (unsigned t = 0; t < nt; ++t) if (t == 0 || (o & 1)) x.add(t, o, false); x.flush(); }
    uint64_t ops = sym_param("ops", 31);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = choose("op", 6); if (!(ops >> op & 1)) sym_stop();
        if (op < 2) { unsigned t = choose("tag", nt), o = choose("object", no + (pre > 0)); bool l = lazy && o == 0 && !x.late[0].isValid(); op == 0 ? x.add(t, o, l) : x.remove(t, o, l); }
        else if (op == 2) { if (!x.dirty) sym_stop(); x.flush(); }
        else if (op == 3) { if (x.dirty) x.flush(); x.reopen(); }
        else if (op == 4) { if (!x.dirty) sym_stop(); x.drop(); }
        else { // one tag for a range of objects, or one object under a range of tags
            unsigned n = no + pre, a, b; if (nt > 4) { n = nt; } a = choose("from", n); b = a + 1 + choose("count", n - a); bool on = choose("on", 2);
            for (unsigned i = a; i < b; ++i) { unsigned t = nt > 4 ? i : 0, o = nt > 4 ? 0 : i; on ? x.add(t, o, false) : x.remove(t, o, false); }
        }
    }
    if (x.dirty) x.flush(); x.verify(); x.op = nullptr; x.reopen(); x.verify(); sym_cover("done");
    sym_observe("live", sp.al->live.size());
}
HARNESS(tags_short) { tags<uint64_t>(); }
HARNESS(tags_long) { tags<LongTagT>(); }
// names kept once, with a reference count each
HARNESS(pool_strings) {
    typedef pools::RC_LimitedStringPool P; Heap sp, items; unsigned steps = sym_param("steps", 4), len = sym_param("len", 2);
    auto p = std::make_unique<P>(items.ms, sp.ms); auto addr = p->getAddress(); struct E { std::string s; P::PtrT ptr; unsigned n; }; std::vector<E> ref;
    auto find = [&](const std::string &s) -> E * { for (auto &e : ref) if (e.s == s) return &e; return nullptr; };
    for (unsigned i = 0, n = sym_param("pre", 0); i < n; ++i) { std::string s(1, 'a' + i * 3); ref.push_back({ s, p->addRef(s), 1 }); }
    for (unsigned k = 0; k < steps; ++k) {
        unsigned op = choose("op", 5);
        if (op < 3 || op == 4) {
            std::string s(choose("len", len + 1), 0); for (auto &c : s) c = sym_range("char", 'a', 'd'); auto e = find(s);
            if (op == 4) { auto q = p->get(s); CHECK(!!q == !!e, "looking up a name"); if (e) CHECK(q == e->ptr, "looking up a name: its id"); continue; }
            bool inc = op == 1; auto q = op == 0 ? p->addRef(s) : p->add(inc, s); CHECK(q, "a name without an id");
            if (op) CHECK(inc == (op == 1 || !e), "whether a reference was added");
            if (e) { CHECK(q == e->ptr, "a name changed its id"); e->n += op < 2; } else { for (auto &o : ref) CHECK(o.ptr != q, "two names share an id"); ref.push_back({ s, q, 1 }); }
        } else { if (ref.empty()) sym_stop(); unsigned i = choose("which", ref.size()); auto &e = ref[i]; if (choose("unref", 2)) { p->unRef(e.ptr); if (!--e.n) ref.erase(ref.begin() + i); } else { p->addRefByAddr(e.ptr.m_value); ++e.n; } }
        CHECK(p->size() == ref.size(), "number of names"); for (auto &e : ref) { CHECK(p->fetch(e.ptr) == e.s, "text of a name"); auto q = p->get(e.s); CHECK(q && q == e.ptr, "id of a name"); }
    }
    p = nullptr; p.reset(new P(items.ms, mptr(sp.ms, addr))); for (auto &e : ref) { CHECK(p->fetch(e.ptr) == e.s, "text of a name after reopening"); CHECK(p->get(e.s) == e.ptr, "id of a name after reopening"); }
    while (!ref.empty()) { auto &e = ref.back(); p->unRef(e.ptr); if (!--e.n) ref.pop_back(); } CHECK(p->size() == 0, "names without references remain"); items.no_leak("a dropped name keeps its memory"); sym_cover("done");
}
