// Allocators: no two live allocations overlap, sizes are exact, freed space comes back, unique addresses never repeat.
// Reference model: the list of live blocks.
#include "sym.h"
#include <dbzero/core/memory/MetaAllocator.hpp>
#include <dbzero/core/memory/SlabAllocator.hpp>
#include <dbzero/core/memory/SlabManager.hpp>
#include <dbzero/core/memory/Recycler.hpp>
#include <dbzero/core/memory/CacheRecycler.hpp>
#include <dbzero/core/memory/PrefixImpl.hpp>
#include <dbzero/core/memory/OneShotAllocator.hpp>
#include <dbzero/core/memory/SlotAllocator.hpp>
#include <dbzero/core/memory/BitSpace.hpp>
#include <dbzero/core/crdt/CRDT_Allocator.hpp>
#include <dbzero/core/storage/Storage0.hpp>
#include <dbzero/core/utils/base32.hpp>
#include <vector>
#include <set>
#include <cstring>
#include <map>
using namespace db0;
static const size_t PG = 4096;
struct Env {
    std::atomic<std::size_t> dirty{0}; CacheRecycler rec; std::shared_ptr<Prefix> px;
    Env(size_t pg = PG) : rec(4u << 20, dirty) { px = std::shared_ptr<PrefixImpl>(new PrefixImpl("", dirty, rec, std::make_shared<Storage0>(pg))); }
    ~Env() { px->close(); rec.clear(); }
};
struct Blk { uint64_t a; size_t n; };
typedef std::vector<Blk> Live;
static bool disjoint(const Live &l, uint64_t a, size_t n) { for (auto &b : l) if (a < b.a + b.n && b.a < a + n) return false; return true; }
static const size_t SIZES[] = { 8, 24, 1, 4096, 4097, 100, 8192, 12300, 2000, 64, 4095, 33 };
static const unsigned NS = 12;
// ---- CRDT allocator with symbolic sizes over a small address space ----
struct Crdt {
    Env e; BitSpace<0x8000> bs; std::unique_ptr<CRDT_Allocator::AllocSetT> al; std::unique_ptr<CRDT_Allocator::BlankSetT> bl; std::unique_ptr<CRDT_Allocator::AlignedBlankSetT> ab; std::unique_ptr<CRDT_Allocator::StripeSetT> st;
    std::unique_ptr<CRDT_Allocator> a; size_t total; size_t pg;
    static std::shared_ptr<Prefix> mk(Env &e) { BitSpace<0x8000>::create(e.px, Address::fromOffset(0), PG); return e.px; }
    Crdt(size_t total, size_t pg) : bs(mk(e), Address::fromOffset(0), PG), total(total), pg(pg) {
        using C = CRDT_Allocator::AlignedBlankSetT::CompT;
        al = std::make_unique<CRDT_Allocator::AllocSetT>(bs, PG); bl = std::make_unique<CRDT_Allocator::BlankSetT>(bs, PG);
        ab = std::make_unique<CRDT_Allocator::AlignedBlankSetT>(bs, PG, C(pg), pg); st = std::make_unique<CRDT_Allocator::StripeSetT>(bs, PG);
        CRDT_Allocator::insertBlank(*bl, *ab, { (uint32_t)total, 0 }, pg);
        a = std::make_unique<CRDT_Allocator>(*al, *bl, *ab, *st, total, pg);
    }
};
// every live block: exact size, allocated; addresses inside a block but not at a unit start are not allocated
static void crdt_state(CRDT_Allocator &a, Live &l) {
    for (auto &b : l) { size_t n = 0; CHECK(a.isAllocated(b.a, &n), "a live block is reported as not allocated"); CHECK(n == b.n, "reported size of a live block"); CHECK(a.getAllocSize(b.a) == b.n, "size of a live block"); }
}
HARNESS(alloc_crdt) {
    size_t total = sym_param("total", 600), pg = sym_param("pg", 32);
    Crdt c(total, pg); Live live; unsigned K = sym_param("steps", 4); bool conc = sym_param("conc", 0);
    unsigned pre = sym_param("pre", 0); size_t psz = sym_param("psz", 3);
    for (unsigned i = 0; i < pre; ++i) { auto r = c.a->tryAlloc(psz, false); if (!r) break; CHECK(disjoint(live, *r, psz), "two live allocations overlap"); live.push_back({ *r, psz }); }
    for (unsigned s = 0; s < K; ++s) {
        unsigned op = choose("op", live.empty() ? 2 : 4);
        if (op < 2) {
            size_t lo = op ? pg + 1 : 1, hi = op ? 3 * pg + 1 : sym_param("max", 40);
            size_t n = conc ? sym_concretize(sym_range("size", lo, hi)) : sym_range("size", lo, hi);
            auto r = c.a->tryAlloc(n, op == 1);
            if (r) {
                CHECK(*r + n <= total, "an allocation lies outside the address space"); CHECK(disjoint(live, *r, n), "two live allocations overlap");
                if (op == 1) CHECK(*r % pg == 0, "a page-aligned allocation is not aligned");
                live.push_back({ *r, n }); sym_cover(op ? "aligned" : "alloc");
            } else { sym_cover("full"); CHECK(!live.empty(), "an empty allocator refuses a small block"); }
        } else if (op == 2) {
            unsigned i = choose("which", live.size()); c.a->free(live[i].a); 
            auto b = live[i]; live.erase(live.begin() + i); sym_cover("free");
            CHECK(!c.a->isAllocated(b.a), "a freed block is still reported as allocated");
        } else { c.a->commit(); auto a2 = std::make_unique<CRDT_Allocator>(*c.al, *c.bl, *c.ab, *c.st, total, pg); c.a = std::move(a2); sym_cover("reopen"); }
        crdt_state(*c.a, live);
    }
    if (sym_param("drain", 1)) {
        bool rev = choose("order", 2);
        while (!live.empty()) { unsigned i = rev ? live.size() - 1 : 0; c.a->free(live[i].a); live.erase(live.begin() + i); crdt_state(*c.a, live); }
        CHECK(c.al->empty(), "all blocks freed but allocations remain"); CHECK(c.st->empty(), "all blocks freed but stripes remain");
        CHECK(c.bl->size() == 1 && c.bl->find_max().first->m_size == total, "all blocks freed but the space is not whole again");
        size_t expect = (total > pg && total < pg * CRDT_Allocator::ALIGNED_INDEX_THRESHOLD) ? 1 : 0;
        CHECK(c.ab->size() == expect, "all blocks freed but the index of aligned blanks is wrong");
        auto r = c.a->tryAlloc(total, false); CHECK(r && *r == 0, "all blocks freed but the whole space cannot be allocated"); 
    }
    sym_cover("end");
}
// one step on an allocation group of any size and fill state
HARNESS(alloc_group) {
    static const uint32_t U[4] = { 56, 24, 8, 1 }, STR[8] = { 1, 2, 3, 8, 100, 4095, 4097, 1 << 20 };
    uint32_t n = U[choose("units", 4)], stride = STR[choose("stride", 8)], addr = sym_range("addr", 0, 1u << 25);
    CRDT_Allocator::Alloc x(addr, stride, n, sym_bool("stripe"));
    uint64_t bits = sym_u64("bits") & ((n == 64 ? 0 : (1ull << n)) - 1); x.m_fill_map.m_data |= bits;
    CHECK(x.getUnitCount() == n && x.size() == stride * n && x.endAddr() == addr + n * stride, "size of an allocation group");
    CHECK(x.empty() == (bits == 0), "empty()"); CHECK(x.isFull() == (bits == (1ull << n) - 1), "isFull()");
    uint32_t q = sym_range("query", 0, 55); ASSUME(q < n);
    CHECK(x.isAllocated(addr + q * stride) == (bool)(bits >> q & 1), "isAllocated of a unit");
    if (stride > 1) CHECK(!x.isAllocated(addr + q * stride + 1), "an address inside a unit is not an allocation");
    unsigned op = choose("op", 3);
    if (op == 0) { // allocate
        std::optional<uint32_t> bound; if (choose("bounded", 2)) bound = sym_range("bound", 0, 1u << 27);
        auto before = x.m_fill_map.m_data; auto r = x.tryAllocUnit(bound);
        if (r) { uint32_t k = (*r - addr) / stride; CHECK((*r - addr) % stride == 0 && k < n, "allocated address is a unit of the group"); CHECK(!(bits >> k & 1), "a unit was allocated twice"); CHECK(x.m_fill_map.m_data == (before | 1ull << k), "allocating one unit changed another"); if (bound) CHECK(*r + stride <= *bound, "allocation beyond the bound"); sym_cover("alloc"); }
        else { CHECK(x.m_fill_map.m_data == before, "a refused allocation changed the group"); CHECK(bound || bits == (1ull << n) - 1, "refused although a unit is free"); sym_cover("refused"); }
    } else if (op == 1) { // free
        ASSUME(bits >> q & 1); auto before = x.m_fill_map.m_data;
        bool more = x.deallocUnit(addr + q * stride);
        CHECK(x.m_fill_map.m_data == (before & ~(1ull << q)), "freeing one unit changed another"); CHECK(more == ((bits & ~(1ull << q)) != 0), "result of freeing a unit"); sym_cover("free");
    } else { // shrink
        uint32_t m = sym_range("min", 1, 1u << 26); auto before = x.m_fill_map.m_data; bool can = x.canReclaimSpace(m); auto b = x.reclaimSpace(m);
        CHECK(can == (b.m_size > 0), "canReclaimSpace disagrees with reclaimSpace");
        if (b.m_size) { CHECK(b.m_size >= m, "reclaimed less than asked for"); CHECK(b.m_address == addr + x.size() && x.size() + b.m_size == n * stride, "reclaimed range"); uint32_t k = x.getUnitCount(); CHECK((bits >> k) == 0, "reclaimed a unit in use"); CHECK((x.m_fill_map.m_data & ((1ull << k) - 1)) == bits, "shrinking changed the units"); sym_cover("shrink"); }
        else CHECK(x.m_fill_map.m_data == before, "a refused shrink changed the group");
    }
    sym_cover("end");
}
// a cached allocation position never hands out a unit in use
HARNESS(alloc_hint) {
    static const uint32_t U[4] = { 56, 24, 8, 1 };
    uint32_t n = U[choose("units", 4)]; CRDT_Allocator::FillMap m(n, true); uint64_t bits = sym_u64("bits") & ((1ull << n) - 1); m.m_data |= bits; ASSUME(bits != (1ull << n) - 1);
    uint32_t end = n, hint = sym_range("hint", 0, 56); ASSUME(hint <= n); auto before = m.m_data;
    uint32_t k = m.allocUnit(end, hint);
    CHECK(k < n && !(bits >> k & 1), "the hinted allocation returned a unit in use"); CHECK(m.m_data == (before | 1ull << k), "the hinted allocation changed other units"); CHECK(hint == k + 1, "hint after allocation");
    sym_cover("end");
}
// ---- slab allocator over a prefix ----
struct SlabSut {
    Env e; size_t size; std::unique_ptr<SlabAllocator> a; Address base;
    SlabSut(size_t size, uint64_t at) : size(size), base(Address::fromOffset(at)) { auto cap = SlabAllocator::formatSlab(e.px, base, size, PG); a = std::make_unique<SlabAllocator>(e.px, base, size, PG, cap, 0); }
    void reopen() { auto rc = a->getRemainingCapacity(); auto lc = a->getLostCapacity(); a->commit(); a = nullptr; a = std::make_unique<SlabAllocator>(e.px, base, size, PG, rc, lc); }
    uint64_t limit() { return base.getOffset() + size - a->getAdminSpaceSize(false); }
};
static void slab_state(SlabSut &s, Live &l) {
    for (auto &b : l) { size_t n = 0; CHECK(s.a->isAllocated(Address::fromOffset(b.a), &n) && n == b.n, "a live block is reported as not allocated or with another size"); CHECK(s.a->getAllocSize(Address::fromOffset(b.a)) == b.n, "size of a live block"); }
}
static void slab_alloc(SlabSut &s, Live &l, size_t n, bool al, bool must) {
    auto r = s.a->tryAlloc(n, 0, al);
    if (!r) { CHECK(!must, "an almost empty slab refuses a block"); sym_cover("full"); return; }
    uint64_t a = r->getOffset();
    CHECK(a >= s.base.getOffset() && a + n <= s.limit(), "an allocation lies outside the slab or in its administrative area"); CHECK(disjoint(l, a, n), "two live allocations overlap");
    if (al || n > PG) CHECK(a % PG == 0, "a page-aligned or multi-page allocation is not aligned");
    l.push_back({ a, n }); sym_cover("alloc");
}
HARNESS(alloc_slab) {
    size_t pages = sym_param("pages", 64); SlabSut s(pages * PG, sym_param("at", 0) * PG); Live live; unsigned K = sym_param("steps", 3), ns = sym_param("ns", NS), pre = sym_param("pre", 0), psz = sym_param("psz", 4000), keep = sym_param("keep", 0);
    bool must = pre == 0;
    for (unsigned i = 0; i < pre; ++i) { size_t before = live.size(); slab_alloc(s, live, psz, false, false); if (live.size() == before) break; }
    for (unsigned i = 0; i < keep && !live.empty(); ++i) { unsigned k = live.size() * i / keep; s.a->free(Address::fromOffset(live[k].a)); live.erase(live.begin() + k); }
    for (unsigned t = 0; t < K; ++t) {
        unsigned op = choose("op", live.empty() ? ns + 2 : ns + 3);
        if (op < ns) { slab_alloc(s, live, SIZES[op], op & 1 && SIZES[op] > PG, must); }
        else if (op == ns) { s.a->commit(); sym_cover("commit"); }
        else if (op == ns + 1) { s.reopen(); sym_cover("reopen"); }
        else { unsigned i = choose("which", live.size() > 4 ? 4 : live.size()); if (i == 3) i = live.size() - 1; auto b = live[i]; s.a->free(Address::fromOffset(b.a)); live.erase(live.begin() + i); CHECK(!s.a->isAllocated(Address::fromOffset(b.a)), "a freed block is still reported as allocated"); sym_cover("free"); }
        if (pre == 0) slab_state(s, live);
        CHECK(s.a->empty() == live.empty(), "empty() of the slab");
    }
    slab_state(s, live);
    if (choose("order", 2)) while (!live.empty()) { s.a->free(Address::fromOffset(live.back().a)); live.pop_back(); }
    else while (!live.empty()) { s.a->free(Address::fromOffset(live[0].a)); live.erase(live.begin()); }
    CHECK(s.a->empty(), "all blocks freed but the slab is not empty");
    if (pre == 0) { CHECK(s.a->getLostCapacity() == 0, "capacity lost although never scarce"); }
    slab_alloc(s, live, PG * 8, false, true); slab_alloc(s, live, 8, false, true); slab_state(s, live);
    sym_cover("end");
}
// ---- instance ids: a unique address is handed out at most once ----
HARNESS(alloc_unique_slab) {
    SlabSut s(64 * PG, 0); Live live; std::set<uint64_t> seen; unsigned K = sym_param("steps", 4);
    for (unsigned t = 0; t < K; ++t) {
        unsigned op = choose("op", live.empty() ? 4 : 5);
        if (op < 2) {
            slab_alloc(s, live, op ? 4097 : 24, false, true); uint16_t id = 0;
            CHECK(s.a->tryMakeAddressUnique(Address::fromOffset(live.back().a), id), "instance ids ran out"); CHECK(id > 0 && id <= UniqueAddress::INSTANCE_ID_MAX, "instance id out of range");
            UniqueAddress u(Address::fromOffset(live.back().a), id); CHECK(u.getOffset() == live.back().a && u.getInstanceId() == id, "parts of a unique address");
            CHECK(seen.insert(u.getValue()).second, "a unique address was handed out twice"); sym_cover("unique");
        } else if (op == 2) s.a->commit(); else if (op == 3) s.reopen();
        else { unsigned i = choose("which", live.size()); s.a->free(Address::fromOffset(live[i].a)); live.erase(live.begin() + i); }
    }
    sym_cover("end");
}
// instance id counters: a paged array of small numbers
HARNESS(alloc_counters) {
    Env e; BitSpace<0x8000>::create(e.px, Address::fromOffset(0), PG); BitSpace<0x8000> bs(e.px, Address::fromOffset(0), PG); typedef LimitedVector<uint16_t> V; const size_t per = PG / 2;
    uint16_t lim = sym_param("limit", 3); auto v = std::make_unique<V>(bs, PG, lim); std::map<size_t, uint16_t> ref; static const size_t IDX[] = { 0, per - 1, per, 15 * per + 7, 16 * per - 1 }; const unsigned NI = 5;
    size_t res = 0; unsigned K = sym_param("steps", 3);
    for (unsigned t = 0; t < K; ++t) {
        unsigned op = choose("op", 4); size_t i = IDX[op < 2 ? choose("index", NI) : 0];
        if (op == 0) { uint16_t x = sym_u16("value"); ASSUME(x <= lim); size_t before = v->getDataSize(); v->set(i, x); ref[i] = x; if (i < res) CHECK(v->getDataSize() == before, "writing below the reserved size allocates memory"); sym_cover("set"); }
        else if (op == 1) { uint16_t out = 0xFFFF, old = ref.count(i) ? ref[i] : 0; bool ok = v->atomicInc(i, out); CHECK(ok == (old < lim), "increment accepted or refused at the limit"); if (ok) { CHECK(out == old + 1, "result of an increment"); ref[i] = out; } else ref[i] = old; sym_cover("inc"); }
        else if (op == 2) { size_t n = IDX[choose("reserve", NI)]; v->reserve(n); if (n > res) res = n; CHECK(v->getDataSize() >= n * 2, "reserved less than asked for"); sym_cover("reserve"); }
        else { v->commit(); if (choose("reopen", 2)) { auto a = v->getAddress(); v = nullptr; v = std::make_unique<V>(bs.myPtr(a), PG, lim); } else v->detach(); sym_cover("reopen"); }
        for (auto &p : ref) CHECK(v->get(p.first) == p.second, "a counter lost its value"); if (res) for (unsigned k = 0; k < NI; ++k) if (IDX[k] < res && !ref.count(IDX[k])) CHECK(v->get(IDX[k]) == 0, "a reserved element is not zero");
    }
    v = nullptr; sym_cover("end");
}
// ---- meta allocator: slabs, realms, deferred free, atomic operations ----
struct MetaSut {
    Env e; std::unique_ptr<Recycler<SlabItem>> sr; std::unique_ptr<MetaAllocator> a; bool deferred;
    MetaSut(bool deferred, size_t slab) : deferred(deferred) { MetaAllocator::formatPrefix(e.px, PG, slab); open(); }
    void open() { sr = std::make_unique<Recycler<SlabItem>>(); a = std::make_unique<MetaAllocator>(e.px, sr.get(), deferred); }
    ~MetaSut() { a->flush(); a->commit(); a->close(); a = nullptr; }
    void reopen() { a->flush(); a->commit(); a->close(); a = nullptr; open(); }
    // the order of calls of Fixture / Memspace for an atomic operation
    void begin() { a->beginAtomic(); a->commit(); e.px->beginAtomic(); }
    void end() { a->detach(); a->endAtomic(); a->detach(); e.px->endAtomic(); }
    void cancel() { a->cancelAtomic(); a->detach(); e.px->cancelAtomic(); }
};
HARNESS(alloc_meta) {
    bool def = sym_param("deferred", 0), atomic = sym_param("atomic", 0); unsigned K = sym_param("steps", 3); size_t slab = sym_param("slab", 64) * PG;
    MetaSut s(def, slab); struct B { uint64_t a; size_t n; unsigned realm; }; std::vector<B> live, live0, pend, pend0; std::set<uint64_t> uniq, uniq0; bool at = false; unsigned nl = sym_param("locality", 1);
    auto alloc = [&](size_t n, bool al, unsigned realm, bool unique, unsigned loc = 0) {
        uint64_t a;
        if (unique) { auto u = s.a->allocUnique(n, 0, al, realm, loc); CHECK(u.hasInstanceId(), "a unique address has no instance id"); CHECK(uniq.insert(u.getValue()).second, "a unique address was handed out twice"); a = u.getOffset(); }
        else a = s.a->alloc(n, 0, al, realm, loc).getOffset();
        for (auto &b : live) CHECK(!(a < b.a + b.n && b.a < a + n), "two live allocations overlap");
        for (auto &b : pend) CHECK(!(a < b.a + b.n && b.a < a + n), "memory was reused before the transaction that freed it ended");
        if (al || n > PG) CHECK(a % PG == 0, "a page-aligned or multi-page allocation is not aligned");
        live.push_back({ a, n, realm }); 
    };
    unsigned pre = sym_param("pre", 0); for (unsigned i = 0; i < pre; ++i) alloc(sym_param("psz", 100), false, i & 1, false);
    for (unsigned t = 0; t < K; ++t) {
        unsigned op; { unsigned mask = sym_param("ops", 1023), k = 0; unsigned char list[10]; for (unsigned i = 0; i < (atomic ? 10 : 8); ++i) if (mask >> i & 1) list[k++] = i; op = list[choose("op", k)]; }
        if (op < 4) { const size_t N[] = { 24, 4097, sym_param("big", 20) * PG, 100 }; alloc(N[op], op == 1, choose("realm", sym_param("realms", 2)), op == 3 || op == 0, nl > 1 ? choose("locality", nl) : 0); sym_cover("alloc"); }
        else if (op == 4) { ASSUME(!live.empty()); unsigned i = choose("which", live.size() > 3 ? 3 : live.size()); auto b = live[i]; s.a->free(Address::fromOffset(b.a)); live.erase(live.begin() + i); if (def) pend.push_back(b); if (!at) CHECK(!s.a->isAllocated(Address::fromOffset(b.a)), "a freed block is still reported as allocated"); sym_cover("free"); }
        else if (op == 5) { ASSUME(!at); s.a->flush(); s.a->commit(); pend.clear(); sym_cover("commit"); }
        else if (op == 6) { ASSUME(!at); s.reopen(); pend.clear(); sym_cover("reopen"); }
        else if (op == 7) { ASSUME(!at); s.a->flush(); s.a->commit(); pend.clear(); s.a->detach(); sym_cover("detach"); }
        else if (op == 8 && !at) { s.begin(); at = true; live0 = live; pend0 = pend; uniq0 = uniq; sym_cover("begin"); }
        else if (op == 8) { s.end(); at = false; sym_cover("end atomic"); }
        else { ASSUME(at); s.cancel(); at = false; live = live0; pend = pend0; uniq = uniq0; sym_cover("cancel"); }
        for (auto &b : live) { size_t n = 0; CHECK(s.a->isAllocated(Address::fromOffset(b.a), &n) && n == b.n, "a live block is reported as not allocated or with another size"); CHECK(s.a->isAllocated(Address::fromOffset(b.a), b.realm), "a live block is not in its realm"); CHECK(s.a->getAllocSize(Address::fromOffset(b.a)) == b.n, "size of a live block"); }
    }
    if (at) s.end();
    s.reopen(); pend.clear();
    for (auto &b : live) { size_t n = 0; CHECK(s.a->isAllocated(Address::fromOffset(b.a), &n) && n == b.n, "a live block is lost by reopening"); }
    while (!live.empty()) { s.a->free(Address::fromOffset(live[0].a)); live.erase(live.begin()); }
    s.a->flush(); if (uniq.empty()) CHECK(s.a->getSlabCount() == 0, "slabs remain although everything was freed");
    if (uniq.empty() && pre == 0 && choose("no unique", 2)) { sym_cover("end"); return; }
    alloc(24, false, 0, true);
    sym_cover("end");
}
// ---- address arithmetic ----
HARNESS(alloc_pools) {
    size_t slab = (size_t)(16u << choose("slab", 3)) * PG, off = sym_param("off", 38);
    auto f = MetaAllocator::getAddressPool(off, PG, slab); auto r = MetaAllocator::getReverseAddressPool(off, PG, slab); auto sid = MetaAllocator::getSlabIdFunction(off, PG, slab); unsigned cnt = MetaAllocator::getSlabCount(PG, slab);
    unsigned i = sym_range("i", 0, 4000), j = sym_range("j", 0, 4000);
    auto a = f(i), b = f(j); 
    CHECK(a.getOffset() % PG == 0, "a meta page is not aligned"); CHECK(r(a) == i, "reverse address of a meta page");
    if (i != j) CHECK(a.getOffset() + PG <= b.getOffset() || b.getOffset() + PG <= a.getOffset(), "meta pages overlap");
    sym_cover("end"); (void)sid; (void)cnt;
}
HARNESS(alloc_slab_ids) {
    size_t slab = (size_t)(16u << choose("slab", 3)) * PG, off = sym_param("off", 38);
    extern std::function<Address(unsigned)> slab_addr(size_t, size_t, size_t);
    auto f = MetaAllocator::getAddressPool(off, PG, slab); auto g = MetaAllocator::getSlabIdFunction(off, PG, slab); auto h = slab_addr(off, PG, slab);
    unsigned id = sym_range("id", 0, 1000), i = sym_range("i", 0, 4000); uint64_t o = sym_range("o", 0, (64u << 12) * 4096); ASSUME(o < slab);
    auto a = h(id); CHECK(a.getOffset() % PG == 0, "a slab is not page-aligned"); CHECK(g(a + o) == id, "slab id of an address inside a slab");
    auto m = f(i); CHECK(m.getOffset() + PG <= a.getOffset() || m.getOffset() >= a.getOffset() + slab, "a meta page lies inside a slab");
    sym_cover("end");
}
HARNESS(uid_parts) {
    uint64_t off = sym_u64("off"); uint16_t id = sym_u16("id"); ASSUME(off < 1ull << 50 && id > 0 && id < 1 << 14);
    UniqueAddress u(Address::fromOffset(off), id); CHECK(u.getOffset() == off && u.getInstanceId() == id && u.isValid() && u.hasInstanceId(), "parts of a unique address");
    CHECK(UniqueAddress::fromValue(u.getValue()) == u, "unique address from its value"); CHECK(((Address)u).getOffset() == off && u.getAddress().getOffset() == off, "address of a unique address");
    uint64_t off2 = sym_u64("off2"); uint16_t id2 = sym_u16("id2"); ASSUME(off2 < 1ull << 50 && id2 > 0 && id2 < 1 << 14);
    UniqueAddress v(Address::fromOffset(off2), id2);
    CHECK((u == v) == (off == off2 && id == id2), "equality of unique addresses"); CHECK((u != v) == !(u == v), "inequality"); CHECK((u < v) == (off < off2 || (off == off2 && id < id2)), "order of unique addresses");
    CHECK((u > v) == (v < u), "order of unique addresses"); CHECK((u <= v) == !(v < u), "order of unique addresses"); CHECK((u >= v) == !(u < v), "order of unique addresses (>=)");
    CHECK(makeUniqueAddr(off, id) == u, "makeUniqueAddr");
    sym_cover("end");
}
HARNESS(uid_base32) {
    unsigned n = sym_param("n", 0) ? sym_param("n", 0) : 1 + choose("n", 12); uint8_t in[40]; char txt[80]; uint8_t out[48]; memset(out, 0xEE, sizeof out); memset(txt, '!', sizeof txt);
    sym_bytes(in, n, "in"); size_t t = base32_encode(in, n, txt);
    CHECK(t == (n * 8 + 4) / 5 && txt[t] == 0 && txt[t + 1] == '!', "length of the text");
    for (size_t i = 0; i < t; ++i) CHECK((txt[i] >= 'A' && txt[i] <= 'Z') || (txt[i] >= '2' && txt[i] <= '7'), "character of the text");
    size_t m = base32_decode(txt, out); CHECK(m >= n && m <= n + 1, "length of the decoded value");
    for (unsigned i = 0; i < n; ++i) CHECK(out[i] == in[i], "decoded value"); 
    CHECK(out[n + 1] == 0xEE, "decoding wrote past its result");
    sym_cover("end");
}
namespace db0 { std::function<Address(unsigned int)> getSlabAddressFunction(std::size_t, std::size_t, std::size_t); }
std::function<Address(unsigned)> slab_addr(size_t o, size_t p, size_t s) { return db0::getSlabAddressFunction(o, p, s); }
