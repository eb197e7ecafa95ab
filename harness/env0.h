// A memory space over an in-memory prefix (no file): the real PrefixImpl, cache and bit-set allocator.
#pragma once
#include "sym.h"
#include <dbzero/core/memory/PrefixImpl.hpp>
#include <dbzero/core/memory/CacheRecycler.hpp>
#include <dbzero/core/memory/BitSpace.hpp>
#include <dbzero/core/storage/Storage0.hpp>
#include <dbzero/core/memory/Allocator.hpp>
#include <vector>
#include <map>
#include <algorithm>
struct SplitPrefix : db0::PrefixImpl { // case split over the addresses requested
    using db0::PrefixImpl::PrefixImpl; using db0::PrefixImpl::mapRange;
    db0::MemLock mapRange(std::uint64_t a, std::size_t n, db0::FlagSet<db0::AccessOptions> o = {}) override { return db0::PrefixImpl::mapRange(sym_concretize(a), sym_concretize(n), o); }
};
struct Env0 {
    std::atomic<std::size_t> dirty{0}; db0::CacheRecycler rec; std::shared_ptr<db0::Prefix> px;
    Env0(size_t pg) : rec(4u << 20, dirty) { px = std::shared_ptr<db0::PrefixImpl>(new SplitPrefix("", dirty, rec, std::make_shared<db0::Storage0>(pg))); }
    ~Env0() { px->close(); rec.clear(); }
};
template <size_t PG = 4096> struct Space { // BitSpace: every allocation takes one page
    Env0 e; db0::BitSpace<0x8000> bs;
    static std::shared_ptr<db0::Prefix> mk(Env0 &e) { db0::BitSpace<0x8000>::create(e.px, db0::Address::fromOffset(0), PG); return e.px; }
    Space() : e(PG), bs(mk(e), db0::Address::fromOffset(0), PG) {}
};
// a simple allocator for collections: any size, freed blocks of the same size are handed out again at once, misuse is reported
struct HeapAlloc : db0::Allocator {
    std::map<uint64_t, size_t> live; std::map<size_t, std::vector<uint64_t>> spare; uint64_t next = 0; size_t pg; size_t quiet = 0;
    bool sub = false; // blocks may be addressed inside (as the bit-set and DRAM allocators allow)
    HeapAlloc(size_t pg) : next(pg), pg(pg) {}
    std::map<uint64_t, size_t>::const_iterator find(uint64_t a) const { auto it = live.upper_bound(a); if (it == live.begin()) return live.end(); --it; if (a == it->first || (sub && a < it->first + it->second)) return it; return live.end(); }
    std::optional<db0::Address> tryAlloc(std::size_t n, std::uint32_t, bool al, unsigned char, unsigned char) override {
        CHECK(n > 0, "a collection allocates nothing"); uint64_t a; auto &sp = spare[n];
        if (!sp.empty()) { a = sp.back(); sp.pop_back(); } else { if (al || n >= pg) next = (next + pg - 1) / pg * pg; a = next; next += n; }
        live[a] = n; return db0::Address::fromOffset(a);
    }
    std::optional<db0::UniqueAddress> tryAllocUnique(std::size_t n, std::uint32_t s, bool al, unsigned char r, unsigned char l) override { return db0::UniqueAddress(*tryAlloc(n, s, al, r, l), 1); }
    void free(db0::Address a) override { auto it = find(a.getOffset()); if (it != live.end() && it->first != a.getOffset()) return; if (it == live.end()) { sym_fail("a collection frees a block it does not own"); return; } spare[it->second].push_back(it->first); live.erase(it->first); }
    std::size_t getAllocSize(db0::Address a) const override { auto it = find(a.getOffset()); CHECK(it != live.end(), "size of a block that is not allocated"); return it->first + it->second - a.getOffset(); }
    bool isAllocated(db0::Address a, std::size_t *n) const override { auto it = find(a.getOffset()); if (it == live.end()) return false; if (n) *n = it->first + it->second - a.getOffset(); return true; }
    void commit() const override {} void detach() const override {}
    using db0::Allocator::getAllocSize; using db0::Allocator::isAllocated;
};
struct Heap { Env0 e; std::shared_ptr<HeapAlloc> al; db0::Memspace ms; Heap(size_t pg = 4096) : e(pg), al(std::make_shared<HeapAlloc>(pg)), ms(e.px, al, 1) {} 
    // no block may remain once the collection has been destroyed
    void no_leak(const char *msg) { CHECK(al->live.empty(), msg); } };
typedef std::vector<uint64_t> Vals;
// branch-free references over (symbolic) values
static inline uint64_t sel(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
static inline bool has(const Vals &v, uint64_t x) { bool r = false; for (auto a : v) r |= (a == x); return r; }
static inline uint8_t count_of(const Vals &v, uint64_t x) { uint8_t n = 0; for (auto a : v) n += (a == x); return n; }
static const uint64_t NONE = ~0ull;
static inline uint64_t ref_le(const Vals &v, uint64_t q) { uint64_t r = 0; for (auto a : v) r = sel((a <= q) & (a + 1 > r), a + 1, r); return r - 1; } // NONE if there is none
static inline uint64_t ref_ge(const Vals &v, uint64_t q) { uint64_t r = NONE; for (auto a : v) r = sel((a >= q) & (a < r), a, r); return r; }
static inline void same_multiset(const Vals &a, const Vals &b, const char *msg, bool dup = true) {
    CHECK(a.size() == b.size(), msg); bool ok = true; for (auto x : a) ok &= dup ? count_of(a, x) == count_of(b, x) : has(b, x); CHECK(ok, msg);
}
