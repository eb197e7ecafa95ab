// Prefix (memory-mapped view of the storage): transactions, atomic operations, snapshots, cache pressure.
// Reference model: a plain byte array per object and per committed state.
#include "sym.h"
#include "memfs.h"
#include <dbzero/core/storage/BDevStorage.hpp>
#include <dbzero/core/memory/PrefixImpl.hpp>
#include <dbzero/core/memory/PrefixViewImpl.hpp>
#include <dbzero/core/memory/CacheRecycler.hpp>
#include <dbzero/core/memory/AccessOptions.hpp>
#include <vector>
#include <map>
#include <memory>
#include <cstring>
using namespace db0;
static const char *F = "p.db0";
static size_t PS;
struct Obj { uint64_t addr; size_t size; };
static const unsigned NO = 5;
static Obj O[NO];
static void layout() {
    O[0] = { 8, 16 };                    // inside page 0
    O[1] = { PS - 4, 8 };                // crosses the boundary of pages 0 and 1
    O[2] = { PS + 16, 16 };              // inside page 1
    if (sym_param("aligned", 0)) O[3] = { 3 * PS, 2 * PS }; else
    O[3] = { 3 * PS, 2 * PS + 16 };      // wide: pages 3, 4 and the beginning of page 5
    O[4] = { 5 * PS + 32, 16 };          // page 5, next to the residual part of the wide object
}
typedef std::vector<uint8_t> Bytes;
struct State { Bytes b[NO]; bool has[NO]; State() { for (auto &h : has) h = false; } };
struct Sut {
    std::atomic<std::size_t> dirty{0};
    std::unique_ptr<CacheRecycler> rec;
    std::shared_ptr<PrefixImpl> px;
    void open(AccessType t = AccessType::READ_WRITE) {
        auto self = this;
        if (!rec) rec = std::make_unique<CacheRecycler>(sym_param("cache", 1 << 20), dirty, std::optional<std::size_t>(sym_param("flush_size", 256)),
            [self](std::size_t limit) { if (self->px && self->px->getAccessType() == AccessType::READ_WRITE) self->px->flushDirty(limit); });
        px = std::make_shared<PrefixImpl>(F, dirty, rec.get(), std::make_shared<BDevStorage>(F, t, LockFlags(true), std::optional<std::size_t>(256)));
    }
    void close() { px->close(); px = nullptr; rec->clear(); }
};
static void create() { PS = sym_param("ps", 128); layout(); BDevStorage::create(F, PS, 512, std::optional<std::size_t>()); }
// handles kept by long-lived objects: the mapping stays referenced after the access
static std::vector<MemLock> held; static bool holding;
static void check(Prefix &px, State &s, unsigned i, const char *msg) {
    if (!s.has[i]) return;
    auto m = px.mapRange(O[i].addr, O[i].size, { AccessOptions::read });
    auto *p = (const uint8_t *)m.m_buffer;
    if (sym_param("dbg", 0)) for (size_t k = 0; k < O[i].size; ++k) if (p[k] != s.b[i][k]) { sym_debug("obj", i); sym_debug(" at", k); sym_debug(" is", p[k]); sym_debug(" exp", s.b[i][k]); }
    for (size_t k = 0; k < O[i].size; ++k) CHECK(p[k] == s.b[i][k], msg);
    if (holding) held.push_back(m);
}
static void check_all(Prefix &px, State &s, const char *msg, bool rev = false) { for (unsigned i = 0; i < NO; ++i) check(px, s, rev ? NO - 1 - i : i, msg); }
static unsigned serial;
static void write(Prefix &px, State &s, unsigned i, unsigned style) {
    ++serial;
    bool fresh = !s.has[i];
    FlagSet<AccessOptions> f { AccessOptions::write };
    if (!fresh) f = FlagSet<AccessOptions> { AccessOptions::read, AccessOptions::write };
    auto m = px.mapRange(O[i].addr, O[i].size, f);
    auto *p = (uint8_t *)m.modify(); size_t n = O[i].size;
    if (fresh) { s.b[i].assign(n, 0); s.has[i] = true; for (size_t k = 0; k < n; ++k) p[k] = s.b[i][k] = (uint8_t)(k + i * 16 + 1); }
    size_t at[3] = { 0, n - 1, n / 2 };
    if (style == 0) { p[at[0]] = s.b[i][at[0]] = (uint8_t)serial; p[at[1]] = s.b[i][at[1]] = (uint8_t)(serial + 100); }        // ordinary update
    else if (style == 1) { uint8_t v = sym_u8("data"); p[at[2]] = s.b[i][at[2]] = v; }                                         // possibly writes back the same value
    else { uint8_t v = sym_u8("data"); p[at[1]] = s.b[i][at[1]] = v; m.modify(p + at[1], 1); p[at[0]] = s.b[i][at[0]] = (uint8_t)serial; m.modify(p + at[0], 1); } // announced ranges
    if (holding) held.push_back(m);
}
struct Snap { std::shared_ptr<Prefix> p; State s; unsigned num; };
static void run(bool atomic, bool snaps, bool pressure) {
    create(); holding = sym_param("hold", 0);
    Sut x; x.open();
    State cur, saved, committed; bool in_atomic = false, any = false;
    std::map<unsigned, State> hist; std::vector<Snap> sn;
    auto commit = [&]() { unsigned before = x.px->getStateNum(true); x.px->commit(); unsigned st = x.px->getStateNum(true); committed = cur; if (st) hist[st] = cur; CHECK(st == before || st == before + 1, "commit advances the state by at most one"); };
    unsigned pre = sym_param("pre", 1);
    for (unsigned t = 0; t < pre; ++t) { for (unsigned i = 0; i < NO; ++i) write(*x.px, cur, i, 0); commit(); }
    unsigned K = sym_param("steps", 4), first = sym_param("first", 99), W = sym_param("styles", 2);
    unsigned nw = NO * W, nops = nw + 2; bool cold = sym_param("cold", 0), reads = sym_param("reads", 0);
    // bits: writes (object-major), end/commit, reopen, begin/cancel, snapshot, pressure, reads
    uint64_t mask = sym_param("ops", (1ull << (nops + 3 + (reads ? NO : 0))) - 1); std::vector<unsigned> alphabet; for (unsigned i = 0; i < 60; ++i) if (mask >> i & 1) alphabet.push_back(i);
    if (cold) { held.clear(); x.close(); x.open(); } // nothing mapped yet
    for (unsigned s = 0; s < K; ++s) {
        unsigned op;
        if (s == 0 && first != 99) op = first; else op = alphabet[choose("op", alphabet.size())];
        if (op < nw) { write(*x.px, cur, op / W, op % W); any = true; }
        else if (op == nw) { if (in_atomic) { held.clear(); x.px->endAtomic(); in_atomic = false; check_all(*x.px, cur, "content after the end of an atomic operation"); } else { commit(); sym_cover("commit"); check_all(*x.px, cur, "content after commit", s & 1); } any = false; }
        else if (op == nw + 1) { sym_assume(!in_atomic && sn.empty()); commit(); any = false; held.clear(); x.close(); x.open(); sym_cover("reopen"); if (!cold) check_all(*x.px, cur, "content after reopening", s & 1); }
        else if (op == nw + 2) {
            if (atomic) {
                if (!in_atomic) { saved = cur; held.clear(); x.px->beginAtomic(); in_atomic = true; sym_cover("begin"); }
                else { held.clear(); x.px->cancelAtomic(); cur = saved; in_atomic = false; sym_cover("cancel"); check_all(*x.px, cur, "content after cancelling an atomic operation", s & 1); }
            } else sym_assume(false);
        } else if (op == nw + 3) {
            sym_assume(snaps && !in_atomic && x.px->getStateNum(true) >= 1);
            unsigned n = x.px->getStateNum(true); if (choose("older", 2)) { sym_assume(n > 1); --n; }
            sn.push_back({ x.px->getSnapshot(n), hist[n], n }); check_all(*sn.back().p, hist[n], "content of a fresh snapshot"); sym_cover("snapshot");
        } else if (op >= nops + 3) check(*x.px, cur, op - nops - 3, "content of one object");
        else { sym_assume(pressure); x.px->flushDirty(1 << 20); if (choose("clear", 2)) x.rec->clear(); sym_cover("pressure"); }
    }
    for (auto &s : sn) check_all(*s.p, s.s, "a snapshot changed");
    check_all(*x.px, cur, "current content");
    sn.clear();
    if (in_atomic) { held.clear(); x.px->endAtomic(); check_all(*x.px, cur, "content after the end of an atomic operation"); }
    commit();
    for (auto &h : hist) if (h.first < x.px->getStateNum(true)) { auto v = x.px->getSnapshot(h.first); check_all(*v, h.second, "historical state"); }
    held.clear(); x.close(); x.open(AccessType::READ_ONLY); holding = false;
    check_all(*x.px, cur, "committed content lost by reopening");
    for (auto &h : hist) { auto v = x.px->getSnapshot(h.first); check_all(*v, h.second, "historical state after reopening", true); }
    sym_observe("states", x.px->getStateNum(true));
    x.close();
    sym_cover("end");
}
HARNESS(prefix_txn) { run(false, false, true); }
HARNESS(prefix_atomic) { run(true, false, true); }
HARNESS(prefix_snapshot) { run(false, true, true); }
