// Block-device storage: every committed page version stays readable, in this process and after reopening
#include "sym.h"
#include "memfs.h"
#include <dbzero/core/storage/BDevStorage.hpp>
#include <dbzero/core/memory/diff_utils.hpp>
#include <dbzero/core/memory/AccessOptions.hpp>
#include <vector>
#include <memory>
#include <cstring>
using namespace db0;
static const char *F = "p.db0";
static const unsigned NP = 3;    // logical pages in play
static const unsigned MAXS = 72; // states
static size_t PS;
static bool PLAIN; // concrete data (the transactions before the one under test)
static uint8_t data() { static uint8_t n; return PLAIN ? ++n : sym_u8("data"); }
struct Model { std::vector<uint8_t> *v[NP][MAXS]; uint8_t kind[NP][MAXS]; unsigned last; };
static std::vector<uint8_t> *cur(Model &m, unsigned p, unsigned s) { for (unsigned i = s + 1; i-- > 0;) if (m.v[p][i]) return m.v[p][i]; return nullptr; }
static std::unique_ptr<BDevStorage> open(AccessType t = AccessType::READ_WRITE) { return std::make_unique<BDevStorage>(F, t, LockFlags(true), std::optional<std::size_t>(sym_param("meta_step", 256))); }
static void verify(BDevStorage &s, Model &m, unsigned upto, const char *msg) {
    std::vector<uint8_t> buf(PS);
    for (unsigned p = 0; p < NP; ++p) for (unsigned st = 1; st <= upto; ++st) {
        auto *e = cur(m, p, st);
        if (!e) continue;
        if (st != upto && !m.v[p][st]) continue; // nothing changed in that state
        s.read(p * PS, st, PS, buf.data(), { AccessOptions::read });
        for (size_t i = 0; i < PS; ++i) CHECK(buf[i] == (*e)[i], msg);
    }
}
static void mkpage(std::vector<uint8_t> &b, unsigned st, unsigned p) {
    // two symbolic bytes; the rest depends on the version so that stale data shows
    for (size_t i = 0; i < PS; ++i) b[i] = (uint8_t)(i < 4 ? st * 16 + p : 0);
    b[5] = data(); b[PS - 1] = data();
}
static void create() {
    PS = sym_param("ps", 128);
    std::optional<std::size_t> step; if (sym_param("step", 0)) step = sym_param("step", 0);
    BDevStorage::create(F, PS, sym_param("dram", 512), step);
}
// Caller contract (the page cache): within one transaction a page is diff-written at most once, at commit, always
// against the version before the transaction; full writes may repeat and may precede it (cache pressure).
static void write_version(BDevStorage &s, Model &m, unsigned p, unsigned st, bool diff) {
    auto *b = new std::vector<uint8_t>(PS);
    auto *old = cur(m, p, st - 1);
    if (m.kind[p][st] == 2) diff = false;
    if (diff && old) { *b = *old; (*b)[5] = data(); (*b)[40] = data(); (*b)[41] = st; } else mkpage(*b, st, p);
    bool done = false;
    if (diff) {
        std::vector<uint16_t> d; std::vector<uint8_t> tmp(*b);
        bool ok = old ? getDiffs(old->data(), b->data(), PS, d) : getDiffs(b->data(), PS, d);
        if (ok && !d.empty()) done = s.tryWriteDiffs(p * PS, st, PS, tmp.data(), d, sym_param("maxlen", 2));
        if (done) { sym_cover("diff"); m.kind[p][st] = 2; }
    }
    if (!done) { std::vector<uint8_t> tmp(*b); s.write(p * PS, st, PS, tmp.data()); sym_cover("full"); m.kind[p][st] = 1; }
    m.v[p][st] = b;
}
// arbitrary sequence of page writes (full / diff), commits and reopens
HARNESS(store_history) {
    Model m; memset(&m, 0, sizeof m); m.last = 0;
    create();
    auto s = open();
    unsigned st = 1, committed = 0; bool dirty = false;
    unsigned K = sym_param("steps", 4), pre = sym_param("pre", 0);
    for (unsigned i = 0; i < pre; ++i) { for (unsigned p = 0; p < NP - 1; ++p) write_version(*s, m, p, st, i & 1); s->flush(); committed = st++; }
    for (unsigned i = 0; i < K; ++i) {
        unsigned op = choose("op", 2 + 2 * 2);
        if (op < 4) { unsigned p = op >> 1; write_version(*s, m, p ? NP - 1 : 0, st, op & 1); dirty = true; }
        else {
            if (!dirty && op == 4) sym_assume(false);
            if (dirty) { s->flush(); committed = st; st += 1 + (i & 1); dirty = false; }
            if (op == 5) { s->close(); s = open(); CHECK(s->getMaxStateNum() == committed, "last committed state after reopen"); sym_cover("reopened"); }
            verify(*s, m, committed, "committed page version changed");
        }
    }
    if (dirty) { s->flush(); committed = st; }
    verify(*s, m, committed, "committed page version changed");
    s->close();
    s = open(AccessType::READ_ONLY);
    CHECK(s->getMaxStateNum() == committed, "last committed state seen by a reader");
    verify(*s, m, committed, "page version lost by reopening");
    sym_observe("committed", committed);
    sym_cover("end");
}

// ---- crashes. The journal of the in-memory disk is cut at a symbolic point of the last transactions.
static std::unique_ptr<BDevStorage> open_at(const char *f, AccessType t) { return std::make_unique<BDevStorage>(f, t, LockFlags(true), std::optional<std::size_t>(sym_param("meta_step", 256))); }
static void crash_check(Model &m, unsigned before, unsigned after, bool must_have_after) {
    unsigned got;
    try {
        auto r = open_at("crash.db0", AccessType::READ_ONLY);
        got = r->getMaxStateNum();
        CHECK(got == before || got == after, "a crash exposed a state that was never committed");
        CHECK(!must_have_after || got == after, "a completed commit was lost");
        verify(*r, m, got, "page content after a crash (reader)");
        r->close();
        auto w = open_at("crash.db0", AccessType::READ_WRITE);
        CHECK(w->getMaxStateNum() == got, "writer and reader recover different states");
        verify(*w, m, got, "page content after a crash (writer)");
        // the recovered file takes further transactions
        std::vector<uint8_t> b(PS), t; mkpage(b, 99, 1); t = b;
        unsigned ns = got + 1;
        for (unsigned p = 0; p < NP; ++p) for (unsigned s2 = ns; s2 < MAXS; ++s2) m.v[p][s2] = nullptr;
        w->write(1 * PS, ns, PS, t.data()); m.v[1][ns] = &b;
        w->flush();
        verify(*w, m, ns, "transaction after recovery");
        w->close();
        auto r2 = open_at("crash.db0", AccessType::READ_ONLY);
        CHECK(r2->getMaxStateNum() == ns, "state after recovery and one more commit");
        verify(*r2, m, ns, "transaction after recovery, reopened");
        sym_observe("got", got - before);
        sym_cover(got == after ? "crash:new" : "crash:old");
    } catch (db0::AbstractException &) { sym_fail("file unusable after a crash"); }
}
static void crash_run(bool power_loss, bool torn_block) {
    Model m; memset(&m, 0, sizeof m);
    create();
    auto s = open();
    unsigned st = 1; unsigned pre = sym_param("pre", 3);
    PLAIN = sym_param("plain", 0);
    unsigned more = sym_param("more", 0), most = pre + more;
    for (unsigned i = 0; i < most && (i < pre || choose("another", 2)); ++i) { for (unsigned p = 0; p < NP - 1; ++p) write_version(*s, m, p, st, (i + p) & 1); s->flush(); ++st; }
    PLAIN = sym_param("plain", 0) > 1;
    unsigned before = st - 1;
    uint64_t j0 = mfs_journal_size();
    // one transaction of symbolic shape
    unsigned n = 1 + choose("writes", sym_param("maxw", 2));
    for (unsigned i = 0; i < n; ++i) { unsigned op = choose("op", 4); write_version(*s, m, op >> 1 ? NP - 1 : 0, st, op & 1); }
    s->flush();
    uint64_t j1 = mfs_journal_size();
    s->close();
    if (sym_param("dump", 0)) for (uint64_t i = 0; i < mfs_journal_size(); ++i) if (mfs_journal_len(i)) { sym_debug("op", i - j0); sym_debug("   off", mfs_journal_off(i)); sym_debug("   len", mfs_journal_len(i)); }
    uint64_t k = j0 + choose("crash_op", j1 - j0 + 1);
    if (sym_param("dump", 0) > 1) { sym_debug("k", k - j0); sym_debug("off", mfs_journal_off(k)); sym_debug("len", mfs_journal_len(k)); }
    if (!power_loss) {
        // process crash: a byte prefix of everything written survives
        uint64_t torn = 0;
        bool rewrite = false; // in-place rewrite of a stream block (all stream blocks but the DRAM chunks are written whole)
        for (uint64_t i = 0; i < k && k < j1; ++i) if (mfs_journal_len(i) && mfs_journal_off(i) == mfs_journal_off(k) && mfs_journal_len(k) > PS && mfs_journal_len(i) == mfs_journal_len(k)) rewrite = true;
        if (torn_block && !(k < j1 && rewrite && mfs_journal_len(k) % PS == 0)) sym_assume(false);
        if (!torn_block && rewrite && mfs_journal_len(k) % PS == 0) ; else
        if (k < j1 && mfs_journal_len(k) > 1) { uint64_t t = choose("torn", 4), len = mfs_journal_len(k); torn = t == 0 ? 0 : t == 1 ? 1 : t == 2 ? len / 2 : len - 1; }
        mfs_image("crash.db0", F, k, torn);
    } else {
        // power loss: writes after the last completed fsync survive in any subset of bounded size
        uint64_t f = j0; for (uint64_t i = j0; i < k; ++i) if (mfs_journal_kind(i) == 2) f = i;
        uint64_t w[64]; unsigned nw = 0; for (uint64_t i = f; i < k; ++i) if (mfs_journal_len(i) && nw < 64) w[nw++] = i;
        if (!nw) sym_assume(k == j1 || true);
        mfs_image("crash.db0", F, f, 0);
        // mode 0: one write lost, mode 1: only one write survived, mode 2: a suffix order (reversed prefix) survived
        unsigned mode = choose("mode", 3); uint64_t pick = nw ? choose("pick", nw) : 0;
        for (unsigned i = 0; i < nw; ++i) { bool keep = mode == 0 ? i != pick : mode == 1 ? i == pick : i >= pick; if (keep) mfs_apply_one("crash.db0", F, w[i]); }
    }
    crash_check(m, before, st, k == j1);
}
HARNESS(store_crash) { crash_run(false, false); }
HARNESS(store_torn_block) { crash_run(false, true); }
HARNESS(store_powerloss) { crash_run(true, false); }
// many pages, so that the index spans several of its own (DRAM) pages and their slots get recycled
HARNESS(store_crash_index) {
    const unsigned N = sym_param("pages", 60);
    create();
    auto s = open();
    std::vector<uint8_t> b(PS, 0), r(PS);
    std::vector<uint8_t> ver(N, 0), prev;
    auto put = [&](unsigned p, unsigned st) { for (size_t i = 0; i < PS; ++i) b[i] = (uint8_t)(i < 2 ? (i ? st : p) : 0); s->write(p * PS, st, PS, b.data()); ver[p] = st; };
    unsigned st = 1;
    for (unsigned p = 0; p < N; ++p) put(p, st);
    s->flush();
    unsigned T = sym_param("txns", 3);
    uint64_t j0 = 0;
    for (unsigned t = 0; t < T; ++t) {
        prev = ver; j0 = mfs_journal_size(); ++st;
        unsigned w = choose("what", 4); // 0: low pages, 1: high pages, 2: both, 3: all over
        if (w == 0 || w == 2) put(0, st);
        if (w == 1 || w == 2) put(N - 1, st);
        if (w == 3) for (unsigned p = 0; p < N; p += N / 4) put(p, st);
        s->flush();
    }
    uint64_t j1 = mfs_journal_size();
    s->close();
    uint64_t k = j0 + choose("crash_op", j1 - j0 + 1);
    mfs_image("crash.db0", F, k, 0);
    try {
        auto x = open_at("crash.db0", choose("reader", 2) ? AccessType::READ_ONLY : AccessType::READ_WRITE);
        unsigned got = x->getMaxStateNum();
        CHECK(got == st || (got == st - 1 && k != j1), "a crash lost a commit");
        auto &v = got == st ? ver : prev;
        for (unsigned p = 0; p < N; ++p) { x->read(p * PS, got, PS, r.data(), { AccessOptions::read }); CHECK(r[0] == p && r[1] == v[p], "page content after a crash"); }
        if (x->getAccessType() == AccessType::READ_WRITE) {
            // another transaction in the place of the interrupted one, touching other index pages
            ver = v; ++got; s = nullptr;
            auto put2 = [&](unsigned p) { for (size_t i = 0; i < PS; ++i) b[i] = (uint8_t)(i < 2 ? (i ? got + 100 : p) : 0); x->write(p * PS, got, PS, b.data()); ver[p] = got + 100; };
            unsigned w = choose("again", 2);
            put2(w ? N - 1 : 0);
            x->close();
            x = open_at("crash.db0", AccessType::READ_ONLY);
            CHECK(x->getMaxStateNum() == got, "state after recovery and one more commit");
            for (unsigned p = 0; p < N; ++p) { x->read(p * PS, got, PS, r.data(), { AccessOptions::read }); CHECK(r[0] == p && r[1] == ver[p], "page content after recovery and one more commit"); }
            sym_cover("again");
        }
        x->close(); sym_cover("end");
    } catch (db0::AbstractException &) { sym_fail("file unusable after a crash"); }
}
// A reader process follows the writer. Between its refreshes and in the middle of one (in front of any of its reads) the
// writer's next writes reach the file, the last one possibly only in part. Every refresh leaves the reader at a committed
// state, not older than before, with all pages of it; in the end it sees everything and was told of every changed page.
static void refresh_run(bool torn_block) {
    Model m; memset(&m, 0, sizeof m); create(); PLAIN = true;
    auto s = open(); unsigned st = 1, pre = sym_param("pre", 2), T = sym_param("txns", 2); bool told[NP][MAXS]; memset(told, 0, sizeof told);
    for (unsigned i = 0; i < pre; ++i) { for (unsigned p = 0; p < NP - 1; ++p) write_version(*s, m, p, st, (i + p) & 1); s->flush(); ++st; }
    unsigned before = st - 1; uint64_t j0 = mfs_journal_size(), at[8];
    for (unsigned t = 0; t < T; ++t) { unsigned w = choose("pages", sym_param("shapes", 3)); if (w != 1) write_version(*s, m, 0, st, t & 1); if (w != 0) write_version(*s, m, NP - 1, st, w == 2); s->flush(); at[t] = mfs_journal_size(); ++st; }
    unsigned after = st - 1; uint64_t j1 = at[T - 1];
    const char *R = "crash.db0"; uint64_t pos = j0; mfs_image(R, F, j0, 0);
    bool late = choose("open_late", 2); std::unique_ptr<BDevStorage> r; unsigned cur = before;
    auto upto = [&](uint64_t k) { unsigned c = before; for (unsigned t = 0; t < T; ++t) if (at[t] <= k) c = before + t + 1; return c; }; // certainly committed
    // stream blocks are rewritten in place as a whole: whether those writes may be seen in part is a separate question
    auto in_place = [&](uint64_t k) { if (mfs_journal_len(k) % PS || mfs_journal_len(k) == PS) return false; for (uint64_t i = 0; i < k; ++i) if (mfs_journal_len(i) == mfs_journal_len(k) && mfs_journal_off(i) == mfs_journal_off(k)) return true; return false; };
    auto torn_at = [&](const char *n, uint64_t k) -> uint64_t { return k < j1 && mfs_journal_len(k) > 1 && (torn_block || !in_place(k)) && choose(n, 2) ? mfs_journal_len(k) / 2 : 0; };
    auto refresh = [&](uint64_t known, const char *msg) {
        if (r->beginRefresh()) r->completeRefresh([&](uint64_t p, StateNumType sn) { CHECK(p < NP && sn < MAXS, "notification"); told[p][sn] = true; });
        unsigned now = r->getMaxStateNum(); CHECK(now >= cur && now >= known && now <= after, msg); unsigned prev = cur; cur = now; verify(*r, m, now, "page of the refreshed state");
        for (unsigned p = 0; p < NP; ++p) for (unsigned x = prev + 1; x <= now; ++x) CHECK(!m.v[p][x] || told[p][x], "changed page not reported by the refresh");
    };
    try {
        if (!late) { r = open_at(R, AccessType::READ_ONLY); CHECK(r->getMaxStateNum() == before, "reader's state"); }
        // writes before the refresh
        uint64_t k1 = j0 + choose("k1", j1 - j0 + 1); mfs_apply(R, F, pos, k1); mfs_apply_torn(R, F, k1, torn_at("torn1", k1)); pos = k1;
        // writes during the refresh
        uint64_t k2 = k1; unsigned rd = 0;
        if (sym_param("race", 1)) { uint64_t n = j1 - k1, most = sym_param("jump", 3); uint64_t d = choose("k2", (n < most ? n : most) + 2); k2 = d > n || d > most ? j1 : k1 + d; rd = choose("read", sym_param("reads", 12)); if (k2 != k1 || rd == 0) { uint64_t torn = torn_at("torn2", k2); mfs_race(R, F, k1, k2, torn, rd); } else sym_assume(false); }
        unsigned known = upto(k1);
        if (late) { r = open_at(R, AccessType::READ_ONLY); cur = r->getMaxStateNum(); CHECK(cur >= known && cur <= after, "state of a new reader"); verify(*r, m, cur, "page of a new reader"); for (unsigned p = 0; p < NP; ++p) for (unsigned x = 0; x <= cur; ++x) told[p][x] = true; sym_cover("opened while writing"); }
        else refresh(sym_param("strict", 1) ? known : 0, "refreshed state");
        if (mfs_race_pending()) { mfs_race_off(); if (rd) sym_assume(false); } else { pos = k2; if (rd) sym_cover("raced"); }
        if (choose("again", 2)) refresh(0, "refreshed state");
        mfs_apply(R, F, pos, j1);
        refresh(0, "refreshed state"); if (cur != after) { sym_cover("second"); refresh(0, "refreshed state"); }
        CHECK(cur == after, "reader does not reach the last state");
        sym_cover("end");
    } catch (db0::AbstractException &) { if (sym_param("dbg", 0)) throw; sym_fail("refresh failed"); }
    s->close(); r->close();
}
// Many pages, so that every transaction changes several index pages: a reader opened at one of the states refreshes
// towards a later one while further transactions reach the file between any two of its reads.
HARNESS(store_refresh_index) {
    const unsigned N = sym_param("pages", 60), G = sym_param("groups", 3), T = sym_param("txns", 5); create(); PLAIN = true;
    auto s = open(); std::vector<uint8_t> b(PS, 0), g(PS); std::vector<std::vector<uint8_t>> ver(1, std::vector<uint8_t>(N, 0)); uint64_t at[16];
    unsigned turn = choose("turn", sym_param("turns", 2));
    sym_assume(G <= N / 5); // every transaction changes something
    for (unsigned st = 1; st <= T; ++st) {
        ver.push_back(ver.back());
        for (unsigned p = 0; p < N; ++p) if (st == 1 || (turn == 0 ? p % (N / 5) == st % G : p * G / N == (st * turn) % G)) { for (size_t i = 0; i < PS; ++i) b[i] = i & 1 ? p : st; s->write(p * PS, st, PS, b.data()); ver[st][p] = st; }
        s->flush(); at[st] = mfs_journal_size();
    }
    unsigned first = 1 + choose("opened at", sym_param("firsts", 2)), seen = first + choose("committed before", T - first + 1);
    uint64_t k1 = at[seen], most = sym_param("part", 2); if (seen < T) { uint64_t d = choose("part", most + 1); k1 += d * (at[seen + 1] - at[seen]) / (most + 1); }
    unsigned to = seen + choose("committed meanwhile", T - seen + 1), rd = 0; if (to > seen) rd = choose("read", sym_param("reads", 24)); else if (k1 != at[seen]) sym_stop();
    const char *R = "crash.db0"; mfs_image(R, F, at[first], 0); std::vector<std::vector<bool>> told(N, std::vector<bool>(T + 1, false)); unsigned cur = first;
    try {
        auto r = open_at(R, AccessType::READ_ONLY); CHECK(r->getMaxStateNum() == first, "reader's state"); mfs_apply(R, F, at[first], k1);
        if (to > seen) mfs_race(R, F, k1, at[to], 0, rd); else k1 = at[to];
        auto refresh = [&](unsigned known, bool all) {
            if (r->beginRefresh()) r->completeRefresh([&](uint64_t p, StateNumType sn) { CHECK(p < N && sn <= T, "notification"); told[p][sn] = true; });
            bool raced = to > seen && !mfs_race_pending(); if (to > seen && !raced && !all) sym_stop(); // fewer reads: the same as a race at the end
            unsigned now = r->getMaxStateNum(); CHECK(now >= cur && now >= known && now <= to, "refreshed state");
            for (unsigned p = 0; p < N; ++p) { for (unsigned x = cur + 1; x <= now; ++x) CHECK(ver[x][p] != x || told[p][x], "changed page not reported by the refresh"); r->read(p * PS, now, PS, g.data(), { AccessOptions::read }); for (size_t i = 0; i < PS; ++i) CHECK(g[i] == (i & 1 ? p : ver[now][p]), "page of the refreshed state"); }
            cur = now;
        };
        refresh(seen, false); sym_cover("refreshed"); refresh(cur, true); if (cur != to) refresh(cur, true); CHECK(cur == to, "reader does not reach the last state"); r->close(); sym_cover("end");
    } catch (db0::AbstractException &) { if (sym_param("dbg", 0)) throw; sym_fail("refresh failed"); }
    s->close();
}
HARNESS(store_refresh) { refresh_run(false); }
HARNESS(store_refresh_torn) { refresh_run(true); }
