// Streams of blocks: chunks come back in order, complete and unchanged - after reopening, to a reader which follows the
// writer, after a crash at any point and after media corruption; positions, change logs and the meta log
#include "sym.h"
#include "memfs.h"
#include <dbzero/core/storage/BlockIOStream.hpp>
#include <dbzero/core/storage/ChangeLogIOStream.hpp>
#include <dbzero/core/storage/MetaIOStream.hpp>
#include <dbzero/core/storage/ChangeLogTypes.hpp>
#include <dbzero/core/storage/CFile.hpp>
#include <vector>
#include <memory>
#include <algorithm>
#include <cstring>
using namespace db0;
static const char *F = "s.db0";
static const unsigned BS = 64;
using Chunk = std::vector<uint8_t>;
static const unsigned SIZES[] = { 1, 20, 36, 44, 52, 56, 100, 130, 40, 48, 32, 28 };
static unsigned pick_size() { return SIZES[choose("size", sym_param("sizes", 5))]; }
static bool CK; // checksums
static unsigned seq;
static Chunk mk(unsigned n, bool symbolic) { Chunk c(n); ++seq; for (unsigned i = 0; i < n; ++i) c[i] = (uint8_t)(seq * 16 + i); if (symbolic) c[0] = sym_u8("data"); return c; }
// two streams of one file, each allocating its blocks after the other
struct Two {
    CFile f; std::unique_ptr<BlockIOStream> s[2];
    Two(const char *n, AccessType t) : f(n, t, LockFlags(true)) {
        for (unsigned i = 0; i < 2; ++i) s[i] = std::make_unique<BlockIOStream>(f, i * BS, BS, [this, i]() -> uint64_t { return s[1 - i] ? s[1 - i]->tail() : 2 * BS; }, t, CK);
    }
    void close() { s[0]->close(); s[1]->close(); f.close(); }
};
static void append(BlockIOStream &s, const Chunk &c, std::vector<Chunk> &m, uint64_t *addr = nullptr) { s.addChunk(c.size(), addr); s.appendToChunk(c.data(), c.size()); m.push_back(c); }
static bool same(const Chunk &c, const std::vector<char> &b, size_t n) { uint64_t d = n != c.size(); for (size_t i = 0; i < n && i < c.size(); ++i) d |= (uint8_t)b[i] ^ c[i]; return d == 0; }
// reads to the end, continuing at chunk `from`: returns the number of chunks known then
static size_t read_all(BlockIOStream &s, const std::vector<Chunk> &m, size_t from, const char *msg) {
    std::vector<char> b; size_t k = from;
    while (size_t n = s.readChunk(b)) { CHECK(k < m.size(), msg); CHECK(same(m[k], b, n), msg); ++k; }
    CHECK(s.eos(), "end of stream flag"); CHECK(s.readChunk(b) == 0, "nothing after the end");
    return k;
}
static void setup() { CK = sym_param("ck", 2) < 2 ? sym_param("ck", 2) : choose("ck", 2); seq = 0; CFile::create(F, {}); }
static void prefill(Two &t, std::vector<Chunk> *m) { for (unsigned i = 0, n = sym_param("pre", 0); i < n; ++i) append(*t.s[i & 1], mk(20 + 8 * (i % 4), false), m[i & 1]); }
// appends, flushes, reopens, and a reader which follows
HARNESS(stream_history) {
    setup(); std::vector<Chunk> m[2]; size_t flushed[2] = { 0, 0 }, seen[2] = { 0, 0 };
    auto w = std::make_unique<Two>(F, AccessType::READ_WRITE); prefill(*w, m);
    std::unique_ptr<Two> r; bool reader = sym_param("reader", 1);
    if (reader) { w->s[0]->flush(); w->s[1]->flush(); for (unsigned i = 0; i < 2; ++i) flushed[i] = m[i].size(); r = std::make_unique<Two>(F, AccessType::READ_ONLY); for (unsigned i = 0; i < 2; ++i) { seen[i] = read_all(*r->s[i], m[i], 0, "reader"); CHECK(seen[i] == flushed[i], "reader sees all flushed chunks"); } }
    for (unsigned k = 0, K = sym_param("steps", 4); k < K; ++k) switch (choose("op", reader ? 5 : 4)) {
        case 0: append(*w->s[0], mk(pick_size(), true), m[0]); break;
        case 1: append(*w->s[1], mk(pick_size(), true), m[1]); break;
        case 2: for (unsigned i = 0; i < 2; ++i) { w->s[i]->flush(); flushed[i] = m[i].size(); } sym_cover("flush"); break;
        case 3: w->close(); w = std::make_unique<Two>(F, AccessType::READ_WRITE); for (unsigned i = 0; i < 2; ++i) { CHECK(read_all(*w->s[i], m[i], 0, "reopened") == m[i].size(), "all chunks after reopening"); flushed[i] = m[i].size(); } sym_cover("reopen"); break;
        default: for (unsigned i = 0; i < 2; ++i) { bool more = r->s[i]->refresh(); size_t n = read_all(*r->s[i], m[i], seen[i], "refreshed"); CHECK(n >= flushed[i] && n <= m[i].size(), "reader catches up with the flushed chunks"); CHECK(more || n == seen[i], "refresh reports new chunks"); seen[i] = n; } sym_cover("refresh");
    }
    w->close(); w = nullptr;
    if (reader) for (unsigned i = 0; i < 2; ++i) { bool more = r->s[i]->refresh(); CHECK(read_all(*r->s[i], m[i], seen[i], "refreshed") == m[i].size(), "reader catches up"); CHECK(more || seen[i] == m[i].size(), "refresh reports new chunks"); }
    Two x(F, AccessType::READ_ONLY); for (unsigned i = 0; i < 2; ++i) CHECK(read_all(*x.s[i], m[i], 0, "final") == m[i].size(), "all chunks at the end");
    sym_cover("end");
}
// a crash between any two writes; optionally a reader which has seen an earlier, incomplete image
HARNESS(stream_crash) {
    setup(); std::vector<Chunk> m[2];
    auto w = std::make_unique<Two>(F, AccessType::READ_WRITE); prefill(*w, m); w->s[0]->flush(); w->s[1]->flush();
    size_t before[2] = { m[0].size(), m[1].size() }; uint64_t j0 = mfs_journal_size();
    for (unsigned k = 0, K = sym_param("steps", 2); k < K; ++k) { unsigned i = choose("stream", 2); append(*w->s[i], mk(pick_size(), true), m[i]); }
    if (choose("order", 2)) { w->s[1]->flush(); w->s[0]->flush(); } else { w->s[0]->flush(); w->s[1]->flush(); }
    uint64_t j1 = mfs_journal_size(), k = j0 + choose("crash", j1 - j0 + 1);
    w->close();
    if (sym_param("follow", 0)) { // a reader refreshes after each of the writes
        mfs_image("c.db0", F, j0, 0); Two r("c.db0", AccessType::READ_ONLY); size_t seen[2]; for (unsigned i = 0; i < 2; ++i) seen[i] = read_all(*r.s[i], m[i], 0, "reader");
        for (uint64_t j = j0; j < j1; ++j) { if (mfs_journal_len(j)) mfs_apply_one("c.db0", F, j); if (j + 1 < k && sym_param("follow", 0) < 2) continue; for (unsigned i = 0; i < 2; ++i) { r.s[i]->refresh(); seen[i] = read_all(*r.s[i], m[i], seen[i], "reader follows"); } }
        CHECK(seen[0] == m[0].size() && seen[1] == m[1].size(), "reader which saw incomplete writes catches up"); sym_cover("followed"); return;
    }
    mfs_image("c.db0", F, k, 0);
    auto x = std::make_unique<Two>("c.db0", AccessType::READ_WRITE);
    for (unsigned i = 0; i < 2; ++i) { size_t n = read_all(*x->s[i], m[i], 0, "after a crash"); CHECK(n >= before[i], "flushed chunk lost"); CHECK(k != j1 || n == m[i].size(), "flushed chunk lost"); m[i].resize(n); }
    for (unsigned i = 0, n = sym_param("after", 1); i < n; ++i) { append(*x->s[0], mk(pick_size(), false), m[0]); append(*x->s[1], mk(40, false), m[1]); }
    x->close(); x = std::make_unique<Two>("c.db0", AccessType::READ_ONLY);
    for (unsigned i = 0; i < 2; ++i) CHECK(read_all(*x->s[i], m[i], 0, "after recovery") == m[i].size(), "chunks after recovery and another append");
    sym_cover("end");
}
// one word of the file changed: with checksums only complete, unchanged chunks are returned
HARNESS(stream_corrupt) {
    setup(); CK = true; std::vector<Chunk> m[2];
    { Two w(F, AccessType::READ_WRITE); for (unsigned i = 0, n = sym_param("pre", 4); i < n; ++i) append(*w.s[i & 1], mk(pick_size(), true), m[i & 1]); w.close(); }
    uint64_t word = choose("word", mfs_size(F) / 8); uint64_t x = sym_u64("flip"); sym_assume(x != 0);
    for (unsigned i = 0; i < 8; ++i) *mfs_at(F, word * 8 + i) ^= (uint8_t)(x >> (8 * i));
    Two r(F, choose("rw", 2) ? AccessType::READ_WRITE : AccessType::READ_ONLY); bool lost = false;
    for (unsigned i = 0; i < 2; ++i) { size_t n = read_all(*r.s[i], m[i], 0, "corrupted block accepted"); lost |= n != m[i].size(); }
    if (r.f.getAccessType() == AccessType::READ_WRITE) r.close();
    sym_cover(lost ? "lost" : "kept");
}
// positions: saved and restored, jumping back, addresses of chunks
HARNESS(stream_pos) {
    setup(); std::vector<Chunk> m[2]; std::vector<uint64_t> at; Two w(F, AccessType::READ_WRITE); auto &s = *w.s[0];
    unsigned n = sym_param("n", 4), rd = choose("chunks", n + 1);
    uint64_t last = 0; for (unsigned i = 0; i < n; ++i) { uint64_t a; append(s, mk(pick_size(), true), m[0], &a); at.push_back(a); if (i & 1) append(*w.s[1], mk(20, false), m[1]); CHECK(s.tell() > last, "tell grows"); last = s.tell(); }
    s.flush(); BlockIOStream::State st; s.saveState(st); uint64_t end = s.tell();
    s.setStreamPosHead(); std::vector<char> b; std::pair<uint64_t, uint64_t> pos = s.getStreamPos();
    for (unsigned i = 0; i < n; ++i) { if (i == rd) pos = s.getStreamPos(); uint64_t a; size_t k = s.readChunk(b, choose("exp", 2) ? m[0][i].size() : 0, &a); CHECK(same(m[0][i], b, k), "chunk after rewinding"); CHECK(a == at[i], "chunk address"); }
    if (rd == n) pos = s.getStreamPos();
    CHECK(s.readChunk(b) == 0, "end");
    s.setStreamPos(pos); CHECK(read_all(s, m[0], rd, "chunks after jumping") == n, "chunks after jumping");
    if (choose("restore", 2)) { s.restoreState(st); CHECK(s.tell() == end && s.eos(), "state restored"); }
    append(s, mk(pick_size(), true), m[0]);
    w.close(); Two x(F, AccessType::READ_ONLY); for (unsigned i = 0; i < 2; ++i) CHECK(read_all(*x.s[i], m[i], 0, "final") == m[i].size(), "all chunks at the end");
    sym_cover("end");
}
// change logs
template <typename L> static void log_same(const L &l, const std::vector<uint64_t> &v, const char *msg) { size_t k = 0; uint64_t d = 0; for (auto it = l.begin(), e = l.end(); it != e; ++it) { CHECK(k < v.size(), msg); d |= *it ^ v[k++]; } CHECK(k == v.size() && d == 0, msg); }
HARNESS(stream_changelog) {
    CFile::create(F, {}); unsigned n = sym_param("n", 3), L = sym_param("logs", 2); std::vector<std::vector<uint64_t>> m;
    using S = ChangeLogIOStream<o_change_log<o_dp_changelog_header>>; uint64_t hdr[8];
    { CFile f(F, AccessType::READ_WRITE, LockFlags(true)); S s(f, 0, BS * 2, {}, AccessType::READ_WRITE); auto wr = s.getStreamWriter(); bool use_writer = choose("writer", 2);
      for (unsigned i = 0; i < L; ++i) {
        unsigned k = choose("count", n + 1); std::vector<uint64_t> v(k); for (auto &x : v) x = sym_range("v", 0, 5); bool rle = choose("rle", 2), dup = choose("dup", 2);
        auto e = v; if (rle) { std::sort(e.begin(), e.end()); if (!dup) e.erase(std::unique(e.begin(), e.end()), e.end()); }
        ChangeLogData d(v, rle, dup, false); hdr[i] = sym_u64("end");
        if (use_writer) { wr.appendChangeLog(d, 7 + i, hdr[i]); } else { auto &l = s.appendChangeLog(std::move(d), 7 + i, hdr[i]); log_same(l, e, "appended log"); log_same(*s.getLastChangeLogChunk(), e, "last log"); }
        m.push_back(e);
      }
      if (use_writer) { CHECK(!s.getLastChangeLogChunk(), "nothing written before the flush"); wr.flush(); sym_cover("writer"); }
      s.close(); f.close(); }
    CFile f(F, AccessType::READ_ONLY, LockFlags(true)); S s(f, 0, BS * 2, {}, AccessType::READ_ONLY);
    auto rd = s.getStreamReader(); unsigned first = choose("before", L + 1);
    for (unsigned i = 0; i < first; ++i) { auto p = rd.readChangeLogChunk(); CHECK(p, "log missing"); log_same(*p, m[i], "log read back"); CHECK(p->m_state_num == 7 + i && p->m_end_storage_page_num == hdr[i], "log header"); }
    if (choose("reset", 2)) { rd.reset(); for (unsigned i = 0; i < L; ++i) { auto p = rd.readChangeLogChunk(); CHECK(p, "log missing after reset"); log_same(*p, m[i], "log read again"); CHECK(p->m_state_num == 7 + i && p->m_end_storage_page_num == hdr[i], "log header"); } CHECK(!rd.readChangeLogChunk(), "end of logs"); sym_cover("reset"); }
    else { for (unsigned i = first; i < L; ++i) { auto p = s.readChangeLogChunk(); CHECK(p, "log missing"); log_same(*p, m[i], "log read back"); } CHECK(!s.readChangeLogChunk(), "end of logs"); if (L) log_same(*s.getLastChangeLogChunk(), m[L - 1], "last log"); }
    sym_cover("end");
}
struct Managed : BlockIOStream { std::vector<char> b; using BlockIOStream::BlockIOStream; using BlockIOStream::readChunk; size_t readChunk() override { return BlockIOStream::readChunk(b); } };
// the meta log: finds the checkpoint of a state and positions the managed streams at their ends
HARNESS(stream_meta) {
    CFile::create(F, {}); CK = true; seq = 0; std::vector<Chunk> m; std::vector<uint32_t> logs; unsigned step = sym_param("step", 60);
    auto tail = [](BlockIOStream *a, BlockIOStream *b) -> uint64_t { return std::max(a ? a->tail() : 0, b ? b->tail() : 0); };
    struct M { CFile f; std::unique_ptr<BlockIOStream> s; std::unique_ptr<MetaIOStream> meta; M(AccessType t, unsigned step, decltype(tail) &tl) : f(F, t, LockFlags(true)) { auto fn = [this, &tl]() { return tl(s.get(), meta.get()); }; s = std::make_unique<Managed>(f, 0, BS, fn, t, true); meta = std::make_unique<MetaIOStream>(f, std::vector<BlockIOStream *>{ s.get() }, BS, BS, fn, t, false, step); } };
    auto w = std::make_unique<M>(AccessType::READ_WRITE, step, tail); w->meta->setTailAll();
    uint32_t st = 0; std::vector<uint32_t> states; size_t last = 0; bool fresh = false;
    for (unsigned k = 0, K = sym_param("steps", 4); k < K; ++k) switch (choose("op", 2)) {
        case 0: { st += 1 + choose("gap", 2); states.push_back(st); auto pos = w->meta->tell(); w->meta->checkAndAppend(st); bool wrote = w->meta->tell() != pos; w->meta->flush(); if (!fresh) { CHECK(wrote == (w->s->tell() - last > step), "checkpoint after every step"); } if (wrote) { logs.push_back(st); last = w->s->tell(); fresh = false; sym_cover("checkpoint"); } append(*w->s, mk(pick_size(), true), m); w->s->flush(); break; }
        default: w->meta->close(); w->s->close(); w->f.close(); w = std::make_unique<M>(AccessType::READ_WRITE, step, tail); w->meta->setTailAll(); fresh = true; CHECK(w->s->eos() && w->meta->eos(), "streams at their ends"); sym_cover("reopen");
    }
    uint32_t q = choose("query", st + 3); std::vector<char> buf; w->meta->flush(); auto at = w->meta->tell(); auto l = w->meta->lowerBound(q, buf);
    uint32_t want = 0; for (auto x : logs) if (x <= q) want = x;
    CHECK(!!l == (want != 0), "checkpoint exists"); CHECK(!l || l->m_state_num == want, "nearest checkpoint"); CHECK(w->meta->tell() == at, "position kept");
    if (l) { size_t skip = 0; for (auto x : states) if (x < want) ++skip; auto it = l->getMetaItems().begin(); w->s->setStreamPos(it->m_address, it->m_stream_pos); CHECK(read_all(*w->s, m, skip, "chunks after the checkpoint") == m.size(), "chunks after the checkpoint"); sym_cover("found"); }
    w->meta->close(); w->s->close(); w->f.close(); w = nullptr;
    M x(AccessType::READ_ONLY, step, tail); CHECK(read_all(*x.s, m, 0, "final") == m.size(), "all chunks at the end"); size_t k = 0; while (auto *p = x.meta->readMetaLog()) { CHECK(k < logs.size() && p->m_state_num == logs[k], "meta logs"); ++k; } CHECK(k == logs.size(), "meta logs"); sym_cover("end");
}
