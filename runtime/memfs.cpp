#include "memfs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <sys/stat.h>
static const uint64_t CH = 4096; static const unsigned MAXF = 24, MAXCH = 1u << 15;
struct MNode { char name[64]; bool used; uint64_t size; uint64_t mtime; uint8_t **ch; uint32_t nch, cap; };
struct MFile { MNode *n; uint64_t pos; bool app, rd; };
struct JOp { MNode *n; uint64_t off, len; uint8_t *data; uint8_t kind; };
static MNode nodes[MAXF]; static JOp *jr; static uint64_t njr, capjr; static uint64_t tick = 1, failAt = ~0ull;
static MNode *find(const char *p) { for (unsigned i = 0; i < MAXF; ++i) if (nodes[i].used && !strcmp(nodes[i].name, p)) return &nodes[i]; return nullptr; }
static MNode *make(const char *p) {
    MNode *n = find(p); if (n) return n;
    for (unsigned i = 0; i < MAXF; ++i) if (!nodes[i].used) { n = &nodes[i]; size_t l = strlen(p); if (l > 63) abort(); memcpy(n->name, p, l + 1); n->used = true; n->size = 0; n->mtime = tick++; n->ch = 0; n->nch = n->cap = 0; return n; }
    abort();
}
static uint8_t *chunk(MNode *n, uint64_t i) {
    if (i >= MAXCH) { fprintf(stderr, "memfs: file too large\n"); abort(); }
    if (i >= n->cap) { uint32_t c = n->cap ? n->cap * 2 : 16; while (c <= i) c *= 2; uint8_t **q = (uint8_t **)malloc(c * sizeof(uint8_t *)); if (n->cap) { memcpy(q, n->ch, n->cap * sizeof(uint8_t *)); free(n->ch); } memset(q + n->cap, 0, (c - n->cap) * sizeof(uint8_t *)); n->ch = q; n->cap = c; }
    if (!n->ch[i]) { n->ch[i] = (uint8_t *)malloc(CH); memset(n->ch[i], 0, CH); }
    return n->ch[i];
}
static void put(MNode *n, uint64_t off, const uint8_t *d, uint64_t len) {
    while (len) { uint64_t o = off % CH, k = CH - o < len ? CH - o : len; memcpy(chunk(n, off / CH) + o, d, k); off += k; d += k; len -= k; }
    if (off > n->size) n->size = off;
    n->mtime = tick++;
}
static void get(MNode *n, uint64_t off, uint8_t *d, uint64_t len) {
    while (len) { uint64_t o = off % CH, k = CH - o < len ? CH - o : len; uint64_t c = off / CH; if (c < n->cap && n->ch[c]) memcpy(d, n->ch[c] + o, k); else memset(d, 0, k); off += k; d += k; len -= k; }
}
static void wipe(MNode *n) { for (uint32_t i = 0; i < n->cap; ++i) if (n->ch[i]) free(n->ch[i]); if (n->ch) free(n->ch); n->ch = 0; n->cap = 0; n->size = 0; }
static void jadd(MNode *n, uint64_t off, const void *d, uint64_t len, uint8_t kind) {
    if (njr == capjr) { uint64_t c = capjr ? capjr * 2 : 256; JOp *q = (JOp *)malloc(c * sizeof(JOp)); if (njr) { memcpy(q, jr, njr * sizeof(JOp)); free(jr); } jr = q; capjr = c; }
    JOp &j = jr[njr++]; j.n = n; j.off = off; j.len = len; j.kind = kind; j.data = nullptr;
    if (len) { j.data = (uint8_t *)malloc(len); memcpy(j.data, d, len); }
}
// a concurrent writer of another process: its next writes reach the file in front of a given read
static struct { bool on; MNode *d; char src[64]; uint64_t from, to, torn, reads; } race;
static void race_fire(MNode *n);
extern "C" {
FILE *mfs_fopen(const char *p, const char *m) {
    MNode *n = find(p);
    if (m[0] == 'r') { if (!n) { errno = ENOENT; return nullptr; } }
    else { if (!n) n = make(p); else if (m[0] == 'w') wipe(n); }
    MFile *f = (MFile *)malloc(sizeof(MFile)); f->n = n; f->pos = 0; f->app = m[0] == 'a'; f->rd = m[0] == 'r' && m[1] != '+' && m[2] != '+';
    return (FILE *)f;
}
int mfs_fclose(FILE *ff) { MFile *f = (MFile *)ff; jadd(f->n, 0, 0, 0, 3); free(f); return 0; }
size_t mfs_fwrite(const void *b, size_t s, size_t c, FILE *ff) {
    MFile *f = (MFile *)ff; if (f->rd) return 0;
    if (failAt != ~0ull) { if (failAt == 0) { errno = EIO; return 0; } --failAt; }
    if (f->app) f->pos = f->n->size;
    if (s * c) { jadd(f->n, f->pos, b, s * c, 0); put(f->n, f->pos, (const uint8_t *)b, s * c); f->pos += s * c; }
    return c;
}
size_t mfs_fread(void *b, size_t s, size_t c, FILE *ff) {
    MFile *f = (MFile *)ff; if (!s || !c) return 0;
    if (race.on && race.d == f->n) race_fire(f->n);
    uint64_t av = f->pos < f->n->size ? f->n->size - f->pos : 0; uint64_t want = s * c; if (want > av) want = av;
    get(f->n, f->pos, (uint8_t *)b, want); f->pos += want; return want / s;
}
int mfs_fseek(FILE *ff, long o, int w) { MFile *f = (MFile *)ff; long p = w == SEEK_SET ? o : w == SEEK_CUR ? (long)f->pos + o : (long)f->n->size + o; if (p < 0) { errno = EINVAL; return -1; } f->pos = p; return 0; }
long mfs_ftell(FILE *ff) { return ((MFile *)ff)->pos; }
int mfs_fseeko(FILE *f, long o, int w) { return mfs_fseek(f, o, w); }
long mfs_ftello(FILE *f) { return mfs_ftell(f); }
void mfs_rewind(FILE *f) { mfs_fseek(f, 0, SEEK_SET); }
int mfs_fflush(FILE *ff) { if (ff && ff != stdout && ff != stderr) jadd(((MFile *)ff)->n, 0, 0, 0, 1); return 0; }
int mfs_fileno(FILE *ff) { return 100 + (int)(((MFile *)ff)->n - nodes); }
int mfs_fsync(int fd) { if (fd >= 100) jadd(&nodes[fd - 100], 0, 0, 0, 2); return 0; }
int mfs_fdatasync(int fd) { return mfs_fsync(fd); }
int mfs_stat(const char *p, struct stat *st) { MNode *n = find(p); if (!n) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_size = n->size; st->st_mode = S_IFREG | 0644; st->st_mtim.tv_sec = n->mtime; return 0; }
int mfs_remove(const char *p) { MNode *n = find(p); if (!n) { errno = ENOENT; return -1; } wipe(n); n->used = false; return 0; }
int mfs_unlink(const char *p) { return mfs_remove(p); }
int mfs_rename(const char *a, const char *b) { MNode *n = find(a); if (!n) { errno = ENOENT; return -1; } MNode *o = find(b); if (o) { wipe(o); o->used = false; } size_t l = strlen(b); if (l > 63) abort(); memcpy(n->name, b, l + 1); return 0; }
// ---- harness side
uint64_t mfs_journal_size() { return njr; }
uint64_t mfs_journal_len(uint64_t i) { return jr[i].len; }
uint64_t mfs_journal_off(uint64_t i) { return jr[i].off; }
uint64_t mfs_journal_kind(uint64_t i) { return jr[i].kind; }
void mfs_apply_one(const char *dst, const char *src, uint64_t op) { MNode *d = make(dst), *s = find(src); if (jr[op].n == s && jr[op].len) put(d, jr[op].off, jr[op].data, jr[op].len); }
void mfs_apply(const char *dst, const char *src, uint64_t from, uint64_t to) { for (uint64_t i = from; i < to && i < njr; ++i) mfs_apply_one(dst, src, i); }
void mfs_image(const char *dst, const char *src, uint64_t nops, uint64_t torn) {
    MNode *d = make(dst), *s = find(src); wipe(d); (void)s;
    mfs_apply(dst, src, 0, nops);
    if (torn && nops < njr && jr[nops].n == s) { uint64_t k = torn < jr[nops].len ? torn : jr[nops].len; if (k) put(d, jr[nops].off, jr[nops].data, k); }
}
void mfs_copy(const char *dst, const char *src) { MNode *s = find(src); if (!s) abort(); MNode *d = make(dst); wipe(d); for (uint32_t i = 0; i < s->cap; ++i) if (s->ch[i]) { uint64_t o = i * CH; uint64_t k = s->size - o < CH ? s->size - o : CH; if (o < s->size) put(d, o, s->ch[i], k); } d->size = s->size; }
void mfs_race(const char *dst, const char *src, uint64_t from, uint64_t to, uint64_t torn, uint64_t reads) { race.on = true; race.d = make(dst); memcpy(race.src, src, strlen(src) + 1); race.from = from; race.to = to; race.torn = torn; race.reads = reads; }
bool mfs_race_pending() { return race.on; }
void mfs_race_off() { race.on = false; }
void mfs_apply_torn(const char *dst, const char *src, uint64_t op, uint64_t torn) { MNode *d = make(dst), *s = find(src); if (op < njr && jr[op].n == s && jr[op].len && torn) put(d, jr[op].off, jr[op].data, torn < jr[op].len ? torn : jr[op].len); }
uint64_t mfs_size(const char *p) { MNode *n = find(p); return n ? n->size : 0; }
uint8_t *mfs_at(const char *p, uint64_t off) { MNode *n = find(p); return chunk(n, off / CH) + off % CH; }
void mfs_fail_after(uint64_t n) { failAt = n; }
}
static void race_fire(MNode *n) {
    if (race.reads) { --race.reads; return; }
    race.on = false; mfs_apply(n->name, race.src, race.from, race.to); mfs_apply_torn(n->name, race.src, race.to, race.torn);
}
