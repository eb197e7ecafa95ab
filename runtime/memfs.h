// In-memory file system standing in for the disk: the code's stdio calls are redirected here (both in the
// symbolic engine and in native replays), so no real file is ever touched.
// Every fwrite is journalled; a crash image is the file system state after a prefix of the journal.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
struct MFile;
uint64_t mfs_journal_size();                     // number of journalled operations so far
uint64_t mfs_journal_len(uint64_t op);           // bytes written by operation `op`
uint64_t mfs_journal_off(uint64_t op);            // file offset of the write
uint64_t mfs_journal_kind(uint64_t op);          // 0 write, 1 fflush, 2 fsync, 3 close
// dst := content of src as of the journal prefix [0,nops) plus the first `torn` bytes of op `nops`
void mfs_image(const char *dst, const char *src, uint64_t nops, uint64_t torn);
// apply journal operations [from,to) of src to dst in place (dst may be open)
void mfs_apply(const char *dst, const char *src, uint64_t from, uint64_t to);
void mfs_apply_one(const char *dst, const char *src, uint64_t op);
// while dst is being read, in front of its (reads+1)-th read: operations [from,to) of src and `torn` bytes of operation `to`
void mfs_race(const char *dst, const char *src, uint64_t from, uint64_t to, uint64_t torn, uint64_t reads);
bool mfs_race_pending();
void mfs_race_off();
void mfs_apply_torn(const char *dst, const char *src, uint64_t op, uint64_t torn);
void mfs_copy(const char *dst, const char *src); // plain copy of the current content
uint64_t mfs_size(const char *path);
uint8_t *mfs_at(const char *path, uint64_t off); // direct access to one byte (to corrupt media)
void mfs_fail_after(uint64_t nwrites);           // the n-th following fwrite fails (I/O error); ~0 = never
}
