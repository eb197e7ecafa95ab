// Harness API.  In the symbolic engine these are intrinsics; in a native build they are
// implemented by runtime/native.cpp, which replays a recorded assignment.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_u64(const char *name);
uint32_t sym_u32(const char *name);
uint16_t sym_u16(const char *name);
uint8_t sym_u8(const char *name);
bool sym_bool(const char *name);
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi); // inclusive; lo, hi concrete
void sym_bytes(void *p, size_t n, const char *name);
void sym_assume(bool c);
void sym_check(bool c, const char *msg);
void sym_fail(const char *msg);
uint64_t sym_concretize(uint64_t v);   // case split over every feasible value
void sym_cover(const char *label);     // reachability witness
void sym_observe(const char *name, uint64_t v); // compared between engine and native replay
uint64_t sym_param(const char *name, uint64_t dflt);
void sym_debug(const char *name, uint64_t v);
void sym_stop();
}
#define CHECK(c, msg) sym_check((c), msg)
#define ASSUME(c) sym_assume((c))
// n-way case split, value known to be concrete afterwards
static inline uint64_t choose(const char *name, uint64_t n) { return sym_concretize(sym_range(name, 0, n - 1)); }
#define HARNESS(NAME) extern "C" void NAME()
