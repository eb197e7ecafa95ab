// Native side of the harness API: replays one assignment through the real code.
// usage: replay ENTRY FILE [k=v ...]; FILE holds "width value name" lines in creation order.
// exit codes: 0 = ran to the end, 77 = assumption false (input outside the claim), 66 = a check failed,
// 67 = uncaught exception; anything else is a crash of the code itself.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
static std::vector<std::pair<int, uint64_t>> in_; static size_t pos_; static std::map<std::string, uint64_t> par_;
static void done(int c) { fflush(stdout); _exit(c); }
static uint64_t next(unsigned w, const char *name) {
    if (pos_ >= in_.size()) { ++pos_; return 0; }
    auto v = in_[pos_++]; uint64_t m = w >= 64 ? ~0ull : ((1ull << w) - 1); return v.second & m;
}
extern "C" {
uint64_t sym_u64(const char *n) { return next(64, n); }
uint32_t sym_u32(const char *n) { return next(32, n); }
uint16_t sym_u16(const char *n) { return next(16, n); }
uint8_t sym_u8(const char *n) { return next(8, n); }
bool sym_bool(const char *n) { return next(1, n); }
uint64_t sym_range(const char *n, uint64_t lo, uint64_t hi) { if (lo == hi) return lo; uint64_t d = hi - lo; unsigned w = 64 - __builtin_clzll(d); uint64_t v = next(w, n); if (v > d) { printf("ASSUME-FALSE %s\n", n); done(77); } return lo + v; }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; ++i) ((uint8_t *)p)[i] = next(8, name); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); done(77); } }
void sym_check(bool c, const char *msg) { if (!c) { printf("CHECK-FAILED %s\n", msg); done(66); } }
void sym_fail(const char *msg) { printf("CHECK-FAILED %s\n", msg); done(66); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_cover(const char *l) { printf("COVER %s\n", l); }
void sym_observe(const char *n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
uint64_t sym_param(const char *n, uint64_t d) { auto i = par_.find(n); return i == par_.end() ? d : i->second; }
void sym_debug(const char *n, uint64_t v) { printf("DEBUG %s %llu\n", n, (unsigned long long)v); }
void sym_stop() { printf("END\n"); done(0); }
}
typedef void (*Fn)();
int main(int argc, char **argv) { setvbuf(stdout, nullptr, _IOLBF, 65536);
    if (argc < 3) return 2;
    std::set_terminate([]() {
        if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception &x) { printf("UNCAUGHT %s\n", x.what()); } catch (...) { printf("UNCAUGHT ?\n"); } done(67); }
        printf("TERMINATE\n"); done(68);
    });
    FILE *f = fopen(argv[2], "r"); if (!f) return 2;
    char line[4096]; while (fgets(line, sizeof line, f)) { int w; unsigned long long v; if (sscanf(line, "%d %llu", &w, &v) == 2) in_.push_back({w, v}); }
    fclose(f);
    for (int i = 3; i < argc; ++i) { std::string a = argv[i]; auto e = a.find('='); if (e != std::string::npos) par_[a.substr(0, e)] = strtoull(a.c_str() + e + 1, 0, 0); }
    Fn fn = (Fn)dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("no entry %s\n", argv[1]); return 2; }
    fn(); printf("END\n"); done(0);
}
