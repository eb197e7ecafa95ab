// Diff encoding between two versions of a page: applying the encoded diff to the old version gives the new one.
#include "sym.h"
#include <dbzero/core/memory/diff_utils.hpp>
#include <vector>
#include <cstring>
#include <algorithm>
using namespace db0;
// old/new page of N symbolic bytes, symbolic threshold and area limit
HARNESS(diff_pair_roundtrip) {
    size_t N = sym_param("n", 9);
    uint8_t a[32], b[32], out[32];
    sym_bytes(a, N, "old"); sym_bytes(b, N, "new");
    uint64_t max_diff = sym_range("max_diff", 0, 2 * N + 4);
    std::vector<uint16_t> d;
    bool ok = getDiffs(a, b, N, d, max_diff, N + 3);
    if (!ok) { sym_cover("rejected"); return; }
    if (d.empty()) { CHECK(memcmp(a, b, N) == 0, "empty diff for pages that differ"); sym_cover("identical"); return; }
    memcpy(out, a, N);
    applyDiffs(d, b, (std::byte *)out, (std::byte *)out + N);
    CHECK(memcmp(out, b, N) == 0, "old + diff != new");
    sym_observe("areas", d.size());
    sym_cover("roundtrip");
}
HARNESS(diff_zero_roundtrip) {
    size_t N = sym_param("n", 10);
    uint8_t b[32], out[32];
    sym_bytes(b, N, "new");
    std::vector<uint16_t> d;
    bool ok = getDiffs(b, N, d, 3 * N + 6, N + 6);
    if (!ok) { sym_cover("rejected"); return; }
    sym_bytes(out, N, "base");
    applyDiffs(d, b, (std::byte *)out, (std::byte *)out + N);
    CHECK(memcmp(out, b, N) == 0, "zero base + diff != new");
    sym_cover("roundtrip");
}
// forced ranges: whatever lies in a marked range is carried by the diff even when the shadow copy already matches
static void ranges(DiffRange &r, size_t N, unsigned k, uint8_t *mark) {
    for (unsigned i = 0; i < k; ++i) {
        uint64_t lo = choose("lo", N), len = 1 + choose("len", N);
        if (lo + len > N) sym_assume(false);
        r.insert(lo, lo + len, 100);
        for (uint64_t j = lo; j < lo + len; ++j) mark[j] = 1;
    }
}
HARNESS(diff_forced_ranges) {
    size_t N = sym_param("n", 6);
    uint8_t a[16], b[16], out[16], mark[16] = {0};
    sym_bytes(a, N, "old"); sym_bytes(b, N, "new"); sym_bytes(out, N, "base");
    DiffRange r; ranges(r, N, 2, mark);
    bool zero = sym_bool("zero_base");
    std::vector<uint16_t> d;
    bool ok = zero ? getDiffs(b, N, d, 8 * N + 20, 4 * N, DiffRangeView(r)) : getDiffs(a, b, N, d, 8 * N + 20, 4 * N, DiffRangeView(r));
    CHECK(ok, "diff under the limits was rejected");
    // base differs from the new version only inside the marked ranges or where the pages differ
    if (!zero) for (size_t i = 0; i < N; ++i) if (!mark[i]) out[i] = a[i];
    applyDiffs(d, b, (std::byte *)out, (std::byte *)out + N);
    for (size_t i = 0; i < N; ++i) CHECK(out[i] == b[i], "byte of a forced or changed range was lost");
    sym_cover("roundtrip");
}
// a sub-range view reports exactly the marked bytes inside [begin,end), relative to begin
HARNESS(diff_range_view) {
    size_t N = sym_param("n", 6);
    uint8_t mark[16] = {0};
    DiffRange r; ranges(r, N, 2, mark);
    uint64_t b = choose("begin", N), e = 1 + choose("end", N); sym_assume(b < e);
    DiffRangeView v(r, b, e);
    uint8_t seen[16] = {0};
    for (size_t i = 0; i < v.size(); ++i) {
        auto p = v[i];
        CHECK(p.second <= e - b && p.first <= p.second, "view range outside the window");
        CHECK(v.sizeOf(i) == p.second - p.first, "size of a range in the view");
        for (unsigned j = p.first; j < p.second; ++j) seen[b + j] = 1;
    }
    for (size_t i = b; i < e; ++i) CHECK(seen[i] == mark[i], "view lost or invented a modified byte");
    sym_cover("viewed");
}
