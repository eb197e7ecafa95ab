// Overlaid (stored) value types: what was written is what is read, in exactly the measured number of bytes.
#include "env0.h"
#include <dbzero/core/serialization/packed_int.hpp>
#include <dbzero/core/serialization/packed_int_pair.hpp>
#include <dbzero/core/serialization/packed_array.hpp>
#include <dbzero/core/serialization/micro_array.hpp>
#include <dbzero/core/serialization/ref_counter.hpp>
#include <dbzero/core/serialization/string.hpp>
#include <dbzero/core/serialization/list.hpp>
#include <dbzero/core/serialization/compose.hpp>
#include <dbzero/core/serialization/optional_item.hpp>
#include <dbzero/core/serialization/Serializable.hpp>
#include <dbzero/object_model/object/lofi_store.hpp>
using namespace db0;
using B = std::byte;
static const unsigned GUARD = 8;
// buffer with guard bytes on both sides
struct Buf { std::vector<B> v; Buf(size_t n) : v(n + 2 * GUARD, (B)0xA5) {} B *at() { return v.data() + GUARD; } const B *end() { return v.data() + v.size() - GUARD; }
    void guard(size_t used) { bool ok = true; for (size_t i = 0; i < GUARD; ++i) ok &= v[i] == (B)0xA5; for (size_t i = GUARD + used; i < v.size(); ++i) ok &= v[i] == (B)0xA5; CHECK(ok, "bytes outside of the value were written"); } };
template <class P, class I, bool NUL> static void packed(I v) {
    size_t n = sym_concretize(P::measure(v)); CHECK(n >= 1 && n <= P::max_len() + 1, "measured size"); Buf b(12); B *w = b.at(); P::write(w, v);
    CHECK(w == b.at() + n, "write moves by the measured size"); b.guard(n);
    const B *r = b.at(); CHECK(P::read(r) == v, "value read back"); CHECK(r == b.at() + n, "read moves by the measured size");
    r = b.at(); CHECK(P::read(r, b.at() + n) == v && r == b.at() + n, "bounded read");
    auto &p = P::__const_ref(b.at()); CHECK(p.value() == v && p.sizeOf() == n, "value in place"); if (NUL) CHECK(!p.isNull(), "a value is not null");
    CHECK(P::safeSizeOf((const B *)b.at()) == n, "safe size");
    { bool thrown = false; const B *q = b.at(); try { P::read(q, b.at() + n - 1); } catch (...) { thrown = true; } CHECK(thrown, "a read past the end must be refused"); }
    { Buf c(12); B *q = c.at(); P::write(q, v, c.at() + n); CHECK(q == c.at() + n, "bounded write"); c.guard(n); Buf d(12); q = d.at(); bool thrown = false; try { P::write(q, v, d.at() + n - 1); } catch (...) { thrown = true; } CHECK(thrown, "a write past the end must be refused"); d.guard(0); }
    { Buf c(12); auto &x = P::__new(c.at(), v); CHECK(x.value() == v && x.sizeOf() == n, "constructed in place"); c.guard(n); }
}
HARNESS(serial_packed_int) {
    switch (choose("type", 5)) {
        case 0: packed<o_packed_int<uint16_t>, uint16_t, false>(sym_u16("v")); break;
        case 1: packed<packed_int32, uint32_t, false>(sym_u32("v")); break;
        case 2: packed<packed_int64, uint64_t, false>(sym_u64("v")); break;
        case 3: packed<nullable_packed_int32, uint32_t, true>(sym_u32("v")); break;
        default: packed<nullable_packed_int64, uint64_t, true>(sym_u64("v")); break;
    }
    Buf b(4); auto &n = nullable_packed_int32::__new(b.at()); CHECK(n.isNull() && n.sizeOf() == 1 && nullable_packed_int32::measure() == 1, "null"); b.guard(1); sym_cover("packed");
}
HARNESS(serial_packed_pair) {
    using P = o_packed_int_pair<uint32_t, uint64_t>; uint32_t a = sym_u32("a"); uint64_t c = sym_u64("b"); size_t n = sym_concretize(P::measure(a, c)); Buf b(20);
    auto &p = P::__new(b.at(), a, c); CHECK(p.sizeOf() == n, "size"); CHECK(p.value().first == a && p.value().second == c, "value"); b.guard(n);
    Buf d(20); B *w = d.at(); P::write(w, { a, c }); CHECK(w == d.at() + n, "write"); const B *r = d.at(); auto v = P::read(r); CHECK(v.first == a && v.second == c && r == d.at() + n, "read"); sym_cover("pair");
}
HARNESS(serial_packed_array) {
    using A = o_packed_array<packed_int32, uint8_t, 12>; Buf b(sizeof(A)); CHECK(sizeof(A) == 12, "size"); auto &a = A::__new(b.at()); std::vector<uint32_t> ref; size_t used = 1; unsigned n = sym_param("n", 5);
    for (unsigned i = 0; i < n; ++i) { uint32_t v = sym_u32("v"); size_t m = sym_concretize(packed_int32::measure(v)); bool fits = used + m <= 12; CHECK(a.canEmplaceBack(v) == fits, "fits"); CHECK(a.tryEmplaceBack(v) == fits, "append succeeds exactly while there is room"); if (fits) { ref.push_back(v); used += m; sym_cover("append"); } else sym_cover("full"); }
    auto it = a.begin(); for (auto v : ref) { CHECK(it != a.end(), "all items are there"); CHECK((*it).value() == v, "item"); ++it; } CHECK(it == a.end(), "no other item"); b.guard(sizeof(A));
}
template <class I, size_t N> static void refc() {
    using R = o_ref_counter<I, N>; Buf b(N); I f = 0, s = 0; auto m = [](I x) { return o_packed_int<I>::measure(x); };
    I f0 = sym_u32("first"), s0 = sym_u32("second"); bool thrown = false, fit = sym_concretize(m(f0) + m(s0)) <= N; try { R::__new(b.at(), f0, s0); } catch (...) { thrown = true; } CHECK(thrown == !fit, "counters that do not fit are refused"); b.guard(N);
    if (!fit) R::__new(b.at()); else f = f0, s = s0; auto &r = R::__ref(b.at());
    for (unsigned i = 0; i < sym_param("steps", 2); ++i) { bool which = choose("which", 2); I v = sym_u32("v"); I nf = which ? f : v, ns = which ? v : s; bool fits = sym_concretize(m(nf) + m(ns)) <= N; bool thr = false; try { if (which) r.setSecond(v); else r.setFirst(v); } catch (...) { thr = true; }
        CHECK(thr == !fits, "a counter that does not fit is refused, others are not"); if (fits) f = nf, s = ns; else sym_cover("overflow"); CHECK(r.getFirst() == f && r.getSecond() == s && r.get().first == f && r.get().second == s, "both counters"); b.guard(N); sym_cover("set"); }
}
HARNESS(serial_ref_counter) { switch (choose("kind", 2)) { case 0: refc<uint32_t, 4>(); break; default: refc<uint32_t, 7>(); } }
HARNESS(serial_micro_array) {
    unsigned n = choose("n", 4), off = sym_u32("offset") & 0xffffff; std::vector<uint64_t> d; for (unsigned i = 0; i < n; ++i) d.push_back(sym_u64("v")); bool wide = choose("big", 2); if (wide) d.resize(130, 7);
    auto all = [&](auto &a, size_t m) { CHECK(a.sizeOf() == m && a.size() == d.size(), "size"); bool ok = true; for (size_t i = 0; i < d.size(); ++i) ok &= a[i] == d[i]; CHECK(ok, "elements"); CHECK(a.end() - a.begin() == (long)d.size(), "iteration"); };
    { using A = o_micro_array<uint64_t>; size_t m = A::measure(d); Buf b(m); auto &a = A::__new(b.at(), d); all(a, m); b.guard(m); unsigned q = sym_u32("q"), pos = 0; bool f = a.find(q, pos); CHECK(f == (q < d.size()) && (!f || pos == q), "find"); }
    { using A = o_micro_array<uint64_t, true>; size_t m = sym_concretize(A::measure(d, off)); Buf b(m); auto &a = A::__new(b.at(), d, off); all(a, m); b.guard(m); CHECK(a.offset() == off && a.getSizeAndOffset().first == d.size() && a.getSizeAndOffset().second == off, "offset"); unsigned q = sym_u32("q"), pos = 0; bool f = a.find(q, pos); CHECK(f == (q >= off && (uint64_t)q < (uint64_t)off + d.size()) && (!f || pos == q - off), "find with an offset"); }
    sym_cover("array");
}
HARNESS(serial_string) {
    unsigned la = choose("la", 1 + sym_param("len", 3)), lb = choose("lb", 1 + sym_param("len", 3)); char a[8] = {}, c[8] = {}; sym_bytes(a, la, "a"); sym_bytes(c, lb, "b"); for (unsigned i = 0; i < la; ++i) ASSUME(a[i] != 0); for (unsigned i = 0; i < lb; ++i) ASSUME(c[i] != 0);
    std::string s(a, la), t(c, lb); if (choose("long", 2)) { s = std::string(130, 'x') + s; t = std::string(130, 'x') + t; }
    size_t m = o_string::measure(s), k = o_nullable_string::measure(t); Buf b(m), d(k), e(m + k); auto &x = o_string::__new(b.at(), s); auto &y = o_nullable_string::__new(d.at(), t); b.guard(m); d.guard(k);
    CHECK(x.sizeOf() == m && y.sizeOf() == k && x.size() == s.size() && y.size() == t.size() && !y.isNull(), "size"); CHECK(x.toString() == s && y.toString() == t && x == s && y == t, "contents");
    auto &z = o_string::__new(e.at(), t); int cmp = s.compare(t); CHECK((x < z) == (cmp < 0) && (x > z) == (cmp > 0) && (x == z) == (cmp == 0) && (x == t) == (cmp == 0) && (x < t) == (cmp < 0), "comparison of strings");
    Buf nb(4); auto &nul = o_nullable_string::__new(nb.at()); CHECK(nul.isNull() && nul.sizeOf() == 1, "null string"); nb.guard(1); sym_cover("string");
}
HARNESS(serial_list) {
    unsigned n = choose("n", 4); std::vector<uint32_t> d; for (unsigned i = 0; i < n; ++i) d.push_back(sym_u32("v")); using L = o_list<packed_int32>; size_t m = sym_concretize(L::measure(d)); Buf b(m); auto &l = L::__new(b.at(), d); b.guard(m); CHECK(l.sizeOf() == m && l.size() == n, "size");
    auto it = l.begin(); for (unsigned i = 0; i < n; ++i) { CHECK(it != l.end() && (*it).value() == d[i], "item"); ++it; } CHECK(!(it != l.end()), "end"); CHECK(L::safeSizeOf((const B *)b.at()) == m, "safe size");
    using C = o_compose<o_simple<uint32_t>, packed_int64>; uint32_t f = sym_u32("f"); uint64_t g = sym_u64("g"); size_t cm = sym_concretize(C::measure(f, g)); Buf cb(cm); auto &c = C::__new(cb.at(), o_simple<uint32_t>(f), g); cb.guard(cm); CHECK(c.m_first.value() == f && c.second().value() == g && c.sizeOf() == cm, "composed value");
    std::vector<B> v; serial::write(v, f); serial::emplaceBack<packed_int64>(v, g); serial::write(v, g); auto i2 = std::vector<B>::const_iterator(v.begin()); CHECK(serial::read<uint32_t>(i2, v.end()) == f, "plain value"); CHECK(serial::pop<packed_int64>(i2, v.end()).value() == g, "overlaid value"); { auto e = v.end(); --e; auto i3 = i2; bool thr = false; try { serial::read<uint64_t>(i3, e); } catch (...) { thr = true; } CHECK(thr, "underflow is refused"); } CHECK(serial::read<uint64_t>(i2, v.end()) == g && i2 == v.end(), "plain value"); sym_cover("list");
}
template <unsigned W> static void lofi() {
    using S = object_model::lofi_store<W>; uint64_t raw = 0; auto &s = S::fromValue(raw); const unsigned N = S::size(), M = std::min<unsigned>(N, sym_param("slots", 4)); std::map<unsigned, uint64_t> ref; uint64_t lim = W >= 16 ? 0xffff : (1u << W) - 1; auto value = [&]() { return sym_range("v", 0, lim); };
    unsigned fill = choose("fill", 3); unsigned pre = fill == 0 ? 0 : fill == 1 ? N - 1 : N; for (unsigned i = 0; i < pre; ++i) { uint64_t v = i < 2 || i + 1 == N ? value() : (i & lim); s.set(i, v); ref[i] = v; }
    auto slot = [&]() { unsigned i = choose("slot", M); return i + 1 == M ? N - 1 : i; };
    for (unsigned k = 0; k < sym_param("steps", 3); ++k) switch (choose("op", 3)) {
        case 0: { unsigned i = slot(); uint64_t v = value(); s.set(i, v); ref[i] = v; sym_cover("set"); break; }
        case 1: { unsigned i = slot(); s.reset(i); ref.erase(i); sym_cover("reset"); break; }
        default: { CHECK(s.isFull() == (ref.size() == N), "full"); if (ref.size() == N) { sym_cover("full"); break; } uint64_t v = value(); unsigned i = s.add(v); CHECK(i < N && !ref.count(i), "a new value goes to a free slot"); i = sym_concretize(i); ref[i] = v; sym_cover("add"); }
    }
    CHECK(s.isFull() == (ref.size() == N), "full"); for (unsigned i = 0; i < N; ++i) { CHECK(s.isSet(i) == (ref.count(i) != 0), "slot occupied"); if (ref.count(i)) CHECK(s.get(i) == ref[i], "slot value"); }
    auto it = s.begin(); for (auto &p : ref) { CHECK(!it.isEnd() && it.getOffset() == p.first && *it == p.second, "iteration"); ++it; } CHECK(it.isEnd() && !(it != s.end()), "iteration ends");
    { unsigned i = slot(); uint64_t v = value(), c = S::create(i, v); CHECK(S::fromValue(c).isSet(i) && S::fromValue(c).get(i) == v && (c & ~S::mask(i)) == 0, "single value"); }
}
HARNESS(serial_lofi) { switch (sym_param("w", 0) ? sym_param("w", 0) : (uint64_t)1 << choose("width", 5)) { case 1: lofi<1>(); break; case 2: lofi<2>(); break; case 4: lofi<4>(); break; case 8: lofi<8>(); break; default: lofi<16>(); } }
