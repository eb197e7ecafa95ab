#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <functional>

namespace symx {
std::vector<VarInfo> g_vars;
u64 g_numExprs = 0;

struct Arena {
    std::vector<Expr *> blocks; size_t used = 4096;
    Expr *alloc() { if (used == 4096) { blocks.push_back(new Expr[4096]); used = 0; } return &blocks.back()[used++]; }
};
static Arena arena;

struct Hasher { size_t operator()(const Expr *e) const { return e->hash; } };
struct Eqr { bool operator()(const Expr *x, const Expr *y) const {
    return x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->lo == y->lo && x->hi == y->hi; } };
static std::unordered_set<Expr *, Hasher, Eqr> table(1 << 16);

static inline size_t mix(size_t h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static inline unsigned bitlen(u64 x) { return x ? 64 - __builtin_clzll(x) : 0; }

static void ranges(Expr *e) {
    unsigned w = e->w;
    if (w > 64) { e->umin = 0; e->umax = ~0ull; e->kz = 0; return; }
    u64 M = mask(w);
    e->umin = 0; e->umax = M; e->kz = 0;
    E a = e->a, b = e->b;
    switch (e->k) {
    case K::Const: e->umin = e->umax = e->lo; e->kz = ~e->lo & M; return;
    case K::Add: {
        u64 mx; bool ov = __builtin_add_overflow(a->umax, b->umax, &mx) || mx > M;
        if (!ov) { e->umin = a->umin + b->umin; e->umax = mx; }
        unsigned t = std::min(__builtin_ctzll(~a->kz | (w < 64 ? 1ull << w : 0) | 0) , __builtin_ctzll(~b->kz | (w < 64 ? 1ull << w : 0)));
        if (~a->kz == 0 || ~b->kz == 0) t = 0;
        e->kz |= mask(t) & M;
        break; }
    case K::Mul: {
        u64 mx; if (!__builtin_mul_overflow(a->umax, b->umax, &mx) && mx <= M) { e->umin = a->umin * b->umin; e->umax = mx; }
        if (isC(b) && b->lo) { unsigned t = __builtin_ctzll(b->lo); e->kz |= mask(t) & M; }
        break; }
    case K::UDiv: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
    case K::URem: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); } break;
    case K::And: e->kz = a->kz | b->kz; e->umax = std::min(a->umax, b->umax); break;
    case K::Or: e->kz = a->kz & b->kz; e->umin = std::max(a->umin, b->umin); break;
    case K::Xor: e->kz = a->kz & b->kz; break;
    case K::LShr: e->umax = a->umax; break;
    case K::Ite: e->umin = std::min(b->umin, e->c->umin); e->umax = std::max(b->umax, e->c->umax); e->kz = b->kz & e->c->kz; break;
    case K::Extract:
        if (a->w <= 64) { e->kz = (a->kz >> e->lo) & M; if (e->lo == 0 && a->umax <= M) { e->umin = a->umin; e->umax = a->umax; } 
            else { u64 mx = a->umax >> e->lo; if (mx <= M) { e->umin = a->umin >> e->lo; e->umax = mx; } } }
        break;
    case K::Concat:
        e->kz = ((a->kz << b->w) | b->kz) & M;
        e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax;
        break;
    case K::SExt: {
        u64 sb = 1ull << (a->w - 1);
        if (a->umax < sb) { e->umin = a->umin; e->umax = a->umax; }
        break; }
    default: break;
    }
    u64 M2 = M & ~e->kz;
    if (e->umax > M2) e->umax = M2;
    unsigned bl = bitlen(e->umax);
    e->kz |= M & ~mask(bl);
    if (e->umin > e->umax) e->umin = 0;
}

static E intern(K k, unsigned w, E a, E b, E c, u64 lo, u64 hi) {
    Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.lo = lo; t.hi = hi;
    size_t h = mix((size_t)k, w);
    h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, c ? c->id : 0); h = mix(h, lo); h = mix(h, hi);
    t.hash = h;
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    Expr *e = arena.alloc(); *e = t; e->id = ++g_numExprs;
    ranges(e);
    if (k == K::Const) e->ct = 1; else if (k == K::Ite && b->ct && c->ct && b->ct + c->ct <= 32) e->ct = b->ct + c->ct;
    table.insert(e);
    return e;
}

E mkConst(u64 v, unsigned w) { return intern(K::Const, w, 0, 0, 0, v & mask(w), 0); }
E mkConst128(u128 v, unsigned w) {
    if (w <= 64) return mkConst((u64)v, w);
    u64 hi = (u64)(v >> 64) & mask(w - 64);
    return intern(K::Const, w, 0, 0, 0, (u64)v, hi);
}
static u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
E mkVar(const std::string &name, unsigned w) {
    g_vars.push_back({name, w});
    return intern(K::Var, w, 0, 0, 0, g_vars.size() - 1, 0);
}
static __int128 sx(u128 v, unsigned w) { if (w >= 128) return (__int128)v; u128 s = (u128)1 << (w - 1); return (__int128)((v ^ s) - s); }

static bool foldBin(K k, u128 x, u128 y, unsigned w, u128 &r) {
    u128 M = mask128(w);
    switch (k) {
    case K::Add: r = (x + y) & M; return true;
    case K::Sub: r = (x - y) & M; return true;
    case K::Mul: r = (x * y) & M; return true;
    case K::UDiv: r = y ? x / y : M; return true;
    case K::URem: r = y ? x % y : x; return true;
    case K::SDiv: { __int128 a = sx(x, w), b = sx(y, w); if (b == 0) { r = a < 0 ? 1 : M; } else if (b == -1) r = (u128)(-(u128)a) & M; else r = (u128)(a / b) & M; return true; }
    case K::SRem: { __int128 a = sx(x, w), b = sx(y, w); if (b == 0) r = x; else if (b == -1) r = 0; else r = (u128)(a % b) & M; return true; }
    case K::And: r = x & y; return true;
    case K::Or: r = x | y; return true;
    case K::Xor: r = x ^ y; return true;
    case K::Shl: r = y >= w ? 0 : (x << (unsigned)y) & M; return true;
    case K::LShr: r = y >= w ? 0 : (x >> (unsigned)y); return true;
    case K::AShr: { __int128 a = sx(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; r = (u128)(a >> s) & M; return true; }
    case K::Eq: r = x == y; return true;
    case K::Ult: r = x < y; return true;
    case K::Slt: r = sx(x, w) < sx(y, w); return true;
    default: return false;
    }
}

static bool isZExt(E e) { return e->k == K::Concat && isC(e->a) && e->a->lo == 0 && e->a->hi == 0; }
static bool isPow2(u64 v) { return v && !(v & (v - 1)); }
static bool czero(E e) { return isC(e) && e->lo == 0 && e->hi == 0; }
static bool cones(E e) { return isC(e) && cval(e) == mask128(e->w); }

E mkNot(E a) {
    assert(a->w == 1);
    if (isC(a)) return mkConst(!a->lo, 1);
    if (a->k == K::Not) return a->a;
    return intern(K::Not, 1, a, 0, 0, 0, 0);
}

E mkExtract(E a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w && w > 0);
    if (lo == 0 && w == a->w) return a;
    switch (a->k) {
    case K::Const: return mkConst128((cval(a) >> lo) & mask128(w), w);
    case K::Extract: return mkExtract(a->a, lo + a->lo, w);
    case K::Concat: {
        unsigned lw = a->b->w;
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case K::SExt:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
        return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case K::And: case K::Or: case K::Xor:
        return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Add: case K::Sub: case K::Mul:
        if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case K::Ite:
        if (a->ct || isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    default: break;
    }
    if (a->w <= 64) {
        u64 kz = (a->kz >> lo) & mask(w);
        if (kz == mask(w)) return mkConst(0, w);
        if (a->umin == a->umax) return mkConst(a->umin >> lo, w);
    }
    return intern(K::Extract, w, a, 0, 0, lo, 0);
}

E mkConcat(E h, E l) {
    unsigned w = h->w + l->w;
    if (isC(h) && isC(l)) return mkConst128((cval(h) << l->w) | cval(l), w);
    // adjacent extracts of the same source
    if (h->k == K::Extract && l->k == K::Extract && h->a == l->a && h->lo == l->lo + l->w) return mkExtract(l->a, l->lo, w);
    if (h->k == K::Extract && h->a == l && h->lo == l->w) return mkExtract(l, 0, w); // impossible width-wise but harmless
    // right-associate: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if (h->k == K::Concat) return mkConcat(h->a, mkConcat(h->b, l));
    // h extract adjacent to first part of l
    if (l->k == K::Concat) {
        E m = l->a;
        if (isC(h) && isC(m)) return mkConcat(mkConst128((cval(h) << m->w) | cval(m), h->w + m->w), l->b);
        if (h->k == K::Extract && m->k == K::Extract && h->a == m->a && h->lo == m->lo + m->w)
            return mkConcat(mkExtract(m->a, m->lo, h->w + m->w), l->b);
    }
    if (h->k == K::Ite && l->k == K::Ite && h->a == l->a && ((h->ct && l->ct) || (isC(h->b) && isC(l->b)) || (isC(h->c) && isC(l->c)) ))
        return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
    if (isC(h) && l->k == K::Ite && l->ct) return mkIte(l->a, mkConcat(h, l->b), mkConcat(h, l->c));
    if (isC(l) && h->k == K::Ite && h->ct) return mkIte(h->a, mkConcat(h->b, l), mkConcat(h->c, l));
    return intern(K::Concat, w, h, l, 0, 0, 0);
}

E mkZExt(E a, unsigned w) {
    if (w == a->w) return a;
    return mkConcat(mkConst128(0, w - a->w), a);
}
E mkSExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return mkConst128((u128)sx(cval(a), a->w) & mask128(w), w);
    if (a->k == K::SExt) return mkSExt(a->a, w);
    if (a->w <= 64 && (a->kz >> (a->w - 1)) & 1) return mkZExt(a, w);
    if (a->k == K::Ite && (a->ct || isC(a->b) || isC(a->c))) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return intern(K::SExt, w, a, 0, 0, 0, 0);
}

E mkIte(E c, E a, E b) {
    assert(c->w == 1 && a->w == b->w);
    if (isC(c)) return c->lo ? a : b;
    if (a == b) return a;
    if (c->k == K::Not) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (isC(a)) return a->lo ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->lo ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->k == K::Ite && a->a == c) return mkIte(c, a->b, b);
    if (b->k == K::Ite && b->a == c) return mkIte(c, a, b->c);
    // merge: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (b->k == K::Ite && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
    return intern(K::Ite, a->w, c, a, b, 0, 0);
}

static E mkEqI(E a, E b) {
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (a->w <= 64) { if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
        if (isC(b) && (a->kz & b->lo)) return mkConst(0, 1);
    }
    if (isC(b)) {
        if (a->w == 1) return b->lo ? a : mkNot(a);
        switch (a->k) {
        case K::Concat: {
            unsigned lw = a->b->w; u128 v = cval(b);
            return mkAnd(mkEq(a->a, mkConst128(v >> lw, a->a->w)), mkEq(a->b, mkConst128(v & mask128(lw), lw))); }
        case K::Add: if (isC(a->b)) return mkEq(a->a, mkSub(b, a->b)); break;
        case K::Xor: if (isC(a->b)) return mkEq(a->a, mkBin(K::Xor, b, a->b)); break;
        case K::Sub: if (czero(b)) return mkEq(a->a, a->b); if (isC(a->a)) return mkEq(a->b, mkSub(a->a, b)); break;
        case K::Ite:
            if (isC(a->b) && isC(a->c)) {
                bool x = a->b == b, y = a->c == b;
                return x ? (y ? mkConst(1, 1) : a->a) : (y ? mkNot(a->a) : mkConst(0, 1));
            }
            if (a->ct || isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
            break;
        case K::SExt: {
            E t = mkTrunc(b, a->a->w);
            if (mkSExt(t, a->w) != b) return mkConst(0, 1);
            return mkEq(a->a, t); }
        default: break;
        }
    } else {
        if (a->w == 1) return mkNot(mkBin(K::Xor, a, b));
        // split concats with equal boundaries
        if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
            return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (isZExt(a) && isZExt(b)) {
            E x = a->b, y = b->b;
            if (x->w < y->w) std::swap(x, y);
            return mkEq(x, mkZExt(y, x->w));
        }
        if (a->k == K::Add && b->k == K::Add) {
            if (a->a == b->a) return mkEq(a->b, b->b);
            if (a->b == b->b) return mkEq(a->a, b->a);
            if (a->a == b->b) return mkEq(a->b, b->a);
            if (a->b == b->a) return mkEq(a->a, b->b);
        }
        if (a->k == K::Add && (a->a == b || a->b == b)) return mkEq(a->a == b ? a->b : a->a, mkConst128(0, a->w));
        if (b->k == K::Add && (b->a == a || b->b == a)) return mkEq(b->a == a ? b->b : b->a, mkConst128(0, a->w));
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return intern(K::Eq, 1, a, b, 0, 0, 0);
}

static E mkUltI(E a, E b) {
    if (a == b) return mkConst(0, 1);
    if (a->w == 1) return mkAnd(mkNot(a), b);
    if (a->w <= 64) {
        if (a->umax < b->umin) return mkConst(1, 1);
        if (a->umin >= b->umax) return mkConst(0, 1);
    }
    if (czero(b)) return mkConst(0, 1);
    if (isC(b) && cval(b) == 1) return mkEq(a, mkConst128(0, a->w));
    if (czero(a)) return mkNot(mkEq(b, a));
    if (isZExt(a) && isZExt(b)) { // strip common zero extension
        unsigned m = std::max(a->b->w, b->b->w);
        if (m < a->w) return mkUlt(mkTrunc(a, m), mkTrunc(b, m));
    }
    if (isZExt(a) && isC(b)) return mkUlt(a->b, mkTrunc(b, a->b->w)); // ranges already handled big b
    if (isZExt(b) && isC(a)) return mkUlt(mkTrunc(a, b->b->w), b->b);
    if (a->k == K::Concat && b->k == K::Concat && a->a == b->a && a->b->w == b->b->w) return mkUlt(a->b, b->b);
    if (isC(b) && a->k == K::Ite && a->ct) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (isC(a) && b->k == K::Ite && b->ct) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    return intern(K::Ult, 1, a, b, 0, 0, 0);
}
static E mkSltI(E a, E b) {
    if (a == b) return mkConst(0, 1);
    unsigned w = a->w;
    if (w <= 64 && ((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mkUlt(a, b);
    if (w == 1) return mkAnd(a, mkNot(b));
    if (czero(b)) return mkExtract(a, w - 1, 1);
    if (cones(a)) return mkNot(mkExtract(b, w - 1, 1)); // -1 < b  <=> b >= 0
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkSlt(a->a, b->a);
    return intern(K::Slt, 1, a, b, 0, 0, 0);
}

E mkBin(K k, E a, E b) {
    assert(a->w == b->w);
    unsigned w = a->w;
    if (isC(a) && isC(b)) {
        u128 r; if (foldBin(k, cval(a), cval(b), w, r)) return mkConst128(r, (k == K::Eq || k == K::Ult || k == K::Slt) ? 1 : w);
    }
    // constants: distribute over trees of constants
    if (w > 1 && k != K::Eq && k != K::Ult) {
        if (isC(b) && (k == K::Add || k == K::Mul) && a->k == K::Concat && isC(a->a) && a->b->w == 1) // 0/1 widened
            return mkIte(a->b, mkBin(k, mkConst128((cval(a->a) << 1) | 1, w), b), mkBin(k, mkConst128(cval(a->a) << 1, w), b));
        if (isC(b) && a->k == K::Ite && a->ct) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        if (isC(a) && b->k == K::Ite && b->ct) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
        if (a->k == K::Ite && b->k == K::Ite && a->ct && b->ct && a->a == b->a) return mkIte(a->a, mkBin(k, a->b, b->b), mkBin(k, a->c, b->c));
    }
    switch (k) {
    case K::Eq: return mkEqI(a, b);
    case K::Ult: return mkUltI(a, b);
    case K::Slt: return mkSltI(a, b);
    case K::Add:
        if (w == 1) return mkBin(K::Xor, a, b);
        if (isC(a)) std::swap(a, b);
        if (czero(b)) return a;
        if (isC(b) && a->k == K::Add && isC(a->b)) return mkAdd(a->a, mkAdd(a->b, b));
        if (isC(b) && a->k == K::Sub && isC(a->a)) return mkSub(mkAdd(a->a, b), a->b);
        if (isC(b) && a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
        if (!isC(b)) {
            if (a->k == K::Add && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
            if (b->k == K::Add && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
            if (a->k == K::Sub && a->b == b) return a->a;
            if (b->k == K::Sub && b->b == a) return b->a;
        }
        break;
    case K::Sub:
        if (w == 1) return mkBin(K::Xor, a, b);
        if (a == b) return mkConst128(0, w);
        if (isC(b)) return mkAdd(a, mkConst128((~cval(b) + 1) & mask128(w), w));
        if (a->k == K::Add) {
            if (a->a == b) return a->b;
            if (a->b == b) return a->a;
            if (isC(a->b)) return mkAdd(mkSub(a->a, b), a->b);
        }
        if (b->k == K::Add) {
            if (isC(b->b)) return mkAdd(mkSub(a, b->a), mkConst128((~cval(b->b) + 1) & mask128(w), w));
            if (b->a == a) return mkSub(mkConst128(0, w), b->b);
            if (b->b == a) return mkSub(mkConst128(0, w), b->a);
        }
        break;
    case K::Mul:
        if (w == 1) return mkAnd(a, b);
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (czero(b)) return b;
            u128 v = cval(b);
            if (v == 1) return a;
            if (w <= 64 && isPow2(b->lo)) return mkBin(K::Shl, a, mkConst(__builtin_ctzll(b->lo), w));
            if (a->k == K::Add && isC(a->b)) return mkAdd(mkBin(K::Mul, a->a, b), mkBin(K::Mul, a->b, b));
            if (a->k == K::Mul && isC(a->b)) return mkBin(K::Mul, a->a, mkBin(K::Mul, a->b, b));
        }
        break;
    case K::UDiv:
        if (isC(b) && w <= 64 && isPow2(b->lo)) return mkBin(K::LShr, a, mkConst(__builtin_ctzll(b->lo), w));
        if (w <= 64 && a->umax < b->umin) return mkConst(0, w);
        break;
    case K::URem:
        if (isC(b) && w <= 64 && isPow2(b->lo)) return mkAnd(a, mkConst(b->lo - 1, w));
        if (w <= 64 && a->umax < b->umin) return a;
        break;
    case K::SDiv: case K::SRem:
        if (w <= 64 && ((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mkBin(k == K::SDiv ? K::UDiv : K::URem, a, b);
        break;
    case K::And: case K::Or: case K::Xor:
        if (isC(a)) std::swap(a, b);
        if (a == b) return k == K::Xor ? mkConst128(0, w) : a;
        if (isC(b)) {
            if (czero(b)) return k == K::And ? b : a;
            if (cones(b)) { if (k == K::And) return a; if (k == K::Or) return b; if (w == 1) return mkNot(a); }
            if (k == K::And && w <= 64) {
                // mask covering all possibly-set bits
                if (((~a->kz) & mask(w) & ~b->lo) == 0) return a;
                if ((~a->kz & mask(w) & b->lo) == 0) return mkConst(0, w);
                u64 m = b->lo;
                if (((m + 1) & m) == 0) { unsigned n = __builtin_popcountll(m); return mkZExt(mkTrunc(a, n), w); }
                // contiguous mask: keep [lo,hi)
                unsigned lo = __builtin_ctzll(m); u64 mm = m >> lo;
                if (((mm + 1) & mm) == 0) {
                    unsigned n = __builtin_popcountll(mm);
                    return mkZExt(mkConcat(mkExtract(a, lo, n), mkConst(0, lo)), w);
                }
            }
            if (a->k == k && isC(a->b)) return mkBin(k, a->a, mkBin(k, a->b, b));
            if (a->k == K::Concat) {
                unsigned lw = a->b->w; u128 v = cval(b);
                return mkConcat(mkBin(k, a->a, mkConst128(v >> lw, a->a->w)), mkBin(k, a->b, mkConst128(v & mask128(lw), lw)));
            }
            if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        } else {
            if (w == 1) {
                if (a->k == K::Not && a->a == b) return mkConst(k != K::And, 1);
                if (b->k == K::Not && b->a == a) return mkConst(k != K::And, 1);
                if (k == K::Xor) {
                    if (a->k == K::Not) return mkNot(mkBin(K::Xor, a->a, b));
                    if (b->k == K::Not) return mkNot(mkBin(K::Xor, a, b->a));
                }
                // absorption one level
                for (int i = 0; i < 2; ++i) {
                    E x = i ? b : a, y = i ? a : b;
                    if (k == K::And && x->k == K::And && (x->a == y || x->b == y)) return x;
                    if (k == K::Or && x->k == K::Or && (x->a == y || x->b == y)) return x;
                    if (k == K::And && x->k == K::Or && (x->a == y || x->b == y)) return y;
                    if (k == K::Or && x->k == K::And && (x->a == y || x->b == y)) return y;
                }
            }
            // boundaries: split on concat structure when both sides are concats (covers shift/or byte assembly)
            if (a->k == K::Concat && b->k == K::Concat) {
                unsigned lw = std::min(a->b->w, b->b->w);
                bool useful = isC(a->a) || isC(b->a) || isC(a->b) || isC(b->b);
                if (useful)
                    return mkConcat(mkBin(k, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), mkBin(k, mkExtract(a, 0, lw), mkExtract(b, 0, lw)));
            }
        }
        break;
    case K::Shl:
        if (isC(b)) {
            u128 s = cval(b);
            if (s == 0) return a;
            if (s >= w) return mkConst128(0, w);
            return mkConcat(mkExtract(a, 0, w - (unsigned)s), mkConst128(0, (unsigned)s));
        }
        if (czero(a)) return a;
        break;
    case K::LShr:
        if (isC(b)) {
            u128 s = cval(b);
            if (s == 0) return a;
            if (s >= w) return mkConst128(0, w);
            return mkZExt(mkExtract(a, (unsigned)s, w - (unsigned)s), w);
        }
        if (czero(a)) return a;
        break;
    case K::AShr:
        if (isC(b)) {
            u128 s = cval(b);
            if (s == 0) return a;
            if (s >= w) s = w - 1;
            return mkSExt(mkExtract(a, (unsigned)s, w - (unsigned)s), w);
        }
        break;
    default: break;
    }
    bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
    if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
    E r = intern(k, w, a, b, 0, 0, 0);
    if (w <= 64 && r->umin == r->umax) return mkConst(r->umin, w);
    return r;
}

E rewrite(E e0, const std::unordered_map<u32, E> &facts, std::unordered_map<u32, E> &memo) {
    std::vector<E> st{e0};
    auto done = [&](E k) { return !k || k->k == K::Const || memo.count(k->id); };
    auto at = [&](E k) -> E { return !k || k->k == K::Const ? k : memo[k->id]; };
    while (!st.empty()) {
        E e = st.back();
        if (done(e)) { st.pop_back(); continue; }
        auto f = facts.find(e->id);
        if (f != facts.end()) { memo[e->id] = f->second; st.pop_back(); continue; }
        if (e->k == K::Var) { memo[e->id] = e; st.pop_back(); continue; }
        if (e->k == K::Ite) {
            if (!done(e->a)) { st.push_back(e->a); continue; }
            E c = at(e->a);
            if (isC(c)) { E ch = c->lo ? e->b : e->c; if (!done(ch)) { st.push_back(ch); continue; } memo[e->id] = at(ch); st.pop_back(); continue; }
        }
        bool ready = true;
        for (E k : {e->a, e->b, e->c}) if (!done(k)) { st.push_back(k); ready = false; }
        if (!ready) continue;
        st.pop_back();
        E a = at(e->a), b = at(e->b), c = at(e->c), r = e;
        if (a != e->a || b != e->b || c != e->c) switch (e->k) {
        case K::Not: r = mkNot(a); break;
        case K::Ite: r = mkIte(a, b, c); break;
        case K::SExt: r = mkSExt(a, e->w); break;
        case K::Extract: r = mkExtract(a, e->lo, e->w); break;
        case K::Concat: r = mkConcat(a, b); break;
        default: r = mkBin(e->k, a, b);
        }
        memo[e->id] = r;
    }
    return at(e0);
}

// ---- var sets -------------------------------------------------------------
static std::vector<std::vector<u32>> varsets;
static std::map<std::vector<u32>, int> varsetIds;
static int internSet(std::vector<u32> v) {
    auto it = varsetIds.find(v);
    if (it != varsetIds.end()) return it->second;
    int id = varsets.size(); varsets.push_back(v); varsetIds[v] = id; return id;
}
static int vs(E e0) {
    // iterative post-order to survive deep DAGs
    std::vector<E> st{e0};
    while (!st.empty()) {
        E e = st.back();
        if (e->varset >= 0) { st.pop_back(); continue; }
        bool ready = true;
        for (E k : {e->a, e->b, e->c}) if (k && k->varset < 0) { st.push_back(k); ready = false; }
        if (!ready) continue;
        st.pop_back();
        if (e->k == K::Const) { e->varset = internSet({}); continue; }
        if (e->k == K::Var) { e->varset = internSet({(u32)e->lo}); continue; }
        int acc = -1;
        for (E k : {e->a, e->b, e->c}) if (k) {
            if (acc < 0 || acc == k->varset || varsets[acc].empty()) { acc = k->varset; continue; }
            if (varsets[k->varset].empty()) continue;
            std::vector<u32> m;
            std::set_union(varsets[acc].begin(), varsets[acc].end(), varsets[k->varset].begin(), varsets[k->varset].end(), std::back_inserter(m));
            acc = internSet(std::move(m));
        }
        e->varset = acc;
    }
    return e0->varset;
}
const std::vector<u32> &varsOf(E e) { return varsets[vs(e)]; }

// ---- evaluation -----------------------------------------------------------
static u32 epoch = 1;
void newEvalEpoch() { ++epoch; }
static inline u128 ev(E e) { return ((u128)e->evhi << 64) | e->evlo; }
u128 evalExpr(E e0, const Model &m) {
    std::vector<E> st{e0};
    while (!st.empty()) {
        E e = st.back();
        if (e->epoch == epoch) { st.pop_back(); continue; }
        if (e->k == K::Const) { e->evlo = e->lo; e->evhi = e->hi; e->epoch = epoch; st.pop_back(); continue; }
        if (e->k == K::Var) { e->evlo = (e->lo < m.size() ? m[e->lo] : 0) & mask(e->w); e->evhi = 0; e->epoch = epoch; st.pop_back(); continue; }
        bool ready = true;
        if (e->k == K::Ite) {
            if (e->a->epoch != epoch) { st.push_back(e->a); continue; }
            E ch = e->a->evlo ? e->b : e->c;
            if (ch->epoch != epoch) { st.push_back(ch); continue; }
            e->evlo = ch->evlo; e->evhi = ch->evhi; e->epoch = epoch; st.pop_back(); continue;
        }
        for (E k : {e->a, e->b}) if (k && k->epoch != epoch) { st.push_back(k); ready = false; }
        if (!ready) continue;
        st.pop_back();
        u128 r = 0;
        switch (e->k) {
        case K::Not: r = !e->a->evlo; break;
        case K::SExt: r = (u128)sx(ev(e->a), e->a->w) & mask128(e->w); break;
        case K::Extract: r = (ev(e->a) >> e->lo) & mask128(e->w); break;
        case K::Concat: r = (ev(e->a) << e->b->w) | ev(e->b); break;
        default: foldBin(e->k, ev(e->a), ev(e->b), e->a->w, r);
        }
        e->evlo = (u64)r; e->evhi = (u64)(r >> 64); e->epoch = epoch;
    }
    return ev(e0);
}

std::string toStr(E e, int d) {
    static const char *names[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "not", "ite", "sext", "extract", "concat"};
    if (isC(e)) return std::to_string((unsigned long long)e->lo) + ":" + std::to_string(e->w);
    if (e->k == K::Var) return g_vars[e->lo].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + names[(int)e->k];
    if (e->k == K::Extract) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
    for (E k : {e->a, e->b, e->c}) if (k) s += " " + toStr(k, d - 1);
    return s + ")";
}
}
