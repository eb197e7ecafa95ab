// Hash-consed bit-vector expressions for the symbolic execution engine.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <string>
#include <memory>

namespace symx {
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128;

enum class K : u8 { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Not, Ite, SExt, Extract, Concat };

struct Expr {
    K k; u16 w; u32 id;
    const Expr *a = nullptr, *b = nullptr, *c = nullptr;
    u64 lo = 0, hi = 0;      // Const: value (lo,hi); Var: index in lo; Extract: low bit in lo
    u64 umin = 0, umax = 0;  // unsigned range (w<=64)
    u64 kz = 0;              // known zero bits (w<=64)
    u16 ct = 0;              // number of leaves if this is a tree of Ite with constant leaves (Const: 1), else 0
    size_t hash = 0;
    mutable int varset = -1; // index in var-set table (lazily computed)
    mutable void *z3 = nullptr;
    mutable u32 epoch = 0; mutable u64 evlo = 0, evhi = 0;
};
typedef const Expr *E;

inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern u64 g_numExprs;

E mkConst(u64 v, unsigned w);
E mkConst128(u128 v, unsigned w);
E mkVar(const std::string &name, unsigned w);
E mkBin(K k, E a, E b);
E mkNot(E a);                 // w==1
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
inline E mkUlt(E a, E b) { return mkBin(K::Ult, a, b); }
inline E mkSlt(E a, E b) { return mkBin(K::Slt, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K::Or, a, b); }
inline E mkAdd(E a, E b) { return mkBin(K::Add, a, b); }
inline E mkSub(E a, E b) { return mkBin(K::Sub, a, b); }
inline bool isC(E e) { return e->k == K::Const; }
inline bool isTrue(E e) { return e->k == K::Const && e->lo == 1; }
inline bool isFalse(E e) { return e->k == K::Const && e->lo == 0; }
inline u128 cval(E e) { return ((u128)e->hi << 64) | e->lo; }

// e with the sub-expressions in facts replaced (facts: id -> equal expression); memo is valid for one set of facts
E rewrite(E e, const std::unordered_map<u32, E> &facts, std::unordered_map<u32, E> &memo);

// sorted vector of variable indexes used by e
const std::vector<u32> &varsOf(E e);

typedef std::vector<u64> Model; // by variable index; missing entries are 0
u128 evalExpr(E e, const Model &m);
void newEvalEpoch();
std::string toStr(E e, int depth = 6);
}
