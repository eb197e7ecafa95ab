#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <map>
#include <deque>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
namespace symx {
SolverStats g_ss;
static Z3_context ctx;
static Z3_solver solver;
static unsigned timeoutMs_;
static std::vector<Z3_ast> zvars;

static void mkSolver() {
    solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, solver);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs_);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
    Z3_solver_set_params(ctx, solver, p);
    Z3_params_dec_ref(ctx, p);
}
void solverInit(unsigned t) {
    timeoutMs_ = t;
    Z3_config c = Z3_mk_config();
    ctx = Z3_mk_context_rc(c); // every AST we create is pinned (R) for the whole run
    Z3_del_config(c);
    mkSolver();
}
static Z3_ast R(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; auto &s = m[w]; if (!s) { s = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); } return s; }
static Z3_sort bools() { static Z3_sort s = nullptr; if (!s) { s = Z3_mk_bool_sort(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); } return s; }
static Z3_ast num(u64 lo, u64 hi, unsigned w) {
    if (w <= 64) return R(Z3_mk_unsigned_int64(ctx, lo, bvs(w)));
    Z3_ast h = R(Z3_mk_unsigned_int64(ctx, hi, bvs(w - 64)));
    Z3_ast l = R(Z3_mk_unsigned_int64(ctx, lo, bvs(64)));
    return R(Z3_mk_concat(ctx, h, l));
}
// Boolean-sorted expressions are kept as Bool for Eq/Ult/Slt/Not/And/Or of width 1
static Z3_ast toBV(Z3_ast a, bool isBool) {
    if (!isBool) return a;
    Z3_sort s = bvs(1);
    return R(Z3_mk_ite(ctx, a, R(Z3_mk_unsigned_int64(ctx, 1, s)), R(Z3_mk_unsigned_int64(ctx, 0, s))));
}
static Z3_ast trans(E e);
static bool isBoolE(E e) { return e->w == 1; }
// all width-1 expressions are represented as Bool
static Z3_ast asBV(E e) { return toBV((Z3_ast)e->z3, isBoolE(e)); }
static Z3_ast fromBV1(Z3_ast a) { return R(Z3_mk_eq(ctx, a, R(Z3_mk_unsigned_int64(ctx, 1, bvs(1))))); }
static void trans1(E e) {
    Z3_ast r = nullptr;
    E a = e->a, b = e->b;
    bool boolOps = a && a->w == 1;
    switch (e->k) {
    case K::Const: r = e->w == 1 ? (e->lo ? R(Z3_mk_true(ctx)) : R(Z3_mk_false(ctx))) : num(e->lo, e->hi, e->w); break;
    case K::Var: {
        char buf[32]; snprintf(buf, 32, "v%llu", (unsigned long long)e->lo);
        Z3_ast v = R(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), e->w == 1 ? bools() : bvs(e->w)));
        if (zvars.size() <= e->lo) zvars.resize(e->lo + 1, nullptr);
        zvars[e->lo] = v; r = v; break; }
    case K::Add: r = R(Z3_mk_bvadd(ctx, asBV(a), asBV(b))); break;
    case K::Sub: r = R(Z3_mk_bvsub(ctx, asBV(a), asBV(b))); break;
    case K::Mul: r = R(Z3_mk_bvmul(ctx, asBV(a), asBV(b))); break;
    case K::UDiv: r = R(Z3_mk_bvudiv(ctx, asBV(a), asBV(b))); break;
    case K::SDiv: r = R(Z3_mk_bvsdiv(ctx, asBV(a), asBV(b))); break;
    case K::URem: r = R(Z3_mk_bvurem(ctx, asBV(a), asBV(b))); break;
    case K::SRem: r = R(Z3_mk_bvsrem(ctx, asBV(a), asBV(b))); break;
    case K::And: if (boolOps) { Z3_ast x[2] = {(Z3_ast)a->z3, (Z3_ast)b->z3}; r = R(Z3_mk_and(ctx, 2, x)); } else r = R(Z3_mk_bvand(ctx, asBV(a), asBV(b))); break;
    case K::Or: if (boolOps) { Z3_ast x[2] = {(Z3_ast)a->z3, (Z3_ast)b->z3}; r = R(Z3_mk_or(ctx, 2, x)); } else r = R(Z3_mk_bvor(ctx, asBV(a), asBV(b))); break;
    case K::Xor: if (boolOps) r = R(Z3_mk_xor(ctx, (Z3_ast)a->z3, (Z3_ast)b->z3)); else r = R(Z3_mk_bvxor(ctx, asBV(a), asBV(b))); break;
    case K::Shl: r = R(Z3_mk_bvshl(ctx, asBV(a), asBV(b))); break;
    case K::LShr: r = R(Z3_mk_bvlshr(ctx, asBV(a), asBV(b))); break;
    case K::AShr: r = R(Z3_mk_bvashr(ctx, asBV(a), asBV(b))); break;
    case K::Eq: r = R(Z3_mk_eq(ctx, (Z3_ast)a->z3, (Z3_ast)b->z3)); break;
    case K::Ult: r = R(Z3_mk_bvult(ctx, asBV(a), asBV(b))); break;
    case K::Slt: r = R(Z3_mk_bvslt(ctx, asBV(a), asBV(b))); break;
    case K::Not: r = R(Z3_mk_not(ctx, (Z3_ast)a->z3)); break;
    case K::Ite: r = R(Z3_mk_ite(ctx, (Z3_ast)a->z3, (Z3_ast)b->z3, (Z3_ast)e->c->z3)); break;
    case K::SExt: r = R(Z3_mk_sign_ext(ctx, e->w - a->w, asBV(a))); break;
    case K::Extract: r = R(Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, asBV(a))); if (e->w == 1) r = fromBV1(r); break;
    case K::Concat: if (isC(a) && a->lo == 0 && a->hi == 0) r = R(Z3_mk_zero_ext(ctx, a->w, asBV(b))); else r = R(Z3_mk_concat(ctx, asBV(a), asBV(b))); break;
    }
    if (e->w == 1) switch (e->k) {
        case K::Add: case K::Sub: case K::Mul: case K::UDiv: case K::SDiv: case K::URem: case K::SRem: case K::Shl: case K::LShr: case K::AShr: r = fromBV1(r); break;
        default: break;
    }
    e->z3 = r;
}
static Z3_ast trans(E e0) {
    std::vector<E> st{e0};
    while (!st.empty()) {
        E e = st.back();
        if (e->z3) { st.pop_back(); continue; }
        bool ready = true;
        for (E k : {e->a, e->b, e->c}) if (k && !k->z3) { st.push_back(k); ready = false; }
        if (!ready) continue;
        st.pop_back(); trans1(e);
    }
    return (Z3_ast)e0->z3;
}

struct VecHash { size_t operator()(const std::vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };
struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> vals; };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> cache;
static std::deque<Model> recent;

static bool intersects(const std::vector<u32> &a, const std::vector<char> &in) { for (u32 x : a) if (x < in.size() && in[x]) return true; return false; }

Res solve(const std::vector<E> &pc, E cond, const Model &base, Model &out) {
    g_ss.queries++;
    if (isC(cond)) { if (cond->lo) { out = base; return Res::Sat; } return Res::Unsat; }
    // independent slice
    std::vector<char> in(g_vars.size(), 0);
    std::vector<u32> sliceVars;
    for (u32 v : varsOf(cond)) { in[v] = 1; sliceVars.push_back(v); }
    std::vector<char> taken(pc.size(), 0);
    std::vector<E> slice;
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) if (!taken[i] && intersects(varsOf(pc[i]), in)) {
            taken[i] = 1; slice.push_back(pc[i]); ch = true;
            for (u32 v : varsOf(pc[i])) if (!in[v]) { in[v] = 1; sliceVars.push_back(v); }
        }
    }
    std::vector<u32> key; key.reserve(slice.size() + 1);
    for (E e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = cache.find(key);
    if (it != cache.end()) {
        g_ss.cacheHits++;
        if (it->second.r == Res::Sat) { out = base; if (out.size() < g_vars.size()) out.resize(g_vars.size(), 0); for (auto &p : it->second.vals) out[p.first] = p.second; }
        return it->second.r;
    }
    auto record = [&](const Model &m) {
        CacheEnt ce; ce.r = Res::Sat; for (u32 v : sliceVars) ce.vals.push_back({v, v < m.size() ? m[v] : 0}); cache[key] = ce;
    };
    for (size_t i = 0; i < recent.size(); ++i) {
        newEvalEpoch();
        const Model &m = recent[i];
        bool ok = evalExpr(cond, m) == 1;
        for (size_t j = 0; ok && j < slice.size(); ++j) ok = evalExpr(slice[j], m) == 1;
        if (ok) {
            g_ss.modelHits++;
            out = base; if (out.size() < g_vars.size()) out.resize(g_vars.size(), 0);
            for (u32 v : sliceVars) out[v] = v < m.size() ? m[v] : 0;
            record(out);
            if (i) { Model t = recent[i]; recent.erase(recent.begin() + i); recent.push_front(t); }
            return Res::Sat;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    g_ss.z3calls++;
    if (g_ss.z3calls % 5000 == 0) { Z3_solver_dec_ref(ctx, solver); mkSolver(); }
    Z3_solver_push(ctx, solver);
    for (E e : slice) Z3_solver_assert(ctx, solver, trans(e));
    Z3_solver_assert(ctx, solver, trans(cond));
    Z3_lbool r = Z3_solver_check(ctx, solver);
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    if (res == Res::Sat) {
        Z3_model m = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, m);
        out = base; if (out.size() < g_vars.size()) out.resize(g_vars.size(), 0);
        for (u32 v : sliceVars) {
            Z3_ast val;
            u64 x = 0;
            if (v < zvars.size() && zvars[v] && Z3_model_eval(ctx, m, zvars[v], true, &val)) {
                if (g_vars[v].w == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
                else { uint64_t t = 0; if (Z3_get_numeral_uint64(ctx, val, &t)) x = t; }
            }
            out[v] = x;
        }
        Z3_model_dec_ref(ctx, m);
        // sanity check of the model against the encoding itself
        newEvalEpoch();
        bool ok = evalExpr(cond, out) == 1;
        for (size_t j = 0; ok && j < slice.size(); ++j) ok = evalExpr(slice[j], out) == 1;
        if (!ok) { fprintf(stderr, "symx: INTERNAL: model does not satisfy query (encoder bug): cond=%s\n", toStr(cond).c_str()); abort(); }
        record(out);
        recent.push_front(out); if (recent.size() > 24) recent.pop_back();
    } else if (res == Res::Unsat) cache[key] = CacheEnt{Res::Unsat, {}};
    else g_ss.unknown++;
    Z3_solver_pop(ctx, solver, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    return res;
}
}
