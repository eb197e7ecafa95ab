#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstring>
#include <algorithm>
using namespace llvm;
namespace symx {
int tiId(const std::string &n);
#define BI(NAME) builtins[NAME] = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a)
#define UNUSED (void)X; (void)s; (void)in; (void)ci; (void)a

static void copyMem(Exec &X, State &s, u64 dst, u64 src, u64 n) {
    if (!n) return;
    Obj *so, *d;
    X.ensure(s, src, n, false, &so);
    X.ensure(s, dst, n, true, &d);
    X.ensure(s, src, n, false, &so); // the write may have cloned a shared object
    u64 so_ = src - so->base, do_ = dst - d->base;
    if (!so->sym && !d->sym) { memmove(d->data + do_, so->data + so_, n); return; }
    std::vector<Val> t(n);
    for (u64 i = 0; i < n; ++i) t[i] = X.rdByte(so, so_ + i);
    for (u64 i = 0; i < n; ++i) X.wrByte(d, do_ + i, t[i]);
}
static void setMem(Exec &X, State &s, u64 dst, Val v, u64 n) {
    if (!n) return;
    Obj *d; u8 *p = X.ensure(s, dst, n, true, &d);
    if (v.e) { v = X.fromE(mkTrunc(v.e, 8)); }
    if (!v.e && !d->sym) { memset(p, (int)v.c, n); return; }
    if (!v.e) v.c &= 0xff;
    for (u64 i = 0; i < n; ++i) X.wrByte(d, dst - d->base + i, v);
}
static E ctpop(E e) { unsigned w = e->w; E r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(e, i, 1), w)); return r; }
static E ctz(E e) { unsigned w = e->w; E r = mkConst(w, w); for (int i = w - 1; i >= 0; --i) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return r; }
static E clz(E e) { unsigned w = e->w; E r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); return r; }
static E bswap(E e) { E r = nullptr; for (unsigned i = 0; i < e->w / 8; ++i) { E b = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } return r; }

static E symVar(Exec &X, State &s, const std::string &name, unsigned w) {
    std::string key = std::to_string(s.inputs.size()) + "/" + name + "/" + std::to_string(w);
    auto &e = X.symCache[key];
    if (!e) e = mkVar(name, w);
    s.inputs.push_back({name, w, e});
    return e;
}
static void assume(Exec &X, State &s, E c) {
    c = X.simp(s, c);
    if (isTrue(c)) return;
    if (isFalse(c)) { X.pathsAssumed++; throw Terminate(); }
    if (!X.evalModel(s, c)) {
        Model m; Res r = solve(s.pc, c, s.model, m);
        if (r == Res::Unsat) { X.pathsAssumed++; throw Terminate(); }
        if (r == Res::Unknown) { X.incompletes["solver-unknown(assume)"]++; X.pathsIncomplete++; throw Terminate(); }
        s.model = m;
    }
    X.addPC(s, c);
}
static void check(Exec &X, State &s, E c, const std::string &msg) {
    X.asserts++;
    c = X.simp(s, c);
    if (isTrue(c)) return;
    bool mv = X.evalModel(s, c);
    Model m;
    if (mv) {
        X.assertQueries++;
        Res r = solve(s.pc, mkNot(c), s.model, m);
        if (r == Res::Unsat) return;
        if (r == Res::Unknown) { X.incompletes["solver-unknown(assertion) " + msg]++; X.addPC(s, c); return; }
        // report on a copy, continue with the assertion assumed
        State *o = X.fork(s); o->model = m; X.addPC(*o, mkNot(c));
        try { X.error(*o, "assert", msg); } catch (Terminate &) {}
        delete o;
        X.addPC(s, c);
        return;
    }
    X.error(s, "assert", msg);
}
static void throwLib(Exec &X, State &s, const char *ti) {
    // library exception: object with no usable content
    u64 obj = X.allocObj(s, 64, OK_Heap);
    X.wr(s, obj, X.dummyVt, 8);
    const GlobalVariable *gv = X.M.getNamedGlobal(ti); u64 a = 0;
    if (gv) a = X.gaddr[gv];
    else { static std::map<std::string, u64> fake; auto &f = fake[ti]; if (!f) { auto *G = new GlobalVariable(X.M, PointerType::get(X.M.getContext(), 0), true, GlobalValue::ExternalLinkage, nullptr, ti); f = 0xfff0000000000000ull + fake.size() * 4096; X.gaddr[G] = f; X.gvByAddr[f] = G; } a = f; }
    ExcInfo ei; ei.obj = obj; ei.ti = (void *)a; ei.dtor = 0; s.excs[obj] = ei; s.uncaught++;
    X.unwind(s, obj);
}

void Exec::registerBuiltins() {
    // ---- harness API
    BI("sym_u64") { UNUSED; std::string n = X.cstr(s, a[0].c); E e = symVar(X, s, n, 64); X.finishCall1(s, Val{e, 0}); };
    BI("sym_u32") { UNUSED; std::string n = X.cstr(s, a[0].c); E e = symVar(X, s, n, 32); X.finishCall1(s, Val{e, 0}); };
    BI("sym_u16") { UNUSED; std::string n = X.cstr(s, a[0].c); E e = symVar(X, s, n, 16); X.finishCall1(s, Val{e, 0}); };
    BI("sym_u8") { UNUSED; std::string n = X.cstr(s, a[0].c); E e = symVar(X, s, n, 8); X.finishCall1(s, Val{e, 0}); };
    BI("sym_bool") { UNUSED; std::string n = X.cstr(s, a[0].c); E e = symVar(X, s, n, 1); X.finishCall1(s, Val{e, 0}); };
    BI("sym_range") { UNUSED; // inclusive lo..hi, returned as u64; narrow variable for cheap reasoning
        std::string n = X.cstr(s, a[0].c); u64 lo = a[1].c, hi = a[2].c;
        if (lo == hi) { X.finishCall1(s, CV(lo)); return; }
        u64 d = hi - lo; unsigned w = 64 - __builtin_clzll(d);
        E v = symVar(X, s, n, w); 
        E c = mkNot(mkUlt(mkConst(d, w), v));
        assume(X, s, c);
        X.finishCall1(s, X.fromE(mkAdd(mkZExt(v, 64), mkConst(lo, 64)))); };
    BI("sym_bytes") { UNUSED; std::string n = X.cstr(s, a[2].c); u64 len = X.concretize(s, a[1], 64); Obj *o; X.ensure(s, a[0].c, len, true, &o);
        for (u64 i = 0; i < len; ++i) { E e = symVar(X, s, n + "[" + std::to_string(i) + "]", 8); X.wrByte(o, a[0].c - o->base + i, Val{e, 0}); } X.finishCall0(s); };
    BI("sym_assume") { UNUSED; E c = X.toE(a[0], ci.argw[0]); if (c->w != 1) c = mkNot(mkEq(c, mkConst(0, c->w))); assume(X, s, c); X.finishCall0(s); };
    BI("sym_check") { UNUSED; E c = X.toE(a[0], ci.argw[0]); if (c->w != 1) c = mkNot(mkEq(c, mkConst(0, c->w))); check(X, s, c, X.cstr(s, a[1].c)); X.finishCall0(s); };
    BI("sym_fail") { UNUSED; X.error(s, "assert", X.cstr(s, a[0].c)); };
    BI("sym_concretize") { UNUSED; u64 v = X.concretize(s, a[0], ci.argw[0]); X.finishCall1(s, CV(v)); };
    BI("sym_is_symbolic") { UNUSED; X.finishCall1(s, CV(a[0].e != nullptr)); };
    BI("sym_cover") { UNUSED; s.covers.insert(X.cstr(s, a[0].c)); X.finishCall0(s); };
    BI("sym_observe") { UNUSED; if (s.obs.size() < 4096) s.obs.push_back({X.cstr(s, a[0].c), a[1]}); X.finishCall0(s); };
    BI("sym_param") { UNUSED; std::string n = X.cstr(s, a[0].c); auto it = X.opt.params.find(n); X.finishCall1(s, CV(it != X.opt.params.end() ? it->second : a[1].c)); };
    BI("sym_stop") { UNUSED; X.finishPath(s, "stop"); throw Terminate(); };
    BI("sym_debug") { UNUSED; fprintf(stderr, "[debug] %s %s\n", X.cstr(s, a[0].c).c_str(), a[1].e ? toStr(a[1].e).c_str() : std::to_string((unsigned long long)a[1].c).c_str()); X.finishCall0(s); };
    // ---- allocation
    Builtin alloc = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED; u64 n = X.concretize(s, a[0], 64); if (n > (1ull << 40)) { throwLib(X, s, "_ZTISt9bad_alloc"); return; } X.finishCall1(s, CV(X.allocObj(s, n, OK_Heap))); };
    for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamRKSt9nothrow_t"}) builtins[n] = alloc;
    BI("aligned_alloc") { UNUSED; u64 n = X.concretize(s, a[1], 64); X.finishCall1(s, CV(X.allocObj(s, n, OK_Heap))); };
    BI("calloc") { UNUSED; u64 n = X.concretize(s, a[0], 64) * X.concretize(s, a[1], 64); u64 p = X.allocObj(s, n, OK_Heap); setMem(X, s, p, CV(0), n); X.finishCall1(s, CV(p)); };
    BI("posix_memalign") { UNUSED; u64 n = X.concretize(s, a[2], 64); u64 p = X.allocObj(s, n, OK_Heap); X.wr(s, a[0].c, p, 8); X.finishCall1(s, CV(0)); };
    Builtin fr = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED;
        u64 p = X.concretize(s, a[0], 64); if (!p) { X.finishCall0(s); return; }
        Obj *o = s.mem.get(p >> OBJ_SHIFT);
        if (!o || o->kind != OK_Heap || o->base != p) X.error(s, "invalid-free", "free of an invalid or already freed pointer");
        u64 n = (o->size >> OBJ_SHIFT) + 1; u64 id = p >> OBJ_SHIFT;
        for (u64 i = 0; i < n; ++i) s.mem.del(id + i);
        X.finishCall0(s); };
    for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) builtins[n] = fr;
    BI("realloc") { UNUSED; u64 p = X.concretize(s, a[0], 64), n = X.concretize(s, a[1], 64); u64 q = X.allocObj(s, n, OK_Heap);
        if (p) { Obj *o = s.mem.get(p >> OBJ_SHIFT); if (!o || o->base != p) X.error(s, "invalid-free", "realloc"); copyMem(X, s, q, p, std::min<u64>(n, o->size)); s.mem.del(p >> OBJ_SHIFT); }
        X.finishCall1(s, CV(q)); };
    // ---- memory intrinsics and mem* functions
    Builtin mc = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED; u64 d = X.concretize(s, a[0], 64), r = X.concretize(s, a[1], 64), n = X.concretize(s, a[2], ci.argw[2]); copyMem(X, s, d, r, n); X.finishCall1(s, CV(d)); };
    for (auto n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) builtins[n] = mc;
    Builtin ms = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED; u64 d = X.concretize(s, a[0], 64), n = X.concretize(s, a[2], ci.argw[2]); setMem(X, s, d, a[1], n); X.finishCall1(s, CV(d)); };
    for (auto n : {"llvm.memset", "llvm.memset.inline", "memset"}) builtins[n] = ms;
    Builtin cmp = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED;
        u64 p = X.concretize(s, a[0], 64), q = X.concretize(s, a[1], 64), n = X.concretize(s, a[2], 64);
        if (!n) { X.finishCall1(s, CV(0)); return; }
        Obj *o, *r; X.ensure(s, p, n, false, &o); X.ensure(s, q, n, false, &r);
        u64 po = p - o->base, qo = q - r->base;
        bool eqOnly = ci.direct && ci.direct->name == "bcmp";
        if (!o->sym && !r->sym) { int c = memcmp(o->data + po, r->data + qo, n); X.finishCall1(s, CV((u32)(c < 0 ? -1 : c > 0))); return; }
        E res = mkConst(0, 32); E allEq = mkConst(1, 1);
        for (u64 i = n; i-- > 0;) {
            E x = X.toE(X.rdByte(o, po + i), 8), y = X.toE(X.rdByte(r, qo + i), 8);
            if (eqOnly) allEq = mkAnd(allEq, mkEq(x, y));
            else res = mkIte(mkEq(x, y), res, mkIte(mkUlt(x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
        }
        if (eqOnly) res = mkIte(allEq, mkConst(0, 32), mkConst(1, 32));
        X.finishCall1(s, X.fromE(res)); };
    builtins["memcmp"] = cmp; builtins["bcmp"] = cmp;
    // ---- integer intrinsics
    BI("llvm.ctpop") { UNUSED; unsigned w = ci.argw[0]; if (!a[0].e) X.finishCall1(s, CV(__builtin_popcountll(a[0].c))); else X.finishCall1(s, X.fromE(ctpop(X.toE(a[0], w)))); };
    BI("llvm.cttz") { UNUSED; unsigned w = ci.argw[0]; if (!a[0].e) X.finishCall1(s, CV(a[0].c ? __builtin_ctzll(a[0].c) : w)); else X.finishCall1(s, X.fromE(ctz(X.toE(a[0], w)))); };
    BI("llvm.ctlz") { UNUSED; unsigned w = ci.argw[0]; if (!a[0].e) X.finishCall1(s, CV(a[0].c ? w - 64 + __builtin_clzll(a[0].c) : w)); else X.finishCall1(s, X.fromE(clz(X.toE(a[0], w)))); };
    BI("llvm.bswap") { UNUSED; X.finishCall1(s, X.fromE(bswap(X.toE(a[0], ci.argw[0])))); };
    BI("llvm.bitreverse") { UNUSED; E e = X.toE(a[0], ci.argw[0]); E r = nullptr; for (unsigned i = 0; i < e->w; ++i) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } X.finishCall1(s, X.fromE(r)); };
    auto bin = [&](const char *n, E (*f)(E, E)) { static std::map<std::string, E (*)(E, E)> tab; tab[n] = f; builtins[n] = nullptr; };
    (void)bin;
#define BIN2(NAME, EXPR) BI(NAME) { UNUSED; unsigned w = ci.argw[0]; E x = X.toE(a[0], w), y = X.toE(a[1], w); (void)x; (void)y; X.finishCall1(s, X.fromE(EXPR)); }
    BIN2("llvm.umin", mkIte(mkUlt(x, y), x, y)); BIN2("llvm.umax", mkIte(mkUlt(x, y), y, x));
    BIN2("llvm.smin", mkIte(mkSlt(x, y), x, y)); BIN2("llvm.smax", mkIte(mkSlt(x, y), y, x));
    BIN2("llvm.abs", mkIte(mkSlt(x, mkConst128(0, w)), mkSub(mkConst128(0, w), x), x));
    BI("llvm.abs") { UNUSED; unsigned w = ci.argw[0]; E x = X.toE(a[0], w); X.finishCall1(s, X.fromE(mkIte(mkSlt(x, mkConst128(0, w)), mkSub(mkConst128(0, w), x), x))); };
    BIN2("llvm.usub.sat", mkIte(mkUlt(x, y), mkConst128(0, w), mkSub(x, y)));
    BIN2("llvm.uadd.sat", mkIte(mkUlt(mkAdd(x, y), x), mkSub(mkConst128(0, w), mkConst128(1, w)), mkAdd(x, y)));
    BIN2("llvm.ptrmask", mkAnd(x, y));
#define OVF(NAME, RES, OV) BI(NAME) { UNUSED; unsigned w = ci.argw[0]; E x = X.toE(a[0], w), y = X.toE(a[1], w); E r = RES; Val v[2] = {X.fromE(r), X.fromE(OV)}; X.finishCall(s, v, 2); }
    OVF("llvm.uadd.with.overflow", mkAdd(x, y), mkUlt(r, x));
    OVF("llvm.usub.with.overflow", mkSub(x, y), mkUlt(x, y));
    OVF("llvm.umul.with.overflow", mkBin(K::Mul, x, y), mkNot(mkEq(mkExtract(mkBin(K::Mul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)), w, w), mkConst128(0, w))));
    OVF("llvm.sadd.with.overflow", mkAdd(x, y), mkNot(mkEq(mkSExt(r, w + 1), mkAdd(mkSExt(x, w + 1), mkSExt(y, w + 1)))));
    OVF("llvm.ssub.with.overflow", mkSub(x, y), mkNot(mkEq(mkSExt(r, w + 1), mkSub(mkSExt(x, w + 1), mkSExt(y, w + 1)))));
    OVF("llvm.smul.with.overflow", mkBin(K::Mul, x, y), mkNot(mkEq(mkSExt(r, 2 * w), mkBin(K::Mul, mkSExt(x, 2 * w), mkSExt(y, 2 * w)))));
    BI("llvm.fshl") { UNUSED; unsigned w = ci.argw[0]; E x = X.toE(a[0], w), y = X.toE(a[1], w), z = mkBin(K::URem, X.toE(a[2], w), mkConst(w, w)); E cc = mkConcat(x, y); E sh = mkBin(K::Shl, cc, mkZExt(z, 2 * w)); X.finishCall1(s, X.fromE(mkExtract(sh, w, w))); };
    BI("llvm.fshr") { UNUSED; unsigned w = ci.argw[0]; E x = X.toE(a[0], w), y = X.toE(a[1], w), z = mkBin(K::URem, X.toE(a[2], w), mkConst(w, w)); E cc = mkConcat(x, y); E sh = mkBin(K::LShr, cc, mkZExt(z, 2 * w)); X.finishCall1(s, X.fromE(mkExtract(sh, 0, w))); };
    Builtin id0 = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED; X.finishCall1(s, a[0]); };
    for (auto n : {"llvm.expect", "llvm.threadlocal.address", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy"}) builtins[n] = id0;
    BI("llvm.is.constant") { UNUSED; X.finishCall1(s, CV(0)); };
    BI("llvm.objectsize") { UNUSED; X.finishCall1(s, CV(~0ull)); };
    BI("llvm.stacksave") { UNUSED; X.finishCall1(s, CV(0)); };
    Builtin nop = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED; X.finishCall1(s, CV(0)); };
    for (auto n : {"llvm.stackrestore", "llvm.va_end", "llvm.dbg", "llvm.lifetime", "__cxa_atexit", "__cxa_thread_atexit", "signal", "backtrace", "nanosleep", "usleep", "sched_yield", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy",
        "pthread_mutex_clocklock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_cond_clockwait", "pthread_cond_broadcast", "pthread_cond_signal", "pthread_cond_destroy",
        "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy",
        "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12bad_weak_ptrD1Ev", "_ZSt13set_terminatePFvvE",
        "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "_ZSt21ios_base_library_initv", "__cxa_free_exception_dummy", "_ZSt17current_exceptionv", "sigaction", "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13random_device7_M_finiEv", "_ZNSt8ios_base4InitC1Ev"}) builtins[n] = nop;
    BI("pthread_self") { UNUSED; X.finishCall1(s, CV(0x7000001)); };
    BI("pthread_once") { UNUSED; X.incomplete(s, "pthread_once"); };
    BI("__errno_location") { UNUSED; auto &e = s.kv["errno"]; if (!e) { e = X.allocObj(s, 8, OK_Global); } X.finishCall1(s, CV(e)); };
    BI("_ZNSt6chrono3_V212system_clock3nowEv") { UNUSED; s.clock += 1000; X.finishCall1(s, CV(s.clock + 1700000000000000000ull)); };
    BI("_ZNSt6chrono3_V212steady_clock3nowEv") { UNUSED; s.clock += 1000; X.finishCall1(s, CV(s.clock)); };
    BI("time") { UNUSED; X.finishCall1(s, CV(1700000000ull)); };
    BI("getpid") { UNUSED; X.finishCall1(s, CV(4242)); };
    BI("_ZNSt13random_device9_M_getvalEv") { UNUSED; auto &r = s.kv["rnd"]; r = r * 6364136223846793005ull + 1442695040888963407ull; X.finishCall1(s, CV((r >> 32) & 0xffffffffu)); };
    // ---- streams (diagnostics only)
    BI("$stream") { UNUSED; X.stubsUsed["iostream"]++; X.finishCall1(s, a.empty() ? CV(0) : a[0]); };
    BI("$stream.ctor") { UNUSED; X.stubsUsed["iostream"]++; u64 p = a[0].c; Obj *o; X.ensure(s, p, 8, true, &o);
        u64 off = p - o->base; u64 left = o->size - off; u64 n = std::min<u64>(left, ci.direct && ci.direct->name.find("basic_stringstream") != std::string::npos ? 392 : 376);
        for (u64 i = 0; i + 8 <= n; i += 8) X.wr(s, p + i, 0, 8);
        X.wr(s, p, X.dummyVt, 8); if (n >= 256) X.wr(s, p + 240, X.dummyCtype, 8);
        if (ci.direct->name.find("18basic_stringstream") != std::string::npos) { X.wr(s, p + 16, X.dummyVt, 8); X.wr(s, p + 256, X.dummyCtype, 8); }
        X.finishCall1(s, a[0]); };
    BI("$stream.str") { UNUSED; X.stubsUsed["stringstream::str() -> empty"]++; u64 p = a[0].c; X.wr(s, p, p + 16, 8); X.wr(s, p + 8, 0, 8); X.wr(s, p + 16, 0, 8); X.finishCall0(s); };
    // ---- C++ runtime
    BI("__cxa_guard_acquire") { UNUSED; u64 v = X.rd(s, a[0].c, 1); X.finishCall1(s, CV(v == 0)); };
    BI("__cxa_guard_release") { UNUSED; X.wr(s, a[0].c, 1, 1); X.finishCall0(s); };
    BI("__cxa_guard_abort") { UNUSED; X.finishCall0(s); };
    BI("__cxa_pure_virtual") { UNUSED; X.error(s, "pure-virtual", "pure virtual call"); };
    BI("__cxa_allocate_exception") { UNUSED; u64 n = X.concretize(s, a[0], 64); X.finishCall1(s, CV(X.allocObj(s, n, OK_Heap))); };
    BI("__cxa_free_exception") { UNUSED; s.mem.del(a[0].c >> OBJ_SHIFT); X.finishCall0(s); };
    BI("__cxa_throw") { UNUSED; u64 obj = X.concretize(s, a[0], 64); ExcInfo ei; ei.obj = obj; ei.ti = (void *)a[1].c; ei.dtor = a[2].c; s.excs[obj] = ei; s.uncaught++; X.unwind(s, obj); };
    BI("__cxa_begin_catch") { UNUSED; u64 obj = a[0].c; auto &ei = s.excs[obj]; ei.handlers++; s.caught.push_back(obj); if (s.uncaught > 0) s.uncaught--; auto it = s.kv.find("adj" + std::to_string(obj)); X.finishCall1(s, CV(it != s.kv.end() ? it->second : obj)); };
    BI("__cxa_get_exception_ptr") { UNUSED; u64 obj = a[0].c; auto it = s.kv.find("adj" + std::to_string(obj)); X.finishCall1(s, CV(it != s.kv.end() ? it->second : obj)); };
    BI("__cxa_end_catch") { UNUSED; if (s.caught.empty()) { X.finishCall0(s); return; }
        u64 obj = s.caught.back(); s.caught.pop_back(); auto &ei = s.excs[obj];
        X.finishCall0(s);
        if (--ei.handlers <= 0 && ei.live) {
            // run the destructor like a call made from here: the result is discarded
            u64 d = ei.dtor; s.excs.erase(obj);
            auto it = X.funcByAddr.find(d);
            (void)it; // destructors of exception objects only release their message strings
        } };
    BI("__cxa_rethrow") { UNUSED; if (s.caught.empty()) X.error(s, "terminate", "rethrow without exception"); u64 obj = s.caught.back(); s.excs[obj].handlers++; s.uncaught++; s.excs[obj].handlers--; 
        // the handler's __cxa_end_catch (run as cleanup) must not destroy it
        s.excs[obj].handlers++; X.unwind(s, obj); };
    BI("_ZSt18uncaught_exceptionv") { UNUSED; X.finishCall1(s, CV(s.uncaught > 0)); };
    BI("_ZSt19uncaught_exceptionsv") { UNUSED; X.finishCall1(s, CV((u32)s.uncaught)); };
    BI("_ZSt9terminatev") { UNUSED; std::string ex; if (!s.excs.empty()) ex = " while handling " + demangle(X.tiName((u64)(size_t)s.excs.rbegin()->second.ti)); X.error(s, "terminate", "std::terminate" + ex); };
    BI("__clang_call_terminate") { UNUSED; X.error(s, "terminate", "exception escaped a noexcept function"); };
    BI("abort") { UNUSED; X.error(s, "abort", "abort()"); };
    BI("raise") { UNUSED; X.error(s, "abort", "raise()"); };
    BI("exit") { UNUSED; X.error(s, "abort", "exit()"); };
    BI("llvm.trap") { UNUSED; X.error(s, "trap", "llvm.trap"); };
    BI("__assert_fail") { UNUSED; X.error(s, "code-assert", X.cstr(s, a[0].c)); };
    BI("llvm.eh.typeid.for") { UNUSED; X.finishCall1(s, CV(tiId(X.tiName(a[0].c)))); };
    BI("__dynamic_cast") { UNUSED;
        u64 p = X.concretize(s, a[0], 64); std::string dst = X.tiName(a[2].c);
        u64 vp = X.rd(s, p, 8); i64 top = (i64)X.rd(s, vp - 16, 8); std::string dyn = X.tiName(X.rd(s, vp - 8, 8));
        u64 adj = 0; bool ok = X.tiMatch(s, dyn, dst, p + top, adj);
        X.finishCall1(s, CV(ok ? adj : 0)); };
    auto thr = [&](const char *fn, const char *ti) { static std::map<std::string, const char *> tab; tab[fn] = ti;
        builtins[fn] = [](Exec &X, State &s, Inst &in, CallInfo &ci, std::vector<Val> &a) { UNUSED; throwLib(X, s, tab[ci.direct->name]); }; };
    thr("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"); thr("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"); thr("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast");
    thr("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"); thr("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"); thr("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
    thr("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"); thr("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"); thr("_ZSt20__throw_system_errori", "_ZTISt12system_error"); thr("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
    thr("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"); thr("_ZSt23__throw_bad_weak_ptrv", "_ZTISt12bad_weak_ptr"); thr("_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access");
    BI("_ZNSt13runtime_errorC1EPKc") { UNUSED; X.wr(s, a[0].c, X.dummyVt, 8); X.finishCall1(s, a[0]); };
    builtins["_ZNSt13runtime_errorC2EPKc"] = builtins["_ZNSt13runtime_errorC1EPKc"]; builtins["_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = builtins["_ZNSt13runtime_errorC1EPKc"];
    builtins["_ZNSt12out_of_rangeC1EPKc"] = builtins["_ZNSt16invalid_argumentC1EPKc"] = builtins["_ZNSt11logic_errorC1EPKc"] = builtins["_ZNSt13runtime_errorC1EPKc"];
    // ---- math on concrete doubles
#define FN1(NAME, F) BI(NAME) { UNUSED; u64 v = X.concretize(s, a[0], 64); double d; memcpy(&d, &v, 8); d = F(d); memcpy(&v, &d, 8); X.finishCall1(s, CV(v)); }
    FN1("llvm.ceil", ceil); FN1("llvm.floor", floor); FN1("llvm.fabs", fabs); FN1("llvm.sqrt", sqrt); FN1("ceil", ceil); FN1("floor", floor); FN1("log2", log2); FN1("log", log); FN1("sqrt", sqrt); FN1("exp", exp); FN1("llvm.round", round); FN1("llvm.log2", log2); FN1("llvm.trunc", trunc);
    BI("pow") { UNUSED; u64 v = X.concretize(s, a[0], 64), w = X.concretize(s, a[1], 64); double d, e; memcpy(&d, &v, 8); memcpy(&e, &w, 8); d = pow(d, e); memcpy(&v, &d, 8); X.finishCall1(s, CV(v)); };
    builtins.erase("bin");
}
}
