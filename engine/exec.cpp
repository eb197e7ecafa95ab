#include <functional>
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <algorithm>
#include <unistd.h>
using namespace llvm;
namespace symx {

double Exec::now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

Exec::Exec(Module &m, Options o) : M(m), DL(m.getDataLayout()), opt(o) { t0 = now(); registerBuiltins(); }

Func *Exec::getFunc(const Function *F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    if (F->isDeclaration()) // the code's stdio calls go to the in-memory file system
        if (auto *R = M.getFunction("mfs_" + F->getName().str())) if (!R->isDeclaration()) { Func *g = getFunc(R); funcs[F] = g; return g; }
    Func *f = new Func(); f->F = F; f->name = F->getName().str(); funcs[F] = f; funcList.push_back(f);
    auto b = builtins.find(f->name);
    if (b != builtins.end()) f->bi = b->second;
    else if (F->isIntrinsic()) {
        // match by intrinsic base name, e.g. llvm.memcpy
        std::string n = f->name;
        while (true) { auto p = n.rfind('.'); if (p == std::string::npos || p <= 4) break; n = n.substr(0, p); auto bb = builtins.find(n); if (bb != builtins.end()) { f->bi = bb->second; break; } }
    } else {
        static const char *streamPfx[] = {"_ZNSo", "_ZNKSo", "_ZNSi", "_ZNKSi", "_ZNSd", "_ZStlsI", "_ZStrsI", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt6locale", "_ZNSt15basic_streambuf", "_ZNKSt15basic_streambuf", "_ZNSt7__cxx1115basic_stringbuf", "_ZSt7getline", "_ZNSt14basic_ofstream", "_ZNSt14basic_ifstream", "_ZNSt13basic_filebuf", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1119basic_istringstream"};
        for (auto p : streamPfx) if (f->name.compare(0, strlen(p), p) == 0) {
            const std::string &n = f->name;
            bool str = n.find("3strEv") != std::string::npos;
            bool ctor = !str && (n.find("EC1Ev") != std::string::npos || n.find("EC2Ev") != std::string::npos || n.find("C1ERK") != std::string::npos || n.find("C1ESt13_Ios_Openmode") != std::string::npos) && n.find("stringstream") != std::string::npos;
            f->bi = builtins[str ? "$stream.str" : ctor ? "$stream.ctor" : "$stream"];
            break;
        }
    }
    f->inRepo = f->name.find("db0") != std::string::npos;
    return f;
}

// ---------------------------------------------------------------- memory
u64 Exec::allocObj(State &s, u64 size, ObjKind k) {
    u64 nIds = (size >> OBJ_SHIFT) + 1;
    if (size > (256ull << 20)) { incomplete(s, "allocation larger than 256MB"); }
    u64 id;
    if (k == OK_Stack && nIds == 1 && !s.stackFree.empty()) { id = s.stackFree.back(); s.stackFree.pop_back(); }
    else { id = s.nextId; s.nextId += nIds; }
    u64 base = id << OBJ_SHIFT;
    Obj *o = new Obj(k, size, base);
    memset(o->data, k == OK_Global || k == OK_Const ? 0 : 0xA5, size);
    s.mem.put(id, o);
    for (u64 i = 1; i < nIds; ++i) { Obj *c = new Obj(OK_Cont, 0, base); s.mem.put(id + i, c); }
    return base;
}
static inline Obj *lookup(State &s, u64 addr) {
    Obj *o = s.mem.get(addr >> OBJ_SHIFT);
    if (o && o->kind == OK_Cont) o = s.mem.get(o->base >> OBJ_SHIFT);
    return o;
}
u8 *Exec::ensure(State &s, u64 addr, u64 n, bool write, Obj **po) {
    Obj *o = lookup(s, addr);
    if (!o) { char b[80]; snprintf(b, 80, "%s of %llu bytes at invalid address 0x%llx", write ? "store" : "load", (unsigned long long)n, (unsigned long long)addr); error(s, addr < (1 << OBJ_SHIFT) ? "null-deref" : "invalid-pointer", b); }
    if (o->kind == OK_Func) error(s, "invalid-pointer", "access to code");
    u64 off = addr - o->base;
    if (off + n > o->size) { char b[120]; snprintf(b, 120, "%s of %llu bytes at offset %llu of object of size %u", write ? "store" : "load", (unsigned long long)n, (unsigned long long)off, o->size); error(s, "out-of-bounds", b); }
    if (write) {
        if (o->ro) error(s, "write-to-constant", "store to read-only object");
        o = s.mem.getW(o->base >> OBJ_SHIFT);
    }
    if (po) *po = o;
    return o->data + off;
}
void Exec::wrByte(Obj *o, u64 off, Val v) {
    if (v.e) {
        if (!o->sym) { o->sym = (E *)calloc(o->size, sizeof(E)); }
        if (!o->sym[off]) o->nsym++;
        o->sym[off] = v.e; o->data[off] = 0;
    } else {
        o->data[off] = (u8)v.c;
        if (o->sym && o->sym[off]) { o->sym[off] = nullptr; if (--o->nsym == 0) { free(o->sym); o->sym = nullptr; } }
    }
}
Val Exec::rdObj(Obj *o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool sym = false;
    if (o->sym) for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { sym = true; break; }
    if (!sym && w <= 64) { u64 v = 0; memcpy(&v, o->data + off, n); return CV(v & mask(w)); }
    E r = nullptr;
    for (int i = n - 1; i >= 0; --i) {
        E b = o->sym && o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8);
        r = r ? mkConcat(r, b) : b;
    }
    if (w != n * 8) r = mkTrunc(r, w);
    return fromE(r);
}
void Exec::wrObj(Obj *o, u64 off, Val v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) {
        if (o->sym) { for (unsigned i = 0; i < n; ++i) wrByte(o, off + i, CV((v.c >> (8 * i)) & 0xff)); }
        else memcpy(o->data + off, &v.c, n);
        return;
    }
    E e = v.e; if (w != n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; ++i) wrByte(o, off + i, fromE(mkExtract(e, 8 * i, 8)));
}
u64 Exec::rd(State &s, u64 addr, unsigned bytes) { Obj *o; ensure(s, addr, bytes, false, &o); Val v = rdObj(o, addr - o->base, bytes * 8); if (v.e) return concretize(s, v, bytes * 8); return v.c; }
void Exec::wr(State &s, u64 addr, u64 v, unsigned bytes) { Obj *o; ensure(s, addr, bytes, true, &o); wrObj(o, addr - o->base, CV(v), bytes * 8); }

Val Exec::load(State &s, Val addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!addr.e) {
        Obj *o = lookup(s, addr.c);
        if (!o || o->kind == OK_Func || addr.c - o->base + n > o->size) ensure(s, addr.c, n, false, &o);
        u64 off = addr.c - o->base;
        if (!o->sym && w <= 64) { u64 v = 0; memcpy(&v, o->data + off, n); return CV(v & mask(w)); }
        return rdObj(o, off, w);
    }
    addr.e = simp(s, addr.e);
    if (isC(addr.e)) return load(s, CV(addr.e->lo), w);
    if (addr.e->ct) { // a choice between known addresses
        std::unordered_map<u32, E> m; bool ok = true;
        std::function<E(E)> go = [&](E e) -> E {
            if (!ok) return nullptr;
            auto it = m.find(e->id); if (it != m.end()) return it->second;
            E r = nullptr;
            if (isC(e)) { Obj *o = lookup(s, e->lo); if (!o || o->kind == OK_Func || e->lo - o->base + n > o->size) { ok = false; return nullptr; } r = toE(rdObj(o, e->lo - o->base, w), w); }
            else { E x = go(e->b), y = go(e->c); if (!ok) return nullptr; r = mkIte(e->a, x, y); }
            return m[e->id] = r; };
        E r = go(addr.e); if (ok) return fromE(r);
    }
    newEvalEpoch();
    u64 ex = (u64)evalExpr(addr.e, s.model);
    Obj *o = lookup(s, ex);
    if (!o || o->kind == OK_Func || ex - o->base + n > o->size) {
        // the model's own address is bad: report it, then continue with the addresses that are not
        u64 a = concretize(s, addr, 64); return load(s, CV(a), w);
    }
    E off = mkSub(addr.e, mkConst(o->base, 64));
    E inb = mkNot(mkUlt(mkConst(o->size - n, 64), off));
    if (!branch(s, inb)) { u64 a = concretize(s, addr, 64); return load(s, CV(a), w); }
    u64 lo = 0, hi = o->size - n;
    if (off->umin <= off->umax) { lo = std::max(lo, off->umin); hi = std::min(hi, off->umax); }
    unsigned tz = std::min<unsigned>(12, off->kz == ~0ull ? 12 : __builtin_ctzll(~off->kz));
    u64 stride = 1ull << tz;
    lo = (lo + stride - 1) & ~(stride - 1);
    u64 cnt = hi >= lo ? (hi - lo) / stride + 1 : 0;
    if (cnt == 0 || cnt > 2048) { u64 a = concretize(s, addr, 64); return load(s, CV(a), w); }
    std::vector<E> leaves; for (u64 i = 0; i < cnt; ++i) { Val v = rdObj(o, lo + i * stride, w); leaves.push_back(toE(v, w)); }
    // balanced selection
    struct B { static E go(std::vector<E> &l, u64 a, u64 b, E off, u64 lo, u64 st) {
        if (a == b) return l[a];
        bool same = true; for (u64 i = a + 1; i <= b && same; ++i) same = l[i] == l[a];
        if (same) return l[a];
        u64 m = (a + b + 1) / 2;
        return mkIte(mkUlt(off, mkConst(lo + m * st, 64)), go(l, a, m - 1, off, lo, st), go(l, m, b, off, lo, st)); } };
    return fromE(B::go(leaves, 0, cnt - 1, off, lo, stride));
}
void Exec::store(State &s, Val addr, Val v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!addr.e) {
        Obj *o; ensure(s, addr.c, n, true, &o);
        u64 off = addr.c - o->base;
        if (!v.e && !o->sym) { memcpy(o->data + off, &v.c, n); return; }
        wrObj(o, off, v, w); return;
    }
    addr.e = simp(s, addr.e);
    if (isC(addr.e)) return store(s, CV(addr.e->lo), v, w);
    if (addr.e->ct && addr.e->ct <= 8) {
        std::vector<std::pair<E, u64>> ls; bool ok = true;
        std::function<void(E, E)> go = [&](E e, E c) {
            if (isC(e)) { Obj *o = lookup(s, e->lo); if (!o || o->kind == OK_Func || o->ro || e->lo - o->base + n > o->size) ok = false; ls.push_back({c, e->lo}); return; }
            go(e->b, mkAnd(c, e->a)); go(e->c, mkAnd(c, mkNot(e->a))); };
        go(addr.e, mkConst(1, 1));
        if (ok) { // conditions are exclusive, so the order of (possibly overlapping) writes does not matter
            E ve = toE(v, w);
            for (auto &l : ls) { Obj *o; ensure(s, l.second, n, true, &o); wrObj(o, l.second - o->base, fromE(mkIte(l.first, ve, toE(rdObj(o, l.second - o->base, w), w))), w); }
            return;
        }
    }
    newEvalEpoch();
    u64 ex = (u64)evalExpr(addr.e, s.model);
    Obj *o = lookup(s, ex);
    if (!o || o->kind == OK_Func || ex - o->base + n > o->size) { u64 a = concretize(s, addr, 64); return store(s, CV(a), v, w); }
    E off = mkSub(addr.e, mkConst(o->base, 64));
    E inb = mkNot(mkUlt(mkConst(o->size - n, 64), off));
    if (!branch(s, inb)) { u64 a = concretize(s, addr, 64); return store(s, CV(a), v, w); }
    u64 lo = 0, hi = o->size - n;
    lo = std::max(lo, off->umin); hi = std::min(hi, off->umax);
    unsigned tz = std::min<unsigned>(12, off->kz == ~0ull ? 12 : __builtin_ctzll(~off->kz));
    u64 stride = 1ull << tz; lo = (lo + stride - 1) & ~(stride - 1);
    u64 cnt = hi >= lo ? (hi - lo) / stride + 1 : 0;
    if (cnt == 0 || cnt > 64) { u64 a = concretize(s, addr, 64); return store(s, CV(a), v, w); }
    ensure(s, o->base, 0, true, &o);
    E ve = toE(v, w); 
    // read all old values first (overlapping candidates)
    std::vector<Val> olds; for (u64 i = 0; i < cnt; ++i) olds.push_back(rdObj(o, lo + i * stride, w));
    if (stride >= n) {
        for (u64 i = 0; i < cnt; ++i) wrObj(o, lo + i * stride, fromE(mkIte(mkEq(off, mkConst(lo + i * stride, 64)), ve, toE(olds[i], w))), w);
    } else { u64 a = concretize(s, addr, 64); return store(s, CV(a), v, w); }
}
std::string Exec::cstr(State &s, u64 addr, size_t max) {
    std::string r; while (r.size() < max) { u64 c = rd(s, addr + r.size(), 1); if (!c) break; r.push_back((char)c); } return r;
}

// ---------------------------------------------------------------- forking
bool Exec::evalModel(State &s, E c) { newEvalEpoch(); return evalExpr(c, s.model) == 1; }
void Exec::addPC(State &s, E c) {
    if (isC(c)) return;
    if (c->k == K::And && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
    for (size_t i = s.pc.size(), k = 0; i-- > 0 && k < 8; ++k) if (s.pc[i] == c) return;
    s.pc.push_back(c); addFact(s, c);
}
void Exec::addFact(State &s, E c) {
    if (!s.facts) s.facts = std::make_shared<std::unordered_map<u32, E>>();
    else if (s.facts.use_count() > 1) s.facts = std::make_shared<std::unordered_map<u32, E>>(*s.facts);
    auto &f = *s.facts; s.factsVer = ++nextVer;
    E t = mkConst(1, 1), n = mkConst(0, 1);
    std::vector<std::pair<E, bool>> st{{c, true}};
    while (!st.empty()) {
        auto [e, v] = st.back(); st.pop_back();
        if (isC(e)) continue;
        if (e->k == K::Not) { st.push_back({e->a, !v}); continue; }
        if (e->w != 1) continue;
        f[e->id] = v ? t : n;
        if ((e->k == K::And && v) || (e->k == K::Or && !v)) { st.push_back({e->a, v}); st.push_back({e->b, v}); }
        if (e->k == K::Eq && v && isC(e->b)) f[e->a->id] = e->b;
        if (e->k == K::Ult && v) { E x = mkUlt(e->b, e->a), y = mkEq(e->a, e->b); if (!isC(x)) f[x->id] = n; if (!isC(y)) f[y->id] = n; }
    }
}
E Exec::simp(State &s, E e) {
    if (isC(e) || !s.facts) return e;
    if (simpVer != s.factsVer) { simpMemo.clear(); simpVer = s.factsVer; }
    return rewrite(e, *s.facts, simpMemo);
}
State *Exec::fork(State &s) { State *o = new State(s); o->depth++; s.depth++; o->forks++; forks++; return o; }

bool Exec::branch(State &s, E cond) {
    if (isC(cond)) return cond->lo;
    cond = simp(s, cond);
    if (isC(cond)) return cond->lo;
    E neg = mkNot(cond);
    for (size_t i = s.pc.size(), k = 0; i-- > 0 && k < 64; ++k) { if (s.pc[i] == cond) return true; if (s.pc[i] == neg) return false; }
    bool mv = evalModel(s, cond);
    Model other;
    Res r = solve(s.pc, mv ? neg : cond, s.model, other);
    if (r == Res::Unsat) return mv;
    if (r == Res::Unknown) { incompletes["solver-unknown(branch side dropped)"]++; addPC(s, mv ? cond : neg); return mv; }
    State *o = fork(s);
    o->pc.reserve(s.pc.size() + 1);
    addPC(*o, mv ? neg : cond); o->model = other;
    addPC(s, mv ? cond : neg);
    work.push_back(o);
    return mv;
}
u64 Exec::concretize(State &s, Val v, unsigned w) {
    if (!v.e) return v.c;
    v.e = simp(s, v.e);
    if (isC(v.e)) return v.e->lo;
    newEvalEpoch();
    u64 x = (u64)evalExpr(v.e, s.model);
    E eq = mkEq(v.e, mkConst128(x, v.e->w));
    if (isTrue(eq)) return x;
    for (auto c : s.pc) if (c == eq) return x;
    if (s.kv["conc"] > 4096) incomplete(s, "more than 4096 feasible values when concretising");
    Model other;
    Res r = solve(s.pc, mkNot(eq), s.model, other);
    if (r == Res::Unsat) { return x; }
    if (r == Res::Unknown) incompletes["solver-unknown(concretise)"]++;
    else {
        State *o = fork(s); addPC(*o, mkNot(eq)); o->model = other; o->kv["conc"]++; work.push_back(o);
    }
    addPC(s, eq); s.kv["conc"] = 0;
    return x;
}

std::vector<std::string> Exec::trace(State &s) {
    std::vector<std::string> r;
    for (size_t i = s.stack.size(); i-- > 0 && r.size() < 24;) r.push_back(demangle(s.stack[i].f->name));
    return r;
}
std::string Exec::where(State &s) {
    for (size_t i = s.stack.size(); i-- > 0;) {
        auto &n = s.stack[i].f->name;
        if (n.compare(0, 4, "_ZNS") && n.compare(0, 5, "_ZNKS") && n.compare(0, 4, "_ZSt")) return n;
    }
    return s.stack.empty() ? "?" : s.stack.back().f->name;
}
void Exec::error(State &s, const std::string &kind, const std::string &msg, E violating) {
    std::string w = where(s);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : w);
    if (!errKeys.count(key) && errors.size() < opt.maxErrors) {
        errKeys.insert(key);
        ErrorRec r; r.kind = kind; r.msg = msg; r.where = w; r.stack = trace(s);
        newEvalEpoch();
        for (auto &i : s.inputs) r.inputs.push_back({i, (u64)evalExpr(i.e, s.model)});
        errors.push_back(r);
        if (errors.size() >= opt.maxErrors) stop = true;
    }
    pathsErr++;
    throw Terminate();
}
void Exec::incomplete(State &s, const std::string &why) { incompletes[why + " @ " + demangle(where(s)).substr(0, 160)]++; pathsIncomplete++; throw Terminate(); }

void Exec::finishPath(State &s, const char *how) {
    pathsDone++;
    maxDepth = std::max<u64>(maxDepth, s.depth);
    for (auto &c : s.covers) covers[c]++;
    bool take = samples.size() < opt.samples;
    // keep a spread of paths: replace deterministically with decreasing frequency
    size_t slot = samples.size();
    if (!take && opt.samples > 1 && (pathsDone & (pathsDone - 1)) == 0) { take = true; slot = 1 + (__builtin_ctzll(pathsDone) % (opt.samples - 1)); }
    if (take) {
        Sample sm; newEvalEpoch();
        for (auto &i : s.inputs) sm.inputs.push_back({i, (u64)evalExpr(i.e, s.model)});
        for (auto &o : s.obs) sm.obs.push_back({o.name, o.v.e ? (u64)evalExpr(o.v.e, s.model) : o.v.c});
        if (slot >= samples.size()) samples.push_back(sm); else samples[slot] = sm;
    }
}

// ---------------------------------------------------------------- calls
void Exec::pushFrame(State &s, Func *f, const std::vector<Val> &args, Inst *ci) {
    if (!f->decoded) decode(f);
    f->calls++;
    Frame fr; fr.f = f; fr.pc = 0; fr.regBase = s.regs.size(); fr.allocaBase = s.allocas.size(); fr.callInst = ci;
    s.regs.resize(fr.regBase + f->nregs, CV(0));
    for (u32 i = 0; i < f->nargs && i < args.size(); ++i) s.regs[fr.regBase + i] = args[i];
    s.stack.push_back(fr);
    if (s.stack.size() > 4000) error(s, "stack-overflow", "call depth > 4000");
}
static void popFrame(State &s) {
    Frame &f = s.stack.back();
    for (size_t i = s.allocas.size(); i-- > f.allocaBase;) { u32 id = s.allocas[i]; s.mem.del(id); s.stackFree.push_back(id); }
    s.allocas.resize(f.allocaBase); s.regs.resize(f.regBase); s.stack.pop_back();
}
void Exec::takeEdge(State &s, Edge &e) {
    Frame &f = s.stack.back();
    size_t n = e.copies.size();
    Val *R = s.regs.data() + f.regBase;
    if (n == 1) { auto &c = e.copies[0]; R[c.first] = c.second >= 0 ? R[c.second] : f.f->consts[~c.second]; }
    else if (n) {
        Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; ++i) { int o = e.copies[i].second; t[i] = o >= 0 ? R[o] : f.f->consts[~o]; }
        for (size_t i = 0; i < n; ++i) R[e.copies[i].first] = t[i];
    }
    f.pc = e.target;
}
void Exec::finishCall(State &s, const Val *rv, u32 n) {
    Frame &f = s.stack.back();
    Inst &in = f.f->insts[f.pc];
    CallInfo &ci = *(CallInfo *)in.p;
    for (u32 i = 0; i < ci.retLanes; ++i) s.regs[f.regBase + in.dst + i] = i < n ? rv[i] : CV(0);
    if (ci.invoke) takeEdge(s, ci.normal); else f.pc++;
}
void Exec::doRet(State &s, const Val *rv, u32 n) {
    Val tmp[16]; std::vector<Val> big; const Val *t = rv;
    if (n <= 16) { for (u32 i = 0; i < n; ++i) tmp[i] = rv[i]; t = tmp; } else { big.assign(rv, rv + n); t = big.data(); }
    popFrame(s);
    if (s.stack.empty()) return;
    if (s.stack.back().f == nullptr) return;
    finishCall(s, t, n);
}
void Exec::callFn(State &s, Inst &in, CallInfo &ci) {
    Func *f = ci.direct;
    if (!f) {
        if (!ci.indirect) { finishCall0(s); stubsUsed["inline-asm"]++; return; }
        Val fv = get(s, ci.fnop);
        u64 a = fv.e ? concretize(s, fv, 64) : fv.c;
        auto it = funcByAddr.find(a);
        if (it == funcByAddr.end()) {
            if (a < (1 << OBJ_SHIFT)) error(s, "null-call", "call through a null/small function pointer");
            error(s, "bad-call", "call through invalid function pointer");
        }
        f = it->second;
    }
    std::vector<Val> args; args.reserve(ci.args.size());
    for (int a : ci.args) args.push_back(get(s, a));
    if (f->bi) { f->calls++; f->bi(*this, s, in, ci, args); return; }
    if (f->F->isDeclaration()) {
        incomplete(s, "unmodelled external function " + demangle(f->name));
    }
    for (size_t i = 0; i < args.size(); ++i) if (ci.byvalSize[i]) {
        u64 src = concretize(s, args[i], 64); u64 sz = ci.byvalSize[i];
        Obj *so; ensure(s, src, sz, false, &so);
        u64 d = allocObj(s, sz, OK_Stack);
        Obj *dob; ensure(s, d, sz, true, &dob); ensure(s, src, sz, false, &so);
        for (u64 k = 0; k < sz; ++k) wrByte(dob, k, rdByte(so, src - so->base + k));
        args[i] = CV(d);
        // freed with the callee's frame: push after frame creation
        s.kv["byval"]++;
        s.retTmp.push_back(CV(d));
    }
    pushFrame(s, f, args, &in);
    if (s.kv.size() && s.kv.count("byval") && s.kv["byval"]) { for (auto &v : s.retTmp) s.allocas.push_back(v.c >> OBJ_SHIFT); s.retTmp.clear(); s.kv["byval"] = 0; }
}

// ---------------------------------------------------------------- exceptions
static const std::map<std::string, std::string> &extTI() {
    static std::map<std::string, std::string> m = {
        {"_ZTISt9exception", ""}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
    return m;
}
std::string Exec::tiName(u64 addr) {
    auto it = gvByAddr.find(addr);
    if (it != gvByAddr.end()) return it->second->getName().str();
    return "?ti" + std::to_string(addr);
}
bool Exec::tiBases(const std::string &ti, std::vector<std::pair<std::string, i64>> &out) {
    auto c = tiCache.find(ti);
    if (c != tiCache.end()) { out = c->second; return true; }
    auto e = extTI().find(ti);
    std::vector<std::pair<std::string, i64>> r;
    auto *GV = M.getNamedGlobal(ti);
    if (GV && GV->hasInitializer()) {
        auto *CS = dyn_cast<ConstantStruct>(GV->getInitializer());
        if (CS) {
            unsigned n = CS->getNumOperands();
            auto nm = [&](Constant *C) { return C->stripPointerCasts()->getName().str(); };
            if (n == 3 && CS->getOperand(2)->getType()->isPointerTy()) r.push_back({nm(CS->getOperand(2)), 0});
            else if (n >= 4) {
                for (unsigned i = 4; i + 1 < n + 0 || i + 1 == n; i += 2) {
                    if (i + 1 >= n) break;
                    auto *fl = dyn_cast<ConstantInt>(CS->getOperand(i + 1)); i64 f = fl ? fl->getSExtValue() : 0;
                    bool virt = f & 1; i64 off = f >> 8;
                    r.push_back({nm(CS->getOperand(i)), virt ? (INT64_MIN / 2 + off) : off});
                }
            }
        }
    } else if (e != extTI().end() && !e->second.empty()) r.push_back({e->second, 0});
    tiCache[ti] = r; out = r; return true;
}
bool Exec::tiMatch(State &s, const std::string &thrown, const std::string &want, u64 obj, u64 &adj) {
    if (thrown == want) { adj = obj; return true; }
    std::vector<std::pair<std::string, i64>> b; tiBases(thrown, b);
    for (auto &p : b) {
        i64 off = p.second;
        if (off < INT64_MIN / 4) { i64 vo = off - INT64_MIN / 2; u64 vp = rd(s, obj, 8); off = (i64)rd(s, vp + vo, 8); }
        if (tiMatch(s, p.first, want, obj + off, adj)) return true;
    }
    return false;
}
static std::map<std::string, int> tiIds;
int tiId(const std::string &n) { auto it = tiIds.find(n); if (it != tiIds.end()) return it->second; int k = tiIds.size() + 1; tiIds[n] = k; return k; }

void Exec::unwind(State &s, u64 ex) {
    ExcInfo &ei = s.excs[ex];
    std::string thrown = tiName((u64)(size_t)ei.ti);
    while (!s.stack.empty()) {
        Frame &f = s.stack.back();
        Inst &in = f.f->insts[f.pc];
        if (in.op == O_Call && ((CallInfo *)in.p)->invoke) {
            CallInfo &ci = *(CallInfo *)in.p;
            Inst &lpI = f.f->insts[ci.unwind.target];
            LpInfo *lp = (LpInfo *)lpI.p;
            bool go = false; i64 sel = 0;
            for (auto &cl : lp->clauses) {
                if (cl.isCatch) {
                    const Constant *C = cast<Constant>(cl.tis[0])->stripPointerCasts();
                    if (isa<ConstantPointerNull>(C)) { go = true; sel = 0x7fff; s.kv["adj" + std::to_string(ex)] = ex; break; }
                    u64 adj = ex; std::string want = C->getName().str();
                    if (tiMatch(s, thrown, want, ex, adj)) { go = true; sel = tiId(want); s.kv["adj" + std::to_string(ex)] = adj; break; }
                } else {
                    bool in = false; for (auto *t : cl.tis) { u64 adj; if (tiMatch(s, thrown, cast<Constant>(t)->stripPointerCasts()->getName().str(), ex, adj)) in = true; }
                    if (!in) { go = true; sel = -1; break; }
                }
            }
            if (!go && lp->cleanup) { go = true; sel = 0; }
            if (go) {
                s.retTmp.clear(); s.retTmp.push_back(CV(ex)); s.retTmp.push_back(CV((u64)sel & 0xffffffffu));
                takeEdge(s, ci.unwind);
                return;
            }
        }
        // keep one frame for diagnostics
        if (s.stack.size() == 1) { error(s, "uncaught-exception", demangle(thrown)); }
        popFrame(s);
    }
}

// ---------------------------------------------------------------- interpreter
static inline u64 sx64(u64 v, unsigned w) { if (w >= 64) return v; u64 b = 1ull << (w - 1); return (v ^ b) - b; }
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

static Val negCmp(Val v) { return v; }

void Exec::runState(State &s) {
    u64 cnt = 0;
    while (!s.stack.empty() && !s.dead) {
        if ((++cnt & 0xfff) == 0) {
            insts += 0x1000; s.insts += 0x1000;
            if ((cnt & 0x3ffff) == 0) { if (now() - t0 > opt.maxTime) { stop = true; incompletes["time limit reached"]++; throw Terminate(); } }
            if (s.insts > opt.maxPathInsts) error(s, "non-termination", "path exceeded " + std::to_string(opt.maxPathInsts) + " instructions");
        }
        step(s);
        if (stop) return;
    }
    insts += cnt & 0xfff;
}

void Exec::step(State &s) {
    Frame &f = s.stack.back();
    Func *fn = f.f;
    Inst &in = fn->insts[f.pc];
    Val *R = s.regs.data() + f.regBase;
#define GET(o) ((o) >= 0 ? R[(o)] : fn->consts[~(o)])
#define LANE(o, i) ((o) >= 0 ? (o) + (int)(i) : ~(~(o) + (int)(i)))
    switch (in.op) {
    case O_Bin: {
        for (u32 l = 0; l < in.n; ++l) {
            Val a = GET(LANE(in.a, l)), b = GET(LANE(in.b, l));
            unsigned w = in.w;
            if (!a.e && !b.e) {
                u64 r = 0, M = mask(w);
                switch ((K)in.sub) {
                case K::Add: r = (a.c + b.c) & M; break;
                case K::Sub: r = (a.c - b.c) & M; break;
                case K::Mul: r = (a.c * b.c) & M; break;
                case K::UDiv: if (!b.c) error(s, "div-by-zero", "udiv"); r = a.c / b.c; break;
                case K::URem: if (!b.c) error(s, "div-by-zero", "urem"); r = a.c % b.c; break;
                case K::SDiv: { if (!b.c) error(s, "div-by-zero", "sdiv"); i64 x = sx64(a.c, w), y = sx64(b.c, w); r = (y == -1 ? (u64)0 - (u64)x : (u64)(x / y)) & M; break; }
                case K::SRem: { if (!b.c) error(s, "div-by-zero", "srem"); i64 x = sx64(a.c, w), y = sx64(b.c, w); r = (y == -1 ? 0 : (u64)(x % y)) & M; break; }
                case K::And: r = a.c & b.c; break;
                case K::Or: r = a.c | b.c; break;
                case K::Xor: r = a.c ^ b.c; break;
                case K::Shl: r = b.c >= w ? 0 : (a.c << b.c) & M; break;
                case K::LShr: r = b.c >= w ? 0 : a.c >> b.c; break;
                case K::AShr: r = (u64)((i64)sx64(a.c, w) >> (b.c >= w ? w - 1 : b.c)) & M; break;
                default: break;
                }
                R[in.dst + l] = CV(r);
            } else {
                E x = toE(a, w), y = toE(b, w);
                K k = (K)in.sub;
                if (k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) {
                    E z = mkEq(y, mkConst128(0, w));
                    if (branch(s, z)) error(s, "div-by-zero", "division");
                    R = s.regs.data() + s.stack.back().regBase;
                }
                R[in.dst + l] = fromE(mkBin(k, x, y));
            }
        }
        f.pc++; return; }
    case O_ICmp: {
        for (u32 l = 0; l < in.n; ++l) {
            Val a = GET(LANE(in.a, l)), b = GET(LANE(in.b, l));
            unsigned w = in.w;
            if (!a.e && !b.e) {
                u64 x = a.c, y = b.c; i64 sx = sx64(x, w), sy = sx64(y, w); bool r = false;
                switch ((CmpInst::Predicate)in.sub) {
                case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
                case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
                case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
                case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
                case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
                default: break;
                }
                R[in.dst + l] = CV(r);
            } else {
                E x = toE(a, w), y = toE(b, w), r = nullptr;
                switch ((CmpInst::Predicate)in.sub) {
                case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
                case CmpInst::ICMP_ULT: r = mkUlt(x, y); break; case CmpInst::ICMP_ULE: r = mkNot(mkUlt(y, x)); break;
                case CmpInst::ICMP_UGT: r = mkUlt(y, x); break; case CmpInst::ICMP_UGE: r = mkNot(mkUlt(x, y)); break;
                case CmpInst::ICMP_SLT: r = mkSlt(x, y); break; case CmpInst::ICMP_SLE: r = mkNot(mkSlt(y, x)); break;
                case CmpInst::ICMP_SGT: r = mkSlt(y, x); break; case CmpInst::ICMP_SGE: r = mkNot(mkSlt(x, y)); break;
                default: r = mkConst(0, 1);
                }
                R[in.dst + l] = fromE(r);
            }
        }
        f.pc++; return; }
    case O_Gep: {
        Val base = GET(in.a); GepInfo *gi = (GepInfo *)in.p;
        u64 off = in.imm; bool sym = base.e != nullptr; E se = nullptr;
        for (auto &ix : gi->idx) {
            Val v = GET(ix.op);
            if (!v.e) off += sx64(v.c, ix.w) * (u64)ix.scale;
            else { sym = true; E t = ix.w < 64 ? mkSExt(v.e, 64) : v.e; t = mkBin(K::Mul, t, mkConst((u64)ix.scale, 64)); se = se ? mkAdd(se, t) : t; }
        }
        if (!sym) R[in.dst] = CV(base.c + off);
        else { E r = toE(base, 64); if (se) r = mkAdd(se, r); r = mkAdd(r, mkConst(off, 64)); R[in.dst] = fromE(r); }
        f.pc++; return; }
    case O_Load: {
        Val a = GET(in.a);
        if (in.n == 1) {
            Val v = load(s, a, in.w);
            s.regs[s.stack.back().regBase + in.dst] = v;
        } else {
            MemInfo *mi = (MemInfo *)in.p; u64 base = concretize(s, a, 64);
            for (u32 l = 0; l < in.n; ++l) { Val v = load(s, CV(base + mi->lanes[l].off), mi->lanes[l].w); s.regs[s.stack.back().regBase + in.dst + l] = v; }
        }
        s.stack.back().pc++; return; }
    case O_Store: {
        Val a = GET(in.a);
        if (in.n == 1) store(s, a, GET(in.b), in.w);
        else { MemInfo *mi = (MemInfo *)in.p; u64 base = concretize(s, a, 64); for (u32 l = 0; l < in.n; ++l) store(s, CV(base + mi->lanes[l].off), GET(LANE(in.b, l)), mi->lanes[l].w); }
        s.stack.back().pc++; return; }
    case O_Trunc: for (u32 l = 0; l < in.n; ++l) { Val a = GET(LANE(in.a, l)); if (!a.e) R[in.dst + l] = CV(a.c & mask(in.w)); else R[in.dst + l] = fromE(mkTrunc(a.e, in.w)); } f.pc++; return;
    case O_ZExt: for (u32 l = 0; l < in.n; ++l) { Val a = GET(LANE(in.a, l)); if (!a.e && in.w <= 64) R[in.dst + l] = a; else R[in.dst + l] = fromE(mkZExt(toE(a, in.imm), in.w)); } f.pc++; return;
    case O_SExt: for (u32 l = 0; l < in.n; ++l) { Val a = GET(LANE(in.a, l)); if (!a.e && in.w <= 64) R[in.dst + l] = CV(sx64(a.c, in.imm) & mask(in.w)); else R[in.dst + l] = fromE(mkSExt(toE(a, in.imm), in.w)); } f.pc++; return;
    case O_Copy: if (in.n == 1) R[in.dst] = GET(in.a); else for (u32 l = 0; l < in.n; ++l) R[in.dst + l] = GET(LANE(in.a, l)); f.pc++; return;
    case O_Insert: {
        for (u32 l = 0; l < in.n; ++l) R[in.dst + l] = (l >= in.imm && l < in.imm + (u32)in.c) ? GET(LANE(in.b, l - in.imm)) : GET(LANE(in.a, l));
        f.pc++; return; }
    case O_Select: {
        MemInfo *mi = (MemInfo *)in.p;
        for (u32 l = 0; l < in.n; ++l) {
            Val c = GET(in.sub ? LANE(in.a, l) : in.a), x = GET(LANE(in.b, l)), y = GET(LANE(in.c, l));
            if (c.e) c = fromE(simp(s, c.e));
            if (!c.e) R[in.dst + l] = c.c ? x : y;
            else { unsigned w = mi->lanes[l].w; R[in.dst + l] = fromE(mkIte(c.e, toE(x, w), toE(y, w))); }
        }
        f.pc++; return; }
    case O_Br: takeEdge(s, ((BrInfo *)in.p)->t); return;
    case O_CBr: {
        Val c = GET(in.a); BrInfo *b = (BrInfo *)in.p;
        bool t = c.e ? branch(s, c.e) : c.c;
        takeEdge(s, t ? b->t : b->f); return; }
    case O_Switch: {
        Val c = GET(in.a); SwInfo *si = (SwInfo *)in.p;
        if (!c.e) {
            u32 e = 0; for (auto &k : si->cases) if (k.first == c.c) { e = k.second; break; }
            takeEdge(s, si->edges[e]); return;
        }
        std::vector<E> conds(si->edges.size(), nullptr); E any = mkConst(0, 1);
        for (auto &k : si->cases) { E q = mkEq(c.e, mkConst(k.first, in.w)); conds[k.second] = conds[k.second] ? mkOr(conds[k.second], q) : q; any = mkOr(any, q); }
        conds[0] = conds[0] ? mkOr(conds[0], mkNot(any)) : mkNot(any);
        newEvalEpoch();
        u32 ch = 0; for (u32 i = 0; i < conds.size(); ++i) if (conds[i] && evalModel(s, conds[i])) { ch = i; break; }
        if (!branch(s, conds[ch])) { incomplete(s, "switch"); }
        takeEdge(s, si->edges[ch]); return; }
    case O_Call: callFn(s, in, *(CallInfo *)in.p); return;
    case O_Ret: {
        if (in.n == 0) doRet(s, nullptr, 0);
        else if (in.n == 1) { Val v = GET(in.a); doRet(s, &v, 1); }
        else { std::vector<Val> v; for (u32 l = 0; l < in.n; ++l) v.push_back(GET(LANE(in.a, l))); doRet(s, v.data(), in.n); }
        return; }
    case O_Alloca: {
        Val n = GET(in.a); u64 k = concretize(s, n, in.w);
        u64 a = allocObj(s, in.imm * k, OK_Stack);
        s.allocas.push_back(a >> OBJ_SHIFT);
        s.regs[s.stack.back().regBase + in.dst] = CV(a); s.stack.back().pc++; return; }
    case O_FBin: {
        for (u32 l = 0; l < in.n; ++l) {
            Val a = GET(LANE(in.a, l)), b = GET(LANE(in.b, l));
            if (a.e || b.e) { u64 ac = concretize(s, a, in.w), bc = concretize(s, b, in.w); a = CV(ac); b = CV(bc); incompletes["note: floating point operand concretised"]; R = s.regs.data() + s.stack.back().regBase; }
            if (in.w > 64) incomplete(s, "long double arithmetic");
            double x = asD(a.c, in.w), y = asD(b.c, in.w), r = 0;
            if (in.w == 32) { float fx = x, fy = y, fr = 0; switch (in.sub) { case 0: fr = fx + fy; break; case 1: fr = fx - fy; break; case 2: fr = fx * fy; break; case 3: fr = fx / fy; break; default: fr = fmodf(fx, fy); } r = fr; }
            else switch (in.sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; default: r = fmod(x, y); }
            R[in.dst + l] = CV(fromD(r, in.w));
        }
        s.stack.back().pc++; return; }
    case O_FCmp: {
        for (u32 l = 0; l < in.n; ++l) {
            Val a = GET(LANE(in.a, l)), b = GET(LANE(in.b, l));
            u64 ac = concretize(s, a, in.w), bc = concretize(s, b, in.w); R = s.regs.data() + s.stack.back().regBase;
            double x = asD(ac, in.w), y = asD(bc, in.w); bool un = x != x || y != y, r = false;
            switch ((CmpInst::Predicate)in.sub) {
            case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false;
            }
            R[in.dst + l] = CV(r);
        }
        s.stack.back().pc++; return; }
    case O_FCast: {
        for (u32 l = 0; l < in.n; ++l) {
            Val a = GET(LANE(in.a, l)); u64 c = concretize(s, a, in.imm); R = s.regs.data() + s.stack.back().regBase;
            u64 r = 0;
            if (in.w > 64 || in.imm > 64) incomplete(s, "long double cast");
            switch (in.sub) {
            case Instruction::UIToFP: r = in.w == 32 ? fromD((float)c, 32) : fromD((double)c, 64); break;
            case Instruction::SIToFP: r = in.w == 32 ? fromD((float)(i64)sx64(c, in.imm), 32) : fromD((double)(i64)sx64(c, in.imm), 64); break;
            case Instruction::FPToUI: { double d = asD(c, in.imm); r = d >= 9.3e18 ? (u64)d : (u64)(i64)d; if (d >= 9.2e18 && d < 1.8446744e19) r = (u64)d; r &= mask(in.w); break; }
            case Instruction::FPToSI: r = (u64)(i64)asD(c, in.imm) & mask(in.w); break;
            case Instruction::FPTrunc: case Instruction::FPExt: r = fromD(asD(c, in.imm), in.w); break;
            default: incomplete(s, "cast");
            }
            R[in.dst + l] = CV(r);
        }
        s.stack.back().pc++; return; }
    case O_FNeg: { for (u32 l = 0; l < in.n; ++l) { Val a = GET(LANE(in.a, l)); if (a.e) R[in.dst + l] = fromE(mkBin(K::Xor, a.e, mkConst(1ull << (in.w - 1), in.w))); else R[in.dst + l] = CV(a.c ^ (1ull << (in.w - 1))); } f.pc++; return; }
    case O_CmpXchg: {
        u64 a = concretize(s, GET(in.a), 64); R = s.regs.data() + s.stack.back().regBase;
        Val old = load(s, CV(a), in.w);
        E eq = mkEq(toE(old, in.w), toE(GET(in.b), in.w));
        bool t = branch(s, eq);
        R = s.regs.data() + s.stack.back().regBase;
        if (t) store(s, CV(a), GET(in.c), in.w);
        R[in.dst] = old; R[in.dst + 1] = CV(t); s.stack.back().pc++; return; }
    case O_RMW: {
        u64 a = concretize(s, GET(in.a), 64); R = s.regs.data() + s.stack.back().regBase;
        Val old = load(s, CV(a), in.w); E x = toE(old, in.w), y = toE(GET(in.b), in.w), r = nullptr;
        switch ((AtomicRMWInst::BinOp)in.sub) {
        case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkAdd(x, y); break; case AtomicRMWInst::Sub: r = mkSub(x, y); break;
        case AtomicRMWInst::And: r = mkAnd(x, y); break; case AtomicRMWInst::Or: r = mkOr(x, y); break; case AtomicRMWInst::Xor: r = mkBin(K::Xor, x, y); break;
        case AtomicRMWInst::Nand: r = mkBin(K::Xor, mkAnd(x, y), mkConst(~0ull, in.w)); break;
        case AtomicRMWInst::Max: r = mkIte(mkSlt(x, y), y, x); break; case AtomicRMWInst::Min: r = mkIte(mkSlt(x, y), x, y); break;
        case AtomicRMWInst::UMax: r = mkIte(mkUlt(x, y), y, x); break; case AtomicRMWInst::UMin: r = mkIte(mkUlt(x, y), x, y); break;
        default: incomplete(s, "atomicrmw"); }
        store(s, CV(a), fromE(r), in.w);
        s.regs[s.stack.back().regBase + in.dst] = old; s.stack.back().pc++; return; }
    case O_Nop: f.pc++; return;
    case O_Unreachable: error(s, "unreachable", "control reached an unreachable point (undefined behaviour or a noreturn call that returned)");
    case O_LandingPad: { for (u32 l = 0; l < in.n; ++l) R[in.dst + l] = l < s.retTmp.size() ? s.retTmp[l] : CV(0); s.retTmp.clear(); f.pc++; return; }
    case O_Resume: {
        Val ex = GET(in.a); u64 x = ex.c;
        if (s.stack.size() == 1) error(s, "uncaught-exception", demangle(tiName((u64)(size_t)s.excs[x].ti)));
        popFrame(s); unwind(s, x); return; }
    case O_ExtElt: { u64 i = concretize(s, GET(in.b), 64); R = s.regs.data() + s.stack.back().regBase; R[in.dst] = GET(LANE(in.a, i % in.n)); s.stack.back().pc++; return; }
    case O_InsElt: { u64 i = concretize(s, GET(in.c), 64); R = s.regs.data() + s.stack.back().regBase; for (u32 l = 0; l < in.n; ++l) R[in.dst + l] = l == i ? GET(in.b) : GET(LANE(in.a, l)); s.stack.back().pc++; return; }
    case O_Shuffle: { ShufInfo *sh = (ShufInfo *)in.p; std::vector<Val> t; for (int m : sh->m) t.push_back(m < 0 ? CV(0) : (u32)m < sh->n1 ? GET(LANE(in.a, m)) : GET(LANE(in.b, m - sh->n1))); for (u32 l = 0; l < in.n; ++l) R[in.dst + l] = t[l]; f.pc++; return; }
    case O_Unsupported: { std::string t; raw_string_ostream os(t); in.I->print(os); incomplete(s, "unsupported instruction " + os.str().substr(0, 100)); }
    }
}

// ---------------------------------------------------------------- globals / run
void Exec::writeConst(State &s, u64 addr, const Constant *C) {
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        StringRef raw = CD->getRawDataValues(); Obj *o; u8 *p = ensure(s, addr, raw.size(), true, &o); memcpy(p, raw.data(), raw.size()); return;
    }
    if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL.getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); ++i) writeConst(s, addr + L->getElementOffset(i), S->getOperand(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(C)) { u64 sz = DL.getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); ++i) writeConst(s, addr + i * sz, A->getOperand(i)); return; }
    std::vector<Val> v; constLanes(C, v); std::vector<Lane> l; lanesOf(C->getType(), 0, l);
    for (size_t i = 0; i < l.size(); ++i) store(s, CV(addr + l[i].off), v[i], l[i].w);
}
void Exec::setupGlobals(State &s) {
    for (auto &F : M) {
        if (F.isIntrinsic()) { getFunc(&F); continue; }
        u64 a = allocObj(s, 1, OK_Func); Func *f = getFunc(&F); f->addr = a; funcByAddr[a] = f; gaddr[&F] = a;
    }
    dummyVt = allocObj(s, 4096, OK_Global) + 2048; dummyCtype = allocObj(s, 1024, OK_Global);
    { Obj *o; u8 *p = ensure(s, dummyCtype, 1024, true, &o); p[56] = 1; }
    for (auto &G : M.globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 64;
        bool ext = !G.hasInitializer();
        if (ext) sz = std::max<u64>(sz, 512);
        u64 a = allocObj(s, sz, OK_Global); gaddr[&G] = a; gvByAddr[a] = &G;
    }
    for (auto &G : M.globals()) {
        u64 a = gaddr[&G];
        if (G.hasInitializer()) {
            if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.global_dtors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used") continue;
            writeConst(s, a, G.getInitializer());
            if (G.isConstant()) { Obj *o; ensure(s, a, 0, true, &o); o->ro = true; }
        } else {
            std::string n = G.getName().str();
            if (n.compare(0, 4, "_ZTI") == 0) {
                u64 nm = allocObj(s, n.size(), OK_Global); Obj *o; u8 *p = ensure(s, nm, n.size(), true, &o); memcpy(p, n.c_str() + 4, n.size() - 3); wr(s, a + 8, nm, 8);
            } else if (n == "_ZSt4cout" || n == "_ZSt4cerr" || n == "_ZSt4clog" || n == "_ZSt3cin") { wr(s, a, dummyVt, 8); wr(s, a + 240, dummyCtype, 8); }
            else if (n == "__libc_single_threaded") wr(s, a, 1, 1);
            else if (n.compare(0, 4, "_ZTV") == 0 || n.compare(0, 4, "_ZTT") == 0) { for (u64 i = 0; i < 64; ++i) if (n.compare(0, 4, "_ZTT") == 0) wr(s, a + i * 8, dummyVt, 8); }
        }
    }
}

void Exec::run(const std::string &entry) {
    State *s = new State();
    std::vector<Func *> ctors;
    try {
        setupGlobals(*s);
        if (auto *G = M.getNamedGlobal("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(G->getInitializer())) {
            std::vector<std::pair<u64, Func *>> v;
            for (auto &op : A->operands()) { auto *S = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), getFunc(F)}); }
            std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &p : v) ctors.push_back(p.second);
        }
        for (auto *c : ctors) { pushFrame(*s, c, {}, nullptr); runState(*s); }
    } catch (Terminate &) { incompletes["global initialisation failed"]++; delete s; return; }
    Function *F = M.getFunction(entry);
    if (!F || F->isDeclaration()) { incompletes["entry function not found: " + entry]++; return; }
    s->insts = 0;
    pushFrame(*s, getFunc(F), {}, nullptr);
    work.push_back(s);
    u64 k = 0;
    while (!work.empty() && !stop) {
        State *c;
        if (opt.bfs) { c = work.front(); work.pop_front(); } else { c = work.back(); work.pop_back(); }
        try { runState(*c); if (!stop && c->stack.empty()) finishPath(*c, "done"); }
        catch (Terminate &) { for (auto &x : c->covers) covers[x]++; }
        delete c;
        if (pathsDone >= opt.maxPaths) { stop = true; if (!work.empty()) incompletes["path limit reached"]++; }
        if (now() - t0 > opt.maxTime && !stop) { stop = true; if (!work.empty()) incompletes["time limit reached"]++; }
        if ((++k & 63) == 0) {
            FILE *fp = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (fp) { if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0; fclose(fp); }
            if ((u64)b * 4096 > opt.maxMemMB << 20) { stop = true; incompletes["memory limit reached"]++; }
        }
    }
    for (auto *w : work) (void)w; // process exits anyway
}
}
