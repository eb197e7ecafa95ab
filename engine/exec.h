// Symbolic executor for LLVM 18 bitcode.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <unordered_map>
#include <map>
#include <set>
#include <deque>
#include <string>

namespace symx {

struct Val { E e; u64 c; };
static inline Val CV(u64 c) { return Val{nullptr, c}; }

// ---- memory ---------------------------------------------------------------
enum ObjKind : u8 { OK_Heap, OK_Stack, OK_Global, OK_Const, OK_Func, OK_Cont };
static const unsigned OBJ_SHIFT = 24;
struct Obj {
    int rc = 1; ObjKind kind; bool ro = false; u32 size; u64 base;
    u8 *data = nullptr; E *sym = nullptr; u32 nsym = 0; const void *tag = nullptr;
    Obj(ObjKind k, u32 s, u64 b) : kind(k), size(s), base(b) { data = (u8 *)malloc(s ? s : 1); }
    Obj(const Obj &o) : rc(1), kind(o.kind), ro(o.ro), size(o.size), base(o.base), nsym(o.nsym), tag(o.tag) {
        data = (u8 *)malloc(size ? size : 1); memcpy(data, o.data, size);
        if (o.sym && nsym) { sym = (E *)malloc(sizeof(E) * size); memcpy(sym, o.sym, sizeof(E) * size); }
    }
    ~Obj() { free(data); free(sym); }
};
struct Chunk { int rc = 1; u32 live = 0; Obj *o[64] = {nullptr}; };

struct Memory {
    std::vector<Chunk *> chunks;
    Memory() {}
    Memory(const Memory &m) : chunks(m.chunks) { for (auto c : chunks) if (c) c->rc++; }
    Memory &operator=(const Memory &) = delete;
    ~Memory() { for (auto c : chunks) drop(c); }
    static void drop(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) if (o && --o->rc == 0) delete o; delete c; } }
    inline Obj *get(u64 id) const { u64 ci = id >> 6; if (ci >= chunks.size()) return nullptr; Chunk *c = chunks[ci]; return c ? c->o[id & 63] : nullptr; }
    Chunk *wchunk(u64 id) {
        u64 ci = id >> 6;
        if (ci >= chunks.size()) chunks.resize(ci + 1, nullptr);
        Chunk *&c = chunks[ci];
        if (!c) c = new Chunk();
        else if (c->rc > 1) { Chunk *n = new Chunk(*c); n->rc = 1; for (auto o : n->o) if (o) o->rc++; c->rc--; c = n; }
        return c;
    }
    Obj *getW(u64 id) {
        Chunk *c = wchunk(id); Obj *&o = c->o[id & 63];
        if (o->rc > 1) { Obj *n = new Obj(*o); o->rc--; o = n; }
        return o;
    }
    void put(u64 id, Obj *o) { Chunk *c = wchunk(id); c->o[id & 63] = o; c->live++; }
    void del(u64 id) {
        Chunk *c = wchunk(id); Obj *&o = c->o[id & 63];
        if (o && --o->rc == 0) delete o;
        o = nullptr; if (--c->live == 0) { delete c; chunks[id >> 6] = nullptr; }
    }
};

// ---- decoded program ------------------------------------------------------
struct Func;
enum Op : u8 { O_Bin, O_ICmp, O_Gep, O_Load, O_Store, O_Trunc, O_ZExt, O_SExt, O_Copy, O_Select, O_Br, O_CBr, O_Switch, O_Call, O_Ret,
    O_Insert, O_Alloca, O_FBin, O_FCmp, O_FCast, O_FNeg, O_CmpXchg, O_RMW, O_Nop, O_Unreachable, O_LandingPad, O_Resume, O_ExtElt, O_InsElt, O_Shuffle, O_Unsupported };

struct Lane { u32 off; u16 w; };
struct Inst {
    Op op; u8 sub = 0; u16 w = 0; u32 dst = 0; u32 n = 1; int a = 0, b = 0, c = 0; u64 imm = 0; void *p = nullptr; const llvm::Instruction *I = nullptr;
};
struct Edge { u32 target = 0; std::vector<std::pair<u32, int>> copies; };
struct GepIdx { int op; u16 w; i64 scale; };
struct GepInfo { std::vector<GepIdx> idx; };
struct MemInfo { std::vector<Lane> lanes; u32 size; };
struct BrInfo { Edge t, f; };
struct SwInfo { std::vector<std::pair<u64, u32>> cases; std::vector<Edge> edges; }; // edges[0]=default
struct CallInfo {
    Func *direct = nullptr; int fnop = 0; bool indirect = false;
    std::vector<int> args; std::vector<u16> argw; // lanes flattened
    std::vector<u32> byvalSize; // per IR arg lane (0 = none)
    Edge normal, unwind; bool invoke = false; u32 retLanes = 0; const llvm::CallBase *cb = nullptr;
};
struct LpInfo { bool cleanup; struct Cl { bool isCatch; std::vector<const llvm::Value *> tis; }; std::vector<Cl> clauses; };
struct ShufInfo { std::vector<int> m; u32 n1; };

struct State; struct Exec;
typedef void (*Builtin)(Exec &, State &, Inst &, CallInfo &, std::vector<Val> &);

struct Func {
    const llvm::Function *F = nullptr; std::string name; u64 addr = 0; bool decoded = false;
    std::vector<Inst> insts; std::vector<Val> consts; u32 nregs = 0; u32 nargs = 0; // arg lanes occupy regs [0,nargs)
    Builtin bi = nullptr; u64 calls = 0; bool inRepo = false; u64 execInsts = 0;
};

struct Frame { Func *f; u32 pc; u32 regBase; u32 allocaBase; Inst *callInst; };

struct ExcInfo { u64 obj; const void *ti; u64 dtor; int handlers = 0; bool live = true; };
struct SymIn { std::string name; unsigned w; E e; };
struct Obs { std::string name; Val v; };

struct State {
    Memory mem;
    std::vector<Frame> stack; std::vector<Val> regs; std::vector<u32> allocas;
    std::vector<E> pc; Model model;
    std::shared_ptr<std::unordered_map<u32, E>> facts; u64 factsVer = 0; // what the path condition says about sub-expressions
    std::vector<SymIn> inputs; std::vector<Obs> obs;
    u64 nextId = 1; std::vector<u32> stackFree;
    u64 insts = 0; u32 depth = 0; u32 forks = 0; u64 clock = 1000000;
    // exceptions
    std::map<u64, ExcInfo> excs; std::vector<u64> caught; int uncaught = 0;
    std::vector<Val> retTmp;
    std::map<std::string, u64> kv; // scratch for builtins
    std::set<std::string> covers;
    bool dead = false;
};

struct ErrorRec { std::string kind, msg, where; std::vector<std::pair<SymIn, u64>> inputs; std::vector<std::string> stack; };
struct Sample { std::vector<std::pair<SymIn, u64>> inputs; std::vector<std::pair<std::string, u64>> obs; };

struct Terminate {}; // thrown to stop the current path

struct Options {
    double maxTime = 60; u64 maxPathInsts = 200000000ull; unsigned maxErrors = 5; unsigned samples = 4; u64 maxPaths = 100000000;
    unsigned solverTimeout = 20000; std::map<std::string, u64> params; bool trace = false; bool checkOnly = false; u64 maxMemMB = 6000; bool bfs = false;
};

struct Exec {
    llvm::Module &M; const llvm::DataLayout &DL; Options opt;
    std::unordered_map<const llvm::Function *, Func *> funcs;
    std::vector<Func *> funcList;
    std::unordered_map<u64, Func *> funcByAddr;
    std::unordered_map<const llvm::GlobalValue *, u64> gaddr;
    std::unordered_map<u64, const llvm::GlobalVariable *> gvByAddr;
    std::unordered_map<std::string, Builtin> builtins;
    std::deque<State *> work;
    std::map<std::string, E> symCache;
    std::vector<ErrorRec> errors; std::set<std::string> errKeys;
    std::vector<Sample> samples;
    std::map<std::string, u64> incompletes; std::map<std::string, u64> covers; std::set<std::string> allCovers;
    u64 pathsDone = 0, pathsAssumed = 0, pathsErr = 0, pathsIncomplete = 0, forks = 0, insts = 0, asserts = 0, assertQueries = 0, maxDepth = 0;
    std::map<std::string, u64> stubsUsed;
    u64 dummyVt = 0, dummyCtype = 0;
    double t0 = 0; bool stop = false; bool initPhase = false;

    Exec(llvm::Module &m, Options o);
    // decode
    Func *getFunc(const llvm::Function *F);
    void decode(Func *f);
    u64 constAddr(const llvm::Constant *C, bool &ok);
    void constLanes(const llvm::Constant *C, std::vector<Val> &out);
    u32 countLanes(llvm::Type *T);
    void lanesOf(llvm::Type *T, u64 off, std::vector<Lane> &out);
    void setupGlobals(State &s);
    void writeConst(State &s, u64 addr, const llvm::Constant *C);
    // run
    void run(const std::string &entry);
    void runState(State &s);
    void step(State &s);
    void pushFrame(State &s, Func *f, const std::vector<Val> &args, Inst *ci);
    void doRet(State &s, const Val *rv, u32 n);
    void takeEdge(State &s, Edge &e);
    void callFn(State &s, Inst &in, CallInfo &ci);
    void unwind(State &s, u64 excObj);
    void finishCall(State &s, const Val *rv, u32 n); // for builtins: store result & advance
    void finishCall1(State &s, Val v) { finishCall(s, &v, 1); }
    void finishCall0(State &s) { finishCall(s, nullptr, 0); }
    // memory api
    u64 allocObj(State &s, u64 size, ObjKind k);
    Val load(State &s, Val addr, unsigned w);
    void store(State &s, Val addr, Val v, unsigned w);
    u64 rd(State &s, u64 addr, unsigned bytes); // concrete convenience
    void wr(State &s, u64 addr, u64 v, unsigned bytes);
    u8 *ensure(State &s, u64 addr, u64 n, bool write, Obj **po);
    std::string cstr(State &s, u64 addr, size_t max = 4096);
    Val rdByte(Obj *o, u64 off) { if (o->sym && o->sym[off]) return Val{o->sym[off], 0}; return CV(o->data[off]); }
    void wrByte(Obj *o, u64 off, Val v);
    Val rdObj(Obj *o, u64 off, unsigned w); void wrObj(Obj *o, u64 off, Val v, unsigned w);
    // symbolic
    E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
    Val fromE(E e) { if (isC(e) && e->w <= 64) return CV(e->lo); return Val{e, 0}; }
    bool mayBe(State &s, E cond, Model &out, bool &unknown);
    bool evalModel(State &s, E c);
    void addFact(State &s, E c); E simp(State &s, E e);
    std::unordered_map<u32, E> simpMemo; u64 simpVer = ~0ull, nextVer = 0;
    void addPC(State &s, E c);
    // returns chosen branch for this state; forks the other
    bool branch(State &s, E cond);
    u64 concretize(State &s, Val v, unsigned w);
    State *fork(State &s);
    void error(State &s, const std::string &kind, const std::string &msg, E violating = nullptr);
    void incomplete(State &s, const std::string &why);
    std::string where(State &s); std::vector<std::string> trace(State &s);
    Val &reg(State &s, int r) { return s.regs[s.stack.back().regBase + r]; }
    inline Val get(State &s, int op) { Frame &f = s.stack.back(); return op >= 0 ? s.regs[f.regBase + op] : f.f->consts[~op]; }
    // typeinfo
    std::string tiName(u64 addr);
    bool tiBases(const std::string &ti, std::vector<std::pair<std::string, i64>> &bases); // offset; negative flag for virtual in high bit
    bool tiMatch(State &s, const std::string &thrown, const std::string &want, u64 obj, u64 &adj);
    std::map<std::string, std::vector<std::pair<std::string, i64>>> tiCache;
    void registerBuiltins();
    void writeJson(const std::string &path, const std::string &entry, double wall);
    void finishPath(State &s, const char *how);
    double now();
};
}
