#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <cstring>
using namespace llvm;
namespace symx {

static u16 laneW(const DataLayout &DL, Type *T) {
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (T->isX86_FP80Ty()) return 80;
    if (T->isFP128Ty()) return 128;
    if (T->isHalfTy()) return 16;
    return 64;
}
u32 Exec::countLanes(Type *T) {
    if (T->isVoidTy()) return 0;
    if (auto *S = dyn_cast<StructType>(T)) { u32 n = 0; for (auto *e : S->elements()) n += countLanes(e); return n; }
    if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * countLanes(A->getElementType());
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * countLanes(V->getElementType());
    return 1;
}
void Exec::lanesOf(Type *T, u64 off, std::vector<Lane> &out) {
    if (T->isVoidTy()) return;
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) lanesOf(S->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { u64 sz = DL.getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); ++i) lanesOf(A->getElementType(), off + i * sz, out); return; }
    if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 sz = DL.getTypeStoreSize(V->getElementType()); for (u64 i = 0; i < V->getNumElements(); ++i) lanesOf(V->getElementType(), off + i * sz, out); return; }
    out.push_back({(u32)off, laneW(DL, T)});
}

u64 Exec::constAddr(const Constant *C, bool &ok) {
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constAddr(GA->getAliasee(), ok);
    if (auto *GV = dyn_cast<GlobalValue>(C)) {
        if (GV->hasExternalWeakLinkage() && GV->isDeclaration()) {
            if (auto *F = dyn_cast<Function>(GV)) { Func *f = getFunc(F); if (f->bi) return f->addr; }
            return 0;
        }
        auto it = gaddr.find(GV);
        if (it != gaddr.end()) return it->second;
        ok = false; return 0;
    }
    if (isa<ConstantPointerNull>(C)) return 0;
    if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() <= 64) return CI->getZExtValue(); ok = false; return 0; }
    if (isa<UndefValue>(C)) return 0;
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *G = cast<GEPOperator>(CE); APInt off(64, 0);
            if (!G->accumulateConstantOffset(DL, off)) { ok = false; return 0; }
            return constAddr(cast<Constant>(G->getPointerOperand()), ok) + off.getSExtValue(); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: {
            u64 v = constAddr(CE->getOperand(0), ok);
            return v & mask(laneW(DL, CE->getType())); }
        case Instruction::Add: return (constAddr(CE->getOperand(0), ok) + constAddr(CE->getOperand(1), ok)) & mask(laneW(DL, CE->getType()));
        case Instruction::Sub: return (constAddr(CE->getOperand(0), ok) - constAddr(CE->getOperand(1), ok)) & mask(laneW(DL, CE->getType()));
        case Instruction::ICmp: {
            u64 a = constAddr(CE->getOperand(0), ok), b = constAddr(CE->getOperand(1), ok);
            switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: ok = false; return 0; } }
        default: ok = false; return 0;
        }
    }
    ok = false; return 0;
}

void Exec::constLanes(const Constant *C, std::vector<Val> &out) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        unsigned w = CI->getBitWidth();
        if (w <= 64) { out.push_back(CV(CI->getZExtValue())); return; }
        const APInt &v = CI->getValue(); u128 x = v.getRawData()[0]; if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
        out.push_back(Val{mkConst128(x, w), 0}); return;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
        APInt v = CF->getValueAPF().bitcastToAPInt();
        if (v.getBitWidth() <= 64) out.push_back(CV(v.getZExtValue())); else { u128 x = v.getRawData()[0]; x |= (u128)v.getRawData()[1] << 64; out.push_back(Val{mkConst128(x, v.getBitWidth()), 0}); }
        return;
    }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        std::vector<Lane> l; lanesOf(T, 0, l);
        for (auto &x : l) { if (x.w <= 64) out.push_back(CV(0)); else out.push_back(Val{mkConst128(0, x.w), 0}); }
        return;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) { for (auto &op : CA->operands()) constLanes(cast<Constant>(op), out); return; }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); ++i) constLanes(CD->getElementAsConstant(i), out); return; }
    bool ok = true; u64 a = constAddr(C, ok);
    if (!ok) { std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "symx: unsupported constant %s\n", os.str().substr(0, 300).c_str()); a = 0xdead0000; }
    out.push_back(CV(a & mask(laneW(DL, T))));
}

static K binK(unsigned opc) {
    switch (opc) {
    case Instruction::Add: return K::Add; case Instruction::Sub: return K::Sub; case Instruction::Mul: return K::Mul;
    case Instruction::UDiv: return K::UDiv; case Instruction::SDiv: return K::SDiv; case Instruction::URem: return K::URem; case Instruction::SRem: return K::SRem;
    case Instruction::And: return K::And; case Instruction::Or: return K::Or; case Instruction::Xor: return K::Xor;
    case Instruction::Shl: return K::Shl; case Instruction::LShr: return K::LShr; case Instruction::AShr: return K::AShr;
    }
    return K::Const;
}

void Exec::decode(Func *f) {
    f->decoded = true;
    const Function &F = *f->F;
    std::unordered_map<const Value *, u32> slot;
    std::unordered_map<const Constant *, int> cidx;
    u32 nr = 0;
    for (auto &A : F.args()) { slot[&A] = nr; nr += countLanes(A.getType()); }
    f->nargs = nr;
    for (auto &BB : F) for (auto &I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = nr; nr += countLanes(I.getType()); }
    f->nregs = nr;
    auto op = [&](const Value *V) -> int {
        auto it = slot.find(V);
        if (it != slot.end()) return it->second;
        if (auto *C = dyn_cast<Constant>(V)) {
            auto ci = cidx.find(C);
            if (ci != cidx.end()) return ~ci->second;
            int idx = f->consts.size(); constLanes(C, f->consts); cidx[C] = idx; return ~idx;
        }
        f->consts.push_back(CV(0)); return ~(int)(f->consts.size() - 1); // metadata etc.
    };
    auto opLane = [&](int base, u32 i) { return base >= 0 ? base + (int)i : ~(~base + (int)i); };
    std::unordered_map<const BasicBlock *, u32> bstart;
    std::vector<std::pair<Edge *, const BasicBlock *>> fix;
    auto mkEdge = [&](Edge &e, const BasicBlock *from, const BasicBlock *to) {
        for (auto &P : to->phis()) {
            const Value *v = P.getIncomingValueForBlock(from);
            int o = op(v); u32 d = slot[&P]; u32 n = countLanes(P.getType());
            for (u32 i = 0; i < n; ++i) { int s = opLane(o, i); if (s != (int)(d + i)) e.copies.push_back({d + i, s}); }
        }
        fix.push_back({&e, to});
    };
    for (auto &BB : F) {
        bstart[&BB] = f->insts.size();
        for (auto &I : BB) {
            if (isa<PHINode>(I)) continue;
            Inst in; in.op = O_Unsupported; in.I = &I; in.dst = slot.count(&I) ? slot[&I] : 0;
            Type *T = I.getType();
            if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
                Type *ST = T->getScalarType();
                in.a = op(BO->getOperand(0)); in.b = op(BO->getOperand(1)); in.n = countLanes(T); in.w = laneW(DL, ST);
                if (ST->isFloatingPointTy()) { in.op = O_FBin; in.sub = BO->getOpcode() == Instruction::FAdd ? 0 : BO->getOpcode() == Instruction::FSub ? 1 : BO->getOpcode() == Instruction::FMul ? 2 : BO->getOpcode() == Instruction::FDiv ? 3 : 4; }
                else { in.op = O_Bin; in.sub = (u8)binK(BO->getOpcode()); }
            } else if (auto *IC = dyn_cast<ICmpInst>(&I)) {
                in.op = O_ICmp; in.sub = IC->getPredicate(); in.a = op(IC->getOperand(0)); in.b = op(IC->getOperand(1)); in.n = countLanes(T); in.w = laneW(DL, IC->getOperand(0)->getType()->getScalarType());
            } else if (auto *FC = dyn_cast<FCmpInst>(&I)) {
                in.op = O_FCmp; in.sub = FC->getPredicate(); in.a = op(FC->getOperand(0)); in.b = op(FC->getOperand(1)); in.n = countLanes(T); in.w = laneW(DL, FC->getOperand(0)->getType()->getScalarType());
            } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                if (!T->isVectorTy()) {
                    in.op = O_Gep; in.a = op(G->getPointerOperand()); auto *gi = new GepInfo(); i64 off = 0;
                    for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                        Value *ix = it.getOperand();
                        if (StructType *S = it.getStructTypeOrNull()) { off += DL.getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                        i64 sz = DL.getTypeAllocSize(it.getIndexedType());
                        if (auto *CI = dyn_cast<ConstantInt>(ix)) { off += CI->getSExtValue() * sz; continue; }
                        gi->idx.push_back({op(ix), laneW(DL, ix->getType()), sz});
                    }
                    in.imm = off; in.p = gi; in.n = gi->idx.size();
                }
            } else if (auto *L = dyn_cast<LoadInst>(&I)) {
                in.op = O_Load; in.a = op(L->getPointerOperand()); auto *mi = new MemInfo(); lanesOf(T, 0, mi->lanes); in.p = mi; in.n = mi->lanes.size(); if (in.n == 1) in.w = mi->lanes[0].w;
            } else if (auto *S = dyn_cast<StoreInst>(&I)) {
                in.op = O_Store; in.a = op(S->getPointerOperand()); in.b = op(S->getValueOperand()); auto *mi = new MemInfo(); lanesOf(S->getValueOperand()->getType(), 0, mi->lanes); in.p = mi; in.n = mi->lanes.size(); if (in.n == 1) in.w = mi->lanes[0].w;
            } else if (auto *CI = dyn_cast<CastInst>(&I)) {
                in.a = op(CI->getOperand(0)); in.n = countLanes(T); in.w = laneW(DL, T->getScalarType()); in.imm = laneW(DL, CI->getSrcTy()->getScalarType());
                switch (CI->getOpcode()) {
                case Instruction::Trunc: in.op = O_Trunc; break;
                case Instruction::ZExt: in.op = O_ZExt; break;
                case Instruction::SExt: in.op = O_SExt; break;
                case Instruction::BitCast: if (countLanes(CI->getSrcTy()) == in.n) in.op = O_Copy; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr:
                    in.op = in.w < in.imm ? O_Trunc : in.w > in.imm ? O_ZExt : O_Copy; break;
                default: in.op = O_FCast; in.sub = CI->getOpcode(); break;
                }
            } else if (auto *SI = dyn_cast<SelectInst>(&I)) {
                in.op = O_Select; in.a = op(SI->getCondition()); in.b = op(SI->getTrueValue()); in.c = op(SI->getFalseValue()); in.n = countLanes(T); in.sub = SI->getCondition()->getType()->isVectorTy();
                auto *mi = new MemInfo(); lanesOf(T, 0, mi->lanes); in.p = mi;
            } else if (auto *B = dyn_cast<BranchInst>(&I)) {
                auto *bi = new BrInfo(); in.p = bi;
                if (B->isConditional()) { in.op = O_CBr; in.a = op(B->getCondition()); mkEdge(bi->t, &BB, B->getSuccessor(0)); mkEdge(bi->f, &BB, B->getSuccessor(1)); }
                else { in.op = O_Br; mkEdge(bi->t, &BB, B->getSuccessor(0)); }
            } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
                auto *si = new SwInfo(); in.p = si; in.op = O_Switch; in.a = op(SW->getCondition()); in.w = laneW(DL, SW->getCondition()->getType());
                si->edges.reserve(SW->getNumSuccessors() + 1); si->edges.emplace_back(); mkEdge(si->edges[0], &BB, SW->getDefaultDest());
                std::map<const BasicBlock *, u32> seen;
                for (auto &cs : SW->cases()) {
                    auto *bb = cs.getCaseSuccessor(); u32 ei;
                    if (seen.count(bb)) ei = seen[bb]; else { ei = si->edges.size(); si->edges.emplace_back(); mkEdge(si->edges[ei], &BB, bb); seen[bb] = ei; }
                    si->cases.push_back({cs.getCaseValue()->getZExtValue(), ei});
                }
            } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                auto *ci = new CallInfo(); in.p = ci; in.op = O_Call; ci->cb = CB; ci->retLanes = countLanes(T);
                const Value *cv = CB->getCalledOperand()->stripPointerCastsAndAliases();
                if (auto *CF = dyn_cast<Function>(cv)) {
                    if (CF->isIntrinsic()) {
                        auto id = CF->getIntrinsicID();
                        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::donothing || id == Intrinsic::sideeffect) { if (!T->isVoidTy()) { } continue; }
                    }
                    ci->direct = getFunc(CF);
                } else { ci->indirect = true; ci->fnop = op(CB->getCalledOperand()); }
                if (CB->isInlineAsm()) { ci->indirect = false; ci->direct = nullptr; }
                for (unsigned i = 0; i < CB->arg_size(); ++i) {
                    const Value *A = CB->getArgOperand(i);
                    if (A->getType()->isMetadataTy()) { ci->args.push_back(op(A)); ci->argw.push_back(64); ci->byvalSize.push_back(0); continue; }
                    int o = op(A); std::vector<Lane> l; lanesOf(A->getType(), 0, l);
                    for (u32 k = 0; k < l.size(); ++k) { ci->args.push_back(opLane(o, k)); ci->argw.push_back(l[k].w); ci->byvalSize.push_back(CB->isByValArgument(i) ? DL.getTypeAllocSize(CB->getParamByValType(i)) : 0); }
                }
                if (auto *IV = dyn_cast<InvokeInst>(CB)) { ci->invoke = true; mkEdge(ci->normal, &BB, IV->getNormalDest()); mkEdge(ci->unwind, &BB, IV->getUnwindDest()); }
            } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
                in.op = O_Ret; in.n = 0; if (R->getReturnValue()) { in.a = op(R->getReturnValue()); in.n = countLanes(R->getReturnValue()->getType()); }
            } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                u32 off = 0; Type *CT = EV->getAggregateOperand()->getType();
                for (unsigned ix : EV->indices()) {
                    if (auto *S = dyn_cast<StructType>(CT)) { for (unsigned k = 0; k < ix; ++k) off += countLanes(S->getElementType(k)); CT = S->getElementType(ix); }
                    else { auto *A = cast<ArrayType>(CT); off += ix * countLanes(A->getElementType()); CT = A->getElementType(); }
                }
                in.op = O_Copy; in.a = opLane(op(EV->getAggregateOperand()), off); in.n = countLanes(T);
            } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
                u32 off = 0; Type *CT = T;
                for (unsigned ix : IV->indices()) {
                    if (auto *S = dyn_cast<StructType>(CT)) { for (unsigned k = 0; k < ix; ++k) off += countLanes(S->getElementType(k)); CT = S->getElementType(ix); }
                    else { auto *A = cast<ArrayType>(CT); off += ix * countLanes(A->getElementType()); CT = A->getElementType(); }
                }
                in.op = O_Insert; in.a = op(IV->getAggregateOperand()); in.b = op(IV->getInsertedValueOperand()); in.n = countLanes(T); in.imm = off; in.c = countLanes(CT);
            } else if (auto *AI = dyn_cast<AllocaInst>(&I)) {
                in.op = O_Alloca; in.imm = DL.getTypeAllocSize(AI->getAllocatedType()); in.a = op(AI->getArraySize()); in.w = laneW(DL, AI->getArraySize()->getType());
            } else if (isa<UnreachableInst>(I)) in.op = O_Unreachable;
            else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                auto *lp = new LpInfo(); lp->cleanup = LP->isCleanup(); in.op = O_LandingPad; in.p = lp; in.n = countLanes(T);
                for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
                    LpInfo::Cl c; c.isCatch = LP->isCatch(i);
                    if (c.isCatch) c.tis.push_back(LP->getClause(i)); else { auto *arr = LP->getClause(i); for (auto &o : cast<User>(arr)->operands()) c.tis.push_back(o); }
                    lp->clauses.push_back(c);
                }
            } else if (auto *RS = dyn_cast<ResumeInst>(&I)) { in.op = O_Resume; in.a = op(RS->getValue()); }
            else if (auto *FZ = dyn_cast<FreezeInst>(&I)) { in.op = O_Copy; in.a = op(FZ->getOperand(0)); in.n = countLanes(T); }
            else if (auto *UN = dyn_cast<UnaryOperator>(&I)) { in.op = O_FNeg; in.a = op(UN->getOperand(0)); in.n = countLanes(T); in.w = laneW(DL, T->getScalarType()); }
            else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) { in.op = O_CmpXchg; in.a = op(CX->getPointerOperand()); in.b = op(CX->getCompareOperand()); in.c = op(CX->getNewValOperand()); in.w = laneW(DL, CX->getCompareOperand()->getType()); }
            else if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) { in.op = O_RMW; in.sub = RM->getOperation(); in.a = op(RM->getPointerOperand()); in.b = op(RM->getValOperand()); in.w = laneW(DL, T); }
            else if (isa<FenceInst>(I)) continue;
            else if (auto *EE = dyn_cast<ExtractElementInst>(&I)) { in.op = O_ExtElt; in.a = op(EE->getVectorOperand()); in.b = op(EE->getIndexOperand()); in.n = countLanes(EE->getVectorOperand()->getType()); }
            else if (auto *IE = dyn_cast<InsertElementInst>(&I)) { in.op = O_InsElt; in.a = op(IE->getOperand(0)); in.b = op(IE->getOperand(1)); in.c = op(IE->getOperand(2)); in.n = countLanes(T); }
            else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { auto *sh = new ShufInfo(); for (int m : SV->getShuffleMask()) sh->m.push_back(m); sh->n1 = countLanes(SV->getOperand(0)->getType()); in.op = O_Shuffle; in.a = op(SV->getOperand(0)); in.b = op(SV->getOperand(1)); in.n = countLanes(T); in.p = sh; }
            f->insts.push_back(in);
        }
    }
    for (auto &x : fix) x.first->target = bstart[x.second];
}
}
