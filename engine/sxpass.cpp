// LLVM 18 pass: rewrites a module so that, next to every concrete value, a symbolic expression is computed.
// Every branch, switch, memory address and call that depends on a symbolic expression reports to the runtime.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "sxops.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
struct SxPass : public PassInfoMixin<SxPass> {
    static bool isRequired() { return true; }

    Module* M = nullptr; const DataLayout* DL = nullptr; LLVMContext* C = nullptr;
    Type *I1, *I8, *I32, *I64, *Void, *Ptr;
    FunctionCallee fBin, fCmp, fCast, fSelect, fLoad, fStore, fBranch, fConc, fEnter, fLanding, fAlloc, fMemcpy,
        fMemset, fChk, fMemcmp, fStrlen, fMemchr, fConcMem, fFn, fPost, fExtract, fIntr, fCStr, fOvf, fByval;
    GlobalVariable *gArgs, *gRet, *gMarker, *gBv;

    using SV = std::vector<Value*>; // one shadow per scalar leaf; empty => all concrete
    Function* F = nullptr; Value* fnName = nullptr;
    DenseMap<Value*, SV> sh;
    std::vector<std::pair<PHINode*, SV>> phis;

    static bool isSym(Type* T) {
        if (T->isPointerTy()) return true;
        if (auto* it = dyn_cast<IntegerType>(T)) return it->getBitWidth() <= 64;
        return false;
    }
    unsigned width(Type* T) { return T->isPointerTy() ? 64 : cast<IntegerType>(T)->getBitWidth(); }
    void leaves(Type* T, std::vector<Type*>& out) {
        if (auto* s = dyn_cast<StructType>(T)) { for (Type* e : s->elements()) leaves(e, out); }
        else if (auto* a = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < a->getNumElements(); ++i) leaves(a->getElementType(), out); }
        else out.push_back(T);
    }
    unsigned nleaves(Type* T) { std::vector<Type*> v; leaves(T, v); return v.size(); }
    unsigned leafIndex(Type* T, ArrayRef<unsigned> idx, Type** sub) {
        unsigned n = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; ++k) n += nleaves(s->getElementType(k)); T = s->getElementType(i); }
            else { auto* a = cast<ArrayType>(T); n += i * nleaves(a->getElementType()); T = a->getElementType(); }
        }
        *sub = T; return n;
    }
    Value* zero() { return ConstantInt::get(I32, 0); }
    static bool isZero(Value* v) { if (auto* c = dyn_cast<ConstantInt>(v)) return c->isZero(); return false; }
    Value* S(Value* v) { // scalar shadow
        if (isa<Constant>(v)) return zero();
        auto it = sh.find(v); if (it == sh.end() || it->second.empty()) return zero();
        return it->second[0];
    }
    SV SA(Value* v) {
        if (isa<Constant>(v)) return {};
        auto it = sh.find(v); if (it == sh.end()) return {};
        return it->second;
    }
    void set(Value* v, Value* s) { sh[v] = SV{ s }; }
    Value* to64(IRBuilder<>& B, Value* v) {
        Type* T = v->getType();
        if (T->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (width(T) < 64) return B.CreateZExt(v, I64);
        return v;
    }
    Value* k32(unsigned v) { return ConstantInt::get(I32, v); }

    void conc(IRBuilder<>& B, Value* s) { if (!isZero(s)) B.CreateCall(fConc, { s, fnName }); }
    void concAll(IRBuilder<>& B, Value* v) { for (Value* s : SA(v)) conc(B, s); }

    static IRBuilder<> after(Instruction* I) {
        Instruction* n = I->getNextNode();
        while (isa<PHINode>(n)) n = n->getNextNode();
        return IRBuilder<>(n);
    }

    void init(Module& m) {
        M = &m; DL = &m.getDataLayout(); C = &m.getContext();
        I1 = Type::getInt1Ty(*C); I8 = Type::getInt8Ty(*C); I32 = Type::getInt32Ty(*C); I64 = Type::getInt64Ty(*C);
        Void = Type::getVoidTy(*C); Ptr = PointerType::get(*C, 0);
        auto fn = [&](const char* n, Type* r, std::vector<Type*> a) { return M->getOrInsertFunction(n, FunctionType::get(r, a, false)); };
        fBin = fn("__sx_bin", I32, { I32, I32, I32, I64, I32, I64, I64 }); // op,w,sa,a,sb,b,result
        fCmp = fn("__sx_cmp", I32, { I32, I32, I32, I64, I32, I64, I64 });
        fCast = fn("__sx_cast", I32, { I32, I32, I32, I64 });              // op, sa, to width, result
        fSelect = fn("__sx_select", I32, { I32, I32, I64, I32, I64, I32, I64 }); // w, sc, c, sa,a,sb,b
        fLoad = fn("__sx_load", I32, { I64, I32, I64 });                   // addr, width(bits), value
        fStore = fn("__sx_store", Void, { I64, I32, I32 });                // addr, size bytes, shadow
        fBranch = fn("__sx_branch", Void, { I32, I32, Ptr });              // shadow, taken, fn
        fConc = fn("__sx_conc", Void, { I32, Ptr });
        fEnter = fn("__sx_enter", I32, { Ptr });
        fLanding = fn("__sx_landing", Void, {});
        fPost = fn("__sx_post", Void, {});
        fAlloc = fn("__sx_alloc", Void, { Ptr, I64 });
        fMemcpy = fn("__sx_memcpy", Void, { Ptr, Ptr, I64 });
        fMemset = fn("__sx_memset", Void, { Ptr, I32, I64 });
        fChk = fn("__sx_chk", I32, { I32, I64 });
        fMemcmp = fn("__sx_memcmp", I32, { Ptr, Ptr, I64 });
        fStrlen = fn("__sx_strlen", I64, { Ptr });
        fMemchr = fn("__sx_memchr", Ptr, { Ptr, I32, I64 });
        fConcMem = fn("__sx_conc_mem", Void, { I64, I64, Ptr });
        fCStr = fn("__sx_conc_cstr", Void, { I64, Ptr });
        fFn = fn("__sx_fn", Void, { Ptr });
        fExtract = fn("__sx_extarg", Void, { I64, Ptr });
        fIntr = fn("__sx_intr", I32, { I32, I32, I32, I64, I64 });
        fOvf = fn("__sx_ovf", I32, { I32, I32, I32, I64, I32, I64, I64 });
        fByval = fn("__sx_byval", Void, { I32, I32, Ptr });
        auto gv = [&](const char* n, Type* t) { return cast<GlobalVariable>(M->getOrInsertGlobal(n, t)); };
        gArgs = gv("__sx_args", ArrayType::get(I32, 64));
        gRet = gv("__sx_ret", ArrayType::get(I32, 16));
        gMarker = gv("__sx_marker", Ptr);
        gBv = gv("__sx_bv", ArrayType::get(I64, 16));
    }
    Value* argSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_32(ArrayType::get(I32, 64), gArgs, 0, i); }
    Value* retSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_32(ArrayType::get(I32, 16), gRet, 0, i); }

    Value* bvSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_32(ArrayType::get(I64, 16), gBv, 0, i); }
    void concAddr(IRBuilder<>& B, Value* p) { conc(B, S(p)); }

    void visitBin(BinaryOperator* I) {
        if (!isSym(I->getType())) { // vectors, i128, floats
            IRBuilder<> B(I); concAll(B, I->getOperand(0)); concAll(B, I->getOperand(1)); return;
        }
        Value *sa = S(I->getOperand(0)), *sb = S(I->getOperand(1));
        if (isZero(sa) && isZero(sb)) return;
        int op = -1;
        switch (I->getOpcode()) {
            case Instruction::Add: op = SX_ADD; break; case Instruction::Sub: op = SX_SUB; break;
            case Instruction::Mul: op = SX_MUL; break; case Instruction::UDiv: op = SX_UDIV; break;
            case Instruction::SDiv: op = SX_SDIV; break; case Instruction::URem: op = SX_UREM; break;
            case Instruction::SRem: op = SX_SREM; break; case Instruction::Shl: op = SX_SHL; break;
            case Instruction::LShr: op = SX_LSHR; break; case Instruction::AShr: op = SX_ASHR; break;
            case Instruction::And: op = SX_AND; break; case Instruction::Or: op = SX_OR; break;
            case Instruction::Xor: op = SX_XOR; break;
            default: break;
        }
        IRBuilder<> B = after(I);
        if (op == SX_UDIV || op == SX_SDIV || op == SX_UREM || op == SX_SREM) {
            // the division itself is undefined for a zero divisor: ask the solver before it runs
            IRBuilder<> P(I);
            if (!isZero(sb)) {
                Value* z = P.CreateICmpNE(I->getOperand(1), ConstantInt::get(I->getType(), 0));
                Value* s = P.CreateCall(fCmp, { k32(CmpInst::ICMP_NE), k32(width(I->getType())), sb, to64(P, I->getOperand(1)), zero(), ConstantInt::get(I64, 0), P.CreateZExt(z, I64) });
                P.CreateCall(fBranch, { s, P.CreateZExt(z, I32), fnName });
            }
        }
        set(I, B.CreateCall(fBin, { k32(op), k32(width(I->getType())), sa, to64(B, I->getOperand(0)), sb, to64(B, I->getOperand(1)), to64(B, I) }));
    }
    void visitCmp(ICmpInst* I) {
        if (!isSym(I->getOperand(0)->getType())) { IRBuilder<> B(I); concAll(B, I->getOperand(0)); concAll(B, I->getOperand(1)); return; }
        Value *sa = S(I->getOperand(0)), *sb = S(I->getOperand(1));
        if (isZero(sa) && isZero(sb)) return;
        IRBuilder<> B = after(I);
        set(I, B.CreateCall(fCmp, { k32(I->getPredicate()), k32(width(I->getOperand(0)->getType())), sa, to64(B, I->getOperand(0)), sb, to64(B, I->getOperand(1)), to64(B, I) }));
    }
    void visitCast(CastInst* I) {
        Value* sa = S(I->getOperand(0));
        if (isZero(sa)) return;
        Type *from = I->getOperand(0)->getType(), *to = I->getType();
        if (!isSym(from) || !isSym(to)) { IRBuilder<> B(I); concAll(B, I->getOperand(0)); return; }
        IRBuilder<> B = after(I);
        switch (I->getOpcode()) {
            case Instruction::Trunc: set(I, B.CreateCall(fCast, { k32(SX_TRUNC), sa, k32(width(to)), to64(B, I) })); break;
            case Instruction::ZExt: set(I, B.CreateCall(fCast, { k32(SX_ZEXT), sa, k32(width(to)), to64(B, I) })); break;
            case Instruction::SExt: set(I, B.CreateCall(fCast, { k32(SX_SEXT), sa, k32(width(to)), to64(B, I) })); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned wf = width(from), wt = width(to);
                if (wf == wt) set(I, sa);
                else set(I, B.CreateCall(fCast, { k32(wf < wt ? SX_ZEXT : SX_TRUNC), sa, k32(wt), to64(B, I) }));
                break;
            }
            case Instruction::BitCast: set(I, sa); break;
            default: { IRBuilder<> P(I); conc(P, sa); }
        }
    }
    void visitGEP(GetElementPtrInst* I) {
        if (I->getType()->isVectorTy()) { IRBuilder<> B(I); for (Value* o : I->operands()) concAll(B, o); return; }
        bool any = false; for (Value* o : I->operands()) if (!isZero(S(o))) any = true;
        if (!any) return;
        IRBuilder<> B = after(I);
        Value* s = S(I->getPointerOperand()); Value* cur = to64(B, I->getPointerOperand());
        auto bin = [&](int op, Value* sa, Value* a, Value* sb, Value* b, Value** r) {
            *r = op == SX_ADD ? B.CreateAdd(a, b) : B.CreateMul(a, b);
            if (isZero(sa) && isZero(sb)) return (Value*) zero();
            return (Value*) B.CreateCall(fBin, { k32(op), k32(64), sa, a, sb, b, *r });
        };
        for (gep_type_iterator g = gep_type_begin(I), e = gep_type_end(I); g != e; ++g) {
            Value* idx = g.getOperand();
            if (StructType* st = g.getStructTypeOrNull()) {
                uint64_t off = DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                Value* r; s = bin(SX_ADD, s, cur, zero(), ConstantInt::get(I64, off), &r); cur = r;
            } else {
                uint64_t sz = DL->getTypeAllocSize(g.getIndexedType());
                Value* si = S(idx); Value* i64v = idx;
                if (width(idx->getType()) < 64) { i64v = B.CreateSExt(idx, I64); if (!isZero(si)) si = B.CreateCall(fCast, { k32(SX_SEXT), si, k32(64), i64v }); }
                Value *m, *r;
                Value* sm = bin(SX_MUL, si, i64v, zero(), ConstantInt::get(I64, sz), &m);
                s = bin(SX_ADD, s, cur, sm, m, &r); cur = r;
            }
        }
        set(I, s);
    }
    void visitSelect(SelectInst* I) {
        Value* sc = S(I->getCondition());
        if (I->getCondition()->getType()->isVectorTy()) { IRBuilder<> B(I); concAll(B, I->getCondition()); return; }
        if (!isSym(I->getType())) {
            // aggregates / floats: the condition is concretised, the leaf shadows follow it
            IRBuilder<> B(I); conc(B, sc);
            SV a = SA(I->getTrueValue()), b = SA(I->getFalseValue());
            if (a.empty() && b.empty()) return;
            IRBuilder<> A = after(I);
            SV r; unsigned n = nleaves(I->getType());
            for (unsigned i = 0; i < n; ++i) r.push_back(A.CreateSelect(I->getCondition(), a.empty() ? zero() : a[i], b.empty() ? zero() : b[i]));
            sh[I] = r; return;
        }
        Value *sa = S(I->getTrueValue()), *sb = S(I->getFalseValue());
        if (isZero(sc) && isZero(sa) && isZero(sb)) return;
        IRBuilder<> B = after(I);
        set(I, B.CreateCall(fSelect, { k32(width(I->getType())), sc, B.CreateZExt(I->getCondition(), I64), sa, to64(B, I->getTrueValue()), sb, to64(B, I->getFalseValue()) }));
    }
    void visitLoad(LoadInst* I) {
        IRBuilder<> P(I); concAddr(P, I->getPointerOperand());
        Type* T = I->getType();
        IRBuilder<> B = after(I);
        Value* a = B.CreatePtrToInt(I->getPointerOperand(), I64);
        if (isSym(T)) { set(I, B.CreateCall(fLoad, { a, k32(width(T)), to64(B, I) })); return; }
        B.CreateCall(fConcMem, { a, ConstantInt::get(I64, DL->getTypeStoreSize(T).getFixedValue()), fnName });
    }
    void visitStore(StoreInst* I) {
        IRBuilder<> P(I); concAddr(P, I->getPointerOperand());
        Value* v = I->getValueOperand(); Type* T = v->getType();
        IRBuilder<> B = after(I);
        Value* a = B.CreatePtrToInt(I->getPointerOperand(), I64);
        unsigned size = DL->getTypeStoreSize(T).getFixedValue();
        if (isSym(T)) { B.CreateCall(fStore, { a, k32(size), S(v) }); return; }
        if (T->isAggregateType()) {
            concAll(P, v);
        }
        B.CreateCall(fStore, { a, k32(size), zero() });
    }
    // --- calls ---
    static bool isRuntime(StringRef n) { return n.starts_with("__sx_"); }
    void handleIntrinsic(IntrinsicInst* I) {
        IRBuilder<> P(I);
        switch (I->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
                for (int i = 0; i < 3; ++i) conc(P, S(I->getArgOperand(i)));
                P.CreateCall(fMemcpy, { I->getArgOperand(0), I->getArgOperand(1), P.CreateZExt(I->getArgOperand(2), I64) }); return;
            }
            case Intrinsic::memset: case Intrinsic::memset_inline: {
                conc(P, S(I->getArgOperand(0))); conc(P, S(I->getArgOperand(2)));
                P.CreateCall(fMemset, { I->getArgOperand(0), S(I->getArgOperand(1)), P.CreateZExt(I->getArgOperand(2), I64) }); return;
            }
            case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
                if (!isSym(I->getType())) break;
                Value *sa = S(I->getArgOperand(0)), *sb = S(I->getArgOperand(1));
                if (isZero(sa) && isZero(sb)) return;
                unsigned w = width(I->getType());
                IRBuilder<> B = after(I);
                CmpInst::Predicate p = I->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT : I->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT : I->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
                Value *a = to64(B, I->getArgOperand(0)), *b = to64(B, I->getArgOperand(1));
                Value* c = B.CreateZExt(B.CreateICmp(p, I->getArgOperand(0), I->getArgOperand(1)), I64);
                Value* sc = B.CreateCall(fCmp, { k32(p), k32(w), sa, a, sb, b, c });
                set(I, B.CreateCall(fSelect, { k32(w), sc, c, sa, a, sb, b })); return;
            }
            case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
            case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
                if (!isSym(I->getArgOperand(0)->getType())) break;
                Value *sa = S(I->getArgOperand(0)), *sb = S(I->getArgOperand(1));
                if (isZero(sa) && isZero(sb)) return;
                unsigned w = width(I->getArgOperand(0)->getType());
                int op, ov;
                switch (I->getIntrinsicID()) {
                    case Intrinsic::uadd_with_overflow: op = SX_ADD; ov = SX_UADDO; break;
                    case Intrinsic::sadd_with_overflow: op = SX_ADD; ov = SX_SADDO; break;
                    case Intrinsic::usub_with_overflow: op = SX_SUB; ov = SX_USUBO; break;
                    case Intrinsic::ssub_with_overflow: op = SX_SUB; ov = SX_SSUBO; break;
                    case Intrinsic::umul_with_overflow: op = SX_MUL; ov = SX_UMULO; break;
                    default: op = SX_MUL; ov = SX_SMULO; break;
                }
                IRBuilder<> B = after(I);
                Value *a = to64(B, I->getArgOperand(0)), *b = to64(B, I->getArgOperand(1));
                Value* r = to64(B, B.CreateExtractValue(I, 0)); Value* o = to64(B, B.CreateExtractValue(I, 1));
                Value* s0 = B.CreateCall(fBin, { k32(op), k32(w), sa, a, sb, b, r });
                Value* s1 = B.CreateCall(fOvf, { k32(ov), k32(w), sa, a, sb, b, o });
                sh[I] = SV{ s0, s1 }; return;
            }
            case Intrinsic::abs: case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
                if (!isSym(I->getType())) break;
                Value* sa = S(I->getArgOperand(0)); if (isZero(sa)) return;
                int op = I->getIntrinsicID() == Intrinsic::abs ? SX_ABS : I->getIntrinsicID() == Intrinsic::bswap ? SX_BSWAP : I->getIntrinsicID() == Intrinsic::ctpop ? SX_CTPOP : I->getIntrinsicID() == Intrinsic::ctlz ? SX_CTLZ : SX_CTTZ;
                IRBuilder<> B = after(I);
                set(I, B.CreateCall(fIntr, { k32(op), k32(width(I->getType())), sa, to64(B, I->getArgOperand(0)), to64(B, I) })); return;
            }
            case Intrinsic::expect: { Value* sa = S(I->getArgOperand(0)); if (!isZero(sa)) set(I, sa); return; }
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for:
            case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::stacksave:
                return;
            case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: { Value* sa = S(I->getArgOperand(0)); if (!isZero(sa)) set(I, sa); return; }
            case Intrinsic::fshl: case Intrinsic::fshr: {
                // rotate/funnel shift: only constant amounts are kept symbolic
                auto* k = dyn_cast<ConstantInt>(I->getArgOperand(2));
                if (!k || !isSym(I->getType())) break;
                Value *sa = S(I->getArgOperand(0)), *sb = S(I->getArgOperand(1));
                if (isZero(sa) && isZero(sb)) return;
                unsigned w = width(I->getType()); unsigned n = k->getZExtValue() % w;
                if (I->getIntrinsicID() == Intrinsic::fshr) n = (w - n) % w, n = n;
                IRBuilder<> B = after(I);
                if (n == 0) { set(I, I->getIntrinsicID() == Intrinsic::fshl ? sa : sb); return; }
                Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
                Value *hi = B.CreateShl(a, n), *lo = B.CreateLShr(b, w - n);
                Value* s1 = isZero(sa) ? zero() : (Value*) B.CreateCall(fBin, { k32(SX_SHL), k32(w), sa, to64(B, a), zero(), ConstantInt::get(I64, n), to64(B, hi) });
                Value* s2 = isZero(sb) ? zero() : (Value*) B.CreateCall(fBin, { k32(SX_LSHR), k32(w), sb, to64(B, b), zero(), ConstantInt::get(I64, w - n), to64(B, lo) });
                set(I, B.CreateCall(fBin, { k32(SX_OR), k32(w), s1, to64(B, hi), s2, to64(B, lo), to64(B, I) })); return;
            }
            default: break;
        }
        for (Value* a : I->args()) concAll(P, a);
    }
    void visitCall(CallBase* I) {
        if (auto* ii = dyn_cast<IntrinsicInst>(I)) { handleIntrinsic(ii); return; }
        IRBuilder<> P(I);
        if (I->isInlineAsm()) { for (Value* a : I->args()) concAll(P, a); return; }
        Function* callee = dyn_cast<Function>(I->getCalledOperand()->stripPointerCasts());
        StringRef name = callee ? callee->getName() : "";
        if (name.starts_with("__sx_new") || name.starts_with("__sx_delete") || name.starts_with("__sx_malloc")) { for (Value* a : I->args()) concAll(P, a); return; }
        if (isRuntime(name)) return;
        bool harnessApi = name.starts_with("sx_") && callee && callee->isDeclaration();
        if (callee && callee->isDeclaration() && !harnessApi) {
            if (name == "memcmp" || name == "bcmp") { replace(I, fMemcmp, 3); return; }
            if (name == "strlen") { replace(I, fStrlen, 1); return; }
            static const std::map<std::string, std::string> lib = { { "memchr", "sxi_memchr" }, { "isspace", "sxi_isspace" }, { "isdigit", "sxi_isdigit" }, { "isupper", "sxi_isupper" }, { "islower", "sxi_islower" }, { "isalpha", "sxi_isalpha" }, { "isalnum", "sxi_isalnum" },
                { "tolower", "sxi_tolower" }, { "toupper", "sxi_toupper" }, { "strcmp", "sxi_strcmp" }, { "strtol", "sxi_strtol" }, { "strtoll", "sxi_strtol" }, { "__isoc23_strtol", "sxi_strtol" }, { "__isoc23_strtoll", "sxi_strtol" },
                { "strtoul", "sxi_strtoul" }, { "strtoull", "sxi_strtoul" }, { "__isoc23_strtoul", "sxi_strtoul" }, { "__isoc23_strtoull", "sxi_strtoul" }, { "atoi", "sxi_atoi" } };
            auto it = lib.find(name.str());
            if (it != lib.end()) { I->setCalledFunction(I->getModule()->getOrInsertFunction(it->second, I->getFunctionType())); callee = I->getCalledFunction(); name = callee->getName(); }
            if (name == "memcpy" || name == "memmove") { for (int i = 0; i < 3; ++i) conc(P, S(I->getArgOperand(i))); P.CreateCall(fMemcpy, { I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2) }); return; }
        }
        conc(P, S(I->getCalledOperand()));
        bool external = callee && callee->isDeclaration() && !harnessApi && !internalName(name);
        // A declaration may be defined (and instrumented) in another module of the same program, so both
        // direct and indirect calls use the marker protocol; uninstrumented callees never clear the marker.
        std::vector<std::pair<unsigned, Value*>> argS; Value* any = nullptr;
        unsigned slot = 0;
        for (Value* a : I->args()) {
            std::vector<Type*> lv; leaves(a->getType(), lv); SV s = SA(a);
            for (unsigned i = 0; i < lv.size(); ++i, ++slot) {
                Value* v = (i < s.size()) ? s[i] : zero();
                if (slot >= 60) { conc(P, v); continue; }
                argS.push_back({ slot, v });
                if (!isZero(v)) any = any ? P.CreateOr(any, v) : v;
            }
        }
        unsigned bv = 0;
        if (!external) for (unsigned i = 0; i < I->arg_size(); ++i) if (I->isByValArgument(i) && bv < 8) {
            uint64_t sz = DL->getTypeAllocSize(I->getParamByValType(i));
            P.CreateStore(P.CreatePtrToInt(I->getArgOperand(i), I64), bvSlot(P, 2 * bv));
            P.CreateStore(ConstantInt::get(I64, sz), bvSlot(P, 2 * bv + 1)); ++bv;
        }
        if (bv) { any = k32(1); if (bv < 8) P.CreateStore(ConstantInt::get(I64, 0), bvSlot(P, 2 * bv)); }
        bool marked = any != nullptr && !external;
        if (external) for (auto& p : argS) conc(P, p.second);
        if (marked) {
            if (!bv) P.CreateStore(ConstantInt::get(I64, 0), bvSlot(P, 0));
            for (auto& p : argS) P.CreateStore(p.second, argSlot(P, p.first));
            if (slot < 60) P.CreateStore(k32(0), argSlot(P, slot));
            P.CreateStore(P.CreateSelect(P.CreateICmpNE(any, zero()), I->getCalledOperand(), ConstantPointerNull::get(cast<PointerType>(Ptr))), gMarker);
        }
        // memory handed to functions that are certainly outside the program (known externals)
        if (external) externalMemory(P, I, name);
        std::vector<Type*> lv; leaves(I->getType(), lv);
        bool wantRet = !I->getType()->isVoidTy() && lv.size() <= 16;
        if (external) wantRet = false;
        if (wantRet) { bool anyS = false; for (Type* t : lv) anyS |= isSym(t); wantRet = anyS; }
        if (wantRet) for (unsigned i = 0; i < lv.size(); ++i) P.CreateStore(zero(), retSlot(P, i));
        bool alloc = name == "_ZnwmSt11align_val_t" || name == "calloc" || name == "realloc";
        if (!marked && !wantRet && !alloc) return;
        Instruction* ip;
        if (auto* inv = dyn_cast<InvokeInst>(I)) {
            BasicBlock* nd = inv->getNormalDest();
            if (!nd->getSinglePredecessor()) {
                BasicBlock* nb = SplitEdge(inv->getParent(), nd);
                nd = nb;
            }
            ip = &*nd->getFirstInsertionPt();
            // keep our code ahead of anything already inserted there
        } else ip = I->getNextNode();
        IRBuilder<> B(ip);
        if (marked) B.CreateCall(fPost, {});
        if (alloc) B.CreateCall(fAlloc, { I, name == "calloc" ? B.CreateMul(I->getArgOperand(0), I->getArgOperand(1)) : name == "realloc" ? (Value*) ConstantInt::get(I64, 0) : I->getArgOperand(0) });
        if (wantRet) {
            SV r; 
            for (unsigned i = 0; i < lv.size(); ++i) {
                Value* s = B.CreateLoad(I32, retSlot(B, i));
                if (lv.size() == 1 && isSym(I->getType())) s = B.CreateCall(fChk, { s, to64(B, I) });
                r.push_back(isSym(lv[i]) ? s : zero());
            }
            sh[I] = r;
        }
    }
    void replace(CallBase* I, FunctionCallee f, unsigned n) {
        IRBuilder<> P(I);
        for (unsigned i = 0; i < n; ++i) conc(P, S(I->getArgOperand(i)));
        I->setCalledFunction(f);
        Instruction* ip;
        if (auto* inv = dyn_cast<InvokeInst>(I)) { BasicBlock* nd = inv->getNormalDest(); if (!nd->getSinglePredecessor()) nd = SplitEdge(inv->getParent(), nd); ip = &*nd->getFirstInsertionPt(); }
        else ip = I->getNextNode();
        IRBuilder<> B(ip);
        set(I, B.CreateLoad(I32, retSlot(B, 0)));
    }
    static bool internalName(StringRef n) { return n.contains("lsqecc") || n.contains("lstk") || n.contains("sxh") || n.starts_with("sxi_"); }
    void externalMemory(IRBuilder<>& P, CallBase* I, StringRef n) {
        static const std::set<StringRef> cstr = { "strtol", "strtoll", "strtoul", "strtoull", "strtod", "strtof", "strtold", "atoi", "atof", "__isoc23_strtol", "__isoc23_strtoll", "__isoc23_strtoul", "__isoc23_strtoull", "getenv", "puts", "fopen", "strcmp", "strncmp", "_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC1EPKc" };
        if (cstr.count(n)) { for (Value* a : I->args()) if (a->getType()->isPointerTy()) P.CreateCall(fCStr, { P.CreatePtrToInt(a, I64), fnName }); return; }
        static const std::set<StringRef> ptrlen = { "_ZSt11_Hash_bytesPKvmm", "_ZSt15_Fnv_hash_bytesPKvmm", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l" };
        if (ptrlen.count(n)) {
            unsigned p = n.contains("ostream_insert") ? 1 : 0;
            P.CreateCall(fConcMem, { P.CreatePtrToInt(I->getArgOperand(p), I64), I->getArgOperand(p + 1), fnName }); return;
        }
        if (n == "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" || n == "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" || n == "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" || n == "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
            return; // error texts: not part of any property; their bytes lose their symbolic form
        static const std::vector<StringRef> safe = { "_ZdlPv", "_ZdaPv", "_Znwm", "_Znam", "free", "malloc", "realloc", "calloc", "__cxa_", "__dynamic_cast", "_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_", "_ZSt29_Rb_tree_", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash_policy", "_ZNSt8__detail20_Prime_rehash_policy", "_ZSt20__throw", "_ZSt17__throw", "_ZSt19__throw", "_ZSt16__throw", "_ZSt24__throw", "_ZSt25__throw", "_ZSt21__throw", "_ZSt22__throw", "_ZSt9terminate", "abort", "__assert_fail", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt8ios_base", "_ZNSt9exception", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt12domain_error", "_ZNKSt9exception", "_ZNKSt5ctype", "_ZNSt5ctype", "_ZNSt15_Sp", "_ZNSt6chrono", "_ZSt4", "_ZStlsISt11char_traits", "__gxx_personality", "_ZNSt10bad", "_ZNSt17bad", "_ZNSt18bad", "_ZNKSt9type_info", "_Unwind", "exit", "_exit", "time", "clock", "__asan", "__ubsan", "_ZNSo", "_ZNSi", "_ZN10__cxxabiv1", "_ZSt16__throw_bad_cast", "_ZSt16__ostream_insert", "_ZTv" };
        for (StringRef p : safe) if (n.starts_with(p)) return;
        if (getenv("SX_VERBOSE")) errs() << "SX-EXT " << n << " in " << F->getName() << "\n";
        for (Value* a : I->args()) if (a->getType()->isPointerTy()) P.CreateCall(fExtract, { P.CreatePtrToInt(a, I64), fnName });
    }

    void instrument(Function& f) {
        F = &f; sh.clear(); phis.clear();
        fnName = nullptr;
        std::string nm = f.getName().str();
        IRBuilder<> E(&*f.getEntryBlock().getFirstInsertionPt());
        fnName = E.CreateGlobalStringPtr(nm, "__sx_fnname", 0, M);
        for (BasicBlock& bb : make_early_inc_range(f)) if (auto* inv = dyn_cast<InvokeInst>(bb.getTerminator())) if (!inv->getNormalDest()->getSinglePredecessor()) SplitEdge(&bb, inv->getNormalDest());
        // snapshot of the original instructions, in dominance-friendly order
        std::vector<Instruction*> work; std::vector<BasicBlock*> order;
        ReversePostOrderTraversal<Function*> rpot(&f);
        for (BasicBlock* bb : rpot) order.push_back(bb);
        for (BasicBlock* bb : order) for (Instruction& i : *bb) work.push_back(&i);
        // entry
        Instruction* ep = &*f.getEntryBlock().getFirstInsertionPt();
        while (isa<AllocaInst>(ep)) ep = ep->getNextNode();
        IRBuilder<> B(ep);
        if (nm.find("lsqecc") != std::string::npos || nm.find("lstk") != std::string::npos) B.CreateCall(fFn, { fnName });
        bool anyArg = false; unsigned slot = 0;
        for (Argument& a : f.args()) { std::vector<Type*> lv; leaves(a.getType(), lv); for (Type* t : lv) anyArg |= isSym(t); }
        Value* ok = nullptr;
        unsigned nbv = 0;
        for (Argument& a : f.args()) if (a.hasByValAttr()) ++nbv;
        if (anyArg) ok = B.CreateICmpNE(B.CreateCall(fEnter, { &f }), zero());
        else B.CreateCall(fEnter, { &f });
        for (Argument& a : f.args()) {
            std::vector<Type*> lv; leaves(a.getType(), lv); SV s; bool any = false;
            for (Type* t : lv) {
                if (isSym(t) && slot < 60 && !a.hasByValAttr()) { s.push_back(B.CreateSelect(ok, B.CreateLoad(I32, argSlot(B, slot)), zero())); any = true; }
                else s.push_back(zero());
                ++slot;
            }
            if (any) sh[&a] = s;
        }
        if (nbv) { unsigned k = 0; for (Argument& a : f.args()) if (a.hasByValAttr() && k < 8) { B.CreateCall(fByval, { B.CreateZExt(ok, I32), k32(k), &a }); ++k; } }
        // shadow phis first
        for (Instruction* i : work) if (auto* p = dyn_cast<PHINode>(i)) {
            std::vector<Type*> lv; leaves(p->getType(), lv); SV s; bool any = false;
            for (Type* t : lv) if (isSym(t)) any = true;
            if (!any) continue;
            for (size_t k = 0; k < lv.size(); ++k) s.push_back(PHINode::Create(I32, p->getNumIncomingValues(), "", p));
            sh[p] = s; phis.push_back({ p, s });
        }
        for (Instruction* i : work) {
            if (isa<PHINode>(i)) continue;
            if (auto* x = dyn_cast<BinaryOperator>(i)) visitBin(x);
            else if (auto* x = dyn_cast<ICmpInst>(i)) visitCmp(x);
            else if (auto* x = dyn_cast<CastInst>(i)) visitCast(x);
            else if (auto* x = dyn_cast<GetElementPtrInst>(i)) visitGEP(x);
            else if (auto* x = dyn_cast<SelectInst>(i)) visitSelect(x);
            else if (auto* x = dyn_cast<LoadInst>(i)) visitLoad(x);
            else if (auto* x = dyn_cast<StoreInst>(i)) visitStore(x);
            else if (auto* x = dyn_cast<FreezeInst>(i)) { SV s = SA(x->getOperand(0)); if (!s.empty()) sh[x] = s; }
            else if (auto* x = dyn_cast<ExtractValueInst>(i)) {
                SV s = SA(x->getAggregateOperand());
                if (!s.empty()) { Type* sub; unsigned k = leafIndex(x->getAggregateOperand()->getType(), x->getIndices(), &sub); unsigned n = nleaves(sub); sh[x] = SV(s.begin() + k, s.begin() + k + n); }
            } else if (auto* x = dyn_cast<InsertValueInst>(i)) {
                SV s = SA(x->getAggregateOperand()), v = SA(x->getInsertedValueOperand());
                if (s.empty() && v.empty()) continue;
                unsigned tot = nleaves(x->getType()); if (s.empty()) s.assign(tot, zero());
                Type* sub; unsigned k = leafIndex(x->getType(), x->getIndices(), &sub); unsigned n = nleaves(sub);
                for (unsigned j = 0; j < n; ++j) s[k + j] = v.empty() ? zero() : v[j];
                sh[x] = s;
            } else if (auto* x = dyn_cast<BranchInst>(i)) {
                if (x->isConditional()) { Value* s = S(x->getCondition()); if (!isZero(s)) { IRBuilder<> P(x); P.CreateCall(fBranch, { s, P.CreateZExt(x->getCondition(), I32), fnName }); } }
            } else if (auto* x = dyn_cast<SwitchInst>(i)) {
                Value* s = S(x->getCondition());
                if (!isZero(s)) {
                    // decided as a chain: the value equals this case / differs from that one
                    IRBuilder<> P(x);
                    unsigned w = width(x->getCondition()->getType());
                    FunctionCallee f = M->getOrInsertFunction("__sx_switch", FunctionType::get(Void, { I32, I32, I64, Ptr, I32, Ptr }, false));
                    std::vector<Constant*> cs; for (auto& c : x->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
                    auto* at = ArrayType::get(I64, cs.size());
                    auto* g = new GlobalVariable(*M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs), "__sx_cases");
                    P.CreateCall(f, { s, k32(w), to64(P, x->getCondition()), g, k32(cs.size()), fnName });
                }
            } else if (auto* x = dyn_cast<ReturnInst>(i)) {
                if (Value* v = x->getReturnValue()) {
                    IRBuilder<> P(x); SV s = SA(v); std::vector<Type*> lv; leaves(v->getType(), lv);
                    if (lv.size() <= 16) for (unsigned k = 0; k < lv.size(); ++k) P.CreateStore(s.empty() ? zero() : s[k], retSlot(P, k));
                    else concAll(P, v);
                }
            } else if (auto* x = dyn_cast<CallBase>(i)) visitCall(x);
            else if (isa<LandingPadInst>(i)) { IRBuilder<> P(i->getNextNode()); P.CreateCall(fLanding, {}); }
            else if (isa<AllocaInst>(i)) { IRBuilder<> P(i); concAll(P, i->getOperand(0)); }
            else if (isa<UnreachableInst>(i) || isa<ResumeInst>(i)) {}
            else if (auto* x = dyn_cast<AtomicRMWInst>(i)) {
                IRBuilder<> P(x); Value* a = P.CreatePtrToInt(x->getPointerOperand(), I64); unsigned sz = DL->getTypeStoreSize(x->getType()).getFixedValue();
                conc(P, S(x->getPointerOperand())); conc(P, S(x->getValOperand()));
                P.CreateCall(fConcMem, { a, ConstantInt::get(I64, sz), fnName });
                IRBuilder<> A = after(x); A.CreateCall(fStore, { A.CreatePtrToInt(x->getPointerOperand(), I64), k32(sz), zero() });
            } else { IRBuilder<> P(i); for (Value* o : i->operands()) if (!isa<BasicBlock>(o)) concAll(P, o);
                if (auto* x = dyn_cast<AtomicCmpXchgInst>(i)) { P.CreateCall(fConcMem, { P.CreatePtrToInt(x->getPointerOperand(), I64), ConstantInt::get(I64, 8), fnName }); }
            }
        }
        for (auto& [p, s] : phis) for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
            SV in = SA(p->getIncomingValue(k));
            for (unsigned j = 0; j < s.size(); ++j) cast<PHINode>(s[j])->addIncoming(in.empty() ? zero() : in[j], p->getIncomingBlock(k));
        }
    }

    PreservedAnalyses run(Module& m, ModuleAnalysisManager&) {
        init(m);
        for (auto [from, to] : { std::pair<const char*, const char*>{ "_Znwm", "__sx_new" }, { "_Znam", "__sx_new2" }, { "_ZdlPv", "__sx_delete" }, { "_ZdlPvm", "__sx_delete2" }, { "_ZdaPv", "__sx_delete3" }, { "_ZdaPvm", "__sx_delete4" }, { "malloc", "__sx_malloc" }, { "free", "__sx_delete5" }, { "_ZnwmRKSt9nothrow_t", "__sx_new3" } })
            if (Function* f = m.getFunction(from); f && f->isDeclaration()) { f->removeFnAttr(Attribute::AllocKind); f->setName(to); }
        std::vector<Function*> fs;
        for (Function& f : m) {
            // our shadow traffic makes every function write memory
            f.setMemoryEffects(MemoryEffects::unknown());
            f.removeFnAttr(Attribute::Speculatable);
            for (auto& I : instructions(f)) if (auto* cb = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(cb)) {
                cb->removeFnAttr(Attribute::Memory); cb->removeFnAttr(Attribute::Speculatable);
                if (auto* ci = dyn_cast<CallInst>(cb)) if (!ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
            }
            if (f.isDeclaration() || f.hasAvailableExternallyLinkage() || f.getName().starts_with("__sx_")) continue;
            if (f.getName().starts_with("asan.") || f.getName().starts_with("__asan")) continue;
            fs.push_back(&f);
        }
        for (Function* f : fs) instrument(*f);
        return PreservedAnalyses::none();
    }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return { LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
    } };
}
