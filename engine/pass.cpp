// symx instrumentation: rewrites LLVM IR so that every instruction also computes a symbolic
// expression ("shadow", null = concrete).  usage: sympass in.bc libc.bc inline.bc out.bc funcs.txt
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
using namespace llvm;
static std::set<std::string> warned;
static std::string ReproSrc = "/repo/src";

struct Instr {
    Module& M; LLVMContext& C; const DataLayout& DL;
    Type *P, *I1, *I8, *I32, *I64, *F80, *V;
    PointerType* PT;
    Constant* Null;
    GlobalVariable *gArgs, *gRet, *gCallee, *gSteps, *gFn;
    std::map<std::string, Function*> defs;  // instrumented definitions
    std::map<const DISubprogram*, int> fnIds; std::vector<std::string> fnNames;
    std::map<std::string,int> fnByName;
    ArrayType* ArgsTy; ArrayType* RetTy;

    Instr(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
        PT = PointerType::getUnqual(C); P = PT; I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); F80 = Type::getX86_FP80Ty(C); V = Type::getVoidTy(C);
        Null = ConstantPointerNull::get(PT);
        ArgsTy = ArrayType::get(P, 128); RetTy = ArrayType::get(P, 32);
        gArgs = ext("sx_args", ArgsTy); gRet = ext("sx_ret", RetTy); gCallee = ext("sx_callee", P);
        gSteps = ext("sx_steps", I64); gFn = ext("sx_fn", ArrayType::get(I8, 8192));
    }
    GlobalVariable* ext(StringRef n, Type* t) {
        if (auto* g = M.getNamedGlobal(n)) return g;
        return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
    }
    FunctionCallee rt(StringRef n, Type* r, ArrayRef<Type*> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); }

    using Sh = SmallVector<Value*, 2>;
    DenseMap<Value*, Sh> sh;

    void leaves(Type* t, SmallVectorImpl<Type*>& out) {
        if (t->isVoidTy()) return;
        if (auto* s = dyn_cast<StructType>(t)) { for (auto* e : s->elements()) leaves(e, out); return; }
        if (auto* a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); ++i) leaves(a->getElementType(), out); return; }
        if (auto* v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back(v->getElementType()); return; }
        out.push_back(t);
    }
    unsigned nleaves(Type* t) { SmallVector<Type*, 4> l; leaves(t, l); return l.size(); }
    bool ok(Type* t) { if (auto* i = dyn_cast<IntegerType>(t)) return i->getBitWidth() <= 64; return t->isPointerTy() || t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty(); }
    bool isFP(Type* t) { return t->isFloatingPointTy(); }
    unsigned width(Type* t) { if (t->isPointerTy()) return 64; if (t->isX86_FP80Ty()) return 80; return t->getPrimitiveSizeInBits(); }

    Sh getSh(Value* v) {
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        return Sh(nleaves(v->getType()), Null);
    }
    Value* S(Value* v) { auto s = getSh(v); return s.empty() ? (Value*)Null : s[0]; }
    bool anySym(Value* v) { for (auto* x : getSh(v)) if (x != Null) return true; return false; }
    // concrete value of leaf i of v
    Value* leaf(IRBuilder<>& B, Value* v, unsigned idx) {
        Type* t = v->getType();
        if (auto* vt = dyn_cast<FixedVectorType>(t)) { (void)vt; return B.CreateExtractElement(v, idx); }
        if (t->isStructTy() || t->isArrayTy()) {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i) {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
                unsigned c = nleaves(et);
                if (idx < c) return leaf(B, B.CreateExtractValue(v, i), idx);
                idx -= c;
            }
        }
        return v;
    }
    Value* u64(IRBuilder<>& B, Value* v) {
        if (v->getType()->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (isFP(v->getType())) { if (v->getType()->isX86_FP80Ty()) return ConstantInt::get(I64, 0);
            return B.CreateZExt(B.CreateBitCast(v, B.getIntNTy(width(v->getType()))), I64); }
        if (v->getType()->getIntegerBitWidth() > 64) return B.CreateTrunc(v, I64);
        return B.CreateZExt(v, I64);
    }
    Value* f80(IRBuilder<>& B, Value* v) { return v->getType() == F80 ? v : B.CreateFPExt(v, F80); }
    Value* c32(int x) { return ConstantInt::get(I32, x); }
    Value* c64(uint64_t x) { return ConstantInt::get(I64, x); }

    void concretize(IRBuilder<>& B, Value* v) {
        auto s = getSh(v);
        SmallVector<Type*, 4> l; leaves(v->getType(), l);
        for (unsigned i = 0; i < s.size(); ++i)
            if (s[i] != Null && ok(l[i])) {
                if (isFP(l[i])) B.CreateCall(rt("sxf_concretize_f", V, {P, I32, F80}), {s[i], c32(width(l[i])), f80(B, leaf(B, v, i))});
                else B.CreateCall(rt("sxf_concretize", V, {P, I32, I64}), {s[i], c32(width(l[i])), u64(B, leaf(B, v, i))});
            }
    }

    // redirects: libc / libstdc++ functions replaced by instrumented or native versions
    std::string redirect(StringRef n) {
        static std::map<std::string, std::string> m = {
            {"_Znwm", "sx_malloc"}, {"_Znam", "sx_malloc"}, {"malloc", "sx_malloc"}, {"_ZdlPv", "sx_free"}, {"_ZdaPv", "sx_free"},
            {"_ZdlPvm", "sx_free2"}, {"_ZdaPvm", "sx_free2"}, {"free", "sx_free"}, {"calloc", "sx_calloc"}, {"realloc", "sx_realloc"},
            {"memcmp", "sxl_memcmp"}, {"bcmp", "sxl_memcmp"}, {"strlen", "sxl_strlen"}, {"memchr", "sxl_memchr"}, {"strcmp", "sxl_strcmp"},
            {"strncmp", "sxl_strncmp"}, {"strchr", "sxl_strchr"},
            {"strtol", "sxl_strtoll"}, {"strtoll", "sxl_strtoll"}, {"strtoul", "sxl_strtoull"}, {"strtoull", "sxl_strtoull"},
            {"__isoc23_strtol", "sxl_strtoll"}, {"__isoc23_strtoll", "sxl_strtoll"}, {"__isoc23_strtoul", "sxl_strtoull"}, {"__isoc23_strtoull", "sxl_strtoull"},
            {"strtold", "sxl_strtold"}, {"strtod", "sxl_strtod"}, {"strtof", "sxl_strtof"}, {"isspace", "sxl_isspace"}, {"isdigit", "sxl_isdigit"}, {"isalpha", "sxl_isalpha"},
            {"isalnum", "sxl_isalnum"}, {"toupper", "sxl_toupper"}, {"tolower", "sxl_tolower"}, {"isblank", "sxl_isblank"}, {"isprint","sxl_isprint"},
            {"_ZNSt6chrono3_V212steady_clock3nowEv", "sx_clock"}, {"_ZNSt6chrono3_V212system_clock3nowEv", "sx_clock"},
            {"_ZSt11_Hash_bytesPKvmm", "sx_hash_bytes"},
        };
        auto it = m.find(n.str());
        return it == m.end() ? "" : it->second;
    }
    // native runtime functions whose result carries a shadow in sx_ret[0]
    bool rtShadow(StringRef n) { return n == "sx_int" || n == "sx_u64" || n == "sx_byte" || n == "sx_real" || n == "sx_reald" || n == "sx_clock" || n == "sx_bool" || n == "sx_u32"; }
    bool rtNative(StringRef n) { return n.starts_with("sx_"); }

    void run() {
        // 0. one thread: thread-local variables become ordinary ones
        for (auto& F : M) for (auto& BB : F) for (auto& I : make_early_inc_range(BB)) if (auto* CB = dyn_cast<CallBase>(&I)) if (CB->getIntrinsicID() == Intrinsic::threadlocal_address) { CB->replaceAllUsesWith(CB->getArgOperand(0)); CB->eraseFromParent(); }
        for (auto& G : M.globals()) if (G.isThreadLocal()) G.setThreadLocalMode(GlobalValue::NotThreadLocal);
        // 1. redirects
        for (auto& F : make_early_inc_range(M)) {
            auto r = redirect(F.getName());
            if (r.empty()) continue;
            if (!F.isDeclaration() && !F.getName().starts_with("_Z")) continue;
            Function* T = M.getFunction(r);
            if (!T) T = Function::Create(F.getFunctionType(), GlobalValue::ExternalLinkage, r, M);
            F.replaceAllUsesWith(T);
        }
        std::vector<Function*> fs;
        for (auto& F : M) if (!F.isDeclaration()) {
            if (F.getName().starts_with("_GLOBAL__") || F.getName().starts_with("__cxx_global")) { }
            defs[F.getName().str()] = &F; fs.push_back(&F);
        }
        snapshotGlobals();
        for (auto* F : fs) { F->removeFnAttr(Attribute::Memory); for (auto a : {Attribute::WillReturn, Attribute::NoSync, Attribute::NoFree, Attribute::NoRecurse, Attribute::MustProgress, Attribute::NoCallback, Attribute::Speculatable}) F->removeFnAttr(a);
            for (auto& A : F->args()) { A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::WriteOnly); A.removeAttr(Attribute::NoCapture);A.removeAttr(Attribute::NoAlias);A.removeAttr(Attribute::Returned); } }
        for (auto& F : M) if (F.isDeclaration() && !F.isIntrinsic()) { F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn);F.removeFnAttr(Attribute::NoCallback); F.removeFnAttr(Attribute::NoSync);}
        for (auto* F : fs) for (auto& BB : *F) for (auto& I : BB) if (auto* CB = dyn_cast<CallBase>(&I)) {
            CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::WillReturn); CB->removeFnAttr(Attribute::NoCallback);
            if (auto* CI = dyn_cast<CallInst>(CB)) CI->setTailCall(false);
        }
        for (auto* F : fs) function(*F);
    }
    void snapshotGlobals() {
        // table of mutable globals so that the runtime restores them before each path
        std::vector<Constant*> el;
        StructType* ST = StructType::get(C, {P, I64});
        for (auto& G : M.globals()) {
            if (G.isDeclaration() || G.isConstant() || G.getName().starts_with("llvm.") || G.getName().starts_with("sx_")|| G.getName().starts_with("_ZStL8__ioinit")|| G.isThreadLocal()) continue;
            if (G.getName().starts_with("sxh_")) continue;
            el.push_back(ConstantStruct::get(ST, {&G, ConstantInt::get(I64, DL.getTypeAllocSize(G.getValueType()))}));
        }
        el.push_back(ConstantStruct::get(ST, {Null, ConstantInt::get(I64, 0)}));
        auto* AT = ArrayType::get(ST, el.size());
        new GlobalVariable(M, AT, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT, el), "sx_globals");
    }
    int fnId(Instruction& I) {
        auto dl = I.getDebugLoc(); if (!dl) return -1;
        auto* sp = dl->getScope()->getSubprogram(); if (!sp) return -1;
        auto it = fnIds.find(sp); if (it != fnIds.end()) return it->second;
        int id = -1;
        std::string file = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if (sp->getFilename().starts_with("/")) file = sp->getFilename().str();
        auto pos = file.find(ReproSrc);
        if (pos != std::string::npos) {
            std::string nm = file.substr(pos + ReproSrc.size() + 1) + ":" + sp->getName().str();
            auto jt = fnByName.find(nm);
            if (jt != fnByName.end()) id = jt->second;
            else { id = fnNames.size(); fnNames.push_back(nm); fnByName[nm] = id; }
            if (id >= 8192) id = -1;
        }
        return fnIds[sp] = id;
    }

    std::vector<std::pair<PHINode*, SmallVector<PHINode*, 2>>> phis;
    DenseMap<InvokeInst*, BasicBlock*> invNormal;

    void function(Function& F) {
        sh.clear(); phis.clear();
        // split normal edges of invokes so that result shadows have a private block
        std::vector<InvokeInst*> inv;
        for (auto& BB : F) if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
        for (auto* II : inv) {
            BasicBlock* N = II->getNormalDest();
            BasicBlock* NB = BasicBlock::Create(C, "inv.cont", &F, N);
            BranchInst::Create(N, NB);
            for (auto& PN : N->phis()) for (unsigned i = 0; i < PN.getNumIncomingValues(); ++i)
                if (PN.getIncomingBlock(i) == II->getParent()) PN.setIncomingBlock(i, NB);
            II->setNormalDest(NB);
        }
        std::vector<BasicBlock*> order;
        DominatorTree DT(F);
        { ReversePostOrderTraversal<Function*> RPO(&F); for (auto* BB : RPO) order.push_back(BB); }
        LoopInfo LI(DT);
        std::set<BasicBlock*> headers;
        SmallVector<std::pair<const BasicBlock*, const BasicBlock*>, 8> back; FindFunctionBackedges(F, back);
        for (auto& e : back) headers.insert(const_cast<BasicBlock*>(e.second));
        std::vector<std::vector<Instruction*>> insts;
        for (auto* BB : order) { insts.emplace_back(); for (auto& I : *BB) insts.back().push_back(&I); }
        // phi shadows first
        for (auto* BB : order) for (auto& PN : BB->phis()) {
            if (!PN.getMetadata("sx")) {}
        }
        for (unsigned b = 0; b < order.size(); ++b) for (auto* I : insts[b]) if (auto* PN = dyn_cast<PHINode>(I)) {
            Sh s; SmallVector<PHINode*, 2> ps; unsigned n = nleaves(PN->getType());
            for (unsigned i = 0; i < n; ++i) { auto* q = PHINode::Create(P, PN->getNumIncomingValues(), "sh", PN); s.push_back(q); ps.push_back(q); }
            sh[PN] = s; phis.push_back({PN, ps});
        }
        // prologue
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            bool any = false;
            for (auto& A : F.args()) if (nleaves(A.getType())) any = true;
            if (any && F.getName() != "main") {
                Value* okv = B.CreateICmpEQ(B.CreateLoad(P, gCallee), &F);
                B.CreateStore(Null, gCallee);
                unsigned slot = 0;
                for (auto& A : F.args()) {
                    unsigned n = nleaves(A.getType()); Sh s;
                    for (unsigned i = 0; i < n; ++i, ++slot) {
                        if (slot >= 128) { s.push_back(Null); continue; }
                        Value* v = B.CreateLoad(P, B.CreateConstGEP2_32(ArgsTy, gArgs, 0, slot));
                        s.push_back(B.CreateSelect(okv, v, Null));
                    }
                    if (A.hasByValAttr()) {
                        B.CreateCall(rt("sxf_byval", V, {P, P, I64}), {&A, s[0], c64(DL.getTypeAllocSize(A.getParamByValType()))});
                        s[0] = Null;
                    }
                    sh[&A] = s;
                }
            }
        }
        for (unsigned b = 0; b < order.size(); ++b) {
            BasicBlock* BB = order[b];
            if (!BB->isLandingPad() || true) {
                auto ip = BB->getFirstInsertionPt();
                if (ip != BB->end()) {
                    IRBuilder<> B(&*ip);
                    if (headers.count(BB) || b == 0) {
                        B.CreateCall(rt("sxf_step", V, {}), {});
                    }
                    std::set<int> ids;
                    for (auto* I : insts[b]) { int id = fnId(*I); if (id >= 0) ids.insert(id); }
                    for (int id : ids) B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstGEP2_32(ArrayType::get(I8, 8192), gFn, 0, id));
                }
            }
            for (auto* I : insts[b]) inst(*I);
        }
        for (auto& pr : phis) {
            for (unsigned k = 0; k < pr.first->getNumIncomingValues(); ++k) {
                auto s = getSh(pr.first->getIncomingValue(k));
                for (unsigned i = 0; i < pr.second.size(); ++i) pr.second[i]->addIncoming(s[i], pr.first->getIncomingBlock(k));
            }
        }
        // unreachable blocks keep uninstrumented code; drop phi mismatch
        removeUnreachableBlocks(F);
    }

    void addr(IRBuilder<>& B, Value* p, Value* size, int wr) {
        if (S(p) != Null) B.CreateCall(rt("sxf_addr", V, {P, P, I64, I32}), {S(p), p, size, c32(wr)});
        B.CreateCall(rt("sxf_chk", V, {P, I64, I32}), {p, size, c32(wr)});
    }
    Value* loadSh(IRBuilder<>& B, Value* p, Type* t) {
        return B.CreateCall(rt("sxf_load", P, {P, I32, I32}), {p, c32((unsigned)DL.getTypeStoreSize(t)), c32(isFP(t) ? width(t) : (t->isIntegerTy(1) ? 1 : 0))});
    }
    void storeSh(IRBuilder<>& B, Value* p, Type* t, Value* e) {
        B.CreateCall(rt("sxf_store", V, {P, I32, P, I32}), {p, c32((unsigned)DL.getTypeStoreSize(t)), e, c32(isFP(t) ? width(t) : 0)});
    }
    void setSh(Instruction& I, Value* s) { sh[&I] = Sh{s}; }

    Value* binE(IRBuilder<>& B, int op, unsigned w, Value* ea, Value* a, Value* eb, Value* b) {
        if (ea == Null && eb == Null) return Null;
        return B.CreateCall(rt("sxf_bin", P, {I32, I32, P, I64, P, I64}), {c32(op), c32(w), ea, a, eb, b});
    }
    Value* castE(IRBuilder<>& B, int op, unsigned fw, unsigned tw, Value* e) {
        if (e == Null || fw == tw) return e;
        return B.CreateCall(rt("sxf_cast", P, {I32, I32, I32, P}), {c32(op), c32(fw), c32(tw), e});
    }
    enum { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR };

    void inst(Instruction& I) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) return;
        IRBuilder<> B(&I);
        auto after = [&]() { return I.getNextNode(); };
        switch (I.getOpcode()) {
        case Instruction::Alloca: {
            IRBuilder<> A(after());
            auto& AI = cast<AllocaInst>(I);
            Value* sz = A.CreateMul(A.CreateZExtOrTrunc(AI.getArraySize(), I64), c64(DL.getTypeAllocSize(AI.getAllocatedType())));
            A.CreateCall(rt("sxf_alloca", V, {P, I64}), {&I, sz});
            return; }
        case Instruction::Load: {
            auto& L = cast<LoadInst>(I); Type* t = L.getType(); Value* p = L.getPointerOperand();
            addr(B, p, c64(DL.getTypeStoreSize(t)), 0);
            SmallVector<Type*, 4> l; leaves(t, l);
            if (l.size() == 1 && !t->isAggregateType() && !t->isVectorTy()) { if (ok(t)) setSh(I, loadSh(B, p, t)); return; }
            if (auto* vt = dyn_cast<FixedVectorType>(t)) {
                Sh s; uint64_t es = DL.getTypeStoreSize(vt->getElementType());
                for (unsigned i = 0; i < l.size(); ++i) s.push_back(ok(l[i]) && width(l[i]) % 8 == 0 ? loadSh(B, B.CreateConstGEP1_64(I8, p, i * es), l[i]) : Null);
                sh[&I] = s; return; }
            { Sh s; SmallVector<uint64_t, 8> offs; offsets(t, 0, offs);
              for (unsigned i = 0; i < l.size(); ++i) s.push_back(ok(l[i]) ? loadSh(B, B.CreateConstGEP1_64(I8, p, offs[i]), l[i]) : Null);
              sh[&I] = s; }
            return; }
        case Instruction::Store: {
            auto& St = cast<StoreInst>(I); Value* v = St.getValueOperand(); Type* t = v->getType(); Value* p = St.getPointerOperand();
            addr(B, p, c64(DL.getTypeStoreSize(t)), 1);
            auto s = getSh(v); SmallVector<Type*, 4> l; leaves(t, l);
            if (l.size() == 1 && !t->isAggregateType() && !t->isVectorTy()) { storeSh(B, p, t, ok(t) ? s[0] : Null); return; }
            if (auto* vt = dyn_cast<FixedVectorType>(t)) {
                uint64_t es = DL.getTypeStoreSize(vt->getElementType());
                if (width(l[0]) % 8) { concretize(B, v); storeShBlock(B, p, DL.getTypeStoreSize(t)); return; }
                for (unsigned i = 0; i < l.size(); ++i) storeSh(B, B.CreateConstGEP1_64(I8, p, i * es), l[i], ok(l[i]) ? s[i] : Null);
                return; }
            SmallVector<uint64_t, 8> offs; offsets(t, 0, offs);
            for (unsigned i = 0; i < l.size(); ++i) storeSh(B, B.CreateConstGEP1_64(I8, p, offs[i]), l[i], ok(l[i]) ? s[i] : Null);
            return; }
        case Instruction::GetElementPtr: {
            auto& G = cast<GetElementPtrInst>(I);
            bool any = S(G.getPointerOperand()) != Null;
            for (auto& ix : G.indices()) if (S(ix) != Null) any = true;
            if (!any || I.getType()->isVectorTy()) return;
            // expr = base + sum(idx*scale)
            Value* e = S(G.getPointerOperand()); Value* c = B.CreatePtrToInt(G.getPointerOperand(), I64);
            Type* t = G.getSourceElementType(); unsigned k = 0;
            for (auto& ix : G.indices()) {
                uint64_t scale; Value* off; Value* eo = Null;
                if (k == 0) scale = DL.getTypeAllocSize(t);
                else if (auto* stt = dyn_cast<StructType>(t)) {
                    unsigned f = cast<ConstantInt>(ix)->getZExtValue();
                    off = c64(DL.getStructLayout(stt)->getElementOffset(f));
                    e = binE(B, ADD, 64, e, c, Null, off); c = B.CreateAdd(c, off); t = stt->getElementType(f); ++k; continue;
                } else { t = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); scale = DL.getTypeAllocSize(t); }
                Value* i64v = B.CreateSExtOrTrunc(ix, I64);
                unsigned iw = ix->getType()->getIntegerBitWidth();
                Value* ei = S(ix);
                if (ei != Null) ei = iw < 64 ? castE(B, 1, iw, 64, ei) : ei;
                off = B.CreateMul(i64v, c64(scale));
                if (ei != Null) eo = binE(B, MUL, 64, ei, i64v, Null, c64(scale));
                e = binE(B, ADD, 64, e, c, eo, off); c = B.CreateAdd(c, off); ++k;
            }
            setSh(I, e); return; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
        case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            Value *a = I.getOperand(0), *b = I.getOperand(1);
            if (I.getType()->isVectorTy()) { vecFallback(B, I); return; }
            if (!ok(I.getType())) { concretize(B, a); concretize(B, b); return; }
            if (S(a) == Null && S(b) == Null) return;
            int op = 0;
            switch (I.getOpcode()) { case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break; case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; case Instruction::SRem: op = SREM; break; case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break; case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break; }
            if (op >= UDIV && op <= SREM && S(b) != Null) B.CreateCall(rt("sxf_div", V, {P, I32, I64}), {S(b), c32(width(b->getType())), u64(B, b)});
            setSh(I, binE(B, op, width(I.getType()), S(a), u64(B, a), S(b), u64(B, b))); return; }
        case Instruction::ICmp: {
            auto& Cm = cast<ICmpInst>(I); Value *a = I.getOperand(0), *b = I.getOperand(1);
            if (a->getType()->isVectorTy()) { vecFallback(B, I); return; }
            if (!ok(a->getType())) { concretize(B, a); concretize(B, b); return; }
            if (S(a) == Null && S(b) == Null) return;
            setSh(I, B.CreateCall(rt("sxf_icmp", P, {I32, I32, P, I64, P, I64}), {c32(Cm.getPredicate()), c32(width(a->getType())), S(a), u64(B, a), S(b), u64(B, b)})); return; }
        case Instruction::FCmp: {
            auto& Cm = cast<FCmpInst>(I); Value *a = I.getOperand(0), *b = I.getOperand(1);
            if (a->getType()->isVectorTy()) { vecFallback(B, I); return; }
            if (S(a) == Null && S(b) == Null) return;
            setSh(I, B.CreateCall(rt("sxf_fcmp", P, {I32, I32, P, F80, P, F80}), {c32(Cm.getPredicate()), c32(width(a->getType())), S(a), f80(B, a), S(b), f80(B, b)})); return; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            Value *a = I.getOperand(0), *b = I.getOperand(1);
            if (I.getType()->isVectorTy()) { vecFallback(B, I); return; }
            if (S(a) == Null && S(b) == Null) return;
            if (I.getOpcode() == Instruction::FRem) { concretize(B, a); concretize(B, b); return; }
            int op = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : 3;
            setSh(I, fbinE(B, op, width(I.getType()), S(a), a, S(b), b)); return; }
        case Instruction::FNeg: if (I.getType()->isVectorTy()) { vecFallback(B, I); return; }
            if (S(I.getOperand(0)) != Null) setSh(I, B.CreateCall(rt("sxf_funop", P, {I32, I32, P}), {c32(0), c32(width(I.getType())), S(I.getOperand(0))})); return;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Value* a = I.getOperand(0);
            if (I.getType()->isVectorTy()) { vecFallback(B, I); return; }
            if (S(a) == Null) return;
            if (!ok(I.getType()) || !ok(a->getType())) { concretize(B, a); return; }
            unsigned fw = width(a->getType()), tw = width(I.getType());
            int op = I.getOpcode() == Instruction::SExt ? 1 : (tw < fw ? 2 : 0);
            setSh(I, castE(B, op, fw, tw, S(a))); return; }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            Value* a = I.getOperand(0); if (I.getType()->isVectorTy()) { vecFallback(B, I); return; } if (S(a) == Null) return;
            setSh(I, B.CreateCall(rt("sxf_itof", P, {I32, I32, I32, P}), {c32(I.getOpcode() == Instruction::SIToFP), c32(width(a->getType())), c32(width(I.getType())), S(a)})); return; }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            Value* a = I.getOperand(0); if (I.getType()->isVectorTy()) { vecFallback(B, I); return; } if (S(a) == Null) return;
            setSh(I, B.CreateCall(rt("sxf_ftoi", P, {I32, I32, I32, P}), {c32(I.getOpcode() == Instruction::FPToSI), c32(width(a->getType())), c32(width(I.getType())), S(a)})); return; }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            Value* a = I.getOperand(0); if (I.getType()->isVectorTy()) { vecFallback(B, I); return; } if (S(a) == Null) return;
            setSh(I, B.CreateCall(rt("sxf_fconv", P, {I32, I32, P}), {c32(width(a->getType())), c32(width(I.getType())), S(a)})); return; }
        case Instruction::BitCast: {
            Value* a = I.getOperand(0); if (!anySym(a)) return;
            Type *ft = a->getType(), *tt = I.getType();
            if (!ft->isVectorTy() && !tt->isVectorTy()) { setSh(I, bitcastE(B, ft, tt, S(a))); return; }
            // vector <-> scalar/vector : through an integer
            SmallVector<Type*, 4> fl, tl; leaves(ft, fl); leaves(tt, tl); auto s = getSh(a);
            Value* whole = nullptr; unsigned W = DL.getTypeSizeInBits(ft);
            if (W > 64) { if (fl.size() == tl.size()) { Sh r; for (unsigned i = 0; i < s.size(); ++i) r.push_back(bitcastE(B, fl[i], tl[i], s[i])); sh[&I] = r; return; } concretize(B, a); return; }
            Value* acc = Null; Value* accc = c64(0); unsigned pos = 0;
            for (unsigned i = 0; i < fl.size(); ++i) {
                unsigned ew = width(fl[i]); Value* ei = bitcastE(B, fl[i], B.getIntNTy(ew), s[i]);
                Value* ci = u64(B, leaf(B, a, i));
                Value* z = castE(B, 0, ew, W, ei);
                Value* shd = binE(B, SHL, W, z, ci, Null, c64(pos)); Value* cshd = B.CreateShl(ci, c64(pos));
                acc = binE(B, OR, W, acc, accc, shd, cshd); accc = B.CreateOr(accc, cshd); pos += ew;
            }
            whole = acc; pos = 0; Sh r;
            for (unsigned i = 0; i < tl.size(); ++i) {
                unsigned ew = width(tl[i]);
                Value* x = binE(B, LSHR, W, whole, accc, Null, c64(pos)); x = castE(B, 2, W, ew, x);
                r.push_back(bitcastE(B, B.getIntNTy(ew), tl[i], x)); pos += ew;
            }
            sh[&I] = r; return; }
        case Instruction::Select: {
            Value *c = I.getOperand(0), *a = I.getOperand(1), *b = I.getOperand(2);
            if (c->getType()->isVectorTy()) { vecFallback(B, I); return; }
            auto sa = getSh(a), sb = getSh(b); SmallVector<Type*, 4> l; leaves(I.getType(), l);
            Sh r; Value* ec = S(c);
            if (ec != Null && (l.size() != 1 || l[0]->isPointerTy() || !ok(l[0]))) { B.CreateCall(rt("sxf_br", V, {P, I1}), {ec, c}); ec = Null; }
            for (unsigned i = 0; i < l.size(); ++i) {
                if (ec == Null) { if (sa[i] == Null && sb[i] == Null) r.push_back(Null); else r.push_back(B.CreateSelect(c, sa[i], sb[i])); continue; }
                if (isFP(l[i])) r.push_back(B.CreateCall(rt("sxf_fselect", P, {I32, P, I1, P, F80, P, F80}), {c32(width(l[i])), ec, c, sa[i], f80(B, leaf(B, a, i)), sb[i], f80(B, leaf(B, b, i))}));
                else r.push_back(B.CreateCall(rt("sxf_select", P, {I32, P, I1, P, I64, P, I64}), {c32(width(l[i])), ec, c, sa[i], u64(B, leaf(B, a, i)), sb[i], u64(B, leaf(B, b, i))}));
            }
            sh[&I] = r; return; }
        case Instruction::ExtractValue: {
            auto& E = cast<ExtractValueInst>(I); Value* a = E.getAggregateOperand(); auto s = getSh(a);
            unsigned off = 0; Type* t = a->getType();
            for (unsigned ix : E.indices()) { for (unsigned i = 0; i < ix; ++i) off += nleaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
            Sh r; for (unsigned i = 0; i < nleaves(I.getType()); ++i) r.push_back(s[off + i]); sh[&I] = r; return; }
        case Instruction::InsertValue: {
            auto& E = cast<InsertValueInst>(I); Value* a = E.getAggregateOperand(); auto s = getSh(a); auto v = getSh(E.getInsertedValueOperand());
            unsigned off = 0; Type* t = a->getType();
            for (unsigned ix : E.indices()) { for (unsigned i = 0; i < ix; ++i) off += nleaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
            for (unsigned i = 0; i < v.size(); ++i) s[off + i] = v[i]; sh[&I] = s; return; }
        case Instruction::ExtractElement: {
            auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { concretize(B, I.getOperand(0)); concretize(B, I.getOperand(1)); return; }
            setSh(I, getSh(I.getOperand(0))[ci->getZExtValue()]); return; }
        case Instruction::InsertElement: {
            auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { concretize(B, I.getOperand(0)); concretize(B, I.getOperand(1)); concretize(B, I.getOperand(2)); return; }
            auto s = getSh(I.getOperand(0)); s[ci->getZExtValue()] = S(I.getOperand(1)); sh[&I] = s; return; }
        case Instruction::ShuffleVector: {
            auto& Sv = cast<ShuffleVectorInst>(I); auto a = getSh(I.getOperand(0)), b = getSh(I.getOperand(1)); Sh r;
            for (int m : Sv.getShuffleMask()) r.push_back(m < 0 ? (Value*)Null : m < (int)a.size() ? a[m] : b[m - a.size()]);
            sh[&I] = r; return; }
        case Instruction::Freeze: sh[&I] = getSh(I.getOperand(0)); return;
        case Instruction::Br: { auto& Br = cast<BranchInst>(I); if (Br.isConditional() && S(Br.getCondition()) != Null) B.CreateCall(rt("sxf_br", V, {P, I1}), {S(Br.getCondition()), Br.getCondition()}); return; }
        case Instruction::Switch: {
            auto& Sw = cast<SwitchInst>(I); Value* c = Sw.getCondition(); if (S(c) == Null) return;
            std::vector<Constant*> cs; for (auto& k : Sw.cases()) cs.push_back(ConstantInt::get(I64, k.getCaseValue()->getZExtValue()));
            auto* AT = ArrayType::get(I64, cs.size());
            auto* G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs), "sx_cases");
            B.CreateCall(rt("sxf_switch", V, {P, I32, I64, I32, P}), {S(c), c32(width(c->getType())), u64(B, c), c32(cs.size()), G}); return; }
        case Instruction::Ret: {
            if (I.getNumOperands() == 0) return; auto s = getSh(I.getOperand(0));
            for (unsigned i = 0; i < s.size() && i < 32; ++i) B.CreateStore(s[i], B.CreateConstGEP2_32(RetTy, gRet, 0, i)); return; }
        case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
        case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: for (auto& o : I.operands()) concretize(B, o); return;
        case Instruction::IndirectBr: errs() << "indirectbr unsupported\n"; exit(3);
        default: return;
        }
    }
    void storeShBlock(IRBuilder<>& B, Value* p, uint64_t n) { B.CreateCall(rt("sxf_clear", V, {P, I64}), {p, c64(n)}); }
    void offsets(Type* t, uint64_t base, SmallVectorImpl<uint64_t>& o) {
        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < s->getNumElements(); ++i) offsets(s->getElementType(i), base + DL.getStructLayout(s)->getElementOffset(i), o); return; }
        if (auto* a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); ++i) offsets(a->getElementType(), base + i * DL.getTypeAllocSize(a->getElementType()), o); return; }
        if (auto* v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) o.push_back(base + i * DL.getTypeAllocSize(v->getElementType())); return; }
        o.push_back(base);
    }
    Value* fbinE(IRBuilder<>& B, int op, unsigned w, Value* ea, Value* a, Value* eb, Value* b) {
        return B.CreateCall(rt("sxf_fbin", P, {I32, I32, P, F80, P, F80}), {c32(op), c32(w), ea, f80(B, a), eb, f80(B, b)});
    }
    Value* bitcastE(IRBuilder<>& B, Type* ft, Type* tt, Value* e) {
        if (e == Null) return Null;
        bool ff = isFP(ft), tf = isFP(tt);
        if (ff == tf) return e;
        return B.CreateCall(rt(ff ? "sxf_f2b" : "sxf_b2f", P, {I32, P}), {c32(width(tt)), e});
    }
    void vecFallback(IRBuilder<>& B, Instruction& I) { bool any = false; for (auto& o : I.operands()) if (anySym(o)) any = true; if (!any) return; if (warned.insert(std::string("vec ") + I.getOpcodeName()).second) errs() << "symx: vector op concretized: " << I << "\n"; for (auto& o : I.operands()) concretize(B, o); }

    void intrinsic(IntrinsicInst& I) {
        IRBuilder<> B(&I); IRBuilder<> A(I.getNextNode());
        auto id = I.getIntrinsicID();
        auto op = [&](unsigned i) { return I.getArgOperand(i); };
        switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            concretize(B, op(2)); addrN(B, op(0), op(2), 1); addrN(B, op(1), op(2), 0);
            B.CreateCall(rt("sxf_memcpy", V, {P, P, I64}), {op(0), op(1), B.CreateZExtOrTrunc(op(2), I64)}); return; }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            concretize(B, op(2)); addrN(B, op(0), op(2), 1);
            B.CreateCall(rt("sxf_memset", V, {P, P, I64}), {op(0), S(op(1)), B.CreateZExtOrTrunc(op(2), I64)}); return; }
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
            if (I.getType()->isVectorTy()) { vecFallback(B, I); return; }
            Value *a = op(0), *b = op(1); if (S(a) == Null && S(b) == Null) return;
            int pred = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
            unsigned w = width(I.getType());
            Value* ec = B.CreateCall(rt("sxf_icmp", P, {I32, I32, P, I64, P, I64}), {c32(pred), c32(w), S(a), u64(B, a), S(b), u64(B, b)});
            Value* c = B.CreateICmp((CmpInst::Predicate)pred, a, b);
            setSh(I, B.CreateCall(rt("sxf_select", P, {I32, P, I1, P, I64, P, I64}), {c32(w), ec, c, S(a), u64(B, a), S(b), u64(B, b)})); return; }
        case Intrinsic::abs: {
            Value* a = op(0); if (I.getType()->isVectorTy()) { vecFallback(B, I); return; } if (S(a) == Null) return; unsigned w = width(I.getType());
            Value* ec = B.CreateCall(rt("sxf_icmp", P, {I32, I32, P, I64, P, I64}), {c32(CmpInst::ICMP_SLT), c32(w), S(a), u64(B, a), Null, c64(0)});
            Value* neg = binE(B, SUB, w, Null, c64(0), S(a), u64(B, a)); Value* nc = B.CreateNeg(a);
            setSh(I, B.CreateCall(rt("sxf_select", P, {I32, P, I1, P, I64, P, I64}), {c32(w), ec, B.CreateICmpSLT(a, ConstantInt::get(a->getType(), 0)), neg, u64(B, nc), S(a), u64(B, a)})); return; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            Value *a = op(0), *b = op(1), *s = op(2); if (I.getType()->isVectorTy()) { vecFallback(B, I); return; }
            if (S(a) == Null && S(b) == Null && S(s) == Null) return;
            concretize(B, s); auto* ci = dyn_cast<ConstantInt>(s); if (!ci) { concretize(B, a); concretize(B, b); return; }
            unsigned w = width(I.getType()), k = ci->getZExtValue() % w; if (id == Intrinsic::fshr) k = (w - k) % w;
            if (k == 0) { setSh(I, id == Intrinsic::fshl ? S(a) : S(b)); return; }
            Value* x = binE(B, SHL, w, S(a), u64(B, a), Null, c64(k)); Value* cx = u64(B, B.CreateShl(a, k));
            Value* y = binE(B, LSHR, w, S(b), u64(B, b), Null, c64(w - k)); Value* cy = u64(B, B.CreateLShr(b, w - k));
            setSh(I, binE(B, OR, w, x, cx, y, cy)); return; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            Value *a = op(0), *b = op(1); if (S(a) == Null && S(b) == Null) return; unsigned w = width(a->getType());
            int o = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? ADD : id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow ? MUL : SUB;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            Value* r = binE(B, o, w, S(a), u64(B, a), S(b), u64(B, b));
            Value* ov = B.CreateCall(rt("sxf_overflow", P, {I32, I32, I32, P, I64, P, I64}), {c32(o), c32(sg), c32(w), S(a), u64(B, a), S(b), u64(B, b)});
            sh[&I] = Sh{r, ov}; return; }
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
            Value *a = op(0), *b = op(1); if (S(a) == Null && S(b) == Null) return; unsigned w = width(a->getType());
            if (id == Intrinsic::uadd_sat) { concretize(B, a); concretize(B, b); return; }
            Value* ec = B.CreateCall(rt("sxf_icmp", P, {I32, I32, P, I64, P, I64}), {c32(CmpInst::ICMP_ULT), c32(w), S(a), u64(B, a), S(b), u64(B, b)});
            Value* d = binE(B, SUB, w, S(a), u64(B, a), S(b), u64(B, b));
            setSh(I, B.CreateCall(rt("sxf_select", P, {I32, P, I1, P, I64, P, I64}), {c32(w), ec, B.CreateICmpULT(a, b), Null, c64(0), d, u64(B, B.CreateSub(a, b))})); return; }
        case Intrinsic::fabs: if (S(op(0)) != Null) setSh(I, B.CreateCall(rt("sxf_funop", P, {I32, I32, P}), {c32(1), c32(width(I.getType())), S(op(0))})); return;
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sqrt: case Intrinsic::roundeven: {
            int k = id == Intrinsic::floor ? 2 : id == Intrinsic::ceil ? 3 : id == Intrinsic::trunc ? 4 : id == Intrinsic::round ? 5 : id == Intrinsic::sqrt ? 7 : 6;
            if (S(op(0)) != Null) setSh(I, B.CreateCall(rt("sxf_funop", P, {I32, I32, P}), {c32(k), c32(width(I.getType())), S(op(0))})); return; }
        case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::maximum: case Intrinsic::minimum: {
            Value *a = op(0), *b = op(1); if (S(a) == Null && S(b) == Null) return; unsigned w = width(a->getType());
            bool mx = id == Intrinsic::maxnum || id == Intrinsic::maximum;
            auto pr = mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT;
            Value* ec = B.CreateCall(rt("sxf_fcmp", P, {I32, I32, P, F80, P, F80}), {c32(pr), c32(w), S(a), f80(B, a), S(b), f80(B, b)});
            setSh(I, B.CreateCall(rt("sxf_fselect", P, {I32, P, I1, P, F80, P, F80}), {c32(w), ec, B.CreateFCmp(pr, a, b), S(a), f80(B, a), S(b), f80(B, b)})); return; }
        case Intrinsic::fmuladd: case Intrinsic::fma: {
            Value *a = op(0), *b = op(1), *c = op(2); if (S(a) == Null && S(b) == Null && S(c) == Null) return; unsigned w = width(I.getType());
            Value* m = fbinE(B, 2, w, S(a), a, S(b), b); setSh(I, fbinE(B, 0, w, m, B.CreateFMul(a, b), S(c), c)); return; }
        case Intrinsic::is_fpclass: {
            if (S(op(0)) == Null) return;
            setSh(I, B.CreateCall(rt("sxf_fpclass", P, {I32, P, I64}), {c32(width(op(0)->getType())), S(op(0)), u64(B, op(1))})); return; }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: case Intrinsic::copysign: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: case Intrinsic::powi: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log:
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_fadd:
            for (auto& o : I.args()) if (anySym(o)) { if (warned.insert(Intrinsic::getBaseName(id).str()).second) errs() << "symx: intrinsic concretized: " << Intrinsic::getBaseName(id) << "\n"; concretize(B, o); } return;
        case Intrinsic::ptrmask: case Intrinsic::launder_invariant_group: case Intrinsic::expect: case Intrinsic::annotation: case Intrinsic::ssa_copy: sh[&I] = getSh(op(0)); return;
        default: return;
        }
    }
    void addrN(IRBuilder<>& B, Value* p, Value* n, int wr) { Value* s = B.CreateZExtOrTrunc(n, I64); addr(B, p, s, wr); }

    void call(CallBase& I) {
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) { intrinsic(*II); return; }
        if (I.isInlineAsm()) { return; }
        IRBuilder<> B(&I);
        Function* T = dyn_cast<Function>(I.getCalledOperand()->stripPointerCasts());
        bool instrumented = T && defs.count(T->getName().str());
        bool indirect = !T;
        Instruction* nx = isa<InvokeInst>(I) ? &*cast<InvokeInst>(I).getNormalDest()->getFirstInsertionPt() : (I.isTerminator() ? nullptr : I.getNextNode());
        if (indirect) concretize(B, I.getCalledOperand());
        if (instrumented || indirect) {
            unsigned slot = 0; bool any = false;
            for (unsigned a = 0; a < I.arg_size(); ++a) {
                auto s = getSh(I.getArgOperand(a));
                if (I.isByValArgument(a)) s[0] = I.getArgOperand(a);
                for (auto* x : s) { if (slot < 128) { B.CreateStore(x, B.CreateConstGEP2_32(ArgsTy, gArgs, 0, slot)); } ++slot; any = true; }
            }
            if (any) B.CreateStore(I.getCalledOperand(), gCallee);
            unsigned n = nleaves(I.getType());
            if (indirect) for (unsigned i = 0; i < n && i < 32; ++i) B.CreateStore(Null, B.CreateConstGEP2_32(RetTy, gRet, 0, i));
            if (n && nx) { IRBuilder<> A(nx); Sh s; for (unsigned i = 0; i < n; ++i) s.push_back(i < 32 ? (Value*)A.CreateLoad(P, A.CreateConstGEP2_32(RetTy, gRet, 0, i)) : (Value*)Null); sh[&I] = s; }
            return;
        }
        StringRef n = T->getName();
        if (rtShadow(n)) {
            if (nx) { IRBuilder<> A(nx); setSh(I, A.CreateLoad(P, A.CreateConstGEP2_32(RetTy, gRet, 0, 0))); }
            return;
        }
        if (rtNative(n)) {
            // size arguments of allocation functions must be concrete
            if (n == "sx_malloc" || n == "sx_calloc" || n == "sx_realloc" || n=="sx_pin" || n=="sx_pinf" || n == "sx_fail" ) for (auto& a : I.args()) concretize(B, a);
            if (n == "memcpy" ) {}
            return;
        }
        if (n == "memcpy" || n == "memmove" || n == "mempcpy") { concretize(B, I.getArgOperand(2)); addrN(B, I.getArgOperand(0), I.getArgOperand(2), 1); addrN(B, I.getArgOperand(1), I.getArgOperand(2), 0); B.CreateCall(rt("sxf_memcpy", V, {P, P, I64}), {I.getArgOperand(0), I.getArgOperand(1), I.getArgOperand(2)}); return; }
        if (n == "memset") { concretize(B, I.getArgOperand(2)); addrN(B, I.getArgOperand(0), I.getArgOperand(2), 1); Value* e = S(I.getArgOperand(1)); e = castE(B, 2, 32, 8, e); B.CreateCall(rt("sxf_memset", V, {P, P, I64}), {I.getArgOperand(0), e, I.getArgOperand(2)}); return; }
        if (n.starts_with("_ZN3fmt") || n.starts_with("__cxa_") || n.starts_with("_ZSt") || n.starts_with("__gxx") || n.starts_with("_Unwind") || n.starts_with("__clang_call_terminate") || n.starts_with("_ZNSt12out_of_range") || n.starts_with("_ZNSt16invalid_argument") || n.starts_with("_ZNSt13runtime_error") || n.starts_with("_ZNSt") || n == "abort" || n == "__assert_fail" || n == "fflush" || n == "__errno_location" || n == "printf" || n == "fprintf" || n == "puts" || n.starts_with("_ZNKSt")) {
            static std::set<std::string> quiet;
            if (getenv("SYMX_EXT") && quiet.insert(n.str()).second) errs() << "symx: external (ignored): " << n << "\n";
            if (n.starts_with("_ZNSt") || n.starts_with("_ZNKSt")) for (auto& a : I.args()) if (!a->getType()->isPointerTy()) concretize(B, a);
            return;
        }
        if (warned.insert(n.str()).second) errs() << "symx: external (concretized args): " << n << "\n";
        for (auto& a : I.args()) concretize(B, a);
    }
};

int main(int argc, char** argv) {
    if (argc < 6) { errs() << "usage: sympass in.bc libc.bc inline.bc out.bc funcs.txt [srcprefix]\n"; return 2; }
    if (argc > 6) ReproSrc = argv[6];
    LLVMContext Ctx; SMDiagnostic Err;
    auto M = parseIRFile(argv[1], Err, Ctx); if (!M) { Err.print("sympass", errs()); return 2; }
    auto L = parseIRFile(argv[2], Err, Ctx); if (!L) { Err.print("sympass", errs()); return 2; }
    if (Linker::linkModules(*M, std::move(L))) return 2;
    {   // scalarize vectors
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM; ScalarizerPassOptions O; O.ScalarizeLoadStore = true;
        MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(O)));
        MPM.run(*M, MAM);
    }
    for (auto& F : *M) for (auto& B : F) for (auto& I : B) I.dropPoisonGeneratingFlags();   // the instrumentation uses every value: none may be poison
    Instr X(*M); X.run();
    auto N = parseIRFile(argv[3], Err, Ctx); if (!N) { Err.print("sympass", errs()); return 2; }
    if (Linker::linkModules(*M, std::move(N))) return 2;
    if (verifyModule(*M, &errs())) { errs() << "sympass: broken module\n"; return 3; }
    std::error_code EC; raw_fd_ostream os(argv[4], EC); WriteBitcodeToFile(*M, os); os.close();
    raw_fd_ostream fo(argv[5], EC); for (auto& s : X.fnNames) fo << s << "\n";
    return 0;
}
