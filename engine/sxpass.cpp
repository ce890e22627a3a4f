// SX instrumentation pass (LLVM 18).  Turns ordinary LLVM IR into IR that
// executes concretely and, next to every integer value, carries a shadow
// pointer to a symbolic expression (null = concrete).  See DESIGN.md.
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <sstream>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {

static bool yieldMode() { return getenv("SX_YIELD") != nullptr; }
static std::string repoRoot() {
    const char* e = getenv("SX_REPO");
    return e ? e : "/repo";
}

typedef SmallVector<Value*, 2> Leaves;

// functions whose *declaration* understands the shadow calling convention
static bool isSxApi(StringRef n) { return n.starts_with("sx_"); }

// externals that neither look at the integer data reachable through their
// pointer arguments nor write integers that could be symbolic
static const char* kTransparent[] = {
    "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "malloc",
    "free", "_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t",
    "_ZdlPvmSt11align_val_t", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
    "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base",
    "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
    "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
    "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
    "__cxa_begin_catch", "__cxa_end_catch", "__cxa_allocate_exception",
    "__cxa_throw", "__cxa_rethrow", "__cxa_free_exception",
    "__gxx_personality_v0", "_Unwind_Resume", "__clang_call_terminate",
    "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
    "__cxa_atexit", "__cxa_pure_virtual", "abort", "_ZSt9terminatev",
    "__dynamic_cast", "gettimeofday"};

struct Instr {
    Module& M;
    LLVMContext& C;
    Type *I1, *I8, *I32, *I64, *Ptr, *Void;
    GlobalVariable *filter, *argBuf, *argTag, *retBuf, *retTag, *covArr;
    std::map<const DISubprogram*, int> covId;
    std::vector<std::string> covNames;
    const DataLayout& DL;
    bool yields;
    std::vector<std::string> yieldFiles;

    explicit Instr(Module& m)
        : M(m), C(m.getContext()), DL(m.getDataLayout()), yields(yieldMode()) {
        if (yields) {
            std::stringstream ss(getenv("SX_YIELD"));
            for (std::string f; std::getline(ss, f, ',');) if (f != "1") yieldFiles.push_back(f);
        }
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        Ptr = PointerType::get(C, 0);
        Void = Type::getVoidTy(C);
        auto ext = [&](const char* n, Type* t) {
            return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage,
                                      nullptr, n);
        };
        filter = ext("__sx_filter", ArrayType::get(I8, 65536));
        argBuf = ext("__sx_args", ArrayType::get(Ptr, 64));
        argTag = ext("__sx_argtag", Ptr);
        retBuf = ext("__sx_ret", ArrayType::get(Ptr, 16));
        retTag = ext("__sx_rettag", Ptr);
        covArr = ext("__sx_cov", ArrayType::get(I8, 16384));
    }

    // id of the /repo function the instruction comes from (through inlining)
    int repoScope(Instruction* I) {
        const DILocation* dl = I->getDebugLoc();
        if (!dl) return -1;
        const DISubprogram* sp = dl->getScope()->getSubprogram();
        if (!sp) return -1;
        auto it = covId.find(sp);
        if (it != covId.end()) return it->second;
        std::string file = sp->getFilename().str();
        if (!file.empty() && file[0] != '/') file = (sp->getDirectory() + "/" + file).str();
        std::string r = repoRoot() + "/";
        int id = -1;
        if (file.compare(0, r.size(), r) == 0 && covNames.size() < 16384) {
            id = covNames.size();
            covNames.push_back(file.substr(r.size()) + ":" + sp->getName().str());
        }
        covId[sp] = id;
        return id;
    }

    FunctionCallee fn(const char* name, Type* ret, std::vector<Type*> args) {
        return M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
    }

    static bool isIntLeaf(Type* t) {
        return t->isIntegerTy() && t->getIntegerBitWidth() <= 64;
    }

    // number of leaves of a first-class value
    unsigned numLeaves(Type* t) {
        if (auto* st = dyn_cast<StructType>(t)) {
            unsigned n = 0;
            for (auto* e : st->elements()) n += numLeaves(e);
            return n;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
            return at->getNumElements() * numLeaves(at->getElementType());
        return 1;
    }
    unsigned leafOffset(Type* t, ArrayRef<unsigned> idx) {
        unsigned off = 0;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; ++k)
                    off += numLeaves(st->getElementType(k));
                t = st->getElementType(i);
            } else {
                auto* at = cast<ArrayType>(t);
                off += i * numLeaves(at->getElementType());
                t = at->getElementType();
            }
        }
        return off;
    }

    Constant* nul() { return ConstantPointerNull::get(cast<PointerType>(Ptr)); }
    bool isNul(Value* v) { return isa<ConstantPointerNull>(v); }

    // ---------------------------------------------------------------- per fn
    struct FnCtx {
        Function* F;
        std::map<Value*, Leaves> sh;
        bool inRepo;
    };

    Leaves shadow(FnCtx& fc, Value* v) {
        auto it = fc.sh.find(v);
        if (it != fc.sh.end()) return it->second;
        Leaves l;
        unsigned n = numLeaves(v->getType());
        for (unsigned i = 0; i < n; ++i) l.push_back(nul());
        return l;
    }
    Value* sh1(FnCtx& fc, Value* v) {
        auto it = fc.sh.find(v);
        if (it == fc.sh.end()) return nul();
        return it->second[0];
    }
    void setSh(FnCtx& fc, Value* v, Value* s) {
        if (isNul(s)) return;
        fc.sh[v] = Leaves{s};
    }

    Value* toI64(IRBuilder<>& B, Value* v) {
        if (v->getType()->isIntegerTy(64)) return v;
        return B.CreateZExt(v, I64);
    }

    Value* anyNonNull(IRBuilder<>& B, ArrayRef<Value*> vs) {
        Value* acc = nullptr;
        for (Value* v : vs) {
            if (isNul(v)) continue;
            Value* p = B.CreateICmpNE(v, nul());
            acc = acc ? B.CreateOr(acc, p) : p;
        }
        return acc;
    }

    // emits  if (cond) r = body();  returns phi(r, null)
    template <class F>
    Value* guarded(Instruction* before, Value* cond, bool wantResult, F body) {
        Instruction* term = SplitBlockAndInsertIfThen(
            cond, before, false,
            MDNode::get(C, {MDString::get(C, "branch_weights"),
                            ConstantAsMetadata::get(ConstantInt::get(I32, 1)),
                            ConstantAsMetadata::get(ConstantInt::get(I32, 1000))}));
        BasicBlock* thenBB = term->getParent();
        BasicBlock* head = thenBB->getSinglePredecessor();
        IRBuilder<> B(term);
        Value* r = body(B);
        if (!wantResult) return nullptr;
        IRBuilder<> BB(before);
        PHINode* phi = BB.CreatePHI(Ptr, 2);
        phi->addIncoming(r, term->getParent());
        phi->addIncoming(nul(), head);
        (void)head;
        return phi;
    }

    Value* filterHit(IRBuilder<>& B, Value* p) {
        Value* a = B.CreatePtrToInt(p, I64);
        Value* idx = B.CreateAnd(B.CreateLShr(a, 12), ConstantInt::get(I64, 0xffff));
        Value* g = B.CreateInBoundsGEP(filter->getValueType(), filter,
                                       {ConstantInt::get(I64, 0), idx});
        return B.CreateICmpNE(B.CreateLoad(I8, g), ConstantInt::get(I8, 0));
    }

    // concretise value v (with shadow s) before instruction I
    void concretize(Instruction* I, Value* v, Value* s) {
        if (isNul(s)) return;
        IRBuilder<> B(I);
        Value* c = B.CreateICmpNE(s, nul());
        if (!v->getType()->isIntegerTy()) return;
        guarded(I, c, false, [&](IRBuilder<>& B2) -> Value* {
            B2.CreateCall(fn("__sx_concretize", Void, {Ptr, I32, I64}),
                          {s, ConstantInt::get(I32, v->getType()->getIntegerBitWidth()),
                           toI64(B2, v)});
            return nullptr;
        });
    }
    void concretizeAll(FnCtx& fc, Instruction* I, Value* v) {
        if (v->getType()->isIntegerTy()) concretize(I, v, sh1(fc, v));
        else if (v->getType()->isStructTy() || v->getType()->isArrayTy()) {
            Leaves l = shadow(fc, v);
            for (Value* s : l) {
                if (isNul(s)) continue;
                IRBuilder<> B(I);
                guarded(I, B.CreateICmpNE(s, nul()), false, [&](IRBuilder<>& B2) -> Value* {
                    B2.CreateCall(fn("__sx_concretize_self", Void, {Ptr}), {s});
                    return nullptr;
                });
            }
        }
    }

    // -------------------------------------------------------- memory helpers
    Value* emitLoad(Instruction* after, Value* p, Type* t, Value* conc) {
        IRBuilder<> B(after);
        uint64_t sz = DL.getTypeStoreSize(t);
        Value* hit = filterHit(B, p);
        if (isIntLeaf(t)) {
            return guarded(after, hit, true, [&](IRBuilder<>& B2) -> Value* {
                return B2.CreateCall(fn("__sx_load", Ptr, {Ptr, I32, I32, I64}),
                                     {p, ConstantInt::get(I32, sz),
                                      ConstantInt::get(I32, t->getIntegerBitWidth()),
                                      toI64(B2, conc)});
            });
        }
        guarded(after, hit, false, [&](IRBuilder<>& B2) -> Value* {
            B2.CreateCall(fn("__sx_load_opaque", Void, {Ptr, I64}),
                          {p, ConstantInt::get(I64, sz)});
            return nullptr;
        });
        return nul();
    }
    void emitStore(Instruction* before, Value* p, Type* t, Value* s, Value* v = nullptr) {
        IRBuilder<> B(before);
        uint64_t sz = DL.getTypeStoreSize(t);
        Value* cond = filterHit(B, p);
        if (!isNul(s)) cond = B.CreateOr(cond, B.CreateICmpNE(s, nul()));
        guarded(before, cond, false, [&](IRBuilder<>& B2) -> Value* {
            Value* cv = (v && v->getType()->isIntegerTy()) ? toI64(B2, v)
                                                          : (Value*)ConstantInt::get(I64, 0);
            B2.CreateCall(fn("__sx_store", Void, {Ptr, I64, I32, Ptr, I64}),
                          {p, ConstantInt::get(I64, sz),
                           ConstantInt::get(I32, t->isIntegerTy() ? t->getIntegerBitWidth() : 0),
                           s, cv});
            return nullptr;
        });
    }

    Instruction* nextInsert(Instruction* I) {
        if (auto* inv = dyn_cast<InvokeInst>(I)) {
            return &*inv->getNormalDest()->getFirstInsertionPt();
        }
        return I->getNextNode();
    }

    // scheduling points can be limited to some of the repository's files
    bool inYieldFile(Instruction* I) {
        for (const DILocation* dl = I->getDebugLoc(); dl; dl = dl->getInlinedAt()) {
            const DISubprogram* sp = dl->getScope()->getSubprogram();
            if (!sp) continue;
            std::string file = sp->getFilename().str();
            if (!file.empty() && file[0] != '/') file = (sp->getDirectory() + "/" + file).str();
            if (file.compare(0, repoRoot().size() + 1, repoRoot() + "/")) continue;
            for (auto& f : yieldFiles)
                if (file.find(f) != std::string::npos) return true;
            return false;
        }
        return false;
    }

    void emitYield(FnCtx& fc, Instruction* I, Value* p, int kind) {
        if (!yields || (!fc.inRepo && repoScope(I) < 0)) return;
        if (!yieldFiles.empty() && !inYieldFile(I)) return;
        // skip obvious locals
        Value* base = p;
        while (true) {
            base = base->stripPointerCasts();
            if (auto* g = dyn_cast<GetElementPtrInst>(base)) base = g->getPointerOperand();
            else break;
        }
        if (isa<AllocaInst>(base) || isa<GlobalVariable>(base)) return;
        // reading a container's buffer address: the access through it is a point of its own
        if (kind == 0 && I->getType()->isPointerTy()) return;
        IRBuilder<> B(I);
        B.CreateCall(fn("__sx_yield", Void, {Ptr, I32}),
                     {p, ConstantInt::get(I32, kind)});
    }

    bool instrumentedCallee(Function* callee) {
        return callee && !callee->isDeclaration();
    }

    int opcodeId(unsigned op) {
        switch (op) {
        case Instruction::Add: return 0;
        case Instruction::Sub: return 1;
        case Instruction::Mul: return 2;
        case Instruction::UDiv: return 3;
        case Instruction::SDiv: return 4;
        case Instruction::URem: return 5;
        case Instruction::SRem: return 6;
        case Instruction::Shl: return 7;
        case Instruction::LShr: return 8;
        case Instruction::AShr: return 9;
        case Instruction::And: return 10;
        case Instruction::Or: return 11;
        case Instruction::Xor: return 12;
        }
        return -1;
    }

    Value* emitBin(Instruction* before, int op, unsigned w, Value* sa, Value* a,
                   Value* sb, Value* b, Value* res) {
        IRBuilder<> B(before);
        Value* cond = anyNonNull(B, {sa, sb});
        if (!cond) return nul();
        return guarded(before, cond, true, [&](IRBuilder<>& B2) -> Value* {
            return B2.CreateCall(
                fn("__sx_bin", Ptr, {I32, I32, Ptr, I64, Ptr, I64, I64}),
                {ConstantInt::get(I32, op), ConstantInt::get(I32, w), sa,
                 toI64(B2, a), sb, toI64(B2, b), toI64(B2, res)});
        });
    }
    Value* emitCmp(Instruction* before, unsigned pred, unsigned w, Value* sa, Value* a,
                   Value* sb, Value* b, Value* res) {
        IRBuilder<> B(before);
        Value* cond = anyNonNull(B, {sa, sb});
        if (!cond) return nul();
        return guarded(before, cond, true, [&](IRBuilder<>& B2) -> Value* {
            return B2.CreateCall(
                fn("__sx_cmp", Ptr, {I32, I32, Ptr, I64, Ptr, I64, I64}),
                {ConstantInt::get(I32, pred), ConstantInt::get(I32, w), sa,
                 toI64(B2, a), sb, toI64(B2, b), toI64(B2, res)});
        });
    }
    Value* emitSelect(Instruction* before, unsigned w, Value* sc, Value* c,
                      Value* sa, Value* a, Value* sb, Value* b) {
        IRBuilder<> B(before);
        Value* cond = anyNonNull(B, {sc, sa, sb});
        if (!cond) return nul();
        return guarded(before, cond, true, [&](IRBuilder<>& B2) -> Value* {
            return B2.CreateCall(
                fn("__sx_select", Ptr, {I32, Ptr, I64, Ptr, I64, Ptr, I64}),
                {ConstantInt::get(I32, w), sc, toI64(B2, c), sa, toI64(B2, a), sb,
                 toI64(B2, b)});
        });
    }
    unsigned siteCounter = 0;
    void emitBranch(Instruction* before, Value* sc, Value* c) {
        if (isNul(sc)) return;
        IRBuilder<> B(before);
        unsigned site = ++siteCounter;
        guarded(before, B.CreateICmpNE(sc, nul()), false, [&](IRBuilder<>& B2) -> Value* {
            B2.CreateCall(fn("__sx_branch", Void, {Ptr, I64, I32}),
                          {sc, toI64(B2, c), ConstantInt::get(I32, site)});
            return nullptr;
        });
    }

    void handleIntrinsic(FnCtx& fc, IntrinsicInst* I) {
        switch (I->getIntrinsicID()) {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline: {
            auto* mt = cast<MemTransferInst>(I);
            concretizeAll(fc, I, mt->getLength());
            emitYield(fc, I, mt->getDest(), 1);
            IRBuilder<> B(I);
            B.CreateCall(fn("__sx_memcpy", Void, {Ptr, Ptr, I64}),
                         {mt->getDest(), mt->getSource(), toI64(B, mt->getLength())});
            return;
        }
        case Intrinsic::memset:
        case Intrinsic::memset_inline: {
            auto* ms = cast<MemSetInst>(I);
            concretizeAll(fc, I, ms->getLength());
            Value* s = sh1(fc, ms->getValue());
            IRBuilder<> B(I);
            B.CreateCall(fn("__sx_memset", Void, {Ptr, Ptr, I64, I64}),
                         {ms->getDest(), s, toI64(B, ms->getValue()),
                          toI64(B, ms->getLength())});
            return;
        }
        case Intrinsic::umin: case Intrinsic::umax:
        case Intrinsic::smin: case Intrinsic::smax: {
            if (!isIntLeaf(I->getType())) return;
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
            Value *sa = sh1(fc, a), *sb = sh1(fc, b);
            if (isNul(sa) && isNul(sb)) return;
            unsigned pred;
            switch (I->getIntrinsicID()) {
            case Intrinsic::umin: pred = CmpInst::ICMP_ULT; break;
            case Intrinsic::umax: pred = CmpInst::ICMP_UGT; break;
            case Intrinsic::smin: pred = CmpInst::ICMP_SLT; break;
            default: pred = CmpInst::ICMP_SGT;
            }
            unsigned w = I->getType()->getIntegerBitWidth();
            Instruction* nx = nextInsert(I);
            IRBuilder<> B(nx);
            Value* cmp = B.CreateICmp((CmpInst::Predicate)pred, a, b);
            Value* sc = emitCmp(nx, pred, w, sa, a, sb, b, cmp);
            setSh(fc, I, emitSelect(nx, w, sc, cmp, sa, a, sb, b));
            return;
        }
        case Intrinsic::usub_sat: {
            if (!isIntLeaf(I->getType())) return;
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
            Value *sa = sh1(fc, a), *sb = sh1(fc, b);
            if (isNul(sa) && isNul(sb)) return;
            unsigned w = I->getType()->getIntegerBitWidth();
            Instruction* nx = nextInsert(I);
            IRBuilder<> B(nx);
            Value* cmp = B.CreateICmpUGT(a, b);
            Value* sub = B.CreateSub(a, b);
            Value* sc = emitCmp(nx, CmpInst::ICMP_UGT, w, sa, a, sb, b, cmp);
            Value* ss = emitBin(nx, 1, w, sa, a, sb, b, sub);
            setSh(fc, I, emitSelect(nx, w, sc, cmp, ss, sub, nul(),
                                    ConstantInt::get(I->getType(), 0)));
            return;
        }
        case Intrinsic::abs: {
            Value* a = I->getArgOperand(0);
            Value* sa = sh1(fc, a);
            if (isNul(sa)) return;
            unsigned w = I->getType()->getIntegerBitWidth();
            Instruction* nx = nextInsert(I);
            IRBuilder<> B(nx);
            Constant* zero = ConstantInt::get(I->getType(), 0);
            Value* cmp = B.CreateICmpSLT(a, zero);
            Value* neg = B.CreateNeg(a);
            Value* sc = emitCmp(nx, CmpInst::ICMP_SLT, w, sa, a, nul(), zero, cmp);
            Value* sn = emitBin(nx, 1, w, nul(), zero, sa, a, neg);
            setSh(fc, I, emitSelect(nx, w, sc, cmp, sn, neg, sa, a));
            return;
        }
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
            setSh(fc, I, sh1(fc, I->getArgOperand(0)));
            return;
        case Intrinsic::assume: case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl:
            return;
        default:
            for (Value* a : I->args()) concretizeAll(fc, I, a);
        }
    }

    void handleCall(FnCtx& fc, CallBase* CB) {
        if (auto* II = dyn_cast<IntrinsicInst>(CB)) { handleIntrinsic(fc, II); return; }
        if (CB->isInlineAsm()) {
            for (Value* a : CB->args()) concretizeAll(fc, CB, a);
            return;
        }
        Function* callee = CB->getCalledFunction();
        if (!callee)
            if (auto* f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
                callee = f;
        StringRef name = callee ? callee->getName() : "";
        if (name.starts_with("__sx_")) return;
        bool direct = callee != nullptr;
        bool aware = !direct || instrumentedCallee(callee) || isSxApi(name);
        if (aware) {
            // pass argument shadows
            IRBuilder<> B(CB);
            Value* tag = CB->getCalledOperand();
            unsigned slot = 0;
            for (unsigned i = 0; i < CB->arg_size() && slot < 60; ++i) {
                Value* a = CB->getArgOperand(i);
                if (CB->isByValArgument(i)) {
                    Value* g = B.CreateConstInBoundsGEP2_64(argBuf->getValueType(), argBuf, 0, slot++);
                    B.CreateStore(a, g);
                    continue;
                }
                Leaves l = shadow(fc, a);
                for (Value* s : l) {
                    if (slot >= 60) break;
                    Value* g = B.CreateConstInBoundsGEP2_64(argBuf->getValueType(), argBuf, 0, slot++);
                    B.CreateStore(s, g);
                }
            }
            B.CreateStore(tag, argTag);
            B.CreateStore(nul(), retTag);
            unsigned n = CB->getType()->isVoidTy() ? 0 : numLeaves(CB->getType());
            if (n && n <= 16) {
                Instruction* nx;
                if (auto* inv = dyn_cast<InvokeInst>(CB)) {
                    BasicBlock* nd = inv->getNormalDest();
                    if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front()))
                        nd = SplitEdge(inv->getParent(), nd);
                    nx = &*nd->getFirstInsertionPt();
                } else nx = CB->getNextNode();
                IRBuilder<> B2(nx);
                Value* match = B2.CreateICmpEQ(B2.CreateLoad(Ptr, retTag), tag);
                Leaves out;
                std::vector<Type*> lt;
                collectLeafTypes(CB->getType(), lt);
                bool any = false;
                for (unsigned i = 0; i < n; ++i) {
                    if (!isIntLeaf(lt[i])) { out.push_back(nul()); continue; }
                    any = true;
                    Value* g = B2.CreateConstInBoundsGEP2_64(retBuf->getValueType(), retBuf, 0, i);
                    out.push_back(B2.CreateSelect(match, B2.CreateLoad(Ptr, g), nul()));
                }
                if (any) fc.sh[CB] = out;
            }
            return;
        }
        // external function
        if (name.starts_with("__kmpc_") || name.starts_with("omp_")) {
            bool init = name.contains("static_init");
            for (Value* a : CB->args()) {
                concretizeAll(fc, CB, a);
                if (init && a->getType()->isPointerTy() && !isa<Constant>(a)) {
                    IRBuilder<> B(CB);
                    B.CreateCall(fn("__sx_extern_ptr", Void, {Ptr, Ptr}),
                                 {a, B.CreateGlobalStringPtr(name)});
                }
            }
            return;
        }
        for (const char* t : kTransparent)
            if (name == t) {
                // sizes etc. must be concrete
                for (Value* a : CB->args()) concretizeAll(fc, CB, a);
                if (name == "_Znwm" || name == "_Znam" || name == "malloc") {
                    Instruction* nx;
                    if (auto* inv = dyn_cast<InvokeInst>(CB)) {
                        BasicBlock* nd = inv->getNormalDest();
                        if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front()))
                            nd = SplitEdge(inv->getParent(), nd);
                        nx = &*nd->getFirstInsertionPt();
                    } else nx = CB->getNextNode();
                    IRBuilder<> B(nx);
                    B.CreateCall(fn("__sx_clear", Void, {Ptr, I64}),
                                 {CB, CB->getArgOperand(0)});
                }
                return;
            }
        if (name == "memcpy" || name == "memmove") {
            concretizeAll(fc, CB, CB->getArgOperand(2));
            IRBuilder<> B(CB);
            B.CreateCall(fn("__sx_memcpy", Void, {Ptr, Ptr, I64}),
                         {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
            return;
        }
        if (name == "memset") {
            concretizeAll(fc, CB, CB->getArgOperand(2));
            IRBuilder<> B(CB);
            B.CreateCall(fn("__sx_memset", Void, {Ptr, Ptr, I64, I64}),
                         {CB->getArgOperand(0), sh1(fc, CB->getArgOperand(1)),
                          toI64(B, CB->getArgOperand(1)), CB->getArgOperand(2)});
            return;
        }
        // default: everything the callee can see directly becomes concrete
        for (Value* a : CB->args()) {
            concretizeAll(fc, CB, a);
            if (a->getType()->isPointerTy() && !isa<Constant>(a)) {
                IRBuilder<> B(CB);
                B.CreateCall(fn("__sx_extern_ptr", Void, {Ptr, Ptr}),
                             {a, B.CreateGlobalStringPtr(name)});
            }
        }
        if (name.starts_with("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istream") &&
            CB->arg_size() >= 2) {
            Instruction* nx = nextInsert(CB);
            if (auto* inv = dyn_cast<InvokeInst>(CB)) {
                BasicBlock* nd = inv->getNormalDest();
                if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front()))
                    nd = SplitEdge(inv->getParent(), nd);
                nx = &*nd->getFirstInsertionPt();
            }
            IRBuilder<> B(nx);
            B.CreateCall(fn("__sx_after_getline", Void, {Ptr, Ptr}),
                         {CB->getArgOperand(0), CB->getArgOperand(1)});
        }
    }

    void collectLeafTypes(Type* t, std::vector<Type*>& out) {
        if (auto* st = dyn_cast<StructType>(t)) {
            for (auto* e : st->elements()) collectLeafTypes(e, out);
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
            for (uint64_t i = 0; i < at->getNumElements(); ++i)
                collectLeafTypes(at->getElementType(), out);
        } else out.push_back(t);
    }

    void instrument(Function& F) {
        FnCtx fc;
        fc.F = &F;
        fc.inRepo = fromRepo(F);
        F.removeFnAttr(Attribute::Memory);
        // coverage marks: one byte store per (block, repo function)
        std::vector<std::pair<Instruction*, int>> marks;
        for (BasicBlock& BB : F) {
            std::set<int> seen;
            for (Instruction& I : BB) {
                if (isa<DbgInfoIntrinsic>(&I) || isa<PHINode>(&I)) continue;
                int id = repoScope(&I);
                if (id >= 0 && seen.insert(id).second)
                    marks.push_back({&*BB.getFirstInsertionPt(), id});
            }
        }
        // split critical normal edges of invokes up-front is done lazily
        std::vector<Instruction*> work;
        std::vector<PHINode*> phis;
        ReversePostOrderTraversal<Function*> rpot(&F);
        for (BasicBlock* BB : rpot)
            for (Instruction& I : *BB) {
                if (auto* p = dyn_cast<PHINode>(&I)) phis.push_back(p);
                else work.push_back(&I);
            }

        // entry: argument shadows
        {
            Instruction* ip = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
            // allocas first
            std::vector<AllocaInst*> allocas;
            for (Instruction& I : F.getEntryBlock()) {
                if (&I == ip) break;
                if (auto* a = dyn_cast<AllocaInst>(&I)) allocas.push_back(a);
            }
            IRBuilder<> B(ip);
            std::vector<std::pair<Argument*, unsigned>> intArgs, byvalArgs;
            unsigned slot = 0;
            for (Argument& A : F.args()) {
                if (A.hasByValAttr()) { byvalArgs.push_back({&A, slot}); slot += 1; continue; }
                intArgs.push_back({&A, slot});
                slot += numLeaves(A.getType());
                if (slot >= 60) break;
            }
            bool needs = !byvalArgs.empty();
            for (auto& [A, s] : intArgs) {
                std::vector<Type*> lt;
                collectLeafTypes(A->getType(), lt);
                for (auto* t : lt) if (isIntLeaf(t)) needs = true;
            }
            if (needs) {
                Value* self = &F;
                Value* match = B.CreateICmpEQ(B.CreateLoad(Ptr, argTag), self);
                B.CreateStore(nul(), argTag);
                for (auto& [A, s] : intArgs) {
                    std::vector<Type*> lt;
                    collectLeafTypes(A->getType(), lt);
                    Leaves l;
                    bool any = false;
                    for (unsigned i = 0; i < lt.size() && s + i < 60; ++i) {
                        if (isIntLeaf(lt[i])) {
                            Value* g = B.CreateConstInBoundsGEP2_64(argBuf->getValueType(), argBuf, 0, s + i);
                            l.push_back(B.CreateSelect(match, B.CreateLoad(Ptr, g), nul()));
                            any = true;
                        } else l.push_back(nul());
                    }
                    if (any) fc.sh[A] = l;
                }
                for (auto& [A, s] : byvalArgs) {
                    Value* g = B.CreateConstInBoundsGEP2_64(argBuf->getValueType(), argBuf, 0, s);
                    Value* src = B.CreateSelect(match, B.CreateLoad(Ptr, g), nul());
                    B.CreateCall(fn("__sx_byval", Void, {Ptr, Ptr, I64}),
                                 {A, src, ConstantInt::get(I64, DL.getTypeAllocSize(A->getParamByValType()))});
                }
            }
            for (auto* a : allocas) {
                if (a->isArrayAllocation() && !isa<ConstantInt>(a->getArraySize())) continue;
                uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType());
                if (auto* ci = dyn_cast<ConstantInt>(a->getArraySize())) sz *= ci->getZExtValue();
                B.CreateCall(fn("__sx_clear", Void, {Ptr, I64}), {a, ConstantInt::get(I64, sz)});
            }
        }

        // shadow phis
        for (PHINode* p : phis) {
            std::vector<Type*> lt;
            collectLeafTypes(p->getType(), lt);
            Leaves l;
            bool any = false;
            for (auto* t : lt) {
                if (isIntLeaf(t)) {
                    PHINode* sp = PHINode::Create(Ptr, p->getNumIncomingValues(), "", p);
                    l.push_back(sp);
                    any = true;
                } else l.push_back(nul());
            }
            if (any) fc.sh[p] = l;
        }
        // remember original incoming blocks; block splitting keeps phi uses in
        // sync because SplitBlock updates successor phis (incl. shadow phis only
        // if they already have entries), so fill placeholders now.
        for (PHINode* p : phis) {
            auto it = fc.sh.find(p);
            if (it == fc.sh.end()) continue;
            for (Value* s : it->second)
                if (auto* sp = dyn_cast<PHINode>(s))
                    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                        sp->addIncoming(nul(), p->getIncomingBlock(i));
        }

        for (auto& [ip, id] : marks) {
            if (ip->getParent() == &F.getEntryBlock() && isa<AllocaInst>(ip))
                ip = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
            IRBuilder<> B(ip);
            B.CreateStore(ConstantInt::get(I8, 1),
                          B.CreateConstInBoundsGEP2_64(covArr->getValueType(), covArr, 0, id));
        }
        for (Instruction* I : work) instrumentInst(fc, I);

        for (PHINode* p : phis) {
            auto it = fc.sh.find(p);
            if (it == fc.sh.end()) continue;
            for (unsigned k = 0; k < it->second.size(); ++k)
                if (auto* sp = dyn_cast<PHINode>(it->second[k]))
                    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
                        BasicBlock* bb = p->getIncomingBlock(i);
                        Leaves l = shadow(fc, p->getIncomingValue(i));
                        int idx = -1;
                        // entries correspond one to one unless an edge was split
                        for (unsigned j = 0; j < sp->getNumIncomingValues(); ++j)
                            if (sp->getIncomingBlock(j) == bb) idx = j;
                        if (idx < 0) report_fatal_error("sx: phi mismatch");
                        for (unsigned j = 0; j < sp->getNumIncomingValues(); ++j)
                            if (sp->getIncomingBlock(j) == bb) sp->setIncomingValue(j, l[k]);
                    }
        }
    }

    void instrumentInst(FnCtx& fc, Instruction* I) {
        if (auto* bo = dyn_cast<BinaryOperator>(I)) {
            if (!isIntLeaf(I->getType())) {
                if (I->getType()->isIntegerTy()) {  // wide ints
                    concretizeAll(fc, I, bo->getOperand(0));
                    concretizeAll(fc, I, bo->getOperand(1));
                }
                return;
            }
            Value *sa = sh1(fc, bo->getOperand(0)), *sb = sh1(fc, bo->getOperand(1));
            if (isNul(sa) && isNul(sb)) return;
            setSh(fc, I, emitBin(I->getNextNode(), opcodeId(bo->getOpcode()),
                                 I->getType()->getIntegerBitWidth(), sa,
                                 bo->getOperand(0), sb, bo->getOperand(1), I));
            return;
        }
        if (auto* ic = dyn_cast<ICmpInst>(I)) {
            Type* t = ic->getOperand(0)->getType();
            if (!isIntLeaf(t)) {
                concretizeAll(fc, I, ic->getOperand(0));
                concretizeAll(fc, I, ic->getOperand(1));
                return;
            }
            Value *sa = sh1(fc, ic->getOperand(0)), *sb = sh1(fc, ic->getOperand(1));
            if (isNul(sa) && isNul(sb)) return;
            setSh(fc, I, emitCmp(I->getNextNode(), ic->getPredicate(),
                                 t->getIntegerBitWidth(), sa, ic->getOperand(0), sb,
                                 ic->getOperand(1), I));
            return;
        }
        if (auto* ci = dyn_cast<CastInst>(I)) {
            Value* s = sh1(fc, ci->getOperand(0));
            if (isNul(s)) return;
            Type* st = ci->getSrcTy();
            if (isIntLeaf(st) && isIntLeaf(ci->getDestTy()) &&
                (isa<TruncInst>(ci) || isa<ZExtInst>(ci) || isa<SExtInst>(ci))) {
                int op = isa<TruncInst>(ci) ? 0 : isa<ZExtInst>(ci) ? 1 : 2;
                Instruction* nx = I->getNextNode();
                IRBuilder<> B(nx);
                Value* cond = B.CreateICmpNE(s, nul());
                setSh(fc, I, guarded(nx, cond, true, [&](IRBuilder<>& B2) -> Value* {
                    return B2.CreateCall(
                        fn("__sx_cast", Ptr, {I32, I32, I32, Ptr, I64, I64}),
                        {ConstantInt::get(I32, op),
                         ConstantInt::get(I32, st->getIntegerBitWidth()),
                         ConstantInt::get(I32, ci->getDestTy()->getIntegerBitWidth()),
                         s, toI64(B2, ci->getOperand(0)), toI64(B2, I)});
                }));
                return;
            }
            concretizeAll(fc, I, ci->getOperand(0));
            return;
        }
        if (auto* si = dyn_cast<SelectInst>(I)) {
            Value* c = si->getCondition();
            if (!c->getType()->isIntegerTy(1)) return;
            Value* sc = sh1(fc, c);
            if (isIntLeaf(I->getType())) {
                Value *sa = sh1(fc, si->getTrueValue()), *sb = sh1(fc, si->getFalseValue());
                if (isNul(sc) && isNul(sa) && isNul(sb)) return;
                setSh(fc, I, emitSelect(I->getNextNode(), I->getType()->getIntegerBitWidth(),
                                        sc, c, sa, si->getTrueValue(), sb, si->getFalseValue()));
                return;
            }
            emitBranch(I, sc, c);
            if (I->getType()->isStructTy() || I->getType()->isArrayTy()) {
                Leaves a = shadow(fc, si->getTrueValue()), b = shadow(fc, si->getFalseValue());
                IRBuilder<> B(I->getNextNode());
                Leaves o;
                for (unsigned i = 0; i < a.size(); ++i)
                    o.push_back(isNul(a[i]) && isNul(b[i]) ? (Value*)nul() : B.CreateSelect(c, a[i], b[i]));
                fc.sh[I] = o;
            }
            return;
        }
        if (auto* fr = dyn_cast<FreezeInst>(I)) {
            auto it = fc.sh.find(fr->getOperand(0));
            if (it != fc.sh.end()) fc.sh[I] = it->second;
            return;
        }
        if (auto* ld = dyn_cast<LoadInst>(I)) {
            emitYield(fc, I, ld->getPointerOperand(), ld->isAtomic() ? 2 : 0);
            if (auto* ga = dyn_cast<GlobalVariable>(ld->getPointerOperand()))
                if (ga->isConstant()) return;
            Type* t = ld->getType();
            setSh(fc, I, emitLoad(I->getNextNode(), ld->getPointerOperand(), t, I));
            return;
        }
        if (auto* st = dyn_cast<StoreInst>(I)) {
            emitYield(fc, I, st->getPointerOperand(), st->isAtomic() ? 3 : 1);
            Value* v = st->getValueOperand();
            Type* t = v->getType();
            if (isIntLeaf(t)) emitStore(I, st->getPointerOperand(), t, sh1(fc, v), v);
            else {
                concretizeAll(fc, I, v);
                emitStore(I, st->getPointerOperand(), t, nul());
            }
            return;
        }
        if (auto* rmw = dyn_cast<AtomicRMWInst>(I)) {
            emitYield(fc, I, rmw->getPointerOperand(), 4);
            Value* v = rmw->getValOperand();
            Value* p = rmw->getPointerOperand();
            if (!isIntLeaf(v->getType())) {
                emitStore(I, p, v->getType(), nul());
                return;
            }
            unsigned w = v->getType()->getIntegerBitWidth();
            Instruction* nx = I->getNextNode();
            // memory now holds the new value, shadow memory still the old one
            Value* old = emitLoad(nx, p, v->getType(), I);
            Value* sv = sh1(fc, v);
            Value* neu = nul();
            IRBuilder<> B(nx);
            auto bin = [&](int op, Value* res) { return emitBin(nx, op, w, old, I, sv, v, res); };
            switch (rmw->getOperation()) {
            case AtomicRMWInst::Xchg: neu = sv; break;
            case AtomicRMWInst::Add: neu = bin(0, B.CreateAdd(I, v)); break;
            case AtomicRMWInst::Sub: neu = bin(1, B.CreateSub(I, v)); break;
            case AtomicRMWInst::And: neu = bin(10, B.CreateAnd(I, v)); break;
            case AtomicRMWInst::Or: neu = bin(11, B.CreateOr(I, v)); break;
            case AtomicRMWInst::Xor: neu = bin(12, B.CreateXor(I, v)); break;
            default:
                concretize(nx, I, old);
                concretize(nx, v, sv);
            }
            emitStore(nx, p, v->getType(), neu);
            setSh(fc, I, old);
            return;
        }
        if (auto* cx = dyn_cast<AtomicCmpXchgInst>(I)) {
            emitYield(fc, I, cx->getPointerOperand(), 5);
            Value* p = cx->getPointerOperand();
            Value *e = cx->getCompareOperand(), *n = cx->getNewValOperand();
            if (!isIntLeaf(e->getType())) { return; }
            unsigned w = e->getType()->getIntegerBitWidth();
            Instruction* nx = I->getNextNode();
            IRBuilder<> B(nx);
            Value* oldv = B.CreateExtractValue(I, {0});
            Value* ok = B.CreateExtractValue(I, {1});
            Value* old = emitLoad(nx, p, e->getType(), oldv);
            Value* sc = emitCmp(nx, CmpInst::ICMP_EQ, w, old, oldv, sh1(fc, e), e, ok);
            emitBranch(nx, sc, ok);
            IRBuilder<> B3(nx);
            guarded(nx, ok, false, [&](IRBuilder<>& B2) -> Value* {
                B2.CreateCall(fn("__sx_store", Void, {Ptr, I64, I32, Ptr, I64}),
                              {p, ConstantInt::get(I64, DL.getTypeStoreSize(e->getType())),
                               ConstantInt::get(I32, w), sh1(fc, n), toI64(B2, n)});
                return nullptr;
            });
            fc.sh[I] = Leaves{old, nul()};
            return;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
            for (Value* ix : g->indices()) concretizeAll(fc, I, ix);
            return;
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(I)) {
            auto it = fc.sh.find(ev->getAggregateOperand());
            if (it == fc.sh.end()) return;
            unsigned off = leafOffset(ev->getAggregateOperand()->getType(), ev->getIndices());
            Leaves l;
            for (unsigned i = 0; i < numLeaves(I->getType()); ++i) l.push_back(it->second[off + i]);
            fc.sh[I] = l;
            return;
        }
        if (auto* iv = dyn_cast<InsertValueInst>(I)) {
            Leaves l = shadow(fc, iv->getAggregateOperand());
            unsigned off = leafOffset(I->getType(), iv->getIndices());
            Leaves v = shadow(fc, iv->getInsertedValueOperand());
            for (unsigned i = 0; i < v.size(); ++i) l[off + i] = v[i];
            fc.sh[I] = l;
            return;
        }
        if (auto* br = dyn_cast<BranchInst>(I)) {
            if (br->isConditional()) emitBranch(I, sh1(fc, br->getCondition()), br->getCondition());
            return;
        }
        if (auto* sw = dyn_cast<SwitchInst>(I)) {
            Value* s = sh1(fc, sw->getCondition());
            if (isNul(s)) return;
            // pass the case table
            std::vector<Constant*> vals;
            for (auto& c : sw->cases())
                vals.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
            auto* at = ArrayType::get(I64, vals.size());
            auto* gv = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage,
                                          ConstantArray::get(at, vals), "sxsw");
            IRBuilder<> B(I);
            unsigned site = ++siteCounter;
            guarded(I, B.CreateICmpNE(s, nul()), false, [&](IRBuilder<>& B2) -> Value* {
                B2.CreateCall(fn("__sx_switch", Void, {Ptr, I32, I64, Ptr, I32, I32}),
                              {s, ConstantInt::get(I32, sw->getCondition()->getType()->getIntegerBitWidth()),
                               toI64(B2, sw->getCondition()), gv,
                               ConstantInt::get(I32, vals.size()), ConstantInt::get(I32, site)});
                return nullptr;
            });
            return;
        }
        if (auto* rt = dyn_cast<ReturnInst>(I)) {
            Value* v = rt->getReturnValue();
            if (!v) return;
            Leaves l = shadow(fc, v);
            if (l.size() > 16) { concretizeAll(fc, I, v); return; }
            IRBuilder<> B(I);
            for (unsigned i = 0; i < l.size(); ++i)
                B.CreateStore(l[i], B.CreateConstInBoundsGEP2_64(retBuf->getValueType(), retBuf, 0, i));
            B.CreateStore(fc.F, retTag);
            return;
        }
        if (auto* cb = dyn_cast<CallBase>(I)) { handleCall(fc, cb); return; }
        if (isa<AllocaInst>(I)) { concretizeAll(fc, I, I->getOperand(0)); return; }
        if (I->getNumOperands())
            for (Value* v : I->operands())
                if (!isa<BasicBlock>(v)) concretizeAll(fc, I, v);
    }

    void runYields() {
        for (Function& F : M) {
            if (F.isDeclaration()) continue;
            FnCtx fc;
            fc.F = &F;
            fc.inRepo = fromRepo(F);
            std::vector<Instruction*> work;
            for (BasicBlock& BB : F)
                for (Instruction& I : BB) work.push_back(&I);
            for (Instruction* I : work) {
                if (auto* ld = dyn_cast<LoadInst>(I)) emitYield(fc, I, ld->getPointerOperand(), ld->isAtomic() ? 2 : 0);
                else if (auto* st = dyn_cast<StoreInst>(I)) emitYield(fc, I, st->getPointerOperand(), st->isAtomic() ? 3 : 1);
                else if (auto* r = dyn_cast<AtomicRMWInst>(I)) emitYield(fc, I, r->getPointerOperand(), 4);
                else if (auto* c = dyn_cast<AtomicCmpXchgInst>(I)) emitYield(fc, I, c->getPointerOperand(), 5);
                else if (auto* m = dyn_cast<MemTransferInst>(I)) emitYield(fc, I, m->getDest(), 1);
            }
        }
    }

    bool fromRepo(Function& F) {
        if (auto* sp = F.getSubprogram()) {
            std::string file = sp->getFilename().str();
            if (!file.empty() && file[0] != '/')
                file = (sp->getDirectory() + "/" + file).str();
            std::string r = repoRoot() + "/";
            return file.compare(0, r.size(), r) == 0;
        }
        return false;
    }

    bool run() {
        std::vector<Function*> todo;
        for (Function& F : M)
            if (!F.isDeclaration() && !F.getName().starts_with("__sx_") &&
                !F.getName().starts_with("llvm.") &&
                F.getLinkage() != GlobalValue::AvailableExternallyLinkage &&
                !F.getName().starts_with("_GLOBAL__") &&
                F.getName() != "__clang_call_terminate")
                todo.push_back(&F);
        // available_externally bodies would be dropped: treat as external
        for (Function& F : M)
            if (F.hasAvailableExternallyLinkage()) F.deleteBody();
        for (Function* F : todo) instrument(*F);
        // function table
        std::string tab;
        for (auto& s : covNames) tab += s + "\n";
        auto* cda = ConstantDataArray::getString(C, tab, true);
        auto* gv = new GlobalVariable(M, cda->getType(), true, GlobalValue::PrivateLinkage, cda, "sxcov");
        // constructor registering the table
        FunctionType* ft = FunctionType::get(Void, false);
        Function* ctor = Function::Create(ft, GlobalValue::InternalLinkage, "__sx_ctor", M);
        IRBuilder<> B(BasicBlock::Create(C, "", ctor));
        B.CreateCall(fn("__sx_register", Void, {Ptr}), {gv});
        B.CreateRetVoid();
        appendToGlobalCtors(M, ctor, 0);
        return true;
    }
};

struct SxPass : PassInfoMixin<SxPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        if (getenv("SX_NATIVE")) {  // replay build: scheduling points only
            if (yieldMode()) Instr(M).runYields();
            return PreservedAnalyses::none();
        }
        Instr(M).run();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

// keeps modelled functions out of line so that the final pass still sees them
struct SxMark : PassInfoMixin<SxMark> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        // environment: threads, locks, clocks are provided by the runtime
        static const char* kRename[][2] = {
            {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "sx_thread_start"},
            {"_ZNSt6thread4joinEv", "sx_thread_join"},
            {"pthread_mutex_lock", "sx_mutex_lock"},
            {"pthread_mutex_trylock", "sx_mutex_trylock"},
            {"pthread_mutex_unlock", "sx_mutex_unlock"},
            {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "sx_cv_wait"},
            {"_ZNSt18condition_variable10notify_oneEv", "sx_cv_notify_one"},
            {"_ZNSt18condition_variable10notify_allEv", "sx_cv_notify_all"},
            {"_ZNSt18condition_variableC1Ev", "sx_cv_nop"},
            {"_ZNSt18condition_variableD1Ev", "sx_cv_nop"},
            {"pthread_cond_clockwait", "sx_cond_clockwait"},
            {"pthread_once", "sx_once"},
            {"pthread_cond_timedwait", "sx_cond_timedwait"},
            {"sched_yield", "sx_sched_yield"},
            {"usleep", "sx_usleep"},
            {"nanosleep", "sx_nanosleep"},
            {"clock_nanosleep", "sx_clock_nanosleep"},
            {"sched_getcpu", "sx_getcpu"},
            {"pthread_setaffinity_np", "sx_affinity"},
            {"gettimeofday", "sx_gettimeofday"},
            {"time", "sx_time"},
            {"_ZNSt6chrono3_V212system_clock3nowEv", "sx_clock_now"},
            {"_ZNSt6chrono3_V212steady_clock3nowEv", "sx_clock_now"},
        };
        for (auto& r : kRename)
            if (Function* f = M.getFunction(r[0]))
                if (f->isDeclaration()) {
                    auto g = M.getOrInsertFunction(r[1], f->getFunctionType());
                    f->replaceAllUsesWith(g.getCallee());
                }
        for (Function& F : M) {
            StringRef n = F.getName();
            if (n.contains("mersenne_twister_engine") && n.ends_with("clEv")) {
                F.removeFnAttr(Attribute::AlwaysInline);
                F.addFnAttr(Attribute::NoInline);
                // model hook: replace the generator's result
                for (BasicBlock& BB : F)
                    if (auto* r = dyn_cast<ReturnInst>(BB.getTerminator())) {
                        IRBuilder<> B(r);
                        Type* i64 = B.getInt64Ty();
                        auto f = M.getOrInsertFunction(
                            "sx_model_random", FunctionType::get(i64, {i64}, false));
                        Value* v = r->getReturnValue();
                        if (!v) continue;
                        Value* w = B.CreateCall(f, {B.CreateZExtOrTrunc(v, i64)});
                        r->setOperand(0, B.CreateZExtOrTrunc(w, v->getType()));
                    }
            }
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
                PB.registerPipelineStartEPCallback(
                    [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxMark()); });
                PB.registerOptimizerLastEPCallback(
                    [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
            }};
}
