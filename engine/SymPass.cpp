// LLVM pass: replaces every scalar double operation of a module by a call into
// the symbolic runtime (rt.cpp).  Runs at the very start of the pipeline, before
// any optimisation, on the IR clang generates from the unmodified sources.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <map>
#include <set>
using namespace llvm;

namespace {
static const std::set<std::string> LIBM = {
    "exp","exp2","expm1","log","log2","log10","log1p","pow","sqrt","cbrt","sin","cos","tan","asin","acos","atan",
    "atan2","sinh","cosh","tanh","hypot","lgamma","tgamma","floor","ceil","round","trunc","rint","nearbyint","fabs",
    "fmod","fmin","fmax","fma","erf","erfc","lgamma_r","gsl_ran_binomial_pdf","copysign","lround","llround"};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *I1 = Type::getInt1Ty(C);
    Type *P = PointerType::getUnqual(C), *V = Type::getVoidTy(C);
    bool mem = getenv("SYM_MEM") && atoi(getenv("SYM_MEM"));
    bool memonly = mem && atoi(getenv("SYM_MEM")) == 2;   // native build: only the access tracking
    auto fn = [&](StringRef n, Type *r, ArrayRef<Type *> a) {
      FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
      if (auto *F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
      return f;
    };
    std::vector<Function *> funcs;
    for (Function &F : M) if (!F.isDeclaration()) funcs.push_back(&F);
    for (Function *Fp : funcs) {
      Function &F = *Fp;
      if (F.getName().starts_with("__sym_")) continue;
      std::vector<Instruction *> work;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      for (Instruction *I : work) {
        auto repl = [&](Value *nv) { I->replaceAllUsesWith(nv); I->eraseFromParent(); };
        if (mem) if (auto *MC = dyn_cast<AnyMemIntrinsic>(I)) {
          IRBuilder<> B(I); Value *src = ConstantPointerNull::get(cast<PointerType>(P));
          if (auto *MT = dyn_cast<AnyMemTransferInst>(I)) src = MT->getSource();
          B.CreateCall(fn("__sym_memop", V, {P, P, I64}), {MC->getDest(), src, B.CreateZExtOrTrunc(MC->getLength(), I64)});
          continue;
        }
        if (memonly && !isa<LoadInst>(I) && !isa<StoreInst>(I)) continue;
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
          if (!BO->getType()->isFPOrFPVectorTy()) continue;
          if (BO->getType() != D) { if (BO->getType()->isVectorTy()) errs() << "SymPass: vector fp op in " << F.getName() << "\n"; continue; }
          const char *n = nullptr;
          switch (BO->getOpcode()) {
            case Instruction::FAdd: n = "__sym_fadd"; break;
            case Instruction::FSub: n = "__sym_fsub"; break;
            case Instruction::FMul: n = "__sym_fmul"; break;
            case Instruction::FDiv: n = "__sym_fdiv"; break;
            case Instruction::FRem: n = "__sym_fmod"; break;
            default: continue;
          }
          IRBuilder<> B(I);
          repl(B.CreateCall(fn(n, D, {D, D}), {BO->getOperand(0), BO->getOperand(1)}));
        } else if (auto *UO = dyn_cast<UnaryOperator>(I)) {
          if (UO->getOpcode() == Instruction::FNeg && UO->getType() == D) {
            IRBuilder<> B(I);
            repl(B.CreateCall(fn("__sym_fneg", D, {D}), {UO->getOperand(0)}));
          }
        } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
          if (FC->getOperand(0)->getType() != D) continue;
          IRBuilder<> B(I);
          Value *r = B.CreateCall(fn("__sym_fcmp", I32, {I32, D, D}), {ConstantInt::get(I32, (int)FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
          repl(B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
        } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
          if (I->getOperand(0)->getType() != D) continue;
          IRBuilder<> B(I);
          Value *r = B.CreateCall(fn(isa<FPToSIInst>(I) ? "__sym_fptosi" : "__sym_fptoui", I64, {D}), {I->getOperand(0)});
          repl(B.CreateTruncOrBitCast(r, I->getType()));
        } else if (isa<FPTruncInst>(I)) {
          if (I->getOperand(0)->getType() != D) continue;
          IRBuilder<> B(I);
          Value *r = B.CreateCall(fn("__sym_concretize", D, {D}), {I->getOperand(0)});
          I->setOperand(0, r);
        } else if (auto *RMW = dyn_cast<AtomicRMWInst>(I)) {
          if (RMW->getType() == D) {
            IRBuilder<> B(I);
            const char *n = RMW->getOperation() == AtomicRMWInst::FAdd ? "__sym_atomic_add" : RMW->getOperation() == AtomicRMWInst::FSub ? "__sym_atomic_sub" : nullptr;
            if (!n) continue;
            repl(B.CreateCall(fn(n, D, {P, D}), {RMW->getPointerOperand(), RMW->getValOperand()}));
          }
        } else if (auto *CB = dyn_cast<CallBase>(I)) {
          Function *cf = CB->getCalledFunction();
          if (!cf) continue;
          std::string nm;
          if (cf->isIntrinsic()) {
            bool dbl = false;
            switch (cf->getIntrinsicID()) {
              case Intrinsic::sqrt: nm = "sqrt"; break;
              case Intrinsic::fabs: nm = "fabs"; break;
              case Intrinsic::floor: nm = "floor"; break;
              case Intrinsic::ceil: nm = "ceil"; break;
              case Intrinsic::round: nm = "round"; break;
              case Intrinsic::trunc: nm = "trunc"; break;
              case Intrinsic::rint: nm = "rint"; break;
              case Intrinsic::nearbyint: nm = "nearbyint"; break;
              case Intrinsic::pow: nm = "pow"; break;
              case Intrinsic::powi: nm = "powi"; break;
              case Intrinsic::exp: nm = "exp"; break;
              case Intrinsic::exp2: nm = "exp2"; break;
              case Intrinsic::log: nm = "log"; break;
              case Intrinsic::log2: nm = "log2"; break;
              case Intrinsic::log10: nm = "log10"; break;
              case Intrinsic::sin: nm = "sin"; break;
              case Intrinsic::cos: nm = "cos"; break;
              case Intrinsic::fma: case Intrinsic::fmuladd: nm = "fma"; break;
              case Intrinsic::minnum: case Intrinsic::minimum: nm = "fmin"; break;
              case Intrinsic::maxnum: case Intrinsic::maximum: nm = "fmax"; break;
              case Intrinsic::copysign: nm = "copysign"; break;
              case Intrinsic::is_fpclass: nm = "fpclass"; break;
              default: break;
            }
            if (nm.empty()) continue;
            dbl = CB->getArgOperand(0)->getType() == D;
            if (!dbl) continue;
            IRBuilder<> B(I);
            if (nm == "fpclass") {
              Value *r = B.CreateCall(fn("__sym_fpclass", I32, {D, I32}), {CB->getArgOperand(0), CB->getArgOperand(1)});
              repl(B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
            } else {
              std::vector<Value *> a; std::vector<Type *> t;
              for (auto &x : CB->args()) { a.push_back(x.get()); t.push_back(x->getType()); }
              repl(B.CreateCall(fn("__sym_" + nm, D, t), a));
            }
            continue;
          }
          std::string n = cf->getName().str();
          if (LIBM.count(n) && cf->isDeclaration()) {
            FunctionCallee nf = M.getOrInsertFunction("__sym_" + n, cf->getFunctionType());
            CB->setCalledFunction(nf);
            CB->setAttributes(AttributeList());
          }
        } else if (mem) {
          if (auto *L = dyn_cast<LoadInst>(I)) {
            if (isa<AllocaInst>(L->getPointerOperand()) || L->getType()->isPointerTy()) continue;
            IRBuilder<> B(I);
            B.CreateCall(fn("__sym_load", V, {P, I64, I32}), {L->getPointerOperand(), ConstantInt::get(I64, M.getDataLayout().getTypeStoreSize(L->getType())), ConstantInt::get(I32, L->isAtomic())});
          } else if (auto *S = dyn_cast<StoreInst>(I)) {
            if (isa<AllocaInst>(S->getPointerOperand()) || S->getValueOperand()->getType()->isPointerTy()) continue;
            IRBuilder<> B(I);
            B.CreateCall(fn("__sym_store", V, {P, I64, I32}), {S->getPointerOperand(), ConstantInt::get(I64, M.getDataLayout().getTypeStoreSize(S->getValueOperand()->getType())), ConstantInt::get(I32, S->isAtomic())});
          }
        }
      }
      std::string dn = demangle(F.getName().str());
      if (!memonly && (dn.compare(0, 5, "gwm::") == 0 || dn.find(" gwm::") != std::string::npos)) {
        if (dn.find("std::") == 0) continue;
        BasicBlock &BB = F.getEntryBlock();
        IRBuilder<> B(&*BB.getFirstInsertionPt());
        auto *flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::PrivateLinkage, ConstantInt::get(Type::getInt8Ty(C), 0), "__symflag");
        Value *nm = B.CreateGlobalStringPtr(dn);
        B.CreateCall(fn("__sym_enter", V, {P, P}), {flag, nm});
      }
    }
    (void)I1;
    return PreservedAnalyses::none();
  }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
