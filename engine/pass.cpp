// LLVM 18 pass: replaces every operation on doubles in a module by a call into the
// symbolic runtime (rt_sym.cpp).  Data movement (loads, stores, phis, selects, calls,
// memcpy) is left alone: a symbolic value is a NaN-boxed expression id.
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
struct NkPass : PassInfoMixin<NkPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C);
    auto fn = [&](const std::string &n, Type *r, std::vector<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    static const std::map<std::string, std::pair<std::string, int>> lib = {
        {"sqrt", {"sqrt", 1}}, {"pow", {"pow", 2}}, {"fabs", {"fabs", 1}}, {"sin", {"sin", 1}},
        {"cos", {"cos", 1}}, {"tan", {"tan", 1}}, {"atan2", {"atan2", 2}}, {"atan", {"atan", 1}},
        {"asin", {"asin", 1}}, {"acos", {"acos", 1}}, {"exp", {"exp", 1}}, {"log", {"log", 1}},
        {"exp2", {"exp2", 1}}, {"expm1", {"expm1", 1}}, {"log1p", {"log1p", 1}}, {"log2", {"log2", 1}}, {"log10", {"log10", 1}},
        {"floor", {"floor", 1}}, {"ceil", {"ceil", 1}}, {"round", {"round", 1}}, {"trunc", {"trunc", 1}},
        {"rint", {"rint", 1}}, {"nearbyint", {"rint", 1}},
        {"fmod", {"fmod", 2}}, {"hypot", {"hypot", 2}}, {"fmin", {"fmin", 2}}, {"fmax", {"fmax", 2}},
        {"cbrt", {"cbrt", 1}}, {"copysign", {"copysign", 2}}, {"fma", {"fma", 3}}, {"fdim", {"fdim", 2}}, {"tanh", {"tanh", 1}},
        {"sinh", {"sinh", 1}}, {"cosh", {"cosh", 1}}};
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      std::vector<Instruction *> work;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      bool touched = false;
      for (Instruction *I : work) {
        IRBuilder<> B(I);
        Value *R = nullptr;
        auto bad = [&](const char *w) {
          errs() << "nkpass: unsupported " << w << " in " << F.getName() << ": " << *I << "\n";
          report_fatal_error("nkpass unsupported");
        };
        auto isD = [&](Value *V) { return V->getType()->isDoubleTy(); };
        auto hasVec = [&](Value *V) { return V->getType()->isVectorTy() && V->getType()->getScalarType()->isDoubleTy(); };
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
          if (hasVec(BO)) bad("vector op");
          if (!isD(BO)) continue;
          const char *n = nullptr;
          switch (BO->getOpcode()) {
          case Instruction::FAdd: n = "__nk_add"; break;
          case Instruction::FSub: n = "__nk_sub"; break;
          case Instruction::FMul: n = "__nk_mul"; break;
          case Instruction::FDiv: n = "__nk_div"; break;
          case Instruction::FRem: n = "__nk_fmod"; break;
          default: continue;
          }
          R = B.CreateCall(fn(n, D, {D, D}), {BO->getOperand(0), BO->getOperand(1)});
        } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
          if (hasVec(U)) bad("vector op");
          if (!isD(U)) continue;
          R = B.CreateCall(fn("__nk_neg", D, {D}), {U->getOperand(0)});
        } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
          if (hasVec(FC->getOperand(0))) bad("vector cmp");
          if (!isD(FC->getOperand(0))) continue;
          Value *V = B.CreateCall(fn("__nk_cmp", I32, {I32, D, D}),
                                  {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
          R = B.CreateTrunc(V, Type::getInt1Ty(C));
        } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
          Value *O = I->getOperand(0);
          if (hasVec(O)) bad("vector cast");
          if (!isD(O)) continue;
          unsigned bits = I->getType()->getIntegerBitWidth();
          if (bits > 64) bad("wide int cast");
          Value *V = B.CreateCall(fn("__nk_toint", I64, {D, I32, I32}),
                                  {O, ConstantInt::get(I32, bits), ConstantInt::get(I32, isa<FPToSIInst>(I))});
          R = bits < 64 ? B.CreateTrunc(V, I->getType()) : V;
        } else if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
          Value *O = I->getOperand(0);
          if (!isD(O)) continue;
          Value *V = B.CreateCall(fn("__nk_concrete", D, {D}), {O});
          I->setOperand(0, V);
          touched = true;
          continue;
        } else if (auto *BC = dyn_cast<BitCastInst>(I)) {
          if (isD(BC->getOperand(0)) && BC->getType()->isIntegerTy()) {
            Value *V = B.CreateCall(fn("__nk_concrete", D, {D}), {BC->getOperand(0)});
            I->setOperand(0, V);
            touched = true;
          }
          continue;
        } else if (auto *CB = dyn_cast<CallBase>(I)) {
          Function *callee = CB->getCalledFunction();
          if (!callee) continue;
          if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
            if (hasVec(II)) bad("vector intrinsic");
            bool dd = isD(II) || (II->arg_size() > 0 && isD(II->getArgOperand(0)));
            if (!dd) continue;
            auto c1 = [&](const char *n) { return B.CreateCall(fn(n, D, {D}), {II->getArgOperand(0)}); };
            auto c2 = [&](const char *n) { return B.CreateCall(fn(n, D, {D, D}), {II->getArgOperand(0), II->getArgOperand(1)}); };
            switch (II->getIntrinsicID()) {
            case Intrinsic::sqrt: R = c1("__nk_sqrt"); break;
            case Intrinsic::fabs: R = c1("__nk_fabs"); break;
            case Intrinsic::sin: R = c1("__nk_sin"); break;
            case Intrinsic::cos: R = c1("__nk_cos"); break;
            case Intrinsic::exp: R = c1("__nk_exp"); break;
            case Intrinsic::exp2: R = c1("__nk_exp2"); break;
            case Intrinsic::log: R = c1("__nk_log"); break;
            case Intrinsic::log2: R = c1("__nk_log2"); break;
            case Intrinsic::log10: R = c1("__nk_log10"); break;
            case Intrinsic::floor: R = c1("__nk_floor"); break;
            case Intrinsic::ceil: R = c1("__nk_ceil"); break;
            case Intrinsic::trunc: R = c1("__nk_trunc"); break;
            case Intrinsic::rint: case Intrinsic::nearbyint: R = c1("__nk_rint"); break;
            case Intrinsic::round: R = c1("__nk_round"); break;
            case Intrinsic::pow: R = c2("__nk_pow"); break;
            case Intrinsic::powi:
              R = B.CreateCall(fn("__nk_powi", D, {D, I32}), {II->getArgOperand(0), II->getArgOperand(1)});
              break;
            case Intrinsic::minnum: case Intrinsic::minimum: R = c2("__nk_fmin"); break;
            case Intrinsic::maxnum: case Intrinsic::maximum: R = c2("__nk_fmax"); break;
            case Intrinsic::copysign: R = c2("__nk_copysign"); break;
            case Intrinsic::fma: case Intrinsic::fmuladd:
              R = B.CreateCall(fn("__nk_fma", D, {D, D, D}), {II->getArgOperand(0), II->getArgOperand(1), II->getArgOperand(2)});
              break;
            case Intrinsic::is_fpclass: {
              Value *V = B.CreateCall(fn("__nk_fpclass", I32, {D, I32}), {II->getArgOperand(0), II->getArgOperand(1)});
              R = B.CreateTrunc(V, Type::getInt1Ty(C));
              break;
            }
            default: bad("intrinsic");
            }
          } else {
            StringRef n = callee->getName();
            if (!callee->isDeclaration()) continue;
            auto it = lib.find(n.str());
            if (it != lib.end() && isD(CB)) {
              std::vector<Value *> a;
              std::vector<Type *> t;
              for (auto &x : CB->args()) { a.push_back(x.get()); t.push_back(D); }
              if ((int)a.size() != it->second.second) bad("libm arity");
              Value *nc;
              FunctionCallee f2 = fn("__nk_" + it->second.first, D, t);
              if (auto *Inv = dyn_cast<InvokeInst>(CB)) {
                auto *ni = B.CreateInvoke(f2, Inv->getNormalDest(), Inv->getUnwindDest(), a);
                CB->replaceAllUsesWith(ni);
                CB->eraseFromParent();
                touched = true;
                continue;
              }
              nc = B.CreateCall(f2, a);
              R = nc;
            } else if (n == "rand" || n == "_ZSt11_Hash_bytesPKvmm") {
              auto f2 = M.getOrInsertFunction(n == "rand" ? "__nk_rand" : "__nk_hash_bytes", callee->getFunctionType());
              CB->setCalledFunction(f2);
              touched = true;
              continue;
            } else
              continue;
          }
        } else
          continue;
        if (R) {
          I->replaceAllUsesWith(R);
          I->eraseFromParent();
          touched = true;
        }
      }
      // record which functions of the code under test are executed symbolically
      if (DISubprogram *SP = F.getSubprogram()) {
        std::string p = (SP->getDirectory() + "/" + SP->getFilename()).str();
        if (p.find("/lib/nikfemm/src/") != std::string::npos || p.find("/python/") != std::string::npos) {
          Instruction *IP = &*F.getEntryBlock().getFirstInsertionPt();
          while (isa<AllocaInst>(IP)) IP = IP->getNextNode();
          IRBuilder<> B(IP);
          auto *flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::PrivateLinkage, ConstantInt::get(Type::getInt8Ty(C), 0), "nkflag");
          Value *nm = B.CreateGlobalStringPtr(F.getName(), "nkname");
          Type *PT = PointerType::getUnqual(C);
          B.CreateCall(fn("__nk_fn", Type::getVoidTy(C), {PT, PT}), {flag, nm});
          touched = true;
        }
      }
      if (touched) {
        // the runtime touches memory and may fork: drop purity attributes
        F.removeFnAttr(Attribute::Memory);
        F.removeFnAttr(Attribute::WillReturn);
      }
    }
    // math-related call attributes may linger on declarations; harmless
    return PreservedAnalyses::none();
  }
};
} // namespace
extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "nkpass", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(NkPass()); });
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "nkpass") { MPM.addPass(NkPass()); return true; }
              return false;
            });
          }};
}
