// LLVM pass plugin.
//   symstub : redirects the definitions listed in $SYMFP_STUBS (mangled=replacement,...) to
//             external replacement symbols, before any inlining happens.
//   symfp   : replaces every double-precision floating-point operation by a call into the
//             symbolic runtime (symrt.cpp), which either computes natively (concrete operands)
//             or extends the expression DAG (NaN-boxed symbolic operands).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <cstdlib>
#include <map>
#include <string>
using namespace llvm;

namespace {

struct SymStub : PassInfoMixin<SymStub> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    const char *env = getenv("SYMFP_STUBS");
    if (!env) return PreservedAnalyses::all();
    SmallVector<StringRef, 16> parts;
    StringRef(env).split(parts, ',', -1, false);
    for (auto p : parts) {
      auto kv = p.split('=');
      Function *F = M.getFunction(kv.first);
      if (!F) continue;
      FunctionCallee R = M.getOrInsertFunction(kv.second, F->getFunctionType(), F->getAttributes());
      if (R.getCallee() == F) continue;
      F->replaceAllUsesWith(R.getCallee());
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

struct SymFP : PassInfoMixin<SymFP> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C);
    Type *I32 = Type::getInt32Ty(C);
    Type *I64 = Type::getInt64Ty(C);
    Type *I1 = Type::getInt1Ty(C);
    auto bin = [&](const char *n) { return M.getOrInsertFunction(n, D, D, D); };
    auto un = [&](const char *n) { return M.getOrInsertFunction(n, D, D); };
    static const std::map<std::string, int> libm = {
        {"exp",1},{"log",1},{"log10",1},{"log2",1},{"sqrt",1},{"cbrt",1},{"fabs",1},{"sin",1},{"cos",1},{"tan",1},
        {"asin",1},{"acos",1},{"atan",1},{"sinh",1},{"cosh",1},{"tanh",1},{"exp2",1},{"expm1",1},{"log1p",1},
        {"floor",1},{"ceil",1},{"round",1},{"trunc",1},{"rint",1},{"nearbyint",1},
        {"pow",2},{"fmod",2},{"atan2",2},{"fmax",2},{"fmin",2},{"copysign",2},{"hypot",2},
        {"__exp_finite",1},{"__log_finite",1},{"__pow_finite",2}};
    SmallVector<Instruction *, 256> work;
    for (Function &F : M)
      for (Instruction &I : instructions(F)) work.push_back(&I);
    for (Instruction *I : work) {
      IRBuilder<> B(I);
      Value *R = nullptr;
      Type *T = I->getType();
      if (auto *VT = dyn_cast<VectorType>(T)) {
        if (VT->getElementType()->isDoubleTy() && (isa<BinaryOperator>(I) || isa<UnaryOperator>(I)))
          report_fatal_error(Twine("symfp: vector double arithmetic in ") + I->getFunction()->getName());
      }
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        if (!T->isDoubleTy()) continue;
        const char *n = nullptr;
        switch (BO->getOpcode()) {
        case Instruction::FAdd: n = "sym_fadd"; break;
        case Instruction::FSub: n = "sym_fsub"; break;
        case Instruction::FMul: n = "sym_fmul"; break;
        case Instruction::FDiv: n = "sym_fdiv"; break;
        case Instruction::FRem: n = "sym_fmod"; break;
        default: break;
        }
        if (n) R = B.CreateCall(bin(n), {BO->getOperand(0), BO->getOperand(1)});
      } else if (auto *UO = dyn_cast<UnaryOperator>(I)) {
        if (!T->isDoubleTy()) continue;
        R = B.CreateCall(un("sym_fneg"), {UO->getOperand(0)});
      } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
        if (!FC->getOperand(0)->getType()->isDoubleTy()) continue;
        auto fn = M.getOrInsertFunction("sym_fcmp", I1, I32, D, D);
        R = B.CreateCall(fn, {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
      } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
        if (!I->getOperand(0)->getType()->isDoubleTy()) continue;
        auto fn = M.getOrInsertFunction(isa<FPToSIInst>(I) ? "sym_fptosi" : "sym_fptoui", I64, D);
        Value *c = B.CreateCall(fn, {I->getOperand(0)});
        R = B.CreateIntCast(c, T, isa<FPToSIInst>(I));
      } else if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
        if (!I->getOperand(0)->getType()->isDoubleTy()) continue;
        Value *c = B.CreateCall(un("sym_concretize"), {I->getOperand(0)});
        I->setOperand(0, c);
        continue;
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        Function *F = CB->getCalledFunction();
        if (!F) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
          Type *AT = II->arg_size() ? II->getArgOperand(0)->getType() : nullptr;
          if (!AT || !AT->isDoubleTy()) continue;
          switch (II->getIntrinsicID()) {
          case Intrinsic::fabs: R = B.CreateCall(un("sym_fabs"), {II->getArgOperand(0)}); break;
          case Intrinsic::sqrt: R = B.CreateCall(un("sym_sqrt"), {II->getArgOperand(0)}); break;
          case Intrinsic::exp: R = B.CreateCall(un("sym_exp"), {II->getArgOperand(0)}); break;
          case Intrinsic::exp2: R = B.CreateCall(un("sym_exp2"), {II->getArgOperand(0)}); break;
          case Intrinsic::log: R = B.CreateCall(un("sym_log"), {II->getArgOperand(0)}); break;
          case Intrinsic::log10: R = B.CreateCall(un("sym_log10"), {II->getArgOperand(0)}); break;
          case Intrinsic::log2: R = B.CreateCall(un("sym_log2"), {II->getArgOperand(0)}); break;
          case Intrinsic::sin: R = B.CreateCall(un("sym_sin"), {II->getArgOperand(0)}); break;
          case Intrinsic::cos: R = B.CreateCall(un("sym_cos"), {II->getArgOperand(0)}); break;
          case Intrinsic::floor: R = B.CreateCall(un("sym_floor"), {II->getArgOperand(0)}); break;
          case Intrinsic::ceil: R = B.CreateCall(un("sym_ceil"), {II->getArgOperand(0)}); break;
          case Intrinsic::round: R = B.CreateCall(un("sym_round"), {II->getArgOperand(0)}); break;
          case Intrinsic::trunc: R = B.CreateCall(un("sym_trunc"), {II->getArgOperand(0)}); break;
          case Intrinsic::rint: case Intrinsic::nearbyint: R = B.CreateCall(un("sym_rint"), {II->getArgOperand(0)}); break;
          case Intrinsic::pow: R = B.CreateCall(bin("sym_pow"), {II->getArgOperand(0), II->getArgOperand(1)}); break;
          case Intrinsic::powi: {
            Value *e = B.CreateSIToFP(II->getArgOperand(1), D);
            R = B.CreateCall(bin("sym_pow"), {II->getArgOperand(0), e}); break; }
          case Intrinsic::copysign: R = B.CreateCall(bin("sym_copysign"), {II->getArgOperand(0), II->getArgOperand(1)}); break;
          case Intrinsic::maxnum: case Intrinsic::maximum: R = B.CreateCall(bin("sym_fmax"), {II->getArgOperand(0), II->getArgOperand(1)}); break;
          case Intrinsic::minnum: case Intrinsic::minimum: R = B.CreateCall(bin("sym_fmin"), {II->getArgOperand(0), II->getArgOperand(1)}); break;
          case Intrinsic::fma: case Intrinsic::fmuladd: {
            Value *m = B.CreateCall(bin("sym_fmul"), {II->getArgOperand(0), II->getArgOperand(1)});
            R = B.CreateCall(bin("sym_fadd"), {m, II->getArgOperand(2)}); break; }
          case Intrinsic::is_fpclass: {
            auto fn = M.getOrInsertFunction("sym_isfpclass", I1, D, I32);
            R = B.CreateCall(fn, {II->getArgOperand(0), II->getArgOperand(1)}); break; }
          default: continue;
          }
        } else {
          auto it = libm.find(F->getName().str());
          if (it == libm.end() || !F->isDeclaration() || !T->isDoubleTy()) continue;
          if ((int)CB->arg_size() != it->second) continue;
          std::string n = "sym_" + F->getName().str();
          FunctionCallee fn = it->second == 1 ? un(n.c_str()) : bin(n.c_str());
          CB->setCalledFunction(fn);
          CB->setAttributes(AttributeList());
          CB->setCallingConv(CallingConv::C);
          continue;
        }
      }
      if (R) { I->replaceAllUsesWith(R); I->eraseFromParent(); }
    }
    return PreservedAnalyses::none();
  }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "symfp") { MPM.addPass(SymFP()); return true; }
      if (N == "symstub") { MPM.addPass(SymStub()); return true; }
      return false; });
  }};
}
