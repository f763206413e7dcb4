// Links the bitcode of harness and implementation, makes uninitialised locals explicit, optimises lightly.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Transforms/IPO/ModuleInliner.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/IPO/Internalize.h>
using namespace llvm;
int prep(const std::vector<std::string> &in, const std::string &out) {
  LLVMContext C; SMDiagnostic E; std::unique_ptr<Module> M;
  for (auto &f : in) { auto N = parseIRFile(f, E, C); if (!N) { E.print("symx", errs()); return 3; } if (!M) M = std::move(N); else if (Linker::linkModules(*M, std::move(N))) return 3; }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopUnrolling = false; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopInterleaving = false;
  PassBuilder PB(nullptr, PTO); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  { ModulePassManager P; P.addPass(InternalizePass([](const GlobalValue &G) { return G.getName() == "main" || G.getName().starts_with("llvm.") || G.isDeclaration(); })); P.addPass(GlobalDCEPass()); P.run(*M, MAM); }
  // an unaligned vector load by its instruction name is a load
  { std::vector<CallInst *> v; for (auto &F : *M) for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && (c->getCalledFunction()->getName() == "llvm.x86.sse3.ldu.dq" || c->getCalledFunction()->getName() == "llvm.x86.avx.ldu.dq.256")) v.push_back(c);
    for (auto *c : v) { IRBuilder<> B(c); Value *r = B.CreateAlignedLoad(c->getType(), c->getArgOperand(0), Align(1)); c->replaceAllUsesWith(r); c->eraseFromParent(); } }
  // x86 read-modify-write assembly becomes the LLVM atomic it stands for
  { std::vector<CallInst *> v; for (auto &F : *M) for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallInst>(&I)) if (isa<InlineAsm>(c->getCalledOperand())) v.push_back(c);
    for (auto *c : v) { auto *A = cast<InlineAsm>(c->getCalledOperand()); auto asmS = A->getAsmString(), conS = A->getConstraintString(); StringRef s(asmS), k(conS); Type *T = c->getType(); Value *r = nullptr; IRBuilder<> B(c); auto SC = AtomicOrdering::SequentiallyConsistent;
      if (s.starts_with("lock; cmpxchg") && s.ends_with("$2,$1") && k.starts_with("={ax},=*m,r,0,*m") && T->isIntegerTy()) r = B.CreateExtractValue(B.CreateAtomicCmpXchg(c->getArgOperand(0), c->getArgOperand(2), c->getArgOperand(1), MaybeAlign(), SC, SC), 0);
      else if (s.starts_with("lock; cmpxchg") && s.contains("$3,$1; sete ${2:b}") && k.starts_with("={ax},=*m,=q,") && T->isStructTy() && c->arg_size() >= 3) { Value *x = B.CreateAtomicCmpXchg(c->getArgOperand(0), c->getArgOperand(2), c->getArgOperand(1), MaybeAlign(), SC, SC); Value *o = B.CreateInsertValue(UndefValue::get(T), B.CreateExtractValue(x, 0), 0); r = B.CreateInsertValue(o, B.CreateZExtOrTrunc(B.CreateExtractValue(x, 1), cast<StructType>(T)->getElementType(1)), 1); }
      else if ((s.starts_with("lock; xadd") || s.starts_with("xchg")) && s.ends_with("$0,$1") && (k.starts_with("=r,=*m,0,*m") || k.starts_with("=q,=*m,0,*m")) && T->isIntegerTy()) r = B.CreateAtomicRMW(s[0] == 'x' ? AtomicRMWInst::Xchg : AtomicRMWInst::Add, c->getArgOperand(0), c->getArgOperand(1), MaybeAlign(), SC);
      else if (s.starts_with("lock; or") && s.ends_with("$0,$1") && (k.starts_with("=*m,r,*m") || k.starts_with("=*m,q,*m")) ) {}
      else if (s == "mul $2" && k.starts_with("={ax},={dx},r,{ax}") && T->isStructTy()) { Type *W = c->getArgOperand(0)->getType(); unsigned w = W->getIntegerBitWidth(); Type *D = IntegerType::get(C, 2 * w); Value *m = B.CreateMul(B.CreateZExt(c->getArgOperand(0), D), B.CreateZExt(c->getArgOperand(1), D)); Value *o = B.CreateInsertValue(UndefValue::get(T), B.CreateTrunc(m, W), 0); r = B.CreateInsertValue(o, B.CreateTrunc(B.CreateLShr(m, w), W), 1); }
      else if (s == "bsr $1,$0" && T->isIntegerTy() && c->arg_size() == 1 && c->getArgOperand(0)->getType() == T) r = B.CreateSub(ConstantInt::get(T, T->getIntegerBitWidth() - 1), B.CreateBinaryIntrinsic(Intrinsic::ctlz, c->getArgOperand(0), B.getInt1(false)));
      else if ((s.starts_with("rol") || s.starts_with("ror")) && s.ends_with("%cl,$0") && k.starts_with("=r,0,{cx}") && T->isIntegerTy() && c->arg_size() == 2 && c->getArgOperand(0)->getType() == T) { Value *x = c->getArgOperand(0), *n = B.CreateZExtOrTrunc(c->getArgOperand(1), T); r = B.CreateIntrinsic(s[2] == 'l' ? Intrinsic::fshl : Intrinsic::fshr, {T}, {x, x, n}); }
      if (r) { c->replaceAllUsesWith(r); c->eraseFromParent(); } } }
  Type *I64 = Type::getInt64Ty(C), *I32 = Type::getInt32Ty(C);
  Function *UF = cast<Function>(M->getOrInsertFunction("sx_undef", I64, I32).getCallee()); UF->setDoesNotAccessMemory(); UF->setDoesNotThrow(); UF->setWillReturn(); UF->addFnAttr(Attribute::NoFree); UF->addFnAttr(Attribute::NoSync);
  const DataLayout &D = M->getDataLayout(); unsigned id = 1;
  for (auto &F : *M) { if (F.isDeclaration()) continue; std::vector<AllocaInst *> as; for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) as.push_back(A);
    std::vector<std::pair<Instruction *, AllocaInst *>> pts;
    for (auto *A : as) { if (A->isArrayAllocation()) continue; Type *T = A->getAllocatedType(); if (!(T->isIntegerTy() && T->getIntegerBitWidth() <= 64) && !T->isPointerTy()) continue; bool lt = false; for (auto *U : A->users()) if (auto *II = dyn_cast<IntrinsicInst>(U)) if (II->getIntrinsicID() == Intrinsic::lifetime_start) { lt = true; pts.push_back({II->getNextNode(), A}); } if (!lt) pts.push_back({A->getNextNode(), A}); }
    for (auto &p : pts) { Instruction *at = p.first; while (isa<AllocaInst>(at)) at = at->getNextNode(); IRBuilder<> B(at); B.SetCurrentDebugLocation(DebugLoc()); if (F.getSubprogram()) B.SetCurrentDebugLocation(DILocation::get(C, 0, 0, F.getSubprogram())); Type *T = p.second->getAllocatedType(); Value *v = B.CreateCall(UF, {B.getInt32(id++)}); if (T->isPointerTy()) v = B.CreateIntToPtr(v, T); else if (T->getIntegerBitWidth() < 64) v = B.CreateTrunc(v, T); B.CreateStore(v, p.second); } }
  (void)D;
  // __builtin_constant_p(strlen(s)) evaluates nothing: settle it after inlining alone, or its strlen is merged with those the code makes under a condition
  { auto scan = [&](bool lower) { std::vector<IntrinsicInst *> v; for (auto &F : *M) for (auto &I : instructions(F)) if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::is_constant) { auto *CB = dyn_cast<CallBase>(II->getArgOperand(0)); if (lower || (CB && CB->getCalledFunction() && CB->getCalledFunction()->getName() == "strlen")) v.push_back(II); }
      if (lower) for (auto *II : v) { bool k = isa<ConstantData>(II->getArgOperand(0)); Value *op = II->getArgOperand(0); II->replaceAllUsesWith(ConstantInt::get(II->getType(), k)); II->eraseFromParent(); if (auto *CB = dyn_cast<CallBase>(op)) if (CB->use_empty() && CB->getCalledFunction() && CB->getCalledFunction()->getName() == "strlen") CB->eraseFromParent(); }
      return !v.empty(); };
    if (scan(false)) { auto fn = [&] { FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::ModifyCFG)); FP.addPass(InstCombinePass()); ModulePassManager P; P.addPass(createModuleToFunctionPassAdaptor(std::move(FP))); P.run(*M, MAM); };
      fn(); { ModulePassManager P; P.addPass(ModuleInlinerWrapperPass(getInlineParams(225))); P.run(*M, MAM); } fn(); scan(true); MAM.clear(); FAM.clear(); CAM.clear(); LAM.clear(); } }
  // Floating point on symbolic integers is enumerated by the engine: keep the optimiser from hoisting it out of the branch that wants it.
  std::vector<CallInst *> fps;
  { std::vector<Instruction *> v; for (auto &F : *M) for (auto &I : instructions(F)) if (!I.getType()->isVectorTy()) { unsigned o = I.getOpcode(); if (o == Instruction::FPToSI || o == Instruction::FPToUI || o == Instruction::SIToFP || o == Instruction::UIToFP || o == Instruction::FCmp) { Type *S = I.getOperand(0)->getType(); if ((S->isFloatTy() || S->isDoubleTy() || S->isIntegerTy()) && (I.getType()->isFloatTy() || I.getType()->isDoubleTy() || I.getType()->isIntegerTy())) v.push_back(&I); } }
    for (auto *I : v) { std::string n = "sxfp." + std::to_string(I->getOpcode()) + "." + (isa<FCmpInst>(I) ? std::to_string(cast<FCmpInst>(I)->getPredicate()) : "") ; raw_string_ostream os(n); os << "."; I->getOperand(0)->getType()->print(os); os << "."; I->getType()->print(os); os.flush();
      std::vector<Type *> at; std::vector<Value *> av; for (auto &O : I->operands()) at.push_back(O->getType()), av.push_back(O.get());
      Function *G = cast<Function>(M->getOrInsertFunction(n, FunctionType::get(I->getType(), at, false)).getCallee()); G->setDoesNotAccessMemory(); G->setDoesNotThrow(); G->setWillReturn(); G->addFnAttr(Attribute::NoFree); G->addFnAttr(Attribute::NoSync);
      CallInst *c = CallInst::Create(G, av, "", I); c->setDebugLoc(I->getDebugLoc()); I->replaceAllUsesWith(c); I->eraseFromParent(); } }
  { ModulePassManager P = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); P.run(*M, MAM); }
  for (auto &F : *M) for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName().starts_with("sxfp.")) fps.push_back(c);
  for (auto *c : fps) { unsigned o = 0, pr = 0; sscanf(c->getCalledFunction()->getName().str().c_str(), "sxfp.%u.%u", &o, &pr); Instruction *n = o == Instruction::FCmp ? (Instruction *)new FCmpInst(c, (CmpInst::Predicate)pr, c->getArgOperand(0), c->getArgOperand(1)) : (Instruction *)CastInst::Create((Instruction::CastOps)o, c->getArgOperand(0), c->getType(), "", c); n->setDebugLoc(c->getDebugLoc()); c->replaceAllUsesWith(n); c->eraseFromParent(); }
  { ModulePassManager P; P.addPass(createModuleToFunctionPassAdaptor(ADCEPass())); P.addPass(GlobalDCEPass()); P.run(*M, MAM); }  // is.constant(strlen(..)) leaves dead calls behind
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); os.flush(); return 0;
}
