// symx-prep in.bc out.bc : closes the module over `harness`, instruments atomics, adds the address table.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include "names.h"
#include <set>
using namespace llvm;

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("symx-prep", errs()); return 1; }
    // the locked instructions boost::interprocess writes as inline assembly
    for (auto& F : *M) {
        std::vector<CallInst*> as;
        for (auto& B : F) for (auto& I : B) if (auto* c = dyn_cast<CallInst>(&I)) if (isa<InlineAsm>(c->getCalledOperand())) as.push_back(c);
        for (auto* c : as) {
            auto a = cast<InlineAsm>(c->getCalledOperand())->getAsmString(); IRBuilder<> b(c); Value* r = nullptr;
            if (a.find("cmpxchg $2,$0") != std::string::npos && c->arg_size() == 4 && c->getType()->isIntegerTy(32))
                r = b.CreateExtractValue(b.CreateAtomicCmpXchg(c->getArgOperand(0), c->getArgOperand(3), c->getArgOperand(1), MaybeAlign(4), AtomicOrdering::SequentiallyConsistent, AtomicOrdering::SequentiallyConsistent), 0);
            else if (a.find("xadd $1, $0") != std::string::npos && c->getType()->isIntegerTy(32))
                r = b.CreateAtomicRMW(AtomicRMWInst::Add, c->getArgOperand(0), c->getArgOperand(1), MaybeAlign(4), AtomicOrdering::SequentiallyConsistent);
            else if (a.find("xchgl $0, $1") != std::string::npos && c->arg_size() == 3 && c->getType()->isIntegerTy(32))
                r = b.CreateAtomicRMW(AtomicRMWInst::Xchg, c->getArgOperand(0), c->getArgOperand(1), MaybeAlign(4), AtomicOrdering::SequentiallyConsistent);
            if (r) { c->replaceAllUsesWith(r); c->eraseFromParent(); }
        }
    }
    // definitions the engine implements itself lose their bodies
    for (auto& F : *M)
        if (!F.isDeclaration() && isIntercepted(F.getName().str())) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
    for (auto& F : *M) {
        if (F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::LinkOnceODRLinkage);
        F.setComdat(nullptr);
    }
    for (auto& G : M->globals()) {
        if (G.hasAvailableExternallyLinkage() && G.hasInitializer()) G.setLinkage(GlobalValue::LinkOnceODRLinkage);
        G.setComdat(nullptr);
    }
    std::set<std::string> tls;
    for (auto& G : M->globals())
        if (G.isThreadLocal() && G.hasInitializer()) { tls.insert(G.getName().str()); G.setThreadLocal(false); }
    {
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(InternalizePass([](const GlobalValue& g) {
            auto n = g.getName();
            return n == "harness" || n == "sym_sched_point" || n == "rt_quiet_lock" || n == "rt_init" || n == "rt_native_exit" || n.starts_with("llvm."); }));
        MPM.addPass(GlobalDCEPass());
        MPM.run(*M, MAM);
    }
    // scheduling points before atomics outside the runtime
    FunctionCallee sp = M->getOrInsertFunction("sym_sched_point", Type::getVoidTy(ctx), PointerType::getUnqual(ctx));
    bool haveSp = false;
    if (auto* f = dyn_cast<Function>(sp.getCallee())) haveSp = !f->isDeclaration();
    if (haveSp)
        for (auto& F : *M) {
            if (F.isDeclaration()) continue;
            if (F.hasFnAttribute("symx-rt")) continue;
            if (auto* S = F.getSubprogram()) if (S->getFilename().ends_with("/rt.cpp") || S->getFilename() == "rt.cpp") continue;
            std::vector<Instruction*> at;
            for (auto& B : F) for (auto& I : B) {
                if (isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I)) at.push_back(&I);
                else if (auto* L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) at.push_back(&I); }
                else if (auto* S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) at.push_back(&I); }
            }
            for (auto* I : at) {
                // reference counting commutes: no scheduling point
                if (auto* L = I->getDebugLoc().get()) {
                    auto f = L->getScope()->getFilename();
                    if (f.contains("atomicity.h") || f.contains("shared_ptr") || f.contains("sp_counted") || f.contains("atomic_count") || f.contains("cow_string")) continue;
                }
                Value* p = isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I)->getPointerOperand()
                    : isa<AtomicCmpXchgInst>(I) ? cast<AtomicCmpXchgInst>(I)->getPointerOperand() : cast<AtomicRMWInst>(I)->getPointerOperand();
                IRBuilder<> b(I);
                auto* C = b.CreateCall(sp, {p});
                C->setDebugLoc(I->getDebugLoc());
            }
        }
    // variadic wrappers of snprintf (boost::system::detail::snprintf) call the C library directly
    for (auto& F : *M)
        if (!F.isDeclaration() && F.isVarArg() && F.getName().contains("8snprintfEPcmPKcz"))
            F.replaceAllUsesWith(M->getOrInsertFunction("snprintf", FunctionType::get(Type::getInt32Ty(ctx), {PointerType::getUnqual(ctx), Type::getInt64Ty(ctx), PointerType::getUnqual(ctx)}, true)).getCallee());
    // the locks inside boost::signals2 are no preemption points
    if (auto* q = M->getFunction("rt_quiet_lock")) if (auto* lk = M->getFunction("pthread_mutex_lock"))
        for (auto& F : *M) for (auto& B : F) for (auto& I : B)
            if (auto* C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() == lk)
                for (const DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) if (L->getScope()->getFilename().contains("boost/signals2")) { C->setCalledFunction(q); break; }
    // unique names, so that the engine (which reloads out.bc) finds the same order
    std::vector<Constant*> tab;
    for (auto& F : *M) { if (F.isIntrinsic()) { tab.push_back(ConstantPointerNull::get(PointerType::getUnqual(ctx))); continue; } tab.push_back(&F); }
    for (auto& G : M->globals()) { if (G.getName().starts_with("llvm.")) { tab.push_back(ConstantPointerNull::get(PointerType::getUnqual(ctx))); continue; } tab.push_back(&G); }
    for (auto& F : *M) if (F.isDeclaration() && !F.isIntrinsic()) { F.setLinkage(GlobalValue::ExternalWeakLinkage); F.setDSOLocal(false); }
    for (auto& G : M->globals()) if (G.isDeclaration() && !G.isThreadLocal()) { G.setLinkage(GlobalValue::ExternalWeakLinkage); G.setDSOLocal(false); }
    std::string tl;
    for (auto& s : tls) tl += s + "\n";
    auto* T = ArrayType::get(PointerType::getUnqual(ctx), tab.size());
    new GlobalVariable(*M, T, false, GlobalValue::ExternalLinkage, ConstantArray::get(T, tab), "__symx_tab");
    auto* N = ConstantInt::get(Type::getInt64Ty(ctx), tab.size());
    new GlobalVariable(*M, N->getType(), false, GlobalValue::ExternalLinkage, N, "__symx_tab_n");
    auto* S = ConstantDataArray::getString(ctx, tl);
    new GlobalVariable(*M, S->getType(), true, GlobalValue::ExternalLinkage, S, "__symx_tls");
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec, sys::fs::OF_None);
    if (ec) { errs() << ec.message() << "\n"; return 1; }
    WriteBitcodeToFile(*M, os);
    return 0;
}
