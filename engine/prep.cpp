// vex prep in.bc out.bc : replace functions by their harness stubs (__stub_<name>), internalise everything except entries
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/IR/GlobalAlias.h>
#include <set>
#include <cstdio>

using namespace llvm;

int runPrep(int argc, char** argv)
{
   LLVMContext ctx;
   SMDiagnostic err;
   auto m = parseIRFile(argv[2], err, ctx);
   if (!m) { err.print("vex", errs()); return 2; }
   bool asan = argc > 4 && std::string(argv[4]) == "--asan";
   std::vector<Function*> stubs;
   for (auto& f : *m) if (f.getName().starts_with("__stub_")) stubs.push_back(&f);
   for (auto s : stubs)
   {
      std::string n = s->getName().substr(7).str();
      Function* t = m->getFunction(n);
      if (!t)
      {
         if (auto a = m->getNamedAlias(n)) { a->replaceAllUsesWith(s); continue; }
         continue;
      }
      // an alias to the function must keep an aliasee with a body
      if (!t->isDeclaration()) { t->deleteBody(); t->setLinkage(GlobalValue::ExternalLinkage); t->setComdat(nullptr); }
      t->replaceAllUsesWith(s);
      t->eraseFromParent();
   }
   // only_if_no_definition stubs: __weak_<name>
   std::vector<Function*> weak;
   for (auto& f : *m) if (f.getName().starts_with("__weak_")) weak.push_back(&f);
   for (auto s : weak)
   {
      Function* t = m->getFunction(s->getName().substr(7));
      if (t && t->isDeclaration()) { t->replaceAllUsesWith(s); t->eraseFromParent(); }
   }
   auto keep = [](const GlobalValue& g) { return g.getName().starts_with("vex_entry_") || g.getName() == "llvm.global_ctors" || g.getName().starts_with("vex_data_"); };
   for (auto& f : *m)
   {
      if (f.isDeclaration()) continue;
      if (f.hasFnAttribute(Attribute::NoInline) && f.hasFnAttribute(Attribute::OptimizeNone)) f.removeFnAttr(Attribute::OptimizeNone);
      f.removeFnAttr(Attribute::StackProtect); f.removeFnAttr(Attribute::StackProtectStrong);
      if (asan) f.addFnAttr(Attribute::SanitizeAddress);
   }
   internalizeModule(*m, keep);
   ModuleAnalysisManager mam; FunctionAnalysisManager fam; LoopAnalysisManager lam; CGSCCAnalysisManager cam;
   PassBuilder pb;
   pb.registerModuleAnalyses(mam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.registerCGSCCAnalyses(cam);
   pb.crossRegisterProxies(lam, fam, cam, mam);
   ModulePassManager pm;
   pm.addPass(GlobalDCEPass());
   pm.run(*m, mam);
   std::error_code ec;
   raw_fd_ostream out(argv[3], ec, sys::fs::OF_None);
   WriteBitcodeToFile(*m, out);
   return 0;
}
