// Native driver: compiles every program through the real engine with the IR
// dump on, and writes the optimised IR as one bitcode file per program.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/ExecutionEngine/Orc/LLJIT.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <set>

#ifdef JF_ATHENA
#include "athena/athena.h"
#endif
#include "jfdrv.h"

using namespace jfdrv;

// "id<TAB>ok|error message" per program
static std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) r += (c == '\n' || c == '\t') ? ' ' : c;
  return r;
}
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: jfdrv progs outdir njobs\n"); return 2; }
  auto progs = readProgs(argv[1]);
  std::string out = argv[2];
  int nj = atoi(argv[3]);
  // a program whose compilation kills its process is recorded as an error, and
  // the worker is started again without it
  auto worker = [&](int w, const std::map<size_t, std::string>& skip) -> pid_t {
    pid_t pid = fork();
    if (pid) return pid;
    std::unique_ptr<FunctionRegistry> reg;
    if (!FunctionRegistryFactory::CreateFunctionRegistry(&reg).ok() || !RegisterIo(reg.get()).ok()) { fprintf(stderr, "jfdrv: registry initialisation failed\n"); _exit(4); }
    std::ofstream st(out + "/status." + std::to_string(w));
    std::set<std::string> decls;
    llvm::LLVMContext lc;
    std::unique_ptr<llvm::Module> all;
    std::unique_ptr<llvm::Linker> linker;
    for (size_t i = w; i < progs.size(); i += nj) {
      auto& p = progs[i];
      auto sk = skip.find(i);
      if (sk != skip.end()) { st << p.id << "\terror\t" << sk->second << "\n"; continue; }
      { std::ofstream cur(out + "/cur." + std::to_string(w)); cur << i; }
      alarm(60);
      std::string ir;
      std::string err;
      std::string rets;
      ExecEngineOption opt;
      opt.dump_ir = true;
      opt.fp_math_mode = FPMathMode::kStrict;
      const std::string& head = p.s.l[0].a;
      try {
      if (head == "batch") {
        BatchExecEngine e(opt);
        std::vector<NP> v = builds(p.s, 1);
        Status s = e.Compile(v, reg);
        if (!s.ok()) err = s.ToString(); else {
          ir = std::string(e.GetIRCode());
          for (size_t k = 0; k < e.GetFunctionCount(); k++) rets += (k ? "," : "") + TypeHelper::TypeToString(e.GetReturnType(k));
        }
#ifdef JF_ATHENA
      } else if (head == "athena") {
        athena::AthenaExpression e(opt);
        Status s = e.Compile(p.s.l[1].a, reg);
        if (!s.ok()) err = s.ToString(); else ir = std::string(e.GetIRCode());
      } else if (head == "pipeline") {
        athena::AthenaPipeline e(opt);
        std::vector<std::string> v;
        for (size_t k = 1; k < p.s.l.size(); k++) v.push_back(p.s.l[k].a);
        Status s = e.Compile(v, reg);
        if (!s.ok()) err = s.ToString(); else ir = std::string(e.GetIRCode());
#endif
      } else {
        ExecEngine e(opt);
        NP n = build(p.s);
        Status s = e.Compile(n, reg);
        if (!s.ok()) err = s.ToString(); else { ir = std::string(e.GetIRCode()); rets = TypeHelper::TypeToString(n->GetReturnType()); }
      }
      } catch (std::exception& ex) { err = std::string("exception: ") + ex.what(); }
      if (!err.empty()) { st << p.id << "\terror\t" << esc(err) << "\n"; st.flush(); continue; }
      llvm::SMDiagnostic d;
      auto m = llvm::parseIR(llvm::MemoryBufferRef(ir, "ir"), d, lc);
      if (!m) { st << p.id << "\terror\tcannot parse the dumped IR: " << esc(d.getMessage().str()) << "\n"; continue; }
      std::vector<llvm::Function*> defs;
      for (auto& f : *m) {
        if (!f.isDeclaration()) { if (!f.hasLocalLinkage()) defs.push_back(&f); }
        else if (!f.isIntrinsic()) decls.insert(f.getName().str());
      }
      // the k-th function of a batch is the one the engine looks up for index k
      for (size_t k = 0; k < defs.size(); k++) if (auto* f = m->getFunction("entry" + std::to_string(k))) if (f != defs[k] && !f->isDeclaration()) for (auto& d : defs) if (d == f) std::swap(d, defs[k]);
      if (head == "pipeline") {
        // the functions of a pipeline run one after the other, in the engine's order
        auto* f = llvm::Function::Create(defs[0]->getFunctionType(), llvm::GlobalValue::ExternalLinkage, "prog_" + p.id + "_0", m.get());
        for (size_t k = 0; k < defs.size(); k++) defs[k]->setName("prog_" + p.id + "_part" + std::to_string(k));
        auto* bb = llvm::BasicBlock::Create(lc, "", f);
        for (auto* d : defs) {
          if (d->getFunctionType() != f->getFunctionType()) { err = "the functions of a pipeline have different types"; break; }
          llvm::CallInst::Create(d, {f->getArg(0), f->getArg(1), f->getArg(2)}, "", bb);
        }
        llvm::ReturnInst::Create(lc, bb);
        if (!err.empty()) { st << p.id << "\terror\t" << err << "\n"; st.flush(); continue; }
      } else {
        for (size_t k = 0; k < defs.size(); k++) defs[k]->setName("prog_" + p.id + (head == "batch" ? "_" + std::to_string(k) : ""));
      }
      // other definitions must not clash across programs
      for (auto& g : m->globals()) if (!g.isDeclaration()) g.setLinkage(llvm::GlobalValue::InternalLinkage);
      st << p.id << "\tok\t" << rets << "\t" << defs.size() << "\n";
      if (!all) { all = std::move(m); linker = std::make_unique<llvm::Linker>(*all); }
      else if (linker->linkInModule(std::move(m))) { fprintf(stderr, "jfdrv: link failed for %s\n", p.id.c_str()); _exit(5); }
    }
    if (all) {
      std::error_code ec;
      llvm::raw_fd_ostream o(out + "/progs." + std::to_string(w) + ".bc", ec);
      llvm::WriteBitcodeToFile(*all, o);
    }
    // where the JIT would bind every called function
    auto jit = llvm::orc::LLJITBuilder().create();
    std::ofstream bd(out + "/bind." + std::to_string(w));
    if (jit && reg->MappingToJIT(jit->get()).ok()) {
      for (auto& n : decls) {
        auto a = (*jit)->lookup(n);
        if (!a) { llvm::consumeError(a.takeError()); continue; }
        bd << n << "\t" << std::hex << a->getValue() << "\n";
      }
    }
    bd.close();
    st.close();
    _exit(0);
  };
  std::vector<pid_t> kids;
  for (int w = 0; w < nj; w++) kids.push_back(worker(w, {}));
  for (int w = 0; w < nj; w++) {
    std::map<size_t, std::string> skip;
    pid_t k = kids[w];
    for (int tries = 0;; tries++) {
      int s = 0;
      waitpid(k, &s, 0);
      if (WIFEXITED(s) && !WEXITSTATUS(s)) break;
      size_t i;
      std::ifstream cur(out + "/cur." + std::to_string(w));
      if (tries > 60 || !(cur >> i) || skip.count(i)) return 6;
      skip[i] = std::string("compiling it kills the process (") + (WIFSIGNALED(s) ? "signal " + std::to_string(WTERMSIG(s)) : "exit " + std::to_string(WEXITSTATUS(s))) + ")";
      k = worker(w, skip);
    }
  }
  return 0;
}

extern "C" __attribute__((weak)) int jf_symbolic(unsigned long long) { return 0; }
