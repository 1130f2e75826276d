// vpsym: bounded symbolic execution of LLVM bitcode with z3.
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <pthread.h>
#include <fstream>
#include <sstream>
using namespace llvm;
static std::string js(const std::string &s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
// clang reads the guard of thread-local initialisers without llvm.threadlocal.address: make every such access explicit
static void explicitTls(Module &M) {
  SmallVector<Constant *, 8> tls; for (auto &g : M.globals()) if (g.isThreadLocal()) tls.push_back(&g);
  convertUsersOfConstantsToInstructions(tls);
  for (auto &F : M) for (auto &B : F) for (auto &I : B) {
    if (isa<PHINode>(I) || (isa<IntrinsicInst>(I) && cast<IntrinsicInst>(I).getIntrinsicID() == Intrinsic::threadlocal_address)) continue;
    for (auto &op : I.operands()) if (auto *g = dyn_cast<GlobalVariable>(op.get())) if (g->isThreadLocal()) { IRBuilder<> b(&I); op.set(b.CreateThreadLocalAddress(g)); }
  }
}
struct Job { int argc; char **argv; int rc; };
static int realMain(int argc, char **argv) {
  Options o; std::string bc, out; std::string repo = "/repo/";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") o.entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") o.timeLimit = std::stod(nx());
    else if (a == "--max-insts") o.maxInsts = std::stoull(nx()); else if (a == "--races") o.races = true; else if (a == "--pb") { o.pb = std::stoi(nx()); }
    else if (a == "--no-por") o.por = false; else if (a == "--max-viol") o.maxViol = std::stoul(nx()); else if (a == "--alloc-limit") o.allocLimit = std::stoull(nx());
    else if (a == "--timeouts") o.maxTimeouts = std::stoul(nx()); else if (a == "--spurious") o.maxSpurious = std::stoul(nx()); else if (a == "--max-steps") o.maxSteps = std::stoull(nx());
    else if (a == "--solver-ms") gSolverTimeoutMs = std::stoul(nx()); else if (a == "--real-log") o.realLog = true; else if (a == "-v") o.verbose = true; else if (a == "--mem") o.memLimitMb = std::stoul(nx());
    else if (a == "--follow") o.follow = nx(); else if (a == "--follow-kinds") o.followKinds = nx(); else if (a == "--max-paths") o.maxPaths = std::stoull(nx());
    else if (a == "-P") { std::string kv = nx(); auto p = kv.find('='); o.params[kv.substr(0, p)] = std::stoll(kv.substr(p + 1)); }
    else bc = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("vpsym", errs()); return 3; }
  explicitTls(*M);
  auto *F = M->getFunction(o.entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", o.entry.c_str()); return 3; }
  Exec X(*M, o);
  X.run();
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - X.t0).count();
  // labels in the entry's module that were never reached
  std::ostringstream j;
  j << "{\n\"entry\": " << js(o.entry) << ",\n\"seconds\": " << dt << ",\n\"paths_complete\": " << X.nComplete << ", \"paths_incomplete\": " << X.nIncomplete << ", \"paths_assumed_away\": " << X.nAssume
    << ", \"paths_pruned\": " << X.nPruned << ", \"paths_violating\": " << X.nViol << ",\n\"forks\": " << X.nForks << ", \"instructions\": " << X.nInsts << ", \"sched_points\": " << X.nSchedPoints
    << ",\n\"checks\": " << X.nChecks << ", \"checks_symbolic\": " << X.nChecksSolver << ",\n\"queries\": " << gStats.queries << ", \"queries_sat\": " << gStats.sat << ", \"queries_unsat\": " << gStats.unsat
    << ", \"queries_unknown\": " << gStats.unknown << ", \"query_cache_hits\": " << gStats.cacheHits << ", \"model_reuse_hits\": " << gStats.modelHits << ", \"solver_seconds\": " << gStats.seconds << ", \"max_query_seconds\": " << gStats.maxQuery
    << ",\n\"timed_out\": " << (X.timedOut ? "true" : "false") << ",\n\"reached\": [";
  bool first = true; for (auto &r : X.reached) { j << (first ? "" : ", ") << js(r); first = false; }
  j << "],\n\"check_messages\": {"; first = true; for (auto &r : X.checkMsgs) { j << (first ? "" : ", ") << js(r.first) << ": " << r.second; first = false; }
  j << "},\n\"incomplete\": {"; first = true; for (auto &r : X.incomplete) { j << (first ? "" : ", ") << js(r.first) << ": " << r.second; first = false; }
  j << "},\n\"functions\": ["; first = true;
  for (auto &p : X.fns) { auto *fi = p.second; if (fi->hits && fi->file.find(repo) != std::string::npos) { j << (first ? "" : ", ") << js(demangle(fi->name)); first = false; } }
  j << "],\n\"violations\": ["; first = true;
  for (auto &v : X.viols) {
    j << (first ? "" : ",") << "\n {\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"loc\": " << js(v.loc) << ", \"stack\": " << js(v.stack) << ", \"trace\": " << js(v.trace) << ", \"trace_kinds\": " << js(v.traceKinds) << ", \"inputs\": [";
    bool f2 = true; for (auto &p : v.inputs) { j << (f2 ? "" : ", ") << "[" << js(p.first) << ", " << js(p.second) << "]"; f2 = false; }
    j << "]}"; first = false;
  }
  j << "]\n}\n";
  if (out.empty()) fputs(j.str().c_str(), stdout); else { std::ofstream of(out); of << j.str(); }
  fflush(stdout); fflush(stderr);
  _exit(X.viols.empty() ? 0 : 1);
}
static void *tmain(void *p) { Job *j = (Job *)p; j->rc = realMain(j->argc, j->argv); return nullptr; }
int main(int argc, char **argv) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30);
  pthread_t t; Job j{argc, argv, 3};
  if (pthread_create(&t, &at, tmain, &j)) return 3;
  pthread_join(t, nullptr);
  return j.rc;
}
