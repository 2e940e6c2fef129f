// Whole-program rules over the linked IR that need no abstract state: formats (P14), signal handlers (P25), locks (P21).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/IR/CFG.h"
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;
namespace {
struct V { string kind, fn, file, msg, prop; int line; std::vector<string> trace; };
std::vector<V> viol;
std::map<string, size_t> obs;
std::set<string> fns, facts;
Module *M;
const DataLayout *DL;

void report(const Instruction *I, const string &kind, const string &msg, const string &prop, std::vector<string> tr = {}) {
  V v; v.kind = kind; v.msg = msg; v.prop = prop; v.line = 0; v.trace = tr;
  if (I) { v.fn = I->getFunction()->getName().str(); if (auto *sp = I->getFunction()->getSubprogram()) v.file = sp->getFilename().str(); if (I->getDebugLoc()) v.line = I->getDebugLoc().getLine(); }
  for (auto &o : viol) if (o.fn == v.fn && o.line == v.line && o.msg == v.msg) return;
  viol.push_back(v);
}
string at(const Instruction *I) { string f; if (auto *sp = I->getFunction()->getSubprogram()) f = sp->getFilename().str(); return f + ":" + std::to_string(I->getDebugLoc() ? I->getDebugLoc().getLine() : 0) + " in " + I->getFunction()->getName().str(); }
bool vendored(const Function &F) { auto *sp = F.getSubprogram(); return sp && sp->getFilename().contains("cJSON"); }

// ---------------------------------------------------------------- formats
const std::map<string, int> FMT = {{"printf", 0}, {"vprintf", 0}, {"fprintf", 1}, {"vfprintf", 1}, {"dprintf", 1}, {"vdprintf", 1}, {"sprintf", 1}, {"vsprintf", 1},
  {"snprintf", 2}, {"vsnprintf", 2}, {"asprintf", 1}, {"vasprintf", 1}, {"syslog", 1}, {"vsyslog", 1}, {"err", 1}, {"errx", 1}, {"warn", 0}, {"warnx", 0}};
string fieldKey(const Value *p) {       // a member of a named struct type, wherever the object is
  auto *g = dyn_cast<GEPOperator>(p);
  if (!g) return "";
  auto *st = dyn_cast<StructType>(g->getSourceElementType());
  if (!st || !st->hasName() || !g->hasAllConstantIndices()) return "";
  string n = st->getName().str();
  size_t d = n.rfind('.');
  if (d != string::npos && d > 7 && n.find_first_not_of("0123456789", d + 1) == string::npos) n = n.substr(0, d);
  string k = n;
  for (unsigned i = 2; i < g->getNumOperands(); i++) k += "/" + std::to_string(cast<ConstantInt>(g->getOperand(i))->getSExtValue());
  return k;
}
bool constText(const Value *v, std::vector<string> &out) {
  v = v->stripPointerCasts();
  APInt off(64, 0);
  const Value *b = v;
  if (auto *g = dyn_cast<GEPOperator>(v)) { if (!g->accumulateConstantOffset(*DL, off)) return false; b = g->getPointerOperand()->stripPointerCasts(); }
  auto *gv = dyn_cast<GlobalVariable>(b);
  if (!gv || !gv->isConstant() || !gv->hasInitializer()) return false;
  if (auto *ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) { if (ca->isString()) { string s = ca->getAsString().str(); s = off.getZExtValue() <= s.size() ? s.substr(off.getZExtValue()) : ""; out.push_back(s.c_str()); return true; } return false; }
  if (gv->getInitializer()->isNullValue()) { out.push_back(""); return true; }
  return false;
}
struct Src { std::vector<string> texts; std::set<std::pair<const Function *, unsigned>> args; const Instruction *bad = nullptr; bool unknown = false; };
void trace(const Value *v, Src &S, std::set<const Value *> &seen) {
  v = v->stripPointerCasts();
  if (!seen.insert(v).second) return;
  if (constText(v, S.texts)) return;
  if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return;
  if (auto *a = dyn_cast<Argument>(v)) { S.args.insert({a->getParent(), a->getArgNo()}); return; }
  if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) trace(o, S, seen); return; }
  if (auto *s = dyn_cast<SelectInst>(v)) { trace(s->getTrueValue(), S, seen); trace(s->getFalseValue(), S, seen); return; }
  if (auto *g = dyn_cast<GEPOperator>(v)) { trace(g->getPointerOperand(), S, seen); return; }   // the tail of a constant text
  if (auto *l = dyn_cast<LoadInst>(v)) {
    const Value *p = l->getPointerOperand()->stripPointerCasts();
    string k = fieldKey(p);
    const Value *base = k.empty() ? p : nullptr;
    if (base && !isa<AllocaInst>(base) && !isa<GlobalVariable>(base)) {
      if (auto *g = dyn_cast<GEPOperator>(base)) if (auto *gv = dyn_cast<GlobalVariable>(g->getPointerOperand()->stripPointerCasts())) if (gv->isConstant() && gv->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gv->getInitializer())) {
        for (auto &o : ca->operands()) trace(o, S, seen);
        return;
      }
      S.unknown = true; S.bad = l; return;
    }
    bool any = false;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *st = dyn_cast<StoreInst>(&I)) {
      const Value *q = st->getPointerOperand()->stripPointerCasts();
      if (base ? q == base : fieldKey(q) == k) { any = true; trace(st->getValueOperand(), S, seen); }
    }
    if (base) if (auto *gv = dyn_cast<GlobalVariable>(base)) { if (gv->hasInitializer()) { trace(gv->getInitializer(), S, seen); any = true; } }
    if (!any) { S.unknown = true; S.bad = l; }
    return;
  }
  S.unknown = true; S.bad = dyn_cast<Instruction>(v);
}
// the arguments one format consumes: 'i' int, 'l' long, 'd' double, 'L' long double, 'p' pointer, '!' writes through an argument
string wants(const string &f) {
  string r;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') continue;
    i++;
    while (i < f.size() && strchr("-+ #0'", f[i])) i++;
    if (i < f.size() && f[i] == '*') { r += 'i'; i++; } else while (i < f.size() && isdigit(f[i])) i++;
    if (i < f.size() && f[i] == '.') { i++; if (i < f.size() && f[i] == '*') { r += 'i'; i++; } else while (i < f.size() && isdigit(f[i])) i++; }
    int lg = 0; bool ld = false;
    while (i < f.size() && strchr("hlzjtLq", f[i])) { if (strchr("lzjtq", f[i])) lg = 1; if (f[i] == 'L') ld = true; i++; }
    if (i >= f.size()) { r += '?'; break; }
    switch (f[i]) {
      case 'd': case 'i': case 'u': case 'o': case 'x': case 'X': r += lg || ld ? 'l' : 'i'; break;
      case 'c': r += 'i'; break;
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': r += ld ? 'L' : 'd'; break;
      case 's': case 'p': r += 'p'; break;
      case 'n': r += '!'; break;
      case '%': case 'm': break;
      default: r += '?';
    }
  }
  return r;
}
char kindOf(Type *t) { return t->isPointerTy() ? 'p' : t->isDoubleTy() ? 'd' : t->isX86_FP80Ty() ? 'L' : t->isIntegerTy(64) ? 'l' : t->isIntegerTy() && t->getIntegerBitWidth() <= 32 ? 'i' : '?'; }
const char *word(char c) { return c == 'i' ? "an int" : c == 'l' ? "a long" : c == 'd' ? "a double" : c == 'L' ? "a long double" : c == 'p' ? "a pointer" : "something else"; }
void formats() {
  // positions where a format is expected: library functions, then functions of the repository that forward their parameter
  std::map<std::pair<const Function *, unsigned>, bool> expects;   // -> variadic arguments follow it
  std::vector<std::pair<const Function *, unsigned>> work;
  for (auto &F : *M) { auto it = FMT.find(F.getName().str()); if (F.isDeclaration() && it != FMT.end()) { expects[{&F, (unsigned)it->second}] = F.isVarArg(); work.push_back({&F, (unsigned)it->second}); } }
  while (!work.empty()) {
    auto w = work.back(); work.pop_back();
    for (auto *U : w.first->users()) {
      auto *CB = dyn_cast<CallBase>(U);
      if (!CB || CB->getCalledOperand()->stripPointerCasts() != w.first) { if (isa<CallBase>(U)) report(cast<Instruction>(U), "format", "the address of the formatting function " + w.first->getName().str() + " is handed out, so its formats cannot be followed", "P14"); continue; }
      const Function *C = CB->getFunction();
      if (vendored(*C)) continue;
      fns.insert(C->getName().str());
      if (w.second >= CB->arg_size()) continue;
      Src S; std::set<const Value *> seen;
      trace(CB->getArgOperand(w.second), S, seen);
      obs["formats traced to their origin"]++;
      if (S.unknown) report(CB, "format", "the format of " + w.first->getName().str() + " is not a constant text" + (S.bad ? ": it comes from " + at(S.bad) : ""), "P14");
      for (auto &a : S.args) {
        // a parameter is a fine origin if every caller passes a constant; functions nobody calls have no caller to pass anything
        if (!expects.count(a)) { bool va = a.first->isVarArg() && a.second + 1 == a.first->arg_size(); expects[a] = va; work.push_back(a); if (va) facts.insert(a.first->getName().str() + " " + std::to_string(a.second + 1)); }
      }
      if (!expects[w]) continue;
      for (auto &t : S.texts) {
        string want = wants(t), have;
        for (unsigned i = w.second + 1; i < CB->arg_size(); i++) have += kindOf(CB->getArgOperand(i)->getType());
        obs["formatted calls checked"]++;
        for (size_t i = 0; i < want.size(); i++) {
          obs["formatted arguments checked"]++;
          if (want[i] == '!') { report(CB, "format", "the format writes through an argument (%n)", "P14"); break; }
          if (want[i] == '?') { report(CB, "format", "the format has an unknown or unfinished directive", "P14"); break; }
          if (i >= have.size()) { report(CB, "format", "the format wants " + std::to_string(want.size()) + " arguments but only " + std::to_string(have.size()) + " are given", "P14"); break; }
          if (want[i] != have[i]) { report(CB, "format", "argument " + std::to_string(i + 1) + " of the format is " + word(have[i]) + " but its directive expects " + word(want[i]), "P14"); break; }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- signal handlers
const std::set<string> SAFE = {"_exit", "_Exit", "abort", "accept", "access", "alarm", "bind", "chdir", "chmod", "chown", "clock_gettime", "close", "connect", "dup", "dup2", "execve", "fchmod", "fcntl", "fork", "fstat",
  "fsync", "ftruncate", "getegid", "geteuid", "getgid", "getpid", "getppid", "getuid", "kill", "link", "listen", "lseek", "lstat", "mkdir", "open", "pause", "pipe", "poll", "pselect", "raise", "read", "recv", "recvfrom",
  "rename", "select", "sem_post", "send", "sendto", "setsid", "shutdown", "sigaction", "sigaddset", "sigdelset", "sigemptyset", "sigfillset", "sigismember", "signal", "sigpending", "sigprocmask", "sigsuspend", "socket",
  "stat", "time", "umask", "unlink", "wait", "waitpid", "write", "memset", "memcpy", "memmove", "memcmp", "strlen", "strcpy", "strncpy", "strcmp", "strncmp", "__errno_location"};
void handlers() {
  std::set<const Function *> hs;
  auto isSa = [](const Value *p) { p = p->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand()->stripPointerCasts(); while (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand()->stripPointerCasts();
    if (auto *a = dyn_cast<AllocaInst>(p)) if (auto *st = dyn_cast<StructType>(a->getAllocatedType())) return st->hasName() && st->getName().starts_with("struct.sigaction");
    if (auto *g = dyn_cast<GlobalVariable>(p)) if (auto *st = dyn_cast<StructType>(g->getValueType())) return st->hasName() && st->getName().starts_with("struct.sigaction");
    return false; };
  for (auto &F : *M) for (auto &I : instructions(F)) {
    if (auto *st = dyn_cast<StoreInst>(&I)) if (isSa(st->getPointerOperand())) {
      std::vector<const Value *> q = {st->getValueOperand()}; std::set<const Value *> seen;
      while (!q.empty()) { auto *v = q.back()->stripPointerCasts(); q.pop_back(); if (!seen.insert(v).second) continue;
        if (auto *f = dyn_cast<Function>(v)) hs.insert(f);
        if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) q.push_back(o);
        if (auto *s = dyn_cast<SelectInst>(v)) { q.push_back(s->getTrueValue()); q.push_back(s->getFalseValue()); }
        if (auto *a = dyn_cast<Argument>(v)) for (auto *U : a->getParent()->users()) if (auto *C = dyn_cast<CallBase>(U)) if (a->getArgNo() < C->arg_size()) q.push_back(C->getArgOperand(a->getArgNo()));
        if (auto *l = dyn_cast<LoadInst>(v)) if (auto *g = dyn_cast<GEPOperator>(l->getPointerOperand())) if (auto *gv = dyn_cast<GlobalVariable>(g->getPointerOperand()->stripPointerCasts())) if (gv->hasInitializer()) for (auto &F2 : *M) if (F2.hasAddressTaken() && !F2.isDeclaration()) { std::vector<const Constant *> w = {gv->getInitializer()}; while (!w.empty()) { auto *c = w.back(); w.pop_back(); if (c == &F2) hs.insert(&F2); if (isa<ConstantAggregate>(c)) for (auto &o : c->operands()) w.push_back(cast<Constant>(o)); } } } }
    if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = CB->getCalledFunction()) if ((c->getName() == "signal" || c->getName() == "bsd_signal") && CB->arg_size() > 1) if (auto *f = dyn_cast<Function>(CB->getArgOperand(1)->stripPointerCasts())) hs.insert(f);
  }
  for (auto *h : hs) {
    obs["signal handlers found"]++;
    if (h->isDeclaration()) continue;
    std::map<const Function *, const Function *> from = {{h, nullptr}};
    std::vector<const Function *> q = {h};
    while (!q.empty()) {
      auto *F = q.back(); q.pop_back();
      fns.insert(F->getName().str());
      for (auto &I : instructions(const_cast<Function &>(*F))) if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<IntrinsicInst>(CB)) continue;
        std::vector<string> tr; for (auto *x = F; x; x = from[x]) tr.insert(tr.begin(), x->getName().str());
        auto *c = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        obs["calls a handler can make"]++;
        if (!c) { report(CB, "signal", "a signal handler calls through a pointer", "P25", tr); continue; }
        if (c->isDeclaration()) { if (!SAFE.count(c->getName().str())) report(CB, "signal", "a signal handler can call " + c->getName().str() + ", which is not safe at any instant", "P25", tr); }
        else if (!from.count(c)) { from[c] = F; q.push_back(c); }
      }
    }
  }
}

// ---------------------------------------------------------------- locks
// Per function and lock (named by the global or by the member it lives in): the set of held/free states at each point.
string lockKey(const Value *p) {
  p = p->stripPointerCasts();
  if (auto *g = dyn_cast<GlobalVariable>(p)) return g->getName().str();
  string k = fieldKey(p);
  if (!k.empty()) return k;
  if (auto *g = dyn_cast<GEPOperator>(p)) if (auto *gv = dyn_cast<GlobalVariable>(g->getPointerOperand()->stripPointerCasts())) return gv->getName().str() + "[]";
  if (auto *a = dyn_cast<Argument>(p)) return "argument " + std::to_string(a->getArgNo()) + " of " + a->getParent()->getName().str();
  return "?";
}
void locks() {
  auto isCall = [](const Instruction &I, const char *n) -> const CallBase * { auto *C = dyn_cast<CallBase>(&I); if (!C || !C->getCalledFunction()) return nullptr; return C->getCalledFunction()->getName() == n ? C : nullptr; };
  std::map<const Function *, std::set<string>> direct;
  for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = isCall(I, "pthread_mutex_lock")) direct[&F].insert(lockKey(C->getArgOperand(0)));
  // locks a function may take, itself or through what it calls
  std::map<const Function *, std::set<string>> may = direct;
  for (bool ch = true; ch;) { ch = false; for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *c = C->getCalledFunction()) if (may.count(c)) for (auto &k : std::set<string>(may[c])) if (may[&F].insert(k).second) ch = true; }
  for (auto &p : direct) {
    const Function &F = *p.first;
    fns.insert(F.getName().str());
    for (auto &k : p.second) {
      obs["lock users"]++;
      std::map<const BasicBlock *, int> in;     // bit 1: free, bit 2: held
      std::vector<const BasicBlock *> q = {&F.getEntryBlock()};
      in[&F.getEntryBlock()] = 1;
      while (!q.empty()) {
        auto *B = q.back(); q.pop_back();
        int st = in[B];
        for (auto &I : *B) {
          if (auto *C = isCall(I, "pthread_mutex_lock")) { if (lockKey(C->getArgOperand(0)) == k) { if (st == 2) report(&I, "lock", "lock " + k + " is taken while it is held", "P21"); st = 2; obs["lock operations"]++; } }
          else if (auto *C = isCall(I, "pthread_mutex_unlock")) { if (lockKey(C->getArgOperand(0)) == k) { if (st == 1) report(&I, "lock", "lock " + k + " is released without being held", "P21"); st = 1; obs["lock operations"]++; } }
          else if (auto *C = dyn_cast<CallBase>(&I)) { if (st == 2) if (auto *c = C->getCalledFunction()) if (may.count(c) && may[c].count(k)) report(&I, "lock", c->getName().str() + " takes lock " + k + " while it is held", "P21"); }
          else if (isa<ReturnInst>(I)) { obs["returns of lock users"]++; if (st == 2) report(&I, "lock", "lock " + k + " is still held at this return", "P21"); }
        }
        // returns share one block: look at each way into it on its own
        if (st == 2) for (auto *S : successors(B)) if (isa<ReturnInst>(S->getTerminator())) {
          bool freed = false;
          for (auto &I : *S) if (auto *C = isCall(I, "pthread_mutex_unlock")) if (lockKey(C->getArgOperand(0)) == k) freed = true;
          if (!freed) report(B->getTerminator(), "lock", "lock " + k + " is still held when the function returns from here", "P21");
        }
        for (auto *S : successors(B)) if ((in[S] | st) != in[S]) { in[S] |= st; q.push_back(S); }
      }
    }
  }
}
string esc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
}
int runRules(const char *path, const char *out) {
  LLVMContext ctx; SMDiagnostic e;
  auto m = parseIRFile(path, e, ctx);
  if (!m) return 2;
  M = m.get(); DL = &M->getDataLayout();
  formats(); handlers(); locks();
  FILE *f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\n \"analysis\": \"rules\", \"wall_s\": 0,\n \"functions\": [");
  bool first = true;
  for (auto &x : fns) { fprintf(f, "%s\"%s\"", first ? "" : ",", x.c_str()); first = false; }
  fprintf(f, "],\n \"counts\": {\"call_sites\": %zu, \"access_sites\": 0},\n \"obligations\": {", obs["formats traced to their origin"] + obs["calls a handler can make"] + obs["lock operations"]); first = true;
  for (auto &x : obs) { fprintf(f, "%s\"%s\": %zu", first ? "" : ", ", x.first.c_str(), x.second); first = false; }
  fprintf(f, "},\n \"facts\": {"); first = true;
  for (auto &x : facts) { size_t k = x.find(' '); fprintf(f, "%s\"format:%s\": \"%s\"", first ? "" : ", ", x.substr(0, k).c_str(), x.substr(k + 1).c_str()); first = false; }
  fprintf(f, "},\n \"unresolved_sites\": [], \"incomplete\": [],\n \"violations\": ["); first = true;
  for (auto &v : viol) {
    fprintf(f, "%s\n  {\"kind\": \"%s\", \"function\": \"%s\", \"file\": \"%s\", \"line\": %d, \"msg\": \"%s\", \"props\": [\"%s\"], \"trace\": [", first ? "" : ",", v.kind.c_str(), v.fn.c_str(), esc(v.file).c_str(), v.line, esc(v.msg).c_str(), v.prop.c_str());
    first = false;
    for (size_t i = 0; i < v.trace.size(); i++) fprintf(f, "%s\"calls %s\"", i ? "," : "", esc(v.trace[i]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]\n}\n");
  if (out) fclose(f);
  return 0;
}
