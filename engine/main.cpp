#include "session.h"
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
using std::string;
static string esc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void dump(Engine &E, const char *out, const string &what, double secs) {
  FILE *f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\n \"analysis\": \"%s\", \"wall_s\": %.2f,\n \"functions\": [", what.c_str(), secs);
  bool first = true;
  for (int x : E.fnSeen) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(E.P.fn[x].name).c_str()); first = false; }
  fprintf(f, "],\n \"counts\": {\"instructions\": %zu, \"states\": %zu, \"merge_points\": %zu, \"arrivals\": %zu, \"edges\": %zu, \"accesses\": %zu, \"access_sites\": %zu, \"call_sites\": %zu, \"unresolved_accesses\": %zu},\n", E.nInst, E.nFork, E.nodes.size(), E.nArr, E.edges.size(), E.nAcc, E.accSites.size(), E.callSites.size(), E.nUnres);
  fprintf(f, " \"obligations\": {"); first = true;
  for (auto &x : E.obs) { fprintf(f, "%s\"%s\": %zu", first ? "" : ", ", esc(x.first).c_str(), x.second); first = false; }
  fprintf(f, "},\n \"facts\": {"); first = true;
  for (auto &x : g_facts) { fprintf(f, "%s\"%s\": \"%s\"", first ? "" : ", ", esc(x.first).c_str(), esc(x.second).c_str()); first = false; }
  fprintf(f, "},\n \"unresolved_sites\": ["); first = true;
  for (auto &x : E.unresSites) { fprintf(f, "%s\"%s:%d\"", first ? "" : ",", x.first >= 0 ? E.P.fn[x.first].name.c_str() : "?", x.second); first = false; }
  fprintf(f, "],\n \"incomplete\": ["); first = true;
  for (auto &x : E.incomplete) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(x).c_str()); first = false; }
  fprintf(f, "],\n \"violations\": ["); first = true;
  for (auto &p : E.viol) {
    Viol &v = p.second;
    fprintf(f, "%s\n  {\"kind\": \"%s\", \"function\": \"%s\", \"file\": \"%s\", \"line\": %d, \"msg\": \"%s\", \"props\": [", first ? "" : ",", esc(v.kind).c_str(), esc(v.fn).c_str(), esc(v.file).c_str(), v.line, esc(v.msg).c_str());
    first = false;
    for (size_t i = 0; i < v.props.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", v.props[i].c_str());
    fprintf(f, "], \"trace\": [");
    for (size_t i = 0; i < v.trace.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(v.trace[i]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]\n}\n");
  if (out) fclose(f);
}
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: analyse PROG.bc MODE [OUT.json]\n"); return 2; }
  auto t0 = std::chrono::steady_clock::now();
  if (!strcmp(argv[2], "rules")) { extern int runRules(const char *, const char *); return runRules(argv[1], argc > 3 ? argv[3] : nullptr); }
  Prog P;
  loadProg(argv[1], P);
  string mode = argv[2];
  { extern void loadHints(const char *); if (const char *h = getenv("AI_HINTS")) loadHints(h); }
  if (getenv("AI_NOFAULT")) g_faults = false;
  std::map<string, int> fine = {{"dns_response_analyze", 3}};     // known to need it; others are found on the way
  int rounds = 0;
again:
  Engine *Ep = new Engine(P);
  Engine &E = *Ep;
  E.fine = fine;
  E.table = mode == "http" || mode == "https" || mode == "secret";
  if (E.table) for (auto &F : P.fn) if (!F.decl && F.file >= 0 && P.files[F.file].find("http/") != string::npos) E.fine[F.name] = 3;   // request parsing
  g_facts.clear();
  E.setup();
  E.stdIntrinsics();
  if (getenv("AI_MAX")) E.maxArr = atoll(getenv("AI_MAX"));
  try { extern bool runUnit(Engine &, const string &); if (mode.compare(0, 5, "unit:") == 0) runUnit(E, mode.substr(5)); else runSession(E, mode); } catch (Refine &) {
    fine = E.fine; rounds++;
    if (getenv("AI_STAT")) { fprintf(stderr, "refine: (%zu nodes %zu arrivals %s)", E.nodes.size(), E.nArr, E.incomplete.empty() ? "" : E.incomplete.begin()->c_str()); for (auto &x : fine) fprintf(stderr, " %s=%d", x.first.c_str(), x.second); fprintf(stderr, "\n"); }
    goto again;
  }
  { extern void saveHints(Engine &, const char *); if (const char *h = getenv("AI_LEARN")) saveHints(E, h); }
  if (getenv("AI_STAT")) {
    std::map<string, int> c; std::map<string, long> vs, ar;
    for (auto &n : E.nodes) { string k = n.point == 0 ? "head" : n.fn >= 0 ? E.P.fn[n.fn].name + ":" + std::to_string(n.bl) : "?"; c[k]++; vs[k] += n.ver; ar[k] += n.arr; }
    for (auto &x : c) fprintf(stderr, "%7d %s versions %ld arrivals %ld\n", x.second, x.first.c_str(), vs[x.first], ar[x.first]);
  }
  double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  dump(E, argc > 3 ? argv[3] : nullptr, mode, secs);
  fflush(stdout);
  _exit(0);
}
