// Summaries of leaf functions: a function that only computes on memory handed to it is analysed once per
// shape of its arguments; callers then use what was found (range of the result, bytes it may write).
#include "session.h"
#include <cstring>
using std::string;
using std::vector;
static bool leafOk(Engine &E, const Func &F) {
  if (F.decl || F.varargs || F.retPtr || F.nargs == 0 || F.nargs > 4) return false;
  bool loop = false;
  static const std::set<string> ok = {"memcpy", "memmove", "memset", "strlen", "strnlen", "memcmp", "strncmp", "strcmp", "tolower", "toupper", "isdigit", "log_print", "__errno_location"};
  for (auto &b : F.bl) {
    if (b.loopHead) loop = true;
    for (auto &i : b.in) if (i.op == I_CALL) {
      if (i.callee.k != O_FUNC) return false;
      const string &n = E.P.fn[i.callee.idx].name;
      if (n.compare(0, 5, "llvm.") && !ok.count(n)) return false;
    }
  }
  return loop;
}
struct Summary { bool ok = false; bool ret = false; i64 lo = 0, hi = 0; vector<std::pair<i64, i64>> wr; };
bool Engine::leafCall(State *s, const Inst &I, const Func &F, vector<Val> &args) {
  static std::map<int, bool> cand;
  static std::map<vector<i64>, Summary> memo;
  auto c = cand.find(F.idx);
  if (c == cand.end()) c = cand.insert({F.idx, leafOk(*this, F)}).first;
  if (!c->second) { if (getenv("AI_LEAF")) fprintf(stderr, "not leaf %s\n", F.name.c_str()); return false; }
  vector<i64> key{F.idx};
  std::set<int> seen;
  for (size_t i = 0; i < args.size(); i++) {
    Val &v = args[i];
    if (v.k == V_INT) {
      Lin l = norm(s, v.l);
      key.push_back(1); key.push_back(inf(s, l)); key.push_back(sup(s, l));
    } else if (v.k == V_PTR) {
      Obj *o = ro(s, v.id);
      if (!o || o->freed || o->clob || !seen.insert(v.id).second) { if (getenv("AI_LEAF")) fprintf(stderr, "obj %s %zu %d\n", F.name.c_str(), i, o ? o->clob : -1); return false; }
      Lin av = o->size - v.l;
      if (v.shi >= 0) av = Lin(v.shi) - v.l;
      i64 n = inf(s, av, 3);
      if (n <= 0 || n > (1 << 24) || inf(s, v.l, 3) < 0) { if (getenv("AI_LEAF")) fprintf(stderr, "size %s %zu %lld\n", F.name.c_str(), i, (long long)n); return false; }
      Lin hi; i64 sb = -1;
      if (strBound(s, v, hi)) { sb = sup(s, hi, 3); if (sb < 0 || sb >= n) sb = -1; }
      key.push_back(2); key.push_back(n); key.push_back(sb);
    } else return false;
  }
  // first as if only the ends of the buffers were known, then with what is known about the strings in them
  vector<i64> wide = key;
  for (size_t k = 1; k < wide.size(); k += 3) if (wide[k] == 2 && wide[k + 2] >= 0) wide[k + 2] = wide[k + 1] - 1;
  auto it = memo.end();
  for (int lvl = 0; lvl < 6; lvl++) {
    auto &kk = lvl < 3 ? wide : key;
    vector<i64> mk = kk; mk.push_back(lvl % 3);
    it = memo.find(mk);
    if (it != memo.end()) { if (it->second.ok) break; continue; }
    Summary R; R.wr.resize(args.size(), {INF, -INF});
    Engine U(P);
    U.setup(); U.stdIntrinsics();
    U.fine[F.name] = lvl % 3; U.leakCheck = false; U.maxArr = 40000; U.noLeaf = U.unit = true;
    State *t = U.blank();
    vector<Val> av; vector<int> ids;
    for (size_t i = 0, k = 1; i < args.size(); i++, k += 3) {
      if (kk[k] == 1) { av.push_back(kk[k + 1] == kk[k + 2] ? Val::I(kk[k + 1]) : Val::L(Lin::sym(U.newSym(t, kk[k + 1], kk[k + 2])))); ids.push_back(-1); }
      else {
        int id = U.newObj(t, K_HEAP, Lin(kk[k + 1]), false, 0, "argument");
        if (kk[k + 2] >= 0) { Obj &o = U.rw(t, id); o.hasNul = true; o.nulLo = Lin(0); o.nulHi = Lin(kk[k + 2] + 1); }
        av.push_back(Val::P(id)); ids.push_back(id);
      }
    }
    bool bad = false; i64 lo = INF, hi = -INF;
    int nOwn = t->ob.size();
    vector<State *> out; U.sink = &out;
    U.atRet = [&](Engine &X, State *x, const Val &v) {
      if (F.retVoid) return;
      if (v.k != V_INT) { bad = true; return; }
      lo = std::min(lo, X.inf(x, v.l, 3)); hi = std::max(hi, X.sup(x, v.l, 3));
    };
    U.atMerge = [&](Engine &X, State *x) {               // bytes written so far are only data
      for (size_t i = 0; i < x->ob.size(); i++) if (x->ob[i] && !x->ob[i]->prov.empty()) X.rw(x, i).prov.clear();
      for (int id : ids) if (id >= 0 && id < (int)x->ob.size() && x->ob[id]) {
        Obj &o = X.rw(x, id);
        for (auto c = o.c.begin(); c != o.c.end();) if (c->second.size == 1) c = o.c.erase(c); else ++c;
      }
    };
    U.onWrite = [&](Engine &X, State *x, const Val &p, const Lin &len) {
      if (p.k != V_PTR) { bad = true; return; }
      for (size_t i = 0; i < ids.size(); i++) if (ids[i] >= 0 && ids[i] == p.id) {
        R.wr[i].first = std::min(R.wr[i].first, X.inf(x, p.l, 3)); R.wr[i].second = std::max(R.wr[i].second, X.sup(x, p.l + len, 3));
        return;
      }
      Obj *o = X.ro(x, p.id);
      if (p.id < nOwn && p.id != X.errnoObj && !(o && o->kind == K_STACK)) bad = true;
    };
    U.call(t, F.idx, av, -1, 1);
    try { U.run(t); U.explore(); U.rankCheck(); } catch (Refine &) { bad = true; }
    for (State *x : out) delete x;
    R.ok = !bad && U.viol.empty() && U.incomplete.empty() && (F.retVoid || lo <= hi);
    R.ret = !F.retVoid; R.lo = lo; R.hi = hi;
    nInst += U.nInst; nAcc += U.nAcc; nFork += U.nFork; nArr += U.nArr;
    for (auto &x : U.accSites) accSites.insert(x);
    obs["leaf functions summarised"]++;
    it = memo.insert({mk, R}).first;
    if (getenv("AI_STAT")) { for (i64 q : mk) fprintf(stderr, "%lld ", (long long)q); fprintf(stderr, "nodes %zu ", U.nodes.size()); fprintf(stderr, "summary %s ok%d ret [%lld,%lld] viol %zu", F.name.c_str(), R.ok, (long long)lo, (long long)hi, U.viol.size()); for (auto &w : R.wr) fprintf(stderr, " w[%lld,%lld)", (long long)w.first, (long long)w.second); for (auto &x : U.viol) fprintf(stderr, " %s", x.first.c_str()); for (auto &x : U.incomplete) fprintf(stderr, " %s", x.c_str()); fprintf(stderr, "\n"); }
    if (R.ok) break;
  }
  Summary &R = it->second;
  if (!R.ok) return false;
  fnSeen.insert(F.idx);
  for (size_t i = 0; i < args.size(); i++) if (args[i].k == V_PTR && R.wr[i].first < R.wr[i].second) clobber(s, args[i].id, args[i].l + Lin(R.wr[i].first), Lin(R.wr[i].second - R.wr[i].first));
  if (R.ret && I.dst >= 0) setReg(s, I.dst, R.lo == R.hi ? Val::I(R.lo) : Val::L(Lin::sym(newSym(s, R.lo, R.hi))));
  return true;
}
