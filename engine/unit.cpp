// Units: a driver (drv/NAME.c, compiled against the repository's headers and linked with its IR) calls the
// repository's own functions on unknown inputs; the driver is interpreted like any other code. Drivers state
// what must hold with vf_check and replace parts of the environment by functions called ov_NAME.
#include "session.h"
using std::string;
using std::vector;
static string g_unitProps;
static string after(State *s) { for (Ref<Tr> t = s->tr; t; t = t->up) if (t->s.compare(0, 6, "calls ") == 0) return ", after " + t->s.substr(6); return ""; }
bool runUnit(Engine &E, const string &name) {
  g_mode = "unit";
  initLayout(E);
  int f = E.P.f("drv_" + name);
  if (f < 0 || E.P.fn[f].decl) { E.incomplete.insert("driver missing: drv_" + name); return false; }
  // the repository's own code is interpreted, not summarised, unless the driver keeps a summary
  std::set<string> keep;
  { auto g = E.P.glIdx.find("vf_keep"); if (g != E.P.glIdx.end() && E.statOf.count(g->second)) { Obj *o = E.stat[-2 - E.statOf[g->second]].p; if (o && o->str) { string w; for (char c : *o->str) { if (c == ' ' || !c) { keep.insert(w); w.clear(); } else w += c; } keep.insert(w); } } }
  for (auto it = E.intr.begin(); it != E.intr.end();) {
    int x = E.P.f(it->first);
    if (x >= 0 && !E.P.fn[x].decl && !keep.count(it->first)) it = E.intr.erase(it); else ++it;
  }
  for (auto &F : E.P.fn) if (F.name.compare(0, 3, "ov_") == 0 && !F.decl) {
    int t = F.idx;
    auto over = [t](Engine &E, State *s, const Inst &I, vector<Val> &a) {
      vector<Val> b(a.begin(), E.P.fn[t].varargs ? a.end() : a.begin() + std::min(a.size(), (size_t)E.P.fn[t].nargs));
      E.call(s, t, b, I.dst);
    };
    string n = F.name.substr(3);
    E.intr[n] = over;
    if (n == "memcpy" || n == "memmove" || n == "memset") for (auto &G : E.P.fn) if (G.name.compare(0, 6 + n.size(), "llvm." + n + ".") == 0) E.intr[G.name] = over;
  }
  auto own = [](Engine &E, int f) { int x = E.P.fn[f].file; return x >= 0 && E.P.files[x].find("/drv/") != string::npos && E.P.files[x].find("/src/") == string::npos; };
  E.onCall = [own](Engine &E, State *s, const string &n, vector<Val> &) {
    if (s->fr.empty() || !own(E, s->fr.back()->fn)) return;
    int t = E.P.f(n);
    if (t < 0 || E.P.fn[t].decl || own(E, t) || E.intr.count(n)) return;
    E.trace(s, "calls " + n + " (" + (E.P.fn[t].file >= 0 ? E.P.files[E.P.fn[t].file] : "?") + ":" + std::to_string(E.P.fn[t].line) + ")");
  };
#define HU [](Engine &E, State *s, const Inst &I, vector<Val> &a)
  E.intr["vf_choice"] = HU {
    i64 n = E.norm(s, a[0].l).k;
    for (i64 i = 1; i < n; i++) { State *t = E.clone(s); E.ret(t, I, Val::I(i)); E.push(t); }
    E.ret(s, I, Val::I(0));
  };
  // keeps the cases of the driver apart: states with different numbers are never merged
  E.intr["vf_case"] = HU { s->g.v[31] = s->g.v[31] * 67 + (int)E.norm(s, a[0].l).k + 1; };
  E.intr["vf_any"] = HU { 
    Val v = E.fresh(s, E.inf(s, a[0].l), E.sup(s, a[1].l));
    if (!a[0].isC()) E.assumeLe(s, a[0].l - v.l);
    if (!a[1].isC()) E.assumeLe(s, v.l - a[1].l);
    E.ret(s, I, v);
  };
  E.intr["vf_check"] = HU {
    string m;
    if (a[1].k == V_PTR) if (Obj *o = E.ro(s, a[1].id)) if (o->str) m = o->str->c_str();
    std::set<string> ps; size_t c = m.find(": ");           // "P18 P29: what must hold"
    if (c != string::npos) { for (size_t i = 0; i + 3 <= c; i += 4) ps.insert(m.substr(i, 3)); m = m.substr(c + 2); }
    E.obs[m]++;
    int t = a[0].k == V_BOOL ? E.truth(s, a[0]) : a[0].k == V_INT ? (E.norm(s, a[0].l).cst() ? E.norm(s, a[0].l).k != 0 : (E.inf(s, a[0].l) > 0 || E.sup(s, a[0].l) < 0) ? 1 : -1) : a[0].k == V_PTR ? 1 : -1;
    if (t != 1 && getenv("AI_DBG")) { extern void dumpState(Engine &, State *, FILE *); fprintf(stderr, "#### %s\n", m.c_str()); dumpState(E, s, stderr); }
    if (t != 1) { E.report(s, t == 0 ? "rule" : "unproved", "not so: " + m + after(s), {ps.begin(), ps.end()}); E.kill(s); }
  };
  E.intr["vf_assume"] = HU {
    if (a[0].k == V_BOOL) { if (!E.assume(s, a[0], true)) E.kill(s); }
    else if (a[0].k == V_INT) { Lin l = E.norm(s, a[0].l); if (l.cst()) { if (!l.k) E.kill(s); } else if (!E.assumeNe(s, l)) E.kill(s); }
  };
  E.intr["vf_str"] = HU {
    i64 mx = E.norm(s, a[0].l).k;
    Lin n = Lin::sym(E.newSym(s, 0, mx));
    int o = E.newObj(s, K_EXT, n + Lin(1), false, E.siteId(s), "text");
    Obj &w = E.rw(s, o); w.unk.push_back({0, INF}); w.hasNul = true; w.nulLo = n; w.nulHi = n + Lin(1);
    E.ret(s, I, Val::P(o));
  };
  E.intr["vf_mem"] = HU {
    Lin n = E.norm(s, a[0].l);
    int o = E.newObj(s, K_EXT, n, false, E.siteId(s), "data");
    Obj &w = E.rw(s, o); w.unk.push_back({0, INF});
    E.ret(s, I, Val::P(o));
  };
  // n bytes of unknown content arrive at p
  E.intr["vf_data"] = HU { if (a[0].k == V_PTR && E.chkAcc(s, a[0], a[1].l, true, "receives")) E.clobber(s, a[0].id, a[0].l, a[1].l); };
  // the i-th variable argument of the innermost call that has any
  E.intr["vf_arg"] = HU {
    i64 i = E.norm(s, a[0].l).k;
    for (size_t k = s->fr.size(); k-- > 0;) if (s->fr[k]->va.size()) { E.ret(s, I, i >= 0 && i < (i64)s->fr[k]->va.size() ? s->fr[k]->va[i] : Val::I(0)); return; }
    E.ret(s, I, Val::I(0));
  };
  E.intr["vf_note"] = HU { if (a[0].k == V_PTR) if (Obj *o = E.ro(s, a[0].id)) if (o->str) E.trace(s, o->str->c_str()); };
  // 1 if the pointer refers to memory that may still be used
  E.intr["vf_live"] = HU { if (a[0].k == V_PTR) { Obj *o = E.ro(s, a[0].id); E.ret(s, I, Val::I(o && !o->freed)); } else E.ret(s, I, Val::I(0)); };
  string props;
  { auto g = E.P.glIdx.find("vf_props"); if (g != E.P.glIdx.end() && E.statOf.count(g->second)) { Obj *o = E.stat[-2 - E.statOf[g->second]].p; if (o && o->str) props = o->str->c_str(); } }
  E.classify = [props](Engine &, State *, const Viol &v) { vector<string> r; if (v.kind == "uaf") r.push_back("P05"); if (v.kind == "null") r.push_back("P09"); for (size_t i = 0; i + 3 <= props.size(); i += 4) r.push_back(props.substr(i, 3)); return r; };
  E.leakCheck = false; E.rank = false;
  E.fineAll = 2; E.patience = E.P.glIdx.count("vf_join") ? 4 : 12; E.noLeaf = true; E.minDepth = 6;
  if (E.P.glIdx.count("vf_table")) { E.table = true; E.fineAll = 3; E.patience = 1; }
  bool full = E.P.glIdx.count("vf_full");     // loops over known counts only: follow every pass
  E.unrolled = [own, full, &E](int f) { return full || own(E, f); };
  State *s = E.blank();
  if (!s) { E.incomplete.insert("no initial state"); return false; }
  E.ends = 0;
  E.call(s, f, {}, -1, 0);
  E.run(s);
  E.explore();
  E.obs["ends of the driver"] = E.ends;
  if (!E.ends && E.viol.empty()) E.incomplete.insert("the driver never finishes");
  return true;
}
