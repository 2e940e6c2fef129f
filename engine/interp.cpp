#include <chrono>
#include <unordered_map>
#include "ai.h"
using std::string;
using std::vector;

// ================================================================ numeric domain
Lin Engine::norm(State *s, const Lin &l) {
  bool need = false;
  for (int i = 0; i < l.n; i++) if (s->sy[l.t[i].s].lo == s->sy[l.t[i].s].hi) need = true;
  if (!need) return l;
  Lin r(l.k); r.over = l.over;
  for (int i = 0; i < l.n; i++) {
    Sym &y = s->sy[l.t[i].s];
    if (y.lo == y.hi) r.k = sat((__int128)r.k + (__int128)y.lo * l.t[i].c);
    else r.addT(l.t[i].s, l.t[i].c);
  }
  return r;
}
i64 Engine::supI(State *s, const Lin &l) {
  if (l.over) return INF;
  __int128 v = l.k;
  for (int i = 0; i < l.n; i++) {
    Sym &y = s->sy[l.t[i].s];
    i64 b = l.t[i].c > 0 ? y.hi : y.lo;
    if (b >= INF || b <= -INF) return INF;
    v += (__int128)b * l.t[i].c;
  }
  return sat(v);
}
// Bounds of many forms over one unchanging state: constraints are indexed by symbol and results kept per form.
struct SupCache {
  struct Key { int n, depth; Lin::T t[4]; bool operator==(const Key &b) const { if (n != b.n || depth != b.depth) return false; for (int i = 0; i < n; i++) if (t[i].s != b.t[i].s || t[i].c != b.t[i].c) return false; return true; } };
  struct Hash { size_t operator()(const Key &k) const { size_t h = k.n * 31 + k.depth; for (int i = 0; i < k.n; i++) h = (h ^ (size_t)(k.t[i].s * 1000003 + k.t[i].c)) * 0x9e3779b97f4a7c15ull; return h ^ h >> 29; } };
  std::unordered_map<Key, i64, Hash> m;
  vector<vector<int>> by;
  SupCache(State *s) { by.resize(s->sy.size()); for (size_t i = 0; i < s->cons.size(); i++) for (int j = 0; j < s->cons[i].n; j++) by[s->cons[i].t[j].s].push_back(i); }
};
i64 Engine::supC(State *s, const Lin &l, int depth, SupCache &C) {
  if (!depth || !l.n || l.over) return supI(s, l);
  SupCache::Key k; k.n = l.n; k.depth = depth; for (int i = 0; i < l.n; i++) k.t[i] = l.t[i];
  auto it = C.m.find(k);
  if (it != C.m.end()) return it->second >= INF ? INF : sat((__int128)it->second + l.k);
  Lin b = l; b.k = 0;
  i64 best = supI(s, b);
  for (int j = 0; j < b.n; j++) for (int ci : C.by[b.t[j].s]) {
    const Lin &c = s->cons[ci];
    for (int i = 0; i < c.n; i++) if (c.t[i].s == b.t[j].s) {
      if ((c.t[i].c > 0) != (b.t[j].c > 0) || b.t[j].c % c.t[i].c) break;
      Lin q = b - c.mul(b.t[j].c / c.t[i].c);
      if (!q.over) { i64 v = supC(s, q, depth - 1, C); if (v < best) best = v; }
      break;
    }
  }
  C.m[k] = best;
  return best >= INF ? INF : sat((__int128)best + l.k);
}
i64 Engine::sup(State *s, const Lin &l, int depth) {
  if (minDepth > depth && depth >= 2 && !deepening) { deepening = true; i64 r = sup(s, l, minDepth); deepening = false; return r; }
  if (supCache && supCacheFor == s) return supC(s, l, depth, *supCache);
  i64 best = supI(s, l);
  if (!depth || !l.n || l.over) return best;
  for (auto &c : s->cons) {
    // l <= l - m*c  for m > 0, since c <= 0
    for (int i = 0; i < c.n; i++) {
      for (int j = 0; j < l.n; j++) {
        if (c.t[i].s != l.t[j].s) continue;
        if ((c.t[i].c > 0) != (l.t[j].c > 0)) continue;
        if (l.t[j].c % c.t[i].c) continue;
        i64 m = l.t[j].c / c.t[i].c;
        Lin q = l - c.mul(m);
        if (q.over) continue;
        i64 v = (depth > 1) ? sup(s, q, depth - 1) : supI(s, q);
        if (v < best) best = v;
      }
    }
  }
  return best;
}
bool Engine::assumeLe(State *s, Lin l) {
  if (l.over) return true;
  l = norm(s, l);
  if (l.cst()) return l.k <= 0;
  if (-sup(s, l.mul(-1), 2) > 0) return false;
  // tighten intervals
  for (int i = 0; i < l.n; i++) {
    Lin rest = l; rest.addT(l.t[i].s, -l.t[i].c);
    i64 lo = -supI(s, rest.mul(-1));       // inf(rest)
    if (lo <= -INF) continue;
    Sym &y = s->sy[l.t[i].s];
    i64 c = l.t[i].c;
    // c*y <= -lo
    if (c > 0) {
      i64 b = (-lo >= 0) ? (-lo) / c : -((lo + c - 1) / c);
      if (b < y.hi) y.hi = b;
    } else {
      i64 a = -c;                           // -a*y <= -lo  => y >= lo/a (ceil)
      i64 b = (lo >= 0) ? (lo + a - 1) / a : -((-lo) / a);
      if (b > y.lo) y.lo = b;
    }
    if (y.lo > y.hi) return false;
  }
  l = norm(s, l);
  if (l.n >= 2 && supI(s, l) > 0) {
    for (auto &c : s->cons) if (c.sameTerms(l)) { if (c.k >= l.k) return true; c.k = l.k; return true; }
    s->cons.push_back(l);
  } else if (l.cst() && l.k > 0) return false;
  return true;
}
bool Engine::assumeNe(State *s, const Lin &l0) {
  if (l0.over) return true;
  Lin l = norm(s, l0);
  if (l.cst()) return l.k != 0;
  i64 hi = sup(s, l), lo = inf(s, l);
  if (hi <= 0 && lo >= 0) return false;
  if (hi < 0 || lo > 0) return true;
  if (hi <= 0) return assumeLe(s, l + Lin(1));
  if (lo >= 0) return assumeLe(s, l.mul(-1) + Lin(1));
  if (l.n == 1 && (l.t[0].c == 1 || l.t[0].c == -1)) {
    i64 v = l.t[0].c == 1 ? -l.k : l.k;
    Sym &y = s->sy[l.t[0].s];
    if (y.lo == v) y.lo++;
    if (y.hi == v) y.hi--;
    if (y.lo > y.hi) return false;
  }
  return true;
}
int Engine::truth(State *s, const Val &b) {
  if (b.k == V_PTR || b.k == V_FN || b.k == V_FD) return 1;
  if (b.k == V_TOP) return -1;
  BK k = b.k == V_INT ? B_NE : b.bk;
  Lin l = norm(s, b.l);
  if (l.over) return -1;
  if (k == B_LE) {
    if (l.cst()) return l.k <= 0;
    if (sup(s, l) <= 0) return 1;
    if (inf(s, l) > 0) return 0;
    return -1;
  }
  int eq;
  if (l.cst()) eq = l.k == 0;
  else {
    i64 hi = sup(s, l), lo = inf(s, l);
    eq = (hi < 0 || lo > 0) ? 0 : (hi <= 0 && lo >= 0) ? 1 : -1;
  }
  if (eq < 0) return -1;
  return k == B_EQ ? eq : !eq;
}
bool Engine::assume(State *s, const Val &b, bool t) {
  int tv = truth(s, b);
  if (tv >= 0) return tv == (int)t;
  if (b.k == V_TOP) return true;
  BK k = b.k == V_INT ? B_NE : b.bk;
  if (k == B_LE) return t ? assumeLe(s, b.l) : assumeLe(s, b.l.mul(-1) + Lin(1));
  bool eq = (k == B_EQ) == t;
  return eq ? assumeEq(s, b.l) : assumeNe(s, b.l);
}
Val Engine::freshBits(State *s, int bits) {
  if (bits <= 0 || bits >= 64) return fresh(s, -INF, INF);
  if (bits == 1) return fresh(s, 0, 1);
  return fresh(s, -((i64)1 << (bits - 1)), ((i64)1 << (bits - 1)) - 1);
}
static Val neg(const Val &b) {
  Val r = b;
  if (b.bk == B_LE) r.l = b.l.mul(-1) + Lin(1);
  else r.bk = b.bk == B_EQ ? B_NE : B_EQ;
  return r;
}

// ================================================================ objects
Obj *Engine::ro(State *s, int id) {
  if (id <= -2) return stat[-2 - id].p;
  if (id < 0 || id >= (int)s->ob.size()) return nullptr;
  return s->ob[id].p;
}
Obj &Engine::rw(State *s, int id) { return s->ob[id].mut(); }
int Engine::newObj(State *s, OK_ kind, const Lin &size, bool zero, int site, const char *tag) {
  Obj *o = new Obj;
  o->kind = kind; o->size = size; o->zero = zero; o->site = site; o->tag = tag;
  s->ob.push_back(Ref<Obj>(o));
  return s->ob.size() - 1;
}
static std::map<vector<int>, int> g_sites;
int Engine::siteId(State *s) {
  vector<int> k;
  int n = 0;
  for (int i = (int)s->fr.size() - 1; i >= 0 && n < 2; i--, n++) {
    Frame &f = *s->fr[i];
    k.push_back(f.fn);
    if (!i && n && !initMode) { k.push_back(-1); k.push_back(-1); continue; }   // which dispatch of the loop it was does not matter
    k.push_back(f.bl); k.push_back(f.ip);
  }
  auto it = g_sites.find(k);
  if (it != g_sites.end()) return it->second;
  int id = g_sites.size() + 1;
  g_sites[k] = id;
  return id;
}
static string siteStr(Engine &E, int id) {
  for (auto &x : g_sites) if (x.second == id) {
    string r;
    for (size_t i = 0; i + 2 < x.first.size(); i += 3) {
      Func &f = E.P.fn[x.first[i]];
      if (x.first[i + 1] < 0) { r += " < " + f.name; continue; }
      int ip = x.first[i + 2] - 1; if (ip < 0) ip = 0;
      auto &in = f.bl[x.first[i + 1]].in;
      int ln = ip < (int)in.size() ? in[ip].line : 0;
      if (r.size()) r += " < ";
      r += f.name + ":" + std::to_string(ln);
    }
    return r;
  }
  return "?";
}
void Engine::setup() {
  for (size_t i = 0; i < P.gl.size(); i++) {
    Global &g = P.gl[i];
    if (g.isConst && !g.ext) {
      Obj *o = new Obj; o->kind = K_STR; o->size = Lin(g.size); o->zero = true; o->tag = "const"; o->site = 900000 + (int)i;
      if (g.isStr) o->str = &g.str;
      stat.push_back(Ref<Obj>(o));
      statOf[i] = -2 - (int)(stat.size() - 1);
    } else if (!g.ext) { dynOf[i] = dynGl.size(); dynGl.push_back(i); }
  }
  auto gv = [&](const Opnd &o) -> Val {
    if (o.k == O_INT) return Val::I(o.iv);
    if (o.k == O_NULL) return Val::I(0);
    if (o.k == O_FUNC) return Val::F(o.idx);
    if (o.k == O_GLOBAL) {
      auto a = statOf.find(o.idx); if (a != statOf.end()) return Val::P(a->second, Lin(o.iv));
      auto b = dynOf.find(o.idx); if (b != dynOf.end()) return Val::P(b->second, Lin(o.iv));
    }
    return Val();
  };
  for (auto &x : statOf) { Obj *o = stat[-2 - x.second].p; if (!o->str) for (auto &gi : P.gl[x.first].init) o->c[gi.off] = {gi.size, gv(gi.v)}; }
  errnoObj = dynGl.size();
  std::set<i64> m = {-1, 0, 1, 2, 3, 4, 8, 16, 32, 40, 64, 128, 255, 256, 512, 1023, 1024, 2048, 4096, 8192, 12288, 12328, 65535, INT32_MAX};
  for (i64 x : m) { marks.push_back(x); marks.push_back(-x); marks.push_back(x - 1); marks.push_back(x + 1); }
  std::sort(marks.begin(), marks.end());
  marks.erase(std::unique(marks.begin(), marks.end()), marks.end());
}

// ================================================================ violations
const Inst *Engine::cur(State *s) {
  if (s->fr.empty()) return nullptr;
  Frame &f = *s->fr.back();
  auto &in = P.fn[f.fn].bl[f.bl].in;
  int ip = f.ip - 1; if (ip < 0) ip = 0;
  return ip < (int)in.size() ? &in[ip] : nullptr;
}
string Engine::where(State *s) {
  const Inst *i = cur(s);
  if (!i) return "event loop";
  return (i->file >= 0 ? P.files[i->file] : string("?")) + ":" + std::to_string(i->line);
}
void Engine::report(State *s, const string &kind, const string &msg, vector<string> props) {
  if (relearn && !unit && !initMode) throw Refine();
  // an alarm about values is only raised after its functions were analysed with the fine domain
  if (kind == "oob" || kind == "null" || kind == "abort" || kind == "div" || kind == "hang") {
    bool grew = false;
    for (auto &f : s->fr) if (fine[P.fn[f->fn].name] < 2) { fine[P.fn[f->fn].name]++; grew = true; }
    if (grew) { if (getenv("AI_DBG")) { extern void dumpState(Engine &, State *, FILE *); dumpState(*this, s, stderr); } if (getenv("AI_STAT")) fprintf(stderr, "because %s %s at %s\n", kind.c_str(), msg.c_str(), where(s).c_str()); throw Refine(); }
  }
  Viol v; v.kind = kind; v.msg = msg;
  const Inst *i = cur(s);
  if (i) { v.fn = P.fn[s->fr.back()->fn].name; v.line = i->line; v.file = i->file >= 0 ? P.files[i->file] : ""; }
  else v.fn = "event loop";
  v.props = props;
  if (classify) { auto p = classify(*this, s, v); for (auto &x : p) if (std::find(v.props.begin(), v.props.end(), x) == v.props.end()) v.props.push_back(x); }
  v.key = kind + "|" + v.fn + "|" + std::to_string(v.line) + "|" + msg;
  for (auto &x : v.props) v.key += "|" + x;
  if (viol.count(v.key) || viol.size() > 400) return;
  for (Tr *t = s->tr.p; t; t = t->up.p) v.trace.push_back(t->s);
  std::reverse(v.trace.begin(), v.trace.end());
  string stack;
  for (auto &f : s->fr) { auto &in = P.fn[f->fn].bl[f->bl].in; int ip = f->ip > 0 ? f->ip - 1 : 0; stack += " > " + P.fn[f->fn].name + ":" + std::to_string(ip < (int)in.size() ? in[ip].line : 0); }
  v.trace.push_back("stack" + stack);
  viol[v.key] = v;
  static const char *stop = getenv("AI_STOP");
  if (stop && !unit) for (auto &x : v.props) if (x == stop) incomplete.insert("stopped at the first violation of " + x);
}

// ================================================================ operands
Val Engine::opv(State *s, const Opnd &o) {
  switch (o.k) {
    case O_REG: return s->fr.back()->r[o.reg];
    case O_INT: return Val::I(o.iv);
    case O_NULL: return Val::I(0);
    case O_FUNC: return Val::F(o.idx);
    case O_GLOBAL: {
      auto a = statOf.find(o.idx); if (a != statOf.end()) return Val::P(a->second, Lin(o.iv));
      auto b = dynOf.find(o.idx); if (b != dynOf.end()) return Val::P(b->second, Lin(o.iv));
      return Val();
    }
    default: return Val();
  }
}
// 0 violation (state killed), 1 checked, 2 unresolved
// ---------------------------------------------------------------- which functions read which members of session records
// Forgetting a value is always sound; what is learned here only decides which values are worth keeping.
typedef vector<std::pair<i64, i64>> Iv;
static std::map<int, std::map<int, Iv>> g_readers;     // site -> function -> byte ranges
static bool bulky(const Obj &o) { return o.kind == K_HEAP && !o.freed && !o.g[4] && o.size.cst() && o.size.k > 256 && o.size.k < 2048; }
static string siteName(Engine &E, int id) { string r = siteStr(E, id), q; for (size_t i = 0; i < r.size(); i++) { if (r[i] == ':') { while (i + 1 < r.size() && isdigit(r[i + 1])) i++; continue; } if (r[i] != ' ') q += r[i]; } return q; }
// What an earlier run learned, by name; a stale entry costs precision or time, never soundness.
static std::map<string, std::map<string, Iv>> g_hint;
void loadHints(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) return;
  char a[512], b[256]; long long lo, hi; int ph;
  while (fscanf(f, "%511s %255s %d %lld %lld", a, b, &ph, &lo, &hi) == 5) g_hint[a][string(b) + (ph ? "#" : "")].push_back({lo, hi});
  fclose(f);
}
void saveHints(Engine &E, const char *path) {
  FILE *f = fopen(path, "a"); if (!f) return;
  for (auto &s : g_readers) for (auto &x : s.second) for (auto &iv : x.second) fprintf(f, "%s %s %d %lld %lld\n", siteName(E, s.first).c_str(), E.P.fn[x.first / 2].name.c_str(), x.first % 2, (long long)iv.first, (long long)iv.second);
  fclose(f);
}
static std::map<int, Iv> &readersOf(Engine &E, int site) {
  auto it = g_readers.find(site);
  if (it != g_readers.end()) return it->second;
  auto &r = g_readers[site];
  auto h = g_hint.find(siteName(E, site));
  if (h != g_hint.end()) for (auto &x : h->second) { string n = x.first; int ph = 0; if (n.back() == '#') { ph = 1; n.pop_back(); } int f = E.P.f(n); if (f >= 0) for (auto &iv : x.second) r[f * 2 + ph].push_back(iv); }
  return r;
}
void Engine::noteRead(State *s, const Val &p, const Lin &len) {
  if (p.k != V_PTR || s->fr.empty()) return;
  Obj *o = ro(s, p.id);
  if (!o || o->kind != K_HEAP || o->g[4] || !o->size.cst() || o->size.k >= 2048) return;
  i64 a = std::max<i64>(0, p.l.cst() ? p.l.k : inf(s, p.l)), b = std::min<i64>(o->size.k, sup(s, p.l + len));
  int ph = phase(s);
  Iv &v = readersOf(*this, o->site)[s->fr.back()->fn * 2 + ph];
  auto fi = table ? fine.find(P.fn[s->fr.back()->fn].name) : fine.end();
  if (!ph && fi != fine.end() && fi->second == 3) { a = 0; b = o->size.k; }      // a parser: any entry of its tables
  for (auto &x : v) if (x.first <= a && b <= x.second) return;
  v.push_back({a, b});
  for (int q = 0; q <= ph; q++) for (auto d = dropped.lower_bound({o->site * 2 + q, a - 8}); d != dropped.end() && d->first == o->site * 2 + q && d->second < b; ++d)
    if (d->second + 8 > a) { if (getenv("AI_STAT")) fprintf(stderr, "because a forgotten member is read by %s\n", P.fn[s->fr.back()->fn].name.c_str()); relearn = true; }
}
static const vector<uint64_t> &reachOf(Prog &P, int fn) {
  static std::unordered_map<int, vector<uint64_t>> memo;
  auto it = memo.find(fn);
  if (it != memo.end()) return it->second;
  vector<uint64_t> r((P.fn.size() + 63) / 64, 0);
  vector<int> st{fn};
  while (!st.empty()) {
    int f = st.back(); st.pop_back();
    if (r[f / 64] >> (f % 64) & 1) continue;
    r[f / 64] |= (uint64_t)1 << (f % 64);
    for (auto &b : P.fn[f].bl) for (auto &i : b.in) {
      if (i.callee.k == O_FUNC) st.push_back(i.callee.idx);
      for (auto &o : i.a) if (o.k == O_FUNC) st.push_back(o.idx);
    }
  }
  return memo[fn] = r;
}
bool Engine::chkAcc(State *s, const Val &p, const Lin &len, bool wr, const char *what) {
  nAcc++;
  if (!s->fr.empty()) accSites.insert({s->fr.back()->fn, s->fr.back()->bl * 1000 + s->fr.back()->ip});
  if (wr && onWrite) onWrite(*this, s, p, len);
  if (p.k == V_INT) {
    Lin l = norm(s, p.l);
    if (l.cst() && l.k > -4096 && l.k < 4096) { report(s, "null", string(what) + " through a null pointer"); kill(s); return false; }
    nUnres++; return true;
  }
  if (p.k != V_PTR) { nUnres++; unresSites.insert({s->fr.empty() ? -1 : s->fr.back()->fn, cur(s) ? cur(s)->line : 0}); return true; }
  Obj *o = ro(s, p.id);
  if (!o) { nUnres++; return true; }
  if (o->freed) { report(s, "uaf", string(what) + " of released object allocated at " + siteStr(*this, o->site)); kill(s); return false; }
  if (wr && o->kind == K_STR) { report(s, "oob", string(what) + " writes constant data"); kill(s); return false; }
  if (o->clob) return true;
  if (!wr && !unit && !initMode) noteRead(s, p, len);
  Lin off = p.l;
  i64 slo = p.slo > 0 ? p.slo : 0;
  bool ok = true;
  if (!off.cst() || off.k < slo) ok = le0(s, Lin(slo) - off);
  if (!ok) { report(s, "oob", string(what) + " may start before the object allocated at " + siteStr(*this, o->site)); kill(s); return false; }
  Lin end = off + len;
  ok = le0(s, end - o->size);
  if (!ok) { i64 a = sup(s, off - o->size), b = sup(s, len); ok = a < INF && b < INF && a + b <= 0; } // sums of many parts
  if (ok && p.shi >= 0) ok = le0(s, end - Lin(p.shi));
  if (!ok) {
    string m = string(what) + " may pass the end of ";
    m += p.shi >= 0 && p.shi > p.slo ? std::to_string(p.shi - p.slo) + "-byte member of object allocated at " : p.arr ? "the array in object allocated at " : "object allocated at ";
    report(s, "oob", m + (o->kind == K_GLOBAL || o->kind == K_STR ? "global" : siteStr(*this, o->site)));
    kill(s); return false;
  }
  return true;
}
static bool inUnk(const Obj *o, i64 a, i64 b) { for (auto &u : o->unk) if (u.first < b && a < u.second) return true; return false; }
static void addUnk(Obj &o, i64 a, i64 b) {
  if (a >= b) return;
  vector<std::pair<i64, i64>> r;
  for (auto &u : o.unk) {
    if (u.second < a || u.first > b) r.push_back(u);
    else { a = std::min(a, u.first); b = std::max(b, u.second); }
  }
  r.push_back({a, b});
  std::sort(r.begin(), r.end());
  o.unk = r;
}
static void subUnk(Obj &o, i64 a, i64 b) {
  vector<std::pair<i64, i64>> r;
  for (auto &u : o.unk) {
    if (u.second <= a || u.first >= b) { r.push_back(u); continue; }
    if (u.first < a) r.push_back({u.first, a});
    if (u.second > b) r.push_back({b, u.second});
  }
  o.unk = r;
}
static int byteAt(Engine &E, const Obj *o, i64 off) {  // -1 unknown
  if (o->str) return off < (i64)o->str->size() ? (unsigned char)(*o->str)[off] : 0;
  auto it = o->c.upper_bound(off);
  if (it != o->c.begin()) {
    --it;
    if (off < it->first + it->second.size) {
      if (it->second.v.isC()) { int sh = (off - it->first); return sh >= 8 ? 0 : (it->second.v.l.k >> (8 * sh)) & 255; }
      return -1;
    }
  }
  if (!o->zero || inUnk(o, off, off + 1)) return -1;
  return 0;
}
int Engine::byteAt(State *s, int id, i64 off) { Obj *o = ro(s, id); return o ? ::byteAt(*this, o, off) : -1; }
string Engine::siteText(int id) { return siteStr(*this, id); }
// A text member forgotten at a merge point: some position and length inside its buffer.
void Engine::needText(State *s, int id, i64 a, i64 b) {
  if (id < 0) return;
  while (true) {
    Obj *o = ro(s, id);
    if (!o || o->txt.empty()) return;
    auto it = o->txt.upper_bound(b - 1);
    if (it == o->txt.begin()) return;
    --it;
    i64 at = it->first; Obj::Txt t = it->second;
    if (at + 16 <= a) return;
    Obj &w = rw(s, id);
    w.txt.erase(at);
    Lin sz = ro(s, t.buf)->size;
    if (t.end >= 0) sz = sz - Lin(1);
    Lin p = Lin::sym(newSym(s, t.lo, INF)), n = Lin::sym(newSym(s, 0, 0x7fffffff));
    assumeLe(s, p - sz); assumeLe(s, p + n - sz);
    if (t.end >= 0) { Obj &b = rw(s, t.buf); if (b.sc.size() < 12) b.sc.push_back({p + n, 1, Val::I(t.end)}); }
    Val pv = Val::P(t.buf); pv.l = p; Val nv = Val::L(n); pv.comp = nv.comp = true;
    wrCell(s, id, at, 4, nv); wrCell(s, id, at + 8, 8, pv);
  }
}
Val Engine::rdCell(State *s, int id, i64 off, int size, bool ptr, bool uns) {
  if (table) needText(s, id, off, off + size);
  Obj *o = ro(s, id);
  if (!o->str) {
    auto it = o->c.find(off);
    if (it != o->c.end() && it->second.size == size) {
      Val v = it->second.v;
      if (v.k == V_INT && size < 8 && !ptr) {            // the same bytes seen as signed or as unsigned
        i64 lo = inf(s, v.l, 1), hi = sup(s, v.l, 1), um = ((i64)1 << (8 * size)) - 1, sm = um >> 1;
        if (uns ? lo < 0 : hi > sm) {
          if (v.l.cst()) { i64 k = v.l.k & um; if (!uns && k > sm) k -= um + 1; return Val::I(k); }
          Val r = uns ? fresh(s, 0, um) : freshBits(s, size * 8);
          r.comp = v.comp;
          rw(s, id).c[off].v = r;
          return r;
        }
      }
      return v;
    }
  }
  if (size <= 8) {
    uint64_t v = 0; bool ok = true;
    for (int i = 0; i < size && ok; i++) { int b = ::byteAt(*this, o, off + i); if (b < 0) ok = false; else v |= (uint64_t)b << (8 * i); }
    if (ok) {
      i64 sv = (i64)v;
      if (size < 8 && !uns) { int sh = 64 - 8 * size; sv = (i64)(v << sh) >> sh; }
      return Val::I(sv);
    }
  }
  if (ptr || size > 8) return Val();
  Val r;
  if (uns && size < 8) r = fresh(s, 0, ((i64)1 << (8 * size)) - 1);
  else r = freshBits(s, size * 8);
  if (id >= 0) {
    bool over = false;
    auto it = o->c.lower_bound(off - 7);
    for (; it != o->c.end() && it->first < off + size; ++it) if (it->first + it->second.size > off) over = true;
    if (!over) { Obj &w = rw(s, id); w.c[off] = {size, r}; if (size == 1 && w.kind == K_HEAP) loadByte.insert({w.site, off}); if (!inUnk(&w, off, off + size) && w.zero) addUnk(w, off, off + size); }
  }
  return r;
}
static void dropSc(Engine &E, State *s, Obj &o, i64 a, i64 b) {
  for (size_t i = 0; i < o.sc.size();) {
    i64 lo = E.inf(s, o.sc[i].off, 1), hi = E.sup(s, o.sc[i].off, 1);
    if (hi + o.sc[i].size <= a || lo >= b) i++;
    else o.sc.erase(o.sc.begin() + i);
  }
}
void Engine::wrCell(State *s, int id, i64 off, int size, const Val &v) {
  if (table) needText(s, id, off, off + size);
  Obj &o = rw(s, id);
  auto it = o.c.lower_bound(off - 16);
  while (it != o.c.end() && it->first < off + size) {
    i64 a = it->first, b = a + it->second.size;
    if (b <= off) { ++it; continue; }
    Cell old = it->second;
    it = o.c.erase(it);
    for (i64 x = a; x < b; x++) {
      if (x >= off && x < off + size) continue;
      if (old.v.isC() && x - a < 8) o.c[x] = {1, Val::I((i64)(signed char)((old.v.l.k >> (8 * (x - a))) & 255))};
      else addUnk(o, x, x + 1);
    }
  }
  o.c[off] = {size, v};
  o.nulAt.clear();
  if (o.sc.size()) dropSc(*this, s, o, off, off + size);
  if (o.lastZero && !v.isNull() && !le0(s, Lin(off + size + 1) - o.size)) o.lastZero = false;
  if (o.hasNul) { if (!v.isNull() && !(le0(s, o.nulHi - Lin(off)) || le0(s, Lin(off + size) - o.nulLo))) o.hasNul = false; }
}
void Engine::clobber(State *s, int id, const Lin &lo, const Lin &len) {
  Obj &o = rw(s, id);
  i64 a = inf(s, lo), b = sup(s, lo + len);
  i64 sz = sup(s, o.size);
  if (a < 0) a = 0;
  if (b > sz) b = sz;
  if (a >= b) return;
  if (table) o.txt.clear();
  auto it = o.c.lower_bound(a - 16);
  while (it != o.c.end() && it->first < b) {
    i64 x = it->first, y = x + it->second.size;
    if (y <= a) { ++it; continue; }
    it = o.c.erase(it);
    addUnk(o, x, y);
  }
  addUnk(o, a, b);
  o.nulAt.clear();
  dropSc(*this, s, o, a, b);
  if (o.lastZero && !le0(s, lo + len + Lin(1) - o.size)) o.lastZero = false;
  if (o.hasNul && !(le0(s, o.nulHi - lo) || le0(s, lo + len - o.nulLo))) o.hasNul = false;
}
Val Engine::load(State *s, const Val &p, int size, bool ptr, int bits, bool uns) {
  if (!chkAcc(s, p, Lin(size), false, "read")) return Val();
  if (p.k != V_PTR) return ptr ? Val() : (size <= 8 ? ((uns && size < 8) ? fresh(s, 0, ((i64)1 << (8 * size)) - 1) : freshBits(s, size * 8)) : Val());
  Obj *o = ro(s, p.id);
  if (!o) return Val();
  Lin off = norm(s, p.l);
  if (off.cst()) return rdCell(s, p.id, off.k, size, ptr, uns);
  for (auto &x : o->sc) if (x.size == size && x.off == off) return x.v;
  i64 a = inf(s, off), b = sup(s, off) + size;
  if (o->zero && !o->str && !inUnk(o, a, b)) {
    bool any = false;
    auto it = o->c.lower_bound(a - 16);
    for (; it != o->c.end() && it->first < b; ++it) if (it->first + it->second.size > a && !it->second.v.isNull()) any = true;
    if (!any) return Val::I(0);
  }
  if (ptr && !o->str) {  // table of strings indexed by a variable: any one of them
    i64 mn = INF, mx = 0; bool ok = true; int n = 0;
    for (auto it = o->c.lower_bound(a); it != o->c.end() && it->first < b && ok; ++it, n++) {
      Obj *t = it->second.v.k == V_PTR && it->second.v.l.cst() ? ro(s, it->second.v.id) : nullptr;
      if (!t || !t->str) { ok = false; break; }
      i64 len = (i64)t->str->size() - it->second.v.l.k; size_t z = t->str->find('\0', it->second.v.l.k);
      if (z != string::npos) len = (i64)z + 1 - it->second.v.l.k;
      mn = std::min(mn, len); mx = std::max(mx, len);
    }
    if (ok && n && n * 8 >= b - a) {
      int id = newObj(s, K_EXT, Lin(mx), false, siteId(s), "string");
      Obj &w = rw(s, id); w.hasNul = true; w.nulLo = Lin(mn - 1); w.nulHi = Lin(mx);
      return Val::P(id);
    }
  }
  if (ptr || size > 8) return Val();
  Val r = (uns && size < 8) ? fresh(s, 0, ((i64)1 << (8 * size)) - 1) : freshBits(s, size * 8);
  if (p.id >= 0) { Obj &w = rw(s, p.id); if (w.sc.size() < 12) w.sc.push_back({off, size, r}); }
  return r;
}
void Engine::store(State *s, const Val &p, int size, const Val &v) {
  if (!chkAcc(s, p, Lin(size), true, "write")) return;
  if (p.k != V_PTR) return;
  Obj *o = ro(s, p.id);
  if (!o) return;
  Lin off = norm(s, p.l);
  if (onStore && off.cst()) onStore(*this, s, p.id, off.k, size, v);
  if (s->dead) return;
  if (off.cst()) {
    if (size == 1 && o->kind == K_HEAP && (v.k == V_TOP || (v.k == V_INT && !norm(s, v.l).cst()))) dataByte.insert({o->site, off.k});
    wrCell(s, p.id, off.k, size, v); return;
  }
  clobber(s, p.id, off, Lin(size));
  Obj &w = rw(s, p.id);
  if (w.sc.size() < 12) w.sc.push_back({off, size, v});
}
void Engine::memset_(State *s, const Val &d, const Val &v, const Val &n) {
  if (n.isNull()) return;
  Lin len = n.k == V_INT ? n.l : Lin::sym(newSym(s, 0, INF));
  if (!chkAcc(s, d, len, true, "memset")) return;
  if (d.k != V_PTR || !ro(s, d.id)) return;
  Lin off = norm(s, d.l); len = norm(s, len);
  Obj &o = rw(s, d.id);
  o.prov.clear();
  bool z = v.isNull();
  if (z && off.cst() && len.cst()) {
    i64 a = off.k, b = a + len.k;
    if (o.size.cst() && a == 0 && b >= o.size.k) { o.zero = true; o.c.clear(); o.unk.clear(); o.sc.clear(); o.hasNul = false; return; }
    if (o.zero) {
      clobber(s, d.id, off, len);
      subUnk(rw(s, d.id), a, b);
      return;
    }
    clobber(s, d.id, off, len);
    if (len.k <= 64) for (i64 x = a; x < b; x++) rw(s, d.id).c[x] = {1, Val::I(0)};
    return;
  }
  if (z && !o.zero && off.cst() && off.k == 0 && norm(s, o.size) == len) { clobber(s, d.id, off, len); rw(s, d.id).lastZero = true; return; }
  if (z && o.zero) {
    i64 a = inf(s, off), b = sup(s, off + len);
    bool any = inUnk(&o, a, b);
    for (auto &c : o.c) if (c.first < b && c.first + c.second.size > a && !c.second.v.isNull()) any = true;
    if (!any) return;
  }
  clobber(s, d.id, off, len);
}
void Engine::memcpy_(State *s, const Val &d, const Val &a, const Val &n, const char *what) {
  if (n.isNull()) return;
  Lin len = n.k == V_INT ? norm(s, n.l) : Lin::sym(newSym(s, 0, INF));
  if (!len.cst() && inf(s, len) < 0) {
    if (!le0(s, len.mul(-1))) { report(s, "oob", string(what) + " with a length that may be negative"); kill(s); return; }
  }
  if (!chkAcc(s, a, len, false, (string(what) + " source").c_str())) return;
  if (s->dead || !chkAcc(s, d, len, true, (string(what) + " destination").c_str())) return;
  if (d.k != V_PTR || !ro(s, d.id)) return;
  Lin doff = norm(s, d.l);
  Obj *so = a.k == V_PTR ? ro(s, a.id) : nullptr;
  Lin soff = norm(s, a.l);
  if (what[3] == 'c' && so && a.id == d.id && ends >= 0) { // certain overlap
    Lin df = norm(s, doff - soff);
    if (df.cst() && df.k && inf(s, len) > std::abs(df.k)) { report(s, "rule", "memcpy between overlapping parts of one object"); kill(s); return; }
  }
  if (so && len.cst() && doff.cst() && soff.cst() && len.k <= 65536 && (!so->str || len.k <= 256)) {
    i64 x = soff.k, y = x + len.k, dx = doff.k;
    vector<std::pair<i64, Cell>> cp;
    vector<std::pair<i64, i64>> uk;
    if (so->str) { for (i64 i = x; i < y; i++) cp.push_back({i, {1, Val::I((signed char)::byteAt(*this, so, i))}}); }
    else {
      for (auto it = so->c.lower_bound(x - 16); it != so->c.end() && it->first < y; ++it) {
        if (it->first + it->second.size <= x) continue;
        if (it->first < x || it->first + it->second.size > y) uk.push_back({std::max(x, it->first), std::min(y, it->first + it->second.size)});
        else cp.push_back({it->first, it->second});
      }
      for (auto &u : so->unk) if (u.first < y && u.second > x) uk.push_back({std::max(x, u.first), std::min(y, u.second)});
      if (!so->zero) uk.push_back({x, y});
    }
    vector<Prov> pv = so->prov;
    bool dyn = so->kind != K_STR;
    clobber(s, d.id, doff, len);
    Obj &o = rw(s, d.id);
    if (o.zero) subUnk(o, dx, dx + len.k);
    else if (uk.empty()) {  // default content of the destination is unknown: spell out zeros of small copies
      if (len.k <= 64) for (i64 i = dx; i < dx + len.k; i++) o.c[i] = {1, Val::I(0)};
    }
    for (auto &u : uk) addUnk(o, u.first - x + dx, u.second - x + dx);
    for (auto &c : cp) {
      i64 at = c.first - x + dx;
      for (i64 q = at; q < at + c.second.size; q++) o.c.erase(q);
      o.c[at] = c.second;
    }
    if (dyn && a.id >= 0) o.prov.push_back({a.id, soff, soff + len});
    for (auto &p : pv) o.prov.push_back(p);
    if (o.prov.size() > 6) o.prov.resize(6);
    return;
  }
  vector<Prov> pv; if (so) pv = so->prov;
  clobber(s, d.id, doff, len);
  Obj &o = rw(s, d.id);
  if (so && so->kind != K_STR && a.id >= 0) o.prov.push_back({a.id, soff, soff + len});
  for (auto &p : pv) o.prov.push_back(p);
  if (o.prov.size() > 6) o.prov.resize(6);
}
bool Engine::strBound(State *s, const Val &p, Lin &hi) {
  if (p.k != V_PTR) return false;
  Obj *o = ro(s, p.id);
  if (!o || o->freed) return false;
  if (!unit && !initMode) noteRead(s, p, o->size - p.l);
  Lin off = norm(s, p.l);
  i64 from = sup(s, off), sz = sup(s, o->size);
  if (sz >= INF) sz = inf(s, o->size);
  if (from >= INF) return false;
  bool got = false; Lin best;
  for (i64 b = std::max<i64>(from, 0); b < sz; b++) {
    int v = ::byteAt(*this, o, b);
    if (v == 0) { best = Lin(b) - off; got = true; break; }
    if (v < 0 && !o->str) {
      // jump over unknown ranges that hold no cell
      for (auto &u : o->unk) if (b >= u.first && b < u.second) {
        auto it = o->c.lower_bound(b);
        i64 e = u.second;
        if (it != o->c.end() && it->first < e) e = it->first;
        if (e - 1 > b) b = e - 1;
      }
      if (!o->zero) { auto it = o->c.lower_bound(b + 1); if (it == o->c.end()) break; if (it->first - 1 > b) b = it->first - 1; }
    }
  }
  if (o->hasNul && le0(s, o->nulLo - off)) {
    Lin h = o->nulHi - Lin(1) - off;
    if (!got || le0(s, h - best)) { best = h; got = true; }
  }
  if (o->hasNul && !got && le0(s, off - o->nulLo)) { best = o->nulHi - Lin(1) - off; got = true; }
  if (!got && o->lastZero && le0(s, off + Lin(1) - o->size)) { best = o->size - Lin(1) - off; got = true; }
  if (got) hi = best;
  return got;
}

// ================================================================ control
void Engine::call(State *s, int fn, const vector<Val> &args, int retReg, int tag) {
  Func &F = P.fn[fn];
  fnSeen.insert(fn);
  if (s->fr.size() > 70) { report(s, "recursion", "call depth grows without bound at " + F.name, {"P10"}); kill(s); return; }
  Frame *f = new Frame;
  f->fn = fn; f->retReg = retReg; f->tag = tag;
  f->r.resize(F.nregs);
  for (int i = 0; i < F.nargs && i < (int)args.size(); i++) f->r[i] = args[i];
  if (F.varargs) for (size_t i = F.nargs; i < args.size(); i++) f->va.push_back(args[i]);
  s->fr.push_back(Ref<Frame>(f));
}
void Engine::popFrame(State *s, const Val &rv) {
  Frame &f = *s->fr.back();
  vector<int> al = f.allocas;
  int rr = f.retReg, tag = f.tag;
  for (int a : al) if (a < (int)s->ob.size() && s->ob[a]) { Obj &o = rw(s, a); o.freed = true; o.c.clear(); o.sc.clear(); o.unk.clear(); o.prov.clear(); }
  s->fr.pop_back();
  if (tag && atRet) { atRet(*this, s, rv); if (s->dead) return; }
  if (!s->fr.empty() && rr >= 0) top(s).r[rr] = rv;
}
void Engine::jump(State *s, int from, int to) {
  Frame &f = top(s);
  Func &F = P.fn[f.fn];
  auto &in = F.bl[to].in;
  size_t n = 0;
  vector<std::pair<int, Val>> w;
  while (n < in.size() && in[n].op == I_PHI) {
    for (size_t k = 0; k < in[n].a.size(); k++) if (in[n].phiblk[k] == from) { w.push_back({in[n].dst, opv(s, in[n].a[k])}); break; }
    n++;
  }
  for (auto &x : w) f.r[x.first] = x.second;
  f.bl = to; f.ip = n;
}
void Engine::doCall(State *s, const Inst &I) {
  Val cv = opv(s, I.callee);
  vector<Val> args;
  for (auto &o : I.a) args.push_back(opv(s, o));
  if (I.otherName == "asm") { if (I.dst >= 0) setReg(s, I.dst, Val()); return; }
  if (cv.k != V_FN) {
    if (cv.k == V_INT && norm(s, cv.l).cst()) { report(s, "null", "call through a null function pointer"); kill(s); return; }
    incomplete.insert("unresolved call in " + P.fn[s->fr.back()->fn].name + " at " + where(s));
    kill(s); return;
  }
  Func &F = P.fn[cv.id];
  callSites.insert({s->fr.back()->fn, s->fr.back()->bl * 1000 + s->fr.back()->ip});
  nCall++;
  if (onCall) { onCall(*this, s, F.name, args); if (s->dead) return; }
  auto it = intr.find(F.name);
  if (it != intr.end()) { it->second(*this, s, I, args); return; }
  if (F.name.compare(0, 5, "llvm.") == 0) {
    const string &n = F.name;
    if (n.find("llvm.memcpy") == 0) memcpy_(s, args[0], args[1], args[2], "memcpy");
    else if (n.find("llvm.memmove") == 0) memcpy_(s, args[0], args[1], args[2], "memmove");
    else if (n.find("llvm.memset") == 0) memset_(s, args[0], args[1], args[2]);
    else if (n.find("llvm.expect") == 0) setReg(s, I.dst, args[0]);
    else if (n.find("llvm.bswap") == 0) {
      Lin l = norm(s, args[0].l);
      if (args[0].k == V_INT && l.cst()) {
        uint64_t v = l.k, r = 0; int nb = I.bits / 8;
        for (int i = 0; i < nb; i++) r |= ((v >> (8 * i)) & 255) << (8 * (nb - 1 - i));
        int sh = 64 - I.bits;
        setReg(s, I.dst, Val::I((i64)(r << sh) >> sh));
      } else if (args[0].k == V_INT && l.n == 1 && l.k == 0 && l.t[0].c == 1) {
        auto key = std::make_pair(l.t[0].s, (i64)5000 + I.bits);
        if (!s->conv.count(key)) { int y = newSym(s, -((i64)1 << (I.bits - 1)), ((i64)1 << (I.bits - 1)) - 1); s->conv[key] = y; }
        setReg(s, I.dst, Val::L(Lin::sym(s->conv[key])));
      } else setReg(s, I.dst, freshBits(s, I.bits));
    } else if (I.dst >= 0) setReg(s, I.dst, I.ptr ? Val() : freshBits(s, I.bits));
    return;
  }
  if (F.decl) {
    extCalls[F.name]++;
    incomplete.insert("external function without a model: " + F.name);
    if (I.dst >= 0) setReg(s, I.dst, I.ptr ? Val() : freshBits(s, I.bits));
    return;
  }
  if (!noLeaf && !initMode && leafCall(s, I, F, args)) return;
  Frame &f = *s->fr.back();
  bool tail = I.tail;
  if (tail) for (auto &a : args) if (a.k == V_PTR) for (int o : f.allocas) if (o == a.id) tail = false;
  if (tail) {
    int rr = f.retReg, tag = f.tag;
    vector<int> tc = f.tc; tc.push_back(f.fn);
    for (int a : f.allocas) if (s->ob[a]) { Obj &o = rw(s, a); o.freed = true; o.c.clear(); o.sc.clear(); o.unk.clear(); o.prov.clear(); }
    s->fr.pop_back();
    call(s, cv.id, args, rr, tag);
    if (!s->dead) { s->fr.back().mut().callSite = -1; s->fr.back().mut().tc = tc; }
    return;
  }
  call(s, cv.id, args, I.dst);
}
static i64 wrapS(i64 v, int bits) { if (bits >= 64) return v; int sh = 64 - bits; return (i64)((uint64_t)v << sh) >> sh; }
static i64 maskU(i64 v, int bits) { if (bits >= 64) return v; return v & (((i64)1 << bits) - 1); }

// A loop that does not branch, or counts a few concrete steps, is simply followed; otherwise its head is a merge point for good.
bool Engine::mergeAt(State *s, int point, int bl) {
  if (mergePt.count(point)) return true;
  Frame &f = top(s);
  if (unrolled && P.fn[f.fn].name == "vf_merge") { mergePt.insert(point); return true; }
  auto &x = f.lh[bl];
  i64 ctr = 0;
  for (auto &in : P.fn[f.fn].bl[bl].in) { if (in.op != I_PHI) break; Val &v = f.r[in.dst]; if (v.isC() && v.l.k) ctr = ctr * 31 + v.l.k + 7; }
  bool first = !x.n, counts = ctr != x.ctr;
  x.ctr = ctr;
  if (first) { x.n = 1; x.fk = s->fk; return false; }
  if (unrolled && unrolled(f.fn)) return false;
  if (++x.n > (s->fk == x.fk ? 64 : counts || patience > 4 ? patience : 1)) { mergePt.insert(point); return true; }
  return false;
}
// Execute s until it dies, reaches a merge point or forks (forks are pushed).
void Engine::run(State *s0) {
  stk.push_back(s0);
  nSeg++;
  while (!stk.empty()) {
    State *s = stk.back(); stk.pop_back();
    size_t seg = 0;
    while (true) {
      if (s->dead) { delete s; break; }
      if (s->fr.empty()) {
        if (ends >= 0) { ends++; delete s; s = nullptr; break; }
        if (sink) { sink->push_back(s); break; }
        if (atHead) atHead(*this, s);
        if (s->dead) { delete s; break; }
        arrive(s, 0);
        break;
      }
      Frame *fp = s->fr.back().p;
      if (fp->callSite == -1) {              // entry by tail call: merge point
        top(s).callSite = 0;
        int pt = 1 + fp->fn * 4096;
        if (!mergePt.count(pt) && std::find(fp->tc.begin(), fp->tc.end(), fp->fn) != fp->tc.end()) mergePt.insert(pt);
        if (mergePt.count(pt)) { arrive(s, pt); break; }
        fp = s->fr.back().p;
      }
      Func &F = P.fn[fp->fn];
      Block &B = F.bl[fp->bl];
      const Inst &I = B.in[fp->ip];
      top(s).ip++;
      nInst++;
      if (ends >= 0 && ++seg > 4000000) { report(s, "hang", "this path does not come to an end", {"P10"}); s->dead = true; continue; }
      if (!unit && !(nInst & 0xfffff) && overBudget()) { delete s; for (auto *x : stk) delete x; stk.clear(); return; }
      // materialise boolean operands where a number is needed
      if (I.op != I_ICMP && I.op != I_CONDBR && I.op != I_PHI && I.op != I_SELECT && I.op != I_ZEXT && I.op != I_XOR && I.op != I_RET && I.op != I_CALL && I.op != I_TRUNC) {
        bool forked = false;
        auto chk = [&](const Opnd &o) {
          if (forked || o.k != O_REG) return;
          Val v = s->fr.back()->r[o.reg];
          if (v.k != V_BOOL) return;
          forked = true;
          State *t = clone(s);
          top(t).ip--; top(s).ip--;
          if (assume(t, v, true)) { setReg(t, o.reg, Val::I(1)); push(t); } else delete t;
          if (assume(s, v, false)) setReg(s, o.reg, Val::I(0)); else kill(s);
        };
        for (auto &o : I.a) chk(o);
        for (auto &g : I.steps) chk(g.o);
        if (forked) continue;
      }
      switch (I.op) {
        case I_ALLOCA: {
          int o = newObj(s, K_STACK, Lin(I.size), false, siteId(s), "stack");
          top(s).allocas.push_back(o);
          setReg(s, I.dst, Val::P(o));
          break;
        }
        case I_LOAD: {
          Val v = load(s, opv(s, I.a[0]), I.size, I.ptr, I.bits, I.uns);
          if (!s->dead) setReg(s, I.dst, v);
          break;
        }
        case I_STORE: store(s, opv(s, I.a[1]), I.size, opv(s, I.a[0])); break;
        case I_GEP: {
          Val b = opv(s, I.a[0]);
          Val r = b;
          bool top_ = false;
          Lin add(I.goff);
          for (auto &g : I.steps) {
            Val x = opv(s, g.o);
            if (x.k != V_INT) { top_ = true; break; }
            add = add + norm(s, x.l).mul(g.scale);
          }
          if (top_ || add.over) { setReg(s, I.dst, Val()); break; }
          if (b.k == V_PTR) {
            r.l = b.l + add;
            if (r.l.over) { // too many terms: fold into one variable with the same bounds
              Lin x = b.l; i64 lo = inf(s, x), hi = sup(s, x), l2 = inf(s, add), h2 = sup(s, add);
              r.l = Lin::sym(newSym(s, sat((__int128)lo + l2), sat((__int128)hi + h2)));
            }
            if (I.subBefore == -2) { if (!b.arr) r.slo = r.shi = -1; }
            else if (I.subBefore >= 0) {
              Lin bo = norm(s, b.l);
              if (bo.cst() && I.subSize > 0) {
                r.slo = bo.k + I.subBefore; r.shi = r.slo + I.subSize; r.arr = I.subArr;
                if (b.arr && b.shi >= 0 && r.shi > b.shi) { r.shi = b.shi; r.arr = true; } // an element behind the array
              } else if (!b.arr) r.slo = r.shi = -1;
            } else if (I.goff < 0) r.slo = r.shi = -1;
            if (I.goff && I.subBefore < 0) r.comp = true;
          } else if (b.k == V_INT) {
            Lin t = norm(s, b.l + add);
            r = t.cst() ? Val::I(t.k) : Val();
          } else r = Val();
          setReg(s, I.dst, r);
          break;
        }
        case I_ICMP: {
          Val a = opv(s, I.a[0]), b = opv(s, I.a[1]);
          Pred p = I.pred;
          int bits = I.a[0].bits;
          if (a.k == V_BOOL && b.isC() && (p == P_EQ || p == P_NE)) {
            bool want = b.l.k != 0;
            if (p == P_NE) want = !want;
            setReg(s, I.dst, want ? a : neg(a));
            break;
          }
          if (a.k == V_BOOL || b.k == V_BOOL) {
            Opnd o = a.k == V_BOOL ? I.a[0] : I.a[1]; Val v = a.k == V_BOOL ? a : b;
            State *t = clone(s);
            top(t).ip--; top(s).ip--;
            if (assume(t, v, true)) { setReg(t, o.reg, Val::I(1)); push(t); } else delete t;
            if (assume(s, v, false)) setReg(s, o.reg, Val::I(0)); else kill(s);
            break;
          }
          auto yes = [&](bool x) { setReg(s, I.dst, Val::I(x)); };
          if (a.k == V_FD || b.k == V_FD) {
            if (a.k == V_FD && b.k == V_FD) { bool e = a.id == b.id; if (p == P_EQ) yes(e); else if (p == P_NE) yes(!e); else setReg(s, I.dst, Val()); break; }
            Val o = a.k == V_FD ? b : a;
            Lin ol = norm(s, o.l);
            if (o.k == V_INT && ol.cst() && ol.k <= 2) {
              Pred q = p;
              if (a.k != V_FD) { switch (p) { case P_SGT: q = P_SLT; break; case P_SGE: q = P_SLE; break; case P_SLT: q = P_SGT; break; case P_SLE: q = P_SGE; break; default:; } }
              yes(q == P_NE || q == P_SGT || q == P_SGE || q == P_UGT || q == P_UGE);
              break;
            }
            setReg(s, I.dst, Val()); break;
          }
          auto refk = [](const Val &v) { return v.k == V_PTR || v.k == V_FN; };
          if (refk(a) && refk(b)) {
            if (a.k == b.k && a.id == b.id) {
              if (a.k == V_FN) { yes(p == P_EQ); break; }
              a = Val::L(a.l); b = Val::L(b.l);
              if (p == P_ULT) p = P_SLT;
              if (p == P_ULE) p = P_SLE; if (p == P_UGT) p = P_SGT; if (p == P_UGE) p = P_SGE;
            } else { if (p == P_EQ) yes(false); else if (p == P_NE) yes(true); else setReg(s, I.dst, Val()); break; }
          } else if (refk(a) || refk(b)) {
            Val o = refk(a) ? b : a;
            if (o.k == V_INT && norm(s, o.l).cst()) {
              if (p == P_EQ) yes(false); else if (p == P_NE) yes(true); else if (p == P_UGT || p == P_UGE) yes(refk(a)); else if (p == P_ULT || p == P_ULE) yes(!refk(a)); else setReg(s, I.dst, Val());
            } else setReg(s, I.dst, Val());
            break;
          }
          if (a.k != V_INT || b.k != V_INT) { setReg(s, I.dst, Val()); break; }
          Lin la = norm(s, a.l), lb = norm(s, b.l);
          bool un = p == P_UGT || p == P_UGE || p == P_ULT || p == P_ULE;
          if (bits < 64) {
            auto fit = [&](Lin &x, Lin &y) {
              if (!x.cst()) return;
              if (un) { x.k = maskU(x.k, bits); return; }
              if (p == P_EQ || p == P_NE) {
                i64 lo = inf(s, y, 1), hi = sup(s, y, 1);
                if (x.k < 0 && lo >= 0 && hi >= ((i64)1 << (bits - 1))) x.k = maskU(x.k, bits);
                else if (x.k >= ((i64)1 << (bits - 1)) && lo < 0) x.k = wrapS(x.k, bits);
                if (y.cst() && maskU(x.k, bits) == maskU(y.k, bits)) x.k = y.k;
              } else x.k = wrapS(x.k, bits);
            };
            fit(la, lb); fit(lb, la);
          }
          if (un) {
            bool na = le0(s, la.mul(-1)), nb = le0(s, lb.mul(-1));
            if (!na || !nb) {
              if (la.cst() && lb.cst()) {
                uint64_t x = la.k, y = lb.k; bool r = p == P_UGT ? x > y : p == P_UGE ? x >= y : p == P_ULT ? x < y : x <= y; yes(r); break;
              }
              if (!na && !nb) { setReg(s, I.dst, Val()); break; }
              // split on the sign of the doubtful side; a negative value is a huge unsigned one
              const Lin &d = na ? lb : la;
              State *t = clone(s);
              if (assumeLe(t, d + Lin(1))) {
                bool bigA = !na;
                bool r = (p == P_UGT || p == P_UGE) ? bigA : !bigA;
                setReg(t, I.dst, Val::I(r)); push(t);
              } else delete t;
              if (!assumeLe(s, d.mul(-1))) { kill(s); break; }
            }
            p = p == P_UGT ? P_SGT : p == P_UGE ? P_SGE : p == P_ULT ? P_SLT : P_SLE;
          }
          Lin d = la - lb;
          if (d.over) { setReg(s, I.dst, Val()); break; }
          Val r;
          switch (p) {
            case P_EQ: r = Val::B(d, B_EQ); break;
            case P_NE: r = Val::B(d, B_NE); break;
            case P_SLE: r = Val::B(d, B_LE); break;
            case P_SLT: r = Val::B(d + Lin(1), B_LE); break;
            case P_SGE: r = Val::B(d.mul(-1), B_LE); break;
            default: r = Val::B(d.mul(-1) + Lin(1), B_LE); break;
          }
          int t = truth(s, r);
          setReg(s, I.dst, t >= 0 ? Val::I(t) : r);
          break;
        }
        case I_BR: {
          int from = fp->bl;
          jump(s, from, I.tgt[0]);
          if (land(s, F, from, I.tgt[0])) goto next;
          break;
        }
        case I_CONDBR: {
          Val c = opv(s, I.a[0]);
          int from = fp->bl;
          int t = truth(s, c);
          if (t >= 0) {
            int to = I.tgt[t ? 0 : 1];
            jump(s, from, to);
            if (land(s, F, from, to)) goto next;
            break;
          }
          State *b = clone(s);
          if (assume(b, c, false)) {
            jump(b, from, I.tgt[1]);
            if (!land(b, F, from, I.tgt[1])) push(b);
          } else delete b;
          if (assume(s, c, true)) {
            jump(s, from, I.tgt[0]);
            if (land(s, F, from, I.tgt[0])) goto next;
          } else kill(s);
          break;
        }
        case I_SWITCH: {
          Val v = opv(s, I.a[0]);
          int from = fp->bl;
          auto go = [&](State *x, int to) { jump(x, from, to); if (!land(x, F, from, to)) push(x); };
          Lin l = norm(s, v.l);
          if (v.k == V_INT && l.cst()) {
            int to = I.tgt[0];
            for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == l.k) to = I.tgt[i + 1];
            go(s, to); goto next;
          }
          State *d = clone(s); bool dok = true;
          for (size_t i = 0; i < I.cases.size(); i++) {
            State *x = clone(s);
            if (v.k == V_INT) {
              if (assumeEq(x, l - Lin(I.cases[i]))) go(x, I.tgt[i + 1]); else delete x;
              if (dok) dok = assumeNe(d, l - Lin(I.cases[i]));
            } else go(x, I.tgt[i + 1]);
          }
          if (dok) go(d, I.tgt[0]); else delete d;
          delete s; goto next;
        }
        case I_RET: {
          Val rv; if (I.a.size()) rv = opv(s, I.a[0]);
          bool done = parserDone && !initMode && rv.isC() && rv.l.k == 0 && s->fr.size() > 1 && parserDone(fp->fn, s->fr[s->fr.size() - 2]->fn);
          popFrame(s, rv);
          if (done && !s->dead) {            // a request is complete: how it was put together does not matter any more
            atParsed(*this, s);
            arrive(s, 2 + s->fr.back()->fn * 4096 + 4094);
            goto next;
          }
          break;
        }
        case I_CALL: doCall(s, I); break;
        case I_PHI: break;
        case I_SELECT: {
          Val c = opv(s, I.a[0]);
          int t = truth(s, c);
          if (t < 0) {
            State *b = clone(s);
            if (assume(b, c, false)) { setReg(b, I.dst, opv(b, I.a[2])); push(b); } else delete b;
            if (assume(s, c, true)) setReg(s, I.dst, opv(s, I.a[1])); else kill(s);
          } else setReg(s, I.dst, opv(s, I.a[t ? 1 : 2]));
          break;
        }
        case I_ZEXT: case I_SEXT: case I_TRUNC: {
          Val v = opv(s, I.a[0]);
          int fb = I.a[0].bits, tb = I.bits;
          if (v.k == V_BOOL && I.op != I_SEXT) { setReg(s, I.dst, v); break; }
          if (v.k == V_FD) { setReg(s, I.dst, v); break; }
          if (v.k != V_INT) {
            if (v.k == V_TOP) setReg(s, I.dst, I.op == I_ZEXT && fb < 64 ? fresh(s, 0, ((i64)1 << fb) - 1) : I.op == I_SEXT ? freshBits(s, fb) : freshBits(s, tb));
            else setReg(s, I.dst, v);
            break;
          }
          Lin l = norm(s, v.l);
          Val r = v; r.l = l;
          i64 lo = inf(s, l, 1), hi = sup(s, l, 1);
          if (I.op == I_ZEXT) {
            if (l.cst()) r.l = Lin(maskU(l.k, fb));
            else if (lo >= 0 && (fb >= 63 || hi < ((i64)1 << fb))) {}
            else if (hi < 0 && fb < 63 && lo >= -((i64)1 << fb)) r.l = l + Lin((i64)1 << fb);
            else if (le0(s, l.mul(-1))) {}
            else if (l.n == 1) {
              auto key = std::make_pair(l.t[0].s, (i64)1000 + fb + (l.k * 4099 + l.t[0].c) * 100000);
              auto it = s->conv.find(key);
              if (it == s->conv.end()) { int y = newSym(s, 0, fb >= 60 ? INF : ((i64)1 << fb) - 1); s->conv[key] = y; it = s->conv.find(key); }
              r.l = Lin::sym(it->second);
            } else r = fresh(s, 0, fb >= 60 ? INF : ((i64)1 << fb) - 1);
          } else {
            int nb = I.op == I_SEXT ? fb : tb;
            i64 mn = -((i64)1 << (nb - 1)), mx = I.op == I_SEXT ? ((i64)1 << (nb - 1)) - 1 : ((i64)1 << nb) - 1;
            if (l.cst()) { if (l.k < mn || l.k > mx) r.l = Lin(wrapS(l.k, nb)); }
            else if (lo >= mn && hi <= mx) {}
            else if (inf(s, l) >= mn && sup(s, l) <= mx) {}
            else if (l.n == 1) {
              auto key = std::make_pair(l.t[0].s, (i64)(I.op == I_SEXT ? 3000 : 2000) + nb + (l.k * 4099 + l.t[0].c) * 100000);
              auto it = s->conv.find(key);
              if (it == s->conv.end()) { int y = newSym(s, mn, ((i64)1 << (nb - 1)) - 1); s->conv[key] = y; it = s->conv.find(key); }
              r.l = Lin::sym(it->second);
            } else r = fresh(s, mn, ((i64)1 << (nb - 1)) - 1);
          }
          setReg(s, I.dst, r);
          break;
        }
        case I_CAST: {
          setReg(s, I.dst, opv(s, I.a[0]));
          break;
        }
        case I_ADD: case I_SUB: case I_MUL: case I_SDIV: case I_UDIV: case I_SREM: case I_UREM:
        case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: {
          Val a = opv(s, I.a[0]), b = opv(s, I.a[1]);
          int bits = I.bits;
          if (I.op == I_XOR && (a.k == V_BOOL || b.k == V_BOOL)) {
            if (a.k == V_BOOL && b.isC()) { setReg(s, I.dst, (b.l.k & 1) ? neg(a) : a); break; }
            Opnd o = a.k == V_BOOL ? I.a[0] : I.a[1]; Val v = a.k == V_BOOL ? a : b;
            State *t = clone(s);
            top(t).ip--; top(s).ip--;
            if (assume(t, v, true)) { setReg(t, o.reg, Val::I(1)); push(t); } else delete t;
            if (assume(s, v, false)) setReg(s, o.reg, Val::I(0)); else kill(s);
            break;
          }
          if (a.k == V_PTR || b.k == V_PTR) {
            if (I.op == I_SUB && a.k == V_PTR && b.k == V_PTR && a.id == b.id) { Val r = Val::L(a.l - b.l); r.comp = true; if (r.k == V_TOP) r = freshBits(s, 64); setReg(s, I.dst, r); break; }
            if ((I.op == I_ADD || I.op == I_SUB) && a.k == V_PTR && b.k == V_INT) { Val r = a; r.l = I.op == I_ADD ? a.l + b.l : a.l - b.l; r.slo = r.shi = -1; setReg(s, I.dst, r.l.over ? Val() : r); break; }
            setReg(s, I.dst, freshBits(s, bits)); break;
          }
          if (a.k != V_INT || b.k != V_INT) {
            if (I.op == I_AND && b.isC() && b.l.k >= 0) { setReg(s, I.dst, fresh(s, 0, b.l.k)); break; }
            setReg(s, I.dst, freshBits(s, bits)); break;
          }
          Lin x = norm(s, a.l), y = norm(s, b.l);
          Val r;
          if (x.cst() && y.cst()) {
            i64 u = x.k, v = y.k, q = 0; bool ok = true;
            switch (I.op) {
              case I_ADD: q = u + v; break; case I_SUB: q = u - v; break; case I_MUL: q = (i64)((uint64_t)u * (uint64_t)v); break;
              case I_SDIV: if (!v) ok = false; else q = u / v; break;
              case I_UDIV: if (!v) ok = false; else q = (i64)((uint64_t)maskU(u, bits) / (uint64_t)maskU(v, bits)); break;
              case I_SREM: if (!v) ok = false; else q = u % v; break;
              case I_UREM: if (!v) ok = false; else q = (i64)((uint64_t)maskU(u, bits) % (uint64_t)maskU(v, bits)); break;
              case I_AND: q = u & v; break; case I_OR: q = u | v; break; case I_XOR: q = u ^ v; break;
              case I_SHL: q = v < 64 ? (i64)((uint64_t)u << v) : 0; break;
              case I_LSHR: q = v < 64 ? (i64)((uint64_t)(bits < 64 ? maskU(u, bits) : u) >> v) : 0; break;
              default: q = wrapS(u, bits) >> (v < 63 ? v : 63); break;
            }
            if (!ok) { report(s, "div", "division by zero"); kill(s); break; }
            r = Val::I(wrapS(q, bits));
            if (I.op == I_ADD || I.op == I_SUB || I.op == I_MUL) r.comp = true;
            setReg(s, I.dst, r); break;
          }
          auto memo = [&](i64 lo, i64 hi, i64 c) -> Val {
            if (lo == hi) return Val::I(lo);
            if (x.n == 1 && y.cst()) {
              auto key = std::make_pair(x.t[0].s, (i64)(10000 + I.op) + (c * 31 + x.k * 7919 + x.t[0].c) * 100000);
              auto it = s->conv.find(key);
              if (it == s->conv.end()) { int z = newSym(s, lo, hi); s->conv[key] = z; return Val::L(Lin::sym(z)); }
              return Val::L(Lin::sym(it->second));
            }
            return fresh(s, lo, hi);
          };
          switch (I.op) {
            case I_ADD: case I_SUB: {
              Lin q = I.op == I_ADD ? x + y : x - y;
              if (q.over) { i64 lo = sat((__int128)inf(s, x) + (I.op == I_ADD ? inf(s, y) : -sup(s, y))), hi = sat((__int128)sup(s, x) + (I.op == I_ADD ? sup(s, y) : -inf(s, y))); r = fresh(s, lo, hi); break; }
              if (!I.nsw && bits < 64) {
                i64 lo = inf(s, q), hi = sup(s, q);
                i64 mn = -((i64)1 << (bits - 1)), mx = ((i64)1 << bits) - 1;
                if (lo < mn || hi > mx) { r = freshBits(s, bits); break; }
              }
              r = Val::L(q); r.comp = true; break;
            }
            case I_MUL: {
              if (y.cst()) r = Val::L(x.mul(y.k)); else if (x.cst()) r = Val::L(y.mul(x.k)); else r = freshBits(s, bits);
              if (r.k == V_INT && bits < 64 && !I.nsw) { if (inf(s, r.l) < -((i64)1 << (bits - 1)) || sup(s, r.l) > ((i64)1 << bits) - 1) r = freshBits(s, bits); }
              r.comp = true; break;
            }
            case I_SHL:
              if (y.cst() && y.k < 32) { r = Val::L(x.mul((i64)1 << y.k)); if (bits < 64 && (inf(s, r.l) < -((i64)1 << (bits - 1)) || sup(s, r.l) > ((i64)1 << bits) - 1)) r = freshBits(s, bits); }
              else r = freshBits(s, bits);
              break;
            case I_AND: {
              Lin z = x, m = y; if (x.cst()) { z = y; m = x; }
              if (m.cst() && m.k >= 0) {
                i64 lo = inf(s, z), hi = sup(s, z);
                i64 low = m.k & -m.k;
                if (lo >= 0 && hi <= m.k && ((m.k + 1) & m.k) == 0) r = Val::L(z);
                else if (m.k && lo >= 0 && hi < INF && lo / low == hi / low) r = Val::I(lo & m.k);   // only bits below the mask vary
                else if (x.cst()) r = fresh(s, 0, m.k);
                else r = memo(0, m.k, m.k);
              } else if (inf(s, x) >= 0 || inf(s, y) >= 0) r = fresh(s, 0, std::max<i64>(inf(s, x) >= 0 ? sup(s, x) : 0, inf(s, y) >= 0 ? sup(s, y) : 0));
              else r = freshBits(s, bits);
              break;
            }
            case I_OR: case I_XOR: {
              i64 h = std::max(sup(s, x), sup(s, y));
              if (inf(s, x) >= 0 && inf(s, y) >= 0 && h < ((i64)1 << 40)) { i64 m = 1; while (m <= h) m <<= 1; r = fresh(s, 0, m - 1); }
              else r = freshBits(s, bits);
              break;
            }
            case I_LSHR: case I_ASHR: {
              i64 lo = inf(s, x), hi = sup(s, x);
              if (y.cst() && lo >= 0 && y.k < 63) r = memo(lo >> y.k, hi >= INF ? INF : hi >> y.k, y.k);
              else if (I.op == I_LSHR && y.cst() && bits < 64) r = memo(0, ((i64)1 << (bits - y.k)) - 1, y.k);
              else r = freshBits(s, bits);
              break;
            }
            case I_SDIV: case I_UDIV: {
              i64 lo = inf(s, x), hi = sup(s, x);
              if (y.cst() && y.k > 0 && lo >= 0) r = memo(lo / y.k, hi >= INF ? INF : hi / y.k, y.k);
              else if (!y.cst() && inf(s, y) <= 0 && sup(s, y) >= 0) { obs["maybe-div0"]++; r = freshBits(s, bits); }
              else r = freshBits(s, bits);
              break;
            }
            default: {  // remainders
              i64 lo = inf(s, x);
              if (y.cst() && y.k > 0) r = memo((lo >= 0 || I.op == I_UREM) ? 0 : -(y.k - 1), y.k - 1, y.k);
              else if (inf(s, y) > 0) r = fresh(s, (lo >= 0 || I.op == I_UREM) ? 0 : -INF, sup(s, y) - 1);
              else r = freshBits(s, bits);
            }
          }
          if (r.k == V_TOP) r = freshBits(s, bits);
          setReg(s, I.dst, r);
          break;
        }
        case I_UNREACHABLE: kill(s); break;
        default:
          if (I.dst >= 0) setReg(s, I.dst, I.ptr ? Val() : Val());
          break;
      }
      continue;
    next:
      break;
    }
  }
}

// ================================================================ merging
static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
struct Ser {
  string b;
  void i(i64 v) { while (true) { unsigned char c = v & 127; v >>= 7; bool done = (v == 0 && !(c & 64)) || (v == -1 && (c & 64)); b.push_back(done ? c : c | 128); if (done) break; } }
  void lin(const Lin &l) { i(l.k); i(l.n); for (int j = 0; j < l.n; j++) { i(l.t[j].s); i(l.t[j].c); } }
  void val(const Val &v) { b.push_back((char)v.k); if (v.k == V_TOP) return; i(v.id); if (v.k == V_BOOL) i(v.bk); lin(v.l); if (v.k == V_PTR) { i(v.slo); i(v.shi); i(v.arr); } }
};

// The state has just jumped: stop it at a merge point if there is one.
bool Engine::land(State *s, const Func &F, int from, int to) {
  int pt = 2 + F.idx * 4096 + to;
  if (F.bl[to].loopHead) { if (!mergeAt(s, pt, to)) return false; arrive(s, pt); return true; }
  if (initMode || F.bl[to].inLoop.size() || F.bl[from].inLoop.empty()) return false;
  bool mg = false;
  for (int h : F.bl[from].inLoop) if (mergePt.count(2 + F.idx * 4096 + h)) mg = true;
  if (!mg) return false;
  for (size_t i = 1; i + 1 < s->fr.size(); i++) if (P.fn[s->fr[i]->fn].bl[s->fr[i]->bl].inLoop.size()) return false;
  if (s->fr.size() < 2) return false;
  // only where much work follows
  auto it = busyBl.find({F.idx, to});
  if (it == busyBl.end()) {
    bool busy = false;
    vector<int> q = {to}; std::set<int> seen;
    while (!q.empty() && !busy) {
      int b = q.back(); q.pop_back();
      if (!seen.insert(b).second) continue;
      for (auto &i : F.bl[b].in) { if (i.op == I_CALL && (i.callee.k != O_FUNC || (!P.fn[i.callee.idx].decl && P.fn[i.callee.idx].name != "log_print"))) busy = true; for (int t : i.tgt) q.push_back(t); }
    }
    it = busyBl.insert({{F.idx, to}, busy}).first;
  }
  if (!it->second) return false;
  arrive(s, pt);
  return true;
}
void Engine::arrive(State *s, int point) {
  if (point && atMerge) { atMerge(*this, s); if (s->dead) { delete s; return; } }
  nArr++;
  if (nArr > maxArr) { incomplete.insert("state budget exhausted"); delete s; return; }
  State *n = new State;
  n->tr = s->tr; n->g = s->g;
  vector<int> om(s->ob.size(), -1), fm(s->fd.size(), -1);
  vector<int> q;
  int nfix = errnoObj + 1;
  n->ob.resize(nfix);
  for (int i = 0; i < nfix && i < (int)s->ob.size(); i++) { om[i] = i; q.push_back(i); }
  auto mapFd = [&](int f) { if (f < 0 || f >= (int)s->fd.size()) return f; if (fm[f] < 0) { fm[f] = n->fd.size(); n->fd.push_back(s->fd[f]); } return fm[f]; };
  auto mapV = [&](const Val &v) -> Val {
    Val r = v;
    if (v.k == V_PTR && v.id >= 0) {
      if (!s->ob[v.id]) return Val();
      if (om[v.id] < 0) { om[v.id] = n->ob.size(); n->ob.push_back(Ref<Obj>()); q.push_back(v.id); }
      r.id = om[v.id];
    } else if (v.k == V_FD) r.id = mapFd(v.id);
    return r;
  };
  struct SlotRef { Lin *l; uint64_t desc; int obj; bool ptr; int cellObj; i64 cellOff; int size; Val *v; };
  vector<SlotRef> sl;
  // frames
  for (size_t k = 0; k < s->fr.size(); k++) {
    Frame &f = *s->fr[k];
    Func &F = P.fn[f.fn];
    Frame *nf = new Frame;
    nf->fn = f.fn; nf->bl = f.bl; nf->ip = f.ip; nf->retReg = f.retReg; nf->tag = f.tag;
    nf->r.resize(F.nregs);
    const vector<int> *live = nullptr;
    vector<int> argl;
    if (k + 1 == s->fr.size()) {
      if ((point & 4095) == 1 && f.bl == 0 && f.ip == 0) { for (int i = 0; i < F.nargs; i++) argl.push_back(i); for (int x : F.bl[0].liveIn) (void)x; live = &argl; }
      else if (point > 4096 && (point - 2) % 4096 == 4094) live = &F.bl[f.bl].in[f.ip - 1].liveAfter;
      else live = &F.bl[f.bl].liveIn;
    } else live = &F.bl[f.bl].in[f.ip - 1].liveAfter;
    n->fr.push_back(Ref<Frame>(nf));
    for (int r : *live) nf->r[r] = f.r[r];
  }
  // objects, breadth first from globals, frames, ghosts, registrations, timers
  size_t qi = 0;
  auto drain = [&]() {
    while (qi < q.size()) {
      int o = q[qi++];
      Obj &so = *s->ob[o];
      Obj *no = new Obj;
      no->kind = so.kind; no->size = so.size; no->freed = so.freed; no->zero = so.zero; no->site = so.site; no->tag = so.tag; no->clob = so.clob;
      memcpy(no->g, so.g, sizeof so.g);
      n->ob[om[o]] = Ref<Obj>(no);
      if (so.freed) { no->size = Lin(0); memset(no->g, 0, sizeof no->g); continue; }
      no->unk = so.unk; no->hasNul = so.hasNul; no->lastZero = so.lastZero;
      if (no->hasNul) {
        i64 a = inf(s, so.nulLo), b = sup(s, so.nulHi);
        if (a > -INF && b < INF) { no->nulLo = Lin(a); no->nulHi = Lin(b); } else no->hasNul = false;
      }
      no->prov = so.prov;
      if (table) {
        no->txt = so.txt;
        if (so.kind == K_HEAP && so.size.cst() && so.size.k >= 512) for (auto &c : so.c) {
          const Val &v = c.second.v;
          auto l = so.c.find(c.first - 8);
          if (v.k != V_PTR || v.id < 0 || l == so.c.end() || l->second.size != 4 || l->second.v.k != V_INT || !s->ob[v.id] || s->ob[v.id]->freed) continue;
          Obj &tb = *s->ob[v.id];
          i64 lo = inf(s, v.l, 3), st = 0; Lin e = norm(s, v.l + l->second.v.l);
          if (lo < 0 || inf(s, l->second.v.l, 3) < 0 || !le0(s, e - tb.size)) continue;
          for (auto &q : tb.c) if (q.second.v.k == V_PTR && q.second.v.id == v.id && sup(s, q.second.v.l, 1) == inf(s, q.second.v.l, 1) && inf(s, q.second.v.l, 1) <= lo) { st = inf(s, q.second.v.l, 1); break; }
          if (!st) continue;                            // only buffers that describe themselves (start, end)
          int eb = -1;
          for (auto &q : tb.sc) if (q.size == 1 && q.v.k == V_INT && norm(s, q.v.l).cst() && norm(s, q.off - e).cst() && norm(s, q.off - e).k == 0) eb = norm(s, q.v.l).k & 255;
          no->txt[c.first - 8] = {v.id, eb, st};
        }
        for (auto &x : no->txt) x.second.buf = mapV(Val::P(x.second.buf)).id;
      }
      for (auto &c : so.c) if (!no->txt.count(c.first) && !no->txt.count(c.first - 8)) no->c[c.first] = {c.second.size, mapV(c.second.v)};
    }
  };
  drain();
  for (auto &f : n->fr) for (auto &v : f->r) { v = mapV(v); }
  drain();
  for (auto &v : s->gv) n->gv.push_back(mapV(v));
  drain();
  for (int kind = 0; kind < 8; kind++) for (size_t i = 0; i < s->fd.size(); i++) if (s->fd[i].kind == kind && s->fd[i].open && s->fd[i].reg) {
    int m = mapFd(i); Val v = mapV(s->fd[i].ptr); n->fd[m].ptr = v; drain();
  }
  for (auto &f : n->fd) if (!f.open || !f.reg) f.ptr = Val();
  {
    vector<Tm> ts = s->tm;
    std::sort(ts.begin(), ts.end(), [&](const Tm &a, const Tm &b) { int x = om[a.obj] < 0 ? 1 << 30 : om[a.obj], y = om[b.obj] < 0 ? 1 << 30 : om[b.obj]; return x != y ? x < y : a.off < b.off; });
    for (auto &t : ts) { Tm x = t; Val v = mapV(Val::P(t.obj)); x.obj = v.id; x.cb = t.cb; x.data = mapV(t.data); n->tm.push_back(x); drain(); }
  }
  for (auto &f : n->fd) if (!f.open || !f.reg) f.ptr = Val();
  // provenance and verified ranges: keep only those of surviving objects
  for (auto &r : n->ob) if (r && r->prov.size()) {
    vector<Prov> pv;
    for (auto &p : r->prov) if (p.obj >= 0 && p.obj < (int)om.size() && om[p.obj] >= 0) { Prov x = p; x.obj = om[p.obj]; pv.push_back(x); }
    r.mut().prov = pv;
  }
  for (auto &v : s->ver) if (v.first.obj >= 0 && om[v.first.obj] >= 0 && !s->ob[v.first.obj]->freed) { auto x = v; x.first.obj = om[v.first.obj]; n->ver.push_back(x); }
  // leaks
  if (leakCheck) {
    for (size_t i = nfix; i < s->ob.size(); i++) {
      if (!s->ob[i] || om[i] >= 0 || s->ob[i]->freed || s->ob[i]->kind != K_HEAP) continue;
      report(s, "leak", string("nothing refers any more to the ") + s->ob[i]->tag + " object allocated at " + siteStr(*this, s->ob[i]->site));
      if (getenv("AI_DBG")) {}
    }
    for (size_t i = 0; i < s->fd.size(); i++) if (s->fd[i].open && fm[i] < 0 && s->fd[i].kind != 0) report(s, "fdleak", "nothing refers any more to the open descriptor obtained at " + siteStr(*this, s->fd[i].site));
  }
  // members of session records that no handler still to come reads
  if (!initMode && !unit && !(table && unrolled)) {
    bool any = false;
    for (auto &r : n->ob) if (r && bulky(*r)) any = true;
    if (any) {
      vector<uint64_t> live((P.fn.size() + 63) / 64, 0);
      int ph = phase(n);
      auto root = [&](const Val &v) { if (v.k == V_FN) { auto &x = reachOf(P, v.id); for (size_t i = 0; i < x.size(); i++) live[i] |= x[i]; } };
      for (auto &f : n->fr) { root(Val::F(f->fn)); for (auto &v : f->r) root(v); }
      for (auto &t : n->tm) if (!n->ob[t.obj]->g[4]) root(t.cb);
      { int l = P.f("ev_loop"); if (l >= 0) root(Val::F(l)); }
      auto isRead = [&](int site, i64 a, i64 e) {
        for (auto &f : readersOf(*this, site)) if (f.first % 2 >= ph && live[f.first / 2 / 64] >> (f.first / 2 % 64) & 1) for (auto &x : f.second) if (x.first < e && a < x.second) return true;
        return false;
      };
      // stored callbacks count as soon as a live function may read them
      vector<std::pair<int, std::pair<i64, int>>> fc;
      for (auto &r : n->ob) if (r && !r->freed && !r->g[4] && r->kind != K_GLOBAL) for (auto &c : r->c) if (c.second.v.k == V_FN) fc.push_back({r->site, {c.first, c.second.v.id}});
      for (bool more = true; more;) {
        more = false;
        for (auto &x : fc) if (x.second.second >= 0 && isRead(x.first, x.second.first, x.second.first + 8)) { root(Val::F(x.second.second)); x.second.second = -1; more = true; }
      }
      for (auto &x : fc) if (x.second.second >= 0) dropped.insert({x.first * 2 + ph, x.second.first});
      for (auto &r : n->ob) if (r && bulky(*r)) {
        Obj &b = *r;
        for (auto t = b.txt.begin(); t != b.txt.end();) {
          i64 a = t->first;
          if (isRead(b.site, a, a + 16)) { ++t; continue; }
          dropped.insert({b.site * 2 + ph, a}); dropped.insert({b.site * 2 + ph, a + 8});
          t = b.txt.erase(t); addUnk(b, a, a + 16);
        }
        auto kept = [&](int t) {                        // a buffer some other object refers to as well
          if (t < 0 || !n->ob[t] || n->ob[t]->freed) return false;
          bool self = false, other = false;
          for (size_t o = 0; o < n->ob.size(); o++) if (n->ob[o] && !n->ob[o]->freed && n->ob[o].p != r.p) for (auto &c : n->ob[o]->c) if (c.second.v.k == V_PTR && c.second.v.id == t) { if ((int)o == t) self = true; else other = true; }
          return self && other;
        };
        for (auto c = b.c.begin(); c != b.c.end();) {
          bool used = c->second.v.k != V_INT && !(table && c->second.v.k == V_PTR && kept(c->second.v.id));
          i64 a = c->first, e = a + c->second.size;
          if (!used) used = isRead(b.site, a, e);
          if (used) { ++c; continue; }
          dropped.insert({b.site * 2 + ph, a});
          c = b.c.erase(c); addUnk(b, a, e);
        }
      }
    }
  }
  // collect numeric slots
  auto KL = [&](uint64_t desc, i64 v, int lim) -> bool {
    if (initMode) return true;
    auto &st = kl[{desc, point}];
    if (st.count(v)) return true;
    if ((int)st.size() >= lim) return false;
    st.insert(v); return true;
  };
  vector<SlotRef> var;
  std::set<uint64_t> topSlot;                           // registers of the innermost function
  vector<std::pair<int, i64>> bytes;
  int isFine = 0;
  if (initMode || !point || (point - 2) % 4096 == 4094) isFine = 2;
  else if (!n->fr.empty() && P.fn[n->fr.back()->fn].bl[n->fr.back()->bl].loopHead) { auto it = fine.find(P.fn[n->fr.back()->fn].name); if (it != fine.end()) isFine = it->second; if (isFine < fineAll) isFine = fineAll; }
  bool tmpl = point && ((unit && !isFine) || isFine == 3);                // one state per shape, relations between triples of counters
  bool calm = !initMode && !unit && n->fr.size() <= 1;           // between two handlers
  auto slot = [&](Lin *l, uint64_t desc, Val *v, int obj, int cellObj, i64 cellOff, int size) {
    *l = norm(s, *l);
    bool ptr = v && v->k == V_PTR;
    if (cellObj >= 0 && size == 1 && v->k == V_INT && !v->comp && l->cst() && !n->ob[cellObj]->g[4] && ((calm && dataByte.count({n->ob[cellObj]->site, cellOff})) || (!initMode && loadByte.count({n->ob[cellObj]->site, cellOff})))) {
      bytes.push_back({cellObj, cellOff});            // one particular value of a received byte
      return;
    }
    if (!initMode && (calm || !isFine) && cellObj >= 0 && v->k == V_INT && v->comp && n->ob[cellObj]->kind == K_HEAP && !n->ob[cellObj]->g[4]) {
      // counters of a session are data between two rounds
      var.push_back({l, desc, obj, ptr, cellObj, cellOff, size, v});
      return;
    }
    if (tmpl && cellObj < 0 && v && (ptr || v->comp) && topSlot.count(desc)) { var.push_back({l, desc, obj, ptr, cellObj, cellOff, size, v}); return; }
    if (l->cst() && !(calm && forceVar && cellObj >= 0 && forceVar(*n->ob[cellObj], cellOff))) {
      bool buf = ptr && !initMode && obj >= 0 && n->ob[obj] && n->ob[obj]->kind == K_HEAP && !n->ob[obj]->g[4] && n->ob[obj]->size.cst() && n->ob[obj]->size.k > 1024;
      int lim = table && isFine == 3 ? (ptr ? (buf ? 0 : 8) : 40) : ptr ? (buf ? (isFine > 1 ? 3 : 1) : isFine ? 8 : 3) : (v && v->comp) ? (isFine ? (cellObj < 0 && isFine > 1 ? 14 : 5) : 2) : 40;
      if (KL(desc, l->k, lim)) return;
    }
    var.push_back({l, desc, obj, ptr, cellObj, cellOff, size, v});
  };
  for (size_t k = 0; k < n->fr.size(); k++) {
    Frame &f = *n->fr[k];
    for (size_t r = 0; r < f.r.size(); r++) {
      Val &v = f.r[r];
      if (v.k == V_INT || v.k == V_PTR || v.k == V_BOOL) {
        if (v.k == V_BOOL) { v = Val(); continue; }
        if (k + 1 == n->fr.size()) topSlot.insert(hmix(hmix(11, k), hmix(f.fn, r)));
        slot(&v.l, hmix(hmix(11, k), hmix(f.fn, r)), &v, v.k == V_PTR ? v.id : -1, -1, 0, 0);
      }
    }
  }
  for (size_t o = 0; o < n->ob.size(); o++) {
    if (!n->ob[o]) continue;
    Obj &b = *n->ob[o];
    if (b.freed) continue;
    for (auto &c : b.c) {
      Val &v = c.second.v;
      if (v.k == V_BOOL) v = Val();
      if (v.k == V_INT || v.k == V_PTR) slot(&v.l, hmix(hmix(12, o), hmix(b.site, c.first)), &v, v.k == V_PTR ? v.id : -1, (int)o, c.first, c.second.size);
    }
    if (!norm(s, b.size).cst()) slot(&b.size, hmix(hmix(13, o), b.site), nullptr, -1, -1, 0, 0); else b.size = norm(s, b.size);
    for (size_t i = 0; i < b.prov.size(); i++) { slot(&b.prov[i].lo, hmix(hmix(14, o), i), nullptr, -1, -1, 0, 0); slot(&b.prov[i].hi, hmix(hmix(15, o), i), nullptr, -1, -1, 0, 0); }
  }
  for (size_t i = 0; i < n->ver.size(); i++) { slot(&n->ver[i].first.lo, hmix(16, i), nullptr, -1, -1, 0, 0); slot(&n->ver[i].first.hi, hmix(17, i), nullptr, -1, -1, 0, 0); }
  n->gl = s->gl;
  for (size_t i = 0; i < n->gl.size(); i++) slot(&n->gl[i], hmix(18, i), nullptr, -1, -1, 0, 0);
  for (auto &v : n->gv) if (v.k == V_INT || v.k == V_PTR) slot(&v.l, hmix(19, &v - &n->gv[0]), &v, v.k == V_PTR ? v.id : -1, -1, 0, 0);
  // drop variables nothing is known about
  {
    vector<int> use(s->sy.size(), 0); vector<char> inC(s->sy.size(), 0);
    for (auto &c : s->cons) for (int i = 0; i < c.n; i++) inC[c.t[i].s] = 1;
    for (auto &x : var) for (int i = 0; i < x.l->n; i++) use[x.l->t[i].s]++;
    vector<SlotRef> keep;
    vector<int> use8(s->sy.size(), 0);                  // uses as one plain byte of an object
    for (auto &x : var) if (x.cellObj >= 0 && x.size == 1 && x.v->k == V_INT && !x.l->over && x.l->n == 1 && x.l->k == 0 && x.l->t[0].c == 1) use8[x.l->t[0].s]++;
    for (auto &x : var) {
      bool drop = false;
      if (x.v && x.v->k == V_INT && x.l->n == 1 && !x.l->over) {
        int y = x.l->t[0].s; Sym &sy = s->sy[y];
        if (use[y] > 1 && use[y] == use8[y] && !inC[y] && x.cellObj >= 0) drop = true;   // copies of a byte
        if (use[y] == 1 && !inC[y]) {
          int bits = x.size ? x.size * 8 : 64;
          if (bits >= 64) drop = sy.lo <= -INF && sy.hi >= INF;
          else {
            i64 mn = -((i64)1 << (bits - 1)), mx = ((i64)1 << (bits - 1)) - 1, um = ((i64)1 << bits) - 1;
            drop = x.l->k == 0 && x.l->t[0].c == 1 && ((sy.lo <= mn && sy.hi >= mx) || (sy.lo <= 0 && sy.hi >= um) || (bits <= 32 && sy.lo <= 1 && sy.hi >= um && !(bits == 8 && x.cellObj >= 0 && dataByte.count({n->ob[x.cellObj]->site, x.cellOff}))));
            if (bits == 8 && x.l->k == 0 && x.cellObj >= 0 && !dataByte.count({n->ob[x.cellObj]->site, x.cellOff})) drop = true;   // single bytes of data carry no relations worth keeping
          }
        }
      }
      if (drop) {
        if (x.cellObj >= 0) {
          Obj &b = *n->ob[x.cellObj];
          b.c.erase(x.cellOff);
          addUnk(b, x.cellOff, x.cellOff + x.size);
        } else *x.v = Val();
      } else keep.push_back(x);
    }
    var.swap(keep);
  }
  for (auto &b : bytes) { n->ob[b.first]->c.erase(b.second); addUnk(*n->ob[b.first], b.second, b.second + 1); }
  // tidy unknown ranges of buffers so that equal situations look equal
  for (auto &r : n->ob) if (r && !r->freed && !r->unk.empty()) {
    Obj &b = *r;
    i64 sz = b.size.cst() ? b.size.k : INF;
    vector<std::pair<i64, i64>> u = b.unk;
    for (auto &x : u) if ((x.second - x.first > 256 && sz > 1024 && !unrolled) || x.second >= INF) {
      auto it = b.c.lower_bound(x.second);
      i64 e = it == b.c.end() ? sz : it->first;
      if (e > x.second) addUnk(b, x.first, e);
    }
    if (!b.zero) b.unk.clear();
  }
  // variables
  vector<Lin> V;
  struct Asg { int a, b; i64 k; };  // value = V[a] - V[b] + k
  vector<Asg> as(var.size());
  vector<char> done(var.size(), 0);
  auto negs = [](const Lin &l) { for (int i = 0; i < l.n; i++) if (l.t[i].c < 0) return true; return false; };
  auto findVar = [&](const Lin &l, uint64_t desc) -> std::pair<int, i64> {
    if (!l.cst() && !calm && !tmpl) for (size_t j = 0; j < V.size(); j++) if (V[j].sameTerms(l)) {
      i64 d = l.k - V[j].k;
      if (d == 0 || (d > -4096 && d < 4096 && KL(hmix(desc, 777 + j), d, isFine > 1 ? 14 : 4))) return {(int)j, d};
    }
    V.push_back(l);
    return {(int)V.size() - 1, 0};
  };
  for (size_t i = 0; i < var.size(); i++) {
    if (var[i].l->over) { if (var[i].v) *var[i].v = Val(); else *var[i].l = Lin(0); as[i] = {-1, -1, 0}; done[i] = 2; continue; }
    if (negs(*var[i].l)) continue;
    auto r = findVar(*var[i].l, var[i].desc); as[i] = {r.first, -1, r.second}; done[i] = 1;
  }
  for (size_t i = 0; i < var.size(); i++) if (!done[i]) {
    Lin l = *var[i].l; bool ok = false;
    size_t nv = V.size();
    for (size_t j = 0; j < nv && !ok && point != 0 && !tmpl; j++) {
      Lin e = l + V[j];
      if (e.over || negs(e) || e.n >= l.n + V[j].n) continue;
      auto r = findVar(e, var[i].desc);
      as[i] = {r.first, (int)j, r.second}; ok = true;
    }
    if (!ok) { auto r = findVar(l, var[i].desc); as[i] = {r.first, -1, r.second}; }
    done[i] = 1;
  }
  // zone over the variables
  int nv = V.size();
  Zone z; z.lo.resize(nv); z.hi.resize(nv);
  vector<int> uf(s->sy.size());
  for (size_t i = 0; i < uf.size(); i++) uf[i] = i;
  std::function<int(int)> fnd = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  for (auto &c : s->cons) for (int i = 1; i < c.n; i++) uf[fnd(c.t[0].s)] = fnd(c.t[i].s);
  for (auto &l : V) for (int i = 1; i < l.n; i++) uf[fnd(l.t[0].s)] = fnd(l.t[i].s);
  vector<char> vbyte(nv, 0);
  for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && as[i].b < 0 && var[i].cellObj >= 0 && var[i].size == 1) vbyte[as[i].a] = 1;
  vector<int> vobj(nv, -1), vcell(nv, -1);
  for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && var[i].ptr && as[i].b < 0) vobj[as[i].a] = var[i].obj;
  for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && !var[i].ptr && as[i].b < 0 && var[i].cellObj >= 0 && n->ob[var[i].cellObj]->kind == K_HEAP && !n->ob[var[i].cellObj]->g[4]) vcell[as[i].a] = var[i].cellObj;
  vector<std::pair<int, i64>> vtab(nv, {-1, 0});        // entries of a table: unrelated to each other unless neighbours
  if (table) for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && as[i].b < 0 && var[i].cellObj >= 0 && n->ob[var[i].cellObj]->txt.size()) vtab[as[i].a] = {var[i].cellObj, var[i].cellOff};
  SupCache sc(s);
  struct Off { Engine &E; ~Off() { E.supCache = nullptr; E.supCacheFor = nullptr; } } off{*this};
  supCache = &sc; supCacheFor = s;
  for (int i = 0; i < nv; i++) { z.lo[i] = inf(s, V[i], 3); z.hi[i] = sup(s, V[i], 3); }
  for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) {
    if (i == j) continue;
    bool con = (V[i].cst() && V[j].cst()) ? true : (V[i].n && V[j].n && fnd(V[i].t[0].s) == fnd(V[j].t[0].s));
    bool same = vobj[i] >= 0 && vobj[i] == vobj[j];   // two positions in one object
    if (vcell[i] >= 0 && vcell[i] == vcell[j]) same = true;   // a counter and its limit
    if (!con && !same) continue;
    if (vtab[i].first >= 0 && vtab[i].first == vtab[j].first && (vtab[i].second > vtab[j].second + 15 || vtab[j].second > vtab[i].second + 15)) continue;
    i64 b = sup(s, V[i] - V[j], 3);
    i64 triv = (z.hi[i] >= INF || z.lo[j] <= -INF) ? INF : z.hi[i] - z.lo[j];
    if (b < triv || same || (V[i].cst() && V[j].cst())) z.d[{i, j}] = b;
  }
  if (!n->fr.empty()) {
    std::set<int> pv, iv;
    for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && as[i].b < 0 && topSlot.count(var[i].desc)) { if (var[i].ptr) pv.insert(as[i].a); else iv.insert(as[i].a); }
    for (int i : pv) if (vobj[i] >= 0 && n->ob[vobj[i]] && n->ob[vobj[i]]->size.cst()) for (int j : iv) if (i != j && z.hi[i] + z.hi[j] > n->ob[vobj[i]]->size.k) {
      i64 k = n->ob[vobj[i]]->size.k;
      if (sup(s, V[i] + V[j], 3) <= k) z.s[{i, j}] = k;
    } else z.s[{i, j}] = n->ob[vobj[i]]->size.k;
  }
  // a table of texts: each position together with the length next to it
  if (table) for (size_t x = 0; x < var.size(); x++) if (done[x] == 1 && as[x].b < 0 && as[x].k == 0 && var[x].ptr && var[x].cellObj >= 0) for (size_t y = 0; y < var.size(); y++)
    if (done[y] == 1 && as[y].b < 0 && as[y].k == 0 && !var[y].ptr && var[y].cellObj == var[x].cellObj && var[y].cellOff < var[x].cellOff + 16 && var[x].cellOff < var[y].cellOff + 16) {
      int i = as[x].a, j = as[y].a;
      if (vobj[i] < 0 || !n->ob[vobj[i]] || !n->ob[vobj[i]]->size.cst()) continue;
      i64 k = n->ob[vobj[i]]->size.k;
      if (sup(s, V[i] + V[j], 3) <= k) z.s[{i, j}] = k;
    }
  supCache = nullptr; supCacheFor = nullptr;
  vector<int> loc;                                      // variables of the innermost function and positions in what it points at
  if (tmpl) {
    std::set<int> pts, in;
    for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && as[i].b < 0 && topSlot.count(var[i].desc)) { in.insert(as[i].a); if (var[i].ptr) pts.insert(var[i].obj); }
    for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && as[i].b < 0 && var[i].ptr && pts.count(var[i].obj)) in.insert(as[i].a);
    loc.assign(in.begin(), in.end());
    if (loc.size() > 12) loc.clear();
  }
  // raw slots for the ranking argument
  vector<Slot> raw;
  vector<uint64_t> names;                               // objects by where they were allocated and in which order they are reached
  vector<int> old;                                      // what an object was called since the edge's source
  vector<char> moved;                                   // named like an object the edge's source knew, but not that object
  if (rank) {
    std::map<int, int> ord; old.assign(n->ob.size(), -1);
    for (size_t i = 0; i < om.size(); i++) if (om[i] >= 0) old[om[i]] = i;
    for (auto &r : n->ob) names.push_back(r ? hmix(r->site, ord[r->site]++) : 0);
    moved.assign(n->ob.size(), 0);
    if (s->src >= 0) for (size_t o = 0; o < n->ob.size(); o++) { auto &an = nodes[s->src].names; moved[o] = !(old[o] >= 0 && old[o] < (int)an.size() && an[old[o]] == names[o]); }
  }
  auto rdesc = [&](const SlotRef &v) -> uint64_t { return v.cellObj >= 0 ? hmix(hmix(21, names[v.cellObj]), v.cellOff) : v.desc; };
  auto ranked = [&](const SlotRef &v) { return v.v != nullptr || v.cellObj >= 0; };
  std::set<uint64_t> lost;
  if (rank) for (size_t i = 0; i < var.size(); i++) if (done[i] == 1 && ranked(var[i])) { raw.push_back({rdesc(var[i]), *var[i].l, var[i].ptr, var[i].obj}); if (var[i].cellObj >= 0 && moved[var[i].cellObj]) lost.insert(raw.back().desc); }
  // patch
  for (size_t i = 0; i < var.size(); i++) if (done[i] == 1) {
    Lin l(as[i].k);
    l.addT(as[i].a, 1);
    if (as[i].b >= 0) l.addT(as[i].b, -1);
    *var[i].l = l;
    if (var[i].v) var[i].v->comp = true;
  }
  // an explicit zero in a zeroed object is no information
  for (auto &r : n->ob) if (r && !r->freed && r->zero && !r->str) {
    Obj &b = *r;
    for (auto it = b.c.begin(); it != b.c.end();) {
      if (it->second.v.isNull() && !inUnk(&b, it->first, it->first + it->second.size)) it = b.c.erase(it); else ++it;
    }
  }
  // key
  Ser S;
  S.i(point);
  S.i(n->fr.size());
  for (auto &f : n->fr) { S.i(f->fn); S.i(f->bl); S.i(f->ip); S.i(f->retReg); S.i(f->tag); for (size_t r = 0; r < f->r.size(); r++) if (f->r[r].k != V_TOP) { S.i(r); S.val(f->r[r]); } S.i(-1); }
  for (auto &r : n->ob) {
    if (!r) { S.i(-3); continue; }
    S.i(r->kind); S.i(r->site); S.i(r->freed);
    if (r->freed) continue;
    S.i(r->zero); S.lin(r->size); for (int x : r->g) S.i(x);
    for (auto &c : r->c) { S.i(c.first); S.i(c.second.size); S.val(c.second.v); }
    S.i(-7);
    if (!r->zero) for (auto &u : r->unk) { S.i(u.first); S.i(u.second); }
    S.i(-7); S.i(r->hasNul + 2 * r->lastZero); if (r->hasNul) { S.lin(r->nulLo); S.lin(r->nulHi); }
    for (auto &p : r->prov) { S.i(p.obj); S.lin(p.lo); S.lin(p.hi); }
    for (auto &x : r->txt) { S.i(x.first); S.i(x.second.buf); S.i(x.second.end); S.i(x.second.lo); }
    S.i(-7);
  }
  S.i(-9);
  for (auto &f : n->fd) { S.i(f.open); S.i(f.kind); S.i(f.reg); S.i(f.ev); S.i(f.bits()); S.i(f.role); S.val(f.ptr); }
  S.i(-9);
  for (auto &t : n->tm) { S.i(t.obj); S.i(t.off); S.val(t.cb); S.val(t.data); }
  S.i(-9);
  for (int x : n->g.v) S.i(x);
  for (auto &l : n->gl) S.lin(l);
  for (auto &v : n->gv) S.val(v);
  for (auto &v : n->ver) { S.i(v.first.obj); S.lin(v.first.lo); S.lin(v.first.hi); S.i(v.second); }
  S.i(nv);
  auto it = nodeOf.find(S.b);
  int id; bool isNew = false;
  if (it == nodeOf.end()) { id = nodes.size(); nodeOf[S.b] = id; nodes.emplace_back(); isNew = true; }
  else id = it->second;
  Node &N = nodes[id];
  N.arr++;
  {
    auto tri = [&](int a, int b, int c) {
      Lin l = norm(s, V[a] - V[b] - V[c]);
      if (l.over) return;
      if (l.cst()) { z.t[{a, b, c}] = l.k; return; }
      i64 u = sup(s, l, 3);
      if (u < INF && u == inf(s, l, 3)) z.t[{a, b, c}] = u;
    };
    if (isNew) { for (int a : loc) for (int b : loc) for (int c : loc) if (a != b && a != c && b < c) tri(a, b, c); }
    else for (auto &p : N.z.t) tri(p.first[0], p.first[1], p.first[2]);
  }
  // ranking data of the edge
  if (rank && s->src >= 0 && !s->prog) {
    Node &A = nodes[s->src];
    std::map<uint64_t, std::pair<const Slot *, const Slot *>> both;
    for (auto &x : A.slots) both[x.desc].first = &x;
    for (auto &x : raw) both[x.desc].second = &x;
    Edge *e = nullptr;
    auto ei = edgeIdx.find({s->src, id});
    if (ei != edgeIdx.end()) e = &edges[ei->second];
    else { edgeIdx[{s->src, id}] = edges.size(); edges.push_back({s->src, id, {}, {}, {}, {}}); e = &edges.back(); }
    vector<std::pair<uint64_t, Lin>> ch, all;
    for (uint64_t x : lost) e->lost.insert(x);
    for (auto &x : both) if (x.second.first && x.second.second) {
      Lin d = x.second.second->l - x.second.first->l;
      all.push_back({x.first, d});
      if (!(d.cst() && d.k == 0)) { ch.push_back({x.first, d}); e->changed.insert(x.first); }
    }
    auto put = [&](uint64_t a, uint64_t b, const Lin &d) { i64 v = d.over ? INF : sup(s, d, 3); auto k = std::make_pair(a, b); auto f = e->dm.find(k); if (f == e->dm.end()) e->dm[k] = v; else f->second = std::max(f->second, v); };
    // a position handed to or back from a helper: the slot that carries it changes with the function
    if (n->fr.size() && A.fn >= 0 && A.fn != n->fr.back()->fn) for (auto &x : A.slots) if (x.ptr && !both[x.desc].second) for (auto &y : raw) if (y.ptr && y.obj >= 0 && old[y.obj] == x.obj && !both[y.desc].first) {
      Lin d = y.l - x.l;
      i64 lo = d.over ? -INF : inf(s, d, 3), hi = d.over ? INF : sup(s, d, 3);
      auto k = std::make_pair(x.desc, y.desc); auto f = e->cd.find(k);
      if (f == e->cd.end()) e->cd[k] = {lo, hi}; else { f->second.first = std::min(f->second.first, lo); f->second.second = std::max(f->second.second, hi); }
    }
    for (auto &c : ch) {
      put(c.first, 0, c.second); put(0, c.first, c.second.mul(-1));
      for (auto &o : all) if (o.first != c.first) { put(c.first, o.first, c.second - o.second); put(o.first, c.first, o.second - c.second); }
    }
  }
  // unknown parts of cleared objects only ever grow
  bool grew = false;
  N.unk.resize(n->ob.size());
  for (size_t o = 0; o < n->ob.size(); o++) if (n->ob[o] && !n->ob[o]->freed && n->ob[o]->zero) {
    Obj &b = *n->ob[o];
    auto &m = N.unk[o];
    if (b.unk == m) continue;
    if (!isNew) for (auto &u : m) addUnk(b, u.first, u.second);
    if (unit && N.ver > 2 && b.unk != m && b.size.cst()) addUnk(b, 0, b.size.k);
    if (b.unk != m) { m = b.unk; grew = true; }
  }
  if (isNew) {
    N.z = z; N.ver = 1; N.point = point;
    if (n->fr.size()) { N.fn = n->fr.back()->fn; N.bl = n->fr.back()->bl; }
  } else {
    // included?
    bool inc = !grew;
    for (int i = 0; i < nv && inc; i++) if (z.lo[i] < N.z.lo[i] || z.hi[i] > N.z.hi[i]) inc = false;
    if (inc) for (auto &p : N.z.d) {
      i64 b; auto f = z.d.find(p.first);
      if (f != z.d.end()) b = f->second;
      else b = (z.hi[p.first.first] >= INF || z.lo[p.first.second] <= -INF) ? INF : z.hi[p.first.first] - z.lo[p.first.second];
      if (b > p.second) { inc = false; break; }
    }
    if (inc) for (auto &p : N.z.s) { auto f = z.s.find(p.first); if (f == z.s.end() || f->second > p.second) { inc = false; break; } }
    if (inc) for (auto &p : N.z.t) { auto f = z.t.find(p.first); if (f == z.t.end() || f->second != p.second) { inc = false; break; } }
    if (inc) { delete n; delete s; return; }
    N.z.joins++;
    bool wid = N.z.joins > 3;
    auto up = [&](i64 v) { auto k = std::lower_bound(marks.begin(), marks.end(), v); return k == marks.end() ? INF : *k; };
    auto dn = [&](i64 v) { auto k = std::upper_bound(marks.begin(), marks.end(), v); return k == marks.begin() ? -INF : *(k - 1); };
    std::map<std::pair<int, int>, i64> nd;
    for (auto &p : z.d) if (!N.z.d.count(p.first)) {
      i64 b = (N.z.hi[p.first.first] >= INF || N.z.lo[p.first.second] <= -INF) ? INF : N.z.hi[p.first.first] - N.z.lo[p.first.second];
      if (b < INF && N.z.joins <= 4) N.z.d[p.first] = b;
    }
    for (auto &p : N.z.d) {
      i64 b; auto f = z.d.find(p.first);
      if (f != z.d.end()) b = f->second;
      else b = (z.hi[p.first.first] >= INF || z.lo[p.first.second] <= -INF) ? INF : z.hi[p.first.first] - z.lo[p.first.second];
      if (b <= p.second) nd[p.first] = p.second;
      else if (b < INF) { if (wid) { b = up(b); if (N.z.joins > 12) b = INF; } if (b < INF) nd[p.first] = b; }
    }
    for (int i = 0; i < nv; i++) {
      if (z.lo[i] < N.z.lo[i]) { N.z.lo[i] = wid ? dn(z.lo[i]) : z.lo[i]; }
      if (z.hi[i] > N.z.hi[i]) {
        i64 u = wid ? up(z.hi[i]) : z.hi[i];
        if (vobj[i] >= 0 && n->ob[vobj[i]] && n->ob[vobj[i]]->size.cst()) { i64 k = n->ob[vobj[i]]->size.k; if (z.hi[i] <= k && u > k) u = k; }   // a position: stop at the end of its object
        N.z.hi[i] = u;
      }
      if (N.z.joins > 25) { if (z.lo[i] < N.z.lo[i]) N.z.lo[i] = -INF; if (z.hi[i] > N.z.hi[i]) N.z.hi[i] = INF; }
    }
    N.z.d = nd;
    for (auto p = N.z.s.begin(); p != N.z.s.end();) { auto f = z.s.find(p->first); if (f == z.s.end() || f->second > p->second) p = N.z.s.erase(p); else ++p; }
    for (auto p = N.z.t.begin(); p != N.z.t.end();) { auto f = z.t.find(p->first); if (f == z.t.end() || f->second != p->second) p = N.z.t.erase(p); else ++p; }
    N.ver++;
  }
  n->sy.resize(nv);
  for (int i = 0; i < nv; i++) n->sy[i] = {N.z.lo[i], N.z.hi[i]};
  for (auto &p : N.z.d) {
    Lin l(-p.second); l.addT(p.first.first, 1); l.addT(p.first.second, -1);
    if (supI(n, l) > 0) n->cons.push_back(l);
  }
  for (auto &p : N.z.s) { Lin l(-p.second); l.addT(p.first.first, 1); l.addT(p.first.second, 1); if (supI(n, l) > 0) n->cons.push_back(l); }
  for (auto &p : N.z.t) {
    bool one = false;
    for (int x : p.first) if (N.z.lo[x] == N.z.hi[x]) one = true;
    if (one) continue;                                  // then the pairs say it
    Lin l(-p.second); l.addT(p.first[0], 1); l.addT(p.first[1], -1); l.addT(p.first[2], -1);
    if (supI(n, l) > 0) n->cons.push_back(l);
    if (supI(n, l.mul(-1)) > 0) n->cons.push_back(l.mul(-1));
  }
  if (unit && getenv("AI_UNIT")) {
    fprintf(stderr, "unit node %d v%d j%d:", id, N.ver, N.z.joins);
    for (int i = 0; i < nv; i++) fprintf(stderr, " y%d[%lld,%lld]in[%lld,%lld]", i, (long long)N.z.lo[i], (long long)N.z.hi[i], (long long)z.lo[i], (long long)z.hi[i]);
    for (auto &p : N.z.d) fprintf(stderr, " y%d-y%d<=%lld", p.first.first, p.first.second, (long long)p.second);
    for (auto &p : N.z.t) fprintf(stderr, " y%d=y%d+y%d+%lld", p.first[0], p.first[1], p.first[2], (long long)p.second);
    fprintf(stderr, "\n");
  }
  if (rank) { N.slots.clear(); for (auto &v : var) if (done[&v - &var[0]] == 1 && ranked(v)) N.slots.push_back({rdesc(v), *v.l, v.ptr, v.obj}); N.names = names; }
  n->src = id; n->prog = point == 0; n->srcNv = nv; n->depth = s->depth + 1;
  { auto &q = n->fr.empty() ? work : workIn; State *&w = q[id]; delete w; w = n; }
  delete s;
}
bool Engine::overBudget() {
  static const double limit = getenv("AI_TIME") ? atof(getenv("AI_TIME")) : 700;
  static const auto start = std::chrono::steady_clock::now();
  if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > (ends >= 0 && !viol.empty() ? std::min(limit, 120.0) : limit)) { incomplete.insert("time budget exhausted"); return true; }
  long a = 0, rss = 0;
  if (FILE *f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &a, &rss) != 2) rss = 0; fclose(f); }
  if (rss * 4096 > (8L << 30)) { incomplete.insert("memory budget exhausted"); return true; }
  return false;
}
void Engine::explore() {
  unsigned ticks = 0;
  FILE *df = getenv("AI_DUMPPT") ? fopen("/tmp/dp.txt", unit ? "a" : "w") : nullptr;
  while (!work.empty() || !workIn.empty()) {
    // everything inside a round settles before the next round starts
    static size_t nextLearn = 1000;
    if (relearn && !unit && nArr >= nextLearn) { nextLearn = nArr * 2; throw Refine(); }
    if (!unit && !incomplete.empty()) for (auto &x : incomplete) if (x.compare(0, 7, "stopped") == 0 || x.find("budget") != string::npos) return;
    if (!unit && !(++ticks & 255) && overBudget()) return;
    auto &q = workIn.empty() ? work : workIn;
    State *s = q.begin()->second; q.erase(q.begin());
    if (df && !s->fr.empty() && P.fn[s->fr.back()->fn].name + ":" + std::to_string(s->fr.back()->bl) == getenv("AI_DUMPPT") && (!getenv("AI_DUMPNODE") || s->src == atoi(getenv("AI_DUMPNODE")))) { extern void dumpState(Engine &, State *, FILE *); dumpState(*this, s, df); }
    if (s->fr.empty()) {
      extern void dispatchHead(Engine &, State *);
      dispatchHead(*this, s);
    } else run(s);
  }
}
// Every cycle of merge points that can be run without new input must have a lexicographic ranking.
void Engine::rankCheck() {
  int n = nodes.size();
  vector<vector<int>> out(n);
  vector<char> alive(edges.size(), 1);
  for (size_t i = 0; i < edges.size(); i++) out[edges[i].a].push_back(i);
  std::function<void(vector<int>)> go = [&](vector<int> ns) {
    // Tarjan restricted to ns and alive edges
    std::map<int, int> idx, low; std::set<int> in(ns.begin(), ns.end()); std::set<int> onst; vector<int> st; int ctr = 0;
    vector<vector<int>> comps;
    struct Fr { int v; size_t i; };
    for (int root : ns) {
      if (idx.count(root)) continue;
      vector<Fr> fs; fs.push_back({root, 0}); idx[root] = low[root] = ctr++; st.push_back(root); onst.insert(root);
      while (!fs.empty()) {
        Fr &f = fs.back();
        if (f.i < out[f.v].size()) {
          int e = out[f.v][f.i++];
          if (!alive[e]) continue;
          int w = edges[e].b;
          if (!in.count(w)) continue;
          if (!idx.count(w)) { idx[w] = low[w] = ctr++; st.push_back(w); onst.insert(w); fs.push_back({w, 0}); }
          else if (onst.count(w)) low[f.v] = std::min(low[f.v], idx[w]);
        } else {
          int v = f.v; fs.pop_back();
          if (!fs.empty()) low[fs.back().v] = std::min(low[fs.back().v], low[v]);
          if (low[v] == idx[v]) { vector<int> c; int w; do { w = st.back(); st.pop_back(); onst.erase(w); c.push_back(w); } while (w != v); comps.push_back(c); }
        }
      }
    }
    for (auto &c : comps) {
      std::set<int> cs(c.begin(), c.end());
      vector<int> es;
      for (int v : c) for (int e : out[v]) if (alive[e] && cs.count(edges[e].b)) es.push_back(e);
      if (es.empty()) continue;
      obs["cycles"]++;
      // candidate measures
      std::set<std::pair<uint64_t, uint64_t>> cand;
      for (int e : es) for (auto &m : edges[e].dm) if (m.second <= -1) cand.insert(m.first);
      // slots available at every node
      std::map<int, std::map<uint64_t, const Slot *>> sm;
      for (int v : c) for (auto &x : nodes[v].slots) sm[v][x.desc] = &x;
      bool progressed = false;
      for (auto &m : cand) {
        bool ok = true; vector<int> dec;
        for (int v : c) { if (m.first && !sm[v].count(m.first)) ok = false; if (m.second && !sm[v].count(m.second)) ok = false; if (!ok) break; }
        if (!ok) continue;
        for (int e : es) {
          if (edges[e].lost.count(m.first) || edges[e].lost.count(m.second)) { ok = false; break; }
          auto f = edges[e].dm.find(m);
          if (f == edges[e].dm.end()) { if ((m.first && edges[e].changed.count(m.first)) || (m.second && edges[e].changed.count(m.second))) { ok = false; break; } continue; }
          if (f->second > 0) { ok = false; break; }
          if (f->second <= -1) {
            // bounded below at the source
            Node &A = nodes[edges[e].a];
            State t; t.sy.resize(A.z.lo.size());
            for (size_t i = 0; i < A.z.lo.size(); i++) t.sy[i] = {A.z.lo[i], A.z.hi[i]};
            for (auto &p : A.z.d) { Lin l(-p.second); l.addT(p.first.first, 1); l.addT(p.first.second, -1); t.cons.push_back(l); }
            Lin ms(0);
            if (m.first) ms = ms + sm[edges[e].a][m.first]->l;
            if (m.second) ms = ms - sm[edges[e].a][m.second]->l;
            if (inf(&t, ms) > -INF) dec.push_back(e);
          }
        }
        if (!ok || dec.empty()) continue;
        for (int e : dec) alive[e] = 0;
        progressed = true;
        break;
      }
      // a position that lives in one slot in some functions of the cycle and in another one in the others
      std::set<std::pair<uint64_t, uint64_t>> two;
      if (!progressed) for (int e : es) for (auto &x : edges[e].cd) two.insert({std::min(x.first.first, x.first.second), std::max(x.first.first, x.first.second)});
      for (auto &w : two) for (int sg = -1; sg <= 1 && !progressed; sg += 2) {
        std::map<int, const Slot *> at; bool ok = true; vector<int> dec;
        for (int v : c) { bool a = sm[v].count(w.first), b = sm[v].count(w.second); if (a == b) { ok = false; break; } at[v] = sm[v][a ? w.first : w.second]; }
        if (!ok) continue;
        for (int e : es) {
          uint64_t x = at[edges[e].a]->desc, y = at[edges[e].b]->desc;
          i64 step;
          if (edges[e].lost.count(y)) { ok = false; break; }
          if (x != y) { auto f = edges[e].cd.find({x, y}); if (f == edges[e].cd.end()) { ok = false; break; } step = sg > 0 ? f->second.second : f->second.first == -INF ? INF : -f->second.first; }
          else { auto f = edges[e].dm.find(sg > 0 ? std::make_pair(x, (uint64_t)0) : std::make_pair((uint64_t)0, x)); if (f == edges[e].dm.end()) { if (edges[e].changed.count(x)) { ok = false; break; } continue; } step = f->second; }
          if (step > 0) { ok = false; break; }
          if (step <= -1) {
            Node &A = nodes[edges[e].a];
            State t; t.sy.resize(A.z.lo.size());
            for (size_t i = 0; i < A.z.lo.size(); i++) t.sy[i] = {A.z.lo[i], A.z.hi[i]};
            for (auto &p : A.z.d) { Lin l(-p.second); l.addT(p.first.first, 1); l.addT(p.first.second, -1); t.cons.push_back(l); }
            if (inf(&t, at[edges[e].a]->l.mul(sg)) > -INF) dec.push_back(e);
          }
        }
        if (!ok || dec.empty()) continue;
        for (int e : dec) alive[e] = 0;
        progressed = true;
      }
      if (progressed) { go(c); continue; }
      // no ranking: report once per set of source loops
      std::set<string> loops; int fn = -1, line = 0; string file;
      for (int v : c) if (nodes[v].fn >= 0) {
        Func &F = P.fn[nodes[v].fn];
        int ln = 0; for (auto &x : F.bl[nodes[v].bl].in) if (x.line) { ln = x.line; break; }
        loops.insert(F.name + ":" + std::to_string(ln));
        if (fn < 0) { fn = nodes[v].fn; line = ln; file = F.file >= 0 ? P.files[F.file] : ""; }
      }
      string k;
      for (auto &x : loops) k += (k.size() ? ", " : "") + x;
      if (relearn && !unit) throw Refine();
      if (getenv("AI_DBG")) {
        fprintf(stderr, "RANK %s\n", k.c_str());
        for (int v : c) fprintf(stderr, " node %d %s slots %zu\n", v, nodes[v].fn >= 0 ? P.fn[nodes[v].fn].name.c_str() : "-", nodes[v].slots.size());
        for (int v : c) for (auto &x : nodes[v].slots) { fprintf(stderr, "  n%d slot %lx ptr%d obj%d k%ld", v, (long)x.desc, x.ptr, x.obj, (long)x.l.k); for (int i = 0; i < x.l.n; i++) fprintf(stderr, " %ld*y%d[%ld,%ld]", (long)x.l.t[i].c, x.l.t[i].s, (long)nodes[v].z.lo[x.l.t[i].s], (long)nodes[v].z.hi[x.l.t[i].s]); fprintf(stderr, "\n"); }
        for (int e : es) { fprintf(stderr, " edge %d->%d changed %zu:", edges[e].a, edges[e].b, edges[e].changed.size()); for (auto &m : edges[e].dm) fprintf(stderr, " (%lx-%lx %ld)", (long)m.first.first, (long)m.first.second, (long)m.second); fprintf(stderr, " ch"); for (auto &q : edges[e].changed) fprintf(stderr, " %lx", (long)q); fprintf(stderr, "\n"); }
      }
      if (fn >= 0 && fine[P.fn[fn].name] < 2) { if (getenv("AI_STAT")) fprintf(stderr, "because ranking of %s\n", k.c_str()); fine[P.fn[fn].name]++; throw Refine(); }
      Viol v; v.kind = "hang"; v.fn = fn >= 0 ? P.fn[fn].name : "?"; v.line = line; v.file = file;
      v.msg = "loop can repeat without input and without any decreasing measure: " + k; v.props = {"P10"}; v.key = "hang|" + k;
      v.trace.push_back("cycle of " + std::to_string(c.size()) + " merge points through " + k);
      viol[v.key] = v;
    }
  };
  vector<int> all; for (int i = 0; i < n; i++) all.push_back(i);
  go(all);
}
