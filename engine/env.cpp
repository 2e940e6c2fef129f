// Abstract models of everything outside the repository: kernel, C library, TLS library,
// plus summaries of the repository's own allocator, timer heap, hash and key automaton
// (those four are analysed on their own by units.cpp).
#include "session.h"
using std::string;
using std::vector;
Layout LY;
string g_mode;
bool g_faults = true;
std::map<string, string> g_facts;

typedef vector<Val> Args;
#define H [=](Engine &E, State *s, const Inst &I, Args &a)

static void setErrno(Engine &E, State *s, i64 v) { E.wrCell(s, E.errnoObj, 0, 4, Val::I(v)); }
static Lin asL(Engine &E, State *s, const Val &v, i64 lo, i64 hi) { if (v.k == V_INT && !v.l.over) return E.norm(s, v.l); return Lin::sym(E.newSym(s, lo, hi)); }
static bool faults(Engine &E, State *s) { return g_faults && !E.initMode && !s->g.v[G_FLT]; }  // one failing environment call per dispatch

// descriptor argument: index of an open descriptor, -1 if unknown, -2 after a violation
static int fdArg(Engine &E, State *s, const Val &v, const char *what) {
  if (v.k == V_FD) {
    if (!s->fd[v.id].open) { E.report(s, "fd", string(what) + " on a descriptor that was already closed", {"P28"}); E.kill(s); return -2; }
    return v.id;
  }
  if (v.k == V_INT) {
    Lin l = E.norm(s, v.l);
    if (l.cst()) { E.report(s, "fd", string(what) + " on a descriptor that was never obtained", {"P28"}); E.kill(s); return -2; }
  }
  E.nUnres++;
  return -1;
}
static int newFd(Engine &E, State *s, int kind) {
  FdI f; f.open = true; f.kind = kind; f.site = E.siteId(s);
  s->fd.push_back(f);
  return s->fd.size() - 1;
}
// fork a failing outcome: returns the failing clone (already pushed) with ret = v, errno = e
static State *failRet(Engine &E, State *s, const Inst &I, const Val &v, i64 e, const string &tr) {
  State *t = E.clone(s);
  if (e) setErrno(E, t, e);
  if (tr.size()) E.trace(t, tr);
  E.ret(t, I, v);
  E.push(t);
  return t;
}
static State *faultRet(Engine &E, State *s, const Inst &I, const Val &v, i64 e, const string &tr) { State *t = failRet(E, s, I, v, e, tr); t->g.v[G_FLT] = 1; return t; }
bool tunnelLeg(int kind) {
  if (g_mode == "c") return kind == FK_UP;
  if (g_mode == "s" || g_mode == "secret") return kind == FK_DOWN;
  return false;
}
bool isMeta(Engine &E, State *s, int id) {
  if (id < 0) return false;
  Obj *o = E.ro(s, id);
  if (!o || o->freed || o->kind != K_HEAP) return false;
  auto ok = [&](i64 off) { auto it = o->c.find(off); return it != o->c.end() && it->second.v.k == V_PTR && it->second.v.id == id; };
  return ok(LY.m_pos) && ok(LY.m_last) && ok(LY.m_end);
}
int conOfFd(Engine &E, State *s, int fd, int *ev) {
  FdI &f = s->fd[fd];
  if (!f.reg || f.ptr.k != V_PTR) return -1;
  Obj *e = E.ro(s, f.ptr.id);
  if (!e || e->freed) return -1;
  if (ev) *ev = f.ptr.id;
  auto it = e->c.find(LY.ev_c);
  if (it == e->c.end() || it->second.v.k != V_PTR) return -1;
  return it->second.v.id;
}
static void allocModel(Engine &E, State *s, const Inst &I, const Val &sz, const char *tag, bool zero, i64 max) {
  Lin n = asL(E, s, sz, 0, INT32_MAX);
  if (faults(E, s) && E.opt.allocFail) faultRet(E, s, I, Val::I(0), 12, string("allocation fails at ") + E.where(s));
  if (max && E.sup(s, n) > max) {
    State *t = E.clone(s);
    if (E.assumeLe(t, Lin(max + 1) - n)) { E.ret(t, I, Val::I(0)); E.trace(t, "allocation refused: larger than any block"); E.push(t); } else delete t;
    if (!E.assumeLe(s, n - Lin(max))) { E.kill(s); return; }
  }
  if (max && !E.le0(s, Lin(1) - n)) {
    State *t = E.clone(s);
    if (E.assumeLe(t, n)) { E.report(t, "abort", "pool request of zero or negative size trips an assertion"); }
    delete t;
    if (!E.assumeLe(s, Lin(1) - n)) { E.kill(s); return; }
  }
  if (s->g.v[G_ANS] && n.cst() && n.k > 256 && n.k < 2048) {   // a new request starts: only when the old one is gone
    bool old = false;
    for (auto &x : s->ob) if (x && x->kind == K_HEAP && !x->freed && !x->g[4] && x->size.cst() && x->size.k > 256 && x->size.k < 2048) old = true;
    if (!old) s->g.v[G_ANS] = 0;
  }
  int o = E.newObj(s, K_HEAP, n, zero, E.siteId(s), tag);
  E.ret(s, I, Val::P(o));
}
void freeObj(Engine &E, State *s, const Val &p, const char *what, bool nullOk) {
  if (p.k == V_INT && E.norm(s, p.l).cst()) {
    if (!nullOk) { E.report(s, "null", string(what) + " of a null pointer"); E.kill(s); }
    return;
  }
  if (p.k != V_PTR) { E.nUnres++; return; }
  Obj *o = E.ro(s, p.id);
  if (!o) return;
  if (o->freed) { E.report(s, "uaf", string(what) + ": second release of object allocated at " + E.siteText(o->site)); E.kill(s); return; }
  Lin off = E.norm(s, p.l);
  if (o->kind != K_HEAP || !off.cst() || off.k != 0) { E.report(s, "uaf", string(what) + " of something that is not the start of an allocated block"); E.kill(s); return; }
  Obj &w = E.rw(s, p.id);
  w.freed = true; w.c.clear(); w.sc.clear(); w.unk.clear(); w.prov.clear(); w.hasNul = w.lastZero = false;
}
static void strOk(Engine &E, State *s, const Val &p, const char *what, Lin &hi, bool &known) {
  known = false;
  if (p.k == V_INT && E.norm(s, p.l).cst()) { E.report(s, "null", string(what) + " of a null string"); E.kill(s); return; }
  if (p.k != V_PTR) { E.nUnres++; return; }
  Obj *o = E.ro(s, p.id);
  if (!o) return;
  if (o->freed) { E.report(s, "uaf", string(what) + " of released object allocated at " + E.siteText(o->site)); E.kill(s); return; }
  if (o->clob) return;
  E.nAcc++;
  if (!E.strBound(s, p, hi)) {
    E.report(s, "oob", string(what) + ": no terminator is certain inside the object allocated at " + E.siteText(o->site)); E.kill(s); return;
  }
  if (p.shi >= 0 && !E.le0(s, p.l + hi - Lin(p.shi - 1))) {
    // terminator lies beyond the member pointed into
    E.report(s, "oob", string(what) + " can run past the " + std::to_string(p.shi - p.slo) + "-byte member of object allocated at " + E.siteText(o->site)); E.kill(s); return;
  }
  known = true;
}
static bool constStr(Engine &E, State *s, const Val &p, string &out) {
  if (p.k != V_PTR) return false;
  Obj *o = E.ro(s, p.id); Lin off = E.norm(s, p.l);
  if (!o || !off.cst() || o->freed) return false;
  i64 sz = E.sup(s, o->size);
  out.clear();
  for (i64 i = off.k; i < sz && out.size() < 4096; i++) { int b = E.byteAt(s, p.id, i); if (b < 0) return false; if (!b) return true; out.push_back((char)b); }
  return false;
}
// length of the text produced by a format; args start at ai
struct FmtLen { Lin n; bool unb = false; };
static FmtLen fmtModel(Engine &E, State *s, const string &f, Args &a, size_t ai, vector<Prov> *pv, bool *homeFirst) {
  FmtLen r; r.n = Lin(0); bool first = true;
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') { r.n = r.n + Lin(1); i++; first = false; continue; }
    i++;
    if (i < f.size() && f[i] == '%') { r.n = r.n + Lin(1); i++; first = false; continue; }
    i64 width = 0, prec = -1; Lin pl; bool plv = false;
    while (i < f.size() && strchr("-+ #0", f[i])) i++;
    while (i < f.size() && isdigit(f[i])) width = width * 10 + (f[i++] - '0');
    if (i < f.size() && f[i] == '*') { i++; ai++; width = 64; }
    if (i < f.size() && f[i] == '.') {
      i++; prec = 0;
      if (i < f.size() && f[i] == '*') { i++; if (ai < a.size()) { pl = asL(E, s, a[ai], 0, INT32_MAX); plv = true; } ai++; prec = -1; }
      else while (i < f.size() && isdigit(f[i])) prec = prec * 10 + (f[i++] - '0');
    }
    while (i < f.size() && strchr("hlzjtL", f[i])) i++;
    char c = i < f.size() ? f[i++] : 0;
    Val v = ai < a.size() ? a[ai] : Val(); ai++;
    i64 mn = width, mx = 24;
    if (c == 's') {
      Lin hi; bool known = false;
      if (plv) {
        // reads at most the given number of bytes
        if (!E.le0(s, pl.mul(-1))) { E.report(s, "oob", "text precision may be negative, so the text is read without limit"); E.kill(s); return r; }
        Lin sb;
        if (!(E.strBound(s, v, sb) && E.le0(s, sb - pl)) && !E.chkAcc(s, v, pl, false, "formatted text")) return r;
        hi = pl; known = true;
      } else {
        strOk(E, s, v, "formatted text", hi, known);
        if (s->dead) return r;
        if (prec >= 0) { if (!known || !E.le0(s, hi - Lin(prec))) { hi = Lin(prec); known = true; } }
      }
      if (pv && v.k == V_PTR && v.id >= 0) {
        Obj *o = E.ro(s, v.id);
        if (o) { for (auto &p : o->prov) pv->push_back(p); if (known) pv->push_back({v.id, v.l, v.l + hi}); else pv->push_back({v.id, v.l, o->size}); }
        if (homeFirst && first && v.id == LY.cfgObj && E.norm(s, v.l).cst() && E.norm(s, v.l).k == LY.cfg_home) *homeFirst = true;
      }
      string cs;
      if (!plv && prec < 0 && width == 0 && constStr(E, s, v, cs)) { r.n = r.n + Lin((i64)cs.size()); first = false; continue; }
      if (!known) { r.unb = true; first = false; continue; }
      int y = E.newSym(s, width, INF);
      i64 sp = E.sup(s, hi);
      if (sp < INF) s->sy[y].hi = std::max(sp, width);
      if (width == 0) E.assumeLe(s, Lin::sym(y) - hi);
      r.n = r.n + Lin::sym(y);
      first = false; continue;
    }
    if (c == 'd' || c == 'i' || c == 'u') {
      mn = std::max<i64>(1, width); mx = 20;
      if (v.k == V_INT) {
        auto dl = [](i64 x) { i64 n = x < 0 ? 1 : 0; uint64_t y = x < 0 ? -(uint64_t)x : x; do { n++; y /= 10; } while (y); return n; };
        i64 lo = E.inf(s, v.l), hi = E.sup(s, v.l);
        if (lo > -INF && hi < INF) mx = std::max(dl(lo), dl(hi));
      }
    }
    else if (c == 'c') { mn = 1; mx = 1; }
    else if (c == 'x' || c == 'X') { mn = 1; mx = 16; }
    else if (c == 'p') { mn = 3; mx = 18; }
    else if (c == 'f') { mn = 1; mx = 330; }
    mn = std::max(mn, width); mx = std::max(mx, mn);
    Val y = E.fresh(s, mn, mx);
    r.n = r.n + y.l;
    first = false;
  }
  if (r.n.over) { r.n = Lin::sym(E.newSym(s, 0, INT32_MAX)); r.unb = true; }
  return r;
}
static void fmtWrite(Engine &E, State *s, const Inst &I, const Val &d, bool bounded, const Val &size, const FmtLen &fl, const vector<Prov> &pv, bool home) {
  Lin total = fl.unb ? Lin::sym(E.newSym(s, 0, INT32_MAX)) : fl.n;
  if (bounded) {
    Lin sz = asL(E, s, size, 0, INF);
    if (!E.le0(s, sz.mul(-1))) { E.report(s, "oob", "text is formatted into a remaining space that may be negative"); E.kill(s); return; }
    if (!(E.norm(s, sz).cst() && E.norm(s, sz).k == 0)) {
      bool fits = E.le0(s, total + Lin(1) - sz);
      Lin wl = fits ? total + Lin(1) : sz;
      if (!E.chkAcc(s, d, wl, true, "formatted output")) return;
      if (d.k == V_PTR && E.ro(s, d.id) && d.id >= 0) {
        Lin off = E.norm(s, d.l);
        E.clobber(s, d.id, off, wl);
        Obj &o = E.rw(s, d.id);
        bool old = o.hasNul && E.le0(s, off - o.nulLo);
        (void)old;
        o.hasNul = true; o.nulLo = off; o.nulHi = off + wl;
        if (off.cst() && off.k == 0) { o.prov.clear(); o.g[3] = home; }
        for (auto &p : pv) o.prov.push_back(p);
        if (o.prov.size() > 6) o.prov.resize(6);
      }
    }
  } else {
    if (fl.unb) { E.report(s, "oob", "unbounded text is formatted without a size limit"); E.kill(s); return; }
    if (!E.chkAcc(s, d, total + Lin(1), true, "formatted output")) return;
    if (d.k == V_PTR && d.id >= 0 && E.ro(s, d.id)) {
      Lin off = E.norm(s, d.l);
      E.clobber(s, d.id, off, total + Lin(1));
      Obj &o = E.rw(s, d.id);
      o.hasNul = true; o.nulLo = off; o.nulHi = off + total + Lin(1);
      if (off.cst() && off.k == 0) { o.prov.clear(); o.g[3] = home; }
      for (auto &p : pv) o.prov.push_back(p);
      if (o.prov.size() > 6) o.prov.resize(6);
    }
  }
  E.ret(s, I, Val::L(total));
}
static void pathCheck(Engine &E, State *s, const Val &p, const char *what, bool opening, i64 flags) {
  Lin hi; bool known;
  strOk(E, s, p, what, hi, known);
  if (s->dead || p.k != V_PTR || p.id < 0) return;
  Obj *o = E.ro(s, p.id);
  if (!o) return;
  bool net = false;
  for (auto &pr : o->prov) {
    Obj *src = pr.obj >= 0 ? E.ro(s, pr.obj) : nullptr;
    if (!src || src->freed || !isMeta(E, s, pr.obj)) continue;
    net = true;
    bool ver = false;
    for (auto &v : s->ver) if (v.first.obj == pr.obj && E.le0(s, v.first.lo - pr.lo) && E.le0(s, pr.hi - v.first.hi)) ver = true;
    if (!ver) { E.report(s, "path", string(what) + ": a name built from request bytes is used although not all of those bytes were checked for parent steps", {"P04"}); E.kill(s); return; }
  }
  if (!net && !(g_mode == "http" || g_mode == "https")) return;
  E.obs[string("path checked at ") + what]++;
  if ((g_mode == "http" || g_mode == "https") && !E.initMode) {
    if (!o->g[3]) { E.report(s, "path", string(what) + ": name does not start with the configured document root", {"P04"}); E.kill(s); return; }
    if (opening) {
      if (flags & (3 | 0100 | 01000 | 02000)) { E.report(s, "path", "file named by a client is opened for more than reading", {"P04"}); E.kill(s); return; }
      if (s->g.v[G_KIND] != 1) { E.report(s, "path", "file named by a client is opened without having been found to be an ordinary file", {"P04"}); E.kill(s); return; }
      if (s->g.v[G_METHOD] == 2) { E.report(s, "path", "file is opened for a request that is not a retrieval", {"P04"}); E.kill(s); return; }
    }
  }
}
static Obj *sslObj(Engine &E, State *s, const Val &v, const char *what) {
  if (!E.chkAcc(s, v, Lin(1), false, what)) return nullptr;
  if (v.k != V_PTR) return nullptr;
  return E.ro(s, v.id);
}
static int sslFd(Engine &E, State *s, int ssl) {
  Val v = E.rdCell(s, ssl, 0, 8, true, false);
  if (v.k != V_FD) return -1;
  return v.id;
}
static void sslErr(Engine &E, State *s, const Inst &I, int ssl, int err, i64 rv, const string &tr) {
  State *t = E.clone(s);
  Obj &o = E.rw(t, ssl);
  o.g[2] = err;
  if (err == 1) t->g.v[G_ERRQ] = 2;
  int f = sslFd(E, t, ssl);
  if (f >= 0) {
    if (err == 2) t->fd[f].rdp = false;
    if (err == 3) t->fd[f].wrb = true;
    if (err == 1 || err == 5) { t->g.v[G_CAUSE] |= 1; t->fd[f].eof = true; }
  }
  E.trace(t, tr);
  E.ret(t, I, Val::I(rv));
  E.push(t);
}

i64 g_hashMax = 0;                       // longest text added to a hash table at start-up
void Engine::stdIntrinsics() {
  auto &X = intr;
  // ------------------------------------------------------------ C library
  X["__errno_location"] = H { E.ret(s, I, Val::P(E.errnoObj)); };
  X["abort"] = H { E.report(s, "abort", "abort is reached"); E.kill(s); };
  X["__assert_fail"] = H { E.report(s, "abort", "assertion failure is reached"); E.kill(s); };
  X["exit"] = H { E.kill(s); };
  X["strlen"] = H {
    string cs;
    if (constStr(E, s, a[0], cs)) { E.ret(s, I, Val::I(cs.size())); return; }
    Lin hi; bool known; strOk(E, s, a[0], "string length", hi, known);
    if (s->dead) return;
    if (!known) { E.ret(s, I, E.fresh(s, 0, INT32_MAX)); return; }
    i64 lo = 0;
    { // leading bytes known to be non-zero
      Lin off = E.norm(s, a[0].l);
      if (off.cst()) while (lo < 64 && E.byteAt(s, a[0].id, off.k + lo) > 0) lo++;
    }
    Val v = E.fresh(s, lo, std::max(lo, E.sup(s, hi)));
    if (!hi.cst() && v.l.n) E.assumeLe(s, v.l - hi);
    // from now on the place of the terminator is known
    if ((E.table || E.ends >= 0) && a[0].k == V_PTR && a[0].id >= 0 && v.l.n && lo == 0) if (Obj *o = E.ro(s, a[0].id)) if (!o->str && E.norm(s, a[0].l).cst()) {
      Lin at = E.norm(s, a[0].l) + v.l;
      for (auto &x : o->nulAt) if (x.first == E.norm(s, a[0].l).k) { E.ret(s, I, Val::L(x.second)); return; }
      E.rw(s, a[0].id).nulAt.push_back({E.norm(s, a[0].l).k, v.l});
    }
    E.ret(s, I, v);
  };
  X["strnlen"] = H {
    Lin n = asL(E, s, a[1], 0, INF), hi; 
    if (!(E.strBound(s, a[0], hi) && E.le0(s, hi - n))) { if (!E.chkAcc(s, a[0], n, false, "bounded string length")) return; hi = n; }
    Val v = E.fresh(s, 0, E.sup(s, hi));
    if (!hi.cst() && v.l.n) E.assumeLe(s, v.l - hi);
    E.ret(s, I, v);
  };
  auto cmpN = H {
    // (a,b,n): both read until a difference or a terminator, at most n bytes
    Lin n = asL(E, s, a[2], 0, INF);
    string ca, cb; bool ka = constStr(E, s, a[0], ca), kb = constStr(E, s, a[1], cb);
    bool nonneg = E.le0(s, n.mul(-1));
    auto side = [&](const Val &p, bool other, const string &oc) {
      Lin hi;
      if (p.k == V_PTR && E.strBound(s, p, hi) && (p.shi < 0 || E.le0(s, p.l + hi - Lin(p.shi - 1)))) return true;
      if (other) {   // stops at the other side's terminator
        Lin need((i64)oc.size() + 1);
        Obj *o = p.k == V_PTR ? E.ro(s, p.id) : nullptr;
        if (o && !o->freed && E.le0(s, Lin(0) - p.l) && E.le0(s, p.l + need - o->size)) return true;
      }
      if (!nonneg) { E.report(s, "oob", "comparison with a length that may be negative"); E.kill(s); return false; }
      return E.chkAcc(s, p, n, false, "comparison");
    };
    if (!side(a[0], kb, cb)) return;
    if (!side(a[1], ka, ca)) return;
    if (ka && kb && E.norm(s, n).cst()) {
      int r = strncmp(ca.c_str(), cb.c_str(), (size_t)std::min<i64>(E.norm(s, n).k, 100000));
      E.ret(s, I, Val::I(r < 0 ? -1 : r > 0)); return;
    }
    E.ret(s, I, E.fresh(s, -255, 255));
  };
  X["strncmp"] = cmpN;
  X["strncasecmp"] = H {
    string ca, cb;
    if (constStr(E, s, a[0], ca) && constStr(E, s, a[1], cb) && E.norm(s, a[2].l).cst() && a[2].k == V_INT) {
      int r = strncasecmp(ca.c_str(), cb.c_str(), (size_t)E.norm(s, a[2].l).k); E.ret(s, I, Val::I(r < 0 ? -1 : r > 0)); return;
    }
    cmpN(E, s, I, a);
  };
  auto cmp0 = H {
    Lin h; bool k; strOk(E, s, a[0], "comparison", h, k); if (s->dead) return; strOk(E, s, a[1], "comparison", h, k); if (s->dead) return;
    string ca, cb;
    if (constStr(E, s, a[0], ca) && constStr(E, s, a[1], cb)) { int r = ca.compare(cb); E.ret(s, I, Val::I(r < 0 ? -1 : r > 0)); return; }
    E.ret(s, I, E.fresh(s, -255, 255));
  };
  X["strcmp"] = cmp0; X["strcasecmp"] = cmp0;
  X["memcmp"] = H {
    Lin n = asL(E, s, a[2], 0, INF);
    if (!E.le0(s, n.mul(-1))) { E.report(s, "oob", "comparison with a length that may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[0], n, false, "comparison") || !E.chkAcc(s, a[1], n, false, "comparison")) return;
    E.ret(s, I, E.fresh(s, -255, 255));
  };
  X["memcpy"] = H { E.memcpy_(s, a[0], a[1], a[2], "memcpy"); if (!s->dead) E.ret(s, I, a[0]); };
  X["memmove"] = H { E.memcpy_(s, a[0], a[1], a[2], "memmove"); if (!s->dead) E.ret(s, I, a[0]); };
  X["memset"] = H { E.memset_(s, a[0], a[1], a[2]); if (!s->dead) E.ret(s, I, a[0]); };
  X["strncpy"] = H {
    Lin n = asL(E, s, a[2], 0, INF);
    if (!E.le0(s, n.mul(-1))) { E.report(s, "oob", "string copy with a length that may be negative"); E.kill(s); return; }
    if (a[1].k == V_INT && E.norm(s, a[1].l).cst()) { E.report(s, "null", "string copy from a null pointer"); E.kill(s); return; }
    Lin hi; bool fits = false;
    if (!(E.strBound(s, a[1], hi))) { if (a[1].k == V_PTR && !E.chkAcc(s, a[1], n, false, "string copy source")) return; }
    else fits = E.le0(s, hi + Lin(1) - n);
    if (!E.chkAcc(s, a[0], n, true, "string copy destination")) return;
    if (a[0].k == V_PTR && a[0].id >= 0 && E.ro(s, a[0].id)) {
      string cs; Lin off = E.norm(s, a[0].l);
      if (constStr(E, s, a[1], cs) && off.cst() && E.norm(s, n).cst() && E.norm(s, n).k <= 512) {
        i64 k = E.norm(s, n).k;
        for (i64 i = 0; i < k; i++) E.wrCell(s, a[0].id, off.k + i, 1, Val::I(i < (i64)cs.size() ? (signed char)cs[i] : 0));
      } else {
        vector<Prov> pv;
        if (a[1].k == V_PTR && a[1].id >= 0) { Obj *so = E.ro(s, a[1].id); pv = so->prov; pv.push_back({a[1].id, a[1].l, a[1].l + n}); }
        E.clobber(s, a[0].id, off, n);
        Obj &o = E.rw(s, a[0].id);
        if (fits) { o.hasNul = true; o.nulLo = off; o.nulHi = off + hi + Lin(1); }
        for (auto &p : pv) o.prov.push_back(p);
        if (o.prov.size() > 6) o.prov.resize(6);
      }
    }
    E.ret(s, I, a[0]);
  };
  X["strcpy"] = H {
    Lin hi; bool k; strOk(E, s, a[1], "string copy source", hi, k); if (s->dead) return;
    if (!k) { E.nUnres++; E.ret(s, I, a[0]); return; }
    if (!E.chkAcc(s, a[0], hi + Lin(1), true, "string copy destination")) return;
    if (a[0].k == V_PTR && a[0].id >= 0) { E.clobber(s, a[0].id, a[0].l, hi + Lin(1)); Obj &o = E.rw(s, a[0].id); o.hasNul = true; o.nulLo = a[0].l; o.nulHi = a[0].l + hi + Lin(1); }
    E.ret(s, I, a[0]);
  };
  auto srch = [](const char *nm) { return H {
    Lin hi; bool k; strOk(E, s, a[0], nm, hi, k); if (s->dead) return;
    string nd; bool isStr = string(nm) == "strstr";
    if (isStr) { Lin h2; bool k2; strOk(E, s, a[1], nm, h2, k2); if (s->dead) return; }
    State *t = E.clone(s);       // not found
    if (isStr && constStr(E, t, a[1], nd) && (nd == "../" || nd == "..") && a[0].k == V_PTR && a[0].id >= 0) {
      Obj *o = E.ro(t, a[0].id); Lin off = E.norm(t, a[0].l);
      bool whole = off.cst() && off.k == 0;
      for (auto &p : o->prov) if (whole) { t->ver.push_back({p, 1}); }
      // a search directly in the source buffer
      t->ver.push_back({{a[0].id, a[0].l, a[0].l + hi}, 1});
      E.obs["parent-step searches"]++;
    }
    E.ret(t, I, Val::I(0)); E.push(t);
    if (a[0].k == V_PTR && k) {
      Val off = E.fresh(s, 0, E.sup(s, hi));
      if (off.l.n && !hi.cst()) E.assumeLe(s, off.l - hi);
      Val r = a[0]; r.l = a[0].l + off.l; r.comp = true;
      E.ret(s, I, r.l.over ? Val() : r);
    } else E.ret(s, I, Val());
  }; };
  X["strstr"] = srch("strstr"); X["strrchr"] = srch("strrchr"); X["strchr"] = srch("strchr");
  X["memchr"] = H {
    Lin n = asL(E, s, a[2], 0, INF);
    if (!E.chkAcc(s, a[0], n, false, "byte search")) return;
    failRet(E, s, I, Val::I(0), 0, "");
    Val off = E.fresh(s, 0, E.sup(s, n));
    if (off.l.n) E.assumeLe(s, off.l + Lin(1) - n);
    Val r = a[0]; r.l = a[0].l + off.l; E.ret(s, I, r.l.over ? Val() : r);
  };
  auto num = H {
    if (a[0].k == V_INT && E.norm(s, a[0].l).cst()) { E.report(s, "null", "number conversion of a null string"); E.kill(s); return; }
    if (!E.chkAcc(s, a[0], Lin(1), false, "number conversion")) return;
    if (E.table) {                          // the digits must end inside the object
      Lin h; bool end = E.strBound(s, a[0], h);
      if (Obj *o = E.ro(s, a[0].id)) for (auto &q : o->sc) { Lin v = q.v.k == V_INT ? E.norm(s, q.v.l) : Lin(0); if (q.size == 1 && q.v.k == V_INT && v.cst() && !isalnum((int)(v.k & 255)) && !strchr("+-. \t", (int)(v.k & 255)) && E.le0(s, a[0].l - q.off)) end = true; }
      if (!end) { E.report(s, "oob", "a number may go on behind the bytes of its object"); E.kill(s); return; }
    }
    if (a.size() > 1 && a[1].k == V_PTR) { Val e = a[0]; e.l = e.l + Lin::sym(E.newSym(s, 0, 64)); E.store(s, a[1], 8, e); if (s->dead) return; }
    E.ret(s, I, E.fresh(s, -INF, INF));
  };
  X["strtol"] = num; X["strtoll"] = num; X["strtoul"] = num; X["strtod"] = num;
  X["atoi"] = H { if (!E.chkAcc(s, a[0], Lin(1), false, "number conversion")) return; E.ret(s, I, E.fresh(s, INT32_MIN, INT32_MAX)); };
  X["tolower"] = H { E.ret(s, I, E.fresh(s, -128, 255)); };
  X["toupper"] = X["tolower"];
  X["__ctype_b_loc"] = H { E.ret(s, I, Val()); };
  X["random"] = H { E.ret(s, I, E.fresh(s, 0, INT32_MAX)); };
  X["rand"] = X["random"];
  X["strerror"] = H { int o = E.newObj(s, K_EXT, Lin(128), true, 800001, "text"); E.clobber(s, o, Lin(0), Lin(100)); E.ret(s, I, Val::P(o)); };
  X["getpid"] = H { E.ret(s, I, E.fresh(s, 1, 1 << 22)); };
  X["htonl"] = H {
    Lin l = E.norm(s, a[0].l);
    if (a[0].k == V_INT && l.cst()) { E.ret(s, I, Val::I((i64)(int32_t)__builtin_bswap32((uint32_t)l.k))); return; }
    if (a[0].k == V_INT && l.n == 1) {
      auto key = std::make_pair(l.t[0].s, (i64)6000 + l.k * 100000 + l.t[0].c * 7);
      if (!s->conv.count(key)) { int y = E.newSym(s, 0, UINT32_MAX); s->conv[key] = y; }
      E.ret(s, I, Val::L(Lin::sym(s->conv[key]))); return;
    }
    E.ret(s, I, E.fresh(s, 0, UINT32_MAX));
  };
  X["ntohl"] = X["htonl"];
  X["htons"] = H {
    Lin l = E.norm(s, a[0].l);
    if (a[0].k == V_INT && l.cst()) { E.ret(s, I, Val::I((i64)__builtin_bswap16((uint16_t)l.k))); return; }
    if (a[0].k == V_INT && l.n == 1) {
      auto key = std::make_pair(l.t[0].s, (i64)6001 + l.k * 100000 + l.t[0].c * 7);
      if (!s->conv.count(key)) { int y = E.newSym(s, 0, 65535); s->conv[key] = y; }
      E.ret(s, I, Val::L(Lin::sym(s->conv[key]))); return;
    }
    E.ret(s, I, E.fresh(s, 0, 65535));
  };
  X["ntohs"] = X["htons"];
  X["inet_addr"] = H { Lin h; bool k; strOk(E, s, a[0], "address text", h, k); if (s->dead) return; E.ret(s, I, E.fresh(s, 0, UINT32_MAX)); };
  X["gettimeofday"] = H {
    if (!E.chkAcc(s, a[0], Lin(16), true, "clock result")) return;
    E.wrCell(s, a[0].id, 0 + E.norm(s, a[0].l).k, 8, E.fresh(s, 1, (i64)1 << 40));
    E.wrCell(s, a[0].id, 8 + E.norm(s, a[0].l).k, 8, E.fresh(s, 0, 999999));
    E.ret(s, I, Val::I(0));
  };
  X["gmtime_r"] = H {
    if (!E.chkAcc(s, a[1], Lin(56), true, "calendar result")) return;
    i64 b = E.norm(s, a[1].l).k;
    static const i64 r[9][2] = {{0, 60}, {0, 59}, {0, 23}, {1, 31}, {0, 11}, {0, 100000}, {0, 6}, {0, 365}, {0, 1}};
    for (int i = 0; i < 9; i++) E.wrCell(s, a[1].id, b + 4 * i, 4, E.fresh(s, r[i][0], r[i][1]));
    E.ret(s, I, a[1]);
  };
  X["localtime_r"] = X["gmtime_r"];
  X["time"] = H { E.ret(s, I, E.fresh(s, 0, (i64)1 << 40)); };
  X["snprintf"] = H {
    string f;
    if (!constStr(E, s, a[2], f)) { E.report(s, "format", "format text is not a constant", {"P14"}); E.kill(s); return; }
    vector<Prov> pv; bool home = false;
    FmtLen fl = fmtModel(E, s, f, a, 3, &pv, &home);
    if (s->dead) return;
    fmtWrite(E, s, I, a[0], true, a[1], fl, pv, home);
  };
  X["sprintf"] = H {
    string f;
    if (!constStr(E, s, a[1], f)) { E.report(s, "format", "format text is not a constant", {"P14"}); E.kill(s); return; }
    vector<Prov> pv; bool home = false;
    FmtLen fl = fmtModel(E, s, f, a, 2, &pv, &home);
    if (s->dead) return;
    fmtWrite(E, s, I, a[0], false, Val(), fl, pv, home);
  };
  X["vsnprintf"] = H {
    if (!E.initMode) s->g.v[G_ANS] = E.table && !E.unrolled;
    string f;
    if (constStr(E, s, a[2], f) && !s->fr.empty() && (f.find('%') == string::npos || s->fr.back()->va.size())) {
      vector<Val> b = {a[0], a[1], a[2]};
      for (auto &v : s->fr.back()->va) b.push_back(v);
      vector<Prov> pv; bool home = false;
      FmtLen fl = fmtModel(E, s, f, b, 3, &pv, &home);
      if (!s->dead) fmtWrite(E, s, I, a[0], true, a[1], fl, {}, false);
      return;
    }
    FmtLen fl; fl.unb = true; fmtWrite(E, s, I, a[0], true, a[1], fl, {}, false);
  };
  X["printf"] = H { E.ret(s, I, E.fresh(s, 0, 4096)); };
  X["puts"] = X["printf"];
  X["fprintf"] = X["printf"];
  X["log_print"] = H {
    E.obs["log calls"]++;
    string f;
    if (a.size() > 4 && constStr(E, s, a[4], f)) { State *t = E.clone(s); fmtModel(E, t, f, a, 5, nullptr, nullptr); bool d = t->dead; delete t; if (d) { E.kill(s); return; } }
    E.ret(s, I, Val::I(0));
  };
  X["__isoc99_sscanf"] = H { for (size_t i = 2; i < a.size(); i++) if (a[i].k == V_PTR && a[i].id >= 0) { Obj *o = E.ro(s, a[i].id); if (o) E.clobber(s, a[i].id, a[i].l, o->size - a[i].l); } E.ret(s, I, E.fresh(s, -1, 8)); };
  // ------------------------------------------------------------ memory
  // a stored text or nothing; what is stored was seen when it was added (the table itself is the hash unit's business)
  if (table) X["ezhash_find"] = H {
    if (E.initMode || !g_hashMax) { if (!g_hashMax) E.incomplete.insert("no texts were added to the hash table"); }
    Lin n = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.chkAcc(s, a[1], n, false, "hash key")) return;
    State *t = E.clone(s); E.ret(t, I, Val::I(0)); E.push(t);
    int o = E.newObj(s, K_EXT, Lin(g_hashMax + 1), false, E.siteId(s), "text");
    Obj &w = E.rw(s, o); w.unk.push_back({0, INF}); w.hasNul = true; w.nulLo = Lin(0); w.nulHi = Lin(g_hashMax + 1);
    E.ret(s, I, Val::P(o));
  };
  X["mem_pool_alloc"] = H { allocModel(E, s, I, a[0], "pool", true, 16384); };
  X["mem_pool_free"] = H { freeObj(E, s, a[0], "mem_pool_free", false); if (!s->dead) E.ret(s, I, Val::I(0)); };
  X["malloc"] = H { allocModel(E, s, I, a[0], "heap", false, 0); };
  X["calloc"] = H { Lin n = asL(E, s, a[0], 0, INT32_MAX); Lin m = asL(E, s, a[1], 0, INT32_MAX); Val v = m.cst() ? Val::L(n.mul(m.k)) : n.cst() ? Val::L(m.mul(n.k)) : E.fresh(s, 0, INT32_MAX); allocModel(E, s, I, v, "heap", true, 0); };
  X["free"] = H { freeObj(E, s, a[0], "free", true); };
  X["realloc"] = H {
    if (a[0].k == V_PTR && E.ro(s, a[0].id) && E.ro(s, a[0].id)->freed) { E.report(s, "uaf", "resize of released object"); E.kill(s); return; }
    if (faults(E, s)) faultRet(E, s, I, Val::I(0), 12, "realloc fails");
    Lin n = asL(E, s, a[1], 0, INT32_MAX);
    int o = E.newObj(s, K_HEAP, n, false, E.siteId(s), "heap");
    if (a[0].k == V_PTR) { Obj &w = E.rw(s, a[0].id); w.freed = true; w.c.clear(); w.sc.clear(); }
    E.ret(s, I, Val::P(o));
  };
  X["mem_pool_init"] = H { E.ret(s, I, Val::I(0)); };
  X["mem_pool_deinit"] = X["mem_pool_init"];
  // ------------------------------------------------------------ timers
  X["timer_init"] = H { E.ret(s, I, Val::I(0)); };
  X["timer_end"] = X["timer_init"];
  X["tm_add"] = H {
    if (!E.chkAcc(s, a[0], Lin(LY.tm_size), true, "timer")) return;
    if (a[0].k != V_PTR) { E.incomplete.insert("timer with unknown address at " + E.where(s)); E.kill(s); return; }
    Lin off = E.norm(s, a[0].l);
    Lin d = asL(E, s, a[3], -INF, INF);
    if (!(E.inf(s, d) >= 0 && E.sup(s, d) <= 24 * 3600 * 1000LL)) { E.report(s, "deadline", "deadline is armed with a delay that may be negative or unlimited", {"P07"}); E.kill(s); return; }
    if (a[2].k == V_PTR) { Obj *o = E.ro(s, a[2].id); if (o && o->freed) { E.report(s, "uaf", "timer is armed for a released object"); E.kill(s); return; } }
    if (a[1].k == V_INT && a[1].isNull()) { E.report(s, "deadline", "deadline is armed without an action", {"P07"}); E.kill(s); return; }
    Tm t{a[0].id, off.k, a[1], a[2]};
    bool f = false;
    for (auto &x : s->tm) if (x.obj == t.obj && x.off == t.off) { x = t; f = true; }
    if (!f) s->tm.push_back(t);
    E.obs["timer arm sites"]++;
    E.ret(s, I, Val::I(0));
  };
  X["tm_del"] = H {
    if (!E.chkAcc(s, a[0], Lin(LY.tm_size), true, "timer")) return;
    if (a[0].k != V_PTR) { E.incomplete.insert("timer with unknown address at " + E.where(s)); E.kill(s); return; }
    Lin off = E.norm(s, a[0].l);
    for (size_t i = 0; i < s->tm.size(); i++) if (s->tm[i].obj == a[0].id && s->tm[i].off == off.k) { s->tm.erase(s->tm.begin() + i); break; }
    E.ret(s, I, Val::I(0));
  };
  // ------------------------------------------------------------ containers summarised (checked by units)
  X["queue_init"] = H { E.chkAcc(s, a[0], Lin(16), true, "list head"); };
  auto qin = H {
    if (!E.chkAcc(s, a[0], Lin(16), true, "list head") || !E.chkAcc(s, a[1], Lin(16), true, "list link")) return;
    if (a[1].k == V_PTR && a[1].id >= 0) {
      Obj &o = E.rw(s, a[1].id);
      if (o.g[5]) { E.report(s, "list", "element is linked into a list twice", {"P27"}); E.kill(s); return; }
      o.g[5] = 1;
    }
  };
  X["queue_insert"] = qin; X["queue_insert_tail"] = qin;
  X["queue_remove"] = H {
    if (!E.chkAcc(s, a[0], Lin(16), true, "list link")) return;
    if (a[0].k == V_PTR && a[0].id >= 0) { Obj &o = E.rw(s, a[0].id); o.g[5] = 0; }
  };
  X["ezhash_create"] = H {
    if (faults(E, s)) faultRet(E, s, I, Val::I(-1), 0, "hash creation fails");
    int o = E.newObj(s, K_EXT, Lin(16), true, E.siteId(s), "hash");
    E.store(s, a[0], 8, Val::P(o)); if (s->dead) return;
    E.ret(s, I, Val::I(0));
  };
  X["ezhash_free"] = H { E.ret(s, I, Val::I(0)); };
  X["ezhash_add"] = H {
    if (!E.chkAcc(s, a[0], Lin(1), false, "hash")) return;
    Lin kn = asL(E, s, a[2], 0, INT32_MAX), vn = asL(E, s, a[4], 0, INT32_MAX);
    if (!E.chkAcc(s, a[1], kn, false, "hash key") || !E.chkAcc(s, a[3], vn, false, "hash value")) return;
    if (faults(E, s)) faultRet(E, s, I, Val::I(-1), 0, "hash insertion fails");
    if (a[0].k == V_PTR && a[0].id >= 0) { Obj &h = E.rw(s, a[0].id); int m = (int)std::min<i64>(E.sup(s, vn), 16384); if (m > h.g[0]) h.g[0] = m; }
    E.ret(s, I, Val::I(0));
  };
  X["ezhash_del"] = H { if (!E.chkAcc(s, a[0], Lin(1), false, "hash")) return; if (!E.chkAcc(s, a[1], asL(E, s, a[2], 0, INT32_MAX), false, "hash key")) return; E.ret(s, I, E.fresh(s, -1, 0)); };
  X["ezhash_find"] = H {
    if (!E.chkAcc(s, a[0], Lin(1), false, "hash")) return;
    Lin kn = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, kn.mul(-1))) { E.report(s, "oob", "hash key length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], kn, false, "hash key")) return;
    failRet(E, s, I, Val::I(0), 0, "");
    int m = a[0].k == V_PTR && E.ro(s, a[0].id) ? E.ro(s, a[0].id)->g[0] : 0;
    if (m <= 0) m = 300;
    const Field *ef = E.P.field("dns_cache_s", "expire_msec"), *af = E.P.field("dns_cache_s", "addr");
    auto it = E.P.st.find("dns_cache_s");
    bool dns = it != E.P.st.end() && ef && af && it->second.size == m;
    int tmG = -1; for (auto &g : E.dynOf) if (E.P.gl[g.first].name == "time_msec" || E.P.gl[g.first].name.find("time_msec.") == 0) tmG = g.second;
    for (int ex = dns ? 1 : 0; ex >= 0; ex--) {
      State *t = ex ? E.clone(s) : s;
      int o = E.newObj(t, K_EXT, Lin(std::max(m, 512)), true, E.siteId(t), "hashval");
      E.clobber(t, o, Lin(0), Lin(m));
      if (dns && tmG >= 0) {
        Val now = E.rdCell(t, tmG, 0, 8, false, false);
        if (now.k == V_INT) {
          Val d = E.fresh(t, ex ? 1 : 1, (i64)1 << 40);
          Val e = Val::L(ex ? now.l - d.l : now.l + d.l);
          if (e.k == V_INT) E.wrCell(t, o, ef->off, 8, e);
          E.rw(t, o).g[1] = ex ? 1 : 2;
          if (ex) E.trace(t, "cache holds an expired entry"); else E.trace(t, "cache holds a live entry");
        }
      }
      E.ret(t, I, Val::P(o));
      if (ex) E.push(t);
    }
  };
  X["ezac_init"] = H { int o = E.newObj(s, K_EXT, Lin(2048), true, E.siteId(s), "automaton"); if (faults(E, s)) faultRet(E, s, I, Val::I(0), 12, "automaton allocation fails"); E.ret(s, I, Val::P(o)); };
  X["ezac_free"] = H { E.ret(s, I, Val::I(0)); };
  X["ezac_add"] = H { if (!E.chkAcc(s, a[1], asL(E, s, a[2], 0, INT32_MAX), false, "key")) return; E.ret(s, I, Val::I(0)); };
  X["ezac_compiler"] = H { E.ret(s, I, Val::I(0)); };
  X["ezac_reset"] = X["ezac_compiler"];
  X["ezac_find"] = H {
    if (!E.chkAcc(s, a[0], Lin(1), false, "key automaton")) return;
    Lin n = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, n.mul(-1))) { E.report(s, "oob", "key length may be negative", {"P02"}); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], n, false, "presented key")) return;
    if (a[1].k == V_PTR && !E.le0(s, a[1].shi >= 0 ? a[1].l + n - Lin(a[1].shi) : n - Lin(32))) { E.report(s, "rule", "bytes beyond the key field of the record take part in the verdict", {"P02"}); E.kill(s); return; }
    E.obs["key verdicts"]++;
    { State *t = E.clone(s); E.trace(t, "key rejected"); E.ret(t, I, Val::I(-1)); E.push(t); }
    E.trace(s, "key accepted");
    s->g.v[G_AUTH] = 2;
    if (a[1].k == V_PTR) { s->gv.resize(GV_N); s->gv[GV_MAGIC] = a[1]; s->gv[GV_MAGIC].l = a[1].l - Lin(4); s->gv[GV_MAGIC].slo = s->gv[GV_MAGIC].shi = -1; }
    authEval(E, s);
    E.ret(s, I, Val::I(0));
  };
  // JSON: only start-up code uses it here (config loading has its own unit)
  auto ext = H { int o = E.newObj(s, K_EXT, Lin(64), false, 800002, "json"); E.rw(s, o).clob = true; E.ret(s, I, Val::P(o)); };
  X["cJSON_Parse"] = ext; X["cJSON_GetObjectItem"] = ext; X["cJSON_GetArrayItem"] = ext;
  X["cJSON_GetArraySize"] = H { E.ret(s, I, Val::I(0)); };
  X["cJSON_GetStringValue"] = H { int o = E.newObj(s, K_EXT, Lin(64), true, 800003, "text"); E.clobber(s, o, Lin(0), Lin(60)); E.ret(s, I, Val::P(o)); };
  X["cJSON_Delete"] = H { };
  // ------------------------------------------------------------ descriptors
  X["socket"] = H {
    if (faults(E, s)) faultRet(E, s, I, Val::I(-1), 24, "socket fails");
    int kind = E.initMode ? FK_INFRA : (a[1].isC() && (a[1].l.k & 15) == 2) ? FK_UDP : FK_UP;
    E.ret(s, I, Val::FD(newFd(E, s, kind)));
  };
  X["epoll_create1"] = H { E.ret(s, I, Val::FD(newFd(E, s, FK_INFRA))); };
  X["close"] = H {
    if (a[0].k == V_FD) {
      FdI &f = s->fd[a[0].id];
      if (!f.open) { E.report(s, "fd", "descriptor is closed a second time", {"P28"}); E.kill(s); return; }
      closing(E, s, a[0].id); if (s->dead) return;
      FdI &f2 = s->fd[a[0].id]; f2.open = false; f2.reg = false; f2.ptr = Val();
      E.obs["descriptor closes"]++;
    } else if (a[0].isC() && a[0].l.k >= 0) { E.report(s, "fd", "a descriptor that was never obtained is closed", {"P28"}); E.kill(s); return; }
    E.ret(s, I, Val::I(0));
  };
  auto sysOk = [](const char *nm) { return H {
    int f = fdArg(E, s, a[0], nm); if (f == -2) return;
    if (faults(E, s)) faultRet(E, s, I, Val::I(-1), 22, string(nm) + " fails");
    E.ret(s, I, Val::I(0));
  }; };
  X["setsockopt"] = sysOk("setsockopt"); X["fcntl"] = sysOk("fcntl"); X["bind"] = sysOk("bind"); X["listen"] = sysOk("listen");
  X["getsockopt"] = H {
    int f = fdArg(E, s, a[0], "getsockopt"); if (f == -2) return;
    if (!E.chkAcc(s, a[3], Lin(4), true, "option value")) return;
    if (faults(E, s)) faultRet(E, s, I, Val::I(-1), 22, "getsockopt fails");
    State *t = E.clone(s);
    E.store(t, a[3], 4, E.fresh(t, 1, 133)); E.trace(t, "socket error is pending"); t->g.v[G_CAUSE] |= 1; E.ret(t, I, Val::I(0)); E.push(t);
    E.store(s, a[3], 4, Val::I(0));
    E.ret(s, I, Val::I(0));
  };
  X["accept"] = H {
    int f = fdArg(E, s, a[0], "accept"); if (f == -2) return;
    bool busy = false;
    for (auto &x : s->fd) if (x.open && x.kind != FK_INFRA) busy = true;
    if (faults(E, s)) faultRet(E, s, I, Val::I(-1), 24, "accept fails");
    if (!busy) {
      State *t = E.clone(s);
      t->prog = true;
      int n = newFd(E, t, FK_DOWN);
      if (a[1].k == V_PTR) E.clobber(t, a[1].id, a[1].l, Lin(16));
      t->g = Ghost();
      t->g.v[G_ERRQ] = s->g.v[G_ERRQ];
      t->gv.assign(GV_N, Val()); t->gl.assign(GL_N, Lin(0)); t->ver.clear();
      E.trace(t, "connection accepted");
      E.ret(t, I, Val::FD(n)); E.push(t);
    }
    setErrno(E, s, 11);
    E.ret(s, I, Val::I(-1));
  };
  X["connect"] = H {
    int f = fdArg(E, s, a[0], "connect"); if (f == -2) return;
    outgoing(E, s, "outgoing connection"); if (s->dead) return;
    if (!E.chkAcc(s, a[1], asL(E, s, a[2], 0, 128), false, "address")) return;
    { State *t = E.clone(s); setErrno(E, t, 111); t->g.v[G_CAUSE] |= 1; E.trace(t, "connect refused"); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); setErrno(E, t, 115); if (f >= 0) { t->fd[f].conn = true; t->fd[f].wrb = true; } E.trace(t, "connect in progress"); E.ret(t, I, Val::I(-1)); E.push(t); }
    if (f >= 0) s->fd[f].wrb = true;
    E.trace(s, "connected at once");
    E.ret(s, I, Val::I(0));
  };
  X["recv"] = H {
    int f = fdArg(E, s, a[0], "recv"); if (f == -2) return;
    pendCheck(E, s, "the next receive"); if (s->dead) return;
    Lin len = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, len.mul(-1))) { E.report(s, "oob", "receive length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], len, true, "receive buffer")) return;
    bool peek = a[3].isC() && (a[3].l.k & 2);
    if (f >= 0 && !peek && tunnelLeg(s->fd[f].kind)) { E.report(s, "clear", "tunnel leg is read without TLS", {"P03"}); E.kill(s); return; }
    if (!E.le0(s, Lin(1) - len)) {
      State *t = E.clone(s);
      if (E.assumeLe(t, len)) { E.trace(t, "receive into zero space returns 0"); E.ret(t, I, Val::I(0)); E.push(t); } else delete t;
      if (!E.assumeLe(s, Lin(1) - len)) { E.kill(s); return; }
    }
    string nm = f >= 0 ? (s->fd[f].kind == FK_DOWN ? "client" : "upstream") : "socket";
    { State *t = E.clone(s); if (f >= 0) { t->fd[f].rdp = false; } setErrno(E, t, 11); E.trace(t, "recv from " + nm + " would block"); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); t->prog = true; setErrno(E, t, 4); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); setErrno(E, t, 104); t->g.v[G_CAUSE] |= 1; if (f >= 0) t->fd[f].eof = true; E.trace(t, "recv from " + nm + " reports reset"); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); if (f >= 0) { t->fd[f].eof = true; } E.trace(t, nm + " closed its side"); E.ret(t, I, Val::I(0)); E.push(t); }
    Val n = E.fresh(s, 1, std::max<i64>(1, E.sup(s, len)));
    if (n.l.n) E.assumeLe(s, n.l - len);
    if (a[1].k == V_PTR && a[1].id >= 0) E.clobber(s, a[1].id, a[1].l, n.l);
    E.trace(s, "recv from " + nm + " returns data");
    if (!peek) { s->prog = true; recvObserve(E, s, f, a[1], n.l); if (s->dead) return; }
    E.ret(s, I, n);
  };
  X["send"] = H {
    int f = fdArg(E, s, a[0], "send"); if (f == -2) return;
    pendCheck(E, s, "the next send"); if (s->dead) return;
    Lin len = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, len.mul(-1))) { E.report(s, "oob", "send length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], len, false, "send buffer")) return;
    if (f >= 0 && tunnelLeg(s->fd[f].kind)) { E.report(s, "clear", "tunnel leg is written without TLS", {"P03"}); E.kill(s); return; }
    sendObserve(E, s, f, a[1], len); if (s->dead) return;
    string nm = f >= 0 ? (s->fd[f].kind == FK_DOWN ? "client" : "upstream") : "socket";
    { State *t = E.clone(s); if (f >= 0) { t->fd[f].blk = true; t->fd[f].wrb = true; } setErrno(E, t, 11); E.trace(t, "send to " + nm + " would block"); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); t->prog = true; setErrno(E, t, 4); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); setErrno(E, t, 32); t->g.v[G_CAUSE] |= 1; E.trace(t, "send to " + nm + " fails"); E.ret(t, I, Val::I(-1)); E.push(t); }
    Val n = E.fresh(s, E.le0(s, Lin(1) - len) ? 1 : 0, std::max<i64>(1, E.sup(s, len)));
    if (n.l.n) E.assumeLe(s, n.l - len);
    if (f >= 0) s->fd[f].blk = false;
    sentObserve(E, s, a[1], n.l);
    E.trace(s, "send to " + nm + " accepts bytes");
    E.ret(s, I, n);
  };
  X["recvfrom"] = H {
    int f = fdArg(E, s, a[0], "recvfrom"); if (f == -2) return;
    Lin len = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, len.mul(-1))) { E.report(s, "oob", "receive length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], len, true, "receive buffer")) return;
    { State *t = E.clone(s); if (f >= 0) t->fd[f].rdp = false; setErrno(E, t, 11); E.trace(t, "datagram receive would block"); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); t->prog = true; setErrno(E, t, 4); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); setErrno(E, t, 111); E.trace(t, "datagram receive fails"); E.ret(t, I, Val::I(-1)); E.push(t); }
    Val n = E.fresh(s, 0, std::max<i64>(1, E.sup(s, len)));
    if (n.l.n) E.assumeLe(s, n.l - len);
    if (a[1].k == V_PTR && a[1].id >= 0) E.clobber(s, a[1].id, a[1].l, n.l);
    if (a.size() > 4 && a[4].k == V_PTR && a[4].id >= 0) { if (!E.chkAcc(s, a[4], Lin(16), true, "peer address")) return; E.clobber(s, a[4].id, a[4].l, Lin(16)); }
    s->prog = true;
    E.trace(s, "datagram received");
    recvObserve(E, s, f, a[1], n.l); if (s->dead) return;
    E.ret(s, I, n);
  };
  X["sendto"] = H {
    int f = fdArg(E, s, a[0], "sendto"); if (f == -2) return;
    Lin len = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, len.mul(-1))) { E.report(s, "oob", "send length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], len, false, "send buffer")) return;
    outgoing(E, s, "name lookup"); if (s->dead) return;
    sendObserve(E, s, f, a[1], len); if (s->dead) return;
    { State *t = E.clone(s); if (f >= 0) { t->fd[f].blk = true; t->fd[f].wrb = true; } setErrno(E, t, 11); E.trace(t, "datagram send would block"); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); t->prog = true; setErrno(E, t, 4); E.ret(t, I, Val::I(-1)); E.push(t); }
    { State *t = E.clone(s); setErrno(E, t, 101); E.trace(t, "datagram send fails"); E.ret(t, I, Val::I(-1)); E.push(t); }
    if (f >= 0) s->fd[f].blk = false;
    Val n = E.fresh(s, 1, std::max<i64>(1, E.sup(s, len)));
    if (n.l.n) E.assumeLe(s, n.l - len);
    sentObserve(E, s, a[1], n.l);
    E.trace(s, "datagram sent");
    E.ret(s, I, n);
  };
  X["epoll_ctl"] = H {
    int f = fdArg(E, s, a[2], "epoll_ctl"); if (f < 0) { if (f == -1) E.ret(s, I, Val::I(0)); return; }
    i64 op = a[1].isC() ? a[1].l.k : 0;
    if (op == 1 && !s->fd[f].known && faults(E, s)) { State *t = faultRet(E, s, I, Val::I(-1), 12, "epoll_ctl fails"); t->fd[f].unreg = true; }
    FdI &x = s->fd[f];
    if (op == 2) {
      if (!x.reg) { setErrno(E, s, 2); E.ret(s, I, Val::I(-1)); return; }
      x.reg = false; x.ptr = Val(); x.ev = 0; x.rdp = false;
      E.ret(s, I, Val::I(0)); return;
    }
    if ((op == 1 && x.reg) || (op == 3 && !x.reg)) { setErrno(E, s, op == 1 ? 17 : 2); E.ret(s, I, Val::I(-1)); return; }
    if (!E.chkAcc(s, a[3], Lin(12), false, "epoll event")) return;
    Val m = E.rdCell(s, a[3].id, E.norm(s, a[3].l).k, 4, false, true), p = E.rdCell(s, a[3].id, E.norm(s, a[3].l).k + 4, 8, true, false);
    x.reg = x.known = true; x.unreg = false; x.ev = m.isC() ? (int)(m.l.k & 0x7) : 5; x.ptr = p; x.rdp = false;
    if (p.k != V_PTR) { E.report(s, "event", "registration carries no connection", {"P23"}); E.kill(s); return; }
    if (x.ev & 4) x.wrb = true;
    E.obs["readiness registrations"]++;
    E.ret(s, I, Val::I(0));
  };
  X["epoll_wait"] = H {
    if (a[1].k == V_PTR) { s->gv.resize(GV_N); s->gv[GV_EPEV] = a[1]; s->gv[GV_EPEV].slo = s->gv[GV_EPEV].shi = -1; }
    Lin mx = asL(E, s, a[2], 0, 100000);
    if (!E.chkAcc(s, a[1], mx.mul(12), true, "event array")) return;
    vector<int> rdy;
    bool busy = false;
    for (size_t i = 0; i < s->fd.size(); i++) if (s->fd[i].open && s->fd[i].kind != FK_INFRA) busy = true;
    for (size_t i = 0; i < s->fd.size(); i++) if (s->fd[i].open && s->fd[i].reg && (s->fd[i].kind != FK_INFRA || !busy)) rdy.push_back(i);
    auto masks = [&](int f) { vector<int> r; int e = s->fd[f].ev; if (e & 1) r.push_back(1); if (e & 4) r.push_back(4); if ((e & 5) == 5) r.push_back(5); return r; };
    auto deliver = [&](vector<std::pair<int, int>> ev) {
      State *t = E.clone(s);
      t->prog = true;
      i64 base = E.norm(t, a[1].l).k; string tr = "ready:";
      for (size_t i = 0; i < ev.size(); i++) {
        FdI &x = t->fd[ev[i].first];
        E.wrCell(t, a[1].id, base + 12 * i, 4, Val::I(ev[i].second));
        E.wrCell(t, a[1].id, base + 12 * i + 4, 8, x.ptr);
        if (ev[i].second & 1) x.rdp = true;
        if (ev[i].second & 4) { x.wrb = false; x.conn = false; }
        static const char *kn[] = {"listener", "client", "upstream", "resolver", "file"};
        tr += string(" ") + kn[x.kind] + (ev[i].second == 1 ? ":R" : ev[i].second == 4 ? ":W" : ":RW");
      }
      E.trace(t, tr);
      E.obs["readiness deliveries"]++;
      if (ev.size() == 2) t->g.v[G_PAIR] = s->fd[ev[0].first].kind * 16 + s->fd[ev[1].first].kind;
      E.ret(t, I, Val::I(ev.size())); E.push(t);
    };
    for (int f : rdy) for (int m : masks(f)) deliver({{f, m}});
    for (int f : rdy) for (int h : rdy) if (f != h && s->fd[f].kind != FK_INFRA && s->fd[h].kind != FK_INFRA) deliver({{f, masks(f).back()}, {h, masks(h).back()}});
    if (rdy.empty()) { E.ret(s, I, Val::I(0)); } else E.kill(s);
  };
  X["open"] = H {
    i64 fl = a[1].isC() ? a[1].l.k : 3;
    pathCheck(E, s, a[0], "open", true, fl); if (s->dead) return;
    if (faults(E, s) || !E.initMode) failRet(E, s, I, Val::I(-1), 13, "open fails");
    E.trace(s, "file opened");
    E.ret(s, I, Val::FD(newFd(E, s, E.initMode ? FK_INFRA : FK_FILE)));
  };
  X["stat"] = H {
    pathCheck(E, s, a[0], "stat", false, 0); if (s->dead) return;
    if (!E.chkAcc(s, a[1], Lin(144), true, "file status")) return;
    failRet(E, s, I, Val::I(-1), 2, "no such file");
    for (int k = 3; k >= 1; k--) {
      State *t = k > 1 ? E.clone(s) : s;
      if (a[1].k == V_PTR && a[1].id >= 0 && E.norm(t, a[1].l).cst()) {
        i64 b = E.norm(t, a[1].l).k;
        E.clobber(t, a[1].id, Lin(b), Lin(144));
        Val m = E.fresh(t, 0, 07777); m.l = m.l + Lin(k == 1 ? 0100000 : k == 2 ? 0040000 : 0010000);
        E.wrCell(t, a[1].id, b + 24, 4, m);
        E.wrCell(t, a[1].id, b + 48, 8, E.fresh(t, 0, (i64)1 << 50));
      }
      t->g.v[G_KIND] = k;
      E.trace(t, k == 1 ? "path is an ordinary file" : k == 2 ? "path is a directory" : "path is a special file");
      E.ret(t, I, Val::I(0));
      if (k > 1) E.push(t);
    }
  };
  X["read"] = H {
    int f = fdArg(E, s, a[0], "read"); if (f == -2) return;
    Lin len = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, len.mul(-1))) { E.report(s, "oob", "read length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], len, true, "read buffer")) return;
    pendCheck(E, s, "the next read"); if (s->dead) return;
    if (faults(E, s)) { faultRet(E, s, I, Val::I(-1), 5, "read fails"); }
    { State *t = E.clone(s); E.trace(t, "read reaches end of file"); E.ret(t, I, Val::I(0)); E.push(t); }
    Val n = E.fresh(s, 1, std::max<i64>(1, E.sup(s, len)));
    if (n.l.n) E.assumeLe(s, n.l - len);
    if (E.sup(s, len) < 1) { E.kill(s); return; }
    if (a[1].k == V_PTR && a[1].id >= 0) E.clobber(s, a[1].id, a[1].l, n.l);
    s->prog = true;
    recvObserve(E, s, -1, a[1], n.l); if (s->dead) return;
    E.ret(s, I, n);
  };
  X["write"] = H { bool std = a[0].isC() && (a[0].l.k == 1 || a[0].l.k == 2); int f = std ? -1 : fdArg(E, s, a[0], "write"); if (f == -2) return; Lin len = asL(E, s, a[2], 0, INT32_MAX); if (!E.chkAcc(s, a[1], len, false, "write buffer")) return; E.ret(s, I, E.fresh(s, -1, E.sup(s, len))); };
  X["unlink"] = H { E.ret(s, I, E.fresh(s, -1, 0)); };
  // ------------------------------------------------------------ TLS library
  X["OPENSSL_init_ssl"] = H { E.ret(s, I, Val::I(1)); }; X["OPENSSL_init_crypto"] = X["OPENSSL_init_ssl"];
  auto meth = H { E.ret(s, I, Val()); };
  X["TLS_client_method"] = meth; X["TLS_server_method"] = meth;
  X["SSL_CTX_new"] = H {
    if (faults(E, s)) { State *t = faultRet(E, s, I, Val::I(0), 12, "SSL_CTX_new fails"); t->g.v[G_ERRQ] = 2; }
    int o = E.newObj(s, K_HEAP, Lin(64), true, E.siteId(s), "ctx");
    E.ret(s, I, Val::P(o));
  };
  X["SSL_CTX_free"] = H { freeObj(E, s, a[0], "SSL_CTX_free", true); };
  X["SSL_CTX_ctrl"] = H {
    Obj *o = sslObj(E, s, a[0], "TLS context"); if (s->dead) return;
    i64 cmd = a[1].isC() ? a[1].l.k : 0;
    if ((cmd == 123 || cmd == 124) && faults(E, s)) { State *t = faultRet(E, s, I, Val::I(0), 0, "TLS version limit cannot be set"); t->g.v[G_ERRQ] = 2; }
    if (o && cmd == 123) E.rw(s, a[0].id).g[1] = a[2].isC() ? (int)a[2].l.k : 1;
    E.ret(s, I, Val::I(1));
  };
  auto ctxOp = [](const char *nm, bool file) { return H {
    sslObj(E, s, a[0], "TLS context"); if (s->dead) return;
    if (file) { Lin h; bool k; strOk(E, s, a[1], nm, h, k); if (s->dead) return; }
    if (faults(E, s)) { State *t = faultRet(E, s, I, Val::I(0), 0, string(nm) + " fails"); t->g.v[G_ERRQ] = 2; }
    E.ret(s, I, Val::I(1));
  }; };
  for (const char *n : {"SSL_CTX_set_cipher_list", "SSL_CTX_set_ciphersuites", "SSL_CTX_check_private_key", "SSL_check_private_key"}) X[n] = ctxOp(n, false);
  for (const char *n : {"SSL_CTX_use_certificate_file", "SSL_CTX_use_PrivateKey_file", "SSL_use_certificate_file", "SSL_use_PrivateKey_file"}) X[n] = ctxOp(n, true);
  X["SSL_CTX_set_verify"] = H { sslObj(E, s, a[0], "TLS context"); };
  X["SSL_new"] = H {
    if (a[0].isNull()) { E.report(s, "null", "TLS connection is created from no context"); E.kill(s); return; }
    Obj *o = sslObj(E, s, a[0], "TLS context"); if (s->dead) return;
    if (o && o->g[1] < 0x303) { E.report(s, "proto", "TLS connection is created from a context that was not limited to TLS 1.2 or newer", {"P03"}); E.kill(s); return; }
    E.obs["TLS connections from a limited context"]++;
    if (faults(E, s)) { State *t = faultRet(E, s, I, Val::I(0), 12, "SSL_new fails"); t->g.v[G_ERRQ] = 2; }
    int n = E.newObj(s, K_HEAP, Lin(64), true, E.siteId(s), "ssl");
    E.ret(s, I, Val::P(n));
  };
  X["SSL_free"] = H { freeObj(E, s, a[0], "SSL_free", true); };
  X["SSL_set_fd"] = H {
    sslObj(E, s, a[0], "TLS object"); if (s->dead) return;
    int f = fdArg(E, s, a[1], "SSL_set_fd"); if (f == -2) return;
    if (faults(E, s)) { State *t = faultRet(E, s, I, Val::I(0), 0, "SSL_set_fd fails"); t->g.v[G_ERRQ] = 2; }
    if (a[0].k == V_PTR) { E.wrCell(s, a[0].id, 0, 8, a[1]); if (f >= 0) s->fd[f].hs = true; }
    E.ret(s, I, Val::I(1));
  };
  X["SSL_set_ex_data"] = H { sslObj(E, s, a[0], "TLS object"); if (s->dead) return; if (faults(E, s)) faultRet(E, s, I, Val::I(0), 0, "SSL_set_ex_data fails"); E.ret(s, I, Val::I(1)); };
  X["SSL_set_accept_state"] = H { sslObj(E, s, a[0], "TLS object"); if (s->dead) return; E.rw(s, a[0].id).g[1] = 1; };
  X["SSL_set_connect_state"] = H { sslObj(E, s, a[0], "TLS object"); if (s->dead) return; E.rw(s, a[0].id).g[1] = 2; };
  X["SSL_in_init"] = H { Obj *o = sslObj(E, s, a[0], "TLS object"); if (s->dead || !o) return; E.ret(s, I, Val::I(!o->g[0])); };
  X["SSL_is_init_finished"] = H { Obj *o = sslObj(E, s, a[0], "TLS object"); if (s->dead || !o) return; E.ret(s, I, Val::I(o->g[0])); };
  X["SSL_do_handshake"] = H {
    Obj *o = sslObj(E, s, a[0], "TLS object"); if (s->dead || !o) return;
    if (!o->g[1]) { E.report(s, "tls", "handshake without a role", {"P03"}); E.kill(s); return; }
    int id = a[0].id;
    if (o->g[0]) { E.ret(s, I, Val::I(1)); return; }
    sslErr(E, s, I, id, 2, -1, "handshake wants to read");
    sslErr(E, s, I, id, 3, -1, "handshake wants to write");
    sslErr(E, s, I, id, 1, -1, "handshake fails (protocol)");
    sslErr(E, s, I, id, 5, -1, "handshake fails (transport)");
    E.rw(s, id).g[0] = 1;
    int f = sslFd(E, s, id); if (f >= 0) s->fd[f].hs = false;
    s->prog = true;
    E.trace(s, "handshake completes");
    E.ret(s, I, Val::I(1));
  };
  X["SSL_connect"] = X["SSL_do_handshake"]; X["SSL_accept"] = X["SSL_do_handshake"];
  X["SSL_get_error"] = H {
    Obj *o = sslObj(E, s, a[0], "TLS object"); if (s->dead || !o) return;
    if (a[1].k == V_INT && E.le0(s, Lin(1) - a[1].l)) { E.ret(s, I, Val::I(0)); return; }
    E.ret(s, I, Val::I(s->g.v[G_ERRQ] ? 1 : o->g[2]));
  };
  X["ERR_peek_error"] = H { E.ret(s, I, s->g.v[G_ERRQ] ? E.fresh(s, 1, INT32_MAX) : Val::I(0)); };
  X["ERR_get_error"] = H { int q = s->g.v[G_ERRQ]; if (q) s->g.v[G_ERRQ]--; E.ret(s, I, q ? E.fresh(s, 1, INT32_MAX) : Val::I(0)); };
  X["ERR_clear_error"] = H { s->g.v[G_ERRQ] = 0; };
  X["ERR_error_string_n"] = H {
    Lin n = asL(E, s, a[2], 0, INF);
    if (!E.chkAcc(s, a[1], n, true, "error text")) return;
    if (a[1].k == V_PTR && a[1].id >= 0) { E.clobber(s, a[1].id, a[1].l, n); Obj &o = E.rw(s, a[1].id); o.hasNul = true; o.nulLo = a[1].l; o.nulHi = a[1].l + n; }
  };
  X["SSL_read"] = H {
    Obj *o = sslObj(E, s, a[0], "TLS object"); if (s->dead || !o) return;
    pendCheck(E, s, "the next receive"); if (s->dead) return;
    int id = a[0].id;
    if (!o->g[0]) { E.report(s, "tls", "TLS data is read before the handshake completed", {"P03"}); E.kill(s); return; }
    int f = sslFd(E, s, id);
    if (f >= 0 && !s->fd[f].open) { E.report(s, "fd", "TLS read on a closed descriptor", {"P28"}); E.kill(s); return; }
    Lin len = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, len.mul(-1))) { E.report(s, "oob", "receive length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], len, true, "receive buffer")) return;
    string nm = f >= 0 ? (s->fd[f].kind == FK_DOWN ? "client" : "upstream") : "socket";
    if (!E.le0(s, Lin(1) - len)) {
      State *t = E.clone(s);
      if (E.assumeLe(t, len)) { E.rw(t, id).g[2] = 5; E.trace(t, "TLS read into zero space fails"); E.ret(t, I, Val::I(0)); E.push(t); } else delete t;
      if (!E.assumeLe(s, Lin(1) - len)) { E.kill(s); return; }
    }
    { State *q = E.clone(s); if (f >= 0) q->fd[f].rnw = false; sslErr(E, q, I, id, 2, -1, "TLS read from " + nm + " wants to read"); delete q; }
    if (f < 0 || !s->fd[f].wnr) { State *q = E.clone(s); if (f >= 0) q->fd[f].rnw = true; sslErr(E, q, I, id, 3, -1, "TLS read from " + nm + " wants to write"); delete q; }
    sslErr(E, s, I, id, 1, -1, "TLS read from " + nm + " fails");
    { State *q = E.clone(s); if (f >= 0) q->fd[f].eof = true; sslErr(E, q, I, id, 6, 0, nm + " closed its side"); delete q; }
    if (f >= 0) s->fd[f].rnw = s->fd[f].wnr = false;
    Val n = E.fresh(s, 1, std::max<i64>(1, E.sup(s, len)));
    if (n.l.n) E.assumeLe(s, n.l - len);
    if (a[1].k == V_PTR && a[1].id >= 0) E.clobber(s, a[1].id, a[1].l, n.l);
    s->prog = true;
    E.trace(s, "TLS read from " + nm + " returns data");
    recvObserve(E, s, f, a[1], n.l); if (s->dead) return;
    E.ret(s, I, n);
  };
  X["SSL_write"] = H {
    Obj *o = sslObj(E, s, a[0], "TLS object"); if (s->dead || !o) return;
    pendCheck(E, s, "the next send"); if (s->dead) return;
    int id = a[0].id;
    if (!o->g[0]) { E.report(s, "tls", "TLS data is written before the handshake completed", {"P03"}); E.kill(s); return; }
    int f = sslFd(E, s, id);
    if (f >= 0 && !s->fd[f].open) { E.report(s, "fd", "TLS write on a closed descriptor", {"P28"}); E.kill(s); return; }
    Lin len = asL(E, s, a[2], 0, INT32_MAX);
    if (!E.le0(s, len.mul(-1))) { E.report(s, "oob", "send length may be negative"); E.kill(s); return; }
    if (!E.chkAcc(s, a[1], len, false, "send buffer")) return;
    sendObserve(E, s, f, a[1], len); if (s->dead) return;
    if (E.norm(s, len).cst() && E.norm(s, len).k == 0) { E.rw(s, id).g[2] = 5; E.ret(s, I, Val::I(0)); return; }
    if (o->g[3]) {
      Val pb = E.rdCell(s, id, 8, 8, true, false), pn = E.rdCell(s, id, 16, 8, false, false);
      bool same = pb.k == V_PTR && a[1].k == V_PTR && pb.id == a[1].id && E.le0(s, pb.l - a[1].l) && E.le0(s, a[1].l - pb.l) && pn.k == V_INT && E.le0(s, pn.l - len);
      if (!same) { E.report(s, "tls", "a TLS write that has to be repeated is repeated with other bytes", {"P15"}); E.kill(s); return; }
    }
    string nm = f >= 0 ? (s->fd[f].kind == FK_DOWN ? "client" : "upstream") : "socket";
    State *q = E.clone(s);
    E.rw(q, id).g[3] = 1; E.wrCell(q, id, 8, 8, a[1]); E.wrCell(q, id, 16, 8, Val::L(len));
    if (f >= 0) { q->fd[f].blk = true; }
    { State *w = E.clone(q); if (f >= 0) w->fd[f].wnr = false; sslErr(E, w, I, id, 3, -1, "TLS write to " + nm + " wants to write"); delete w; }
    if (f >= 0) { q->fd[f].wnr = true; }
    if (f < 0 || !s->fd[f].rnw) sslErr(E, q, I, id, 2, -1, "TLS write to " + nm + " wants to read");
    delete q;
    sslErr(E, s, I, id, 5, -1, "TLS write to " + nm + " fails");
    Obj &w = E.rw(s, id); w.g[3] = 0; w.c.erase(8); w.c.erase(16);
    if (f >= 0) { s->fd[f].blk = s->fd[f].wnr = s->fd[f].rnw = false; }
    sentObserve(E, s, a[1], len);
    E.trace(s, "TLS write to " + nm + " accepts bytes");
    E.ret(s, I, Val::L(len));
  };
  X["SSL_shutdown"] = H {
    Obj *o = sslObj(E, s, a[0], "TLS object"); if (s->dead || !o) return;
    int id = a[0].id, f = sslFd(E, s, id);
    if (f >= 0 && !s->fd[f].open) { E.report(s, "fd", "TLS shutdown on a closed descriptor", {"P28"}); E.kill(s); return; }
    if (f >= 0) { closing(E, s, f); if (s->dead) return; }
    if (f >= 0) { s->fd[f].shut = true; s->fd[f].blk = false; s->fd[f].wnr = s->fd[f].rnw = false; }
    if (!o->g[6]) {                       // our close notice goes out first
      sslErr(E, s, I, id, 3, -1, "TLS shutdown wants to write");
      E.rw(s, id).g[2] = 5; E.rw(s, id).g[6] = 1; E.trace(s, "TLS close notice sent"); E.ret(s, I, Val::I(0));
      return;
    }
    sslErr(E, s, I, id, 2, -1, "TLS shutdown wants to read");
    sslErr(E, s, I, id, 5, -1, "TLS shutdown fails");
    E.trace(s, "TLS shutdown done");
    E.ret(s, I, Val::I(1));
  };
  // ------------------------------------------------------------ process control used at start-up only
  for (const char *n : {"sigemptyset", "sigaddset", "sigprocmask", "sigaction", "setpriority", "umask", "kill", "pthread_mutex_init", "pthread_mutex_destroy"})
    X[n] = H { E.ret(s, I, Val::I(0)); };
  X["pthread_mutex_lock"] = H { E.ret(s, I, Val::I(0)); }; X["pthread_mutex_unlock"] = X["pthread_mutex_lock"];
}
