#include <algorithm>
// Event-loop harness: explores every reachable abstract session state of one configuration of the worker
// and checks the session-level rules at every return to the event loop.
#include "session.h"
using std::string;
using std::vector;

static i64 fo(Engine &E, const char *st, const char *f) {
  const Field *x = E.P.field(st, f);
  if (!x) { LY.ok = false; LY.missing += string(" ") + st + "." + f; return 0; }
  return x->off;
}
bool initLayout(Engine &E) {
  LY.ok = true; LY.missing.clear();
  LY.c_fd = fo(E, "net_connection_t", "fd"); LY.c_ev = fo(E, "net_connection_t", "ev"); LY.c_meta = fo(E, "net_connection_t", "meta");
  LY.c_data = fo(E, "net_connection_t", "data"); LY.c_ssl = fo(E, "net_connection_t", "ssl");
  LY.ev_c = fo(E, "ev", "c"); LY.ev_read = fo(E, "ev", "read_cb"); LY.ev_write = fo(E, "ev", "write_cb"); LY.ev_opt = fo(E, "ev", "opt");
  LY.m_start = fo(E, "meta", "start"); LY.m_pos = fo(E, "meta", "pos"); LY.m_last = fo(E, "meta", "last"); LY.m_end = fo(E, "meta", "end");
  auto it = E.P.st.find("meta"); LY.m_size = it == E.P.st.end() ? 40 : it->second.size;
  it = E.P.st.find("ev_timer_s"); if (it == E.P.st.end()) { LY.ok = false; LY.missing += " ev_timer_s"; LY.tm_size = 1; } else LY.tm_size = it->second.size;
  LY.cfg_home = fo(E, "gobal_conf", "http_home");
  const Field *h = E.P.field("gobal_conf", "http_home"); LY.cfg_homen = h ? h->size : 0;
  int cfg = -1;   // the variable that holds the configuration
  for (size_t i = 0; i < E.P.gl.size() && cfg < 0; i++) if ((E.P.gl[i].type == "config_t" || E.P.gl[i].type == "gobal_conf") && E.dynOf.count(i)) cfg = i;
  if (cfg < 0) { LY.ok = false; LY.missing += " configuration variable"; } else LY.cfgObj = E.dynOf[cfg];
  // the event context: the structure with the array of events a round has to deliver, and the variable that points to it
  LY.evs = LY.evn = nullptr; LY.evCtx = -1;
  for (auto &t : E.P.st) {
    const Field *a = nullptr, *n = nullptr;
    for (auto &f : t.second.f) { if (f.type == "ev_t*[]") a = &f; else if (f.type == "int" && (!a || !n)) n = &f; }
    if (!a) continue;
    for (size_t i = 0; i < E.P.gl.size(); i++) if (E.P.gl[i].type == t.first + "*" && E.dynOf.count(i)) { LY.evs = a; LY.evn = n; LY.evCtx = E.dynOf[i]; }
  }
  return LY.ok;
}
static bool same(Engine &E, State *s, const Lin &a, const Lin &b) { Lin d = E.norm(s, a - b); if (d.over) return false; if (d.cst()) return d.k == 0; return E.le0(s, d) && E.le0(s, d.mul(-1)); }
static Val cell(Engine &E, State *s, int id, i64 off) {
  Obj *o = E.ro(s, id);
  if (!o || o->freed) return Val();
  auto it = o->c.find(off);
  if (it != o->c.end()) return it->second.v;
  return o->zero ? Val::I(0) : Val();
}
static bool tunnelMode() { return g_mode == "c" || g_mode == "s" || g_mode == "secret"; }
static vector<string> ioProps() { return tunnelMode() ? vector<string>{"P15"} : vector<string>{"P29"}; }
static int metaOfFd(Engine &E, State *s, int fd) {
  int con = conOfFd(E, s, fd);
  if (con < 0) { // not registered: look for the connection that stores the descriptor
    for (size_t i = 0; i < s->ob.size(); i++) { if (!s->ob[i] || s->ob[i]->freed || s->ob[i]->kind != K_HEAP) continue; Val v = cell(E, s, i, LY.c_fd); if (v.k == V_FD && v.id == fd) { Val m = cell(E, s, i, LY.c_meta); if (m.k == V_PTR && isMeta(E, s, m.id)) { con = i; break; } } }
  }
  if (con < 0) return -1;
  Obj *o = E.ro(s, con); if (!o || o->freed) return -1;
  Val m = cell(E, s, con, LY.c_meta);
  return m.k == V_PTR && isMeta(E, s, m.id) ? m.id : -1;
}
static int legFd(State *s, int kind) { for (size_t i = 0; i < s->fd.size(); i++) if (s->fd[i].open && s->fd[i].kind == kind) return i; return -1; }
void authEval(Engine &E, State *s) {
  if (s->g.v[G_AUTH] != 2 || (int)s->gv.size() <= GV_MAGIC || s->gv[GV_MAGIC].k != V_PTR) return;
  Val p = s->gv[GV_MAGIC];
  Obj *o = E.ro(s, p.id);
  if (!o || o->freed) return;
  Lin off = E.norm(s, p.l);
  Val v;
  if (off.cst()) { auto it = o->c.find(off.k); if (it != o->c.end() && it->second.size == 4) v = it->second.v; }
  else for (auto &x : o->sc) if (x.size == 4 && x.off == off) v = x.v;
  if (v.k != V_INT) return;
  Lin l = E.norm(s, v.l);
  if (!l.cst()) return;
  s->g.v[G_AUTH] = 1;
  s->gv[GV_MAGIC] = Val();
  char b[32]; snprintf(b, sizeof b, "0x%08x", (unsigned)l.k);
  g_facts["magic accepted in mode " + g_mode] = b;
}
void outgoing(Engine &E, State *s, const char *what) {
  if (E.initMode || !(g_mode == "s" || g_mode == "secret")) return;
  E.obs["outgoing actions checked"]++;
  if (!s->g.v[G_AUTH]) { // that the magic takes part in the verdict is decided in the authrec driver
    E.report(s, "auth", string(what) + " for a client that has not been authorised", {"P01"});
    E.kill(s);
  }
}
void pendCheck(Engine &E, State *s, const char *when) {
  authEval(E, s);
  if (!s->g.v[G_PEND]) return;
  Val p = s->gv[GV_PEND];
  Obj *o = p.k == V_PTR ? E.ro(s, p.id) : nullptr;
  if (o && !o->freed) {
    E.report(s, "account", string(s->g.v[G_PEND] == 1 ? "received bytes are not added to the buffer before " : "sent bytes are not taken off the buffer before ") + when, ioProps());
    E.kill(s); return;
  }
  s->g.v[G_PEND] = 0;
}
void recvObserve(Engine &E, State *s, int fd, const Val &buf, const Lin &n) {
  if (E.initMode || buf.k != V_PTR || !isMeta(E, s, buf.id)) return;
  if (fd >= 0 && s->fd[fd].kind == FK_UDP) return;
  int M = buf.id;
  Val last = cell(E, s, M, LY.m_last);
  E.obs["receive placements checked"]++;
  if (last.k != V_PTR || !same(E, s, last.l, buf.l)) { E.report(s, "account", "received bytes are not placed behind the bytes already buffered", ioProps()); E.kill(s); return; }
  s->gv.resize(GV_N); s->gl.resize(GL_N);
  s->g.v[G_PEND] = 1; s->gv[GV_PEND] = Val::P(M); s->gl[GL_PEND] = buf.l + n;
  if (tunnelMode() && fd >= 0 && s->fd[fd].kind == FK_UP) s->g.v[G_RELAY] |= 1;
}
void sendObserve(Engine &E, State *s, int fd, const Val &buf, const Lin &len) {
  if (E.initMode || buf.k != V_PTR || !isMeta(E, s, buf.id)) return;
  int M = buf.id;
  Val pos = cell(E, s, M, LY.m_pos), last = cell(E, s, M, LY.m_last);
  E.obs["send ranges checked"]++;
  if (pos.k != V_PTR || last.k != V_PTR || !same(E, s, pos.l, buf.l)) { E.report(s, "account", "bytes sent do not start at the first unsent byte of the buffer", ioProps()); E.kill(s); return; }
  if (!E.le0(s, buf.l + len - last.l)) { E.report(s, "account", "more bytes are sent than the buffer holds", ioProps()); E.kill(s); return; }
  if (!tunnelMode() || fd < 0 || s->fd[fd].kind == FK_UDP) return;
  int own = metaOfFd(E, s, fd);
  if (s->fd[fd].kind == FK_UP && M != own) s->g.v[G_RELAY] |= 1;
  if (s->g.v[G_RELAY]) {
    int o = legFd(s, s->fd[fd].kind == FK_UP ? FK_DOWN : FK_UP);
    int om = o >= 0 ? metaOfFd(E, s, o) : -1;
    if (om >= 0 && M != om) { E.report(s, "account", M == own ? "relayed bytes are sent back to the side they came from" : "bytes that were not received from the other side are relayed", {"P15"}); E.kill(s); return; }
  }
}
void sentObserve(Engine &E, State *s, const Val &buf, const Lin &n) {
  if (E.initMode || buf.k != V_PTR || !isMeta(E, s, buf.id)) return;
  s->gv.resize(GV_N); s->gl.resize(GL_N);
  s->g.v[G_PEND] = 2; s->gv[GV_PEND] = Val::P(buf.id); s->gl[GL_PEND] = buf.l + n;
}
static void storeHook(Engine &E, State *s, int obj, i64 off, int size, const Val &v) {
  if (E.initMode || size != 8 || (off != LY.m_pos && off != LY.m_last) || !isMeta(E, s, obj)) return;
  bool isLast = off == LY.m_last;
  if (s->g.v[G_PEND] && s->gv[GV_PEND].k == V_PTR && s->gv[GV_PEND].id == obj && isLast == (s->g.v[G_PEND] == 1) && v.k == V_PTR && v.id == obj && same(E, s, v.l, s->gl[GL_PEND])) {
    s->g.v[G_PEND] = 0; s->gv[GV_PEND] = Val(); s->gl[GL_PEND] = Lin(0);
    return;
  }
  if (!tunnelMode()) return;
  int d = legFd(s, FK_DOWN), u = legFd(s, FK_UP);
  if (d < 0 || u < 0) return;
  int md = metaOfFd(E, s, d), mu = metaOfFd(E, s, u);
  bool prot = (obj == md && (s->g.v[G_RELAY] || g_mode == "c")) || (obj == mu && s->g.v[G_RELAY]);
  if (!prot) return;
  Val pos = cell(E, s, obj, LY.m_pos), last = cell(E, s, obj, LY.m_last);
  s->gv.resize(GV_N);
  if (v.k == V_PTR && v.id == obj && pos.k == V_PTR && last.k == V_PTR) {
    const Lin &cur = isLast ? last.l : pos.l, &oth = isLast ? pos.l : last.l;
    if (same(E, s, v.l, cur)) return;
    if (s->gv[GV_RST].k == V_PTR && s->gv[GV_RST].id == obj) { if (same(E, s, v.l, oth)) { s->gv[GV_RST] = Val(); return; } }
    else if (same(E, s, pos.l, last.l)) { s->gv[GV_RST] = Val::P(obj); return; }
  }
  E.report(s, "account", isLast ? "the end of relayed data is moved without bytes having been received or the buffer being empty" : "relayed data is skipped or repeated: its start is moved without bytes having been sent", {"P15"});
  E.kill(s);
}
void closing(Engine &E, State *s, int fd) {
  if (E.initMode || !tunnelMode() || (s->fd[fd].kind != FK_DOWN && s->fd[fd].kind != FK_UP)) return;
  if (s->g.v[G_CAUSE] & 1) return;
  for (int k : {FK_DOWN, FK_UP}) {
    int x = legFd(s, k), y = legFd(s, k == FK_DOWN ? FK_UP : FK_DOWN);
    if (x < 0 || y < 0 || !s->fd[x].eof || s->fd[y].eof || s->fd[x].shut || s->fd[y].shut || s->fd[y].conn || s->fd[y].hs || !s->g.v[G_RELAY]) continue;
    int m = metaOfFd(E, s, x);
    if (m < 0) continue;
    Val pos = cell(E, s, m, LY.m_pos), last = cell(E, s, m, LY.m_last);
    E.obs["end-of-stream flushes checked"]++;
    if (pos.k == V_PTR && last.k == V_PTR && !same(E, s, pos.l, last.l)) {
      E.report(s, "account", "session is closed after an orderly end of stream while bytes received before it are still unsent", {"P15"}); E.kill(s); return;
    }
  }
}
// ---------------------------------------------------------------- calls observed by name
static void callHook(Engine &E, State *s, const string &name, vector<Val> &a) {
  if (E.initMode) return;
  if (name == "dns_alloc") {
    if (a.size() < 3 || a[2].k != V_FN) { E.incomplete.insert("lookup with an unknown notification target"); return; }
    s->g.v[G_DNSP] = 1; s->g.v[G_DNSFN] = a[2].id + 1;
    E.obs["lookups started"]++;
    return;
  }
  if (s->g.v[G_DNSFN] && E.P.f(name) + 1 == s->g.v[G_DNSFN]) {
    E.obs["lookup outcomes"]++;
    if (!s->g.v[G_DNSP]) { E.report(s, "lookup", "a lookup reports a second outcome", {"P16"}); E.kill(s); return; }
    s->g.v[G_DNSP] = 0;
  }
}
// ---------------------------------------------------------------- head
static int measure(State *s) { int n = 0; for (auto &f : s->fd) if (f.open && f.kind != FK_INFRA) n += 1 + !f.shut; return n; }
static void reach(Engine &E, State *s, int from, std::set<int> &seen) {
  vector<int> q{from};
  while (!q.empty()) {
    int o = q.back(); q.pop_back();
    if (o < 0 || seen.count(o)) continue;
    Obj *p = E.ro(s, o);
    if (!p || p->freed || p->kind != K_HEAP || p->g[4]) continue;
    seen.insert(o);
    for (auto &c : p->c) if (c.second.v.k == V_PTR) q.push_back(c.second.v.id);
  }
}
static string fdName(int k) { return k == FK_DOWN ? "client connection" : k == FK_UP ? "upstream connection" : k == FK_UDP ? "resolver socket" : "file"; }
static int g_evsCtx = -1;
// What one handler leaves behind that no later handler can depend on.
static void tidy(Engine &E, State *s) {
  int d = legFd(s, FK_DOWN), u = legFd(s, FK_UP);
  s->gv.resize(GV_N); s->gl.resize(GL_N);
  if (s->fr.empty()) s->g.v[G_PAIR] = 0;
  s->g.v[G_CAUSE] = 0;
  s->g.v[G_KIND] = 0;
  s->g.v[G_FLT] = 0;
  s->gv[GV_RST] = Val();
  { Obj &eo = E.rw(s, E.errnoObj); eo.c.clear(); eo.sc.clear(); eo.unk.clear(); eo.unk.push_back({0, 4}); }
  for (auto &f : s->fd) if (f.open && f.kind != FK_INFRA) {
    if (f.reg && f.ptr.k == V_PTR && !f.shut) {   // with no handler an edge may be consumed at any moment
      Val rc = cell(E, s, f.ptr.id, LY.ev_read), wc = cell(E, s, f.ptr.id, LY.ev_write);
      if (rc.k != V_FN && (f.ev & 1)) f.rdp = true;
      if (wc.k != V_FN && (f.ev & 4) && !f.conn) f.wrb = false;
    }
    if (f.shut) {
      f.rdp = false; f.wrb = true; f.eof = f.blk = f.wnr = f.rnw = false;
      // a connection that only waits for its TLS shutdown: the transfer it had in progress no longer matters
      int c = conOfFd(E, s, &f - &s->fd[0]);
      if (c >= 0) {
        Val t = cell(E, s, c, LY.c_ssl);
        if (t.k == V_PTR && E.ro(s, t.id) && !E.ro(s, t.id)->freed) {
          Obj &o = E.rw(s, t.id);
          for (auto &x : o.c) if (x.second.v.k == V_FN) { x.second.v = Val(); }
        }
      }
    }
  }
  if (d < 0 || u < 0) s->g.v[G_RELAY] = 0;
  for (size_t i = 0; i < s->ob.size(); i++) if (s->ob[i] && !s->ob[i]->freed) {
    if (!strcmp(s->ob[i]->tag, "ssl")) {
      if (s->ob[i]->g[2]) E.rw(s, i).g[2] = 0;
      bool shut = false;
      for (auto &f : s->fd) if (f.shut) shut = true;
      if (shut && s->ob[i]->g[3]) { Obj &o = E.rw(s, i); o.g[3] = 0; o.c.erase(8); o.c.erase(16); }
    }
    if (!s->ob[i]->g[4] && isMeta(E, s, i)) {      // buffer contents do not steer anything across rounds
      Obj &o = E.rw(s, i);
      for (auto it = o.c.lower_bound(LY.m_size); it != o.c.end();) it = o.c.erase(it);
      o.sc.clear(); o.prov.clear(); o.hasNul = o.lastZero = false;
      o.unk.clear();
      if (o.size.cst()) o.unk.push_back({LY.m_size, o.size.k}); else o.unk.push_back({LY.m_size, INF});
    }
  }
}
static void headCheck(Engine &E, State *s) {
  E.obs["returns to the event loop"]++;
  pendCheck(E, s, "returning to the event loop"); if (s->dead) return;
  s->gv.resize(GV_N); s->gl.resize(GL_N);
  // dangling references held by the kernel or the timer heap
  for (auto &f : s->fd) if (f.open && f.reg && f.ptr.k == V_PTR) {
    Obj *o = E.ro(s, f.ptr.id);
    if (o && o->freed) { E.report(s, "uaf", "an open " + fdName(f.kind) + " stays registered with a released object", {"P23"}); E.kill(s); return; }
  }
  for (auto &t : s->tm) {
    Obj *o = E.ro(s, t.obj);
    if (o && o->freed) { E.report(s, "uaf", "a released object still has a running deadline", {"P22"}); E.kill(s); return; }
    if (t.data.k == V_PTR) { Obj *d = E.ro(s, t.data.id); if (d && d->freed) { E.report(s, "uaf", "a running deadline refers to a released object", {"P22"}); E.kill(s); return; } }
  }
  for (size_t i = 0; i < s->ob.size(); i++) if (s->ob[i] && s->ob[i]->freed && s->ob[i]->g[5]) { E.report(s, "uaf", "a released object is still linked into a list", {"P27"}); E.kill(s); return; }
  // deadlines
  if (s->g.v[G_FIRE]) {
    if (measure(s) >= s->g.v[G_FIRE] - 1) { E.report(s, "deadline", "a fired deadline closes nothing and starts no shutdown", {"P07"}); E.kill(s); return; }
    s->g.v[G_FIRE] = 0;
  }
  std::set<int> cov;
  for (auto &t : s->tm) { Obj *o = E.ro(s, t.obj); if (o && o->g[4]) continue; if (t.data.k == V_PTR) reach(E, s, t.data.id, cov); reach(E, s, t.obj, cov); }
  for (size_t i = 0; i < s->fd.size(); i++) {
    FdI &f = s->fd[i];
    if (!f.open || f.kind == FK_INFRA || f.kind == FK_FILE) continue;
    bool ok = false;
    for (int o : cov) { for (auto &c : E.ro(s, o)->c) if (c.second.v.k == V_FD && c.second.v.id == (int)i) ok = true; if (ok) break; }
    E.obs["deadline coverage checks"]++;
    if (!ok) { E.report(s, "deadline", "an open " + fdName(f.kind) + " is left without any running deadline", {"P07"}); E.kill(s); return; }
  }
  // lookups
  int d = legFd(s, FK_DOWN), u = legFd(s, FK_UP), w = legFd(s, FK_UDP);
  if (s->g.v[G_DNSP] && w < 0 && d >= 0 && !s->fd[d].shut) { E.report(s, "lookup", "a lookup has ended without telling the session that waits for it", {"P16"}); E.kill(s); return; }
  // wake-ups
  bool unreg = false;
  for (int f : {d, u, w}) if (f >= 0 && s->fd[f].unreg) unreg = true;
  if (!unreg) {
    struct Wk { bool r = false, w = false, rc = false, wc = false; };
    auto wake = [&](int f) {
      Wk k; if (f < 0) return k;
      FdI &x = s->fd[f];
      int ev = -1; conOfFd(E, s, f, &ev);
      if (!x.reg || ev < 0) return k;
      Val rc = cell(E, s, ev, LY.ev_read), wc = cell(E, s, ev, LY.ev_write);
      k.rc = (x.ev & 1) && rc.k == V_FN; k.wc = (x.ev & 4) && wc.k == V_FN;
      k.r = k.rc && !x.rdp; k.w = k.wc && x.wrb;
      return k;
    };
    auto bad = [&](const string &m) { E.report(s, "stall", m, {"P08"}); E.kill(s); };
    bool any = false, sess = false;
    for (int f : {d, u, w}) if (f >= 0) {
      FdI &x = s->fd[f]; Wk k = wake(f);
      sess = true; if (k.r || k.w) any = true;
      E.obs["wake-up checks"]++;
      if (x.shut) { continue; }
      if (x.conn && !k.w) return bad("a connection attempt is pending but its completion is not awaited");
      if (x.blk && !x.wnr && !k.w) return bad("a send to the " + fdName(x.kind) + " is blocked but nothing waits for it to become writable");
      if (x.wnr && !k.rc) return bad("a TLS send to the " + fdName(x.kind) + " needs incoming data but nothing waits for it");
      if (x.rnw && k.rc && !k.wc) return bad("a TLS read from the " + fdName(x.kind) + " needs to send but nothing waits for it to become writable");
      if (x.hs && !x.conn && !k.r && !k.w) return bad("a TLS handshake with the " + fdName(x.kind) + " is unfinished but nothing waits for its next step");
    }
    if (sess && !any && !(d >= 0 && s->fd[d].shut) && !(u >= 0 && s->fd[u].shut)) return bad("a session waits although nothing can wake it but its deadline");
    if (!tunnelMode() && d >= 0 && !s->fd[d].shut && !s->fd[d].blk && !s->fd[d].hs && !wake(d).r) return bad("the client connection is idle but no further request would be noticed");
    if (tunnelMode() && d >= 0 && u >= 0 && w < 0 && !s->fd[d].shut && !s->fd[u].shut && !s->fd[u].conn && !s->fd[u].hs && !s->fd[d].hs) {
      if (!s->fd[d].blk && !s->fd[u].blk) s->g.v[G_RELAY] = 3;
      if (s->g.v[G_RELAY] & 2) for (int x : {d, u}) {
        int y = x == d ? u : d;
        if (s->fd[x].eof || wake(x).r || (s->fd[x].rnw && wake(x).w) || (s->fd[y].blk && (wake(y).w || s->fd[y].wnr))) continue;
        return bad("relaying: further data from the " + fdName(s->fd[x].kind) + " would not be noticed");
      }
    }
  }
  // normalisation
  if (d < 0 && u < 0 && w < 0) { int q = s->g.v[G_ERRQ]; s->g = Ghost(); s->g.v[G_ERRQ] = q; s->ver.clear(); for (auto &v : s->gv) if (&v != &s->gv[GV_EPEV]) v = Val(); for (auto &l : s->gl) l = Lin(0); }
  tidy(E, s);
  if (s->gv[GV_EPEV].k == V_PTR) { Obj &o = E.rw(s, s->gv[GV_EPEV].id); o.c.clear(); o.unk.clear(); o.sc.clear(); }
  // slot numbers of earlier rounds: any non-zero one behaves like any other
  for (auto &f : s->fd) if (f.open && f.kind != FK_INFRA) {
    if (f.reg && f.ptr.k == V_PTR && E.ro(s, f.ptr.id)) for (const char *fn : {"idxr", "idxw"}) if (const Field *xf = E.P.field("ev", fn)) E.rw(s, f.ptr.id).c[xf->off] = {(int)xf->size, Val::I(1)};
  }
  const Field *ef = LY.evs;
  if (ef && g_evsCtx >= 0) {
    Val g = cell(E, s, g_evsCtx, 0);
    if (g.k == V_PTR) {
      Obj &o = E.rw(s, g.id);
      bool any = false;
      for (auto &c : o.c) if (c.first >= ef->off && c.first < ef->off + ef->size && c.second.v.k == V_PTR) any = true;
      if (any) {
        int t = E.newObj(s, K_EXT, Lin(0), false, 800010, "stale event slot");
        E.rw(s, t).freed = true;
        Obj &o2 = E.rw(s, g.id);
        for (i64 i = 0; i < 4; i++) o2.c[ef->off + 8 * i] = {8, Val::P(t)};
        if (const Field *nf = LY.evn) { auto it = o2.c.find(nf->off); if (it != o2.c.end() && it->second.v.isC() && it->second.v.l.k) it->second.v = Val::I(1); }
      }
    }
  }
}
static string vtext(Engine &E, State *s, const Val &v) {
  char b[200];
  auto lin = [&](const Lin &l) { string r = std::to_string(l.k); for (int i = 0; i < l.n; i++) { snprintf(b, sizeof b, "+%lld*y%d", (long long)l.t[i].c, l.t[i].s); r += b; } return r; };
  switch (v.k) { case V_TOP: return "T"; case V_INT: return lin(v.l); case V_PTR: { Obj *o = E.ro(s, v.id); snprintf(b, sizeof b, "p%d%s+", v.id, o && o->freed ? "(freed)" : ""); string h = b; return h + lin(v.l); } case V_FN: return E.P.fn[v.id].name; case V_FD: return "fd" + std::to_string(v.id); default: return "B"; }
}
void dumpState(Engine &E, State *s, FILE *f) {
  for (size_t i = E.errnoObj + 1; i < s->ob.size(); i++) { Obj *o = s->ob[i].p; if (!o) continue;
    fprintf(f, "o%zu[%d]=%s kind%d freed%d g=%d%d%d%d%d%d z%d size=%s\n", i, o->site, o->tag, o->kind, o->freed, o->g[0], o->g[1], o->g[2], o->g[3], o->g[4], o->g[5], o->zero, vtext(E, s, Val::L(o->size)).c_str());
    if (o->freed) continue;
    for (auto &c : o->c) fprintf(f, "o%zu[%d]+%lld=%s\n", i, o->site, (long long)c.first, vtext(E, s, c.second.v).c_str());
    for (auto &u : o->unk) fprintf(f, "o%zu[%d] unk=%lld-%lld\n", i, o->site, (long long)u.first, (long long)u.second);
  }
  for (int i = 0; i < E.errnoObj + 1; i++) { Obj *o = s->ob[i].p; for (auto &c : o->c) fprintf(f, "g%d(%s)+%lld=%s\n", i, i < (int)E.dynGl.size() ? E.P.gl[E.dynGl[i]].name.c_str() : "errno", (long long)c.first, vtext(E, s, c.second.v).c_str()); for (auto &u : o->unk) fprintf(f, "g%d unk=%lld-%lld\n", i, (long long)u.first, (long long)u.second); }
  for (size_t i = 0; i < s->fd.size(); i++) { auto &x = s->fd[i]; fprintf(f, "fd%zu=open%d kind%d reg%d ev%d bits%x role%d ptr=%s\n", i, x.open, x.kind, x.reg, x.ev, x.bits(), x.role, vtext(E, s, x.ptr).c_str()); }
  for (auto &t : s->tm) fprintf(f, "tm o%d+%lld=%s %s\n", t.obj, (long long)t.off, vtext(E, s, t.cb).c_str(), vtext(E, s, t.data).c_str());
  for (int i = 0; i < 32; i++) if (s->g.v[i]) fprintf(f, "G%d=%d\n", i, s->g.v[i]);
  for (size_t i = 0; i < s->gv.size(); i++) fprintf(f, "GV%zu=%s\n", i, vtext(E, s, s->gv[i]).c_str());
  for (size_t i = 0; i < s->gl.size(); i++) fprintf(f, "GL%zu=%s\n", i, vtext(E, s, Val::L(s->gl[i])).c_str());
  for (auto &fr : s->fr) for (size_t r = 0; r < fr->r.size(); r++) if (fr->r[r].k != V_TOP) fprintf(f, "R %s.%zu=%s\n", E.P.fn[fr->fn].name.c_str(), r, vtext(E, s, fr->r[r]).c_str());
  for (auto &v : s->ver) fprintf(f, "ver=%d %s %s %d\n", v.first.obj, vtext(E, s, Val::L(v.first.lo)).c_str(), vtext(E, s, Val::L(v.first.hi)).c_str(), v.second);
  for (size_t i = 0; i < s->sy.size() && i < 40; i++) fprintf(f, "Y%zu [%lld,%lld]\n", i, (long long)s->sy[i].lo, (long long)s->sy[i].hi);
  for (auto &c : s->cons) fprintf(f, "C %s <= 0\n", vtext(E, s, Val::L(c)).c_str());
  fprintf(f, "----\n");
}
void dispatchHead(Engine &E, State *s) {
  static FILE *df = getenv("AI_DUMP") ? fopen(getenv("AI_DUMP"), "w") : nullptr;
  if (df) dumpState(E, s, df);
  int loop = E.P.f("ev_loop");
  s->g.v[G_CAUSE] = 0;
  for (size_t i = 0; i < s->tm.size(); i++) {
    Obj *o = E.ro(s, s->tm[i].obj);
    if (o && o->g[4]) continue;                       // housekeeping timers of the modules have their own unit
    State *t = E.clone(s);
    Tm x = t->tm[i];
    t->tm.erase(t->tm.begin() + i);
    if (x.cb.k != V_FN) { E.incomplete.insert("deadline with an unknown action"); delete t; continue; }
    t->g.v[G_FIRE] = measure(t) + 1; t->g.v[G_CAUSE] |= 1;
    E.trace(t, "deadline fires: " + E.P.fn[x.cb.id].name);
    E.obs["deadline firings"]++;
    t->prog = true;
    E.call(t, x.cb.id, {x.data}, -1);
    E.run(t);
  }
  State *t = E.clone(s);
  E.call(t, loop, {Val::I(1)}, -1);
  E.run(t);
  delete s;
}
static vector<string> classify(Engine &E, State *s, const Viol &v) {
  vector<string> r;
  bool fail = false;
  for (Tr *t = s->tr.p; t; t = t->up.p) if (t->s.find("fails") != string::npos && t->s.find("fails (") == string::npos) {
    for (const char *n : {"allocation", "socket", "setsockopt", "fcntl", "getsockopt", "epoll_ctl", "SSL_", "accept", "hash", "open", "read", "automaton", "realloc"}) if (t->s.compare(0, strlen(n), n) == 0) fail = true;
  }
  if (v.kind == "uaf") { r.push_back("P05"); if (fail) r.push_back("P09"); }
  else if (v.kind == "leak") r = {"P06"};
  else if (v.kind == "fdleak") r = {"P06", "P28"};
  else if (v.kind == "null" || v.kind == "oob" || v.kind == "abort" || v.kind == "div") {
    if (fail) r.push_back("P09");
    else {
      string f;
      for (int i = (int)s->fr.size() - 1; i >= 0 && f.empty(); i--) {
        int fi = E.P.fn[s->fr[i]->fn].file; string n = fi >= 0 ? E.P.files[fi] : "";
        if (n.find("dns") != string::npos) f = "P13";
        else if (n.find("http_req") != string::npos || n.find("web") != string::npos) f = "P12";
        else if (n.find("tls_tunnel") != string::npos || n.find("socks5") != string::npos) f = "P11";
        else if (n.find("log.c") != string::npos || n.find("sys_time") != string::npos) f = "P14";
      }
      if (f.empty()) f = (g_mode == "http" || g_mode == "https") ? "P12" : "P11";
      r.push_back(f);
    }
    if (v.msg.find("format") != string::npos || v.msg.find("text precision") != string::npos) if (std::find(r.begin(), r.end(), "P14") == r.end()) r.push_back("P14");
  }
  return r;
}
static State *initialState(Engine &E) {
  State *s = new State;
  for (size_t i = 0; i < E.dynGl.size(); i++) {
    Global &g = E.P.gl[E.dynGl[i]];
    int o = E.newObj(s, K_GLOBAL, Lin(g.size), true, 910000 + (int)i, "global");
    for (auto &gi : g.init) {
      Val v;
      if (gi.v.k == O_INT) v = Val::I(gi.v.iv); else if (gi.v.k == O_NULL) v = Val::I(0); else if (gi.v.k == O_FUNC) v = Val::F(gi.v.idx);
      else if (gi.v.k == O_GLOBAL) { if (E.statOf.count(gi.v.idx)) v = Val::P(E.statOf[gi.v.idx], Lin(gi.v.iv)); else if (E.dynOf.count(gi.v.idx)) v = Val::P(E.dynOf[gi.v.idx], Lin(gi.v.iv)); }
      E.rw(s, o).c[gi.off] = {gi.size, v};
    }
  }
  int e = E.newObj(s, K_GLOBAL, Lin(4), true, 920000, "errno");
  assert(e == E.errnoObj); (void)e;
  s->gv.assign(GV_N, Val()); s->gl.assign(GL_N, Lin(0));
  return s;
}
State *freshState(Engine &E) { return initialState(E); }
State *Engine::blank() { return initialState(*this); }
static void setCfg(Engine &E, State *s, const string &mode) {
  auto &st = E.P.st["gobal_conf"];
  for (auto &f : st.f) {
    if (f.name.find("_arr") != string::npos) { E.wrCell(s, LY.cfgObj, f.off, 2, Val::I(8080)); continue; }
    if (f.size > 8) { E.clobber(s, LY.cfgObj, Lin(f.off), Lin(f.size - 1)); continue; }
    i64 v = 0;
    if (f.name == "s5_mode") v = mode == "c" ? 1 : mode == "s" ? 2 : mode == "secret" ? 3 : 0;
    else if (f.name == "http_num") v = mode == "http";
    else if (f.name == "https_num") v = mode == "https" || mode == "secret";
    else if (f.name.find("port") != string::npos) v = 1080;
    else if (f.name == "sys_log_level") v = 7;
    else if (f.name == "sys_process_num") v = 1;
    E.wrCell(s, LY.cfgObj, f.off, f.size, Val::I(v));
  }
}
bool runSession(Engine &E, const string &mode) {
  g_mode = mode;
  if (!initLayout(E)) { E.incomplete.insert("layout not found:" + LY.missing); return false; }
  g_evsCtx = LY.evCtx;
  for (const char *n : {"listen_init", "modules_process_init", "ev_loop"}) if (E.P.f(n) < 0 || E.P.fn[E.P.f(n)].decl) { E.incomplete.insert(string("anchor function missing: ") + n); return false; }
  E.classify = classify;
  State *s = initialState(E);
  setCfg(E, s, mode);
  vector<State *> cur{s};
  E.initMode = true; E.leakCheck = false; E.rank = false;
  extern i64 g_hashMax;
  g_hashMax = 0;
  if (E.table) E.onCall = [](Engine &E, State *s, const string &n, vector<Val> &a) {
    if (n != "ezhash_add" || a.size() < 4 || a[3].k != V_PTR) return;
    Obj *o = E.ro(s, a[3].id);
    if (o && o->str) g_hashMax = std::max<i64>(g_hashMax, strlen(o->str->c_str())); else g_hashMax = 1 << 20;
  };
  bool okRet = true;
  for (const char *n : {"systime_init", "listen_init", "modules_process_init"}) {
    int f = E.P.f(n);
    if (f < 0 || E.P.fn[f].decl) continue;
    vector<State *> out;
    E.sink = &out;
    int good = 0;
    E.atRet = [&](Engine &E, State *x, const Val &v) { if (v.k == V_INT && !E.norm(x, v.l).cst()) return; if (v.k == V_INT && E.norm(x, v.l).k != 0) E.kill(x); else good++; };
    for (State *x : cur) { x->src = -1; E.call(x, f, {}, -1, 1); E.run(x); }
    E.explore();
    cur.swap(out);
    if (cur.empty()) { okRet = false; E.incomplete.insert(string("start-up never succeeds: ") + n); break; }
  }
  E.atRet = nullptr; E.sink = nullptr;
  E.initMode = false; E.leakCheck = true; E.rank = true;
  E.nodeOf.clear(); E.nodes.clear(); E.edges.clear(); E.edgeIdx.clear(); E.kl.clear();
  if (!okRet) return false;
  E.obs["start-up states"] = cur.size();
  E.forceVar = [](const Obj &o, i64 off) {
    if (!strcmp(o.tag, "ssl")) return o.g[3] && (off == 8 || off == 16);
    if (o.g[4] || (off != LY.m_pos && off != LY.m_last)) return false;
    auto p = o.c.find(LY.m_pos), l = o.c.find(LY.m_last), e = o.c.find(LY.m_end);
    return p != o.c.end() && l != o.c.end() && e != o.c.end() && p->second.v.k == V_PTR && l->second.v.k == V_PTR && e->second.v.k == V_PTR && p->second.v.id == e->second.v.id;
  };
  E.atMerge = [](Engine &E, State *s) {
    if (E.initMode) return;
    if (s->fr.size() != 1) {
      { Obj &eo = E.rw(s, E.errnoObj); eo.c.clear(); eo.sc.clear(); eo.unk.clear(); eo.unk.push_back({0, 4}); }
      // what a connection buffer holds is looked at once, where it was received or written
      for (size_t i = 0; i < s->ob.size(); i++) if (s->ob[i] && !s->ob[i]->freed && !s->ob[i]->g[4] && isMeta(E, s, i)) {
        Obj &o = E.rw(s, i);
        for (auto it = o.c.lower_bound(LY.m_size); it != o.c.end();) if (it->second.size == 1 || it->second.v.k != V_INT || E.norm(s, it->second.v.l).cst()) it = o.c.erase(it); else ++it;
        o.unk.clear();
        o.unk.push_back({LY.m_size, o.size.cst() ? o.size.k : INF});
      }
      return;
    }
    tidy(E, s);
    // Two descriptors reported together: once the first has been served and nothing was closed on the
    // way, the rest of the round is the round that reports the second one alone.
    int a = s->g.v[G_PAIR] / 16, b = s->g.v[G_PAIR] % 16;
    if (!a) return;
    const Field *fr = E.P.field("ev", "fread"), *fw = E.P.field("ev", "fwrite");
    int fa = legFd(s, (FdKind)a), fb = legFd(s, (FdKind)b);
    if (!fr || !fw || fa < 0 || fb < 0 || s->fd[fa].shut || s->fd[fb].shut) return;
    auto flags = [&](int f) {
      int r = 0;
      if (s->fd[f].ptr.k != V_PTR) return -1;
      for (auto *x : {fr, fw}) { Val v = cell(E, s, s->fd[f].ptr.id, x->off); if (v.k == V_INT && !v.isC()) return -1; i64 w = v.isC() ? v.l.k : 0; r = r * 2 + (x->bitoff >= 0 ? (w >> x->bitoff) & 1 : w != 0); }
      return r;
    };
    if (flags(fa) == 0 && flags(fb) > 0) E.kill(s);
  };
  if (E.table) {
    auto prs = [&E](int f) { int x = E.P.fn[f].file; return x >= 0 && E.P.files[x].find("http/") != string::npos; };
    E.parserDone = [prs, &E](int f, int g) { return E.P.fn[f].nargs >= 2 && prs(f) && !prs(g); };
    E.atParsed = [](Engine &, State *s) { s->g.v[G_ANS] = 1; };
  }
  E.phaseGhost = g_mode == "http" || g_mode == "https" ? G_ANS : G_AUTH;
  E.atHead = headCheck; E.onStore = storeHook; E.onCall = callHook;
  for (State *x : cur) {
    for (size_t i = 0; i < x->ob.size(); i++) if (x->ob[i] && x->ob[i]->kind == K_HEAP && !x->ob[i]->freed) E.rw(x, i).g[4] = 1;
    x->tr = Ref<Tr>(); x->src = -1; x->prog = true;
    E.stk.clear();
    headCheck(E, x);
    if (x->dead) { delete x; continue; }
    E.arrive(x, 0);
  }
  E.explore();
  if (E.incomplete.empty()) E.rankCheck();
  return true;
}
