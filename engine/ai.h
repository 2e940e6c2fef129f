// Abstract interpreter: typestate + points-to + zone/linear numeric domain.
#pragma once
#include "mir.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>

static const i64 INF = (i64)1 << 60;
static inline i64 sat(__int128 v) { return v > INF ? INF : v < -INF ? -INF : (i64)v; }

// ---------------------------------------------------------------- linear terms
struct Lin {
  i64 k = 0;
  uint8_t n = 0;
  bool over = false;                     // too many terms: value unknown
  struct T { int s; i64 c; } t[4];
  Lin(i64 c = 0) : k(c) {}
  static Lin sym(int s, i64 c = 1) { Lin l; l.n = 1; l.t[0] = {s, c}; return l; }
  bool cst() const { return n == 0 && !over; }
  void addT(int s, i64 c) {
    int i = 0;
    while (i < n && t[i].s < s) i++;
    if (i < n && t[i].s == s) {
      t[i].c += c;
      if (!t[i].c) { for (int j = i; j + 1 < n; j++) t[j] = t[j + 1]; n--; }
      return;
    }
    if (n == 4) { over = true; return; }
    for (int j = n; j > i; j--) t[j] = t[j - 1];
    t[i] = {s, c}; n++;
  }
  Lin operator+(const Lin &b) const { Lin r = *this; r.k = sat((__int128)r.k + b.k); r.over |= b.over; for (int i = 0; i < b.n; i++) r.addT(b.t[i].s, b.t[i].c); return r; }
  Lin operator-(const Lin &b) const { return *this + b.mul(-1); }
  Lin mul(i64 m) const { if (!m) { Lin r(0); return r; } Lin r = *this; r.k = sat((__int128)r.k * m); for (int i = 0; i < r.n; i++) r.t[i].c *= m; return r; }
  bool operator==(const Lin &b) const {
    if (k != b.k || n != b.n || over || b.over) return false;
    for (int i = 0; i < n; i++) if (t[i].s != b.t[i].s || t[i].c != b.t[i].c) return false;
    return true;
  }
  bool sameTerms(const Lin &b) const { Lin x = *this; x.k = b.k; return x == b; }
};

enum VK : uint8_t { V_TOP, V_INT, V_PTR, V_FN, V_FD, V_BOOL };
enum BK : uint8_t { B_LE, B_EQ, B_NE };  // l<=0, l==0, l!=0
struct Val {
  VK k = V_TOP;
  BK bk = B_LE;
  bool comp = false;
  bool bitsU = false;
  bool arr = false;       // the sub-object is an array of several elements
  int id = -1;            // object / function / fd
  Lin l;                  // integer value / pointer offset / boolean condition
  i64 slo = -1, shi = -1; // sub-object bounds
  static Val I(i64 v) { Val x; x.k = V_INT; x.l = Lin(v); return x; }
  static Val L(const Lin &l) { Val x; if (l.over) return x; x.k = V_INT; x.l = l; return x; }
  static Val P(int o, const Lin &off = Lin(0)) { Val x; x.k = V_PTR; x.id = o; x.l = off; return x; }
  static Val F(int f) { Val x; x.k = V_FN; x.id = f; return x; }
  static Val FD(int f) { Val x; x.k = V_FD; x.id = f; return x; }
  static Val B(const Lin &l, BK b) { Val x; x.k = V_BOOL; x.l = l; x.bk = b; return x; }
  bool isC() const { return k == V_INT && l.cst(); }
  bool isNull() const { return isC() && l.k == 0; }
};

template <class T> struct Ref {          // intrusive copy-on-write pointer
  T *p = nullptr;
  Ref() {}
  Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  Ref &operator=(Ref &&o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  ~Ref() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
  T &mut() { if (p->rc > 1) { T *n = new T(*p); n->rc = 0; Ref x(n); *this = x; } return *p; }
};

struct Cell { int size; Val v; };
enum OK_ : uint8_t { K_HEAP, K_STACK, K_GLOBAL, K_EXT, K_STR };
struct Prov { int obj; Lin lo, hi; };     // bytes copied from [lo,hi) of obj
struct Obj {
  int rc = 0;
  OK_ kind = K_HEAP;
  Lin size;
  bool freed = false, zero = false, clob = false;
  int site = 0;                          // allocation site id
  const char *tag = "";                  // "pool","ssl","ctx",...
  int g[8] = {};       // typestate of library objects / markers
  std::map<i64, Cell> c;
  std::vector<std::pair<i64, i64>> unk;  // byte ranges with unknown content
  struct SC { Lin off; int size; Val v; };
  std::vector<SC> sc;                    // values at symbolic offsets
  bool lastZero = false;                 // the last byte is zero (objects of symbolic size)
  std::vector<std::pair<i64, Lin>> nulAt; // lengths of texts already measured
  bool hasNul = false; Lin nulLo, nulHi; // a zero byte is somewhere in [nulLo,nulHi)
  std::vector<Prov> prov;
  struct Txt { int buf, end; i64 lo; };  // buffer object, byte right behind the text if known
  std::map<i64, Txt> txt;                // members known to be a text (length, position) inside that buffer object
  const std::string *str = nullptr;      // constant content
};

struct Frame {
  int rc = 0;
  int fn = -1, bl = 0, ip = 0;
  std::vector<Val> r;
  std::vector<int> allocas;
  int retReg = -1;
  int callSite = 0;
  std::vector<Val> va;                   // variable arguments, until the next merge point
  int tag = 0;                           // harness marker
  struct Lh { int n = 0, fk = 0; i64 ctr = 0; };
  std::map<int, Lh> lh;                  // loop heads passed without merging
  std::vector<int> tc;                   // functions entered by tail call in this activation
};
struct FdI {
  bool open = false; int kind = 0; bool reg = false; Val ptr; int ev = 0;
  bool rdp = false, wrb = false, conn = false, hs = false, blk = false, eof = false, wnr = false, rnw = false, shut = false, known = false, unreg = false; int role = 0;
  int bits() const { return rdp | wrb << 1 | conn << 2 | hs << 3 | blk << 4 | eof << 5 | wnr << 6 | rnw << 7 | shut << 8 | unreg << 9; }
  int site = 0;
};
struct Tm { int obj; i64 off; Val cb, data; };
struct Tr { int rc = 0; Ref<Tr> up; std::string s; };
struct Sym { i64 lo = -INF, hi = INF; };

struct Ghost {                            // session-level typestate, part of every abstract state's identity
  int v[32] = {0};
};

struct State {
  std::vector<Ref<Frame>> fr;
  std::vector<Ref<Obj>> ob;
  std::vector<Sym> sy;
  std::vector<Lin> cons;
  std::map<std::pair<int, i64>, int> conv;
  std::vector<FdI> fd;
  std::vector<Tm> tm;
  Ghost g;
  std::vector<Lin> gl;                    // ghost numeric terms
  std::vector<Val> gv;                    // ghost values (pointers etc.)
  std::vector<std::pair<Prov, int>> ver;  // verified byte ranges
  Ref<Tr> tr;
  int src = -1; bool prog = true; int srcNv = 0;
  bool dead = false;
  int depth = 0;
  int fk = 0;                             // forks on this path
};

struct Viol {
  std::string kind, fn, file, msg, key;
  int line = 0;
  std::vector<std::string> props;
  std::vector<std::string> trace;
};

struct Zone {
  std::vector<i64> lo, hi;
  std::map<std::pair<int, int>, i64> d;   // v_i - v_j <= bound
  std::map<std::array<int, 3>, i64> t;    // v_a - v_b - v_c == value
  std::map<std::pair<int, int>, i64> s;   // v_i + v_j <= bound: a position and a length that fit one object
  int joins = 0;
};
struct Slot { uint64_t desc; Lin l; bool ptr; int obj; };
struct Node {
  Zone z; int ver = 0; long arr = 0; int fn = -1, bl = -1; int point = 0;
  std::vector<Slot> slots;                // over the node's own variables
  std::vector<std::vector<std::pair<i64, i64>>> unk;
  std::vector<uint64_t> names;            // the node's objects, by allocation site
};
struct Edge { int a, b; std::map<std::pair<uint64_t, uint64_t>, i64> dm; std::set<uint64_t> changed, lost; std::map<std::pair<uint64_t, uint64_t>, std::pair<i64, i64>> cd; };  // cd: least and greatest step from one slot of the source to another of the target

struct Engine;
struct Refine {};                         // start over with a finer domain for more functions
typedef std::function<void(Engine &, State *, const Inst &, std::vector<Val> &)> Intr;

struct Opts {
  bool allocFail = true, callFail = true;
  bool onlyInitOk = false;
};

struct SupCache;
struct Engine {
  Prog &P;
  Opts opt;
  std::string cfg;
  // statics
  std::vector<Ref<Obj>> stat;             // constant objects, id = -2-index
  std::unordered_map<int, int> statOf;    // global -> static id
  std::unordered_map<int, int> dynOf;     // global -> state object id
  std::vector<int> dynGl;
  int errnoObj = -1;
  std::unordered_map<std::string, Intr> intr;
  // exploration
  std::map<int, State *> work, workIn;     // newest state of each merge point still to be processed, earliest discovered first
  std::vector<State *> stk;
  std::unordered_map<std::string, int> nodeOf;
  std::vector<Node> nodes;
  std::vector<Edge> edges;
  std::set<std::string> edgeSeen;
  std::map<std::string, Viol> viol;
  std::map<std::pair<uint64_t, int>, std::set<i64>> kl;       // K-limit of constants
  std::vector<i64> marks;
  // statistics
  size_t nInst = 0, nArr = 0, nSeg = 0, nAcc = 0, nUnres = 0, nFork = 0, nCall = 0;
  std::set<std::pair<int, int>> accSites, callSites, unresSites;
  std::set<int> fnSeen;
  std::map<std::string, size_t> extCalls, obs;
  std::set<std::string> incomplete;
  size_t maxArr = 3000000;
  std::map<std::string, int> fine;                                // functions analysed with the fine domain
  int fineAll = 0;                                                // ... or all of them
  int patience = 4;                                               // forking passes of a counting loop before its head becomes a merge point
  std::function<bool(int)> unrolled;                              // functions whose loops are always followed
  bool rank = true;
  std::function<bool(int, int)> parserDone; std::function<void(Engine &, State *)> atParsed;
  bool table = false;                                             // texts of a request kept as positions and lengths
  bool stopAtFirst = false;
  std::function<void(Engine &, State *)> atMerge;             // called on arrival at a merge point inside a round
  std::function<void(Engine &, State *)> atHead;              // called when no frame is left
  std::function<void(Engine &, State *, const Val &)> atRet;  // harness-tagged frame returned
  std::function<void(Engine &, State *, int, i64, int, const Val &)> onStore;
  std::function<void(Engine &, State *, const std::string &, std::vector<Val> &)> onCall;
  std::function<std::vector<std::string>(Engine &, State *, const Viol &)> classify;
  std::set<std::pair<int, i64>> dataByte, loadByte;                     // bytes of objects that ever took an unknown value
  std::function<bool(const Obj &, i64)> forceVar;             // numeric cells generalised at the event head
  bool leakCheck = true;
  bool initMode = false;                  // start-up run: environment calls succeed, no state limits
  long ends = -1;                          // counts finished states instead of keeping them
  std::vector<State *> *sink = nullptr;   // receives states that reach the loop head during start-up
  std::map<std::pair<int, int>, int> edgeIdx;
  int byteAt(State *s, int id, i64 off);
  std::string siteText(int id);

  Engine(Prog &p) : P(p) {}
  void setup();
  void stdIntrinsics();
  // numeric
  int minDepth = 0; bool deepening = false;   // how many constraints a bound may combine
  int newSym(State *s, i64 lo, i64 hi) { s->sy.push_back({lo, hi}); return s->sy.size() - 1; }
  Lin norm(State *s, const Lin &l);
  i64 supI(State *s, const Lin &l);
  i64 sup(State *s, const Lin &l, int depth = 2);
  i64 inf(State *s, const Lin &l, int depth = 2) { i64 x = sup(s, l.mul(-1), depth); return -x; }
  bool le0(State *s, const Lin &l) { if (l.over) return false; if (supI(s, l) <= 0) return true; return sup(s, l, 3) <= 0; }
  bool assumeLe(State *s, Lin l);
  bool assumeEq(State *s, const Lin &l) { return assumeLe(s, l) && assumeLe(s, l.mul(-1)); }
  bool assumeNe(State *s, const Lin &l);
  bool assume(State *s, const Val &b, bool truth);
  int truth(State *s, const Val &b);      // 1,0,-1
  Val fresh(State *s, i64 lo, i64 hi) { if (lo == hi) return Val::I(lo); return Val::L(Lin::sym(newSym(s, lo, hi))); }
  Val freshBits(State *s, int bits);
  Lin asLin(State *s, const Val &v, bool &ok);
  // objects
  Obj *ro(State *s, int id);
  Obj &rw(State *s, int id);
  int newObj(State *s, OK_ kind, const Lin &size, bool zero, int site, const char *tag);
  // values & memory
  Val opv(State *s, const Opnd &o);
  bool chkAcc(State *s, const Val &p, const Lin &len, bool wr, const char *what);
  Val load(State *s, const Val &p, int size, bool ptr, int bits, bool uns);
  void store(State *s, const Val &p, int size, const Val &v);
  Val rdCell(State *s, int id, i64 off, int size, bool ptr, bool uns);
  void wrCell(State *s, int id, i64 off, int size, const Val &v);
  void needText(State *s, int id, i64 a, i64 b);
  void clobber(State *s, int id, const Lin &lo, const Lin &len);
  void memcpy_(State *s, const Val &d, const Val &a, const Val &n, const char *what);
  void memset_(State *s, const Val &d, const Val &v, const Val &n);
  bool strBound(State *s, const Val &p, Lin &hi);  // strlen(p) <= hi
  // exec
  void report(State *s, const std::string &kind, const std::string &msg, std::vector<std::string> props = {});
  State *clone(State *s) { nFork++; s->fk++; return new State(*s); }
  void push(State *s) { stk.push_back(s); }
  void kill(State *s) { s->dead = true; }
  void trace(State *s, const std::string &t) { Tr *n = new Tr; n->s = t; n->up = s->tr; s->tr = Ref<Tr>(n); }
  Frame &top(State *s) { return s->fr.back().mut(); }
  void setReg(State *s, int r, const Val &v) { if (r >= 0) top(s).r[r] = v; }
  void ret(State *s, const Inst &I, const Val &v) { setReg(s, I.dst, v); }
  void call(State *s, int fn, const std::vector<Val> &args, int retReg, int tag = 0);
  void doCall(State *s, const Inst &I);
  void popFrame(State *s, const Val &rv);
  void jump(State *s, int from, int to);
  void run(State *s);                     // one segment
  std::map<std::pair<int, int>, bool> busyBl;
  bool noLeaf = false, unit = false;
  bool leafCall(State *s, const Inst &I, const Func &F, std::vector<Val> &args);
  State *blank();                                            // program state with initial globals
  std::function<void(Engine &, State *, const Val &, const Lin &)> onWrite;
  SupCache *supCache = nullptr; State *supCacheFor = nullptr;
  i64 supC(State *s, const Lin &l, int depth, SupCache &C);
  void noteRead(State *s, const Val &p, const Lin &len);
  bool relearn = false;                                      // a forgotten member turned out to be read: start over when it pays
  int phaseGhost = -1;                                       // index of a ghost that only ever rises within a session
  int phase(State *s) { return phaseGhost >= 0 && s->g.v[phaseGhost] ? 1 : 0; }
  std::set<std::pair<int, i64>> dropped;                     // members of session records forgotten because nothing reads them any more
  bool land(State *s, const Func &F, int from, int to);
  void arrive(State *s, int point);
  std::set<int> mergePt;                  // merge points that have proved necessary
  bool mergeAt(State *s, int point, int bl);
  void explore(); bool overBudget();
  const Inst *cur(State *s);
  std::string where(State *s);
  void rankCheck();
  int siteId(State *s);
  std::set<std::string> termSkip;
};
std::string cfgName(int);
