// Shared between the environment model (env.cpp) and the session harness (session.cpp).
#pragma once
#include "ai.h"
enum GhostIx {
  G_AUTH = 0,    // 0 none, 1 key accepted with verified magic, 2 key accepted, magic not (yet) verified
  G_PEND = 1,    // 1: last operation received bytes not yet accounted, 2: sent bytes not yet accounted
  G_RELAY = 2,   // both legs are established and relaying
  G_DNSP = 3,    // a lookup owes its one notification
  G_ERRQ = 4,    // entries in the TLS library's error queue
  G_HDR = 5,     // HTTP answer header automaton
  G_KIND = 6,    // kind of the file last examined: 1 ordinary, 2 directory, 3 other
  G_CAUSE = 7,   // why legs may be dropped in this dispatch: bit0 error/timeout
  G_METHOD = 8,
  G_STATUS = 9,
  G_DNSFN = 10,
  G_FAULT = 11,
  G_FLT = 13,    // an environment call has already failed in this session
  G_PAIR = 14,   // kinds of the two descriptors reported together: first * 16 + second
  G_ANS = 15,    // the answer to an HTTP request is being made: its parsing is over
  G_FIRE = 12,   // deadline measure when a timer fired (+1)
};
enum GvIx { GV_PEND = 0, GV_MAGIC = 1, GV_EPEV = 2, GV_RST = 3, GV_N = 4 };
enum GlIx { GL_PEND = 0, GL_N = 1 };
enum FdKind { FK_INFRA = 0, FK_DOWN = 1, FK_UP = 2, FK_UDP = 3, FK_FILE = 4 };
struct Layout {
  i64 c_fd, c_ev, c_meta, c_data, c_ssl, ev_c, ev_read, ev_write, ev_opt, m_start, m_pos, m_last, m_end, m_size, tm_size;
  i64 cfg_home, cfg_homen;
  int cfgObj = -1, evCtx = -1;
  const Field *evs = nullptr, *evn = nullptr;
  bool ok = true; std::string missing;
};
extern Layout LY;
extern std::string g_mode;            // "c","s","secret","http","https","unit"
extern bool g_faults;                 // environment failures on
bool initLayout(Engine &E);
bool tunnelLeg(int kind);
bool isMeta(Engine &E, State *s, int id);
int conOfFd(Engine &E, State *s, int fd, int *ev = nullptr);
void freeObj(Engine &E, State *s, const Val &p, const char *what, bool nullOk);
void sendObserve(Engine &E, State *s, int fd, const Val &buf, const Lin &len);
void recvObserve(Engine &E, State *s, int fd, const Val &buf, const Lin &n);
void sentObserve(Engine &E, State *s, const Val &buf, const Lin &n);
void outgoing(Engine &E, State *s, const char *what);
void pendCheck(Engine &E, State *s, const char *when);
void authEval(Engine &E, State *s);
void closing(Engine &E, State *s, int fd);
bool runSession(Engine &E, const std::string &mode);
extern std::map<std::string, std::string> g_facts;   // facts compared between configurations
