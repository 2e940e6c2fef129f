// Compact typed IR handed from the LLVM front end to the analyses.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
typedef int64_t i64;

enum OpK { O_REG, O_INT, O_NULL, O_GLOBAL, O_FUNC, O_UNDEF };
struct Opnd {
  OpK k = O_UNDEF;
  int reg = -1;      // O_REG
  i64 iv = 0;        // O_INT, or byte offset for O_GLOBAL
  int idx = -1;      // O_GLOBAL / O_FUNC
  int bits = 0;      // integer width, 64 for pointers
  bool ptr = false;
};
enum Op {
  I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_ICMP, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_PHI, I_SELECT,
  I_ADD, I_SUB, I_MUL, I_SDIV, I_UDIV, I_SREM, I_UREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_TRUNC, I_ZEXT, I_SEXT, I_CAST, I_UNREACHABLE, I_OTHER
};
enum Pred { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
struct GepStep { Opnd o; i64 scale; };
struct Inst {
  Op op = I_OTHER;
  int dst = -1, bits = 0;
  bool ptr = false;            // result (or stored/loaded value) is a pointer
  int size = 0;                // bytes for load/store/alloca
  std::vector<Opnd> a;         // operands; for calls: arguments
  Opnd callee;                 // calls
  Pred pred = P_EQ;
  std::vector<int> tgt;        // successor blocks
  std::vector<i64> cases;      // switch constants (tgt[0] is default)
  std::vector<int> phiblk;     // phi: predecessor of a[i]
  i64 goff = 0;                // gep constant offset
  std::vector<GepStep> steps;  // gep variable steps
  bool subArr = false;               // gep: that field is an array of several elements
  i64 subBefore = -1, subSize = -1;  // gep: constant offset of the last struct field entered, its size
  std::string sname; int sfield = -1;  // struct and field index of that step
  int line = 0;
  int file = -1;
  std::vector<int> liveAfter;  // calls: registers live after it (excluding dst)
  bool tail = false;           // call whose result is immediately returned
  bool nsw = false;             // signed overflow excluded
  bool uns = false;             // loaded value is only ever zero-extended
  std::string otherName;
};
struct Block { std::vector<Inst> in; std::vector<int> liveIn; bool loopHead = false; std::vector<int> preds, inLoop; };   // inLoop: heads of the loops it is in
struct Func {
  std::string name; int idx = -1;
  bool decl = true, varargs = false, internal = false;
  int nargs = 0, nregs = 0;
  std::vector<int> argBits; std::vector<bool> argPtr;
  int retBits = 0; bool retPtr = false, retVoid = true;
  std::vector<Block> bl;
  int file = -1, line = 0;
  std::vector<std::string> regName;
};
struct GInit { i64 off; int size; Opnd v; };
struct Global {
  std::string name, type; i64 size = 0; bool isConst = false, isStr = false; std::string str; bool hasInit = false;
  std::vector<GInit> init; bool ext = false;
};
struct Field { std::string name; i64 off = 0, size = 0; i64 bitoff = -1; std::string type; };
struct SType { std::string name; i64 size = 0; std::vector<Field> f; };
struct Prog {
  std::vector<Func> fn; std::vector<Global> gl; std::vector<std::string> files;
  std::unordered_map<std::string, int> fnIdx, glIdx;
  std::map<std::string, SType> st;      // by struct name and by typedef name
  std::map<std::string, i64> enums;
  const Field *field(const std::string &s, const std::string &f) const {
    auto it = st.find(s); if (it == st.end()) return nullptr;
    for (auto &x : it->second.f) if (x.name == f) return &x;
    return nullptr;
  }
  int f(const std::string &n) const { auto it = fnIdx.find(n); return it == fnIdx.end() ? -1 : it->second; }
};
void loadProg(const std::string &bc, Prog &P);
