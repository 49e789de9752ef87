// Hash-consed bit-vector / floating-point expressions with simplification.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <array>
#include <functional>
#include <algorithm>
#include <bitset>

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_NOT, K_AND, K_OR, K_XOR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FNEG, K_FABS, K_FSQRT, K_FFLOOR, K_FCEIL, K_FTRUNC, K_FRINT, K_FROUND,
  K_FEQ, K_FLT, K_FLE, K_FUNO,
  K_FPCVT,      // fp to fp of another width
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI,
  K_UADDO, K_UMULO, K_SADDO, K_SMULO, K_SSUBO // overflow predicates
};

struct ExprNode;
typedef const ExprNode* Ex;
typedef std::vector<unsigned> VarSet; // sorted

struct ExprNode {
  Kind k; uint8_t w; uint32_t off; // off: extract offset or variable id
  uint64_t c;
  Ex a, b, d;
  uint32_t id;
  const VarSet* vars;
  bool fp; // for K_VAR: a floating point variable (real mode)
  uint16_t leaves; // number of constant leaves of an ITE tree over constants, 0 if not one
};

extern bool g_real; // exact-real interpretation of floating point

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; bool fp; bool hidden; };
extern std::vector<VarInfo> g_vars;

Ex mkConst(uint64_t c, unsigned w);
Ex mkVar(const std::string& name, unsigned w, bool fp = false, bool hidden = false);
Ex mkNot(Ex a);
Ex mkBin(Kind k, Ex a, Ex b);
Ex mkEq(Ex a, Ex b);
Ex mkCmp(Kind k, Ex a, Ex b);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkExtract(Ex a, unsigned off, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkF1(Kind k, Ex a, unsigned w);
Ex mkF2(Kind k, Ex a, Ex b);
Ex mkOvf(Kind k, Ex a, Ex b);
inline Ex mkAndB(Ex a, Ex b) { return mkBin(K_AND, a, b); }
inline Ex mkOrB(Ex a, Ex b) { return mkBin(K_OR, a, b); }
inline Ex mkTrue() { return mkConst(1, 1); }
inline Ex mkFalse() { return mkConst(0, 1); }
inline bool isC(Ex e) { return e->k == K_CONST; }
inline bool isTrue(Ex e) { return e->k == K_CONST && e->c == 1; }
inline bool isFalse(Ex e) { return e->k == K_CONST && e->c == 0; }

// evaluation under an assignment (missing variables are 0)
struct Evaluator {
  std::unordered_map<Ex, uint64_t> memo;
  const std::unordered_map<unsigned, uint64_t>* asg = nullptr;
  unsigned one = ~0u; uint64_t oneVal = 0; // single variable override
  uint64_t eval(Ex e);
};
uint64_t foldOp(Kind k, unsigned w, unsigned opw, uint32_t off, uint64_t a, uint64_t b, uint64_t d);
// exact-in-reals constant folding helper: returns false if not exact
bool foldF(Kind k, unsigned w, uint64_t a, uint64_t b, uint64_t& out);
std::string toStr(Ex e, int depth = 6);
size_t exprCount();
