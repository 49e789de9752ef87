#include "expr.h"
#include <deque>
bool g_real = false;
std::vector<VarInfo> g_vars;

static std::deque<ExprNode> g_pool;
static std::deque<VarSet> g_varsets;
static const VarSet g_emptyVars;
struct NodeHash { size_t operator()(Ex e) const {
  uint64_t h = e->k * 0x9E3779B97F4A7C15ull ^ e->w * 0xC2B2AE3D27D4EB4Full ^ e->off * 0x165667B19E3779F9ull ^ e->c * 0xD6E8FEB86659FD93ull;
  h ^= (h >> 29); h += (uint64_t)e->a * 0xBF58476D1CE4E5B9ull; h ^= (h >> 31); h += (uint64_t)e->b * 0x94D049BB133111EBull; h ^= h >> 30; h += (uint64_t)e->d * 0x9E3779B185EBCA87ull; h ^= h >> 32; return h; } };
struct NodeEq { bool operator()(Ex x, Ex y) const { return x->k == y->k && x->w == y->w && x->off == y->off && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<Ex, NodeHash, NodeEq> g_table;
size_t exprCount() { return g_pool.size(); }

struct VSHash { size_t operator()(const VarSet* v) const { size_t h = v->size(); for (unsigned x : *v) h = h * 1000003 + x; return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return *a == *b; } };
static std::unordered_set<const VarSet*, VSHash, VSEq> g_vsTable;
static const VarSet* internVS(VarSet&& v) {
  if (v.empty()) return &g_emptyVars;
  auto it = g_vsTable.find(&v); if (it != g_vsTable.end()) return *it;
  g_varsets.push_back(std::move(v)); g_vsTable.insert(&g_varsets.back()); return &g_varsets.back();
}
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  VarSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r)); return internVS(std::move(r));
}
static Ex mk(Kind k, unsigned w, Ex a = nullptr, Ex b = nullptr, Ex d = nullptr, uint32_t off = 0, uint64_t c = 0, bool fp = false) {
  ExprNode n; n.k = k; n.w = w; n.off = off; n.c = c; n.a = a; n.b = b; n.d = d; n.id = 0; n.vars = nullptr; n.fp = fp; n.leaves = 0;
  auto it = g_table.find(&n); if (it != g_table.end()) return *it;
  n.id = g_pool.size();
  const VarSet* vs = &g_emptyVars;
  if (k == K_VAR) vs = internVS(VarSet{ off });
  else { if (a) vs = a->vars; if (b) vs = unionVS(vs, b->vars); if (d) vs = unionVS(vs, d->vars); }
  n.vars = vs;
  if (k == K_CONST) n.leaves = 1;
  else if (k == K_ITE && b->leaves && d->leaves) n.leaves = std::min(60000, b->leaves + d->leaves);
  g_pool.push_back(n); Ex e = &g_pool.back(); g_table.insert(e); return e;
}
Ex mkConst(uint64_t c, unsigned w) { return mk(K_CONST, w, nullptr, nullptr, nullptr, 0, c & maskw(w)); }
Ex mkVar(const std::string& name, unsigned w, bool fp, bool hidden) { unsigned id = g_vars.size(); g_vars.push_back({ name, w, fp, hidden }); return mk(K_VAR, w, nullptr, nullptr, nullptr, id, 0, fp); }

static double asD(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }

bool foldF(Kind k, unsigned w, uint64_t a, uint64_t b, uint64_t& out) {
  if (w != 64 && w != 32) return false;
  double x = asD(a, w), y = asD(b, w);
  if (!g_real) {
    if (w == 32) {
      float fx = (float)x, fy = (float)y, r;
      switch (k) { case K_FADD: r = fx + fy; break; case K_FSUB: r = fx - fy; break; case K_FMUL: r = fx * fy; break; case K_FDIV: r = fx / fy; break; case K_FREM: r = fmodf(fx, fy); break; default: return false; }
      out = fromD(r, 32); return true;
    }
    double r;
    switch (k) { case K_FADD: r = x + y; break; case K_FSUB: r = x - y; break; case K_FMUL: r = x * y; break; case K_FDIV: r = x / y; break; case K_FREM: r = fmod(x, y); break; default: return false; }
    out = fromD(r, 64); return true;
  }
  // real mode: fold only when exact
  if (!std::isfinite(x) || !std::isfinite(y)) return false;
  double r;
  switch (k) {
    case K_FADD: case K_FSUB: { if (k == K_FSUB) y = -y; r = x + y; double bb = r - x; double err = (x - (r - bb)) + (y - bb); if (err != 0 || !std::isfinite(r)) return false; break; }
    case K_FMUL: r = x * y; if (!std::isfinite(r) || fma(x, y, -r) != 0 || (r == 0 && x != 0 && y != 0)) return false; break;
    case K_FDIV: if (y == 0) return false; r = x / y; if (!std::isfinite(r) || fma(r, y, -x) != 0 || (r == 0 && x != 0)) return false; break;
    case K_FREM: if (y == 0) return false; r = fmod(x, y); break;
    default: return false;
  }
  if (w == 32 && (double)(float)r != r) return false;
  if (r == 0) r = 0;
  out = fromD(r, w); return true;
}

uint64_t foldOp(Kind k, unsigned w, unsigned opw, uint32_t off, uint64_t a, uint64_t b, uint64_t d) {
  uint64_t m = maskw(w), mo = maskw(opw);
  switch (k) {
    case K_NOT: return ~a & m; case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
    case K_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case K_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: { int64_t x = sx(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return sx(a, opw) < sx(b, opw); case K_SLE: return sx(a, opw) <= sx(b, opw);
    case K_ITE: return a ? b : d; case K_ZEXT: return a; case K_SEXT: return (uint64_t)sx(a, opw) & m;
    case K_EXTRACT: return (a >> off) & m;
    case K_CONCAT: return ((a << off) | b) & m; // off = width of low part
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: { uint64_t o; bool sv = g_real; g_real = false; foldF(k, w, a, b, o); g_real = sv; return o; }
    case K_FNEG: return a ^ (1ull << (w - 1)); case K_FABS: return a & ~(1ull << (w - 1));
    case K_FSQRT: return w == 32 ? fromD(sqrtf((float)asD(a, 32)), 32) : fromD(sqrt(asD(a, w)), w);
    case K_FFLOOR: return fromD(floor(asD(a, w)), w); case K_FCEIL: return fromD(ceil(asD(a, w)), w); case K_FTRUNC: return fromD(trunc(asD(a, w)), w);
    case K_FRINT: return fromD(rint(asD(a, w)), w); case K_FROUND: return fromD(round(asD(a, w)), w);
    case K_FEQ: return asD(a, opw) == asD(b, opw); case K_FLT: return asD(a, opw) < asD(b, opw); case K_FLE: return asD(a, opw) <= asD(b, opw);
    case K_FUNO: return std::isnan(asD(a, opw)) || std::isnan(asD(b, opw));
    case K_FPCVT: return fromD(asD(a, opw), w);
    case K_SITOFP: return w == 32 ? fromD((float)sx(a, opw), 32) : fromD((double)sx(a, opw), 64);
    case K_UITOFP: return w == 32 ? fromD((float)(a & mo), 32) : fromD((double)(a & mo), 64);
    case K_FPTOSI: { double v = asD(a, opw); if (!(v > -9.3e18 && v < 9.3e18)) return (1ull << (w - 1)); return (uint64_t)(int64_t)v & m; }
    case K_FPTOUI: { double v = asD(a, opw); if (!(v > -1 && v < 1.9e19)) return 0; return (uint64_t)v & m; }
    case K_UADDO: return ((a + b) & mo) < a; case K_UMULO: { __uint128_t p = (__uint128_t)a * b; return (p >> opw) != 0; }
    case K_SADDO: { __int128 p = (__int128)sx(a, opw) + sx(b, opw); return p != (__int128)sx((uint64_t)p, opw); }
    case K_SSUBO: { __int128 p = (__int128)sx(a, opw) - sx(b, opw); return p != (__int128)sx((uint64_t)p, opw); }
    case K_SMULO: { __int128 p = (__int128)sx(a, opw) * sx(b, opw); return p != (__int128)sx((uint64_t)p, opw); }
    default: return 0;
  }
}

Ex mkNot(Ex a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->k == K_NOT) return a->a;
  if (a->w == 1) {
    if (a->k == K_ULT) return mkCmp(K_ULE, a->b, a->a);
    if (a->k == K_ULE) return mkCmp(K_ULT, a->b, a->a);
    if (a->k == K_SLT) return mkCmp(K_SLE, a->b, a->a);
    if (a->k == K_SLE) return mkCmp(K_SLT, a->b, a->a);
    if (g_real) { if (a->k == K_FLT) return mkF2(K_FLE, a->b, a->a); if (a->k == K_FLE) return mkF2(K_FLT, a->b, a->a); }
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkNot(a->b), mkNot(a->d));
  }
  return mk(K_NOT, a->w, a);
}
// sums are kept as sorted linear combinations, so that equal sums are equal terms
typedef std::vector<std::pair<Ex, uint64_t>> Lin;
static bool linCollect(Ex e, uint64_t c, Lin& l, uint64_t& k, int depth) {
  if (l.size() > 24 || depth > 40) return false;
  if (isC(e)) { k += c * e->c; return true; }
  if (e->k == K_ADD) return linCollect(e->a, c, l, k, depth + 1) && linCollect(e->b, c, l, k, depth + 1);
  if (e->k == K_SUB) return linCollect(e->a, c, l, k, depth + 1) && linCollect(e->b, 0 - c, l, k, depth + 1);
  for (auto& t : l) if (t.first == e) { t.second += c; return true; }
  l.push_back({ e, c }); return true;
}
static Ex linSum(Kind kind, Ex a, Ex b) {
  unsigned w = a->w; uint64_t m = maskw(w), k = 0; Lin l;
  if (!linCollect(a, 1, l, k, 0) || !linCollect(b, kind == K_ADD ? 1 : ~0ull, l, k, 0)) return nullptr;
  k &= m; std::sort(l.begin(), l.end(), [](const std::pair<Ex, uint64_t>& x, const std::pair<Ex, uint64_t>& y) { return x.first->id < y.first->id; });
  Ex r = nullptr; for (auto& t : l) { uint64_t c = t.second & m; if (!c || c == m) continue; Ex x = c == 1 ? t.first : mkBin(K_MUL, t.first, mkConst(c, w)); r = r ? mk(K_ADD, w, r, x) : x; }
  for (auto& t : l) if ((t.second & m) == m && m != 1) r = r ? mk(K_SUB, w, r, t.first) : mk(K_SUB, w, mkConst(0, w), t.first);
  if (!r) return mkConst(k, w); return k ? mk(K_ADD, w, r, mkConst(k, w)) : r;
}
static bool constLeaves(Ex e) { return e->leaves && e->leaves <= 600; }

Ex mkBin(Kind k, Ex a, Ex b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) { if (!((k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) && b->c == 0)) return mkConst(foldOp(k, w, w, 0, a->c, b->c, 0), w); }
  bool comm = k == K_AND || k == K_OR || k == K_XOR || k == K_ADD || k == K_MUL;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t m = maskw(w);
  switch (k) {
    case K_AND:
      if (isC(b)) { if (b->c == 0) return b; if (b->c == m) return a;
        // low mask -> zext(extract)
        if (w > 1) { uint64_t c = b->c; if ((c & (c + 1)) == 0) { unsigned n = __builtin_popcountll(c); return mkZExt(mkExtract(a, 0, n), w); } }
        if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->c & b->c, w));
        if (a->k == K_ZEXT) { return mkZExt(mkBin(K_AND, a->a, mkConst(b->c, a->a->w)), w); } }
      if (a == b) return a;
      if (w == 1) { if (a == mkNot(b)) return mkFalse(); if (a->k == K_AND && (a->a == b || a->b == b)) return a; if (b->k == K_AND && (b->a == a || b->b == a)) return b; }
      break;
    case K_OR:
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
      if (a == b) return a;
      if (w == 1) { if (a == mkNot(b)) return mkTrue(); if (a->k == K_OR && (a->a == b || a->b == b)) return a; if (b->k == K_OR && (b->a == a || b->b == a)) return b; }
      // disjoint or of zext and shl => concat
      if (a->k == K_ZEXT && b->k == K_CONCAT && isC(b->b) && b->b->c == 0 && a->a->w <= b->b->w) return mkConcat(b->a, mkZExt(a->a, b->b->w));
      if (b->k == K_ZEXT && a->k == K_CONCAT && isC(a->b) && a->b->c == 0 && b->a->w <= a->b->w) return mkConcat(a->a, mkZExt(b->a, a->b->w));
      break;
    case K_XOR:
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return mkNot(a); if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->c ^ b->c, w)); }
      if (a == b) return mkConst(0, w);
      break;
    case K_ADD:
      if (isC(b)) { if (b->c == 0) return a; if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->c + b->c, w));
        if (a->k == K_ITE && constLeaves(a)) return mkIte(a->a, mkBin(K_ADD, a->b, b), mkBin(K_ADD, a->d, b)); }
      if (a->k == K_ADD && isC(a->b) && !isC(b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b) && !isC(a)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (a->k == K_SUB && a->b == b) return a->a;
      if (b->k == K_SUB && b->b == a) return b->a;
      if (w > 1 && (a->k == K_ADD || a->k == K_SUB || b->k == K_ADD || b->k == K_SUB)) if (Ex r = linSum(k, a, b)) return r;
      break;
    case K_SUB:
      if (isC(b)) return mkBin(K_ADD, a, mkConst(0 - b->c, w));
      if (a == b) return mkConst(0, w);
      if (a->k == K_ADD) { if (a->b == b) return a->a; if (a->a == b) return a->b; }
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(0 - b->b->c, w));
      if (isC(a) && b->k == K_ITE && constLeaves(b)) return mkIte(b->a, mkBin(K_SUB, a, b->b), mkBin(K_SUB, a, b->d));
      if (w > 1 && (a->k == K_ADD || a->k == K_SUB || b->k == K_ADD || b->k == K_SUB)) if (Ex r = linSum(k, a, b)) return r;
      break;
    case K_MUL:
      if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; if (w > 1 && (b->c & (b->c - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(b->c), w));
        if (a->k == K_ITE && constLeaves(a)) return mkIte(a->a, mkBin(K_MUL, a->b, b), mkBin(K_MUL, a->d, b)); }
      break;
    case K_UDIV: if (isC(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(b->c), w)); 
        if (a->k == K_ZEXT && b->c && (b->c >> a->a->w) == 0) return mkZExt(mkBin(K_UDIV, a->a, mkConst(b->c, a->a->w)), w); }
      break;
    case K_UREM: if (isC(b)) { if (b->c == 1) return mkConst(0, w); if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_AND, a, mkConst(b->c - 1, w));
        if (a->k == K_ZEXT && b->c && (b->c >> a->a->w) == 0) return mkZExt(mkBin(K_UREM, a->a, mkConst(b->c, a->a->w)), w); }
      break;
    case K_SDIV: if (isC(b) && b->c == 1) return a;
      if (isC(b) && a->k == K_ZEXT && a->a->w < w && sx(b->c, w) > 0) return mkBin(K_UDIV, a, b);
      break;
    case K_SREM: if (isC(b) && a->k == K_ZEXT && a->a->w < w && sx(b->c, w) > 0) return mkBin(K_UREM, a, b); break;
    case K_SHL: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c)); } break;
    case K_LSHR: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); return mkZExt(mkExtract(a, b->c, w - b->c), w); } break;
    case K_ASHR: if (isC(b)) { if (b->c == 0) return a; unsigned n = b->c >= w ? w - 1 : b->c; return mkSExt(mkExtract(a, n, w - n), w); } break;
    default: break;
  }
  return mk(k, w, a, b);
}
Ex mkEq(Ex a, Ex b) {
  if (a == b) return mkTrue();
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->w == 1) return b->c ? a : mkNot(a);
    switch (a->k) {
      case K_ZEXT: if (b->c >> a->a->w) return mkFalse(); return mkEq(a->a, mkConst(b->c, a->a->w));
      case K_SEXT: { uint64_t lo = b->c & maskw(a->a->w); if (((uint64_t)sx(lo, a->a->w) & maskw(a->w)) != b->c) return mkFalse(); return mkEq(a->a, mkConst(lo, a->a->w)); }
      case K_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(b->c - a->b->c, a->w)); break;
      case K_SUB: if (b->c == 0) return mkEq(a->a, a->b); if (isC(a->a)) return mkEq(a->b, mkConst(a->a->c - b->c, a->w)); break;
      case K_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(b->c ^ a->b->c, a->w)); if (b->c == 0) return mkEq(a->a, a->b); break;
      case K_NOT: return mkEq(a->a, mkConst(~b->c, a->w));
      case K_CONCAT: { unsigned lw = a->b->w; return mkAndB(mkEq(a->a, mkConst(b->c >> lw, a->a->w)), mkEq(a->b, mkConst(b->c, lw))); }
      case K_ITE:
        if (constLeaves(a)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
        if (isC(a->b) && a->b->c != b->c) return mkAndB(mkNot(a->a), mkEq(a->d, b));
        if (isC(a->d) && a->d->c != b->c) return mkAndB(a->a, mkEq(a->b, b));
        break;
      default: break;
    }
  } else {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkAndB(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->w == 1) { if (a == mkNot(b)) return mkFalse(); return mkNot(mkBin(K_XOR, a, b)); }
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(K_EQ, 1, a, b);
}
Ex mkCmp(Kind k, Ex a, Ex b) {
  if (k == K_EQ) return mkEq(a, b);
  if (isC(a) && isC(b)) return mkConst(foldOp(k, 1, a->w, 0, a->c, b->c, 0), 1);
  if (a == b) return mkConst(k == K_ULE || k == K_SLE, 1);
  unsigned w = a->w; uint64_t m = maskw(w);
  if (k == K_ULT && isC(b)) { if (b->c == 0) return mkFalse(); if (b->c == 1) return mkEq(a, mkConst(0, w)); }
  if (k == K_ULT && isC(a)) { if (a->c == m) return mkFalse(); if (a->c == 0) return mkNot(mkEq(b, mkConst(0, w))); }
  if (k == K_ULE && isC(a) && a->c == 0) return mkTrue();
  if (k == K_ULE && isC(b)) { if (b->c == m) return mkTrue(); if (b->c == 0) return mkEq(a, b); return mkCmp(K_ULT, a, mkConst(b->c + 1, w)); }
  if (k == K_ULE && isC(a) ) { return mkCmp(K_ULT, mkConst(a->c - 1, w), b); }
  if (a->k == K_ZEXT && isC(b)) {
    unsigned iw = a->a->w; 
    if (k == K_ULT || k == K_ULE) { if (b->c > maskw(iw)) return mkTrue(); return mkCmp(k, a->a, mkConst(b->c, iw)); }
    if (iw < w) { if (sx(b->c, w) < 0) return mkFalse(); return mkCmp(k == K_SLT ? K_ULT : K_ULE, a, b); }
  }
  if (b->k == K_ZEXT && isC(a)) {
    unsigned iw = b->a->w;
    if (k == K_ULT || k == K_ULE) { if (a->c > maskw(iw)) return mkFalse(); return mkCmp(k, mkConst(a->c, iw), b->a); }
    if (iw < w) { if (sx(a->c, w) < 0) return mkTrue(); return mkCmp(k == K_SLT ? K_ULT : K_ULE, a, b); }
  }
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) { if (a->a->w < w && (k == K_SLT || k == K_SLE)) k = k == K_SLT ? K_ULT : K_ULE; return mkCmp(k, a->a, b->a); }
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w && (k == K_SLT || k == K_SLE)) return mkCmp(k, a->a, b->a);
  if (a->k == K_SEXT && isC(b) && (k == K_SLT || k == K_SLE)) {
    unsigned iw = a->a->w; int64_t v = sx(b->c, w), lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
    if (v > hi) return mkTrue(); if (v < lo) return mkFalse(); return mkCmp(k, a->a, mkConst((uint64_t)v, iw));
  }
  if (b->k == K_SEXT && isC(a) && (k == K_SLT || k == K_SLE)) {
    unsigned iw = b->a->w; int64_t v = sx(a->c, w), lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
    if (v > hi) return mkFalse(); if (v < lo) return mkTrue(); return mkCmp(k, mkConst((uint64_t)v, iw), b->a);
  }
  if (a->k == K_ITE && isC(b) && constLeaves(a)) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->d, b));
  if (b->k == K_ITE && isC(a) && constLeaves(b)) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->d));
  return mk(k, 1, a, b);
}
Ex mkIte(Ex c, Ex a, Ex b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c; if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOrB(c, b); if (isFalse(a)) return mkAndB(mkNot(c), b);
    if (isTrue(b)) return mkOrB(mkNot(c), a); if (isFalse(b)) return mkAndB(c, a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  return mk(K_ITE, a->w, c, a, b);
}
Ex mkZExt(Ex a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_ITE && constLeaves(a)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->d, w));
  return mk(K_ZEXT, w, a);
}
Ex mkSExt(Ex a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst((uint64_t)sx(a->c, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ZEXT && a->a->w < a->w) return mkZExt(a->a, w);
  if (a->k == K_ITE && constLeaves(a)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return mk(K_SEXT, w, a);
}
Ex mkExtract(Ex a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  switch (a->k) {
    case K_CONST: return mkConst(a->c >> off, w);
    case K_EXTRACT: return mkExtract(a->a, a->off + off, w);
    case K_CONCAT: { unsigned lw = a->b->w; if (off + w <= lw) return mkExtract(a->b, off, w); if (off >= lw) return mkExtract(a->a, off - lw, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
    case K_ZEXT: { unsigned iw = a->a->w; if (off >= iw) return mkConst(0, w); if (off + w <= iw) return mkExtract(a->a, off, w); return mkZExt(mkExtract(a->a, off, iw - off), w); }
    case K_SEXT: { unsigned iw = a->a->w; if (off + w <= iw) return mkExtract(a->a, off, w); if (off < iw) return mkSExt(mkExtract(a->a, off, iw - off), w); break; }
    case K_ITE: if (constLeaves(a) && !(g_real && (a->w == 64 || a->w == 32))) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w)); break;
    case K_AND: case K_OR: case K_XOR: if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w)); break;
    case K_NOT: return mkNot(mkExtract(a->a, off, w));
    case K_ADD: case K_SUB: case K_MUL: if (off == 0 && (isC(a->b) || isC(a->a) || (a->a->k == K_ZEXT || a->a->k == K_SEXT) )) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  return mk(K_EXTRACT, w, a, nullptr, nullptr, off);
}
Ex mkConcat(Ex hi, Ex lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->off == lo->off + lo->w) return mkExtract(hi->a, lo->off, w);
  if (lo->k == K_EXTRACT && hi->k == K_CONCAT && hi->b->k == K_EXTRACT && hi->b->a == lo->a && hi->b->off == lo->off + lo->w) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && hi->off == lo->a->off + lo->a->w) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->k == K_EXTRACT && hi->off == lo->w && (hi->a->k == K_ADD || hi->a->k == K_SUB || hi->a->k == K_MUL || hi->a->k == K_AND || hi->a->k == K_OR || hi->a->k == K_XOR) && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
  // concat(hi zext bits of x, x...) : zext/sext pieces
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  return mk(K_CONCAT, w, hi, lo, nullptr, lo->w);
}
Ex mkF1(Kind k, Ex a, unsigned w) {
  if (isC(a)) {
    if (!g_real || k == K_FNEG || k == K_FABS || k == K_FFLOOR || k == K_FCEIL || k == K_FTRUNC || k == K_SITOFP || k == K_UITOFP || k == K_FPTOSI || k == K_FPTOUI || k == K_FROUND)
      return mkConst(foldOp(k, w, a->w, 0, a->c, 0, 0), w);
    if (k == K_FSQRT) { double x = asD(a->c, w), r = sqrt(x); if (std::isfinite(r) && fma(r, r, -x) == 0) return mkConst(fromD(r, w), w); }
    if (k == K_FPCVT) { double x = asD(a->c, a->w); if (w == 64 || (double)(float)x == x) return mkConst(fromD(x, w), w); }
  }
  if (k == K_FNEG && a->k == K_FNEG) return a->a;
  if (k == K_FABS && (a->k == K_FABS)) return a;
  if (k == K_FABS && a->k == K_FNEG) return mkF1(K_FABS, a->a, w);
  return mk(k, w, a);
}
Ex mkF2(Kind k, Ex a, Ex b) {
  bool cmp = k == K_FEQ || k == K_FLT || k == K_FLE || k == K_FUNO;
  unsigned w = cmp ? 1 : a->w;
  if (cmp && g_real && k == K_FUNO) {
    if (isC(a) && std::isnan(asD(a->c, a->w))) return mkTrue();
    if (isC(b) && std::isnan(asD(b->c, b->w))) return mkTrue();
    return mkFalse();
  }
  if (isC(a) && isC(b)) {
    if (cmp) return mkConst(foldOp(k, 1, a->w, 0, a->c, b->c, 0), 1);
    uint64_t o; if (foldF(k, w, a->c, b->c, o)) return mkConst(o, w);
  }
  if (g_real) {
    if (cmp && a == b) return mkConst(k == K_FEQ || k == K_FLE, 1);
    auto isv = [&](Ex e, double v) { return isC(e) && asD(e->c, e->w) == v; };
    if (k == K_FADD) { if (isv(a, 0)) return b; if (isv(b, 0)) return a; }
    if (k == K_FSUB) { if (isv(b, 0)) return a; if (a == b) return mkConst(0, w); if (isv(a, 0)) return mkF1(K_FNEG, b, w); }
    if (k == K_FMUL) { if (isv(a, 1)) return b; if (isv(b, 1)) return a; if (isv(a, 0)) return mkConst(0, w); if (isv(b, 0)) return mkConst(0, w); }
    if (k == K_FDIV) { if (isv(b, 1)) return a; }
    // comparisons against +-inf
    if (cmp && isC(a) && std::isinf(asD(a->c, a->w))) { bool neg = asD(a->c, a->w) < 0; return mkConst(k == K_FEQ ? 0 : neg, 1); }
    if (cmp && isC(b) && std::isinf(asD(b->c, b->w))) { bool neg = asD(b->c, b->w) < 0; return mkConst(k == K_FEQ ? 0 : !neg, 1); }
  }
  if ((k == K_FADD || k == K_FMUL || k == K_FEQ || k == K_FUNO) && a->id > b->id) std::swap(a, b);
  return mk(k, w, a, b);
}
Ex mkOvf(Kind k, Ex a, Ex b) {
  if (isC(a) && isC(b)) return mkConst(foldOp(k, 1, a->w, 0, a->c, b->c, 0), 1);
  return mk(k, 1, a, b);
}
uint64_t Evaluator::eval(Ex e) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) { if (e->off == one) return oneVal; if (!asg) return 0; auto it = asg->find(e->off); return it == asg->end() ? 0 : it->second & maskw(e->w); }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  uint64_t r;
  if (e->k == K_ITE) r = eval(e->a) ? eval(e->b) : eval(e->d);
  else { uint64_t a = e->a ? eval(e->a) : 0, b = e->b ? eval(e->b) : 0; r = foldOp(e->k, e->w, e->a ? e->a->w : e->w, e->off, a, b, 0); }
  memo[e] = r; return r;
}
std::string toStr(Ex e, int depth) {
  static const char* n[] = { "c","v","not","and","or","xor","+","-","*","udiv","sdiv","urem","srem","shl","lshr","ashr","=","ult","ule","slt","sle","ite","zext","sext","ext","cat","fadd","fsub","fmul","fdiv","frem","fneg","fabs","sqrt","floor","ceil","trunc","rint","round","feq","flt","fle","funo","fcvt","si2f","ui2f","f2si","f2ui","uaddo","umulo","saddo","smulo","ssubo" };
  if (e->k == K_CONST) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->k == K_VAR) return g_vars[e->off].name;
  if (depth == 0) return "...";
  std::string s = "("; s += n[e->k]; if (e->k == K_EXTRACT) s += "[" + std::to_string(e->off) + "+" + std::to_string(e->w) + "]";
  if (e->a) s += " " + toStr(e->a, depth - 1); if (e->b) s += " " + toStr(e->b, depth - 1); if (e->d) s += " " + toStr(e->d, depth - 1);
  return s + ")";
}
