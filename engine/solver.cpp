#include "solver.h"
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstring>
#include <z3.h>
#include <chrono>
#include <cstdlib>
SolverStats g_sst;
unsigned g_qtimeout = 20000;
static Z3_context C;
static Z3_sort sBV[256], sD, sF; static Z3_ast aRm[3], aRtz, aRna; static Z3_tactic tQfbv;
static Z3_sort srt(unsigned w) { Z3_sort* s = sBV; if (!s[w]) { s[w] = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s[w])); } return s[w]; }
static Z3_sort fsrt(unsigned w) { Z3_sort &d = sD, &f = sF; if (w == 64) { if (!d) { d = Z3_mk_fpa_sort_double(C); Z3_inc_ref(C, (Z3_ast)d); } return d; } if (!f) { f = Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, (Z3_ast)f); } return f; }
static Z3_ast rm(int k) { Z3_ast* a = aRm; if (!a[k]) { a[k] = k == 0 ? Z3_mk_fpa_round_nearest_ties_to_even(C) : k == 1 ? Z3_mk_fpa_round_toward_negative(C) : Z3_mk_fpa_round_toward_positive(C); Z3_inc_ref(C, a[k]); } return a[k]; }
static Z3_ast rtz() { Z3_ast& a = aRtz; if (!a) { a = Z3_mk_fpa_round_toward_zero(C); Z3_inc_ref(C, a); } return a; }
static Z3_ast rna() { Z3_ast& a = aRna; if (!a) { a = Z3_mk_fpa_round_nearest_ties_to_away(C); Z3_inc_ref(C, a); } return a; }
static std::unordered_map<Ex, Z3_ast> mBV, mBool, mFP, mReal;
static std::unordered_map<unsigned, Z3_ast> varAst;
static bool sawFP = false;
static void zerr(Z3_context c, Z3_error_code e) { throw Unsupported{ std::string("z3 error: ") + Z3_get_error_msg(c, e) }; }
void solverInit() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg) /* keeps every term alive: translations combine several unreferenced results */; Z3_del_config(cfg); Z3_set_error_handler(C, zerr);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast tBV(Ex e); static Z3_ast tB(Ex e); static Z3_ast tFP(Ex e); static Z3_ast tR(Ex e);
static Z3_ast varOf(Ex e) {
  auto it = varAst.find(e->off); if (it != varAst.end()) return it->second;
  std::string n = "v" + std::to_string(e->off); Z3_symbol s = Z3_mk_string_symbol(C, n.c_str());
  Z3_ast a = keep(Z3_mk_const(C, s, (g_real && e->fp) ? Z3_mk_real_sort(C) : srt(e->w))); varAst[e->off] = a; return a;
}
static bool isFPk(Kind k) { return (k >= K_FADD && k <= K_FROUND) || k == K_FPCVT || k == K_SITOFP || k == K_UITOFP; }
static Z3_ast numeral(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, srt(w)); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, numeral(1, 1), numeral(0, 1)); }
static Z3_ast tBV(Ex e) {
  auto it = mBV.find(e); if (it != mBV.end()) return it->second;
  Z3_ast r = nullptr;
  if (e->w == 1 && e->k != K_VAR && e->k != K_EXTRACT) { r = e->k == K_CONST ? numeral(e->c, 1) : b2bv(tB(e)); }
  else switch (e->k) {
    case K_CONST: r = numeral(e->c, e->w); break;
    case K_VAR: if (g_real && e->fp) throw Unsupported{ "bit-level use of a real-valued variable" }; r = varOf(e); break;
    case K_NOT: r = Z3_mk_bvnot(C, tBV(e->a)); break;
    case K_AND: r = Z3_mk_bvand(C, tBV(e->a), tBV(e->b)); break;
    case K_OR: r = Z3_mk_bvor(C, tBV(e->a), tBV(e->b)); break;
    case K_XOR: r = Z3_mk_bvxor(C, tBV(e->a), tBV(e->b)); break;
    case K_ADD: r = Z3_mk_bvadd(C, tBV(e->a), tBV(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(C, tBV(e->a), tBV(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(C, tBV(e->a), tBV(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(C, tBV(e->a), tBV(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(C, tBV(e->a), tBV(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(C, tBV(e->a), tBV(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(C, tBV(e->a), tBV(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(C, tBV(e->a), tBV(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(C, tBV(e->a), tBV(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(C, tBV(e->a), tBV(e->b)); break;
    case K_ITE: r = Z3_mk_ite(C, tB(e->a), tBV(e->b), tBV(e->d)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, tBV(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, tBV(e->a)); break;
    case K_EXTRACT: r = Z3_mk_extract(C, e->off + e->w - 1, e->off, tBV(e->a)); break;
    case K_CONCAT: r = Z3_mk_concat(C, tBV(e->a), tBV(e->b)); break;
    case K_FPTOSI: case K_FPTOUI: {
      if (g_real) throw Unsupported{ "fptoint in real mode" };
      sawFP = true; bool sg = e->k == K_FPTOSI; unsigned ow = e->a->w; Z3_ast x = tFP(e->a);
      double lo = sg ? -ldexp(1.0, e->w - 1) : -1.0, hi = ldexp(1.0, sg ? e->w - 1 : e->w);
      Z3_ast L = Z3_mk_fpa_numeral_double(C, lo, fsrt(ow)), H = Z3_mk_fpa_numeral_double(C, hi, fsrt(ow));
      // truncation toward zero stays in range exactly when lo-1 < x < hi (lo-1 is rounded to lo for 64 bit)
      Z3_ast t = Z3_mk_fpa_round_to_integral(C, rtz(), x);
      Z3_ast in[2] = { sg ? Z3_mk_fpa_geq(C, t, L) : Z3_mk_fpa_gt(C, x, L), Z3_mk_fpa_lt(C, x, H) };
      Z3_ast v = sg ? Z3_mk_fpa_to_sbv(C, rtz(), x, e->w) : Z3_mk_fpa_to_ubv(C, rtz(), x, e->w);
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), v, numeral(sg ? 1ull << (e->w - 1) : 0, e->w)); break; }
    default:
      if (isFPk(e->k)) { if (g_real) throw Unsupported{ "bit-level use of a real-valued expression" }; r = Z3_mk_fpa_to_ieee_bv(C, tFP(e)); break; }
      throw Unsupported{ "tBV kind " + std::to_string(e->k) };
  }
  return mBV[e] = keep(r);
}
static Z3_ast tB(Ex e) {
  auto it = mBool.find(e); if (it != mBool.end()) return it->second;
  Z3_ast r = nullptr;
  if (e->w != 1) throw Unsupported{ "tB width" };
  switch (e->k) {
    case K_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K_VAR: case K_EXTRACT: r = Z3_mk_eq(C, tBV(e), numeral(1, 1)); break;
    case K_NOT: r = Z3_mk_not(C, tB(e->a)); break;
    case K_AND: { Z3_ast x[2] = { tB(e->a), tB(e->b) }; r = Z3_mk_and(C, 2, x); break; }
    case K_OR: { Z3_ast x[2] = { tB(e->a), tB(e->b) }; r = Z3_mk_or(C, 2, x); break; }
    case K_XOR: case K_ADD: case K_SUB: r = Z3_mk_xor(C, tB(e->a), tB(e->b)); break;
    case K_MUL: { Z3_ast x[2] = { tB(e->a), tB(e->b) }; r = Z3_mk_and(C, 2, x); break; }
    case K_EQ: if (e->a->w == 1) r = Z3_mk_eq(C, tB(e->a), tB(e->b)); else r = Z3_mk_eq(C, tBV(e->a), tBV(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(C, tBV(e->a), tBV(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(C, tBV(e->a), tBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(C, tBV(e->a), tBV(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(C, tBV(e->a), tBV(e->b)); break;
    case K_ITE: r = Z3_mk_ite(C, tB(e->a), tB(e->b), tB(e->d)); break;
    case K_FEQ: if (g_real) r = Z3_mk_eq(C, tR(e->a), tR(e->b)); else { sawFP = true; r = Z3_mk_fpa_eq(C, tFP(e->a), tFP(e->b)); } break;
    case K_FLT: if (g_real) r = Z3_mk_lt(C, tR(e->a), tR(e->b)); else { sawFP = true; r = Z3_mk_fpa_lt(C, tFP(e->a), tFP(e->b)); } break;
    case K_FLE: if (g_real) r = Z3_mk_le(C, tR(e->a), tR(e->b)); else { sawFP = true; r = Z3_mk_fpa_leq(C, tFP(e->a), tFP(e->b)); } break;
    case K_FUNO: { sawFP = true; Z3_ast x[2] = { Z3_mk_fpa_is_nan(C, tFP(e->a)), Z3_mk_fpa_is_nan(C, tFP(e->b)) }; r = Z3_mk_or(C, 2, x); break; }
    case K_UADDO: r = Z3_mk_not(C, Z3_mk_bvadd_no_overflow(C, tBV(e->a), tBV(e->b), false)); break;
    case K_UMULO: r = Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, tBV(e->a), tBV(e->b), false)); break;
    case K_SADDO: { Z3_ast x[2] = { Z3_mk_bvadd_no_overflow(C, tBV(e->a), tBV(e->b), true), Z3_mk_bvadd_no_underflow(C, tBV(e->a), tBV(e->b)) }; r = Z3_mk_not(C, Z3_mk_and(C, 2, x)); break; }
    case K_SSUBO: { Z3_ast x[2] = { Z3_mk_bvsub_no_overflow(C, tBV(e->a), tBV(e->b)), Z3_mk_bvsub_no_underflow(C, tBV(e->a), tBV(e->b), true) }; r = Z3_mk_not(C, Z3_mk_and(C, 2, x)); break; }
    case K_SMULO: { Z3_ast x[2] = { Z3_mk_bvmul_no_overflow(C, tBV(e->a), tBV(e->b), true), Z3_mk_bvmul_no_underflow(C, tBV(e->a), tBV(e->b)) }; r = Z3_mk_not(C, Z3_mk_and(C, 2, x)); break; }
    default: throw Unsupported{ "tB kind " + std::to_string(e->k) };
  }
  return mBool[e] = keep(r);
}
static Z3_ast tFP(Ex e) {
  sawFP = true;
  auto it = mFP.find(e); if (it != mFP.end()) return it->second;
  Z3_ast r = nullptr; Z3_sort s = fsrt(e->w);
  switch (e->k) {
    case K_FADD: r = Z3_mk_fpa_add(C, rm(0), tFP(e->a), tFP(e->b)); break;
    case K_FSUB: r = Z3_mk_fpa_sub(C, rm(0), tFP(e->a), tFP(e->b)); break;
    case K_FMUL: r = Z3_mk_fpa_mul(C, rm(0), tFP(e->a), tFP(e->b)); break;
    case K_FDIV: r = Z3_mk_fpa_div(C, rm(0), tFP(e->a), tFP(e->b)); break;
    case K_FNEG: r = Z3_mk_fpa_neg(C, tFP(e->a)); break;
    case K_FABS: r = Z3_mk_fpa_abs(C, tFP(e->a)); break;
    case K_FSQRT: r = Z3_mk_fpa_sqrt(C, rm(0), tFP(e->a)); break;
    case K_FFLOOR: r = Z3_mk_fpa_round_to_integral(C, rm(1), tFP(e->a)); break;
    case K_FCEIL: r = Z3_mk_fpa_round_to_integral(C, rm(2), tFP(e->a)); break;
    case K_FTRUNC: r = Z3_mk_fpa_round_to_integral(C, rtz(), tFP(e->a)); break;
    case K_FRINT: r = Z3_mk_fpa_round_to_integral(C, rm(0), tFP(e->a)); break;
    case K_FROUND: r = Z3_mk_fpa_round_to_integral(C, rna(), tFP(e->a)); break;
    case K_FREM: throw Unsupported{ "symbolic IEEE fmod" };
    case K_FPCVT: r = Z3_mk_fpa_to_fp_float(C, rm(0), tFP(e->a), s); break;
    case K_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rm(0), tBV(e->a), s); break;
    case K_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rm(0), tBV(e->a), s); break;
    case K_ITE: r = Z3_mk_ite(C, tB(e->a), tFP(e->b), tFP(e->d)); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, tBV(e), s); break;
  }
  return mFP[e] = keep(r);
}
static Z3_ast realNum(double v) {
  if (!std::isfinite(v)) throw Unsupported{ "non-finite constant in real mode" };
  int ex; double m = frexp(v, &ex); // v = m * 2^ex, |m| in [0.5,1)
  int64_t n = (int64_t)ldexp(m, 53); ex -= 53;
  while (n && !(n & 1) && ex < 0) { n /= 2; ex++; }
  Z3_sort R = Z3_mk_real_sort(C); std::string s = std::to_string(n);
  Z3_ast num = Z3_mk_numeral(C, s.c_str(), R); if (ex == 0 || n == 0) return num;
  unsigned k = abs(ex); std::string p = "1"; for (unsigned i = 0; i < k; i++) { int c = 0; for (int j = (int)p.size() - 1; j >= 0; j--) { int d = (p[j] - '0') * 2 + c; p[j] = '0' + d % 10; c = d / 10; } if (c) p.insert(p.begin(), '0' + c); }
  if (ex > 0) { Z3_ast x[2] = { num, Z3_mk_numeral(C, p.c_str(), R) }; return Z3_simplify(C, Z3_mk_mul(C, 2, x)); }
  return Z3_mk_numeral(C, (s + "/" + p).c_str(), R);
}
static Z3_ast tR(Ex e) {
  auto it = mReal.find(e); if (it != mReal.end()) return it->second;
  Z3_ast r = nullptr; Z3_ast x[2];
  switch (e->k) {
    case K_CONST: { double v; if (e->w == 64) memcpy(&v, &e->c, 8); else { float f; uint32_t u = e->c; memcpy(&f, &u, 4); v = f; } r = realNum(v); break; }
    case K_VAR: if (!e->fp) throw Unsupported{ "bit-vector variable used as a real" }; r = varOf(e); break;
    case K_FADD: x[0] = tR(e->a); x[1] = tR(e->b); r = Z3_mk_add(C, 2, x); break;
    case K_FSUB: x[0] = tR(e->a); x[1] = tR(e->b); r = Z3_mk_sub(C, 2, x); break;
    case K_FMUL: x[0] = tR(e->a); x[1] = tR(e->b); r = Z3_mk_mul(C, 2, x); break;
    case K_FDIV: r = Z3_mk_div(C, tR(e->a), tR(e->b)); break;
    case K_FNEG: r = Z3_mk_unary_minus(C, tR(e->a)); break;
    case K_FABS: { Z3_ast a = tR(e->a); r = Z3_mk_ite(C, Z3_mk_ge(C, a, realNum(0)), a, Z3_mk_unary_minus(C, a)); break; }
    case K_FPCVT: r = tR(e->a); break;
    case K_ITE: r = Z3_mk_ite(C, tB(e->a), tR(e->b), tR(e->d)); break;
    case K_SITOFP: r = Z3_mk_int2real(C, Z3_mk_bv2int(C, tBV(e->a), true)); break;
    case K_UITOFP: r = Z3_mk_int2real(C, Z3_mk_bv2int(C, tBV(e->a), false)); break;
    default: throw Unsupported{ "real-mode kind " + std::to_string(e->k) };
  }
  return mReal[e] = keep(r);
}
static void collectVars(const std::vector<Ex>& cs, std::vector<unsigned>& vs) {
  for (Ex c : cs) for (unsigned v : *c->vars) vs.push_back(v);
  std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
}
static Z3_solver bvSolver;
// a cancelled context may keep its cancelled state: it is abandoned, and every term is translated again in a fresh one
static void freshContext() { solverInit(); mBV.clear(); mBool.clear(); mFP.clear(); mReal.clear(); varAst.clear(); bvSolver = nullptr; memset(sBV, 0, sizeof sBV); sD = sF = nullptr; memset(aRm, 0, sizeof aRm); aRtz = aRna = nullptr; tQfbv = nullptr; g_sst.resets++; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static volatile double qStart = 0, qLimit = 0; double g_deadline = 0; // absolute, seconds
static volatile sig_atomic_t interrupted = 0;
static void onAlarm(int) { if (qStart > 0 && now() - qStart > qLimit) { interrupted = 1; Z3_interrupt(C); } }
static void watchdog() { static pid_t owner = 0; if (owner == getpid()) return; owner = getpid(); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); struct itimerval it { { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_REAL, &it, nullptr); }
static Z3_lbool checkLimited(Z3_solver s, unsigned ms) {
  watchdog(); double t = now(), lim = ms / 1000.0; if (g_deadline > 0) lim = std::min(lim, std::max(0.3, g_deadline - t)); qLimit = lim + 0.2; qStart = t; Z3_lbool r = Z3_solver_check(C, s); qStart = 0; return r;
}
static void setTimeout(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
std::string dumpSmt(const std::vector<Ex>& cs) { std::string r; for (Ex c : cs) { r += Z3_ast_to_string(C, tB(c)); r += "\n"; } return r; }
static Sat solveOnce(const std::vector<Ex>& cs, Asg* model);
Sat solveZ3(const std::vector<Ex>& cs, Asg* model) {
  double t0 = now(); Sat res; interrupted = 0;
  try { res = solveOnce(cs, model); } catch (Unsupported& u) { if (u.what.find("cancel") == std::string::npos && u.what.find("timeout") == std::string::npos && !interrupted) throw; res = UNKNOWN; interrupted = 1; }
  if (interrupted) { interrupted = 0; freshContext(); res = UNKNOWN;
    if (g_qtimeout > 1500 && now() - t0 < g_qtimeout / 2000.0 && (g_deadline <= 0 || now() < g_deadline)) { // interrupted well before its limit (busy machine): once more
      try { res = solveOnce(cs, model); } catch (Unsupported& u) { if (u.what.find("cancel") == std::string::npos && u.what.find("timeout") == std::string::npos && !interrupted) throw; res = UNKNOWN; interrupted = 1; }
      if (interrupted) { interrupted = 0; freshContext(); res = UNKNOWN; } } }
  double dt = now() - t0; g_sst.z3++; g_sst.z3time += dt; g_sst.maxq = std::max(g_sst.maxq, dt);
  if (res == SAT) g_sst.z3sat++; else if (res == UNSAT) g_sst.z3unsat++; else { g_sst.z3unknown++; if (model) model->clear(); }
  return res;
}
static Sat solveOnce(const std::vector<Ex>& cs, Asg* model) {
  sawFP = false; std::vector<Z3_ast> as; for (Ex c : cs) as.push_back(tB(c));
  // does any subterm use FP? (memoised translations do not set the flag)
  bool fp = false; { static std::unordered_map<Ex, char> hasFP; std::function<bool(Ex)> f = [&](Ex e) -> bool { if (!e) return false; auto it = hasFP.find(e); if (it != hasFP.end()) return it->second; bool r = isFPk(e->k) || (e->k >= K_FEQ && e->k <= K_FPTOUI) || f(e->a) || f(e->b) || f(e->d); hasFP[e] = r; return r; }; for (Ex c : cs) fp = fp || f(c); }
  Z3_solver s; bool inc = !fp && !g_real;
  if (inc) {
    if (!bvSolver) { bvSolver = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, bvSolver); setTimeout(bvSolver, std::min(g_qtimeout, 1500u)); }
    static int uses = 0; if (++uses % 2000 == 0) { Z3_solver_reset(C, bvSolver); }
    s = bvSolver; Z3_solver_push(C, s);
  } else {
    if (g_real && fp) {
      s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_NRA"));
    } else s = Z3_mk_solver(C);
    Z3_solver_inc_ref(C, s); setTimeout(s, g_qtimeout);
  }
  for (Z3_ast a : as) Z3_solver_assert(C, s, a);
  Z3_lbool r = checkLimited(s, inc ? std::min(g_qtimeout, 1500u) : g_qtimeout);
  if (inc && r == Z3_L_UNDEF && g_qtimeout > 1500) { // hard query: non-incremental bit-blasting solver
    inc = false; if (interrupted) { interrupted = 0; freshContext(); as.clear(); for (Ex c : cs) as.push_back(tB(c)); } else { Z3_solver_pop(C, s, 1); Z3_solver_reset(C, s); }
    Z3_tactic& tac = tQfbv; if (!tac) { tac = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, tac); }
    s = Z3_mk_solver_from_tactic(C, tac); Z3_solver_inc_ref(C, s); setTimeout(s, g_qtimeout); for (Z3_ast a : as) Z3_solver_assert(C, s, a); r = checkLimited(s, g_qtimeout);
  }
  if (interrupted) return UNKNOWN; // the context is abandoned by the caller
  Sat res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && model) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m); model->clear();
    std::vector<unsigned> vs; collectVars(cs, vs);
    for (unsigned v : vs) {
      auto it = varAst.find(v); if (it == varAst.end()) { model->push_back({ v, 0 }); continue; }
      Z3_ast val = nullptr; if (!Z3_model_eval(C, m, it->second, true, &val) || !val) continue; Z3_inc_ref(C, val);
      uint64_t u = 0;
      if (g_real && g_vars[v].fp) {
        double d = 0; Z3_ast_kind ak = Z3_get_ast_kind(C, val);
        if (ak == Z3_NUMERAL_AST) d = Z3_get_numeral_double(C, val);
        else { std::string ds = Z3_get_numeral_decimal_string(C, val, 25); if (!ds.empty() && ds.back() == '?') ds.pop_back(); d = atof(ds.c_str()); }
        if (g_vars[v].w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); u = x; } else memcpy(&u, &d, 8);
      } else Z3_get_numeral_uint64(C, val, &u);
      model->push_back({ v, u }); Z3_dec_ref(C, val);
    }
    Z3_model_dec_ref(C, m);
  }
  if (inc) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
  return res;
}
