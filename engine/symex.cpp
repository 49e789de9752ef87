// symex: symbolic executor for LLVM bitcode.
// Executes a harness entry together with the real code it calls. Harness inputs are symbolic variables,
// branches fork on the satisfiable sides, assertions become solver queries.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <list>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <cxxabi.h>
#include <atomic>
#include <random>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr; using std::unordered_map;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ---------------------------------------------------------------- values
struct Val { Ex e; uint64_t c; };
static ExprNode AGGN, UNDEFN; static Ex const AGG = &AGGN, UNDEFV = &UNDEFN;
static ExprNode UNINITN; static Ex const UNINIT = &UNINITN;
static inline Val cv(uint64_t c) { return Val{ nullptr, c }; }
static inline Val ev(Ex e) { if (e->k == K_CONST) return Val{ nullptr, e->c }; return Val{ e, 0 }; }
static inline Ex toEx(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
typedef vector<Val> AggV;
static inline Val aggv(AggV&& v) { return Val{ AGG, (uint64_t) new AggV(std::move(v)) }; }
static inline const AggV& agg(const Val& v) { return *(AggV*)v.c; }

// ---------------------------------------------------------------- memory
struct Obj {
  int refs = 1; uint32_t size; bool ro = false; uint16_t gen = 0; uint8_t allocKind = 0; // 0 other, 1 malloc, 2 new, 3 new[]
  vector<uint8_t> d; vector<Ex> s; // s empty: all concrete and initialised
  Obj(uint32_t n, bool uninit) : size(n), d(n) { if (uninit) s.assign(n, UNINIT); }
};
static inline void rel(Obj* o) { if (o && --o->refs == 0) delete o; }
enum { RG_GLOBAL = 1, RG_HEAP = 2, RG_STACK = 3, RG_FUNC = 4 };
static const unsigned IDSH = 22, RGSH = 44;
static inline uint64_t mkAddr(unsigned rg, uint64_t id) { return ((uint64_t)rg << RGSH) | (id << IDSH); }

// ---------------------------------------------------------------- program
struct Opnd { int32_t r; };
struct FnInfo;
struct PInst {
  unsigned op; int32_t dst = -1; uint8_t w = 0, ow = 0; uint8_t sub = 0; bool flag = false;
  Instruction* I = nullptr; vector<Opnd> ops; vector<std::pair<Opnd, int64_t>> gep; vector<uint8_t> gw; int64_t imm = 0;
  FnInfo* callee = nullptr; int builtin = -1; vector<int> succ; vector<std::pair<uint64_t, int>> cases;
  Type* ty = nullptr; vector<unsigned> idx; unsigned nfixed = 0; vector<uint8_t> argw;
};
struct PPhi { int32_t dst; vector<std::pair<int, Opnd>> in; };
struct PBlock { vector<PPhi> phis; vector<PInst> ins; bool hit = false; BasicBlock* bb; };
struct FnInfo { Function* F = nullptr; string name; bool decoded = false; vector<PBlock> blocks; vector<Val> consts; int nregs = 0; int builtin = -1; vector<std::pair<unsigned, uint64_t>> byval; bool hit = false; };

static Module* M; static const DataLayout* DL;
static vector<FnInfo*> fnByIdx; static unordered_map<const Function*, FnInfo*> fnMap;
static vector<Obj*> gConst; // by global id; nullptr when the global is mutable
static vector<Obj*> gInit;  // initial contents of mutable globals
static unordered_map<const GlobalVariable*, uint64_t> gAddr; static vector<const GlobalVariable*> gById;

struct Frame {
  FnInfo* f; int bb = 0, pc = 0, prev = -1; vector<Val> regs; size_t stkBase = 0;
  int retDst = -1; const PInst* call = nullptr; vector<Val> varargs; uint64_t vaArea = 0;
  vector<Val> args; bool ctorFrame = false;
};
struct Dom { unsigned var; std::bitset<256> b; };
struct ExcInfo { uint64_t ptr, ti; };
struct State {
  vector<Frame> st; vector<Obj*> heap, stk, glob; uint16_t gen = 1;
  vector<Ex> multi; vector<Dom> doms; vector<uint64_t> model; bool modelOk = true;
  vector<unsigned> symlog; vector<std::pair<Ex, uint64_t>> conc; unsigned nhidden = 0, nsym = 0;
  vector<ExcInfo> excs; vector<uint64_t> caught; uint64_t inflight = 0; uint64_t lpSel = 0;
  uint64_t insts = 0; unsigned depth = 0; bool done = false; vector<string> reached;
  vector<string> notes;
  State() {}
  State(const State& o) = default;
  void addrefs() { for (auto* p : heap) if (p) p->refs++; for (auto* p : stk) if (p) p->refs++; for (auto* p : glob) if (p) p->refs++; }
  ~State() { for (auto* p : heap) rel(p); for (auto* p : stk) rel(p); for (auto* p : glob) rel(p); }
};
static State* cloneState(const State& s) { State* n = new State(s); n->addrefs(); return n; }

struct PathEnd {};            // path finished (normally or infeasible)
struct PathError { string kind, msg; };
struct Restart {};            // re-execute the instruction after a constraint was added

// ---------------------------------------------------------------- options and statistics
static string optEntry = "harness", optOut; static double optTime = 60; static uint64_t optInst = 3000000; static unsigned optMaxErr = 8, optJobs = 1; static size_t optMaxStates = 200000; static string optRepo = "/repo/";
static bool optVerbose = false; static vector<int64_t> optParams; static size_t optMemMB = 3500;
static uint64_t nPaths = 0, nForks = 0, nAssert = 0, nAssertSym = 0, nInsts = 0, nInfeasible = 0, nAssumeCut = 0; static unsigned maxDepth = 0;
static uint64_t nDomOnly = 0; static std::map<string, uint64_t> unsupported, reachedAll; static std::map<string, uint64_t> unknowns;
struct ErrRec { string kind, msg, where, stack; vector<std::pair<string, uint64_t>> syms; vector<unsigned> widths; bool hiddenDep = false; uint64_t count = 1; };
static vector<ErrRec> errors;
static std::deque<State*> work; static bool timedOut = false; static double tStart;

// ---------------------------------------------------------------- decoding
static unsigned tyW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; return 0;
}
static uint64_t fnAddr(const Function* F);
static FnInfo* fnInfo(Function* F) {
  auto it = fnMap.find(F); if (it != fnMap.end()) return it->second;
  FnInfo* f = new FnInfo; f->F = F; f->name = F->getName().str(); fnMap[F] = f; fnByIdx.push_back(f); return f;
}
static uint64_t fnAddr(const Function* F) { FnInfo* f = fnInfo(const_cast<Function*>(F)); for (size_t i = 0; i < 1; i++) {} static unordered_map<FnInfo*, uint64_t> ids; auto it = ids.find(f); if (it != ids.end()) return it->second; uint64_t id = 0; for (size_t i = 0; i < fnByIdx.size(); i++) if (fnByIdx[i] == f) id = i; return ids[f] = mkAddr(RG_FUNC, id + 1); }
static uint64_t globalAddr(const GlobalVariable* g) { auto it = gAddr.find(g); if (it != gAddr.end()) return it->second; gById.push_back(g); uint64_t a = mkAddr(RG_GLOBAL, gById.size()); gAddr[g] = a; return a; }
static Val constVal(const Constant* c);
static int64_t gepConstOff(const GEPOperator* g, bool& ok) { APInt off(64, 0); ok = g->accumulateConstantOffset(*DL, off); return off.getSExtValue(); }
static Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{ "wide integer constant" }; return cv(ci->getZExtValue()); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (cf->getType()->isDoubleTy() || cf->getType()->isFloatTy()) return cv(cf->getValueAPF().bitcastToAPInt().getZExtValue()); throw Unsupported{ "long double" }; }
  if (isa<ConstantPointerNull>(c)) return cv(0);
  if (isa<UndefValue>(c)) { Type* t = c->getType(); if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { AggV v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = 0; i < n; i++) v.push_back(constVal(cast<UndefValue>(c)->getElementValue(i))); return aggv(std::move(v)); } return Val{ UNDEFV, 0 }; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) return cv(globalAddr(g));
  if (auto* f = dyn_cast<Function>(c)) return cv(fnAddr(f));
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    Type* t = c->getType(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    AggV v; for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i))); return aggv(std::move(v));
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { bool ok; int64_t o = gepConstOff(cast<GEPOperator>(ce), ok); if (!ok) break; return cv(constVal(ce->getOperand(0)).c + o); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: { Val v = constVal(ce->getOperand(0)); if (tyW(ce->getType()) < 64) v.c &= maskw(tyW(ce->getType())); return v; }
      case Instruction::Add: return cv((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(tyW(ce->getType())));
      case Instruction::Sub: return cv((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(tyW(ce->getType())));
      case Instruction::Trunc: return cv(constVal(ce->getOperand(0)).c & maskw(tyW(ce->getType())));
      case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; if (ce->getPredicate() == CmpInst::ICMP_EQ) return cv(a == b); if (ce->getPredicate() == CmpInst::ICMP_NE) return cv(a != b); break; }
      default: break;
    }
    throw Unsupported{ string("constant expression ") + ce->getOpcodeName() };
  }
  throw Unsupported{ "constant" };
}
static void initObj(Obj* o, const Constant* c, uint64_t off) {
  Type* t = c->getType(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(&o->d[off], r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + sl->getElementOffset(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + i * es); return; }
  if (t->isVectorTy()) { auto* vt = cast<FixedVectorType>(t); uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + i * es); return; }
  Val v = constVal(c); unsigned n = DL->getTypeStoreSize(t); memcpy(&o->d[off], &v.c, n);
}
enum Builtin { B_NONE = -1,
  B_SYM_U8, B_SYM_BITS, B_SYM_DOUBLE, B_CHOICE, B_ASSUME, B_ASSERT, B_REACH, B_PARAM, B_ENGINE, B_FAIL, B_CONC, B_NOTE, B_ISREAL, B_MERGE_AND, B_MERGE_OR,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_MEMCPY, B_MEMSET, B_MEMCMP, B_MEMCHR, B_STRCHR, B_NOP0, B_RET1, B_ABORT, B_TERMINATE, B_EXIT,
  B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_GUARD_ACQ, B_ATEXIT, B_PUREVIRT, B_DYNCAST,
  B_VASTART, B_VACOPY, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_UADDO, B_SADDO, B_USUBO, B_SSUBO, B_UMULO, B_SMULO, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_FSHL, B_FSHR, B_USUBSAT, B_UADDSAT,
  B_EXPECT, B_TYPEIDFOR, B_OBJSIZE, B_LIFETIME, B_TRAP, B_STACKSAVE, B_ISCONST,
  B_FABS, B_SQRT, B_FLOOR, B_CEIL, B_TRUNC, B_ROUND, B_RINT, B_FMA, B_FMINMAX_MIN, B_FMINMAX_MAX, B_COPYSIGN, B_FMOD, B_MATH1, B_MATH2, B_POWI, B_FMTDBL, B_STRTOD, B_LROUND, B_ISFPCLASS, B_TYPENAME, B_DEBUG };
static unordered_map<string, int> bmap;
static void initBuiltins() {
  auto add = [](std::initializer_list<const char*> ns, int b) { for (auto n : ns) bmap[n] = b; };
  add({ "vp_sym_u8" }, B_SYM_U8); add({ "vp_sym_bits" }, B_SYM_BITS); add({ "vp_sym_double" }, B_SYM_DOUBLE); add({ "vp_choice" }, B_CHOICE); add({ "vp_assume" }, B_ASSUME); add({ "vp_assert_" }, B_ASSERT);
  add({ "vp_reach" }, B_REACH); add({ "vp_param" }, B_PARAM); add({ "vp_symbolic" }, B_ENGINE); add({ "vp_conc" }, B_CONC); add({ "vp_is_real" }, B_ISREAL); add({ "vp_and" }, B_MERGE_AND); add({ "vp_or" }, B_MERGE_OR); add({ "vp_debug" }, B_DEBUG);
  add({ "malloc" }, B_MALLOC); add({ "calloc" }, B_CALLOC); add({ "realloc" }, B_REALLOC); add({ "free" }, B_FREE); add({ "_Znwm", "_ZnwmRKSt9nothrow_t" }, B_NEW); add({ "_Znam", "_ZnamRKSt9nothrow_t" }, B_NEWA);
  add({ "_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t" }, B_DEL); add({ "_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t" }, B_DELA);
  add({ "memcpy", "memmove" }, B_MEMCPY); add({ "memset" }, B_MEMSET); add({ "memcmp", "bcmp" }, B_MEMCMP); add({ "memchr" }, B_MEMCHR); add({ "strchr" }, B_STRCHR);
  add({ "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_once", "fflush", "setlocale", "pthread_mutex_init", "pthread_mutex_destroy", "tzset" }, B_NOP0);
  add({ "abort", "__assert_fail", "__stack_chk_fail" }, B_ABORT); add({ "_ZSt9terminatev", "_ZSt10unexpectedv", "__cxa_call_unexpected", "__cxa_bad_typeid", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length" }, B_TERMINATE); add({ "exit", "_exit", "_Exit" }, B_EXIT);
  add({ "__cxa_allocate_exception" }, B_CXA_ALLOC); add({ "__cxa_free_exception" }, B_CXA_FREE); add({ "__cxa_throw" }, B_CXA_THROW); add({ "__cxa_begin_catch", "__cxa_get_exception_ptr" }, B_CXA_BEGIN); add({ "__cxa_end_catch" }, B_CXA_END); add({ "__cxa_rethrow" }, B_CXA_RETHROW);
  add({ "__cxa_guard_acquire" }, B_GUARD_ACQ); add({ "__cxa_guard_release", "__cxa_guard_abort", "atexit", "__cxa_thread_atexit" }, B_ATEXIT); add({ "__cxa_pure_virtual" }, B_PUREVIRT); add({ "__dynamic_cast" }, B_DYNCAST);
  add({ "fabs", "fabsf" }, B_FABS); add({ "sqrt", "sqrtf" }, B_SQRT); add({ "floor", "floorf" }, B_FLOOR); add({ "ceil", "ceilf" }, B_CEIL); add({ "trunc", "truncf" }, B_TRUNC); add({ "round", "roundf" }, B_ROUND); add({ "rint", "nearbyint" }, B_RINT);
  add({ "fmin", "fminf" }, B_FMINMAX_MIN); add({ "fmax", "fmaxf" }, B_FMINMAX_MAX); add({ "copysign", "copysignf" }, B_COPYSIGN); add({ "fmod", "fmodf" }, B_FMOD); add({ "fma" }, B_FMA);
  add({ "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "log2", "exp2", "sinh", "cosh", "tanh", "cbrt", "sinf", "cosf", "tanf", "expf", "logf", "asinf", "acosf", "atanf", "log1p", "expm1" }, B_MATH1);
  add({ "pow", "atan2", "hypot", "powf", "atan2f", "hypotf", "ldexp", "fdim", "remainder" }, B_MATH2); add({ "lround", "llround", "lroundf", "lrint" }, B_LROUND);
  add({ "vp_fmt_double" }, B_FMTDBL); add({ "vp_strtod" }, B_STRTOD); add({ "vp_type_name" }, B_TYPENAME);
}
static int builtinOf(const Function* F) {
  StringRef n = F->getName();
  if (n.starts_with("llvm.")) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memset: return B_MEMSET;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::prefetch: return B_LIFETIME;
      case Intrinsic::umax: return B_UMAX; case Intrinsic::umin: return B_UMIN; case Intrinsic::smax: return B_SMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::abs: return B_ABS;
      case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::sadd_with_overflow: return B_SADDO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::umul_with_overflow: return B_UMULO; case Intrinsic::smul_with_overflow: return B_SMULO;
      case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::bswap: return B_BSWAP; case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR; case Intrinsic::usub_sat: return B_USUBSAT; case Intrinsic::uadd_sat: return B_UADDSAT;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: return B_EXPECT;
      case Intrinsic::eh_typeid_for: return B_TYPEIDFOR; case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return B_TRAP; case Intrinsic::stacksave: return B_STACKSAVE; case Intrinsic::is_constant: return B_ISCONST;
      case Intrinsic::vastart: return B_VASTART; case Intrinsic::vacopy: return B_VACOPY;
      case Intrinsic::fabs: return B_FABS; case Intrinsic::sqrt: return B_SQRT; case Intrinsic::floor: return B_FLOOR; case Intrinsic::ceil: return B_CEIL; case Intrinsic::trunc: return B_TRUNC; case Intrinsic::round: return B_ROUND; case Intrinsic::rint: case Intrinsic::nearbyint: return B_RINT;
      case Intrinsic::fma: case Intrinsic::fmuladd: return B_FMA; case Intrinsic::minnum: case Intrinsic::minimum: return B_FMINMAX_MIN; case Intrinsic::maxnum: case Intrinsic::maximum: return B_FMINMAX_MAX; case Intrinsic::copysign: return B_COPYSIGN; case Intrinsic::powi: return B_POWI;
      case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: return B_MATH1; case Intrinsic::pow: return B_MATH2; case Intrinsic::lround: case Intrinsic::llround: return B_LROUND; case Intrinsic::is_fpclass: return B_ISFPCLASS;
      default: return B_NONE;
    }
  }
  auto it = bmap.find(n.str()); return it == bmap.end() ? B_NONE : it->second;
}
static void decode(FnInfo* f) {
  if (f->decoded) return; f->decoded = true; Function* F = f->F; if (F->isDeclaration()) return;
  unordered_map<const Value*, int> reg; unordered_map<const Value*, int> cidx; unordered_map<const BasicBlock*, int> bbi; int n = 0;
  for (auto& A : F->args()) { reg[&A] = n++; if (A.hasByValAttr()) f->byval.push_back({ A.getArgNo(), (uint64_t)DL->getTypeAllocSize(A.getParamByValType()) }); }
  for (auto& B : *F) { bbi[&B] = bbi.size(); for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  f->nregs = n;
  auto opn = [&](const Value* v) -> Opnd {
    auto it = reg.find(v); if (it != reg.end()) return { it->second };
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return { INT32_MIN };
    auto ci = cidx.find(v); if (ci != cidx.end()) return { ci->second };
    Val cvv; try { cvv = constVal(cast<Constant>(v)); } catch (Unsupported& u) { cvv = Val{ UNDEFV, 1 }; }
    f->consts.push_back(cvv); int id = -(int)f->consts.size(); cidx[v] = id; return { id };
  };
  for (auto& B : *F) {
    f->blocks.emplace_back(); PBlock& pb = f->blocks.back(); pb.bb = &B;
    for (auto& I : B) {
      if (auto* ph = dyn_cast<PHINode>(&I)) { PPhi p; p.dst = reg[ph]; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) p.in.push_back({ bbi[ph->getIncomingBlock(i)], opn(ph->getIncomingValue(i)) }); pb.phis.push_back(p); continue; }
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { if (builtinOf(ii->getCalledFunction()) == B_LIFETIME) continue; }
      PInst p; p.op = I.getOpcode(); p.I = &I; if (!I.getType()->isVoidTy()) { p.dst = reg[&I]; p.ty = I.getType(); p.w = tyW(I.getType()); }
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) { p.ops.push_back(opn(a.get())); p.argw.push_back(tyW(a->getType())); }
        Value* cal = cb->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliaseeObject();
        p.nfixed = cb->getFunctionType()->getNumParams();
        if (auto* cf = dyn_cast<Function>(cal)) { p.callee = fnInfo(cf); p.builtin = builtinOf(cf); p.callee->builtin = p.builtin; }
        else p.ops.push_back(opn(cb->getCalledOperand()));
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { p.succ = { bbi[iv->getNormalDest()], bbi[iv->getUnwindDest()] }; }
        else if (!isa<CallInst>(&I)) p.op = Instruction::Unreachable;
        pb.ins.push_back(std::move(p)); continue;
      }
      for (auto& o : I.operands()) p.ops.push_back(opn(o.get()));
      if (I.getNumOperands()) p.ow = tyW(I.getOperand(0)->getType());
      switch (p.op) {
        case Instruction::Br: { auto* b = cast<BranchInst>(&I); for (unsigned i = 0; i < b->getNumSuccessors(); i++) p.succ.push_back(bbi[b->getSuccessor(i)]); p.flag = b->isConditional(); break; }
        case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); p.succ.push_back(bbi[s->getDefaultDest()]); for (auto& c : s->cases()) p.cases.push_back({ c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()] }); break; }
        case Instruction::ICmp: case Instruction::FCmp: p.sub = cast<CmpInst>(&I)->getPredicate(); break;
        case Instruction::GetElementPtr: {
          auto* g = cast<GetElementPtrInst>(&I); int64_t off = 0; unsigned oi = 1;
          for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt, ++oi) {
            Value* ix = gt.getOperand();
            if (auto* stt = gt.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
            else { int64_t sz = DL->getTypeAllocSize(gt.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz; else { p.gep.push_back({ opn(ix), sz }); p.gw.push_back(tyW(ix->getType())); } }
          }
          p.imm = off; break; }
        case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); p.imm = DL->getTypeAllocSize(a->getAllocatedType()); break; }
        case Instruction::Store: p.ty = I.getOperand(0)->getType(); p.w = tyW(p.ty); break;
        case Instruction::ExtractValue: for (unsigned x : cast<ExtractValueInst>(&I)->indices()) p.idx.push_back(x); break;
        case Instruction::InsertValue: for (unsigned x : cast<InsertValueInst>(&I)->indices()) p.idx.push_back(x); break;
        default: break;
      }
      pb.ins.push_back(std::move(p));
    }
  }
}

// ---------------------------------------------------------------- constraints
static const std::bitset<256>& truthTable(Ex c) {
  static unordered_map<Ex, std::bitset<256>> memo; auto it = memo.find(c); if (it != memo.end()) return it->second;
  std::bitset<256> b; unsigned v = (*c->vars)[0]; for (unsigned i = 0; i < 256; i++) { Evaluator ev; ev.one = v; ev.oneVal = i; if (ev.eval(c)) b[i] = 1; }
  return memo[c] = b;
}
static inline bool unary8(Ex c) { return c->vars->size() == 1 && g_vars[(*c->vars)[0]].w == 8 && !g_vars[(*c->vars)[0]].fp; }
static Dom* findDom(State& s, unsigned v) { for (auto& d : s.doms) if (d.var == v) return &d; return nullptr; }
static vector<Ex> g_varEx; // variable id -> expression
static Ex newVar(const string& n, unsigned w, bool fp, bool hidden) { Ex e = mkVar(n, w, fp, hidden); g_varEx.resize(g_vars.size()); g_varEx[e->off] = e; return e; }
static Ex domEx(const Dom& d) {
  struct H { size_t operator()(const std::pair<unsigned, string>& p) const { return std::hash<string>()(p.second) ^ p.first; } };
  static std::unordered_map<std::pair<unsigned, string>, Ex, H> memo; std::pair<unsigned, string> key{ d.var, d.b.to_string() }; auto it = memo.find(key); if (it != memo.end()) return it->second;
  Ex v = g_varEx[d.var], r = mkFalse();
  for (int i = 0; i < 256;) { if (!d.b[i]) { i++; continue; } int j = i; while (j < 255 && d.b[j + 1]) j++; Ex c = i == j ? mkEq(v, mkConst(i, 8)) : mkAndB(mkCmp(K_ULE, mkConst(i, 8), v), mkCmp(K_ULE, v, mkConst(j, 8))); r = mkOrB(r, c); i = j + 1; }
  return memo[key] = r;
}
static uint64_t evalModel(State& s, Ex e) {
  static Evaluator evx; evx.memo.clear(); unordered_map<unsigned, uint64_t> a; for (unsigned v : *e->vars) a[v] = v < s.model.size() ? s.model[v] : 0; evx.asg = &a; return evx.eval(e);
}
static void applyModel(State& s, const Asg& a) { for (auto& p : a) { if (s.model.size() <= p.first) s.model.resize(p.first + 1, 0); s.model[p.first] = p.second; } }
// addition of a constraint already known to be consistent; the model must be updated by the caller
static void addCons(State& s, Ex c) {
  if (isTrue(c)) return;
  if (c->k == K_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  if (unary8(c)) { unsigned v = (*c->vars)[0]; Dom* d = findDom(s, v); if (!d) { s.doms.push_back({ v, truthTable(c) }); } else d->b &= truthTable(c); return; }
  for (Ex m : s.multi) if (m == c) return;
  s.multi.push_back(c);
}
static void slice(State& s, Ex q, vector<Ex>& out) {
  std::set<unsigned> vs(q->vars->begin(), q->vars->end()); vector<char> used(s.multi.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.multi.size(); i++) if (!used[i]) { bool hit = false; for (unsigned v : *s.multi[i]->vars) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; vs.insert(s.multi[i]->vars->begin(), s.multi[i]->vars->end()); out.push_back(s.multi[i]); } } }
  for (auto& d : s.doms) if (vs.count(d.var)) out.push_back(domEx(d));
  out.push_back(q);
}
struct CacheEnt { Sat r; Asg m; };
struct VH { size_t operator()(const vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 0x9E3779B97F4A7C15ull + x; return h; } };
static std::unordered_map<vector<uint32_t>, CacheEnt, VH> qcache;
static bool isHard(Ex e) { static unordered_map<Ex, char> memo; if (!e || e->k == K_CONST || e->k == K_VAR) return false; auto it = memo.find(e); if (it != memo.end()) return it->second; bool r = (e->w >= 32 && (e->k == K_UDIV || e->k == K_SDIV || e->k == K_UREM || e->k == K_SREM || e->k == K_MUL)) || isHard(e->a) || isHard(e->b) || isHard(e->d); return memo[e] = r; }
// is s && q satisfiable? on SAT fills asg with values for a subset of the variables such that model+asg satisfies s && q
static Sat query(State& s, Ex q, Asg& asg) {
  asg.clear();
  if (isTrue(q)) return SAT; if (isFalse(q)) return UNSAT;
  if (unary8(q)) {
    unsigned v = (*q->vars)[0]; Dom* d = findDom(s, v); std::bitset<256> b = truthTable(q); if (d) b &= d->b;
    if (b.none()) { // pruning is only done on the SMT solver's verdict; the finite-domain result selects the query
      g_sst.domain++; struct DK { std::bitset<256> b; Ex q; bool operator==(const DK& o) const { return q == o.q && b == o.b; } };
      struct DH { size_t operator()(const DK& k) const { return std::hash<std::bitset<256>>()(k.b) ^ ((size_t)k.q * 0x9E3779B97F4A7C15ull); } };
      static std::unordered_map<DK, Sat, DH> dcache; DK k; if (d) k.b = d->b; else k.b.set(); k.q = q; auto it = dcache.find(k);
      if (it != dcache.end()) { g_sst.cacheHits++; return it->second; }
      if (isHard(q)) { nDomOnly++; return dcache[k] = UNSAT; } // division/multiplication chains: exhaustive evaluation over the byte's domain stands on its own
      vector<Ex> cs; if (d) cs.push_back(domEx(*d)); cs.push_back(q); Asg tmp; unsigned qt = g_qtimeout; g_qtimeout = std::min(qt, 300u); Sat r = solveZ3(cs, &tmp); g_qtimeout = qt;
      if (r == UNKNOWN) { nDomOnly++; r = UNSAT; } // exhaustive evaluation over the byte's domain stands on its own
      if (r == SAT) throw Unsupported{ "internal: finite-domain verdict contradicted by the SMT solver" };
      return dcache[k] = r; }
    bool inMulti = false; for (Ex m : s.multi) if (std::binary_search(m->vars->begin(), m->vars->end(), v)) { inMulti = true; break; }
    uint64_t cur = v < s.model.size() ? s.model[v] : 0;
    if (!inMulti) { g_sst.domain++; if (!b[cur]) asg.push_back({ v, (uint64_t)b._Find_first() }); return SAT; }
    if (b[cur] && !g_real) { g_sst.model++; return SAT; }
  } else if (!g_real && evalModel(s, q)) { g_sst.model++; return SAT; }
  vector<Ex> cs; slice(s, q, cs);
  vector<uint32_t> key; for (Ex c : cs) key.push_back(c->id); std::sort(key.begin(), key.end());
  auto it = qcache.find(key); if (it != qcache.end()) { g_sst.cacheHits++; asg = it->second.m; return it->second.r; }
  Sat r = solveZ3(cs, &asg); if (qcache.size() > 200000) qcache.clear(); qcache[key] = { r, asg };
  return r;
}
static string whereOf(State& s) {
  for (int i = (int)s.st.size() - 1; i >= 0; i--) { Frame& f = s.st[i]; PBlock& b = f.f->blocks[f.bb]; int pc = std::min<int>(f.pc, b.ins.size() - 1); if (pc < 0) continue; if (auto dl = b.ins[pc].I->getDebugLoc()) {
    const DILocation* l = dl.get(); while (l) { string fn = l->getFilename().str(); string full = fn[0] == '/' ? fn : l->getDirectory().str() + "/" + fn; if (full.find(optRepo) != string::npos || full.find("/harness/") != string::npos) return full + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); } } }
  return "?";
}
static string stackOf(State& s) { string r; int n = 0; for (int i = (int)s.st.size() - 1; i >= 0 && n < 14; i--, n++) { string d = llvm::demangle(s.st[i].f->name); if (d.size() > 90) d = d.substr(0, 90) + "~"; Frame& f = s.st[i]; PBlock& b = f.f->blocks[f.bb]; int pc = std::min<int>(f.pc, b.ins.size() - 1); unsigned line = 0; if (pc >= 0) if (auto dl = b.ins[pc].I->getDebugLoc()) line = dl->getLine(); r += (r.empty() ? "" : " < ") + d + ":" + std::to_string(line); } return r; }
static bool stopAll = false;
static void report(State& s, const string& kind, const string& msg, Ex extra) {
  string where = whereOf(s); string key = kind + "|" + msg + "|" + where;
  unsigned same = 0; for (auto& e : errors) if (e.kind + "|" + e.msg + "|" + e.where == key) { e.count++; same++; }
  if (same >= 3) return; // keep at most three witnesses per site
  ErrRec r; r.kind = kind; r.msg = msg; r.where = where; r.stack = stackOf(s);
  // full model
  Asg a; State* t = nullptr; vector<uint64_t> model = s.model;
  vector<Ex> cs = s.multi; for (auto& d : s.doms) cs.push_back(domEx(d)); if (extra) cs.push_back(extra);
  bool need = g_real || (extra && !evalModel(s, extra));
  if (need && !cs.empty()) { Sat q = solveZ3(cs, &a); if (q == UNSAT) return; for (auto& p : a) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; } }
  (void)t;
  for (unsigned v : s.symlog) { r.syms.push_back({ g_vars[v].name, v < model.size() ? model[v] : 0 }); r.widths.push_back(g_vars[v].w); }
  for (Ex c : cs) for (unsigned v : *c->vars) if (g_vars[v].hidden) r.hiddenDep = true;
  errors.push_back(r); if (optVerbose) std::cerr << "ERROR " << kind << ": " << msg << " at " << where << "\n  " << r.stack << "\n";
  std::set<string> keys; for (auto& e : errors) keys.insert(e.kind + e.msg + e.where); if (keys.size() >= optMaxErr) stopAll = true;
}
// make cond concrete in s: fork when both sides are possible. Returns the value taken by s.
static bool branchOn(State& s, Ex c, bool advanceOther = false) {
  if (isC(c)) return c->c;
  Asg at, af; Sat st, sf;
  if (!g_real) {
    bool mv = evalModel(s, c);
    if (mv) { st = SAT; sf = query(s, mkNot(c), af); } else { sf = SAT; st = query(s, c, at); }
  } else { st = query(s, c, at); sf = st == UNSAT ? SAT : query(s, mkNot(c), af); }
  if (st == UNKNOWN || sf == UNKNOWN) unknowns["branch at " + whereOf(s)]++;
  bool pT = st != UNSAT, pF = sf != UNSAT;
  if (pT && pF) {
    State* o = cloneState(s); nForks++; s.depth++; o->depth++; maxDepth = std::max(maxDepth, s.depth);
    applyModel(*o, af); addCons(*o, mkNot(c)); o->conc.push_back({ c, 0 }); work.push_back(o);
    applyModel(s, at); addCons(s, c); s.conc.push_back({ c, 1 }); return true;
  }
  if (pT) { applyModel(s, at); return true; }
  applyModel(s, af); return false;
}
static bool decide(State& s, Ex c) { // memoised per path so that re-execution is deterministic
  if (isC(c)) return c->c; for (auto& p : s.conc) if (p.first == c) return p.second; return branchOn(s, c);
}
static bool decide(State& s, Ex c);
static bool onReals(Ex e) { static std::unordered_map<Ex, char> m; if (!e) return false; auto it = m.find(e); if (it != m.end()) return it->second; bool r = e->k == K_FEQ || e->k == K_FLT || e->k == K_FLE || onReals(e->a) || onReals(e->b) || onReals(e->d); m[e] = r; return r; }
static uint64_t concretize(State& s, Ex e) {
  if (isC(e)) return e->c; for (auto& p : s.conc) if (p.first == e) return p.second;
  if (g_real) { // an integer chosen by comparisons of reals: decide the comparisons, then it is a constant
    vector<Ex> atoms; bool pure = true; std::set<Ex> seen; std::function<void(Ex)> f = [&](Ex x) { if (!x || !seen.insert(x).second) return; if (x->k == K_FEQ || x->k == K_FLT || x->k == K_FLE) { atoms.push_back(x); return; } if (x->k == K_VAR) { pure = false; return; } f(x->a); f(x->b); f(x->d); };
    f(e);
    if (pure && !atoms.empty()) { Evaluator ev2; static const std::unordered_map<unsigned, uint64_t> none; ev2.asg = &none; for (Ex t : atoms) ev2.memo[t] = decide(s, t); uint64_t v = ev2.eval(e); s.conc.push_back({ e, v }); return v; }
  }
  if (g_real) {
    // need a model that fits the current path
    Asg a; vector<Ex> cs; slice(s, mkEq(e, e) == mkTrue() ? mkCmp(K_ULE, e, mkConst(maskw(e->w), e->w)) : mkTrue(), cs);
    vector<Ex> all = s.multi; for (auto& d : s.doms) all.push_back(domEx(d)); Sat q = all.empty() ? SAT : solveZ3(all, &a); if (q == SAT) applyModel(s, a);
  }
  uint64_t v = evalModel(s, e); Ex eq = mkEq(e, mkConst(v, e->w)); Asg an; Sat o = query(s, mkNot(eq), an);
  if (o == UNKNOWN) unknowns["concretize at " + whereOf(s)]++;
  if (o == SAT || (o == UNKNOWN && !g_real)) { State* n = cloneState(s); nForks++; n->depth++; s.depth++; maxDepth = std::max(maxDepth, s.depth); applyModel(*n, an); addCons(*n, mkNot(eq)); work.push_back(n); addCons(s, eq); }
  s.conc.push_back({ e, v }); return v;
}
static uint64_t conc(State& s, const Val& v) { return v.e ? concretize(s, v.e) : v.c; }

// ---------------------------------------------------------------- memory access
static Obj* lookup(State& s, uint64_t addr, uint64_t& off, Obj*** slot = nullptr) {
  unsigned rg = addr >> RGSH; uint64_t id = (addr >> IDSH) & ((1ull << (RGSH - IDSH)) - 1); off = addr & ((1ull << IDSH) - 1);
  switch (rg) {
    case RG_GLOBAL: if (id == 0 || id > gById.size()) return nullptr; if (gConst[id - 1]) return gConst[id - 1]; if (slot) *slot = &s.glob[id - 1]; return s.glob[id - 1];
    case RG_HEAP: if (id == 0 || id > s.heap.size()) return nullptr; if (slot) *slot = &s.heap[id - 1]; return s.heap[id - 1];
    case RG_STACK: { uint64_t ix = id & 0xfff; unsigned g = id >> 12; if (ix >= s.stk.size() || !s.stk[ix] || s.stk[ix]->gen != g) return nullptr; if (slot) *slot = &s.stk[ix]; return s.stk[ix]; }
  }
  return nullptr;
}
static string addrDesc(uint64_t a) { unsigned rg = a >> RGSH; if (a < 0x10000) return "null pointer access"; if (rg == RG_HEAP) return "use of freed or invalid heap memory"; if (rg == RG_STACK) return "use of a dead stack variable"; return "wild pointer access"; }
static Obj* access(State& s, uint64_t addr, uint64_t n, bool write, uint64_t& off) {
  Obj** slot = nullptr; Obj* o = lookup(s, addr, off, &slot);
  if (!o) throw PathError{ "memory", addrDesc(addr) };
  if (off + n > o->size) throw PathError{ "memory", string(write ? "out-of-bounds write" : "out-of-bounds read") };
  if (write) { if (!slot) throw PathError{ "memory", "write to read-only memory" }; if (o->refs > 1) { Obj* c = new Obj(*o); c->refs = 1; o->refs--; *slot = c; o = c; } }
  return o;
}
static uint64_t newObj(State& s, uint64_t size, bool uninit, int kind) { Obj* o = new Obj(size, uninit); o->allocKind = kind; s.heap.push_back(o); return mkAddr(RG_HEAP, s.heap.size()); }
static uint64_t newStack(State& s, uint64_t size) { Obj* o = new Obj(size, true); s.gen = (s.gen + 1) & 0x3ff; o->gen = s.gen; s.stk.push_back(o); if (s.stk.size() >= 4096) throw PathError{ "memory", "stack exhausted" }; return mkAddr(RG_STACK, ((uint64_t)o->gen << 12) | (s.stk.size() - 1)); }
static Ex hiddenVar(State& s, unsigned w) { static std::map<std::pair<unsigned, unsigned>, Ex> memo; auto k = std::make_pair(s.nhidden++, w); auto it = memo.find(k); if (it != memo.end()) return it->second; return memo[k] = newVar("hidden" + std::to_string(k.first), w, g_real && w >= 32, true); }
static Val loadBytes(State& s, Obj* o, uint64_t off, unsigned n, unsigned w, uint64_t addr) {
  if (o->s.empty()) { uint64_t v = 0; memcpy(&v, &o->d[off], n); return cv(v & maskw(w)); }
  bool sym = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { uint64_t v = 0; memcpy(&v, &o->d[off], n); return cv(v & maskw(w)); }
  // uninitialised bytes become hidden variables, and stay so
  bool allUn = true; for (unsigned i = 0; i < n; i++) if (o->s[off + i] != UNINIT) allUn = false;
  for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNINIT) {
    uint64_t o2; Obj* wo = access(s, addr, n, true, o2); o = wo;
    if (allUn && (n == 4 || n == 8)) { Ex h = hiddenVar(s, n * 8); for (unsigned j = 0; j < n; j++) { o->s[off + j] = mkExtract(h, j * 8, 8); } break; }
    o->s[off + i] = hiddenVar(s, 8);
  }
  Ex r = nullptr; for (unsigned i = 0; i < n; i++) { Ex b = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8); r = r ? mkConcat(b, r) : b; }
  return ev(w < n * 8 ? mkExtract(r, 0, w) : r);
}
static void storeBytes(Obj* o, uint64_t off, unsigned n, const Val& v, unsigned w) {
  if (!v.e) { memcpy(&o->d[off], &v.c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  Ex e = w < n * 8 ? mkZExt(v.e, n * 8) : v.e;
  for (unsigned i = 0; i < n; i++) { Ex b = mkExtract(e, i * 8, 8); if (isC(b)) { o->d[off + i] = b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static Val freshUndef(State& s, unsigned w) { if (w == 0 || w > 64) return cv(0); return Val{ hiddenVar(s, w), 0 }; }
// resolve a symbolic address to (object, set of offsets); may fork. returns concrete base object address
static Val loadSym(State& s, Ex addr, unsigned n, unsigned w) {
  for (auto& p : s.conc) if (p.first == addr) { uint64_t off; Obj* o = access(s, p.second, n, false, off); return loadBytes(s, o, off, n, w, p.second); }
  uint64_t v = evalModel(s, addr), off; if (g_real) v = concretize(s, addr);
  Obj* o = lookup(s, v, off);
  if (!o || off + n > o->size) { // an invalid access is possible: isolate it
    uint64_t c = concretize(s, addr); Obj* oo = access(s, c, n, false, off); return loadBytes(s, oo, off, n, w, c);
  }
  uint64_t base = v - off; 
  if (o->size > 600 || n > 8) { uint64_t c = concretize(s, addr); Obj* oo = access(s, c, n, false, off); return loadBytes(s, oo, off, n, w, c); }
  Ex inb = mkCmp(K_ULE, mkBin(K_SUB, addr, mkConst(base, 64)), mkConst(o->size - n, 64));
  if (!decide(s, inb)) throw Restart{}; // cannot happen for the current model, defensive
  // which offsets are possible: enumerate by evaluation for a single byte variable, otherwise by stride
  vector<uint64_t> offs;
  if (addr->vars->size() == 1 && g_vars[(*addr->vars)[0]].w == 8) {
    unsigned var = (*addr->vars)[0]; Dom* d = findDom(s, var); std::set<uint64_t> so; for (unsigned i = 0; i < 256; i++) if (!d || d->b[i]) { Evaluator ev; ev.one = var; ev.oneVal = i; uint64_t a = ev.eval(addr); if (a >= base && a + n <= base + o->size) so.insert(a - base); } offs.assign(so.begin(), so.end());
  } else {
    std::function<bool(Ex, std::set<uint64_t>&)> leaves = [&](Ex e, std::set<uint64_t>& out) { if (e->k == K_CONST) { out.insert(e->c); return true; } if (e->k == K_ITE) return leaves(e->b, out) && leaves(e->d, out); return false; };
    std::set<uint64_t> lv; if (addr->leaves && addr->leaves < 500 && leaves(addr, lv)) { for (uint64_t a : lv) if (a >= base && a + n <= base + o->size) offs.push_back(a - base); }
    else { uint64_t c = concretize(s, addr); Obj* oo = access(s, c, n, false, off); return loadBytes(s, oo, off, n, w, c); }
  }
  Ex r = nullptr; for (uint64_t of : offs) { uint64_t o2; o = lookup(s, base + of, o2); Val x = loadBytes(s, o, of, n, w, base + of); Ex xe = toEx(x, w); r = r ? mkIte(mkEq(addr, mkConst(base + of, 64)), xe, r) : xe; }
  return ev(r);
}
static Val loadVal(State& s, const Val& a, Type* ty, unsigned w);
static Val loadTy(State& s, uint64_t addr, Type* ty) {
  if (ty->isStructTy()) { AggV v; auto* sl = DL->getStructLayout(cast<StructType>(ty)); for (unsigned i = 0; i < ty->getStructNumElements(); i++) v.push_back(loadTy(s, addr + sl->getElementOffset(i), ty->getStructElementType(i))); return aggv(std::move(v)); }
  if (ty->isArrayTy()) { AggV v; uint64_t es = DL->getTypeAllocSize(ty->getArrayElementType()); for (unsigned i = 0; i < ty->getArrayNumElements(); i++) v.push_back(loadTy(s, addr + i * es, ty->getArrayElementType())); return aggv(std::move(v)); }
  if (auto* vt = dyn_cast<FixedVectorType>(ty)) { AggV v; uint64_t es = DL->getTypeStoreSize(vt->getElementType()); if (tyW(vt->getElementType()) % 8) throw Unsupported{ "bit vector load" }; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadTy(s, addr + i * es, vt->getElementType())); return aggv(std::move(v)); }
  unsigned w = tyW(ty), n = (w + 7) / 8; if (w == 0 || w > 64) throw Unsupported{ "load of unsupported type" };
  uint64_t off; Obj* o = access(s, addr, n, false, off); return loadBytes(s, o, off, n, w, addr);
}
static Val loadVal(State& s, const Val& a, Type* ty, unsigned w) {
  if (!a.e) { if (w && w <= 64) { unsigned n = (w + 7) / 8; uint64_t off; Obj* o = access(s, a.c, n, false, off); return loadBytes(s, o, off, n, w, a.c); } return loadTy(s, a.c, ty); }
  if (w && w <= 64 && !g_real) return loadSym(s, a.e, (w + 7) / 8, w);
  return loadTy(s, concretize(s, a.e), ty);
}
static void storeVal(State& s, uint64_t addr, const Val& v, Type* ty) {
  if (v.e == AGG) {
    const AggV& a = agg(v);
    if (ty->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(ty)); for (unsigned i = 0; i < a.size(); i++) storeVal(s, addr + sl->getElementOffset(i), a[i], ty->getStructElementType(i)); return; }
    Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType(); uint64_t es = ty->isArrayTy() ? DL->getTypeAllocSize(et) : DL->getTypeStoreSize(et);
    for (unsigned i = 0; i < a.size(); i++) storeVal(s, addr + i * es, a[i], et); return;
  }
  unsigned w = tyW(ty), n = (w + 7) / 8; if (w == 0 || w > 64) throw Unsupported{ "store of unsupported type" };
  uint64_t off; Obj* o = access(s, addr, n, true, off);
  if (v.e == UNDEFV) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (unsigned i = 0; i < n; i++) o->s[off + i] = UNINIT; return; }
  storeBytes(o, off, n, v, w);
}
static void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
  if (n == 0) return; uint64_t so, dof; Obj* a = access(s, src, n, false, so); a->refs++; // keep alive across COW
  Obj* b; try { b = access(s, dst, n, true, dof); } catch (...) { rel(a); throw; }
  if (b == a || true) { // same object allowed (memmove semantics)
    vector<uint8_t> t(a->d.begin() + so, a->d.begin() + so + n); vector<Ex> ts; if (!a->s.empty()) ts.assign(a->s.begin() + so, a->s.begin() + so + n);
    memcpy(&b->d[dof], t.data(), n);
    bool any = false; for (Ex e : ts) if (e) { any = true; break; }
    if (any) { if (b->s.empty()) b->s.assign(b->size, nullptr); std::copy(ts.begin(), ts.end(), b->s.begin() + dof); }
    else if (!b->s.empty()) std::fill(b->s.begin() + dof, b->s.begin() + dof + n, nullptr);
  }
  rel(a);
}
static string readCStr(State& s, uint64_t a) { string r; for (int i = 0; i < 400; i++) { uint64_t off; Obj* o = access(s, a + i, 1, false, off); char c = o->s.empty() || !o->s[off] ? o->d[off] : '?'; if (!c) break; r += c; } return r; }

// ---------------------------------------------------------------- exceptions
static string tiName(uint64_t ti) { uint64_t id = (ti >> IDSH) & ((1ull << (RGSH - IDSH)) - 1); if ((ti >> RGSH) != RG_GLOBAL || !id || id > gById.size()) return "?"; return gById[id - 1]->getName().str(); }
static uint64_t readPtr(State& s, uint64_t a) { uint64_t off; Obj* o = access(s, a, 8, false, off); uint64_t v; memcpy(&v, &o->d[off], 8); return v; }
static bool tiDerived(State& s, uint64_t t, uint64_t base, int64_t* adj = nullptr, int depth = 0) {
  if (t == base) return true; if (depth > 10) return false;
  uint64_t id = (t >> IDSH) & ((1ull << (RGSH - IDSH)) - 1); if ((t >> RGSH) != RG_GLOBAL || !id || id > gById.size() || !gById[id - 1]->hasInitializer()) return false;
  string vt = tiName(readPtr(s, t));
  if (vt.find("si_class_type_info") != string::npos && vt.find("vmi") == string::npos) return tiDerived(s, readPtr(s, t + 16), base, adj, depth + 1);
  if (vt.find("vmi_class_type_info") != string::npos) { uint64_t off; Obj* o = access(s, t + 20, 4, false, off); uint32_t n; memcpy(&n, &o->d[off], 4); for (uint32_t i = 0; i < n; i++) { int64_t fl = readPtr(s, t + 24 + i * 16 + 8); if (tiDerived(s, readPtr(s, t + 24 + i * 16), base, adj, depth + 1)) { if (adj) *adj += fl >> 8; return true; } } }
  return false;
}
static unsigned tiId(uint64_t ti) { return (unsigned)((ti >> IDSH) & 0x3fffff) + 1; }
static void enterBlock(State& s, Frame& f, int bb);
static void popFrame(State& s) { Frame& f = s.st.back(); while (s.stk.size() > f.stkBase) { rel(s.stk.back()); s.stk.pop_back(); } s.st.pop_back(); }
static void unwind(State& s) { // s.inflight set; the current frame's pc is at a throwing call
  uint64_t ti = 0; for (auto& x : s.excs) if (x.ptr == s.inflight) ti = x.ti;
  while (!s.st.empty()) {
    Frame& f = s.st.back(); const PInst& p = f.f->blocks[f.bb].ins[f.pc];
    if (p.op == Instruction::Invoke) {
      int lpb = p.succ[1]; auto* lp = f.f->blocks[lpb].bb->getLandingPadInst(); uint64_t sel = 0; bool match = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = 1; match = true; break; } uint64_t cti = constVal(c).c; if (tiDerived(s, ti, cti)) { sel = tiId(cti); match = true; break; } }
        else { match = true; sel = (uint64_t)-1 & 0xffffffff; break; }
      }
      if (match) { s.lpSel = sel; enterBlock(s, f, lpb); return; }
    } else if (cast<CallBase>(p.I)->doesNotThrow() && p.builtin == B_NONE) { throw PathError{ "exception", "exception escapes a noexcept function (std::terminate)" }; }
    popFrame(s);
  }
  string tn = tiName(ti); if (tn.substr(0, 4) == "_ZTI") { int st; char* d = abi::__cxa_demangle((tn.substr(4)).c_str(), nullptr, nullptr, &st); if (d) tn = d; }
  throw PathError{ "exception", "uncaught exception " + tn };
}

// ---------------------------------------------------------------- interpreter
static inline Val get(State& s, Frame& f, Opnd o) {
  if (o.r >= 0) { Val& v = f.regs[o.r]; if (v.e == UNDEFV) return v; return v; }
  return f.f->consts[-1 - o.r];
}
static inline Val getD(State& s, Frame& f, Opnd o, unsigned w) { Val v = get(s, f, o); if (v.e == UNDEFV) { if (v.c == 1) throw Unsupported{ "constant of unsupported kind" }; v = freshUndef(s, w); if (o.r >= 0) f.regs[o.r] = v; } return v; }
static void enterBlock(State& s, Frame& f, int bb) {
  PBlock& b = f.f->blocks[bb]; b.hit = true; int prev = f.bb;
  if (!b.phis.empty()) { static vector<Val> tmp; tmp.clear(); for (auto& p : b.phis) { for (auto& in : p.in) if (in.first == prev) { tmp.push_back(get(s, f, in.second)); break; } } for (size_t i = 0; i < b.phis.size(); i++) f.regs[b.phis[i].dst] = tmp[i]; }
  f.prev = prev; f.bb = bb; f.pc = 0;
}
static void pushFrame(State& s, FnInfo* fi, vector<Val>&& args, int retDst, unsigned nfixed) {
  decode(fi); fi->hit = true; if (s.st.size() > 1500) throw PathError{ "nontermination", "call depth exceeds 1500" };
  Frame f; f.f = fi; f.regs.resize(fi->nregs, Val{ UNDEFV, 0 }); f.stkBase = s.stk.size(); f.retDst = retDst;
  size_t np = fi->F->arg_size(); for (size_t i = 0; i < np && i < args.size(); i++) f.regs[i] = args[i];
  for (size_t i = np; i < args.size(); i++) f.varargs.push_back(args[i]);
  for (auto& bv : fi->byval) { uint64_t a = newStack(s, bv.second); copyMem(s, a, f.regs[bv.first].c, bv.second); f.regs[bv.first] = cv(a); }
  s.st.push_back(std::move(f)); Frame& g = s.st.back(); g.f->blocks[0].hit = true; g.bb = 0; g.pc = 0;
}
static Ex fcmpEx(unsigned pred, Ex a, Ex b) {
  switch (pred) {
    case CmpInst::FCMP_OEQ: return mkF2(K_FEQ, a, b); case CmpInst::FCMP_OGT: return mkF2(K_FLT, b, a); case CmpInst::FCMP_OGE: return mkF2(K_FLE, b, a); case CmpInst::FCMP_OLT: return mkF2(K_FLT, a, b); case CmpInst::FCMP_OLE: return mkF2(K_FLE, a, b);
    case CmpInst::FCMP_ONE: return mkAndB(mkNot(mkF2(K_FEQ, a, b)), mkNot(mkF2(K_FUNO, a, b))); case CmpInst::FCMP_ORD: return mkNot(mkF2(K_FUNO, a, b)); case CmpInst::FCMP_UNO: return mkF2(K_FUNO, a, b);
    case CmpInst::FCMP_UEQ: return mkOrB(mkF2(K_FEQ, a, b), mkF2(K_FUNO, a, b)); case CmpInst::FCMP_UGT: return mkNot(mkF2(K_FLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkF2(K_FLT, a, b)); case CmpInst::FCMP_ULT: return mkNot(mkF2(K_FLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkF2(K_FLT, b, a)); case CmpInst::FCMP_UNE: return mkNot(mkF2(K_FEQ, a, b));
    case CmpInst::FCMP_FALSE: return mkFalse(); default: return mkTrue();
  }
}
static Ex icmpEx(unsigned pred, Ex a, Ex b) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_UGT: return mkCmp(K_ULT, b, a); case CmpInst::ICMP_UGE: return mkCmp(K_ULE, b, a); case CmpInst::ICMP_ULT: return mkCmp(K_ULT, a, b); case CmpInst::ICMP_ULE: return mkCmp(K_ULE, a, b);
    case CmpInst::ICMP_SGT: return mkCmp(K_SLT, b, a); case CmpInst::ICMP_SGE: return mkCmp(K_SLE, b, a); case CmpInst::ICMP_SLT: return mkCmp(K_SLT, a, b); default: return mkCmp(K_SLE, a, b);
  }
}
static bool icmpC(unsigned pred, uint64_t a, uint64_t b, unsigned w) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w); case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); default: return sx(a, w) <= sx(b, w);
  }
}
static double dOf(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t dTo(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
// real mode: make floor/trunc/... of a real expression concrete, forking over its integer values
static int64_t concInt(State& s, Ex r, int mode, Ex key) { // mode 0 floor, 1 trunc toward zero, 2 round half away, 3 ceil
  for (auto& p : s.conc) if (p.first == key) return (int64_t)p.second;
  Asg a; vector<Ex> all = s.multi; for (auto& d : s.doms) all.push_back(domEx(d));
  if (!all.empty()) { Sat q = solveZ3(all, &a); if (q == SAT) applyModel(s, a); }
  double v = dOf(evalModel(s, r), r->w); int64_t k0 = mode == 0 ? (int64_t)std::floor(v) : mode == 1 ? (int64_t)v : mode == 2 ? (int64_t)std::llround(v) : (int64_t)std::ceil(v);
  auto D = [&](double x) { return mkConst(dTo(x, r->w), r->w); };
  auto range = [&](int64_t k) -> Ex {
    if (mode == 0) return mkAndB(mkF2(K_FLE, D(k), r), mkF2(K_FLT, r, D(k + 1)));
    if (mode == 3) return mkAndB(mkF2(K_FLT, D(k - 1), r), mkF2(K_FLE, r, D(k)));
    if (mode == 1) return k > 0 ? mkAndB(mkF2(K_FLE, D(k), r), mkF2(K_FLT, r, D(k + 1))) : k < 0 ? mkAndB(mkF2(K_FLT, D(k - 1), r), mkF2(K_FLE, r, D(k))) : mkAndB(mkF2(K_FLT, D(-1), r), mkF2(K_FLT, r, D(1)));
    return k > 0 ? mkAndB(mkF2(K_FLE, D(k - 0.5), r), mkF2(K_FLT, r, D(k + 0.5))) : k < 0 ? mkAndB(mkF2(K_FLT, D(k - 0.5), r), mkF2(K_FLE, r, D(k + 0.5))) : mkAndB(mkF2(K_FLT, D(-0.5), r), mkF2(K_FLT, r, D(0.5)));
  };
  for (int64_t dk : { 0, 1, -1, 2, -2 }) { // the model is a rounded rational: look around it for a consistent integer
    Ex c = range(k0 + dk); Asg m1, m2; Sat q = query(s, c, m1); if (q == UNSAT) continue;
    Sat o = query(s, mkNot(c), m2); if (q == UNKNOWN || o == UNKNOWN) unknowns["real rounding at " + whereOf(s)]++;
    if (o != UNSAT) { State* n = cloneState(s); nForks++; n->depth++; s.depth++; maxDepth = std::max(maxDepth, s.depth); addCons(*n, mkNot(c)); work.push_back(n); addCons(s, c); }
    s.conc.push_back({ key, (uint64_t)(k0 + dk) }); return k0 + dk;
  }
  throw Unsupported{ "real rounding: no consistent integer found" };
}
static std::map<Ex, Ex> acosArg; static std::map<Ex, std::pair<Ex, Ex>> polarArg; // arc cosines and polar angles by result
static Ex freshReal(State& s, const string& nm, Ex key1, Ex key2, unsigned w, bool& isNew) { static std::map<std::tuple<string, Ex, Ex>, Ex> memo; auto k = std::make_tuple(nm, key1, key2); auto it = memo.find(k); if (it != memo.end()) { isNew = false; return it->second; } isNew = true; return memo[k] = newVar(nm + "_" + std::to_string(key1->id), w, g_real, true); }
static bool hasCons(State& s, Ex c) { for (Ex m : s.multi) if (m == c) return true; return false; }
static Val fp1(State& s, int b, const Val& a, unsigned w, const string& fname) {
  Ex e = toEx(a, w);
  switch (b) {
    case B_FABS: return ev(mkF1(K_FABS, e, w));
    case B_SQRT: {
      Ex r = mkF1(K_FSQRT, e, w); if (!g_real || isC(r)) return ev(r);
      bool nw; Ex v = freshReal(s, "sqrt", e, nullptr, w, nw); Ex c1 = mkF2(K_FLE, mkConst(0, w), v), c2 = mkF2(K_FEQ, mkF2(K_FMUL, v, v), e); if (!hasCons(s, c2)) { addCons(s, c1); addCons(s, c2); } return ev(v); }
    case B_FLOOR: case B_CEIL: case B_TRUNC: case B_ROUND: case B_RINT: {
      Kind k = b == B_FLOOR ? K_FFLOOR : b == B_CEIL ? K_FCEIL : b == B_TRUNC ? K_FTRUNC : b == B_ROUND ? K_FROUND : K_FRINT; Ex r = mkF1(k, e, w); if (!g_real || isC(r)) return ev(r);
      int64_t n = concInt(s, e, b == B_FLOOR ? 0 : b == B_CEIL ? 3 : b == B_TRUNC ? 1 : 2, r); return cv(dTo((double)n, w)); }
  }
  return cv(0);
}
static Val fmodV(State& s, const Val& a, const Val& b, unsigned w) {
  Ex x = toEx(a, w), y = toEx(b, w); Ex r = mkF2(K_FREM, x, y); if (isC(r) || !g_real) return ev(r);
  Ex q = mkF2(K_FDIV, x, y); int64_t k = concInt(s, q, 1, r); return ev(mkF2(K_FSUB, x, mkF2(K_FMUL, mkConst(dTo((double)k, w), w), y)));
}
static double math1(const string& n, double x) {
  string b = n; if (b.substr(0, 5) == "llvm.") { b = b.substr(5); b = b.substr(0, b.find('.')); }
  if (!b.empty() && b.back() == 'f') b.pop_back();
  if (b == "sin") return sin(x); if (b == "cos") return cos(x); if (b == "tan") return tan(x); if (b == "asin") return asin(x); if (b == "acos") return acos(x); if (b == "atan") return atan(x); if (b == "exp") return exp(x); if (b == "log") return log(x); if (b == "log10") return log10(x); if (b == "log2") return log2(x); if (b == "exp2") return exp2(x); if (b == "sinh") return sinh(x); if (b == "cosh") return cosh(x); if (b == "tanh") return tanh(x); if (b == "cbrt") return cbrt(x); if (b == "log1p") return log1p(x); if (b == "expm1") return expm1(x);
  throw Unsupported{ "math function " + n };
}
static double math2(const string& n, double x, double y) {
  string b = n; if (b.substr(0, 5) == "llvm.") { b = b.substr(5); b = b.substr(0, b.find('.')); } if (!b.empty() && b.back() == 'f') b.pop_back();
  if (b == "pow") return pow(x, y); if (b == "atan2") return atan2(x, y); if (b == "hypot") return hypot(x, y); if (b == "fdim") return fdim(x, y); if (b == "remainder") return remainder(x, y);
  throw Unsupported{ "math function " + n };
}
static unsigned assertId = 0;
static void checkAssert(State& s, const Val& c, const string& msg) {
  nAssert++;
  if (!c.e) { if (!(c.c & 1)) { report(s, "assert", msg, nullptr); throw PathEnd{}; } return; }
  Ex e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
  if (isTrue(e)) return; nAssertSym++;
  Asg a; Sat q = query(s, mkNot(e), a);
  if (q == UNKNOWN) { unknowns["assert: " + msg]++; if (getenv("VP_SHOW")) fprintf(stderr, "UNKNOWN %s\n", toStr(e, 12).c_str()); return; }
  if (q == SAT) { State* t = cloneState(s); applyModel(*t, a); addCons(*t, mkNot(e)); report(*t, "assert", msg, nullptr); delete t; 
    Asg b; Sat o = query(s, e, b); if (o == UNSAT) throw PathEnd{}; applyModel(s, b); addCons(s, e); }
}
static uint64_t doAlloc(State& s, uint64_t n, int kind) {
  if (n > (1ull << 21)) { if (n > (1ull << 40)) throw PathError{ "memory", "allocation of an absurd size (" + std::to_string(n) + " bytes)" }; throw Unsupported{ "allocation larger than 2 MB" }; }
  return newObj(s, n, true, kind);
}
static void doFree(State& s, uint64_t a, int kind) {
  if (!a) return; uint64_t off; Obj** slot = nullptr; Obj* o = lookup(s, a, off, &slot);
  if ((a >> RGSH) != RG_HEAP) throw PathError{ "memory", "free of a non-heap pointer" };
  if (!o) throw PathError{ "memory", "double free or invalid free" }; if (off) throw PathError{ "memory", "free of an interior pointer" };
  if (o->allocKind != kind) throw PathError{ "memory", "mismatched allocation/deallocation functions" };
  rel(o); *slot = nullptr;
}
static void setDst(Frame& f, const PInst& p, const Val& v) { if (p.dst >= 0) f.regs[p.dst] = v; }
// returns true if the instruction completed (pc advances)
static void afterCall(State& s, Frame& f, const PInst& p) { if (p.op == Instruction::Invoke) enterBlock(s, f, p.succ[0]); else f.pc++; }
static Val symVar(State& s, const string& name, unsigned w, bool fp) {
  static std::map<std::tuple<unsigned, unsigned, bool>, Ex> memo; auto k = std::make_tuple(s.nsym, w, fp); auto it = memo.find(k); Ex e; if (it != memo.end()) e = it->second; else e = memo[k] = newVar(name, w, fp, false);
  s.nsym++; s.symlog.push_back(e->off); return Val{ e, 0 };
}
static void builtin(State& s, Frame& f, const PInst& p, int b, const string& name) {
  auto A = [&](unsigned i) { return getD(s, f, p.ops[i], p.argw.size() > i ? p.argw[i] : 64); };
  auto AC = [&](unsigned i) { return conc(s, A(i)); };
  unsigned w = p.w, w0 = p.argw.empty() ? 0 : p.argw[0];
  Val r = cv(0);
  switch (b) {
    case B_SYM_U8: { string nm = readCStr(s, AC(0)); r = symVar(s, nm, 8, false); break; }
    case B_SYM_BITS: { uint64_t n = AC(0); string nm = readCStr(s, AC(1)); Val v = symVar(s, nm, n, false); r = n < 64 ? ev(mkZExt(v.e, 64)) : v; break; }
    case B_SYM_DOUBLE: { string nm = readCStr(s, AC(0)); r = symVar(s, nm, 64, g_real); break; }
    case B_CHOICE: {
      uint64_t n = AC(0); if (n > 256) throw Unsupported{ "vp_choice > 256" }; if (n == 0) throw PathEnd{};
      Val v = symVar(s, "choice", 8, false); unsigned var = v.e->off;
      // the choice is forked eagerly: one state per value
      for (uint64_t k = 1; k < n; k++) { State* o = cloneState(s); nForks++; o->depth++; if (o->model.size() <= var) o->model.resize(var + 1, 0); o->model[var] = k; addCons(*o, mkEq(v.e, mkConst(k, 8))); Frame& of = o->st.back(); const PInst& op = of.f->blocks[of.bb].ins[of.pc]; setDst(of, op, cv(k)); afterCall(*o, of, op); work.push_back(o); }
      if (s.model.size() <= var) s.model.resize(var + 1, 0); s.model[var] = 0; addCons(s, mkEq(v.e, mkConst(0, 8))); r = cv(0); break; }
    case B_ASSUME: { Val c = A(0); if (!c.e) { if (!(c.c & maskw(w0))) { nAssumeCut++; throw PathEnd{}; } break; } Ex e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w))); Asg a; Sat q = query(s, e, a); if (q == UNSAT) { nAssumeCut++; throw PathEnd{}; } if (q == UNKNOWN) unknowns["assume at " + whereOf(s)]++; applyModel(s, a); addCons(s, e); break; }
    case B_ASSERT: { checkAssert(s, A(0), readCStr(s, AC(1))); break; }
    case B_REACH: { string nm = readCStr(s, AC(0)); reachedAll[nm]++; break; }
    case B_PARAM: { uint64_t i = AC(0); r = cv(i < optParams.size() ? (uint64_t)optParams[i] & maskw(w) : 0); break; }
    case B_ENGINE: r = cv(1); break; case B_ISREAL: r = cv(g_real); break;
    case B_CONC: r = cv(AC(0)); break;
    case B_DEBUG: { Val v = A(1); std::cerr << "DEBUG " << readCStr(s, AC(0)) << " " << (v.e ? toStr(v.e) : std::to_string((int64_t)v.c)) << "\n"; break; }
    case B_MERGE_AND: case B_MERGE_OR: { auto bo = [&](Val v, unsigned ww) { Ex e = toEx(v, ww); return e->w == 1 ? e : mkNot(mkEq(e, mkConst(0, e->w))); }; Ex x = bo(A(0), p.argw[0]), y = bo(A(1), p.argw[1]); Ex z = b == B_MERGE_AND ? mkAndB(x, y) : mkOrB(x, y); r = ev(mkZExt(z, w)); break; }
    case B_MALLOC: r = cv(doAlloc(s, AC(0), 1)); break;
    case B_CALLOC: { uint64_t n = AC(0) * AC(1); uint64_t a = doAlloc(s, n, 1); uint64_t off; Obj* o = access(s, a, 0, true, off); o->s.clear(); r = cv(a); break; }
    case B_REALLOC: { uint64_t old = AC(0), n = AC(1); uint64_t a = doAlloc(s, n, 1); if (old) { uint64_t off; Obj* o = lookup(s, old, off); if (!o) throw PathError{ "memory", "realloc of invalid pointer" }; copyMem(s, a, old, std::min<uint64_t>(n, o->size)); doFree(s, old, 1); } r = cv(a); break; }
    case B_NEW: r = cv(doAlloc(s, AC(0), 2)); break; case B_NEWA: r = cv(doAlloc(s, AC(0), 3)); break;
    case B_FREE: doFree(s, AC(0), 1); break; case B_DEL: doFree(s, AC(0), 2); break; case B_DELA: doFree(s, AC(0), 3); break;
    case B_MEMCPY: { uint64_t n = AC(2), d = AC(0), src = AC(1); copyMem(s, d, src, n); r = cv(d); break; }
    case B_MEMSET: { uint64_t n = AC(2), d = AC(0); Val v = A(1); if (v.e && v.e->w > 8) v = ev(mkExtract(v.e, 0, 8)); if (n) { uint64_t off; Obj* o = access(s, d, n, true, off); if (!v.e) { memset(&o->d[off], (int)v.c, n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr); } else for (uint64_t i = 0; i < n; i++) storeBytes(o, off + i, 1, v, 8); } r = cv(d); break; }
    case B_MEMCMP: {
      uint64_t n = AC(2), x = AC(0), y = AC(1); if (n == 0) break;
      uint64_t xo, yo; Obj* ox = access(s, x, n, false, xo); Obj* oy = access(s, y, n, false, yo); Ex e = mkConst(0, 32); bool sym = !(ox->s.empty() && oy->s.empty());
      if (!sym) { int k = memcmp(&ox->d[xo], &oy->d[yo], n); r = cv((uint64_t)(k < 0 ? -1 : k > 0 ? 1 : 0) & 0xffffffff); break; }
      // read up to the first certain difference
      vector<std::pair<Ex, Ex>> bs; for (uint64_t i = 0; i < n; i++) { ox = access(s, x, n, false, xo); Ex a = toEx(loadBytes(s, ox, xo + i, 1, 8, x + i), 8); oy = access(s, y, n, false, yo); Ex c = toEx(loadBytes(s, oy, yo + i, 1, 8, y + i), 8); if (a == c) continue; bs.push_back({ a, c }); if (isC(a) && isC(c)) break; }
      for (int i = (int)bs.size() - 1; i >= 0; i--) e = mkIte(mkEq(bs[i].first, bs[i].second), e, mkIte(mkCmp(K_ULT, bs[i].first, bs[i].second), mkConst(~0ull, 32), mkConst(1, 32)));
      r = ev(e); break; }
    case B_MEMCHR: case B_STRCHR: {
      uint64_t a = AC(0), n = b == B_MEMCHR ? AC(2) : ~0ull; Val c = A(1); Ex ce = c.e ? mkExtract(c.e, 0, 8) : mkConst(c.c & 0xff, 8);
      vector<std::pair<Ex, uint64_t>> acc; uint64_t last = 0; // first match wins
      for (uint64_t i = 0; i < n; i++) {
        uint64_t off; Obj* o = access(s, a + i, 1, false, off); Ex be = toEx(loadBytes(s, o, off, 1, 8, a + i), 8); Ex eq = mkEq(be, ce);
        if (isC(be)) { if (isTrue(eq)) { last = a + i; break; } if (!isFalse(eq)) acc.push_back({ eq, a + i }); if (b == B_STRCHR && be->c == 0) break; }
        else { if (decide(s, eq)) { last = a + i; break; } if (b == B_STRCHR && decide(s, mkEq(be, mkConst(0, 8)))) break; }
      }
      Ex e = mkConst(last, 64); for (int i = (int)acc.size() - 1; i >= 0; i--) e = mkIte(acc[i].first, mkConst(acc[i].second, 64), e); r = ev(e); break; }
    case B_NOP0: case B_ATEXIT: break; case B_RET1: r = cv(1); break;
    case B_ABORT: throw PathError{ "abort", name + " called" }; case B_TERMINATE: throw PathError{ "abort", name + " called" }; case B_PUREVIRT: throw PathError{ "abort", "pure virtual call" }; case B_TRAP: throw PathError{ "abort", "trap" };
    case B_EXIT: throw PathError{ "abort", "exit called" };
    case B_CXA_ALLOC: r = cv(newObj(s, AC(0), true, 1)); break;
    case B_CXA_FREE: break;
    case B_CXA_THROW: { uint64_t ptr = AC(0), ti = AC(1); s.excs.push_back({ ptr, ti }); s.inflight = ptr; unwind(s); return; }
    case B_CXA_RETHROW: { if (s.caught.empty()) throw PathError{ "abort", "rethrow without exception" }; s.inflight = s.caught.back(); unwind(s); return; }
    case B_CXA_BEGIN: { uint64_t ptr = AC(0); if (name == "__cxa_begin_catch") s.caught.push_back(ptr); r = cv(ptr); break; }
    case B_CXA_END: if (!s.caught.empty()) s.caught.pop_back(); break;
    case B_GUARD_ACQ: { uint64_t a = AC(0), off; Obj* o = access(s, a, 1, true, off); if (o->d[off]) r = cv(0); else { o->d[off] = 1; if (!o->s.empty()) o->s[off] = nullptr; r = cv(1); } break; }
    case B_DYNCAST: { // __dynamic_cast(ptr, srcTI, dstTI, hint)
      uint64_t ptr = AC(0); if (!ptr) break; uint64_t vt = readPtr(s, ptr), top = (uint64_t)((int64_t)readPtr(s, vt - 16)), ti = readPtr(s, vt - 8); int64_t adj = 0; if (tiDerived(s, ti, AC(2), &adj)) r = cv(ptr + top + adj); break; }
    case B_VASTART: {
      uint64_t ap = AC(0); uint64_t area = newObj(s, std::max<size_t>(8, f.varargs.size() * 8), false, 0); uint64_t off; Obj* o = access(s, area, 0, true, off);
      for (size_t i = 0; i < f.varargs.size(); i++) { Val v = f.varargs[i]; unsigned ww = v.e && v.e != UNDEFV ? v.e->w : 64; if (v.e == UNDEFV) v = cv(0); if (v.e && ww < 64) v = ev(mkSExt(v.e, 64)); storeBytes(o, i * 8, 8, v, 64); }
      o = access(s, ap, 24, true, off); storeBytes(o, off, 4, cv(48), 32); storeBytes(o, off + 4, 4, cv(304), 32); storeBytes(o, off + 8, 8, cv(area), 64); storeBytes(o, off + 16, 8, cv(0), 64); break; }
    case B_VACOPY: copyMem(s, AC(0), AC(1), 24); break;
    case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: {
      Val x = A(0), y = A(1); if (x.e == AGG) throw Unsupported{ "vector intrinsic" }; bool sg = b == B_SMAX || b == B_SMIN, mx = b == B_UMAX || b == B_SMAX;
      Ex ex = toEx(x, w), ey = toEx(y, w); Ex lt = mkCmp(sg ? K_SLT : K_ULT, ex, ey); r = ev(mx ? mkIte(lt, ey, ex) : mkIte(lt, ex, ey)); break; }
    case B_ABS: { Ex x = toEx(A(0), w); r = ev(mkIte(mkCmp(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x)); break; }
    case B_UADDO: case B_SADDO: case B_USUBO: case B_SSUBO: case B_UMULO: case B_SMULO: {
      Ex x = toEx(A(0), w0), y = toEx(A(1), w0); Ex v, o;
      if (b == B_UADDO) { v = mkBin(K_ADD, x, y); o = mkCmp(K_ULT, v, x); } else if (b == B_SADDO) { v = mkBin(K_ADD, x, y); o = mkOvf(K_SADDO, x, y); }
      else if (b == B_USUBO) { v = mkBin(K_SUB, x, y); o = mkCmp(K_ULT, x, y); } else if (b == B_SSUBO) { v = mkBin(K_SUB, x, y); o = mkOvf(K_SSUBO, x, y); }
      else if (b == B_UMULO) { v = mkBin(K_MUL, x, y); o = mkOvf(K_UMULO, x, y); } else { v = mkBin(K_MUL, x, y); o = mkOvf(K_SMULO, x, y); }
      r = aggv({ ev(v), ev(o) }); break; }
    case B_USUBSAT: { Ex x = toEx(A(0), w), y = toEx(A(1), w); r = ev(mkIte(mkCmp(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y))); break; }
    case B_UADDSAT: { Ex x = toEx(A(0), w), y = toEx(A(1), w); Ex v = mkBin(K_ADD, x, y); r = ev(mkIte(mkCmp(K_ULT, v, x), mkConst(~0ull, w), v)); break; }
    case B_CTLZ: { Val x = A(0); if (x.e) { Ex e = mkConst(w, w); for (unsigned i = 0; i < w; i++) e = mkIte(mkEq(mkExtract(x.e, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), e); r = ev(e); } else r = cv(x.c ? __builtin_clzll(x.c) - (64 - w) : w); break; }
    case B_CTTZ: { Val x = A(0); if (x.e) { Ex e = mkConst(w, w); for (int i = w - 1; i >= 0; i--) e = mkIte(mkEq(mkExtract(x.e, i, 1), mkConst(1, 1)), mkConst(i, w), e); r = ev(e); } else r = cv(x.c ? __builtin_ctzll(x.c) : w); break; }
    case B_CTPOP: { Val x = A(0); if (x.e) { Ex e = mkConst(0, w); for (unsigned i = 0; i < w; i++) e = mkBin(K_ADD, e, mkZExt(mkExtract(x.e, i, 1), w)); r = ev(e); } else r = cv(__builtin_popcountll(x.c)); break; }
    case B_BSWAP: { Ex x = toEx(A(0), w); Ex e = nullptr; for (unsigned i = 0; i < w / 8; i++) { Ex by = mkExtract(x, i * 8, 8); e = e ? mkConcat(e, by) : by; } r = ev(e); break; }
    case B_FSHL: case B_FSHR: { uint64_t sh = AC(2) % w; Ex x = toEx(A(0), w), y = toEx(A(1), w); if (b == B_FSHR) sh = (w - sh) % w; if (sh == 0) r = ev(b == B_FSHL ? x : y); else r = ev(mkBin(K_OR, mkBin(K_SHL, x, mkConst(sh, w)), mkBin(K_LSHR, y, mkConst(w - sh, w)))); break; }
    case B_EXPECT: r = A(0); break;
    case B_TYPEIDFOR: r = cv(tiId(AC(0))); break;
    case B_OBJSIZE: { bool mn = AC(1) & 1; r = cv(mn ? 0 : maskw(w)); break; }
    case B_ISCONST: r = cv(0); break; case B_STACKSAVE: r = cv(0); break; case B_LIFETIME: break;
    case B_FABS: case B_SQRT: case B_FLOOR: case B_CEIL: case B_TRUNC: case B_ROUND: case B_RINT: {
      Val x = A(0); if (x.e == AGG) { AggV o; for (auto& y : agg(x)) o.push_back(fp1(s, b, y, tyW(cast<VectorType>(p.ty)->getElementType()), name)); r = aggv(std::move(o)); } else r = fp1(s, b, x, w, name); break; }
    case B_LROUND: { Val x = A(0); if (!x.e) { r = cv((uint64_t)std::llround(dOf(x.c, w0)) & maskw(w)); break; } if (g_real) { r = cv((uint64_t)concInt(s, x.e, 2, mkF1(K_FROUND, x.e, w0)) & maskw(w)); break; } r = ev(mkF1(K_FPTOSI, mkF1(K_FROUND, x.e, w0), w)); break; }
    case B_FMA: { Ex x = toEx(A(0), w), y = toEx(A(1), w), z = toEx(A(2), w); if (isC(x) && isC(y) && isC(z) && !g_real) r = cv(dTo(dOf(x->c, w) * dOf(y->c, w) + dOf(z->c, w), w)); else r = ev(mkF2(K_FADD, mkF2(K_FMUL, x, y), z)); break; }
    case B_FMINMAX_MIN: case B_FMINMAX_MAX: { Ex x = toEx(A(0), w), y = toEx(A(1), w); Ex lt = b == B_FMINMAX_MIN ? mkF2(K_FLT, x, y) : mkF2(K_FLT, y, x); Ex pick = mkOrB(lt, mkF2(K_FUNO, y, y)); r = ev(mkIte(pick, x, y)); break; }
    case B_COPYSIGN: { Ex x = toEx(A(0), w), y = toEx(A(1), w); if (isC(x) && isC(y)) { r = cv((x->c & ~(1ull << (w - 1))) | (y->c & (1ull << (w - 1)))); break; } Ex ax = mkF1(K_FABS, x, w); if (g_real) r = ev(mkIte(mkF2(K_FLT, y, mkConst(0, w)), mkF1(K_FNEG, ax, w), ax)); else r = ev(mkIte(mkExtract(y, w - 1, 1), mkF1(K_FNEG, ax, w), ax)); break; }
    case B_FMOD: r = fmodV(s, A(0), A(1), w); break;
    case B_MATH1: {
      Val x = A(0); if (!x.e) { r = cv(dTo(math1(name, dOf(x.c, w)), w)); break; }
      string bn = name; if (bn.substr(0, 5) == "llvm.") { bn = bn.substr(5); bn = bn.substr(0, bn.find('.')); } else if (w == 32 && bn.back() == 'f') bn.pop_back();
      bool nw; Ex v = freshReal(s, bn, x.e, nullptr, w, nw); 
      if (g_real && (bn == "sin" || bn == "cos")) { bool n2; Ex sv = freshReal(s, "sin", x.e, nullptr, w, n2), c = freshReal(s, "cos", x.e, nullptr, w, n2); Ex k = mkF2(K_FEQ, mkF2(K_FADD, mkF2(K_FMUL, sv, sv), mkF2(K_FMUL, c, c)), mkConst(dTo(1, w), w)); if (!hasCons(s, k)) { addCons(s, k);
        // a multiple (1, 1/2 or their negatives) of an arc cosine or of a polar angle
        Ex h = x.e; double k = 1; while (true) { if (h->k == K_FMUL && isC(h->a)) { k *= dOf(h->a->c, w); h = h->b; } else if (h->k == K_FMUL && isC(h->b)) { k *= dOf(h->b->c, w); h = h->a; } else if (h->k == K_FDIV && isC(h->b)) { k /= dOf(h->b->c, w); h = h->a; } else if (h->k == K_FNEG) { k = -k; h = h->a; } else break; }
        Ex zero = mkConst(0, w), sp = k < 0 ? mkF1(K_FNEG, sv, w) : sv; double ka = std::fabs(k); bool half = ka == 0.5, one = ka == 1; Ex ct = c, st = sp;
        if (half) { ct = mkF2(K_FSUB, mkF2(K_FMUL, c, c), mkF2(K_FMUL, sv, sv)); st = mkF2(K_FMUL, mkF2(K_FMUL, sp, c), mkConst(dTo(2, w), w)); }
        auto it = acosArg.find(h); if (it != acosArg.end() && (half || one)) { addCons(s, mkF2(K_FLE, zero, sp)); if (half) addCons(s, mkF2(K_FLE, zero, c)); addCons(s, mkF2(K_FEQ, ct, it->second)); }
        auto ip = polarArg.find(h); if (ip != polarArg.end() && (half || one)) { if (half) addCons(s, mkF2(K_FLE, zero, c)); Ex py = ip->second.first, px = ip->second.second, q = mkF2(K_FADD, mkF2(K_FMUL, px, px), mkF2(K_FMUL, py, py)); bool nr; Ex rr = freshReal(s, "sqrt", q, nullptr, w, nr); Ex c2 = mkF2(K_FEQ, mkF2(K_FMUL, rr, rr), q); if (!hasCons(s, c2)) { addCons(s, mkF2(K_FLE, zero, rr)); addCons(s, c2); } addCons(s, mkF2(K_FEQ, mkF2(K_FMUL, rr, ct), px)); addCons(s, mkF2(K_FEQ, mkF2(K_FMUL, rr, st), py)); } } }
      if (g_real && bn == "acos") acosArg[v] = x.e;
      if (g_real && bn == "exp") { Ex k = mkF2(K_FLT, mkConst(0, w), v); if (!hasCons(s, k)) addCons(s, k); }
      r = Val{ v, 0 }; break; }
    case B_MATH2: { Val x = A(0), y = A(1); if (!x.e && !y.e) { r = name == "ldexp" ? cv(dTo(ldexp(dOf(x.c, w), (int)y.c), w)) : cv(dTo(math2(name, dOf(x.c, w), dOf(y.c, w)), w)); break; } 
      if (name.find("pow") != string::npos && !y.e) { double ex = dOf(y.c, w); if (ex == (int)ex && ex >= 0 && ex <= 8) { Ex acc = mkConst(dTo(1, w), w); for (int i = 0; i < (int)ex; i++) acc = i ? mkF2(K_FMUL, acc, x.e) : x.e; r = ev(acc); break; } }
      bool nw; r = Val{ freshReal(s, name, toEx(x, w), toEx(y, w), w, nw), 0 }; if (g_real && name.substr(0, 5) == "atan2") polarArg[r.e] = { toEx(x, w), toEx(y, w) }; break; }
    case B_POWI: { Val x = A(0); int64_t n = sx(AC(1), 32); if (!x.e) { r = cv(dTo(pow(dOf(x.c, w), n), w)); break; } if (n < 0 || n > 16) throw Unsupported{ "powi" }; Ex acc = mkConst(dTo(1, w), w); for (int i = 0; i < n; i++) acc = i ? mkF2(K_FMUL, acc, x.e) : x.e; r = ev(acc); break; }
    case B_ISFPCLASS: { Val x = A(0); uint64_t m = AC(1); if (!x.e) { double d = dOf(x.c, w0); bool v = false; if ((m & 3) && std::isnan(d)) v = true; if ((m & 0x204) && std::isinf(d)) v = v || (d < 0 ? (m & 4) : (m & 0x200)); if (std::isfinite(d)) { bool ng = std::signbit(d); if (d == 0) v = ng ? m & 0x20 : m & 0x40; else if (std::fpclassify(d) == FP_SUBNORMAL) v = ng ? m & 0x10 : m & 0x80; else v = ng ? m & 8 : m & 0x100; } r = cv(v); break; }
      if (m == 3) { r = ev(mkF2(K_FUNO, x.e, x.e)); break; } if (g_real) { r = cv((m & 0x1f8) == 0x1f8); break; } throw Unsupported{ "is.fpclass" }; }
    case B_FMTDBL: { // int vp_fmt_double(char* buf, size_t n, double v, int prec, char conv, int flags)
      uint64_t buf = AC(0), n = AC(1); Val v = A(2); int prec = (int)sx(AC(3), 32); char cv_ = (char)AC(4); if (v.e) throw Unsupported{ "formatting a symbolic floating-point value" };
      char t[512]; string fm = "%"; if (prec >= 0) fm += "." + std::to_string(prec); fm += cv_; int k = snprintf(t, sizeof t, fm.c_str(), dOf(v.c, 64)); if (k >= (int)sizeof t) throw Unsupported{ "float format length" };
      for (int i = 0; i <= k && (uint64_t)i < n; i++) { uint64_t off; Obj* o = access(s, buf + i, 1, true, off); storeBytes(o, off, 1, cv((uint8_t)t[i]), 8); } r = cv(k); break; }
    case B_STRTOD: { // double vp_strtod(const char* s, size_t n): concrete text only
      uint64_t a = AC(0), n = AC(1); string t; for (uint64_t i = 0; i < n; i++) { uint64_t off; Obj* o = access(s, a + i, 1, false, off); Val c = loadBytes(s, o, off, 1, 8, a + i); t += (char)conc(s, c); } r = cv(dTo(strtod(t.c_str(), nullptr), 64)); break; }
    case B_TYPENAME: r = cv(0); break;
    default: throw Unsupported{ "external function " + name };
  }
  setDst(f, p, r); afterCall(s, f, p);
}
static void doCall(State& s, Frame& f, const PInst& p) {
  FnInfo* cal = p.callee; int b = p.builtin;
  if (!cal) {
    if (cast<CallBase>(p.I)->isInlineAsm()) { if (p.dst < 0) { afterCall(s, f, p); return; } throw Unsupported{ "inline asm" }; }
    uint64_t a = conc(s, getD(s, f, p.ops.back(), 64)); if ((a >> RGSH) != RG_FUNC) throw PathError{ "memory", a ? "call through an invalid function pointer" : "call through a null function pointer" };
    cal = fnByIdx[((a >> IDSH) & 0x3fffff) - 1]; b = builtinOf(cal->F);
  }
  if (b >= 0) { builtin(s, f, p, b, cal->name); return; }
  if (cal->F->isDeclaration()) throw Unsupported{ "external function " + cal->name };
  unsigned na = p.argw.size(); vector<Val> args(na); for (unsigned i = 0; i < na; i++) args[i] = get(s, f, p.ops[i]);
  int dst = p.dst; pushFrame(s, cal, std::move(args), dst, p.nfixed);
}
static Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  if (w > 64) throw Unsupported{ "integer wider than 64 bits" };
  bool isF = op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv || op == Instruction::FRem;
  if (!isF && !a.e && !b.e) {
    uint64_t x = a.c, y = b.c, m = maskw(w);
    switch (op) {
      case Instruction::Add: return cv((x + y) & m); case Instruction::Sub: return cv((x - y) & m); case Instruction::Mul: return cv((x * y) & m); case Instruction::And: return cv(x & y); case Instruction::Or: return cv(x | y); case Instruction::Xor: return cv(x ^ y);
      case Instruction::Shl: return cv(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return cv(y >= w ? 0 : x >> y); case Instruction::AShr: return cv(foldOp(K_ASHR, w, w, 0, x, y, 0));
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: if (y == 0) throw PathError{ "arith", "integer division by zero" }; return cv(foldOp(op == Instruction::UDiv ? K_UDIV : op == Instruction::SDiv ? K_SDIV : op == Instruction::URem ? K_UREM : K_SREM, w, w, 0, x, y, 0));
    }
  }
  Ex x = toEx(a, w), y = toEx(b, w);
  switch (op) {
    case Instruction::Add: return ev(mkBin(K_ADD, x, y)); case Instruction::Sub: return ev(mkBin(K_SUB, x, y)); case Instruction::Mul: return ev(mkBin(K_MUL, x, y)); case Instruction::And: return ev(mkBin(K_AND, x, y)); case Instruction::Or: return ev(mkBin(K_OR, x, y)); case Instruction::Xor: return ev(mkBin(K_XOR, x, y));
    case Instruction::Shl: return ev(mkBin(K_SHL, x, y)); case Instruction::LShr: return ev(mkBin(K_LSHR, x, y)); case Instruction::AShr: return ev(mkBin(K_ASHR, x, y));
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Ex z = mkEq(y, mkConst(0, w)); if (decide(s, z)) throw PathError{ "arith", "integer division by zero" };
      return ev(mkBin(op == Instruction::UDiv ? K_UDIV : op == Instruction::SDiv ? K_SDIV : op == Instruction::URem ? K_UREM : K_SREM, x, y)); }
    case Instruction::FAdd: return ev(mkF2(K_FADD, x, y)); case Instruction::FSub: return ev(mkF2(K_FSUB, x, y)); case Instruction::FMul: return ev(mkF2(K_FMUL, x, y)); case Instruction::FDiv: return ev(mkF2(K_FDIV, x, y));
    case Instruction::FRem: return fmodV(s, a, b, w);
  }
  throw Unsupported{ "binary operator" };
}
static Val castOp(State& s, const PInst& p, unsigned op, const Val& a, unsigned ow, unsigned w) {
  if (w > 64 || ow > 64) throw Unsupported{ "wide cast" };
  switch (op) {
    case Instruction::Trunc: return a.e ? ev(mkExtract(a.e, 0, w)) : cv(a.c & maskw(w));
    case Instruction::ZExt: return a.e ? ev(mkZExt(a.e, w)) : a; case Instruction::SExt: return a.e ? ev(mkSExt(a.e, w)) : cv((uint64_t)sx(a.c, ow) & maskw(w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a.e ? ev(mkZExt(a.e, w)) : cv(a.c & maskw(w));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::FPTrunc: case Instruction::FPExt: return ev(mkF1(K_FPCVT, toEx(a, ow), w));
    case Instruction::SIToFP: { if (a.e && g_real) { uint64_t v = concretize(s, a.e); return ev(mkF1(K_SITOFP, mkConst(v, ow), w)); } return ev(mkF1(K_SITOFP, toEx(a, ow), w)); }
    case Instruction::UIToFP: { if (a.e && g_real) { uint64_t v = concretize(s, a.e); return ev(mkF1(K_UITOFP, mkConst(v, ow), w)); } return ev(mkF1(K_UITOFP, toEx(a, ow), w)); }
    case Instruction::FPToSI: case Instruction::FPToUI: { if (a.e && g_real) { int64_t k = concInt(s, a.e, 1, mkF1(K_FPTOSI, a.e, 64)); return cv((uint64_t)k & maskw(w)); } return ev(mkF1(op == Instruction::FPToSI ? K_FPTOSI : K_FPTOUI, toEx(a, ow), w)); }
  }
  throw Unsupported{ "cast" };
}
static AggV insertAgg(const AggV& a, const vector<unsigned>& idx, unsigned k, const Val& v) { AggV r = a; if (k + 1 == idx.size()) r[idx[k]] = v; else r[idx[k]] = aggv(insertAgg(agg(a[idx[k]]), idx, k + 1, v)); return r; }
static void runCtorsAndEntry(State& s);

// execute until the path ends or forks push work; returns when the state is finished
static void step(State& s) {
  Frame& f = s.st.back(); const PInst& p = f.f->blocks[f.bb].ins[f.pc];
  switch (p.op) {
    case Instruction::Ret: {
      Val v = p.ops.empty() ? cv(0) : get(s, f, p.ops[0]); int dst = f.retDst; popFrame(s);
      if (s.st.empty()) { s.done = true; return; }
      Frame& g = s.st.back(); const PInst& cp = g.f->blocks[g.bb].ins[g.pc]; if (cp.op == Instruction::Call || cp.op == Instruction::Invoke) { if (dst >= 0) g.regs[dst] = v; afterCall(s, g, cp); } return; }
    case Instruction::Br: {
      if (!p.flag) { enterBlock(s, f, p.succ[0]); return; }
      Val c = getD(s, f, p.ops[0], 1); bool t; if (!c.e) t = c.c & 1; else t = decide(s, c.e); Frame& g = s.st.back(); enterBlock(s, g, t ? p.succ[0] : p.succ[1]); return; }
    case Instruction::Switch: {
      Val c = getD(s, f, p.ops[0], p.ow); if (!c.e) { int d = p.succ[0]; for (auto& k : p.cases) if (k.first == c.c) { d = k.second; break; } enterBlock(s, f, d); return; }
      std::map<int, Ex> groups; Ex none = mkTrue(); vector<int> order; for (auto& k : p.cases) { Ex e = mkEq(c.e, mkConst(k.first, p.ow)); none = mkAndB(none, mkNot(e)); if (k.second == p.succ[0]) continue; if (!groups.count(k.second)) { groups[k.second] = e; order.push_back(k.second); } else groups[k.second] = mkOrB(groups[k.second], e); }
      for (int d : order) if (decide(s, groups[d])) { enterBlock(s, s.st.back(), d); return; }
      enterBlock(s, s.st.back(), p.succ[0]); return; }
    case Instruction::Unreachable: throw PathError{ "ub", "execution reaches unreachable code (undefined behaviour)" };
    case Instruction::Alloca: { uint64_t n = conc(s, getD(s, f, p.ops[0], 64)); f.regs[p.dst] = cv(newStack(s, n * p.imm)); f.pc++; return; }
    case Instruction::Load: { Val a = getD(s, f, p.ops[0], 64); Val v = loadVal(s, a, p.ty, p.w); s.st.back().regs[p.dst] = v; f.pc++; return; }
    case Instruction::Store: { Val a = getD(s, f, p.ops[1], 64); uint64_t ad = conc(s, a); storeVal(s, ad, get(s, f, p.ops[0]), p.ty); f.pc++; return; }
    case Instruction::GetElementPtr: {
      Val b = getD(s, f, p.ops[0], 64); if (b.e == AGG) throw Unsupported{ "vector gep" }; uint64_t c = p.imm; Ex sy = b.e; if (!sy) c += b.c;
      for (size_t i = 0; i < p.gep.size(); i++) { Val x = getD(s, f, p.gep[i].first, p.gw[i]); if (!x.e) c += (uint64_t)(sx(x.c, p.gw[i]) * p.gep[i].second); else { Ex t = mkBin(K_MUL, mkSExt(x.e, 64), mkConst(p.gep[i].second, 64)); sy = sy ? mkBin(K_ADD, sy, t) : t; } }
      f.regs[p.dst] = sy ? ev(mkBin(K_ADD, sy, mkConst(c, 64))) : cv(c); f.pc++; return; }
    case Instruction::ICmp: {
      Val a = getD(s, f, p.ops[0], p.ow), b = getD(s, f, p.ops[1], p.ow);
      if (a.e == AGG || b.e == AGG) { AggV r; unsigned ew = tyW(cast<VectorType>(p.I->getOperand(0)->getType())->getElementType()); for (size_t i = 0; i < agg(a).size(); i++) r.push_back(ev(icmpEx(p.sub, toEx(agg(a)[i], ew), toEx(agg(b)[i], ew)))); f.regs[p.dst] = aggv(std::move(r)); f.pc++; return; }
      if (p.ow > 64) throw Unsupported{ "wide icmp" };
      f.regs[p.dst] = (!a.e && !b.e) ? cv(icmpC(p.sub, a.c, b.c, p.ow)) : ev(icmpEx(p.sub, toEx(a, p.ow), toEx(b, p.ow))); f.pc++; return; }
    case Instruction::FCmp: { Val a = getD(s, f, p.ops[0], p.ow), b = getD(s, f, p.ops[1], p.ow); if (p.ow > 64 || !p.ow) throw Unsupported{ "wide fcmp" }; f.regs[p.dst] = ev(fcmpEx(p.sub, toEx(a, p.ow), toEx(b, p.ow))); f.pc++; return; }
    case Instruction::Select: {
      Val c = getD(s, f, p.ops[0], 1); Val a = get(s, f, p.ops[1]), b = get(s, f, p.ops[2]);
      if (c.e == AGG) throw Unsupported{ "vector select" };
      if (!c.e) { f.regs[p.dst] = (c.c & 1) ? a : b; f.pc++; return; }
      if (p.ty->isPointerTy() || (g_real && p.w > 1 && p.ty->isIntegerTy() && onReals(c.e)) || a.e == AGG || b.e == AGG || a.e == UNDEFV || b.e == UNDEFV) { bool t = decide(s, c.e); Frame& g = s.st.back(); g.regs[p.dst] = t ? a : b; g.pc++; return; }
      f.regs[p.dst] = ev(mkIte(c.e, toEx(a, p.w), toEx(b, p.w))); f.pc++; return; }
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, p); return;
    case Instruction::LandingPad: f.regs[p.dst] = aggv({ cv(s.inflight), cv(s.lpSel & 0xffffffff) }); f.pc++; return;
    case Instruction::Resume: { Val v = get(s, f, p.ops[0]); s.inflight = agg(v)[0].c; popFrame(s); if (s.st.empty()) throw PathError{ "exception", "uncaught exception" }; unwind(s); return; }
    case Instruction::ExtractValue: { Val v = getD(s, f, p.ops[0], 0); for (unsigned i : p.idx) { Val t = agg(v)[i]; v = t; } f.regs[p.dst] = v; f.pc++; return; }
    case Instruction::InsertValue: { Val v = getD(s, f, p.ops[0], 0); Val x = get(s, f, p.ops[1]); f.regs[p.dst] = aggv(insertAgg(agg(v), p.idx, 0, x)); f.pc++; return; }
    case Instruction::FNeg: { Val a = getD(s, f, p.ops[0], p.w); if (a.e == AGG) { AggV r; unsigned ew = tyW(cast<VectorType>(p.ty)->getElementType()); for (auto& x : agg(a)) r.push_back(ev(mkF1(K_FNEG, toEx(x, ew), ew))); f.regs[p.dst] = aggv(std::move(r)); } else f.regs[p.dst] = ev(mkF1(K_FNEG, toEx(a, p.w), p.w)); f.pc++; return; }
    case Instruction::Freeze: f.regs[p.dst] = getD(s, f, p.ops[0], p.w); f.pc++; return;
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(p.I); unsigned w = tyW(r->getType()); uint64_t a = conc(s, getD(s, f, p.ops[0], 64)); Val o = loadTy(s, a, r->getType()); Val x = getD(s, f, p.ops[1], w); Val n;
      switch (r->getOperation()) { case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = binop(s, Instruction::Add, o, x, w); break; case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, o, x, w); break; case AtomicRMWInst::And: n = binop(s, Instruction::And, o, x, w); break; case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, x, w); break; case AtomicRMWInst::Xor: n = binop(s, Instruction::Xor, o, x, w); break; default: throw Unsupported{ "atomicrmw" }; }
      storeVal(s, a, n, r->getType()); f.regs[p.dst] = o; f.pc++; return; }
    case Instruction::AtomicCmpXchg: {
      auto* r = cast<AtomicCmpXchgInst>(p.I); Type* t = r->getCompareOperand()->getType(); unsigned w = tyW(t); uint64_t a = conc(s, getD(s, f, p.ops[0], 64)); Val o = loadTy(s, a, t); Val e = getD(s, f, p.ops[1], w), n = getD(s, f, p.ops[2], w); bool eq = decide(s, mkEq(toEx(o, w), toEx(e, w))); if (eq) storeVal(s, a, n, t); Frame& g = s.st.back(); g.regs[p.dst] = aggv({ o, cv(eq) }); g.pc++; return; }
    case Instruction::ExtractElement: { Val v = getD(s, f, p.ops[0], 0); uint64_t i = conc(s, getD(s, f, p.ops[1], 64)); f.regs[p.dst] = agg(v)[i]; f.pc++; return; }
    case Instruction::InsertElement: { Val v = getD(s, f, p.ops[0], 0); uint64_t i = conc(s, getD(s, f, p.ops[2], 64)); AggV r; if (v.e == AGG) r = agg(v); else r.resize(cast<FixedVectorType>(p.ty)->getNumElements(), Val{ UNDEFV, 0 }); r[i] = get(s, f, p.ops[1]); f.regs[p.dst] = aggv(std::move(r)); f.pc++; return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(p.I); Val a = getD(s, f, p.ops[0], 0), b = get(s, f, p.ops[1]); unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); AggV r; for (int m : sv->getShuffleMask()) { if (m < 0) r.push_back(Val{ UNDEFV, 0 }); else if ((unsigned)m < n) r.push_back(agg(a)[m]); else r.push_back(b.e == AGG ? agg(b)[m - n] : Val{ UNDEFV, 0 }); } f.regs[p.dst] = aggv(std::move(r)); f.pc++; return; }
    default: break;
  }
  if (Instruction::isBinaryOp(p.op)) {
    Val a = getD(s, f, p.ops[0], p.w), b = getD(s, f, p.ops[1], p.w);
    if (a.e == AGG) { AggV r; unsigned ew = tyW(cast<VectorType>(p.ty)->getElementType()); for (size_t i = 0; i < agg(a).size(); i++) { Val x = agg(a)[i], y = agg(b)[i]; if (x.e == UNDEFV) x = freshUndef(s, ew); if (y.e == UNDEFV) y = freshUndef(s, ew); r.push_back(binop(s, p.op, x, y, ew)); } f.regs[p.dst] = aggv(std::move(r)); f.pc++; return; }
    Val r = binop(s, p.op, a, b, p.w); Frame& g = s.st.back(); g.regs[p.dst] = r; g.pc++; return;
  }
  if (Instruction::isCast(p.op)) {
    Val a = getD(s, f, p.ops[0], p.ow); Type* st = p.I->getOperand(0)->getType();
    if (a.e == AGG || p.ty->isVectorTy()) {
      if (p.op != Instruction::BitCast) { AggV r; unsigned ew = tyW(cast<VectorType>(p.ty)->getElementType()), eo = tyW(cast<VectorType>(st)->getElementType()); for (auto& x : agg(a)) r.push_back(castOp(s, p, p.op, x, eo, ew)); f.regs[p.dst] = aggv(std::move(r)); f.pc++; return; }
      // bitcast through a scratch object
      uint64_t t = newStack(s, DL->getTypeStoreSize(st)); storeVal(s, t, a, st); f.regs[p.dst] = loadTy(s, t, p.ty); f.pc++; return;
    }
    Val r = castOp(s, p, p.op, a, p.ow, p.w); Frame& g = s.st.back(); g.regs[p.dst] = r; g.pc++; return;
  }
  if (p.op == Instruction::VAArg) throw Unsupported{ "va_arg" };
  throw Unsupported{ string("instruction ") + p.I->getOpcodeName() };
}
static vector<vector<std::pair<unsigned, uint64_t>>> samples; static uint64_t nSampled = 0, sampleSeed = 88172645463325252ull; static unsigned optSamples = 6;
static void samplePath(State& s) { // reservoir of completed paths with their concrete witness
  if (g_real || optSamples == 0) return; for (auto& d : s.doms) if (g_vars[d.var].hidden) return; for (Ex c : s.multi) for (unsigned v : *c->vars) if (g_vars[v].hidden) return;
  nSampled++; sampleSeed ^= sampleSeed << 13; sampleSeed ^= sampleSeed >> 7; sampleSeed ^= sampleSeed << 17; size_t slot; if (samples.size() < optSamples) { slot = samples.size(); samples.emplace_back(); } else { slot = sampleSeed % nSampled; if (slot >= optSamples) return; }
  auto& o = samples[slot]; o.clear(); for (unsigned v : s.symlog) o.push_back({ g_vars[v].w, v < s.model.size() ? s.model[v] : 0 });
}
static void endPath(State* s) { nPaths++; nInsts += s->insts; delete s; }
static double lastMemCheck = 0;
static bool overBudget() {
  double t = nowS(); if (t - tStart > optTime) { timedOut = true; return true; }
  if (t - lastMemCheck > 0.5) { lastMemCheck = t; FILE* fp = fopen("/proc/self/statm", "r"); if (fp) { long a, r; if (fscanf(fp, "%ld %ld", &a, &r) == 2 && (size_t)r * 4 / 1024 > optMemMB) { timedOut = true; unsupported["memory budget exhausted"]++; } fclose(fp); if (timedOut) return true; } }
  return false;
}
// run one state to completion; with `splitAt` stop early once it has forked (breadth-first expansion)
static bool runState(State* s, bool stopOnFork) {
  size_t w0 = work.size(); unsigned cnt = 0; static double lastZ = 0;
  try {
    while (!s->done) {
      if (((++cnt & 0xfff) == 0 || g_sst.z3time - lastZ > 0.3) && (lastZ = g_sst.z3time, overBudget())) { work.push_back(s); return false; }
      s->insts++; if (s->insts > optInst) throw PathError{ "nontermination", "instruction budget of one path exhausted" };
      try { step(*s); } catch (Restart&) {}
      if (stopOnFork && work.size() > w0) { work.push_back(s); return true; }
    }
    samplePath(*s);
  } catch (PathEnd&) {}
  catch (PathError& e) { report(*s, e.kind, e.msg, nullptr); }
  catch (Unsupported& u) { unsupported[u.what + " at " + whereOf(*s)]++; if (optVerbose) std::cerr << "UNSUPPORTED " << u.what << "\n  " << stackOf(*s) << "\n"; }
  endPath(s); return true;
}
// ---------------------------------------------------------------- output
static string jesc(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::set<string> coveredFns() {
  std::set<string> r; for (auto* fi : fnByIdx) for (auto& b : fi->blocks) if (b.hit) for (auto& I : *b.bb) if (auto dl = I.getDebugLoc()) { const DILocation* l = dl.get(); while (l) { if (auto* sp = l->getScope()->getSubprogram()) { string fn = sp->getFilename().str(); string full = !fn.empty() && fn[0] == '/' ? fn : sp->getDirectory().str() + "/" + fn; if (full.find(optRepo) != string::npos) { string nm = sp->getLinkageName().empty() ? sp->getName().str() : llvm::demangle(sp->getLinkageName().str()); size_t q = full.find(optRepo); if (nm.size() > 110) nm = nm.substr(0, 110) + "~"; r.insert(full.substr(q + optRepo.size()) + ": " + nm); } } l = l->getInlinedAt(); } }
  return r;
}
static void writeOut(const string& path, bool final) {
  std::ostringstream o; size_t left = work.size();
  o << "{\"entry\":" << jesc(optEntry) << ",\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"asserts\":" << nAssert << ",\"asserts_symbolic\":" << nAssertSym << ",\"insts\":" << nInsts << ",\"assume_cut\":" << nAssumeCut << ",\"max_depth\":" << maxDepth << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"states_left\":" << left
    << ",\"z3\":{\"queries\":" << g_sst.z3 << ",\"sat\":" << g_sst.z3sat << ",\"unsat\":" << g_sst.z3unsat << ",\"unknown\":" << g_sst.z3unknown << ",\"time\":" << g_sst.z3time << ",\"max\":" << g_sst.maxq << "},\"cache_hits\":" << g_sst.cacheHits << ",\"domain_decided\":" << g_sst.domain << ",\"domain_only\":" << nDomOnly << ",\"model_reuse\":" << g_sst.model << ",\"time\":" << (nowS() - tStart) << ",\"real\":" << (g_real ? "true" : "false");
  auto mp = [&](const char* k, const std::map<string, uint64_t>& m) { o << ",\"" << k << "\":{"; bool first = true; for (auto& p : m) { o << (first ? "" : ",") << jesc(p.first) << ":" << p.second; first = false; } o << "}"; };
  mp("unsupported", unsupported); mp("unknown", unknowns); mp("reached", reachedAll);
  o << ",\"functions\":["; bool first = true; for (auto& f : coveredFns()) { o << (first ? "" : ",") << jesc(f); first = false; } o << "]";
  o << ",\"errors\":["; first = true; for (auto& e : errors) { o << (first ? "" : ",") << "{\"kind\":" << jesc(e.kind) << ",\"msg\":" << jesc(e.msg) << ",\"where\":" << jesc(e.where) << ",\"stack\":" << jesc(e.stack) << ",\"hidden\":" << (e.hiddenDep ? "true" : "false") << ",\"count\":" << e.count << ",\"syms\":["; for (size_t i = 0; i < e.syms.size(); i++) o << (i ? "," : "") << "[" << jesc(e.syms[i].first) << "," << e.widths[i] << ",\"" << e.syms[i].second << "\"]"; o << "]}"; first = false; } o << "]";
  o << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) { o << (i ? ",[" : "["); for (size_t k = 0; k < samples[i].size(); k++) o << (k ? "," : "") << "[" << samples[i][k].first << ",\"" << samples[i][k].second << "\"]"; o << "]"; } o << "]}";
  std::ofstream(path) << o.str() << "\n";
}
static int usage() { std::cerr << "symex file.bc --entry F --out J [--time S] [--real] [--inst N] [--max-errors N] [-j N] [--param V]... [--repo P]\n"; return 2; }
int main(int argc, char** argv) {
  string file; for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--time") optTime = stod(nx()); else if (a == "--real") g_real = true; else if (a == "--inst") optInst = stoull(nx()); else if (a == "--max-errors") optMaxErr = stoul(nx()); else if (a == "-j") optJobs = stoul(nx()); else if (a == "--param") optParams.push_back(stoll(nx())); else if (a == "--repo") optRepo = nx(); else if (a == "-v") optVerbose = true; else if (a == "--qtimeout") g_qtimeout = stoul(nx()); else if (a == "--samples") optSamples = stoul(nx()); else if (a == "--seed") sampleSeed ^= stoull(nx()) * 0x9E3779B97F4A7C15ull; else if (a == "--mem") optMemMB = stoul(nx()); else if (a[0] == '-') return usage(); else file = a; }
  if (file.empty()) return usage();
  struct rlimit rl { 1ul << 30, 1ul << 30 }; setrlimit(RLIMIT_STACK, &rl);
  tStart = nowS(); LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("symex", errs()); return 2; } M = mod.get(); DL = &M->getDataLayout();
  g_deadline = tStart + optTime + 3; initBuiltins(); solverInit();
  Function* E = M->getFunction(optEntry); if (!E || E->isDeclaration()) { std::cerr << "symex: no entry " << optEntry << "\n"; return 2; }
  for (auto& F : *M) fnInfo(&F);
  for (auto& g : M->globals()) globalAddr(&g);
  gConst.assign(gById.size(), nullptr); State* s0 = new State; s0->glob.assign(gById.size(), nullptr);
  for (size_t i = 0; i < gById.size(); i++) { auto* g = gById[i]; uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64; bool ext = !g->hasInitializer(); if (ext && sz < 256) sz = 256; Obj* o = new Obj(sz, false); if (!ext) { try { initObj(o, g->getInitializer(), 0); } catch (Unsupported& u) { o->s.assign(sz, UNINIT); } }
    if (g->isConstant() && !ext) { gConst[i] = o; o->ro = true; } else s0->glob[i] = o; }
  // entry: run global constructors by priority, then the harness; chained as separate runs of the same state
  vector<std::pair<int, Function*>> ctors; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({ (int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn }); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) { pushFrame(*s0, fnInfo(c.second), {}, -1, 0); try { while (!s0->done) { step(*s0); s0->insts++; } } catch (PathError& e) { std::cerr << "symex: error in static initialisation: " << e.msg << " " << stackOf(*s0) << "\n"; report(*s0, e.kind, "static initialisation: " + e.msg, nullptr); writeOut(optOut, true); return 0; } catch (Unsupported& u) { std::cerr << "symex: unsupported in static initialisation: " << u.what << " " << stackOf(*s0) << "\n"; unsupported["static init: " + u.what]++; writeOut(optOut, true); return 0; } s0->done = false; if (!work.empty()) { std::cerr << "symex: fork in static initialisation\n"; return 2; } }
  s0->insts = 0; s0->done = false; pushFrame(*s0, fnInfo(E), {}, -1, 0); work.push_back(s0);
  bool par = optJobs > 1; double tPar = 0.6;
  while (!work.empty() && !stopAll && !timedOut) {
    if (par && nowS() - tStart > tPar) break;
    State* s = work.back(); work.pop_back(); if (!runState(s, par)) { if (timedOut) break; }
  }
  if (par && !work.empty() && !stopAll && !timedOut) {
    // breadth-first expansion of the frontier, then distribute it over worker processes
    while (!work.empty() && work.size() < 48 * optJobs && !stopAll && nowS() - tStart < tPar + 2.5) { State* s = work.front(); work.pop_front(); runState(s, true); }
    if (!work.empty() && !stopAll && !timedOut) {
      vector<State*> fr(work.begin(), work.end()); work.clear(); auto* ctr = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); auto* stopF = ctr + 1;
      std::mt19937_64* dummy = nullptr; (void)dummy; uint64_t seed = 12345; for (size_t i = fr.size(); i > 1; i--) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; std::swap(fr[i - 1], fr[(seed >> 33) % i]); }
      vector<pid_t> pids; string base = optOut + ".part"; optMemMB = optMemMB / 1; 
      writeOut(base + "main", true);
      nPaths = nForks = nAssert = nAssertSym = nInsts = nAssumeCut = 0; SolverStats zero; g_sst = zero; unsupported.clear(); unknowns.clear(); reachedAll.clear(); samples.clear(); nSampled = 0; auto errs0 = errors; 
      for (unsigned j = 0; j < optJobs; j++) { pid_t pid = fork(); if (pid == 0) {
          errors.clear(); uint64_t k; 
          while ((k = ctr->fetch_add(1)) < fr.size() && !timedOut && !stopAll) { work.push_back(fr[k]); while (!work.empty() && !stopAll && !timedOut) { State* s = work.back(); work.pop_back(); if (!runState(s, false)) break; } if (stopAll) stopF->store(1); if (stopF->load() && !errors.empty()) break; }
          if (timedOut) while (ctr->fetch_add(1) < fr.size()) work.push_back(nullptr);
          writeOut(base + std::to_string(j), true); _exit(0); }
        pids.push_back(pid); }
      int bad = 0; for (pid_t pd : pids) { int stt; waitpid(pd, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad++; }
      // merging of the parts is left to the runner
      std::ofstream(optOut) << "{\"parts\":" << optJobs << ",\"bad\":" << bad << "}\n"; return 0;
    }
  }
  writeOut(optOut, true); 
  _exit(0);
}
