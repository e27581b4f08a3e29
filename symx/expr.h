// Expression DAG, simplifying constructors, concrete evaluation and rational normal form.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <type_traits>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // IEEE bit-vector floats (fp mode); operands and results are bit-vectors
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FEQ, K_FLT, K_FLE, K_FUNO, K_FSQRT, K_FROUND, K_F2F, K_F2SI, K_F2UI,
  K_SI2F, K_UI2F, K_FUN,
  // reals (real mode)
  K_RVAR, K_RCONST, K_RADD, K_RMUL, K_RDIV, K_RFUN, K_ROFBV, K_RLT, K_RLE, K_REQ, K_RITE, K_RBITS,
  K_AGG
};

struct Expr;
struct Val {
  uint64_t c = 0;
  const Expr* e = nullptr;
  Val() {}
  template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type> Val(T v) : c((uint64_t)v) {}
  Val(const Expr* x) : c(0), e(x) {}
  Val(uint64_t v, const Expr* x) : c(v), e(x) {}
  bool sym() const { return e != nullptr; }
};

enum RFun : int { RF_EXP, RF_LOG, RF_SQRT, RF_SIN, RF_COS, RF_TANH, RF_ERF, RF_POW, RF_OTHER };

struct Expr {
  Kind k;
  uint16_t w;       // bit width (0 for reals)
  uint32_t id;
  uint64_t a;       // constant low / var index / extract offset / fun id / rounding mode
  uint64_t b;       // constant high
  long double r;    // RCONST
  const Expr* x[3];
  uint8_t n;
  uint32_t hash;
  uint8_t flags;    // 1 = has FP nodes, 2 = has real nodes, 4 = has uninterpreted fun
  std::vector<Val>* agg = nullptr;
};

struct VarInfo { std::string name; int w; bool isReal; bool input; double lo, hi; int kind; };
extern std::vector<VarInfo> g_vars;
extern bool g_useRanges;

inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

const Expr* mkConst(uint64_t v, int w);
const Expr* mkConst128(uint64_t lo, uint64_t hi, int w);
const Expr* mkVar(const std::string& name, int w, bool input, double lo = 0, double hi = 0, int kind = 0);
const Expr* mkRVar(const std::string& name, bool input, double lo, double hi, int kind = 0);
const Expr* mkBin(Kind k, const Expr* a, const Expr* b);
const Expr* mkCmp(Kind k, const Expr* a, const Expr* b);
const Expr* mkNot(const Expr* a);
const Expr* mkAndB(const Expr* a, const Expr* b);
const Expr* mkOrB(const Expr* a, const Expr* b);
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b);
const Expr* mkExtract(const Expr* a, int off, int w);
const Expr* mkConcat(const Expr* hi, const Expr* lo);
const Expr* mkZext(const Expr* a, int w);
const Expr* mkSext(const Expr* a, int w);
const Expr* mkFP(Kind k, int w, const Expr* a, const Expr* b = nullptr, uint64_t aux = 0);
const Expr* mkFun(uint64_t fun, int w, const Expr* a, const Expr* b = nullptr);
const Expr* mkRConst(long double v);
const Expr* mkR(Kind k, const Expr* a, const Expr* b);   // RADD RMUL RDIV
const Expr* mkRNeg(const Expr* a);
const Expr* mkRCmp(Kind k, const Expr* a, const Expr* b);
const Expr* mkRFun(int fun, const Expr* a, const Expr* b = nullptr);
const Expr* mkROfBV(const Expr* a, bool sgn);
const Expr* mkRBits(const Expr* a, int w);
const Expr* mkRIte(const Expr* c, const Expr* a, const Expr* b);
const Expr* mkAgg(std::vector<Val>&& v);
inline bool isC(const Expr* e) { return e->k == K_CONST; }
inline const Expr* toE(const Val& v, int w) { return v.e ? v.e : mkConst(v.c, w); }
inline Val fromE(const Expr* e) { if (e->k == K_CONST && e->w <= 64) return Val(e->a); return Val(e); }

// concrete assignment: var index -> value (bv) / long double (real)
struct Assign {
  std::unordered_map<uint64_t, uint64_t> bv;
  std::unordered_map<uint64_t, long double> re;
};
struct EvalCtx {
  const Assign* as;
  std::unordered_map<const Expr*, unsigned __int128> mb;
  std::unordered_map<const Expr*, long double> mr;
};
unsigned __int128 evalBV(const Expr* e, EvalCtx& c);
long double evalR(const Expr* e, EvalCtx& c);
bool evalOK(const Expr* e);  // evaluation is exact enough to be used as a model (no uninterpreted functions)

uint64_t fpBin(Kind k, int w, uint64_t a, uint64_t b);
bool fpCmp(Kind k, int w, uint64_t a, uint64_t b);

// rational normal form: returns 1 if a-b is identically zero, 0 if a nonzero normal form, -1 if it gave up
int nfEqual(const Expr* a, const Expr* b);
bool nfConst(const Expr* a, long double& v);  // constant normal form?
std::string exprStr(const Expr* e, int depth = 6);
extern const char* kindNames[];
bool exprRange(const Expr* e, unsigned __int128& lo, unsigned __int128& hi);   // unsigned interval, from declared input ranges
void collectVars(const Expr* e, std::vector<uint64_t>& out);
