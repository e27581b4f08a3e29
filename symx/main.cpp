// symx: a forking symbolic executor for LLVM 18 bitcode.  Each path is one process; the process tree shares counters.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <cinttypes>
#include <set>
#include <random>

#undef O_TRUNC
using namespace llvm;
typedef unsigned __int128 u128;

// ------------------------------------------------------------------ shared state
struct Tag { uint64_t h; uint64_t cnt; char name[96]; };
struct Shared {
  SolverStats ss;
  uint64_t paths, pathsTrap, pathsInfeasible, pathsError, forks, asserts, assertsConcrete, instrs, violations, inconclusive, incomplete,
      alive, peakAlive, divAssume, uninitReads, samples, concretized, nfZ3, nfZ3Unk;
  int stop;
  double deadline;
  Tag tags[64];
  Tag viol[64];
  Tag errs[64];
  uint8_t cov[1];  // functions executed (flexible)
};
static Shared* SH;
static sem_t* g_tokens;
static bool g_haveToken = false;
static std::string g_out, g_harness;
static bool g_real = false;
static int g_trapPolicy = 0;
static bool g_init = true;
static uint64_t g_icount = 0;
static uint64_t g_maxInstr = 400000000ull;
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define INC(f) __atomic_fetch_add(&SH->f, 1, __ATOMIC_RELAXED)

static uint64_t hashStr(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (uint8_t)*s++; h *= 1099511628211ull; } return h | 1; }
static uint64_t tagInc(Tag* t, const char* name) {
  uint64_t h = hashStr(name);
  for (int i = 0; i < 64; i++) {
    int k = (h + i) % 64;
    uint64_t z = 0;
    if (t[k].h == h || __atomic_compare_exchange_n(&t[k].h, &z, h, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) || z == h) {
      if (!t[k].name[0]) { strncpy(t[k].name, name, 95); }
      return __atomic_add_fetch(&t[k].cnt, 1, __ATOMIC_SEQ_CST);
    }
  }
  return 1000000;
}

[[noreturn]] static void pathExit() {
  __atomic_fetch_add(&SH->instrs, g_icount, __ATOMIC_RELAXED);
  __atomic_fetch_sub(&SH->alive, 1, __ATOMIC_RELAXED);
  if (g_haveToken) sem_post(g_tokens);
  _exit(0);
}
static std::string jsonEsc(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static std::string callStack();
static std::string assignJson(const Assign& a) {
  std::string s = "[";
  bool first = true;
  for (size_t i = 0; i < g_vars.size(); i++) {
    auto& v = g_vars[i];
    if (!v.input) continue;
    char b[256];
    uint64_t u = 0;
    double d = 0;
    if (v.isReal) {
      auto it = a.re.find(i);
      long double x = it == a.re.end() ? 0 : it->second;
      d = (double)x;
      if (v.kind == 64) memcpy(&u, &d, 8); else { float f = (float)x; uint32_t w; memcpy(&w, &f, 4); u = w; }
    } else { auto it = a.bv.find(i); u = it == a.bv.end() ? 0 : it->second; }
    snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"w\":%d,\"real\":%d,\"hex\":\"%llx\",\"dec\":\"%.9g\"}", first ? "" : ",", v.name.c_str(), v.isReal ? (v.kind == 64 ? 64 : 32) : v.w, (int)v.isReal,
             (unsigned long long)u, v.isReal ? d : (double)sextw(u, v.w));
    s += b;
    first = false;
  }
  return s + "]";
}
static void writeFile(const std::string& p, const std::string& c) { FILE* f = fopen(p.c_str(), "w"); if (f) { fwrite(c.data(), 1, c.size(), f); fclose(f); } }

[[noreturn]] static void engineError(const std::string& msg) {
  if (tagInc(SH->errs, msg.c_str()) <= 2) {
    fprintf(stderr, "[symx] %s: engine error: %s\n  at %s\n", g_harness.c_str(), msg.c_str(), callStack().c_str());
    std::string f = g_out + "/err_" + g_harness + "_" + std::to_string(getpid()) + ".txt";
    writeFile(f, msg + "\n" + callStack() + "\n");
  }
  INC(pathsError);
  pathExit();
}
static void reportViolation(const char* kind, const std::string& msg, const Assign& a) {
  std::string key = std::string(kind) + ":" + msg;
  uint64_t n = tagInc(SH->viol, key.c_str());
  uint64_t tot = INC(violations) + 1;
  if (n <= 3) {
    std::string f = g_out + "/viol_" + g_harness + "_" + std::to_string(getpid()) + "_" + std::to_string(tot) + ".json";
    std::string j = "{\"harness\":\"" + g_harness + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"mode\":\"" + (g_real ? "real" : "bits") +
                    "\",\"stack\":\"" + jsonEsc(callStack()) + "\",\"inputs\":" + assignJson(a) + "}\n";
    writeFile(f, j);
  }
  if (tot > 60) SH->stop = 1;
}
static void checkDeadline() {
  if (SH->stop) { INC(incomplete); pathExit(); }
  if (nowS() > SH->deadline) { INC(incomplete); pathExit(); }
}

static void hungQuery() { INC(incomplete); __atomic_fetch_sub(&SH->alive, 1, __ATOMIC_RELAXED); if (g_haveToken) sem_post(g_tokens); _exit(0); }

// returns true in the parent, false in the child
static bool forkPath() {
  checkDeadline();
  INC(forks);
  bool tok = sem_trywait(g_tokens) == 0;
  uint64_t al = __atomic_add_fetch(&SH->alive, 1, __ATOMIC_RELAXED);
  if (al > SH->peakAlive) SH->peakAlive = al;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { if (tok) sem_post(g_tokens); engineError("fork failed"); }
  if (p == 0) { g_haveToken = tok; g_icount = 0; return false; }
  if (!tok) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { tagInc(SH->errs, WIFSIGNALED(st) ? "path process died from a signal" : "path process failed"); INC(pathsError); }
    checkDeadline();
  } else {
    while (waitpid(-1, nullptr, WNOHANG) > 0) {}
  }
  return true;
}

static std::unordered_map<const Expr*, uint64_t> g_known;

static void learn(const Expr* c) {
  pcAdd(c);
  if (c->k == K_EQ && isC(c->x[1]) && c->x[1]->w <= 64) g_known[c->x[0]] = c->x[1]->a;
}
static void needModel() {  // make g_ps.cur a model of the path condition
  if (g_ps.curValid) return;
  Assign m;
  SR r = checkSat(mkConst(1, 1), &m);
  if (r == S_UNSAT) { INC(pathsInfeasible); pathExit(); }
  if (r == S_SAT) { g_ps.cur = m; g_ps.curValid = true; }
}
static void assume(const Expr* c) {
  if (isC(c)) { if (!c->a) { INC(pathsInfeasible); pathExit(); } return; }
  if (g_ps.curValid && evalOK(c) && evalCur(c)) { learn(c); return; }
  Assign m;
  SR r = checkSat(c, &m);
  if (r == S_UNSAT) { INC(pathsInfeasible); pathExit(); }
  learn(c);
  if (r == S_SAT) { g_ps.cur = m; g_ps.curValid = true; } else g_ps.curValid = false;
}
static bool pcHas(const Expr* c) { for (auto* p : g_ps.pc) if (p == c) return true; return false; }
// decide a symbolic condition, forking when both outcomes are feasible
static const Expr* simplifyReal(const Expr* c) {
  if ((c->k == K_RLT || c->k == K_RLE || c->k == K_REQ)) {
    const Expr* d = mkR(K_RADD, c->x[0], mkRNeg(c->x[1]));
    long double v;
    if (nfConst(d, v)) {
      bool z = fabsl(v) < 1e-15L;
      return mkConst(c->k == K_RLT ? (!z && v < 0) : c->k == K_RLE ? (z || v < 0) : z, 1);
    }
  }
  return c;
}
static bool branch(const Expr* c) {
  if (c->flags & 2) c = simplifyReal(c);
  if (isC(c)) return c->a;
  const Expr* nc = mkNot(c);
  if (pcHas(c)) return true;
  if (pcHas(nc)) return false;
  Assign m;
  if (g_ps.curValid && evalOK(c)) {
    bool v = evalCur(c);
    const Expr *mine = v ? c : nc, *other = v ? nc : c;
    SR r = checkSat(other, &m);
    if (r == S_UNSAT) return v;
    if (!forkPath()) {  // child takes the other side
      learn(other);
      if (r == S_SAT) { g_ps.cur = m; } else g_ps.curValid = false;
      return !v;
    }
    learn(mine);
    return v;
  }
  Assign m2;
  SR r1 = checkSat(c, &m), r2 = checkSat(nc, &m2);
  if (r1 == S_UNSAT && r2 == S_UNSAT) { INC(pathsInfeasible); pathExit(); }
  if (r1 == S_UNSAT || r2 == S_UNSAT) {
    bool v = r2 == S_UNSAT;
    Assign& mm = v ? m : m2;
    if ((v ? r1 : r2) == S_SAT) { g_ps.cur = mm; g_ps.curValid = true; }
    return v;
  }
  if (!forkPath()) {
    learn(nc);
    if (r2 == S_SAT) { g_ps.cur = m2; g_ps.curValid = true; } else g_ps.curValid = false;
    return false;
  }
  learn(c);
  if (r1 == S_SAT) { g_ps.cur = m; g_ps.curValid = true; } else g_ps.curValid = false;
  return true;
}
static uint64_t concretize(const Expr* e) {
  if (isC(e)) return e->a;
  auto it = g_known.find(e);
  if (it != g_known.end()) return it->second;
  INC(concretized);
  if (e->k == K_VAR && g_vars[e->a].kind == 1 && g_vars[e->a].hi - g_vars[e->a].lo < 4096) {
    // an input that only its own range constrains: every value of the range is feasible, no query is needed
    bool only = true;
    for (size_t i = 0; i < g_ps.pc.size() && only; i++) {
      bool uses = false;
      for (auto v : g_ps.pcVars[i]) uses |= v == e->a;
      const Expr* c = g_ps.pc[i];
      if (uses && !(c->k == K_SLE && ((c->x[0] == e && isC(c->x[1])) || (c->x[1] == e && isC(c->x[0]))))) only = false;
    }
    if (only) {
      int64_t lo = (int64_t)g_vars[e->a].lo, hi = (int64_t)g_vars[e->a].hi;
      for (int64_t v = lo;; v++) {
        if (v < hi && !forkPath()) continue;
        uint64_t u = maskw(e->w) & (uint64_t)v;
        learn(mkCmp(K_EQ, e, mkConst(u, e->w)));
        g_known[e] = u;
        if (g_ps.curValid) g_ps.cur.bv[e->a] = u;
        return u;
      }
    }
  }
  while (true) {
    needModel();
    if (!g_ps.curValid) engineError("no model while concretising");
    EvalCtx ec; ec.as = &g_ps.cur;
    uint64_t v = (uint64_t)evalBV(e, ec);
    const Expr* eq = mkCmp(K_EQ, e, mkConst(v, e->w));
    if (isC(eq)) return v;
    Assign m;
    SR r = checkSat(mkNot(eq), &m);
    if (r == S_UNSAT) { g_known[e] = v; return v; }
    if (r == S_UNK) engineError("solver unknown while concretising");
    if (forkPath()) { learn(eq); g_known[e] = v; return v; }
    learn(mkNot(eq));
    g_ps.cur = m;
  }
}
static uint64_t conc(const Val& v) { return v.e ? concretize(v.e) : v.c; }

// ------------------------------------------------------------------ memory
struct SB { const Expr* e; uint8_t idx; };
struct Obj {
  uint64_t size = 0;
  uint8_t* data = nullptr;
  uint8_t* st = nullptr;   // per byte: 0 uninit, 1 concrete, 2 symbolic; null => all concrete
  SB* sb = nullptr;
  uint8_t kind = 0;        // 1 global 2 stack 3 heap 4 function
  bool freed = false, ro = false;
  const char* name = "";
};
static std::vector<Obj> g_objs(1);
static std::vector<uint32_t> g_freeIds;
static void* bigAlloc(size_t n) {
  if (n < 65536) return calloc(n ? n : 1, 1);
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) engineError("out of memory");
  return p;
}
static void bigFree(void* p, size_t n) { if (!p) return; if (n < 65536) free(p); else munmap(p, n); }
static uint64_t newObj(uint64_t size, int kind, const char* name, bool uninit) {
  uint32_t id;
  if (kind == 2 && !g_freeIds.empty()) { id = g_freeIds.back(); g_freeIds.pop_back(); g_objs[id] = Obj(); }
  else { id = g_objs.size(); g_objs.emplace_back(); }
  Obj& o = g_objs[id];
  o.size = size; o.kind = kind; o.name = name;
  o.data = (uint8_t*)bigAlloc(size);
  if (uninit) o.st = (uint8_t*)bigAlloc(size);
  return (uint64_t)id << 32;
}
static void freeObjMem(Obj& o) {
  bigFree(o.data, o.size); bigFree(o.st, o.size);
  if (o.sb) bigFree(o.sb, o.size * sizeof(SB));
  o.data = nullptr; o.st = nullptr; o.sb = nullptr;
}
static void ensureSym(Obj& o) {
  if (!o.st) { o.st = (uint8_t*)bigAlloc(o.size); memset(o.st, 1, o.size); }
  if (!o.sb) o.sb = (SB*)bigAlloc(o.size * sizeof(SB));
}
[[noreturn]] static void pathViolation(const char* kind, const std::string& msg) {
  needModel();
  Assign a = g_ps.cur;
  reportViolation(kind, msg, a);
  pathExit();
}
static Obj* g_lastObj = nullptr;
// resolve an address for an n byte access; returns object & offset.  Violations end the path.
static Obj& resolve(uint64_t addr, uint64_t n, uint64_t& off, bool write, const char* what) {
  uint32_t id = addr >> 32;
  off = addr & 0xffffffffu;
  if (id == 0 || id >= g_objs.size()) {
    if (addr < 65536) pathViolation("null", std::string(what) + " through a null pointer");
    pathViolation("oob", std::string(what) + " through an invalid pointer");
  }
  Obj& o = g_objs[id];
  if (o.freed) pathViolation("uaf", std::string(what) + " of freed memory");
  if (o.kind == 4) pathViolation("oob", std::string(what) + " of a function address");
  if (off + n > o.size) {
    if (off >= 0x80000000u || off >= o.size || true)
      pathViolation("oob", std::string(what) + " out of bounds (" + (o.kind == 3 ? "heap" : o.kind == 2 ? "stack" : "global") + " object)");
  }
  if (write && o.ro) pathViolation("oob", "write to constant memory");
  return o;
}
// bounds check of a symbolic address; returns the object it points into (g_known addresses excepted)
static uint32_t boundsSym(const Val& p, uint64_t n, const char* what, const Expr*& rel) {
  needModel();
  EvalCtx ec; ec.as = &g_ps.cur;
  uint64_t v = (uint64_t)evalBV(p.e, ec);
  uint32_t id = v >> 32;
  if (id == 0 || id >= g_objs.size() || g_objs[id].freed || g_objs[id].size < n || (v & 0xffffffffu) + n > g_objs[id].size)
    pathViolation("oob", std::string(what) + " out of bounds (symbolic index)");
  Obj& o = g_objs[id];
  rel = mkBin(K_SUB, p.e, mkConst((uint64_t)id << 32, 64));
  const Expr* inb = mkCmp(K_ULE, rel, mkConst(o.size - n, 64));
  Assign m;
  if (!isC(inb)) {
    SR r = checkSat(mkNot(inb), &m);
    if (r != S_UNSAT) {
      if (r == S_SAT) reportViolation("oob", std::string(what) + " out of bounds (symbolic index)", m);
      else INC(inconclusive);
      learn(inb);
    }
  }
  return id;
}
static uint64_t resolveSym(const Val& p, uint64_t n, const char* what) {
  if (!p.e) return p.c;
  auto it = g_known.find(p.e);
  if (it != g_known.end()) return it->second;
  const Expr* rel;
  boundsSym(p, n, what, rel);
  return concretize(p.e);
}
// lower bound on the number of trailing zero bits
static int trailZ(const Expr* e, int depth = 0) {
  if (isC(e)) return e->a ? __builtin_ctzll(e->a) : 64;
  if (depth > 12) return 0;
  switch (e->k) {
    case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(trailZ(e->x[0], depth + 1), trailZ(e->x[1], depth + 1));
    case K_MUL: return std::min(63, trailZ(e->x[0], depth + 1) + trailZ(e->x[1], depth + 1));
    case K_AND: return std::max(trailZ(e->x[0], depth + 1), trailZ(e->x[1], depth + 1));
    case K_SHL: return isC(e->x[1]) ? std::min<int>(63, trailZ(e->x[0], depth + 1) + (int)std::min<uint64_t>(63, e->x[1]->a)) : trailZ(e->x[0], depth + 1);
    case K_ITE: return std::min(trailZ(e->x[1], depth + 1), trailZ(e->x[2], depth + 1));
    case K_CONCAT: { int z = trailZ(e->x[1], depth + 1); return z >= e->x[1]->w ? e->x[1]->w : z; }
    case K_ZEXT: case K_SEXT: { int z = trailZ(e->x[0], depth + 1); return z >= e->x[0]->w ? 0 : z; }
    default: return 0;
  }
}

// ------------------------------------------------------------------ types
enum Cls : uint8_t { C_VOID, C_INT, C_PTR, C_F32, C_F64, C_F80, C_AGG, C_F16 };
struct TI { Cls cls; uint16_t w; uint64_t size; std::vector<std::pair<uint64_t, TI*>> el; };
static const DataLayout* DL;
static std::unordered_map<Type*, TI*> g_ti;
static TI* getTI(Type* t) {
  auto it = g_ti.find(t);
  if (it != g_ti.end()) return it->second;
  TI* r = new TI{C_VOID, 0, 0, {}};
  g_ti[t] = r;
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy()) return r;
  r->size = DL->getTypeStoreSize(t);
  if (auto* it2 = dyn_cast<IntegerType>(t)) { r->cls = C_INT; r->w = it2->getBitWidth(); }
  else if (t->isPointerTy()) { r->cls = C_PTR; r->w = 64; }
  else if (t->isFloatTy()) { r->cls = C_F32; r->w = 32; }
  else if (t->isDoubleTy()) { r->cls = C_F64; r->w = 64; }
  else if (t->isX86_FP80Ty()) { r->cls = C_F80; r->w = 64; }
  else if (t->isHalfTy() || t->isBFloatTy()) { r->cls = C_F16; r->w = 16; }
  else if (auto* st = dyn_cast<StructType>(t)) {
    r->cls = C_AGG;
    if (!st->isOpaque()) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r->el.push_back({sl->getElementOffset(i), getTI(st->getElementType(i))}); }
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    r->cls = C_AGG; uint64_t es = DL->getTypeAllocSize(at->getElementType());
    if (at->getNumElements() < 4096) for (uint64_t i = 0; i < at->getNumElements(); i++) r->el.push_back({i * es, getTI(at->getElementType())});
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    r->cls = C_AGG; uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) r->el.push_back({i * es, getTI(vt->getElementType())});
  }
  return r;
}

static long double snapDec(double d, bool isF) {  // shortest decimal that round-trips
  if (d == 0 || (d == floor(d) && fabs(d) < 1e15)) return d;
  char b[64];
  for (int p = 1; p <= 17; p++) {
    snprintf(b, sizeof b, "%.*g", p, d);
    if (isF ? (strtof(b, nullptr) == (float)d) : (strtod(b, nullptr) == d)) return strtold(b, nullptr);
  }
  return d;
}
static bool isSpecial(uint64_t c, int w) { if (w == 32) return (c & 0x7f800000u) == 0x7f800000u; return (c & 0x7ff0000000000000ull) == 0x7ff0000000000000ull; }
static double bitsToD(uint64_t c, int w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t dToBits(double d, int w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
static const Expr* toReal(const Val& v, int w) {
  if (v.e) { if (v.e->k == K_RBITS) return v.e->x[0]; if (v.e->w != 0) engineError("bit-level value used as a real"); return v.e; }
  return mkRConst(snapDec(bitsToD(v.c, w), w == 32));
}
static Val fromReal(const Expr* e, int w) {
  if (e->k == K_RCONST) {
    long double x = e->r;
    if (std::isinf(x)) return Val(dToBits((double)x, w));
    if (std::isnan(x)) return Val(dToBits(NAN, w));
    double d = w == 32 ? (double)(float)x : (double)x;
    if (!std::isinf(d) && snapDec(d, w == 32) == x) return Val(dToBits(d, w));
  }
  return Val(e);
}

static std::unordered_map<const Expr*, const Expr*> g_uninitR;
static const Expr* bvToReal(const Expr* e, int w) {  // bit pattern loaded as a float in real mode
  if (e->k == K_RBITS) return e->x[0];
  if (e->k == K_ITE) {
    auto side = [&](const Expr* s) -> const Expr* { return isC(s) ? toReal(Val(s->a), w) : bvToReal(s, w); };
    return mkRIte(e->x[0], side(e->x[1]), side(e->x[2]));
  }
  if (e->k == K_VAR || e->k == K_CONCAT) { auto& r = g_uninitR[e]; if (!r) r = mkRVar("uninit", false, -1000, 1000); return r; }
  engineError("integer bits reinterpreted as a real: " + exprStr(e, 4));
}

static Val loadInt(Obj& o, uint64_t off, int bytes, int w, Cls cls) {
  bool conc = true, uninit = false;
  if (o.st) for (int i = 0; i < bytes; i++) { if (o.st[off + i] != 1) conc = false; if (o.st[off + i] == 0) uninit = true; }
  if (conc) {
    if (bytes <= 8) {
      uint64_t v = 0;
      memcpy(&v, o.data + off, bytes);
      return Val(v & maskw(w));
    }
    uint64_t lo, hi = 0;
    memcpy(&lo, o.data + off, 8); memcpy(&hi, o.data + off + 8, std::min(8, bytes - 8));
    return Val(mkConst128(lo, hi, w));
  }
  if (uninit) {
    INC(uninitReads);
    ensureSym(o);
    bool all = true;
    for (int i = 0; i < bytes; i++) if (o.st[off + i] != 0) all = false;
    if (all && bytes <= 8) {
      const Expr* v = (g_real && (cls == C_F32 || cls == C_F64)) ? mkRBits(mkRVar("uninit", false, -1000, 1000), bytes * 8) : mkVar("uninit", bytes * 8, false);
      for (int i = 0; i < bytes; i++) { o.st[off + i] = 2; o.sb[off + i] = {v, (uint8_t)i}; }
    } else
      for (int i = 0; i < bytes; i++) if (o.st[off + i] == 0) { o.st[off + i] = 2; o.sb[off + i] = {mkVar("uninit", 8, false), 0}; }
  }
  // single expression?
  if (o.st[off] == 2) {
    const Expr* e = o.sb[off].e;
    bool same = e->w == bytes * 8 && o.sb[off].idx == 0;
    for (int i = 1; same && i < bytes; i++) same = o.st[off + i] == 2 && o.sb[off + i].e == e && o.sb[off + i].idx == i;
    if (same) return w == bytes * 8 ? Val(e) : fromE(mkExtract(e, 0, w));
  }
  const Expr* r = nullptr;
  for (int i = bytes - 1; i >= 0; i--) {
    const Expr* b;
    if (o.st[off + i] == 1) b = mkConst(o.data[off + i], 8);
    else {
      const Expr* e = o.sb[off + i].e;
      if (e->k == K_RBITS) engineError("partial access to the bytes of a real");
      b = mkExtract(e, o.sb[off + i].idx * 8, 8);
    }
    r = r ? mkConcat(r, b) : b;
  }
  return fromE(w == bytes * 8 ? r : mkExtract(r, 0, w));
}
static void storeInt(Obj& o, uint64_t off, int bytes, const Val& v, int w) {
  if (!v.e) {
    uint64_t c = v.c;
    if (bytes <= 8) memcpy(o.data + off, &c, bytes); else { memcpy(o.data + off, &c, 8); memset(o.data + off + 8, 0, bytes - 8); }
    if (o.st) memset(o.st + off, 1, bytes);
    return;
  }
  const Expr* e = v.e;
  if (isC(e) && e->w > 64) {
    memcpy(o.data + off, &e->a, 8); memcpy(o.data + off + 8, &e->b, std::min(8, bytes - 8));
    if (o.st) memset(o.st + off, 1, bytes);
    return;
  }
  if (e->w < bytes * 8) e = mkZext(e, bytes * 8);
  ensureSym(o);
  for (int i = 0; i < bytes; i++) { o.st[off + i] = 2; o.sb[off + i] = {e, (uint8_t)i}; }
}
static Val loadT(uint64_t addr, TI* t) {
  uint64_t off;
  if (t->cls == C_AGG) {
    std::vector<Val> v;
    for (auto& p : t->el) v.push_back(loadT(addr + p.first, p.second));
    return Val(mkAgg(std::move(v)));
  }
  if (t->cls == C_F80) {
    Obj& o = resolve(addr, 10, off, false, "read");
    long double ld = 0; memcpy(&ld, o.data + off, 10);
    double d = (double)ld; uint64_t u; memcpy(&u, &d, 8); return Val(u);
  }
  Obj& o = resolve(addr, t->size, off, false, "read");
  if (!o.st && t->size <= 8) {
    uint64_t v = 0; memcpy(&v, o.data + off, t->size);
    return Val(v & maskw(t->w));
  }
  Val v = loadInt(o, off, t->size, t->w, t->cls);
  if (v.e && g_real && (t->cls == C_F32 || t->cls == C_F64)) return fromReal(bvToReal(v.e, t->w), t->w);
  return v;
}
static void storeT(uint64_t addr, const Val& v, TI* t) {
  uint64_t off;
  if (t->cls == C_AGG) {
    if (!v.e) { for (auto& p : t->el) storeT(addr + p.first, Val(0), p.second); return; }
    for (size_t i = 0; i < t->el.size(); i++) storeT(addr + t->el[i].first, (*v.e->agg)[i], t->el[i].second);
    return;
  }
  if (t->cls == C_F80) {
    Obj& o = resolve(addr, 10, off, true, "write");
    double d; memcpy(&d, &v.c, 8); long double ld = d; memcpy(o.data + off, &ld, 10);
    if (o.st) memset(o.st + off, 1, 10);
    return;
  }
  Obj& o = resolve(addr, t->size, off, true, "write");
  if (!v.e) {
    if (t->size <= 8) { uint64_t c = v.c & maskw(t->w); memcpy(o.data + off, &c, t->size); if (o.st) memset(o.st + off, 1, t->size); return; }
  }
  if (v.e && v.e->w == 0 && v.e->k != K_AGG) { storeInt(o, off, t->size, Val(mkRBits(v.e, t->w)), t->w); return; }
  storeInt(o, off, t->size, v, t->w);
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  uint64_t so, dof;
  Obj& a = resolve(s, n, so, false, "read");
  Obj& b = resolve(d, n, dof, true, "write");
  memmove(b.data + dof, a.data + so, n);
  if (a.st || b.st) {
    bool anySym = false;
    if (a.st && a.sb) anySym = memchr(a.st + so, 2, n) != nullptr;
    if (anySym) { ensureSym(b); memmove(b.sb + dof, a.sb + so, n * sizeof(SB)); }
    if (a.st) { if (!b.st) { b.st = (uint8_t*)bigAlloc(b.size); memset(b.st, 1, b.size); } memmove(b.st + dof, a.st + so, n); }
    else memset(b.st + dof, 1, n);
  }
}
static void memSet(uint64_t d, const Val& v, uint64_t n) {
  if (!n) return;
  uint64_t dof;
  Obj& b = resolve(d, n, dof, true, "write");
  if (!v.e) { memset(b.data + dof, (int)v.c, n); if (b.st) memset(b.st + dof, 1, n); return; }
  ensureSym(b);
  for (uint64_t i = 0; i < n; i++) { b.st[dof + i] = 2; b.sb[dof + i] = {mkExtract(v.e, 0, 8), 0}; }
}
// loads, stores and copies whose address is symbolic but stays inside one small object: one path, a choice per slot
static const uint64_t SYM_SLOTS = 40;
static bool loadSym(const Val& p, TI* t, const char* what, Val& out) {
  if (!p.e || g_known.count(p.e) || t->cls == C_AGG || t->cls == C_F80 || t->cls == C_PTR || t->size > 8) return false;
  const Expr* rel; uint64_t n = t->size;
  uint32_t id = boundsSym(p, n, what, rel);
  uint64_t slots = g_objs[id].size / n, base = (uint64_t)id << 32;
  if (slots > SYM_SLOTS || (n & (n - 1)) || (1 << trailZ(rel)) < (int)n) return false;
  bool real = g_real && (t->cls == C_F32 || t->cls == C_F64);
  Val acc; bool first = true;
  for (uint64_t k = slots; k-- > 0;) {
    const Expr* c = mkCmp(K_EQ, rel, mkConst(k * n, 64));
    if (isC(c) && !c->a) continue;
    Val v = loadT(base + k * n, t);
    if (first) { acc = v; first = false; continue; }
    if (real) acc = fromReal(mkRIte(c, toReal(v, t->w), toReal(acc, t->w)), t->w);
    else acc = fromE(mkIte(c, v.e ? v.e : mkConst(v.c, t->w), acc.e ? acc.e : mkConst(acc.c, t->w)));
  }
  if (first) return false;
  out = acc;
  return true;
}
static bool storeSym(const Val& p, const Val& v, TI* t) {
  if (!p.e || g_known.count(p.e) || t->cls == C_AGG || t->cls == C_F80 || t->cls == C_PTR || t->size > 8) return false;
  const Expr* rel; uint64_t n = t->size;
  uint32_t id = boundsSym(p, n, "write", rel);
  uint64_t slots = g_objs[id].size / n, base = (uint64_t)id << 32;
  if (g_objs[id].ro || slots > SYM_SLOTS || (n & (n - 1)) || (1 << trailZ(rel)) < (int)n) return false;
  bool real = g_real && (t->cls == C_F32 || t->cls == C_F64);
  for (uint64_t k = 0; k < slots; k++) {
    const Expr* c = mkCmp(K_EQ, rel, mkConst(k * n, 64));
    if (isC(c) && !c->a) continue;
    Val old = loadT(base + k * n, t), nv;
    if (real) nv = fromReal(mkRIte(c, toReal(v, t->w), toReal(old, t->w)), t->w);
    else nv = fromE(mkIte(c, v.e ? v.e : mkConst(v.c & maskw(t->w), t->w), old.e ? old.e : mkConst(old.c, t->w)));
    storeT(base + k * n, nv, t);
  }
  return true;
}
static const Expr* word(uint64_t ad, int g) {
  uint64_t off; Obj& o = resolve(ad, g, off, false, "read");
  Val v = loadInt(o, off, g, g * 8, C_INT);
  return v.e ? v.e : mkConst(v.c, g * 8);
}
static void memCopyV(const Val& d, const Val& s, uint64_t n) {
  if (!n) return;
  bool ds = d.e && !g_known.count(d.e), ss = s.e && !g_known.count(s.e);
  int g = n % 8 == 0 ? 8 : n % 4 == 0 ? 4 : n % 2 == 0 ? 2 : 1;
  if (ds == ss || n > 64) { uint64_t a = resolveSym(d, n, "write"); memCopy(a, resolveSym(s, n, "read"), n); return; }
  const Expr* rel; uint32_t id = boundsSym(ds ? d : s, n, ds ? "write" : "read", rel);
  uint64_t osz = g_objs[id].size, base = (uint64_t)id << 32, other = ds ? resolveSym(s, n, "read") : resolveSym(d, n, "write");
  // split into words that the contents of the object respect
  while (g > 1 && ((1 << trailZ(rel)) < g)) g /= 2;
  { Obj& o = g_objs[id]; Obj& q = g_objs[other >> 32];
    auto split = [&](Obj& b, uint64_t from, uint64_t len) { if (b.st && b.sb) for (uint64_t i = from; i < from + len && i < b.size; i++) if (b.st[i] == 2 && b.sb[i].e->w == 32 && g == 8) g = 4; };
    split(o, 0, o.size); split(q, other & 0xffffffffu, n); }
  uint64_t slots = (osz - n) / g + 1;
  if (slots > SYM_SLOTS) { if (ds) memCopy(concretize(d.e), other, n); else memCopy(other, concretize(s.e), n); return; }
  if (ss) {
    std::vector<const Expr*> w;
    for (uint64_t j = 0; j < n; j += g) {
      const Expr* acc = nullptr;
      for (uint64_t k = slots; k-- > 0;) {
        const Expr* c = mkCmp(K_EQ, rel, mkConst(k * g, 64));
        if (isC(c) && !c->a) continue;
        const Expr* v = word(base + k * g + j, g);
        acc = acc ? mkIte(c, v, acc) : v;
      }
      w.push_back(acc);
    }
    for (uint64_t j = 0; j < n; j += g) { uint64_t off; Obj& o = resolve(other + j, g, off, true, "write"); storeInt(o, off, g, fromE(w[j / g]), g * 8); }
  } else {
    std::vector<const Expr*> w;
    for (uint64_t j = 0; j < n; j += g) w.push_back(word(other + j, g));
    for (uint64_t a = 0; a + g <= osz; a += g) {
      const Expr *old = word(base + a, g), *nv = old;
      for (uint64_t j = 0; j < n; j += g) if (a >= j && (a - j) / g < slots) {
        const Expr* c = mkCmp(K_EQ, rel, mkConst(a - j, 64));
        if (!(isC(c) && !c->a)) nv = mkIte(c, w[j / g], nv);
      }
      if (nv != old) { uint64_t off; Obj& o = resolve(base + a, g, off, true, "write"); storeInt(o, off, g, fromE(nv), g * 8); }
    }
  }
}
static std::string cstr(uint64_t a) {
  std::string s;
  uint64_t off;
  Obj& o = resolve(a, 1, off, false, "read");
  while (off < o.size && o.data[off]) s += (char)o.data[off++];
  return s;
}

// ------------------------------------------------------------------ decoded code
enum Op : uint16_t {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_FBIN, O_FNEG, O_ICMP, O_FCMP, O_SELECT, O_TRUNC, O_ZEXT, O_SEXT, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT,
  O_BITCAST, O_MOV, O_GEP, O_LOAD, O_STORE, O_ALLOCA, O_CALL, O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACH, O_EXTRACT, O_INSERT,
  O_VEXT, O_VINS, O_SHUF, O_RMW, O_CMPXCHG, O_NOP, O_VBIN, O_BAD
};
struct DFunc;
struct Edge { int blk; std::vector<std::pair<int, int>> moves; };
struct GepPart { int idx; uint64_t scale; int w; };
struct DInst {
  uint16_t op; uint8_t sub; uint8_t flags; int32_t dst = -1; int32_t a = 0, b = 0, c = 0;
  uint64_t imm = 0; TI* ti = nullptr; TI* ti2 = nullptr; void* p = nullptr; Instruction* I = nullptr;
};
struct CallInfo { DFunc* f = nullptr; std::vector<int> args; std::vector<TI*> at; int fp = 0; bool indirect = false; };
struct GepInfo { int64_t off; std::vector<GepPart> parts; };
struct SwInfo { int def; std::vector<std::pair<Val, int>> cases; };
typedef Val (*Builtin)(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I);
struct DFunc {
  Function* F; int id; std::string name; bool decoded = false; int nregs = 0; std::vector<Val> consts;
  std::vector<std::vector<DInst>> blocks; std::vector<Edge> edges; Builtin bi = nullptr; TI* rt = nullptr; int nargs = 0;
};
static std::vector<DFunc*> g_funcs;
static std::unordered_map<Function*, DFunc*> g_fmap;
static std::unordered_map<uint64_t, DFunc*> g_addrFunc;
static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr;
struct Frame { DFunc* f; Val* regs; std::vector<DInst>* blk; size_t pc; std::vector<uint32_t> allocas; int retDst; };
static std::vector<Frame> g_stack;
static Val* g_regTop; static Val* g_regBase; static const size_t REGS = 1u << 25;
// cooperative threads of one path: each has its own call and register stack; the running thread's live in the globals above
struct Thr { std::vector<Frame> stack; Val *top, *base; };
static std::vector<Thr> g_thr(1);
static size_t g_cur;

static std::string callStack() {
  std::string s;
  int n = 0;
  for (int i = (int)g_stack.size() - 1; i >= 0 && n < 9; i--) {
    std::string d = llvm::demangle(g_stack[i].f->name);
    if (d.rfind("std::", 0) == 0 && n > 2) continue;
    if (d.size() > 110) d = d.substr(0, 110);
    s += (n ? " < " : "") + d;
    n++;
  }
  return s;
}

static Val constVal(const Constant* c);
static uint64_t gepConst(const GEPOperator* g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) engineError("non-constant constant gep");
  return off.getSExtValue();
}
static Val apVal(const APInt& v) {
  if (v.getBitWidth() <= 64) return Val(v.getZExtValue());
  return Val(mkConst128(v.getRawData()[0], v.getRawData()[1], v.getBitWidth()));
}
static Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return apVal(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isX86_FP80Ty()) { bool l; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return Val(f.bitcastToAPInt().getZExtValue()); }
    return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (isa<UndefValue>(c)) { if (getTI(c->getType())->cls == C_AGG) { std::vector<Val> v; TI* t = getTI(c->getType()); std::function<Val(TI*)> z = [&](TI* t) -> Val { if (t->cls != C_AGG) return t->w > 64 ? Val(mkConst128(0, 0, t->w)) : Val(0); std::vector<Val> q; for (auto& e : t->el) q.push_back(z(e.second)); return Val(mkAgg(std::move(q))); }; return z(t); } return Val(0); }
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    return Val(g_gaddr.at(gv));
  }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    std::vector<Val> v;
    unsigned n = getTI(c->getType())->el.size();
    for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
    return Val(mkAgg(std::move(v)));
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return Val(constVal(ce->getOperand(0)).c + gepConst(cast<GEPOperator>(ce)));
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: return Val(constVal(ce->getOperand(0)).c & maskw(getTI(c->getType())->w));
      case Instruction::Trunc: { uint64_t v = constVal(ce->getOperand(0)).c; int w = getTI(c->getType())->w; if (v & ~maskw(w)) engineError("lossy truncation of a constant address"); return Val(v); }
      case Instruction::Add: return Val((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(getTI(c->getType())->w));
      case Instruction::Sub: return Val((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(getTI(c->getType())->w));
      case Instruction::ICmp: { auto p = ce->getPredicate(); uint64_t x = constVal(ce->getOperand(0)).c, y = constVal(ce->getOperand(1)).c; if (p == CmpInst::ICMP_EQ) return Val(x == y); if (p == CmpInst::ICMP_NE) return Val(x != y); break; }
      default: break;
    }
    engineError(std::string("constant expression ") + ce->getOpcodeName());
  }
  engineError("constant kind");
}
static void initMem(uint64_t addr, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t off; StringRef r = cd->getRawDataValues();
    if (r.empty()) return;
    Obj& o = resolve(addr, r.size(), off, false, "init");
    memcpy(o.data + off, r.data(), r.size());
    return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto* st = dyn_cast<StructType>(c->getType())) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) initMem(addr + sl->getElementOffset(i), ca->getOperand(i));
    } else {
      Type* et = isa<ArrayType>(c->getType()) ? cast<ArrayType>(c->getType())->getElementType() : cast<VectorType>(c->getType())->getElementType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(addr + i * es, ca->getOperand(i));
    }
    return;
  }
  storeT(addr, constVal(c), getTI(c->getType()));
}

static DFunc* getFunc(Function* F);
struct Decoder {
  DFunc* f; std::unordered_map<const Value*, int> slot; std::unordered_map<const Value*, int> cslot; std::unordered_map<const BasicBlock*, int> bid;
  int reg(const Value* v) { auto it = slot.find(v); if (it != slot.end()) return it->second; int r = f->nregs++; slot[v] = r; return r; }
  int opn(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(v);
      if (it != cslot.end()) return it->second;
      f->consts.push_back(constVal(c));
      int r = -(int)f->consts.size();
      cslot[v] = r;
      return r;
    }
    return reg(v);
  }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.blk = bid[to];
    for (auto& phi : to->phis()) e.moves.push_back({reg(&phi), opn(phi.getIncomingValueForBlock(from))});
    f->edges.push_back(std::move(e));
    return f->edges.size() - 1;
  }
  void run(DFunc* df) {
    f = df;
    Function& F = *df->F;
    for (auto& a : F.args()) reg(&a);
    int k = 0;
    for (auto& b : F) bid[&b] = k++;
    f->blocks.resize(k);
    for (auto& b : F) {
      auto& out = f->blocks[bid[&b]];
      for (auto& I : b) {
        if (isa<PHINode>(I)) { reg(&I); continue; }
        DInst d; d.op = O_BAD; d.sub = 0; d.flags = 0; d.I = &I;
        decode(I, d, &b);
        if (d.op != O_NOP) out.push_back(d);
      }
    }
    f->decoded = true;
  }
  void decode(Instruction& I, DInst& d, BasicBlock* bb) {
    d.ti = getTI(I.getType());
    if (!I.getType()->isVoidTy()) d.dst = reg(&I);
    unsigned n = I.getNumOperands();
    if (!isa<CallBase>(I) && !isa<BranchInst>(I) && !isa<SwitchInst>(I) && !isa<GetElementPtrInst>(I)) {
      if (n > 0) { d.a = opn(I.getOperand(0)); d.ti2 = getTI(I.getOperand(0)->getType()); }
      if (n > 1) d.b = opn(I.getOperand(1));
      if (n > 2 && !isa<ShuffleVectorInst>(I)) d.c = opn(I.getOperand(2));
    }
    switch (I.getOpcode()) {
      case Instruction::Add: d.op = O_ADD; break;
      case Instruction::Sub: d.op = O_SUB; break;
      case Instruction::Mul: d.op = O_MUL; break;
      case Instruction::UDiv: d.op = O_UDIV; break;
      case Instruction::SDiv: d.op = O_SDIV; break;
      case Instruction::URem: d.op = O_UREM; break;
      case Instruction::SRem: d.op = O_SREM; break;
      case Instruction::And: d.op = O_AND; break;
      case Instruction::Or: d.op = O_OR; break;
      case Instruction::Xor: d.op = O_XOR; break;
      case Instruction::Shl: d.op = O_SHL; break;
      case Instruction::LShr: d.op = O_LSHR; break;
      case Instruction::AShr: d.op = O_ASHR; break;
      case Instruction::FAdd: d.op = O_FBIN; d.sub = K_FADD; break;
      case Instruction::FSub: d.op = O_FBIN; d.sub = K_FSUB; break;
      case Instruction::FMul: d.op = O_FBIN; d.sub = K_FMUL; break;
      case Instruction::FDiv: d.op = O_FBIN; d.sub = K_FDIV; break;
      case Instruction::FRem: d.op = O_FBIN; d.sub = K_FREM; break;
      case Instruction::FNeg: d.op = O_FNEG; break;
      case Instruction::ICmp: d.op = O_ICMP; d.sub = cast<ICmpInst>(I).getPredicate(); break;
      case Instruction::FCmp: d.op = O_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); break;
      case Instruction::Select: d.op = O_SELECT; break;
      case Instruction::Trunc: d.op = O_TRUNC; break;
      case Instruction::ZExt: d.op = O_ZEXT; break;
      case Instruction::SExt: d.op = O_SEXT; break;
      case Instruction::FPToSI: d.op = O_FPTOSI; break;
      case Instruction::FPToUI: d.op = O_FPTOUI; break;
      case Instruction::SIToFP: d.op = O_SITOFP; break;
      case Instruction::UIToFP: d.op = O_UITOFP; break;
      case Instruction::FPExt: case Instruction::FPTrunc: d.op = O_FPEXT; break;
      case Instruction::BitCast: d.op = O_BITCAST; break;
      case Instruction::PtrToInt: d.op = d.ti->w < 64 ? O_TRUNC : d.ti->w > 64 ? O_ZEXT : O_MOV; break;
      case Instruction::IntToPtr: d.op = d.ti2->w < 64 ? O_ZEXT : O_MOV; break;
      case Instruction::Freeze: case Instruction::AddrSpaceCast: d.op = O_MOV; break;
      case Instruction::GetElementPtr: {
        auto& g = cast<GetElementPtrInst>(I);
        d.op = O_GEP; d.a = opn(g.getPointerOperand());
        if (I.getType()->isVectorTy()) { d.op = O_BAD; break; }
        auto* gi = new GepInfo{0, {}};
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) gi->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            uint64_t sc = it.getSequentialElementStride(*DL);
            if (auto* ci = dyn_cast<ConstantInt>(ix)) gi->off += ci->getSExtValue() * (int64_t)sc;
            else gi->parts.push_back({opn(ix), sc, (int)ix->getType()->getIntegerBitWidth()});
          }
        }
        d.p = gi;
        break;
      }
      case Instruction::Load: d.op = O_LOAD; break;
      case Instruction::Store: d.op = O_STORE; break;
      case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); d.op = O_ALLOCA; d.imm = DL->getTypeAllocSize(al.getAllocatedType()); d.a = opn(al.getArraySize()); break; }
      case Instruction::Br: {
        auto& br = cast<BranchInst>(I);
        if (br.isConditional()) { d.op = O_CBR; d.a = opn(br.getCondition()); d.b = edge(bb, br.getSuccessor(0)); d.c = edge(bb, br.getSuccessor(1)); }
        else { d.op = O_BR; d.b = edge(bb, br.getSuccessor(0)); }
        break;
      }
      case Instruction::Switch: {
        auto& sw = cast<SwitchInst>(I);
        d.op = O_SWITCH; d.a = opn(sw.getCondition()); d.ti2 = getTI(sw.getCondition()->getType());
        auto* si = new SwInfo;
        si->def = edge(bb, sw.getDefaultDest());
        for (auto& cs : sw.cases()) si->cases.push_back({apVal(cs.getCaseValue()->getValue()), edge(bb, cs.getCaseSuccessor())});
        d.p = si;
        break;
      }
      case Instruction::Ret: d.op = O_RET; d.flags = n > 0; break;
      case Instruction::Unreachable: d.op = O_UNREACH; break;
      case Instruction::ExtractValue: { d.op = O_EXTRACT; auto& e = cast<ExtractValueInst>(I); d.p = new std::vector<unsigned>(e.getIndices().begin(), e.getIndices().end()); break; }
      case Instruction::InsertValue: { d.op = O_INSERT; auto& e = cast<InsertValueInst>(I); d.p = new std::vector<unsigned>(e.getIndices().begin(), e.getIndices().end()); break; }
      case Instruction::ExtractElement: d.op = O_VEXT; break;
      case Instruction::InsertElement: d.op = O_VINS; break;
      case Instruction::ShuffleVector: { d.op = O_SHUF; auto m = cast<ShuffleVectorInst>(I).getShuffleMask(); d.p = new std::vector<int>(m.begin(), m.end()); break; }
      case Instruction::AtomicRMW: d.op = O_RMW; d.sub = cast<AtomicRMWInst>(I).getOperation(); break;
      case Instruction::AtomicCmpXchg: d.op = O_CMPXCHG; d.ti2 = getTI(I.getOperand(1)->getType()); break;
      case Instruction::Fence: d.op = O_NOP; break;
      case Instruction::Call: case Instruction::Invoke: {
        auto& cb = cast<CallBase>(I);
        d.op = O_CALL;
        if (isa<DbgInfoIntrinsic>(I)) { d.op = O_NOP; break; }
        auto* ci = new CallInfo;
        for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) { ci->args.push_back(0); ci->at.push_back(getTI(Type::getInt32Ty(I.getContext()))); continue; } ci->args.push_back(opn(a)); ci->at.push_back(getTI(a->getType())); }
        if (auto* ia = dyn_cast<InlineAsm>(cb.getCalledOperand())) {
          d.op = O_CALL; d.sub = ia->getAsmString().find("int3") != std::string::npos ? 1 : 2;
          d.p = ci;
        } else if (auto* cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) {
          ci->f = getFunc(cf);
          if (cf->isIntrinsic()) {
            auto id = cf->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) { d.op = O_NOP; break; }
          }
          d.p = ci;
        } else { ci->indirect = true; ci->fp = opn(cb.getCalledOperand()); d.p = ci; }
        break;
      }
      default: break;
    }
    // element-wise vector arithmetic
    if (d.op <= O_FPEXT && d.op != O_SELECT && I.getType()->isVectorTy()) d.flags |= 2;
    if (d.op == O_SELECT && I.getType()->isVectorTy()) d.flags |= 2;
    if (isa<GetElementPtrInst>(I) && I.getType()->isVectorTy()) d.op = O_BAD;
  }
};
static Builtin findBuiltin(const std::string& n, Function* F);
static DFunc* getFunc(Function* F) {
  auto it = g_fmap.find(F);
  if (it != g_fmap.end()) return it->second;
  DFunc* f = new DFunc;
  f->F = F; f->id = g_funcs.size(); f->name = F->getName().str(); f->rt = getTI(F->getReturnType()); f->nargs = F->arg_size();
  f->bi = findBuiltin(f->name, F);
  g_funcs.push_back(f);
  g_fmap[F] = f;
  return f;
}

// ------------------------------------------------------------------ scalar operations
static inline const Expr* TE(const Val& v, int w) { if (v.e) { if (v.e->w == 0) engineError("real used as bits"); return v.e; } return mkConst(v.c, w); }
static Val opBin(uint16_t op, const Val& a, const Val& b, int w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = maskw(w), x = a.c & m, y = b.c & m;
    switch (op) {
      case O_ADD: return Val((x + y) & m);
      case O_SUB: return Val((x - y) & m);
      case O_MUL: return Val((x * y) & m);
      case O_UDIV: if (!y) pathViolation("div0", "integer division by zero"); return Val(x / y);
      case O_UREM: if (!y) pathViolation("div0", "integer remainder by zero"); return Val(x % y);
      case O_SDIV: { if (!y) pathViolation("div0", "integer division by zero"); int64_t p = sextw(x, w), q = sextw(y, w); if (q == -1) return Val((0 - x) & m); return Val((uint64_t)(p / q) & m); }
      case O_SREM: { if (!y) pathViolation("div0", "integer remainder by zero"); int64_t p = sextw(x, w), q = sextw(y, w); if (q == -1) return Val(0); return Val((uint64_t)(p % q) & m); }
      case O_AND: return Val(x & y);
      case O_OR: return Val(x | y);
      case O_XOR: return Val(x ^ y);
      case O_SHL: return Val(y >= (uint64_t)w ? 0 : (x << y) & m);
      case O_LSHR: return Val(y >= (uint64_t)w ? 0 : x >> y);
      case O_ASHR: return Val((uint64_t)(sextw(x, w) >> (y >= (uint64_t)w ? w - 1 : y)) & m);
    }
  }
  const Expr *x = TE(a, w), *y = TE(b, w);
  if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
    const Expr* z = mkCmp(K_EQ, y, mkConst(0, w));
    if (!isC(z) || z->a) {
      if (isC(z) || branch(z)) pathViolation("div0", "integer division by zero");
    }
  }
  if ((x->k == K_RBITS && !isC(y)) || y->k == K_RBITS) engineError("integer arithmetic on real bits");
  if (x->k == K_RBITS) {
    // sign manipulations on float bits
    uint64_t sgn = x->w == 32 ? 0x80000000u : 0x8000000000000000ull;
    if (op == O_XOR && y->a == sgn) return Val(mkRBits(mkRNeg(x->x[0]), x->w));
    if (op == O_AND && y->a == sgn - 1) {
      bool neg = branch(mkRCmp(K_RLT, x->x[0], mkRConst(0)));
      return neg ? Val(mkRBits(mkRNeg(x->x[0]), x->w)) : Val(x);
    }
    engineError("integer arithmetic on real bits");
  }
  return fromE(mkBin((Kind)(K_ADD + (op - O_ADD)), x, y));
}
static bool isSpecialV(const Val& v, int w) { return !v.e && isSpecial(v.c, w); }
static Val realBin(Kind k, const Val& a, const Val& b, int w) {
  if (!a.e && !b.e && (isSpecial(a.c, w) || isSpecial(b.c, w))) return Val(w == 32 ? fpBin(k, 32, a.c, b.c) : fpBin(k, 64, a.c, b.c));
  bool sa = isSpecialV(a, w), sb = isSpecialV(b, w);
  if (sa || sb) {
    const Val& s = sa ? a : b; const Val& o = sa ? b : a;
    double sv = bitsToD(s.c, w);
    if (std::isnan(sv)) return s;
    switch (k) {
      case K_FADD: return s;
      case K_FSUB: return sa ? s : Val(dToBits(-sv, w));
      case K_FMUL: case K_FDIV: {
        if (k == K_FDIV && sb) return Val(dToBits(0, w));
        const Expr* r = toReal(o, w);
        if (branch(mkRCmp(K_REQ, r, mkRConst(0)))) return k == K_FMUL ? Val(dToBits(NAN, w)) : s;
        bool neg = branch(mkRCmp(K_RLT, r, mkRConst(0)));
        return Val(dToBits(neg ? -sv : sv, w));
      }
      default: engineError("frem with infinity");
    }
  }
  const Expr *x = toReal(a, w), *y = toReal(b, w);
  switch (k) {
    case K_FADD: return fromReal(mkR(K_RADD, x, y), w);
    case K_FSUB: return fromReal(mkR(K_RADD, x, mkRNeg(y)), w);
    case K_FMUL: return fromReal(mkR(K_RMUL, x, y), w);
    case K_FDIV: {
      if (y->k == K_RCONST) {
        if (y->r == 0) {
          if (x->k == K_RCONST) return Val(dToBits(bitsToD(a.e ? dToBits((double)x->r, w) : a.c, w) / bitsToD(b.e ? 0 : b.c, w), w));
          if (branch(mkRCmp(K_REQ, x, mkRConst(0)))) return Val(dToBits(NAN, w));
          bool neg = branch(mkRCmp(K_RLT, x, mkRConst(0)));
          return Val(dToBits(neg ? -INFINITY : INFINITY, w));
        }
        return fromReal(mkR(K_RDIV, x, y), w);
      }
      // symbolic divisor: the real model excludes zero divisors
      long double v;
      if (!nfConst(y, v)) {
        const Expr* nz = mkNot(mkRCmp(K_REQ, y, mkRConst(0)));
        if (!pcHas(nz) && y->k != K_RFUN) {
          bool allExp = false;
          const Expr* t = y;
          // sums of exponentials are positive
          std::function<bool(const Expr*)> pos = [&](const Expr* e) -> bool {
            if (e->k == K_RFUN && e->a == RF_EXP) return true;
            if (e->k == K_RCONST) return e->r > 0;
            if (e->k == K_RADD || e->k == K_RMUL || e->k == K_RDIV) return pos(e->x[0]) && pos(e->x[1]);
            return false; };
          allExp = pos(t);
          if (!allExp) { INC(divAssume); assume(nz); }
        }
      }
      return fromReal(mkR(K_RDIV, x, y), w);
    }
    default: engineError("frem on reals");
  }
}
static Val opF(Kind k, const Val& a, const Val& b, Cls cls) {
  int w = cls == C_F32 ? 32 : 64;
  if (cls == C_F16) engineError("f16 arithmetic");
  if (g_real) {
    if (!a.e && !b.e) {  // both exactly representable: keep concrete when the exact result is
      if (isSpecial(a.c, w) || isSpecial(b.c, w)) return Val(fpBin(k, w, a.c, b.c));
      if (k == K_FREM) return Val(fpBin(k, w, a.c, b.c));
    }
    return realBin(k, a, b, w);
  }
  if (!a.e && !b.e) return Val(fpBin(k, w, a.c, b.c));
  return fromE(mkFP(k, w, TE(a, w), TE(b, w)));
}
static Val opFcmp(int pred, const Val& a, const Val& b, Cls cls) {
  int w = cls == C_F32 ? 32 : 64;
  bool symr = (a.e && a.e->w == 0) || (b.e && b.e->w == 0);
  if (g_real && symr) {
    if (isSpecialV(a, w) || isSpecialV(b, w)) {
      double av = isSpecialV(a, w) ? bitsToD(a.c, w) : 0, bv = isSpecialV(b, w) ? bitsToD(b.c, w) : 0;
      bool nan = std::isnan(av) || std::isnan(bv);
      bool lt = av < bv, gt = av > bv, eq = av == bv;
      bool r = ((pred & 1) && eq && !nan) || ((pred & 2) && gt && !nan) || ((pred & 4) && lt && !nan) || ((pred & 8) && nan);
      return Val(r);
    }
    const Expr *x = toReal(a, w), *y = toReal(b, w);
    const Expr* r;
    switch (pred & 7) {
      case 0: return Val((uint64_t)0);
      case 1: r = mkRCmp(K_REQ, x, y); break;
      case 2: r = mkRCmp(K_RLT, y, x); break;
      case 3: r = mkRCmp(K_RLE, y, x); break;
      case 4: r = mkRCmp(K_RLT, x, y); break;
      case 5: r = mkRCmp(K_RLE, x, y); break;
      case 6: r = mkNot(mkRCmp(K_REQ, x, y)); break;
      default: return Val(1);
    }
    return fromE(r);
  }
  if (!a.e && !b.e) {
    double x = bitsToD(a.c, w), y = bitsToD(b.c, w);
    bool nan = std::isnan(x) || std::isnan(y);
    bool r = ((pred & 1) && x == y) || ((pred & 2) && x > y) || ((pred & 4) && x < y) || ((pred & 8) && nan);
    return Val(r);
  }
  const Expr *x = TE(a, w), *y = TE(b, w);
  const Expr* r = mkConst(0, 1);
  if ((pred & 7) == 7 && !(pred & 8)) return fromE(mkNot(mkFP(K_FUNO, 1, x, y)));
  if ((pred & 7) == 6 && (pred & 8)) return fromE(mkNot(mkFP(K_FEQ, 1, x, y)));
  bool un = pred & 8;
  if (un && (pred & 7)) {  // unordered-or-cond == !(ordered inverse)
    int inv = (~pred) & 7;
    const Expr* q = inv == 0 ? mkConst(0, 1) : inv == 1 ? mkFP(K_FEQ, 1, x, y) : inv == 2 ? mkFP(K_FLT, 1, y, x) : inv == 3 ? mkFP(K_FLE, 1, y, x) : inv == 4 ? mkFP(K_FLT, 1, x, y) : mkFP(K_FLE, 1, x, y);
    return fromE(mkNot(q));
  }
  switch (pred & 7) {
    case 1: r = mkFP(K_FEQ, 1, x, y); break;
    case 2: r = mkFP(K_FLT, 1, y, x); break;
    case 3: r = mkFP(K_FLE, 1, y, x); break;
    case 4: r = mkFP(K_FLT, 1, x, y); break;
    case 5: r = mkFP(K_FLE, 1, x, y); break;
    case 6: r = mkAndB(mkNot(mkFP(K_FEQ, 1, x, y)), mkNot(mkFP(K_FUNO, 1, x, y))); break;
  }
  if (pred == 8) r = mkFP(K_FUNO, 1, x, y);
  return fromE(r);
}
static Val opIcmp(int pred, const Val& a, const Val& b, int w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = maskw(w), x = a.c & m, y = b.c & m;
    int64_t p = sextw(x, w), q = sextw(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return Val(x == y);
      case CmpInst::ICMP_NE: return Val(x != y);
      case CmpInst::ICMP_UGT: return Val(x > y);
      case CmpInst::ICMP_UGE: return Val(x >= y);
      case CmpInst::ICMP_ULT: return Val(x < y);
      case CmpInst::ICMP_ULE: return Val(x <= y);
      case CmpInst::ICMP_SGT: return Val(p > q);
      case CmpInst::ICMP_SGE: return Val(p >= q);
      case CmpInst::ICMP_SLT: return Val(p < q);
      default: return Val(p <= q);
    }
  }
  const Expr *x = TE(a, w), *y = TE(b, w);
  if (g_real && (x->k == K_RBITS || y->k == K_RBITS)) {
    if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) {
      const Expr* p = x->k == K_RBITS ? x->x[0] : isC(x) ? toReal(Val(x->a), w) : bvToReal(x, w);
      const Expr* q = y->k == K_RBITS ? y->x[0] : isC(y) ? toReal(Val(y->a), w) : bvToReal(y, w);
      const Expr* r = mkRCmp(K_REQ, p, q);
      return fromE(pred == CmpInst::ICMP_EQ ? r : mkNot(r));
    }
    // sign test on float bits
    if (x->k == K_RBITS && isC(y) && pred == CmpInst::ICMP_SLT && y->a == 0) return fromE(mkRCmp(K_RLT, x->x[0], mkRConst(0)));
    if (x->k == K_RBITS && isC(y) && pred == CmpInst::ICMP_SGT && sextw(y->a, w) == -1) return fromE(mkNot(mkRCmp(K_RLT, x->x[0], mkRConst(0))));
    engineError("ordering on real bits");
  }
  switch (pred) {
    case CmpInst::ICMP_EQ: return fromE(mkCmp(K_EQ, x, y));
    case CmpInst::ICMP_NE: return fromE(mkNot(mkCmp(K_EQ, x, y)));
    case CmpInst::ICMP_UGT: return fromE(mkCmp(K_ULT, y, x));
    case CmpInst::ICMP_UGE: return fromE(mkCmp(K_ULE, y, x));
    case CmpInst::ICMP_ULT: return fromE(mkCmp(K_ULT, x, y));
    case CmpInst::ICMP_ULE: return fromE(mkCmp(K_ULE, x, y));
    case CmpInst::ICMP_SGT: return fromE(mkCmp(K_SLT, y, x));
    case CmpInst::ICMP_SGE: return fromE(mkCmp(K_SLE, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkCmp(K_SLT, x, y));
    default: return fromE(mkCmp(K_SLE, x, y));
  }
}
static bool isRealV(const Val& v) { return v.e && (v.e->w == 0 || v.e->k == K_RBITS); }
static Val opSelect(const Val& c, const Val& a, const Val& b, TI* t) {
  if (!c.e) return (c.c & 1) ? a : b;
  if (a.e == b.e && a.c == b.c) return a;
  const Expr* ce = c.e;
  if (ce->flags & 2) { ce = simplifyReal(ce); if (isC(ce)) return ce->a ? a : b; }
  if (t->cls == C_PTR || t->cls == C_AGG || t->cls == C_F80 || isRealV(a) || isRealV(b) || (g_real && (t->cls == C_F32 || t->cls == C_F64)) || (g_real && t->w > 1 && (ce->flags & 2)))
    return branch(ce) ? a : b;
  return fromE(mkIte(ce, TE(a, t->w), TE(b, t->w)));
}
static Val opTrunc(const Val& a, int fw, int w) { if (!a.e) return Val(a.c & maskw(w)); return fromE(mkExtract(TE(a, fw), 0, w)); }
static Val opZext(const Val& a, int fw, int w) { if (!a.e && w <= 64) return Val(a.c & maskw(fw)); Val v = fromE(mkZext(TE(a, fw), w)); return v; }
static Val opSext(const Val& a, int fw, int w) { if (!a.e && w <= 64) return Val((uint64_t)sextw(a.c, fw) & maskw(w)); return fromE(mkSext(TE(a, fw), w)); }
static Val opBitcast(const Val& a, TI* from, TI* to);

static Val opConv(DInst& I, const Val& a, TI* from, TI* to) {
  int fw = from->w, tw = to->w;
  switch (I.op) {
    case O_TRUNC: return opTrunc(a, fw, tw);
    case O_ZEXT: return opZext(a, fw, tw);
    case O_SEXT: return opSext(a, fw, tw);
    case O_FPTOSI: case O_FPTOUI: {
      if (!a.e) {
        double d = bitsToD(a.c, fw);
        if (I.op == O_FPTOSI) { if (std::isnan(d) || fabs(d) >= 9.3e18) return Val((1ull << (tw - 1)) & maskw(tw)); return Val((uint64_t)(int64_t)d & maskw(tw)); }
        if (std::isnan(d)) return Val(0);
        return Val((d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(tw));
      }
      if (a.e->w == 0) {
        if (a.e->k == K_ROFBV) { const Expr* b = a.e->x[0]; return fromE(b->w == tw ? b : b->w > tw ? mkExtract(b, 0, tw) : a.e->a ? mkSext(b, tw) : mkZext(b, tw)); }
        long double v;
        if (nfConst(a.e, v)) { v += v > 0 ? 1e-12L : -1e-12L; return Val((uint64_t)(int64_t)v & maskw(tw)); }
        engineError("conversion of a symbolic real to an integer");
      }
      return fromE(mkFP(I.op == O_FPTOSI ? K_F2SI : K_F2UI, tw, a.e));
    }
    case O_SITOFP: case O_UITOFP: {
      bool s = I.op == O_SITOFP;
      if (!a.e) {
        if (g_real) return fromReal(mkRConst(s ? (long double)sextw(a.c, fw) : (long double)(a.c & maskw(fw))), tw);
        if (tw == 32) { float f = s ? (float)sextw(a.c, fw) : (float)(a.c & maskw(fw)); return Val(dToBits(f, 32)); }
        return Val(dToBits(s ? (double)sextw(a.c, fw) : (double)(a.c & maskw(fw)), 64));
      }
      if (g_real) {
        if (fw == 1) { bool b = branch(a.e); return Val(dToBits(b ? (s ? -1 : 1) : 0, tw)); }
        if (a.e->k == K_ZEXT && a.e->x[0]->w == 1) { bool b = branch(a.e->x[0]); return Val(dToBits(b ? 1 : 0, tw)); }
        return Val(mkROfBV(a.e, s));
      }
      return fromE(mkFP(s ? K_SI2F : K_UI2F, tw, a.e));
    }
    case O_FPEXT: {
      if (!a.e) {
        if (fw == tw) return a;
        if (g_real && !isSpecial(a.c, fw)) return fromReal(mkRConst(snapDec(bitsToD(a.c, fw), fw == 32)), tw);
        return Val(dToBits(bitsToD(a.c, fw), tw));
      }
      if (a.e->w == 0) return a;
      if (fw == tw) return a;
      return fromE(mkFP(K_F2F, tw, a.e));
    }
    default: engineError("conversion");
  }
}
static Val opBitcast(const Val& a, TI* from, TI* to) {
  if (from->cls == C_AGG || to->cls == C_AGG) {  // via scratch memory
    static uint64_t scratch = 0;
    if (!scratch) scratch = newObj(256, 1, "bitcast", false);
    storeT(scratch, a, from);
    return loadT(scratch, to);
  }
  if (!a.e) return a;
  bool ff = from->cls == C_F32 || from->cls == C_F64, tf = to->cls == C_F32 || to->cls == C_F64;
  if (g_real && ff && !tf && a.e->w == 0) return Val(mkRBits(a.e, from->w));
  if (g_real && !ff && tf) return fromReal(bvToReal(a.e, to->w), to->w);
  return a;
}
static Val fneg(const Val& a, int w) {
  if (!a.e) return Val(a.c ^ (1ull << (w - 1)));
  if (a.e->w == 0) return fromReal(mkRNeg(a.e), w);
  return fromE(mkBin(K_XOR, a.e, mkConst(1ull << (w - 1), w)));
}
static Val elementwise(DInst& I, const std::function<Val(int)>& f, size_t n) {
  std::vector<Val> v;
  for (size_t i = 0; i < n; i++) v.push_back(f(i));
  return Val(mkAgg(std::move(v)));
}
static Val aggGet(const Val& v, size_t i) { if (!v.e) return Val(0); return (*v.e->agg)[i]; }

// ------------------------------------------------------------------ interpreter
static inline Val& R(Frame& f, int i) { return i >= 0 ? f.regs[i] : f.f->consts[-i - 1]; }
static void pushFrame(DFunc* f, int retDst) {
  if (!f->decoded) { Decoder d; d.run(f); }
  if (g_stack.size() > 4000) pathViolation("recursion", "call depth exceeds 4000");
  if (g_regTop + f->nregs >= g_regBase + REGS) engineError("register stack overflow");
  Frame fr{f, g_regTop, &f->blocks[0], 0, {}, retDst};
  g_regTop += f->nregs;
  g_stack.push_back(std::move(fr));
  SH->cov[f->id] = 1;
}
[[noreturn]] static void trapHit(const std::string& what) {
  if (g_trapPolicy == 0) pathViolation("trap", what);
  INC(pathsTrap); INC(paths);
  pathExit();
}
static void takeEdge(Frame& fr, int e) {
  Edge& ed = fr.f->edges[e];
  size_t n = ed.moves.size();
  if (n == 1) fr.regs[ed.moves[0].first] = R(fr, ed.moves[0].second);
  else if (n) {
    Val tmp[64];
    std::vector<Val> big;
    Val* t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = R(fr, ed.moves[i].second);
    for (size_t i = 0; i < n; i++) fr.regs[ed.moves[i].first] = t[i];
  }
  fr.blk = &fr.f->blocks[ed.blk];
  fr.pc = 0;
}
static Val intrinsic(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I);

// Run until the stack depth drops to `base`
static Val g_retVal;
static void interp(size_t base) {
  while (g_cur || g_stack.size() > base) {
    Frame* fr = &g_stack.back();
    DInst& I = (*fr->blk)[fr->pc++];
    if ((++g_icount & 0xfffff) == 0) { checkDeadline(); if (g_icount > g_maxInstr) engineError("instruction budget per path exceeded"); }
#define A R(*fr, I.a)
#define B R(*fr, I.b)
#define CC R(*fr, I.c)
#define D fr->regs[I.dst]
    if (I.flags & 2) {  // vector element-wise
      TI* et = I.ti->el[0].second; size_t n = I.ti->el.size();
      Val a = A, b = (I.op == O_FNEG || (I.op >= O_TRUNC && I.op <= O_FPEXT)) ? Val(0) : B, c = I.op == O_SELECT ? CC : Val(0);
      TI* st = I.ti2->cls == C_AGG ? I.ti2->el[0].second : I.ti2;
      Val r = elementwise(I, [&](int i) -> Val {
        if (I.op <= O_ASHR) return opBin(I.op, aggGet(a, i), aggGet(b, i), et->w);
        if (I.op == O_FBIN) return opF((Kind)I.sub, aggGet(a, i), aggGet(b, i), et->cls);
        if (I.op == O_FNEG) return fneg(aggGet(a, i), et->w);
        if (I.op == O_ICMP) return opIcmp(I.sub, aggGet(a, i), aggGet(b, i), st->w);
        if (I.op == O_FCMP) return opFcmp(I.sub, aggGet(a, i), aggGet(b, i), st->cls);
        if (I.op == O_SELECT) return opSelect(I.ti2->cls == C_AGG ? aggGet(a, i) : a, aggGet(b, i), aggGet(c, i), et);
        return opConv(I, aggGet(a, i), st, et); }, n);
      D = r;
      continue;
    }
    switch (I.op) {
      case O_ADD: { Val &a = A, &b = B; if (!a.e && !b.e && I.ti->w <= 64) { D = Val((a.c + b.c) & maskw(I.ti->w)); break; } D = opBin(O_ADD, a, b, I.ti->w); break; }
      case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR:
      case O_SHL: case O_LSHR: case O_ASHR: { Val r = opBin(I.op, A, B, I.ti->w); D = r; break; }
      case O_FBIN: { Val r = opF((Kind)I.sub, A, B, I.ti->cls); fr->regs[I.dst] = r; break; }
      case O_FNEG: D = fneg(A, I.ti->w); break;
      case O_ICMP: { Val r = opIcmp(I.sub, A, B, I.ti2->w); D = r; break; }
      case O_FCMP: { Val r = opFcmp(I.sub, A, B, I.ti2->cls); D = r; break; }
      case O_SELECT: { Val r = opSelect(A, B, CC, I.ti); D = r; break; }
      case O_TRUNC: D = opTrunc(A, I.ti2->w, I.ti->w); break;
      case O_ZEXT: D = opZext(A, I.ti2->w, I.ti->w); break;
      case O_SEXT: D = opSext(A, I.ti2->w, I.ti->w); break;
      case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP: case O_FPEXT: { Val r = opConv(I, A, I.ti2, I.ti); D = r; break; }
      case O_BITCAST: { Val r = opBitcast(A, I.ti2, I.ti); D = r; break; }
      case O_MOV: D = A; break;
      case O_GEP: {
        GepInfo* g = (GepInfo*)I.p;
        Val p = A;
        if (!p.e) {
          uint64_t x = p.c + g->off; bool ok = true;
          for (auto& q : g->parts) { Val& v = R(*fr, q.idx); if (v.e) { ok = false; break; } x += (uint64_t)sextw(v.c, q.w) * q.scale; }
          if (ok) { D = Val(x); break; }
        }
        const Expr* e = mkBin(K_ADD, TE(p, 64), mkConst(g->off, 64));
        for (auto& q : g->parts) {
          Val& v = R(*fr, q.idx);
          const Expr* ix = q.w < 64 ? mkSext(TE(v, q.w), 64) : TE(v, q.w);
          e = mkBin(K_ADD, e, mkBin(K_MUL, ix, mkConst(q.scale, 64)));
        }
        D = fromE(e);
        break;
      }
      case O_LOAD: { Val sv; if (A.e && loadSym(A, I.ti, "read", sv)) { g_stack.back().regs[I.dst] = sv; break; } uint64_t ad = A.e ? resolveSym(A, I.ti->size, "read") : A.c; Val v = loadT(ad, I.ti); g_stack.back().regs[I.dst] = v; break; }
      case O_STORE: { if (B.e && storeSym(B, A, I.ti2)) break; uint64_t ad = B.e ? resolveSym(B, I.ti2->size, "write") : B.c; storeT(ad, A, I.ti2); break; }
      case O_ALLOCA: {
        uint64_t n = conc(A) * I.imm;
        uint64_t p = newObj(n, 2, "stack", false);
        fr->allocas.push_back(p >> 32);
        D = Val(p);
        break;
      }
      case O_BR: takeEdge(*fr, I.b); break;
      case O_CBR: {
        Val& c = A;
        bool t = c.e ? branch(c.e) : (c.c & 1);
        takeEdge(*fr, t ? I.b : I.c);
        break;
      }
      case O_SWITCH: {
        SwInfo* s = (SwInfo*)I.p;
        Val v = A;
        int tgt = s->def;
        if (!v.e && I.ti2->w <= 64) { for (auto& c : s->cases) if (c.first.c == v.c) { tgt = c.second; break; } }
        else for (auto& c : s->cases) if (branch(mkCmp(K_EQ, v.e, mkConst(c.first.c, I.ti2->w)))) { tgt = c.second; break; }
        takeEdge(*fr, tgt);
        break;
      }
      case O_RET: {
        Val r;
        if (I.flags & 1) r = A;
        int rd = fr->retDst;
        for (uint32_t id : fr->allocas) { Obj& o = g_objs[id]; freeObjMem(o); o.freed = true; g_freeIds.push_back(id); }
        g_regTop = fr->regs;
        g_stack.pop_back();
        if (g_stack.size() == base && g_cur == 0) { g_retVal = r; return; }
        if (g_stack.empty()) engineError("a thread's function returned");
        if (rd >= 0) g_stack.back().regs[rd] = r;
        break;
      }
      case O_UNREACH: pathViolation("unreachable", "control reached an unreachable instruction in " + llvm::demangle(fr->f->name).substr(0, 80));
      case O_EXTRACT: { Val v = A; for (unsigned i : *(std::vector<unsigned>*)I.p) v = aggGet(v, i); D = v; break; }
      case O_INSERT: {
        auto& ix = *(std::vector<unsigned>*)I.p;
        std::function<Val(const Val&, size_t, TI*)> ins = [&](const Val& v, size_t k, TI* t) -> Val {
          if (k == ix.size()) return B;
          std::vector<Val> nv;
          if (v.e) nv = *v.e->agg; else nv.resize(t->el.size());
          nv[ix[k]] = ins(nv[ix[k]], k + 1, t->el[ix[k]].second);
          return Val(mkAgg(std::move(nv))); };
        Val r = ins(A, 0, I.ti);
        D = r;
        break;
      }
      case O_VEXT: { uint64_t k = conc(B); D = aggGet(A, k); break; }
      case O_VINS: { uint64_t k = conc(CC); std::vector<Val> nv; if (A.e) nv = *A.e->agg; else nv.resize(I.ti->el.size()); nv[k] = B; D = Val(mkAgg(std::move(nv))); break; }
      case O_SHUF: {
        auto& m = *(std::vector<int>*)I.p; size_t n = I.ti2->el.size();
        std::vector<Val> nv;
        for (int k : m) nv.push_back(k < 0 ? Val(0) : (size_t)k < n ? aggGet(A, k) : aggGet(B, k - n));
        D = Val(mkAgg(std::move(nv)));
        break;
      }
      case O_RMW: {
        uint64_t ad = resolveSym(A, I.ti->size, "read");
        Val o = loadT(ad, I.ti), v = B, r;
        int w = I.ti->w;
        switch (I.sub) {
          case AtomicRMWInst::Xchg: r = v; break;
          case AtomicRMWInst::Add: r = opBin(O_ADD, o, v, w); break;
          case AtomicRMWInst::Sub: r = opBin(O_SUB, o, v, w); break;
          case AtomicRMWInst::And: r = opBin(O_AND, o, v, w); break;
          case AtomicRMWInst::Or: r = opBin(O_OR, o, v, w); break;
          default: engineError("atomicrmw");
        }
        storeT(ad, r, I.ti);
        D = o;
        break;
      }
      case O_CMPXCHG: {
        uint64_t ad = resolveSym(A, I.ti2->size, "read");
        Val o = loadT(ad, I.ti2);
        Val eq = opIcmp(CmpInst::ICMP_EQ, o, B, I.ti2->w);
        bool t = eq.e ? branch(eq.e) : eq.c;
        if (t) storeT(ad, CC, I.ti2);
        std::vector<Val> nv{o, Val(t)};
        D = Val(mkAgg(std::move(nv)));
        break;
      }
      case O_CALL: {
        if (I.sub == 1) trapHit("assertion trap (int3) in " + llvm::demangle(fr->f->name).substr(0, 100));
        if (I.sub == 2) { if (I.dst >= 0) engineError("inline asm with result"); break; }
        CallInfo* ci = (CallInfo*)I.p;
        DFunc* f = ci->f;
        if (ci->indirect) {
          Val fp = R(*fr, ci->fp);
          uint64_t ad = conc(fp);
          auto it = g_addrFunc.find(ad);
          if (it == g_addrFunc.end()) pathViolation(ad < 65536 ? "null" : "oob", "call through an invalid function pointer");
          f = it->second;
        }
        Val argv[32];
        int n = ci->args.size();
        if (n > 32) engineError("too many arguments");
        for (int i = 0; i < n; i++) argv[i] = R(*fr, ci->args[i]);
        if (f->bi) {
          Val r = f->bi(f, argv, n, ci, I);
          if (I.dst >= 0) g_stack.back().regs[I.dst] = r;
          break;
        }
        if (f->F->isDeclaration()) engineError("external function " + f->name);
        pushFrame(f, I.dst);
        // byval arguments are copied
        Frame& nf = g_stack.back();
        for (int i = 0; i < f->nargs; i++) {
          nf.regs[i] = argv[i];
          if (f->F->hasParamAttribute(i, Attribute::ByVal)) {
            uint64_t sz = DL->getTypeAllocSize(f->F->getParamByValType(i));
            uint64_t p = newObj(sz, 2, "byval", false);
            memCopy(p, conc(argv[i]), sz);
            nf.allocas.push_back(p >> 32);
            nf.regs[i] = Val(p);
          }
        }
        if (f->F->isVarArg()) {}
        break;
      }
      default: engineError(std::string("instruction ") + I.I->getOpcodeName());
    }
  }
}

static void thrSwitch(size_t to) {
  if (to >= g_thr.size()) engineError("switch to an unknown thread");
  if (to == g_cur) return;
  Thr& c = g_thr[g_cur]; c.stack.swap(g_stack); c.top = g_regTop; c.base = g_regBase;
  Thr& t = g_thr[to]; g_stack.swap(t.stack); g_regTop = t.top; g_regBase = t.base; g_cur = to;
}
#include "builtins.inc"

// ------------------------------------------------------------------ driver
static std::vector<Function*> globalCtors(Module& M) {
  std::vector<std::pair<int, Function*>> v;
  if (auto* g = M.getGlobalVariable("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (unsigned i = 0; i < ca->getNumOperands(); i++) {
        auto* cs = cast<ConstantStruct>(ca->getOperand(i));
        if (auto* f = dyn_cast<Function>(cs->getOperand(1))) v.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<Function*> r;
  for (auto& p : v) r.push_back(p.second);
  return r;
}
static void callFn(Function* F, std::vector<Val> args) {
  size_t base = g_stack.size();
  DFunc* f = getFunc(F);
  pushFrame(f, -1);
  for (size_t i = 0; i < args.size(); i++) g_stack.back().regs[i] = args[i];
  interp(base);
}
static Shared* mapShared(size_t nf) {
  size_t sz = sizeof(Shared) + nf + 4096;
  void* p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(p, 0, sz);
  return (Shared*)p;
}

int main(int argc, char** argv) {
  std::string bc;
  std::vector<std::string> hs;
  double budget = 120;
  int jobs = 8;
  bool dbg = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") g_out = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--query-ms") g_queryTimeoutMs = atoi(argv[++i]);
    else if (a == "--debug") dbg = true;
    else if (a == "--harness") { std::string s = argv[++i], c; for (char ch : s + ",") if (ch == ',') { if (!c.empty()) hs.push_back(c); c.clear(); } else c += ch; }
    else bc = a;
  }
  (void)dbg;
  LLVMContext C;
  SMDiagnostic err;
  auto M = parseIRFile(bc, err, C);
  if (!M) { err.print("symx", errs()); return 3; }
  DL = &M->getDataLayout();
  size_t nf = 0;
  for (auto& F : *M) { (void)F; nf++; }
  SH = mapShared(nf + 64);
  g_ss = &SH->ss;
  SH->deadline = nowS() + 600;
  g_regBase = g_regTop = (Val*)mmap(nullptr, REGS * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_tokens = (sem_t*)mmap(nullptr, sizeof(sem_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(g_tokens, 1, 0);
  g_harness = "init";
  solverInit();
  for (auto& F : *M) {
    uint64_t a = newObj(1, 4, "func", false);
    g_gaddr[&F] = F.hasExternalWeakLinkage() && F.isDeclaration() ? 0 : a;
    DFunc* f = getFunc(&F);
    g_addrFunc[a] = f;
  }
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 512);
    g_gaddr[&G] = newObj(sz, 1, strdup(G.getName().str().c_str()), false);
  }
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    if (G.hasInitializer()) initMem(g_gaddr[&G], G.getInitializer());
    if (G.isDeclaration() && G.getName().starts_with("_ZTV")) {}
  }
  for (auto& G : M->globals()) if (!G.getName().starts_with("llvm.") && G.isConstant() && G.hasInitializer()) g_objs[g_gaddr[&G] >> 32].ro = true;
  SH->alive = 1;
  for (auto* F : globalCtors(*M)) callFn(F, {});
  if (hs.empty()) for (auto& F : *M) if (F.getName().starts_with("harness_") && !F.isDeclaration()) hs.push_back(F.getName().str());
  g_init = false;
  uint64_t initInstr = g_icount;
  g_icount = 0;
  if (getenv("SYMX_DEBUG")) fprintf(stderr, "init: %llu instrs\n", (unsigned long long)initInstr);
  for (int i = 0; i < jobs; i++) sem_post(g_tokens);

  std::vector<pid_t> kids;
  for (auto& h : hs) {
    while (sem_wait(g_tokens) < 0) {}
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_CHILD_SUBREAPER, 1);
      g_harness = h;
      double t0 = nowS();
      SH = mapShared(nf + 64);
      g_ss = &SH->ss;
      SH->deadline = t0 + budget;
      SH->alive = 1;
      Function* F = M->getFunction(h);
      bool missing = !F || F->isDeclaration();
      pid_t q = missing ? 0 : fork();
      if (!missing && q == 0) {
        g_beforeQuery = checkDeadline; g_hungQuery = hungQuery;
        g_haveToken = true;   // the explorer releases the slot taken for this harness when it finishes
        g_regTop = g_regBase;
        callFn(F, {});
        INC(paths);
        if (SH->samples < 3) { uint64_t k = INC(samples); if (k < 3) { needModel(); writeFile(g_out + "/sample_" + h + "_" + std::to_string(k) + ".json", assignJson(g_ps.cur)); } }
        pathExit();
      }
      int st;
      pid_t w;
      if (!missing)
        while ((w = wait(&st)) > 0 || errno == EINTR) {
          if (w > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { INC(pathsError); tagInc(SH->errs, WIFSIGNALED(st) ? "path process died from a signal" : "path process failed"); if (w == q) sem_post(g_tokens); }
        }
      std::string j = "{\n \"harness\":\"" + h + "\",\n";
      if (missing) j += " \"missing\":true,\n";
      auto num = [&](const char* k, uint64_t v) { j += std::string(" \"") + k + "\":" + std::to_string(v) + ",\n"; };
      num("paths", SH->paths); num("paths_trapped", SH->pathsTrap); num("paths_infeasible", SH->pathsInfeasible); num("paths_error", SH->pathsError);
      num("forks", SH->forks); num("asserts", SH->asserts); num("asserts_concrete", SH->assertsConcrete); num("instructions", SH->instrs);
      num("violations", SH->violations); num("inconclusive", SH->inconclusive); num("incomplete", SH->incomplete); num("div_assumptions", SH->divAssume);
      num("uninit_reads", SH->uninitReads); num("concretised", SH->concretized); num("peak_processes", SH->peakAlive);
      num("queries", SH->ss.queries); num("sat", SH->ss.sat); num("unsat", SH->ss.unsat); num("unknown", SH->ss.unknown); num("cached", SH->ss.cached); num("nf_closed", SH->ss.nfclosed); num("nf_z3", SH->nfZ3);
      j += " \"solver_s\":" + std::to_string(SH->ss.nsec / 1e9) + ",\n \"wall_s\":" + std::to_string(nowS() - t0) + ",\n";
      auto tags = [&](const char* k, Tag* t) { j += std::string(" \"") + k + "\":{"; bool first = true; for (int i = 0; i < 64; i++) if (t[i].h) { j += (first ? "" : ",") + std::string("\"") + jsonEsc(t[i].name) + "\":" + std::to_string(t[i].cnt); first = false; } j += "},\n"; };
      tags("reach", SH->tags); tags("viol", SH->viol); tags("errors", SH->errs);
      j += " \"functions\":[";
      bool first = true;
      for (auto* f : g_funcs) if (f->id < (int)nf && SH->cov[f->id] && !f->F->isDeclaration()) {
        std::string d = llvm::demangle(f->name);
        if (d.find("tinytorch::") == std::string::npos) continue;
        if (d.find("std::") == 0 || d.find("void std::") == 0) continue;
        j += (first ? "" : ",") + std::string("\"") + jsonEsc(d.substr(0, 200)) + "\"";
        first = false;
      }
      // functions decoded only in children are not known here: names come from the module
      j += "]\n}\n";
      writeFile(g_out + "/" + h + ".json", j);
      if (missing) sem_post(g_tokens);
      _exit(0);
    }
    kids.push_back(p);
  }
  int st;
  while (wait(&st) > 0 || errno == EINTR) {}
  return 0;
}
