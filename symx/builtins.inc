// Models of the environment: harness primitives, libc, libm, C++ runtime entry points, LLVM intrinsics.
#define BI [](DFunc * f, Val * a, int n, CallInfo * ci, DInst & I) -> Val
#define UNUSED (void)f; (void)a; (void)n; (void)ci; (void)I

static std::string g_vname(const Val& v) { return cstr(v.c); }
static void signedRange(const Expr* e, int64_t lo, int64_t hi, int w) {
  g_useRanges = false;  // the range itself goes to the solver
  const Expr *l = mkCmp(K_SLE, mkConst((uint64_t)lo, w), e), *h = mkCmp(K_SLE, e, mkConst((uint64_t)hi, w));
  g_useRanges = true;
  assume(l); assume(h);
}
static bool pcHolds(EvalCtx& ec) { for (auto* p : g_ps.pc) if (!evalBV(p, ec)) return false; return true; }
static std::mt19937_64 g_rng(12345);
// candidate assignments for witness search: start from the current model, re-draw the real inputs
static Assign drawAssign(int trial) {
  Assign as = g_ps.curValid ? g_ps.cur : Assign();
  if (trial == 0) return as;
  for (size_t i = 0; i < g_vars.size(); i++) {
    auto& v = g_vars[i];
    if (v.isReal) {
      double lo = std::max(v.lo, -3.0), hi = std::min(v.hi, 3.0);
      if (v.lo == 0 && v.hi == 0) { lo = -3; hi = 3; }
      if (lo > hi) { lo = v.lo; hi = v.hi; }
      if (trial % 3 == 1 && as.re.count(i)) {  // perturb the model slightly
        double st = trial < 60 ? 16 : 1024;
        as.re[i] = roundl(as.re[i] * st) / st + (double)((int)(g_rng() % 5) - 2) / 64;
      } else as.re[i] = lo + std::round((hi - lo) * 64 * ((g_rng() >> 11) * 0x1.0p-53)) / 64;
    }
  }
  return as;
}
static void roundModel(const Expr* bad, Assign& m) {  // prefer float-representable witnesses
  EvalCtx e0; e0.as = &m;
  for (double st : {1.0, 8.0, 64.0, 1024.0, 65536.0}) {
    Assign r = m; bool any = false;
    for (auto& p : r.re) { long double q = roundl(p.second * st) / st; if (q != p.second) any = true; p.second = q; }
    if (!any) return;
    EvalCtx ec; ec.as = &r;
    if (evalBV(bad, ec) && pcHolds(ec)) { m = r; return; }
  }
}
static void doAssert(const Val& c, const std::string& msg) {
  INC(asserts);
  const Expr* e = c.e;
  if (e && e->w > 1) e = mkNot(mkCmp(K_EQ, e, mkConst(0, e->w)));
  if (e && (e->flags & 2)) e = simplifyReal(e);
  if (!e || isC(e)) {
    bool v = e ? e->a != 0 : (c.c & 0xff) != 0;
    if (v) { INC(assertsConcrete); return; }
    needModel();
    pathViolation("assert", msg);
  }
  if (pcHas(e)) return;
  const Expr* ne = mkNot(e);
  if (g_ps.curValid && evalOK(e) && !evalCur(e)) {
    Assign m = g_ps.cur;
    if (e->flags & 2) roundModel(ne, m);
    reportViolation("assert", msg, m);
    pathExit();
  }
  Assign m;
  SR r = checkSat(ne, &m);
  if (r == S_UNSAT) { learn(e); return; }
  if (r == S_SAT) {
    if (e->flags & 2) {
      EvalCtx ec; ec.as = &m;
      bool ok = evalBV(ne, ec) && pcHolds(ec);
      if (!ok && !evalOK(ne)) {   // spurious through an uninterpreted function: look for a real witness
        for (int t = 0; t < 200 && !ok; t++) { Assign q = drawAssign(t); EvalCtx e2; e2.as = &q; if (evalBV(ne, e2) && pcHolds(e2)) { m = q; ok = true; } }
        if (!ok) { INC(inconclusive); tagInc(SH->errs, ("inconclusive: " + msg).c_str()); return; }
      }
      roundModel(ne, m);
    }
    reportViolation("assert", msg, m);
    pathExit();
  }
  INC(inconclusive); tagInc(SH->errs, ("inconclusive: " + msg).c_str());
}
static void doAssertEq(const Val& a, const Val& b, int w, const std::string& msg) {
  if (!g_real) {
    INC(asserts);
    if (!a.e && !b.e) {
      INC(assertsConcrete);
      double x = bitsToD(a.c, w), y = bitsToD(b.c, w);
      if ((a.c & maskw(w)) == (b.c & maskw(w)) || (std::isnan(x) && std::isnan(y))) return;
      pathViolation("assert", msg);
    }
    if (a.e == b.e && a.e) { INC(assertsConcrete); return; }
    const Expr *x = TE(a, w), *y = TE(b, w);
    const Expr* bothNan = mkAndB(mkFP(K_FUNO, 1, x, x), mkFP(K_FUNO, 1, y, y));
    __atomic_fetch_sub(&SH->asserts, 1, __ATOMIC_RELAXED);
    doAssert(Val(mkOrB(mkCmp(K_EQ, x, y), bothNan)), msg);
    return;
  }
  INC(asserts);
  auto differ = [](long double p, long double q) {
    if (std::isnan(p) || std::isnan(q)) return std::isnan(p) != std::isnan(q);
    if (std::isinf(p) || std::isinf(q)) return p != q;
    return fabsl(p - q) > 2e-3L * (1 + fabsl(q));
  };
  if (!a.e && !b.e) {
    INC(assertsConcrete);
    if (!differ(bitsToD(a.c, w), bitsToD(b.c, w))) return;
    pathViolation("assert", msg);
  }
  if (isSpecialV(a, w) || isSpecialV(b, w)) pathViolation("assert", msg);
  const Expr *x = toReal(a, w), *y = toReal(b, w);
  if (x == y) { INC(assertsConcrete); return; }
  int nf = nfEqual(x, y);
  if (nf == 1) {
    __atomic_fetch_add(&SH->ss.nfclosed, 1, __ATOMIC_RELAXED);
    static int z3tries = 0;   // cross-check the normal form with Z3 (a few per path, short timeout)
    // Z3 does not always keep to the timeout on non-linear terms: give up cross-checking in a harness where it cannot answer
    if (z3tries++ < 6 && SH->nfZ3Unk < 4) {
      SR q = checkSat(mkNot(mkRCmp(K_REQ, x, y)), nullptr, false, 300);
      if (q == S_UNSAT) __atomic_fetch_add(&SH->nfZ3, 1, __ATOMIC_RELAXED);
      else if (q == S_UNK) __atomic_fetch_add(&SH->nfZ3Unk, 1, __ATOMIC_RELAXED);
    }
    return;
  }
  needModel();
  const Expr* ne = mkNot(mkRCmp(K_REQ, x, y));
  auto witness = [&](const Assign& m) { EvalCtx ec; ec.as = &m; if (!pcHolds(ec)) return false; long double p = evalR(x, ec), q = evalR(y, ec); if (std::isnan(p) || std::isnan(q) || std::isinf(p) || std::isinf(q)) return false; return differ(p, q); };
  auto hunt = [&](int N) { for (int t = 0; t < N; t++) { Assign m = drawAssign(t); if (witness(m)) { reportViolation("assert", msg, m); pathExit(); } } };
  hunt(40);
  Assign m;
  SR r = checkSat(ne, &m);
  if (r == S_UNSAT) return;
  if (r == S_SAT && witness(m)) { reportViolation("assert", msg, m); pathExit(); }
  hunt(400);
  if (r == S_SAT && evalOK(ne)) {
    // the difference is nonzero but tiny at every witness tried: within the numeric tolerance of the real model
    const Expr* d = mkR(K_RADD, x, mkRNeg(y));
    const Expr* big = mkOrB(mkRCmp(K_RLT, mkRConst(2e-3L), d), mkRCmp(K_RLT, d, mkRConst(-2e-3L)));
    SR r2 = checkSat(big, &m);
    if (r2 == S_UNSAT) return;
    if (r2 == S_SAT && witness(m)) { reportViolation("assert", msg, m); pathExit(); }
  }
  INC(inconclusive); tagInc(SH->errs, ("inconclusive: " + msg).c_str());
}

static Val allocBytes(uint64_t n, bool thr, const char* nm) {
  if (n > 0x7ff00000ull) { if (thr) trapHit("allocation of an absurd size (std::bad_alloc)"); return Val(0); }
  return Val(newObj(n, 3, nm, true));
}
static void freePtr(uint64_t p) {
  if (!p) return;
  uint32_t id = p >> 32;
  if (id == 0 || id >= g_objs.size() || g_objs[id].kind != 3 || (p & 0xffffffffu)) pathViolation("badfree", "free of a pointer that is not the start of a heap block");
  Obj& o = g_objs[id];
  if (o.freed) pathViolation("uaf", "double free");
  freeObjMem(o);
  o.freed = true;
}
static Val realFun(int rf, const Val& a, const Val* b, int w) {
  auto num = [&](double x, double y) -> double {
    switch (rf) { case RF_EXP: return std::exp(x); case RF_LOG: return std::log(x); case RF_SQRT: return std::sqrt(x); case RF_SIN: return std::sin(x); case RF_COS: return std::cos(x);
      case RF_TANH: return std::tanh(x); case RF_ERF: return std::erf(x); case RF_POW: return std::pow(x, y); } return 0; };
  bool cc = !a.e && (!b || !b->e);
  if (cc) {
    double x = bitsToD(a.c, w), y = b ? bitsToD(b->c, w) : 0, r = num(x, y);
    if (!g_real) {
      if (w == 32) {
        float fx = x, fy = y, fr;
        switch (rf) { case RF_EXP: fr = expf(fx); break; case RF_LOG: fr = logf(fx); break; case RF_SQRT: fr = sqrtf(fx); break; case RF_SIN: fr = sinf(fx); break; case RF_COS: fr = cosf(fx); break; case RF_TANH: fr = tanhf(fx); break; case RF_ERF: fr = erff(fx); break; default: fr = powf(fx, fy); }
        return Val(dToBits(fr, 32));
      }
      return Val(dToBits(r, w));
    }
    if (isSpecial(a.c, w) || (b && isSpecial(b->c, w)) || std::isnan(r) || std::isinf(r)) return Val(dToBits(r, w));
    // exact results stay concrete, everything else stays symbolic as f(const)
    if (r == std::round(r) && fabs(r) < 1e9 && (rf == RF_SQRT ? r * r == x : rf == RF_POW ? true : x == 0 || (rf == RF_LOG && x == 1))) return Val(dToBits(r, w));
    if (rf == RF_POW && y == 0.5) { Val h = a; return realFun(RF_SQRT, h, nullptr, w); }
    const Expr* ea = toReal(a, w);
    return fromReal(mkRFun(rf, ea, b ? toReal(*b, w) : nullptr), w);
  }
  if (!g_real) {
    if (rf == RF_SQRT) return fromE(mkFP(K_FSQRT, w, TE(a, w)));
    return fromE(mkFun(rf, w, TE(a, w), b ? TE(*b, w) : nullptr));
  }
  if (isSpecialV(a, w) || (b && isSpecialV(*b, w))) engineError("special value in a real function");
  const Expr* x = toReal(a, w);
  if (rf == RF_POW && !b->e) {
    double y = bitsToD(b->c, w);
    if (y == 0) return Val(dToBits(1, w));
    if (y == 0.5) return fromReal(mkRFun(RF_SQRT, x), w);
    if (y == std::round(y) && fabs(y) <= 8) {
      const Expr* r = x;
      for (int i = 1; i < fabs(y); i++) r = mkR(K_RMUL, r, x);
      if (y < 0) { Val one(dToBits(1, w)); return realBin(K_FDIV, one, Val(r), w); }
      return fromReal(r, w);
    }
  }
  return fromReal(mkRFun(rf, x, b ? toReal(*b, w) : nullptr), w);
}
static Val fabsV(const Val& a, int w) {
  if (!a.e) return Val(a.c & ~(1ull << (w - 1)));
  if (a.e->w == 0) { if (branch(mkRCmp(K_RLT, a.e, mkRConst(0)))) return fromReal(mkRNeg(a.e), w); return a; }
  return fromE(mkBin(K_AND, TE(a, w), mkConst(maskw(w - 1), w)));
}
static Val roundV(const Val& a, int w, int mode) {
  if (!a.e) {
    double x = bitsToD(a.c, w), r = mode == 0 ? std::floor(x) : mode == 1 ? std::ceil(x) : mode == 2 ? std::trunc(x) : mode == 3 ? std::nearbyint(x) : std::round(x);
    return Val(dToBits(r, w));
  }
  if (a.e->w == 0) engineError("rounding of a symbolic real");
  return fromE(mkFP(K_FROUND, w, TE(a, w), nullptr, mode));
}
static Val minmaxV(const Val& a, const Val& b, Cls cls, bool mx) {  // libm fmin/fmax
  int w = cls == C_F32 ? 32 : 64;
  Val an = opFcmp(8, a, a, cls), bn = opFcmp(8, b, b, cls);
  bool isAn = an.e ? branch(an.e) : an.c, isBn = bn.e ? branch(bn.e) : bn.c;
  if (isAn) return b;
  if (isBn) return a;
  Val c = opFcmp(mx ? 2 : 4, a, b, cls);
  TI* t = cls == C_F32 ? nullptr : nullptr; (void)t; (void)w;
  bool v = c.e ? branch(c.e) : c.c;
  return v ? a : b;
}
static int bitw(DInst& I) { return I.ti->w; }
static Val vaOf(TI* t, const Val& v) { (void)t; return v; }
static uint64_t g_clock = 1000000000ull;

static Val mathCall(const std::string& base, Val* a, int n, int w) {
  (void)n;
  if (base == "exp") return realFun(RF_EXP, a[0], nullptr, w);
  if (base == "log") return realFun(RF_LOG, a[0], nullptr, w);
  if (base == "sqrt") return realFun(RF_SQRT, a[0], nullptr, w);
  if (base == "sin") return realFun(RF_SIN, a[0], nullptr, w);
  if (base == "cos") return realFun(RF_COS, a[0], nullptr, w);
  if (base == "tanh") return realFun(RF_TANH, a[0], nullptr, w);
  if (base == "erf") return realFun(RF_ERF, a[0], nullptr, w);
  if (base == "pow") return realFun(RF_POW, a[0], &a[1], w);
  if (base == "fabs") return fabsV(a[0], w);
  if (base == "floor") return roundV(a[0], w, 0);
  if (base == "ceil") return roundV(a[0], w, 1);
  if (base == "trunc") return roundV(a[0], w, 2);
  if (base == "rint" || base == "nearbyint") return roundV(a[0], w, 3);
  if (base == "round") return roundV(a[0], w, 4);
  if (base == "fmin") return minmaxV(a[0], a[1], w == 32 ? C_F32 : C_F64, false);
  if (base == "fmax") return minmaxV(a[0], a[1], w == 32 ? C_F32 : C_F64, true);
  if (base == "fmod") return opF(K_FREM, a[0], a[1], w == 32 ? C_F32 : C_F64);
  if (base == "nextafter") { if (a[0].e || a[1].e) engineError("nextafter"); double r = w == 32 ? nextafterf(bitsToD(a[0].c, 32), bitsToD(a[1].c, 32)) : nextafter(bitsToD(a[0].c, 64), bitsToD(a[1].c, 64)); return Val(dToBits(r, w)); }
  engineError("math function " + base);
}
template <int W> static Val biMath(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I) {
  UNUSED;
  std::string b = f->name;
  if (W == 32 && b.back() == 'f' && b != "erf") b.pop_back();
  if (b == "erff") b = "erf";
  return mathCall(b, a, n, W);
}
static Val biMathL(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I) { UNUSED; std::string b = f->name; b.pop_back(); return mathCall(b, a, n, 64); }

static Val biRet0(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I) { UNUSED; return Val(0); }
static Val biRetA0(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I) { UNUSED; return a[0]; }
static Val biThrow(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I) { UNUSED; trapHit("C++ exception thrown by the runtime: " + llvm::demangle(f->name)); }

static Builtin findBuiltin(const std::string& nm, Function* F) {
  static std::map<std::string, Builtin> T;
  if (T.empty()) {
    T["sym_i64"] = BI { UNUSED; int64_t lo = conc(a[1]), hi = conc(a[2]); if (lo == hi) return Val((uint64_t)lo); const Expr* e = mkVar(g_vname(a[0]), 64, true, lo, hi, 1); signedRange(e, lo, hi, 64); return Val(e); };
    T["sym_i32"] = BI { UNUSED; int32_t lo = conc(a[1]), hi = conc(a[2]); if (lo == hi) return Val((uint32_t)lo); const Expr* e = mkVar(g_vname(a[0]), 32, true, lo, hi, 1); signedRange(e, lo, hi, 32); return Val(e); };
    T["sym_u8"] = BI { UNUSED; return Val(mkVar(g_vname(a[0]), 8, true)); };
    T["sym_u16"] = BI { UNUSED; return Val(mkVar(g_vname(a[0]), 16, true)); };
    T["sym_u32"] = BI { UNUSED; return Val(mkVar(g_vname(a[0]), 32, true)); };
    T["sym_u64"] = BI { UNUSED; return Val(mkVar(g_vname(a[0]), 64, true)); };
    T["sym_f32"] = BI { UNUSED; if (g_real) return Val(mkRVar(g_vname(a[0]), true, -4, 4, 32)); return Val(mkVar(g_vname(a[0]), 32, true, 0, 0, 32)); };
    T["sym_f64"] = BI { UNUSED; if (g_real) return Val(mkRVar(g_vname(a[0]), true, -4, 4, 64)); return Val(mkVar(g_vname(a[0]), 64, true, 0, 0, 64)); };
    T["sym_f32_range"] = BI { UNUSED;
      double lo = bitsToD(a[1].c, 32), hi = bitsToD(a[2].c, 32);
      if (g_real) {
        const Expr* e = mkRVar(g_vname(a[0]), true, lo, hi, 32);
        assume(mkRCmp(K_RLE, mkRConst(snapDec(lo, true)), e)); assume(mkRCmp(K_RLE, e, mkRConst(snapDec(hi, true))));
        return Val(e);
      }
      const Expr* e = mkVar(g_vname(a[0]), 32, true, 0, 0, 32);
      assume(mkFP(K_FLE, 1, mkConst(a[1].c, 32), e)); assume(mkFP(K_FLE, 1, e, mkConst(a[2].c, 32)));
      return Val(e); };
    T["sym_concretize"] = BI { UNUSED; return Val(conc(a[0])); };
    T["sym_assume"] = BI { UNUSED; Val c = a[0]; if (!c.e) { if (!(c.c & 0xff)) { INC(pathsInfeasible); pathExit(); } return Val(0); }
      const Expr* e = c.e; if (e->w > 1) e = mkNot(mkCmp(K_EQ, e, mkConst(0, e->w))); assume(e); return Val(0); };
    T["sym_assert_"] = BI { UNUSED; doAssert(a[0], cstr(conc(a[1]))); return Val(0); };
    T["sym_assert_eq_f32"] = BI { UNUSED; doAssertEq(a[0], a[1], 32, cstr(conc(a[2]))); return Val(0); };
    T["sym_assert_eq_f64"] = BI { UNUSED; doAssertEq(a[0], a[1], 64, cstr(conc(a[2]))); return Val(0); };
    T["sym_trap_policy"] = BI { UNUSED; g_trapPolicy = conc(a[0]); return Val(0); };
    T["sym_reach"] = BI { UNUSED; tagInc(SH->tags, cstr(conc(a[0])).c_str()); return Val(0); };
    T["sym_real_mode"] = BI { UNUSED; g_real = true; return Val(0); };
    T["sym_is_symbolic_run"] = BI { UNUSED; return Val(1); };
    T["sym_heap_blocks"] = BI { UNUSED; uint64_t k = 0; for (auto& o : g_objs) if (o.kind == 3 && !o.freed) k++; return Val(k); };
    T["sym_debug_i64"] = BI { UNUSED; fprintf(stderr, "[dbg] %s = %s\n", cstr(a[0].c).c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string((long long)a[1].c).c_str()); return Val(0); };
    T["sym_debug_f32"] = BI { UNUSED; fprintf(stderr, "[dbg] %s = %s\n", cstr(a[0].c).c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string(bitsToD(a[1].c, 32)).c_str()); return Val(0); };
    // branch on a condition without forking the harness code elsewhere: 1 when the condition can only be true
    T["sym_fork"] = BI { UNUSED; Val c = a[0]; if (!c.e) return Val(c.c & 1); const Expr* e = c.e; if (e->w > 1) e = mkNot(mkCmp(K_EQ, e, mkConst(0, e->w))); return Val(branch(e) ? 1 : 0); };
    T["thr_new"] = BI { UNUSED;
      auto it = g_addrFunc.find(conc(a[0])); if (it == g_addrFunc.end()) engineError("thr_new: not a function");
      if (g_thr.size() > 1100) engineError("too many threads");
      size_t id = g_thr.size(), was = g_cur; g_thr.emplace_back(); Thr& t = g_thr[id];
      t.base = t.top = (Val*)mmap(nullptr, REGS * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      thrSwitch(id); pushFrame(it->second, -1); g_stack.back().regs[0] = a[1]; thrSwitch(was);
      return Val(id); };
    T["thr_switch"] = BI { UNUSED; thrSwitch(conc(a[0])); return Val(0); };
    // branch-free select: keeps both alternatives in one path (bit-level values only)
    T["sym_ite32"] = BI { UNUSED; Val c = a[0]; if (!c.e) return (c.c & 1) ? a[1] : a[2]; const Expr* e = c.e; if (e->w > 1) e = mkNot(mkCmp(K_EQ, e, mkConst(0, e->w))); return fromE(mkIte(e, TE(a[1], 32), TE(a[2], 32))); };
    T["sym_ite64"] = BI { UNUSED; Val c = a[0]; if (!c.e) return (c.c & 1) ? a[1] : a[2]; const Expr* e = c.e; if (e->w > 1) e = mkNot(mkCmp(K_EQ, e, mkConst(0, e->w))); return fromE(mkIte(e, TE(a[1], 64), TE(a[2], 64))); };

    auto nw = BI { UNUSED; return allocBytes(conc(a[0]), true, "heap"); };
    for (auto s : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) T[s] = nw;
    for (auto s : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) T[s] = BI { UNUSED; return allocBytes(conc(a[0]), false, "heap"); };
    T["malloc"] = BI { UNUSED; return allocBytes(conc(a[0]), false, "heap"); };
    T["aligned_alloc"] = BI { UNUSED; uint64_t al = conc(a[0]), s = conc(a[1]); (void)al; return allocBytes(s, false, "heap"); };
    T["calloc"] = BI { UNUSED; uint64_t s = conc(a[0]) * conc(a[1]); Val p = allocBytes(s, false, "heap"); if (p.c) memSet(p.c, Val(0), s); return p; };
    T["realloc"] = BI { UNUSED; uint64_t p = conc(a[0]), s = conc(a[1]); Val q = allocBytes(s, false, "heap"); if (p) { uint64_t os = g_objs[p >> 32].size; memCopy(q.c, p, std::min(os, s)); freePtr(p); } return q; };
    auto del = BI { UNUSED; freePtr(conc(a[0])); return Val(0); };
    for (auto s : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) T[s] = del;
    auto cpy = BI { UNUSED; uint64_t len = conc(a[2]); memCopyV(a[0], a[1], len); return a[0]; };
    T["memcpy"] = cpy; T["memmove"] = cpy;
    T["memset"] = BI { UNUSED; memSet(conc(a[0]), a[1], conc(a[2])); return a[0]; };
    T["__cxa_atexit"] = biRet0; T["atexit"] = biRet0;
    T["__cxa_guard_acquire"] = BI { UNUSED; uint64_t off; Obj& o = resolve(conc(a[0]), 1, off, false, "read"); return Val(o.data[off] ? 0 : 1); };
    T["__cxa_guard_release"] = BI { UNUSED; uint64_t off; Obj& o = resolve(conc(a[0]), 1, off, true, "write"); o.data[off] = 1; return Val(0); };
    T["__cxa_guard_abort"] = biRet0;
    T["__cxa_pure_virtual"] = BI { UNUSED; pathViolation("purecall", "pure virtual call"); };
    T["abort"] = BI { UNUSED; trapHit("abort() called"); };
    T["_ZSt9terminatev"] = T["abort"];
    T["exit"] = BI { UNUSED; trapHit("exit() called"); };
    for (auto s : {"fflush", "fprintf", "printf", "vfprintf", "puts", "putchar", "fputc", "fwrite", "fputs", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy",
                   "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy", "_ZSt21ios_base_library_initv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "sched_yield",
                   "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev",
                   "_ZNSt13random_device7_M_finiEv", "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"}) T[s] = biRet0;
    T["vsnprintf"] = BI { UNUSED; uint64_t p = conc(a[0]); if (p && conc(a[1])) memSet(p, Val(0), 1); return Val(0); };
    T["snprintf"] = T["vsnprintf"];
    T["_ZNSt13random_device9_M_getvalEv"] = BI { UNUSED; if (g_init) return Val(12345); return Val(mkVar("random_device", 32, true)); };
    T["_ZNSt6chrono3_V212steady_clock3nowEv"] = BI { UNUSED; return Val(g_clock += 1000000); };
    T["_ZNSt6chrono3_V212system_clock3nowEv"] = T["_ZNSt6chrono3_V212steady_clock3nowEv"];
    for (auto s : {"exp", "log", "sqrt", "sin", "cos", "tanh", "erf", "pow", "fabs", "floor", "ceil", "trunc", "rint", "nearbyint", "round", "fmin", "fmax", "fmod", "nextafter"}) {
      T[s] = biMath<64>; T[std::string(s) + "f"] = biMath<32>; T[std::string(s) + "l"] = biMathL;
    }
    T["lroundf"] = BI { UNUSED; if (a[0].e) engineError("lround"); return Val((uint64_t)lroundf(bitsToD(a[0].c, 32))); };
    T["getenv"] = biRet0;
    T["__errno_location"] = BI { UNUSED; static uint64_t p = 0; if (!p) p = newObj(8, 1, "errno", false); return Val(p); };
    T["getpid"] = BI { UNUSED; return Val(4242); };
  }
  if (F->isIntrinsic()) return intrinsic;
  if (nm.rfind("_ZN9tinytorch6Logger3log", 0) == 0) return biRet0;
  auto it = T.find(nm);
  bool force = nm.rfind("sym_", 0) == 0;
  if (it != T.end() && (F->isDeclaration() || force)) return it->second;
  if (!F->isDeclaration()) return nullptr;
  if (nm.rfind("_ZSt", 0) == 0 && nm.find("__throw_") != std::string::npos) return biThrow;
  if (nm.rfind("_ZNSo", 0) == 0 || nm.rfind("_ZStls", 0) == 0 || nm.rfind("_ZSt16__ostream_insert", 0) == 0 || nm.rfind("_ZSt4endl", 0) == 0 || nm.rfind("_ZSt5flush", 0) == 0) return biRetA0;
  return nullptr;
}

static TI* argTI(CallInfo* ci, int i) { return ci->at[i]; }
static Val mapVec(TI* t, Val* a, int nargs, const std::function<Val(Val*, TI*)>& g) {
  if (t->cls != C_AGG) return g(a, t);
  std::vector<Val> r;
  for (size_t i = 0; i < t->el.size(); i++) { Val b[4]; for (int k = 0; k < nargs && k < 4; k++) b[k] = aggGet(a[k], i); r.push_back(g(b, t->el[i].second)); }
  return Val(mkAgg(std::move(r)));
}
static Val intrinsic(DFunc* f, Val* a, int n, CallInfo* ci, DInst& I) {
  auto id = f->F->getIntrinsicID();
  TI* rt = I.ti;
  auto mm = [&](int pred) { return mapVec(rt, a, 2, [&](Val* b, TI* t) -> Val { Val c = opIcmp(pred, b[0], b[1], t->w); if (!c.e) return c.c ? b[0] : b[1]; return fromE(mkIte(c.e, TE(b[0], t->w), TE(b[1], t->w))); }); };
  auto fm = [&](const char* nm) { return mapVec(rt, a, 2, [&](Val* b, TI* t) -> Val { return mathCall(nm, b, 2, t->w); }); };
  auto ovf = [&](int op, bool sgn) -> Val {
    int w = argTI(ci, 0)->w;
    Val r = opBin(op, a[0], a[1], w), o;
    if (!a[0].e && !a[1].e && w <= 64) {
      __int128 x = sgn ? (__int128)sextw(a[0].c, w) : (__int128)(a[0].c & maskw(w)), y = sgn ? (__int128)sextw(a[1].c, w) : (__int128)(a[1].c & maskw(w));
      __int128 z = op == O_ADD ? x + y : op == O_SUB ? x - y : 0;
      if (op == O_MUL) { if (sgn) z = x * y; else { unsigned __int128 u = (unsigned __int128)x * (unsigned __int128)y; o = Val((uint64_t)(u >> w ? 1 : 0)); std::vector<Val> nv{r, o}; return Val(mkAgg(std::move(nv))); } }
      __int128 back = sgn ? (__int128)sextw((uint64_t)r.c, w) : (__int128)(r.c & maskw(w));
      o = Val((uint64_t)(z != back));
    } else {
      int w2 = op == O_MUL ? 2 * w : w + 1;
      const Expr *x = sgn ? mkSext(TE(a[0], w), w2) : mkZext(TE(a[0], w), w2), *y = sgn ? mkSext(TE(a[1], w), w2) : mkZext(TE(a[1], w), w2);
      const Expr* z = mkBin((Kind)(K_ADD + (op - O_ADD)), x, y);
      const Expr* back = sgn ? mkSext(TE(r, w), w2) : mkZext(TE(r, w), w2);
      o = fromE(mkNot(mkCmp(K_EQ, z, back)));
    }
    std::vector<Val> nv{r, o};
    return Val(mkAgg(std::move(nv)));
  };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t len = conc(a[2]); memCopyV(a[0], a[1], len); return Val(0); }
    case Intrinsic::memset: { uint64_t len = conc(a[2]); if (len) memSet(conc(a[0]), a[1], len); return Val(0); }
    case Intrinsic::umax: return mm(CmpInst::ICMP_UGT);
    case Intrinsic::umin: return mm(CmpInst::ICMP_ULT);
    case Intrinsic::smax: return mm(CmpInst::ICMP_SGT);
    case Intrinsic::smin: return mm(CmpInst::ICMP_SLT);
    case Intrinsic::abs: return mapVec(rt, a, 1, [&](Val* b, TI* t) -> Val { int w = t->w; if (!b[0].e) { int64_t v = sextw(b[0].c, w); return Val((uint64_t)(v < 0 ? 0 - (uint64_t)v : v) & maskw(w)); }
      const Expr* e = TE(b[0], w); return fromE(mkIte(mkCmp(K_SLT, e, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), e), e)); });
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
      int w = rt->w;
      if (!a[0].e) { uint64_t v = a[0].c & maskw(w); int r; if (id == Intrinsic::ctpop) r = __builtin_popcountll(v); else if (!v) r = w; else r = id == Intrinsic::ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v); return Val((uint64_t)r); }
      const Expr* e = TE(a[0], w);
      if (id == Intrinsic::ctpop) { const Expr* s = mkConst(0, w); for (int i = 0; i < w; i++) s = mkBin(K_ADD, s, mkZext(mkExtract(e, i, 1), w)); return fromE(s); }
      const Expr* r = mkConst(w, w);
      if (id == Intrinsic::ctlz) { for (int i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); }
      else for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r);
      return fromE(r);
    }
    case Intrinsic::bswap: { int w = rt->w; if (!a[0].e) return Val(w == 64 ? __builtin_bswap64(a[0].c) : w == 32 ? __builtin_bswap32(a[0].c) : __builtin_bswap16(a[0].c));
      const Expr* r = nullptr; for (int i = 0; i < w; i += 8) { const Expr* b = mkExtract(TE(a[0], w), i, 8); r = r ? mkConcat(r, b) : b; } return fromE(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      int w = rt->w; uint64_t s = conc(a[2]) % w;
      const Expr* cc = mkConcat(TE(a[0], w), TE(a[1], w));
      int off = id == Intrinsic::fshl ? w - (int)s : (int)s;
      return fromE(mkExtract(cc, off, w));
    }
    case Intrinsic::sadd_with_overflow: return ovf(O_ADD, true);
    case Intrinsic::uadd_with_overflow: return ovf(O_ADD, false);
    case Intrinsic::ssub_with_overflow: return ovf(O_SUB, true);
    case Intrinsic::usub_with_overflow: return ovf(O_SUB, false);
    case Intrinsic::smul_with_overflow: return ovf(O_MUL, true);
    case Intrinsic::umul_with_overflow: return ovf(O_MUL, false);
    case Intrinsic::usub_sat: return mapVec(rt, a, 2, [&](Val* b, TI* t) -> Val { Val c = opIcmp(CmpInst::ICMP_ULT, b[0], b[1], t->w); Val s = opBin(O_SUB, b[0], b[1], t->w); if (!c.e) return c.c ? Val(0) : s; return fromE(mkIte(c.e, mkConst(0, t->w), TE(s, t->w))); });
    case Intrinsic::uadd_sat: return mapVec(rt, a, 2, [&](Val* b, TI* t) -> Val { Val s = opBin(O_ADD, b[0], b[1], t->w); Val c = opIcmp(CmpInst::ICMP_ULT, s, b[0], t->w); if (!c.e) return c.c ? Val(maskw(t->w)) : s; return fromE(mkIte(c.e, mkConst(maskw(t->w), t->w), TE(s, t->w))); });
    case Intrinsic::fabs: return mapVec(rt, a, 1, [&](Val* b, TI* t) -> Val { return fabsV(b[0], t->w); });
    case Intrinsic::sqrt: return fm("sqrt");
    case Intrinsic::exp: return fm("exp");
    case Intrinsic::log: return fm("log");
    case Intrinsic::sin: return fm("sin");
    case Intrinsic::cos: return fm("cos");
    case Intrinsic::pow: return fm("pow");
    case Intrinsic::floor: return fm("floor");
    case Intrinsic::ceil: return fm("ceil");
    case Intrinsic::trunc: return fm("trunc");
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return fm("rint");
    case Intrinsic::round: return fm("round");
    case Intrinsic::minnum: return fm("fmin");
    case Intrinsic::maxnum: return fm("fmax");
    case Intrinsic::powi: { int k = (int32_t)conc(a[1]); Val b[2] = {a[0], Val(dToBits(k, rt->w))}; return mathCall("pow", b, 2, rt->w); }
    case Intrinsic::fma: case Intrinsic::fmuladd: return mapVec(rt, a, 3, [&](Val* b, TI* t) -> Val { Val m = opF(K_FMUL, b[0], b[1], t->cls); return opF(K_FADD, m, b[2], t->cls); });
    case Intrinsic::copysign: {
      int w = rt->w;
      if (!a[0].e && !a[1].e) return Val((a[0].c & maskw(w - 1)) | (a[1].c & (1ull << (w - 1))));
      if (g_real) { Val m = fabsV(a[0], w); bool neg = a[1].e ? branch(mkRCmp(K_RLT, toReal(a[1], w), mkRConst(0))) : (a[1].c >> (w - 1)) & 1; return neg ? fneg(m, w) : m; }
      return fromE(mkBin(K_OR, mkBin(K_AND, TE(a[0], w), mkConst(maskw(w - 1), w)), mkBin(K_AND, TE(a[1], w), mkConst(1ull << (w - 1), w))));
    }
    case Intrinsic::is_fpclass: {
      int w = argTI(ci, 0)->w; uint64_t m = conc(a[1]);
      uint64_t em = w == 32 ? 0x7f800000u : 0x7ff0000000000000ull, mm2 = maskw(w == 32 ? 23 : 52), sg = 1ull << (w - 1);
      auto cls = [&](uint64_t v) { bool neg = v & sg; uint64_t e = v & em, q = v & mm2; if (e == em) return q ? ((q >> (w == 32 ? 22 : 51)) ? 2 : 1) : (neg ? 4 : 512); if (e == 0) return q ? (neg ? 16 : 128) : (neg ? 32 : 64); return neg ? 8 : 256; };
      if (!a[0].e) return Val((uint64_t)((cls(a[0].c) & m) != 0));
      if (g_real && a[0].e->w == 0) { if (m == 3 || m == 516 || m == 519) return Val(0); if ((m & 0x1f8) == 0x1f8) return Val(1); if (!(m & 0x1f8)) return Val(0);
        // reals are finite; normal and subnormal are not told apart
        uint64_t ng = m & 0x18, ps = m & 0x180, zz = m & 0x60; if ((ng && ng != 0x18) || (ps && ps != 0x180) || (zz && zz != 0x60)) engineError("is_fpclass on a real");
        const Expr *x = toReal(a[0], w), *z = mkRConst(0), *r = mkConst(0, 1);
        if (ng) r = mkOrB(r, mkRCmp(K_RLT, x, z)); if (ps) r = mkOrB(r, mkRCmp(K_RLT, z, x)); if (zz) r = mkOrB(r, mkRCmp(K_REQ, x, z)); return fromE(r); }
      const Expr* x = TE(a[0], w);
      const Expr *ex = mkBin(K_AND, x, mkConst(em, w)), *q = mkBin(K_AND, x, mkConst(mm2, w)), *ng = mkExtract(x, w - 1, 1);
      const Expr *eM = mkCmp(K_EQ, ex, mkConst(em, w)), *e0 = mkCmp(K_EQ, ex, mkConst(0, w)), *q0 = mkCmp(K_EQ, q, mkConst(0, w)), *qq = mkExtract(x, w == 32 ? 22 : 51, 1);
      const Expr* r = mkConst(0, 1);
      auto add = [&](uint64_t bit, const Expr* c) { if (m & bit) r = mkOrB(r, c); };
      const Expr *pos = mkNot(ng), *nrm = mkAndB(mkNot(eM), mkNot(e0));
      add(1, mkAndB(eM, mkAndB(mkNot(q0), mkNot(qq)))); add(2, mkAndB(eM, mkAndB(mkNot(q0), qq)));
      add(4, mkAndB(ng, mkAndB(eM, q0))); add(512, mkAndB(pos, mkAndB(eM, q0)));
      add(8, mkAndB(ng, nrm)); add(256, mkAndB(pos, nrm));
      add(16, mkAndB(ng, mkAndB(e0, mkNot(q0)))); add(128, mkAndB(pos, mkAndB(e0, mkNot(q0))));
      add(32, mkAndB(ng, mkAndB(e0, q0))); add(64, mkAndB(pos, mkAndB(e0, q0)));
      return fromE(r);
    }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: trapHit("trap");
    case Intrinsic::stacksave: case Intrinsic::stackrestore: return Val(0);
    case Intrinsic::objectsize: return Val(maskw(rt->w));
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::is_constant: return Val(0);
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return Val(0);
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::sideeffect: return Val(0);
    case Intrinsic::load_relative: {
      uint64_t off = conc(a[1]); Val d = loadT(a[0].c + off, getTI(Type::getInt32Ty(f->F->getContext())));
      return Val(a[0].c + (int64_t)sextw(conc(d), 32));
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_xor: {
      size_t k = argTI(ci, 0)->el.size(); Val r = aggGet(a[0], 0);
      int op = id == Intrinsic::vector_reduce_add ? O_ADD : id == Intrinsic::vector_reduce_or ? O_OR : id == Intrinsic::vector_reduce_and ? O_AND : id == Intrinsic::vector_reduce_mul ? O_MUL : O_XOR;
      for (size_t i = 1; i < k; i++) r = opBin(op, r, aggGet(a[0], i), rt->w);
      return r;
    }
    default: engineError("intrinsic " + f->name);
  }
  (void)n; (void)bitw; (void)vaOf;
}
