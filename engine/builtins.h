// ----------------------------------------------------------------- builtins
enum { B_NONE, B_NONDET, B_ASSUME, B_CHECK, B_WITNESS, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ABORT, B_EXIT, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_NOP0,
  B_VASTART, B_VACOPY, B_VAEND, B_LIFETIME, B_EXPECT, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSHL, B_FSHR, B_OVF, B_STACKSAVE, B_STACKRESTORE,
  B_OBJSIZE, B_ISCONST, B_LASSUME, B_FABS, B_FMATH, B_FPRINT, B_STRTOLD, B_TRAP, B_USUBSAT, B_UADDSAT, B_VALID, B_ISSYM, B_COPYSIGN, B_ISFPCLASS, B_FMULADD, B_DUMP, B_BITREV, B_SETJMP, B_LONGJMP, B_DIGITS, B_PICK };
static const std::map<std::string, int> &btab ()
{
  static std::map<std::string, int> t = {
    { "nondet_vh_ull", B_NONDET }, { "vsym_assume", B_ASSUME }, { "vsym_check", B_CHECK }, { "vsym_witness", B_WITNESS },
    { "malloc", B_MALLOC }, { "calloc", B_CALLOC }, { "realloc", B_REALLOC }, { "free", B_FREE }, { "abort", B_ABORT }, { "__assert_fail", B_ABORT }, { "exit", B_EXIT }, { "_exit", B_EXIT },
    { "memcpy", B_MEMCPY }, { "memmove", B_MEMCPY }, { "memset", B_MEMSET }, { "memcmp", B_MEMCMP }, { "bcmp", B_MEMCMP }, { "strlen", B_STRLEN },
    { "vsym_fprint", B_FPRINT }, { "vsym_strtold", B_STRTOLD }, { "vsym_valid", B_VALID }, { "vsym_issym", B_ISSYM }, { "vsym_dump", B_DUMP }, { "vsym_pick", B_PICK }, { "vsym_digits", B_DIGITS }, { "setjmp", B_SETJMP }, { "_setjmp", B_SETJMP }, { "__sigsetjmp", B_SETJMP }, { "longjmp", B_LONGJMP }, { "_longjmp", B_LONGJMP }, { "siglongjmp", B_LONGJMP } };
  return t;
}
static int builtin_id (const std::string &n)
{
  auto it = btab ().find (n); if (it != btab ().end ()) return it->second;
  auto sw = [&] (const char *p) { return n.rfind (p, 0) == 0; };
  if (sw ("llvm.memcpy") || sw ("llvm.memmove")) return B_MEMCPY;
  if (sw ("llvm.memset")) return B_MEMSET;
  if (sw ("llvm.va_start")) return B_VASTART; if (sw ("llvm.va_copy")) return B_VACOPY; if (sw ("llvm.va_end")) return B_LIFETIME;
  if (sw ("llvm.lifetime") || sw ("llvm.dbg") || sw ("llvm.experimental.noalias") || sw ("llvm.prefetch") || sw ("llvm.donothing")) return B_LIFETIME;
  if (sw ("llvm.expect")) return B_EXPECT; if (sw ("llvm.assume")) return B_LASSUME;
  if (sw ("llvm.smax")) return B_SMAX; if (sw ("llvm.smin")) return B_SMIN; if (sw ("llvm.umax")) return B_UMAX; if (sw ("llvm.umin")) return B_UMIN; if (sw ("llvm.abs")) return B_ABS;
  if (sw ("llvm.ctpop")) return B_CTPOP; if (sw ("llvm.ctlz")) return B_CTLZ; if (sw ("llvm.cttz")) return B_CTTZ; if (sw ("llvm.bswap")) return B_BSWAP;
  if (sw ("llvm.fshl")) return B_FSHL; if (sw ("llvm.fshr")) return B_FSHR;
  if (n.find (".with.overflow") != std::string::npos) return B_OVF;
  if (sw ("llvm.usub.sat")) return B_USUBSAT; if (sw ("llvm.uadd.sat")) return B_UADDSAT;
  if (sw ("llvm.stacksave")) return B_STACKSAVE; if (sw ("llvm.stackrestore")) return B_STACKRESTORE;
  if (sw ("llvm.objectsize")) return B_OBJSIZE; if (sw ("llvm.is.constant")) return B_ISCONST;
  if (sw ("llvm.fabs")) return B_FABS; if (sw ("llvm.trap") || sw ("llvm.ubsantrap")) return B_TRAP; if (sw ("llvm.copysign")) return B_COPYSIGN; if (sw ("llvm.is.fpclass")) return B_ISFPCLASS;
  if (sw ("llvm.fmuladd") || sw ("llvm.fma")) return B_FMULADD;
  for (const char *m : { "powl", "pow", "sqrtl", "sqrt", "fmodl", "fmod", "floorl", "floor", "ceill", "ceil", "roundl", "round", "truncl", "trunc", "logl", "expl", "ldexpl", "fabsl", "fabs", "rintl", "log10l", "log2l", "exp2l" }) if (n == m) return B_FMATH;
  if (sw ("llvm.floor") || sw ("llvm.ceil") || sw ("llvm.trunc") || sw ("llvm.sqrt") || sw ("llvm.pow") || sw ("llvm.rint")) return B_FMATH;
  return B_NONE;
}
static Val fp2val (long double d, unsigned w);
static long double val2fp (const Val &v, unsigned w);
static Val bin (unsigned op, const Val &a, const Val &b, unsigned w);
static Val icmp (unsigned pr, const Val &a, const Val &b, unsigned w);
static void killstack (uint64_t from);

static void builtin (FInfo *g, const Ins &n, Val *a, int na, Val *R, Aux &x, uint64_t vaptr)
{
  Val r = kv (0);
  unsigned w = n.w;
  switch (g->bi) {
    case B_NONDET: {
      if (nvars >= NV) incomplete ("too many inputs");
      r = ve (mk (VAR, 64, 0, 0, 0, 0, nvars)); nvars++; if (model.size () < nvars) model.resize (nvars, 0); break; }
    case B_ASSUME: {
      E *c = ex (a[0], x.argw[0]); c = enot (ebin (EQ, c, K (0, c->w)));
      if (isk (c)) { if (!c->v) { sh->assumed_out++; leave (); } break; }
      auto it = known.find (c); if (it != known.end ()) { if (!it->second) { sh->assumed_out++; leave (); } break; }
      std::vector<uint64_t> m; int p = possible (c, &m);
      if (p == 2) incomplete ("solver undecided in assume");
      if (!p) { sh->assumed_out++; leave (); }
      model = m; add_pc (c); break; }
    case B_CHECK: {
      sh->checks++;
      E *c = ex (a[0], x.argw[0]); c = ebin (EQ, c, K (0, c->w));
      std::string msg = (const char *) a[1].lo;
      std::vector<uint64_t> m; int p;
      auto it = known.find (c); if (!isk (c) && it != known.end ()) { p = it->second; m = model; } else p = possible (c, &m);
      if (p == 2) { sh->incomplete++; reason ("solver undecided in check " + msg + " at " + where ()); break; }
      if (p == 1) { report ("check", "VH: " + msg, m); if (isk (c)) leave (); std::vector<uint64_t> m2; E *nc = enot (c); if (possible (nc, &m2) != 1) leave (); model = m2; add_pc (nc); break; }
      sh->discharged++; break; }
    case B_WITNESS: { int z0 = 0; if (sh->have_witness.compare_exchange_strong (z0, 1)) { int k = 0; for (unsigned i = 0; i < nvars && k < 64; i++) if (!internal_var[i]) sh->witness[k++] = i < model.size () ? model[i] : 0; sh->nwitness = k; } break; }
    case B_DIGITS: {
      unsigned k = (unsigned) a[1].lo; uint64_t dst = a[2].lo; chk (dst, k, true);
      if (!a[0].e) { uint64_t v = a[0].lo; for (unsigned i = k; i-- > 0; v /= 10) rawstore (dst + i, 8, kv ('0' + v % 10)); }
      else { std::vector<E*> d = digits (a[0].e, k); for (unsigned i = 0; i < k; i++) rawstore (dst + i, 8, ve (ebin (ADD, d[i], K ('0', 8)))); }
      break; }
    case B_MALLOC: r = kv (hmalloc (pick (a[0], 64), 0xbe)); break;
    case B_CALLOC: { uint64_t p = pick (a[0], 64), q = pick (a[1], 64); u128 t = (u128) p * q; r = t >> 40 ? kv (0) : kv (hmalloc ((uint64_t) t, 0)); break; }
    case B_REALLOC: {
      uint64_t p = pick (a[0], 64), s = pick (a[1], 64);
      if (p && !hsize.count (p)) fault ("realloc of a pointer that is not a heap block");
      if (p && s == 0) { hfree (p); r = kv (0); break; }
      uint64_t q = hmalloc (s, 0xbe);
      if (q && p) { uint64_t k = std::min (s, hsize[p]); memcpy ((void *) q, (void *) p, k); movesym (q, p, k); hfree (p); }
      r = kv (q); break; }
    case B_FREE: hfree (pick (a[0], 64)); break;
    case B_ABORT: fault (g->name == "abort" ? "abort called" : "assertion failed");
    case B_TRAP: fault ("trap");
    case B_EXIT: fault ("exit called");
    case B_MEMCPY: {
      uint64_t d = pick (a[0], 64), s = pick (a[1], 64), k = pick (a[2], 64);
      r = kv (d);
      if (k) { chk (s, k, false); chk (d, k, true); memmove ((void *) d, (void *) s, k); movesym (d, s, k); }
      break; }
    case B_MEMSET: {
      uint64_t d = pick (a[0], 64), k = pick (a[2], 64); r = kv (d);
      if (k) { chk (d, k, true); if (a[1].e) { Val b = ve (eext (a[1].e, 0, 8)); for (uint64_t i = 0; i < k; i++) rawstore (d + i, 8, b); } else { memset ((void *) d, (int) a[1].lo, k); unsym (d, k); } }
      break; }
    case B_MEMCMP: {
      uint64_t p = pick (a[0], 64), q = pick (a[1], 64), k = pick (a[2], 64);
      if (k) { chk (p, k, false); chk (q, k, false); }
      E *e = K (0, 32);
      for (uint64_t i = k; i-- > 0;) { E *u = byteE (p + i), *v = byteE (q + i); E *d = ebin (SUB, ezext (u, 32), ezext (v, 32)); e = eite (ebin (EQ, u, v), e, d); }
      r = ve (e); break; }
    case B_STRLEN: {
      uint64_t p = pick (a[0], 64), i = 0;
      for (;; i++) { chk (p + i, 1, false); E *b = byteE (p + i); if (isk (b) ? b->v == 0 : decide (ebin (EQ, b, K (0, 8)))) break; }
      r = kv (i); break; }
    case B_VASTART: { uint64_t p = a[0].lo; chk (p, 24, true); rawstore (p, 32, kv (48)); rawstore (p + 4, 32, kv (176)); rawstore (p + 8, 64, kv (vaptr)); rawstore (p + 16, 64, kv (0)); break; }
    case B_VACOPY: chk (a[1].lo, 24, false); chk (a[0].lo, 24, true); memmove ((void *) a[0].lo, (void *) a[1].lo, 24); movesym (a[0].lo, a[1].lo, 24); break;
    case B_LIFETIME: case B_LASSUME: break;
    case B_EXPECT: r = a[0]; break;
    case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: {
      unsigned pr = g->bi == B_SMAX ? CmpInst::ICMP_SGT : g->bi == B_SMIN ? CmpInst::ICMP_SLT : g->bi == B_UMAX ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
      Val c = icmp (pr, a[0], a[1], w); r = c.e ? ve (eite (c.e, ex (a[0], w), ex (a[1], w))) : c.lo ? a[0] : a[1]; break; }
    case B_ABS: { E *e = ex (a[0], w); r = ve (eite (ebin (SLT, e, K (0, w)), ebin (SUB, K (0, w), e), e)); break; }
    case B_CTPOP: { E *e = ex (a[0], w), *s = K (0, w); for (unsigned i = 0; i < w; i++) s = ebin (ADD, s, ezext (eext (e, i, 1), w)); r = ve (s); break; }
    case B_CTLZ: { E *e = ex (a[0], w), *s = K (w, w); for (unsigned i = 0; i < w; i++) s = eite (eext (e, i, 1), K (w - 1 - i, w), s); r = ve (s); break; }
    case B_CTTZ: { E *e = ex (a[0], w), *s = K (w, w); for (unsigned i = w; i-- > 0;) s = eite (eext (e, i, 1), K (i, w), s); r = ve (s); break; }
    case B_BSWAP: { E *e = ex (a[0], w), *s = eext (e, 0, 8); for (unsigned i = 8; i < w; i += 8) s = econcat (s, eext (e, i, 8)); r = ve (s); break; }
    case B_FSHL: case B_FSHR: {
      E *c = ebin (UREM, ex (a[2], w), K (w, w)), *h = ex (a[0], w), *l = ex (a[1], w);
      if (w > 64) incomplete ("wide funnel shift");
      E *cc = econcat (h, l), *sh_ = ezext (c, 2 * w);
      r = ve (g->bi == B_FSHL ? eext (ebin (SHL, cc, sh_), w, w) : eext (ebin (LSHR, cc, sh_), 0, w)); break; }
    case B_OVF: {
      unsigned aw = x.argw[0]; const std::string &nm = g->name; bool sg = nm[5] == 's';
      E *p = ex (a[0], aw), *q = ex (a[1], aw), *res, *ov;
      Op o = nm.find ("add") != std::string::npos ? ADD : nm.find ("sub") != std::string::npos ? SUB : MUL;
      res = ebin (o, p, q);
      unsigned W = o == MUL ? 2 * aw : aw + 1; if (W > 128) incomplete ("wide overflow intrinsic");
      E *wp = sg ? esext (p, W) : ezext (p, W), *wq = sg ? esext (q, W) : ezext (q, W), *wr = ebin (o, wp, wq);
      ov = enot (ebin (EQ, wr, sg ? esext (res, W) : ezext (res, W)));
      R[n.dst] = ve (res); R[n.dst + 1] = ve (ov); return; }
    case B_USUBSAT: { Val c = icmp (CmpInst::ICMP_ULT, a[0], a[1], w); Val d = bin (Instruction::Sub, a[0], a[1], w); r = c.e ? ve (eite (c.e, K (0, w), ex (d, w))) : c.lo ? kv (0) : d; break; }
    case B_UADDSAT: { Val d = bin (Instruction::Add, a[0], a[1], w); Val c = icmp (CmpInst::ICMP_ULT, d, a[0], w); r = c.e ? ve (eite (c.e, K (mask (w), w), ex (d, w))) : c.lo ? kv (mask (w)) : d; break; }
    case B_STACKSAVE: r = kv (stop_); break;
    case B_STACKRESTORE: killstack (a[0].lo); break;
    case B_OBJSIZE: r = kv (mask (w)); break;
    case B_ISCONST: r = kv (0); break;
    case B_FABS: r = a[0].e ? ve (ebin (AND, a[0].e, K (mask (w - 1), w))) : kv (cv (a[0]) & mask (w - 1)); break;
    case B_COPYSIGN: { E *p = ex (a[0], w), *q = ex (a[1], w); r = ve (econcat (eext (q, w - 1, 1), eext (p, 0, w - 1))); break; }
    case B_FMULADD: { if (a[0].e || a[1].e || a[2].e) incomplete ("symbolic fma"); long double p = val2fp (a[0], w), q = val2fp (a[1], w), s = val2fp (a[2], w); r = w == 64 ? fp2val ((double) p * (double) q + (double) s, w) : fp2val (p * q + s, w); break; }
    case B_ISFPCLASS: {
      if (a[0].e) incomplete ("symbolic fpclass");
      unsigned fw = x.argw[0]; long double d = val2fp (a[0], fw); unsigned m = (unsigned) a[1].lo; bool neg = std::signbit (d); bool t;
      switch (std::fpclassify (d)) { case FP_NAN: t = m & 3; break; case FP_INFINITE: t = m & (neg ? 4 : 0x200); break; case FP_NORMAL: t = m & (neg ? 8 : 0x100); break; case FP_SUBNORMAL: t = m & (neg ? 0x10 : 0x80); break; default: t = m & (neg ? 0x20 : 0x40); }
      r = kv (t); break; }
    case B_FMATH: {
      for (int i = 0; i < na; i++) if (a[i].e) incomplete ("symbolic argument of " + g->name);
      std::string m = g->name; if (m.rfind ("llvm.", 0) == 0) m = m.substr (5, m.find ('.', 5) - 5);
      if (m.size () > 3 && m.back () == 'l' && m != "ceil") m.pop_back ();
      unsigned fw = x.argw[0]; long double p = val2fp (a[0], fw), q = na > 1 && m != "ldexp" ? val2fp (a[1], x.argw[1]) : 0, d = 0;
      if (m == "pow") d = powl (p, q); else if (m == "sqrt") d = sqrtl (p); else if (m == "fmod") d = fmodl (p, q); else if (m == "floor") d = floorl (p); else if (m == "ceil") d = ceill (p); else if (m == "round") d = roundl (p); else if (m == "trunc") d = truncl (p);
      else if (m == "log") d = logl (p); else if (m == "exp") d = expl (p); else if (m == "fabs") d = fabsl (p); else if (m == "rint") d = rintl (p); else if (m == "log10") d = log10l (p); else if (m == "log2") d = log2l (p); else if (m == "exp2") d = exp2l (p); else if (m == "ldexp") d = ldexpl (p, (int) a[1].lo); else incomplete ("function " + g->name);
      r = fp2val (d, w); break; }
    case B_FPRINT: {   // int vsym_fprint (char * dst, size_t size, const char * fmt, long double value): fmt is one floating conversion
      if (a[3].e) incomplete ("printing a symbolic floating point value");
      char b[512]; const char *fm = (const char *) a[2].lo; long double d = val2fp (a[3], 80);
      int k = strchr (fm, 'L') ? snprintf (b, sizeof b, fm, d) : snprintf (b, sizeof b, fm, (double) d);
      uint64_t sz = pick (a[1], 64); if (sz) { uint64_t c = std::min<uint64_t> (sz - 1, (uint64_t) k); chk (a[0].lo, c + 1, true); memcpy ((void *) a[0].lo, b, c); ((char *) a[0].lo)[c] = 0; unsym (a[0].lo, c + 1); }
      r = kv ((uint32_t) k); break; }
    case B_STRTOLD: {  // long double vsym_strtold (const char * s, size_t * used, int kind): kind 0 float, 1 double, 2 long double
      uint64_t p = a[0].lo, i = 0; for (;; i++) { chk (p + i, 1, false); E *b = byteE (p + i); if (!isk (b)) incomplete ("strtold of symbolic text"); if (!b->v) break; }
      char *e; long double d = a[2].lo == 0 ? strtof ((char *) p, &e) : a[2].lo == 1 ? strtod ((char *) p, &e) : strtold ((char *) p, &e);
      chk (a[1].lo, 8, true); rawstore (a[1].lo, 64, kv ((uint64_t) (e - (char *) p))); r = fp2val (d, 80); break; }
    case B_SETJMP: jmpbufs[a[0].lo] = { frames.back ().f, cur, R, stop_ }; break;
    case B_LONGJMP: { LongJmp j; j.buf = a[0].lo; j.val = a[1].e || a[1].lo ? a[1] : kv (1); throw j; }
    case B_VALID: r = kv (acc (pick (a[0], 64), pick (a[1], 64), false) == 0); break;
    case B_ISSYM: r = kv (a[0].e != 0); break;
    case B_PICK: r = kv (pick (a[0], 64)); break;
    case B_DUMP: { fprintf (stderr, "[%d] %s %lx%s\n", getpid (), (const char *) a[0].lo, (unsigned long) a[1].lo, a[1].e ? " sym" : ""); break; }
    default: incomplete ("builtin " + g->name);
  }
  for (int i = 0; i < n.n && i < 1; i++) R[n.dst] = r;
}
