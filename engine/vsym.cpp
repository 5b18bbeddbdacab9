// vsym: symbolic execution of LLVM IR.
//
//   vsym FILE.bc [-t seconds] [-j procs] [-i max_instructions] [-o result.json]
//
// Runs the global constructors and then harness() of the module.  Values are
// concrete machine words or bit-vector expressions over the inputs returned by
// nondet_vh_ull().  At a branch (or address, or switch) whose condition is
// symbolic Z3 decides which sides are possible under the path condition; when
// both are, the process forks and each side is explored by its own process, so
// that in the end every feasible path has been executed.  On each path every
// memory access is checked against the live objects, and vsym_check(c) asks Z3
// whether c can be false for any input of the path.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <atomic>
#include <bitset>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cerrno>
#include <ctime>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 s128;

// ---------------------------------------------------------------- expressions
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  FADD, FSUB, FMUL, FDIV, FNEG, FEQ, FLT, FLE, FUNO, SI2FP, UI2FP, FP2SI, FP2UI, FP2FP };
static const unsigned NV = 1024;
typedef std::bitset<NV> VSet;
static bool internal_var[NV]; static u128 varmax[NV];   // variables introduced by the executor; bound of every variable (0: none)
struct E { Op op; uint8_t w; uint16_t x; uint32_t id; E *a, *b, *c; u128 v; const VSet *vs; Z3_ast z; u128 ev, um; bool umk; uint32_t ep; };

static inline u128 mask (unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
static inline s128 sx (u128 v, unsigned w) { if (w >= 128) return (s128) v; u128 m = (u128) 1 << (w - 1); v &= mask (w); return (s128) ((v ^ m) - m); }

struct EH { size_t operator() (const E *e) const { size_t h = e->op * 131 + e->w; h = h * 1000003 + e->x; h = h * 1000003 + (size_t) e->a; h = h * 1000003 + (size_t) e->b; h = h * 1000003 + (size_t) e->c; h = h * 1000003 + (size_t) e->v; h = h * 1000003 + (size_t) (e->v >> 64); return h ^ (h >> 29); } };
struct EEq { bool operator() (const E *p, const E *q) const { return p->op == q->op && p->w == q->w && p->x == q->x && p->a == q->a && p->b == q->b && p->c == q->c && p->v == q->v; } };
static std::unordered_set<E*, EH, EEq> pool;
static uint32_t next_id = 0;
struct VH { size_t operator() (const VSet &s) const { return std::hash<VSet> () (s); } };
static std::unordered_set<VSet, VH> vsets;
static const VSet *vintern (const VSet &s) { return &*vsets.insert (s).first; }

static E *mk (Op op, unsigned w, E *a = 0, E *b = 0, E *c = 0, u128 v = 0, unsigned x = 0)
{
  E t; t.op = op; t.w = w; t.x = x; t.a = a; t.b = b; t.c = c; t.v = v;
  auto it = pool.find (&t);
  if (it != pool.end ()) return *it;
  E *e = new E (t);
  e->id = next_id++; e->z = 0; e->umk = false; e->ep = 0; e->ev = 0;
  VSet s;
  if (op == VAR) s.set (x);
  if (a) s |= *a->vs; if (b) s |= *b->vs; if (c) s |= *c->vs;
  e->vs = vintern (s);
  pool.insert (e);
  return e;
}
static E *K (u128 v, unsigned w) { return mk (CONST, w, 0, 0, 0, v & mask (w)); }
static inline bool isk (E *e) { return e->op == CONST; }
static E *eext (E *a, unsigned lo, unsigned w);
static E *ebin (Op op, E *a, E *b);
static E *enot (E *a);   // boolean

static u128 fold (Op op, u128 a, u128 b, unsigned w)
{
  u128 m = mask (w);
  switch (op) {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
    case SDIV: { s128 x = sx (a, w), y = sx (b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u128) (x / y) & m; }
    case SREM: { s128 x = sx (a, w), y = sx (b, w); if (y == 0) return a; if (y == -1) return 0; return (u128) (x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned) b) & m;
    case LSHR: return b >= w ? 0 : (a >> (unsigned) b);
    case ASHR: return (u128) (sx (a, w) >> (b >= w ? w - 1 : (unsigned) b)) & m;
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sx (a, w) < sx (b, w); case SLE: return sx (a, w) <= sx (b, w);
    default: abort ();
  }
}
static E *eite (E *c, E *a, E *b)
{
  if (isk (c)) return c->v ? a : b;
  if (a == b) return a;
  if (a->w == 1 && isk (a) && isk (b)) return a->v ? c : enot (c);
  if (a->w == 1 && isk (a)) return a->v ? ebin (OR, c, b) : ebin (AND, enot (c), b);
  if (a->w == 1 && isk (b)) return b->v ? ebin (OR, enot (c), a) : ebin (AND, c, a);
  if (c->op == XOR && c->w == 1 && isk (c->b) && c->b->v == 1) return eite (c->a, b, a);
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return mk (ITE, a->w, c, a, b);
}
static E *enot (E *a) { return ebin (XOR, a, K (1, 1)); }
static u128 umax_ (E *e);
static E *ezext (E *a, unsigned w)
{
  if (a->w == w) return a;
  if (isk (a)) return K (a->v, w);
  if (a->op == ZEXT) return ezext (a->a, w);
  if (a->op == ITE && (isk (a->b) || isk (a->c))) return eite (a->a, ezext (a->b, w), ezext (a->c, w));
  if (a->op == ADD && a->w < 128 && umax_ (a->a) + umax_ (a->b) <= mask (a->w)) return ebin (ADD, ezext (a->a, w), ezext (a->b, w));
  if (a->op == MUL && isk (a->b) && a->w <= 64 && umax_ (a->a) * a->b->v <= mask (a->w)) return ebin (MUL, ezext (a->a, w), K (a->b->v, w));
  return mk (ZEXT, w, a);
}
static E *esext (E *a, unsigned w)
{
  if (a->w == w) return a;
  if (isk (a)) return K ((u128) sx (a->v, a->w), w);
  if (a->op == ZEXT) return ezext (a->a, w);
  if (a->op == SEXT) return esext (a->a, w);
  if (a->op == ITE && (isk (a->b) || isk (a->c))) return eite (a->a, esext (a->b, w), esext (a->c, w));
  if (umax_ (a) < ((u128) 1 << (a->w - 1))) return ezext (a, w);
  return mk (SEXT, w, a);
}
static E *econcat (E *hi, E *lo)
{
  unsigned w = hi->w + lo->w;
  if (isk (hi) && isk (lo)) return K ((hi->v << lo->w) | lo->v, w);
  if (isk (hi) && hi->v == 0) return ezext (lo, w);
  if (isk (lo) && hi->op == ITE && (isk (hi->b) || isk (hi->c))) return eite (hi->a, econcat (hi->b, lo), econcat (hi->c, lo));
  // adjacent extracts of one source
  E *hs = hi, *ls = lo; unsigned ho = 0, lo_ = 0;
  if (hi->op == EXTRACT) { hs = hi->a; ho = hi->x; }
  if (lo->op == EXTRACT) { ls = lo->a; lo_ = lo->x; }
  if (hs == ls && ho == lo_ + lo->w) return eext (hs, lo_, w);
  if (ls->op == ZEXT && hs == ls && ho == lo_ + lo->w) return eext (ls, lo_, w);
  return mk (CONCAT, w, hi, lo);
}
static E *eext (E *a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case CONST: return K (a->v >> lo, w);
    case EXTRACT: return eext (a->a, a->x + lo, w);
    case CONCAT: if (lo >= a->b->w) return eext (a->a, lo - a->b->w, w);
      if (lo + w <= a->b->w) return eext (a->b, lo, w);
      return econcat (eext (a->a, 0, lo + w - a->b->w), eext (a->b, lo, a->b->w - lo));
    case ZEXT: if (lo >= a->a->w) return K (0, w);
      if (lo + w <= a->a->w) return eext (a->a, lo, w);
      return ezext (eext (a->a, lo, a->a->w - lo), w);
    case SEXT: if (lo + w <= a->a->w) return eext (a->a, lo, w);
      if (lo == 0) return esext (a->a, w);
      break;
    case ITE: if (isk (a->b) || isk (a->c)) return eite (a->a, eext (a->b, lo, w), eext (a->c, lo, w)); break;
    case AND: case OR: case XOR: return ebin (a->op, eext (a->a, lo, w), eext (a->b, lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return ebin (a->op, eext (a->a, 0, w), eext (a->b, 0, w)); break;
    case SHL: if (isk (a->b)) { unsigned s = (unsigned) a->b->v; if (lo >= s) return eext (a->a, lo - s, w); if (lo + w <= s) return K (0, w); } break;
    case LSHR: if (isk (a->b) && a->b->v < a->w) { unsigned s = (unsigned) a->b->v; if (lo + w + s <= a->w) return eext (a->a, lo + s, w); if (lo + s >= a->w) return K (0, w);
	return ezext (eext (a->a, lo + s, a->w - lo - s), w); } break;
    default: break;
  }
  if (lo && (umax_ (a) >> lo) == 0) return K (0, w);
  return mk (EXTRACT, w, a, 0, 0, 0, lo);
}
static u128 umax1 (E *e);
static u128 umax_ (E *e) { if (!e->umk) { e->um = umax1 (e); e->umk = true; } return e->um; }
static u128 umax1 (E *e)
{
  u128 m = mask (e->w);
  switch (e->op) {
    case CONST: return e->v;
    case VAR: return varmax[e->x] ? varmax[e->x] : m;
    case EXTRACT: { u128 x = umax_ (e->a) >> e->x; return x < m ? x : m; }
    case ZEXT: return umax_ (e->a);
    case AND: return std::min (umax_ (e->a), umax_ (e->b));
    case ITE: return std::max (umax_ (e->b), umax_ (e->c));
    case CONCAT: return (umax_ (e->a) << e->b->w) | umax_ (e->b);
    case UREM: if (isk (e->b) && e->b->v) return e->b->v - 1; return m;
    case LSHR: if (isk (e->b) && e->b->v < e->w) return umax_ (e->a) >> (unsigned) e->b->v; return m;
    case SHL: if (isk (e->b) && e->b->v < e->w) { u128 x = umax_ (e->a); if (((x << (unsigned) e->b->v) & m) >> (unsigned) e->b->v == x) return x << (unsigned) e->b->v; } return m;
    case ADD: { u128 x = umax_ (e->a), y = umax_ (e->b); if (e->w < 128 && x + y <= m) return x + y; return m; }
    case MUL: { u128 x = umax_ (e->a), y = umax_ (e->b); if (e->w <= 64 && x <= m && y <= m && x * y <= m) return x * y; return m; }
    default: return m;
  }
}
static unsigned ktz (E *e)
{
  switch (e->op) {
    case CONST: { if (!e->v) return e->w; unsigned n = 0; while (!((e->v >> n) & 1)) n++; return n; }
    case SHL: return isk (e->b) ? std::min<unsigned> (e->w, ktz (e->a) + (unsigned) e->b->v) : 0;
    case MUL: return std::min<unsigned> (e->w, ktz (e->a) + ktz (e->b));
    case ADD: case SUB: case OR: case XOR: return std::min (ktz (e->a), ktz (e->b));
    case AND: return std::max (ktz (e->a), ktz (e->b));
    case ITE: return std::min (ktz (e->b), ktz (e->c));
    case ZEXT: case SEXT: return ktz (e->a);
    case CONCAT: { unsigned t = ktz (e->b); return t < e->b->w ? t : t + ktz (e->a); }
    case EXTRACT: if (e->x == 0) return std::min<unsigned> (e->w, ktz (e->a)); return 0;
    default: return 0;
  }
}
static E *ebin (Op op, E *a, E *b)
{
  unsigned w = a->w;
  bool cmp = op >= EQ && op <= SLE;
  if (isk (a) && isk (b)) return K (fold (op, a->v, b->v, w), cmp ? 1 : w);
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm && (isk (a) || (!isk (b) && a->id > b->id))) std::swap (a, b);
  bool kb = isk (b);
  if (kb && a->op == ITE && (isk (a->b) || isk (a->c)) && (op == ADD || op == MUL || op == AND || cmp)) return eite (a->a, ebin (op, a->b, b), ebin (op, a->c, b));
  switch (op) {
    case ADD:
      if (kb && b->v == 0) return a;
      if (kb && a->op == ADD && isk (a->b)) return ebin (ADD, a->a, K (a->b->v + b->v, w));
      break;
    case SUB:
      if (kb) return ebin (ADD, a, K (0 - b->v, w));
      if (a == b) return K (0, w);
      if (a->op == ADD && a->a == b) return a->b;
      if (a->op == ADD && a->b == b) return a->a;
      break;
    case MUL:
      if (kb && b->v == 0) return b;
      if (kb && b->v == 1) return a;
      if (kb && (b->v & (b->v - 1)) == 0) { unsigned n = 0; while ((b->v >> n) != 1) n++; return ebin (SHL, a, K (n, w)); }
      break;
    case UDIV: if (kb && b->v == 1) return a;
      if (kb && b->v && (b->v & (b->v - 1)) == 0) { unsigned n = 0; while ((b->v >> n) != 1) n++; return ebin (LSHR, a, K (n, w)); }
      break;
    case UREM: if (kb && b->v && (b->v & (b->v - 1)) == 0) return ebin (AND, a, K (b->v - 1, w));
      break;
    case AND:
      if (a == b) return a;
      if (kb && b->v == 0) return b;
      if (kb && b->v == mask (w)) return a;
      if (kb && a->op == AND && isk (a->b)) return ebin (AND, a->a, K (a->b->v & b->v, w));
      if (kb) {   // low mask
	u128 v = b->v; unsigned n = 0; while (n < w && ((v >> n) & 1)) n++;
	if (n && n < w && (v >> n) == 0) return ezext (eext (a, 0, n), w);
      }
      break;
    case OR:
      if (a == b) return a;
      if (kb && b->v == 0) return a;
      if (kb && b->v == mask (w)) return b;
      if (kb) { u128 x = umax_ (a); while (x & (x + 1)) x |= x >> 1; if ((x & b->v) == 0) return ebin (ADD, a, b); }
      break;
    case XOR:
      if (a == b) return K (0, w);
      if (kb && b->v == 0) return a;
      if (kb && a->op == XOR && isk (a->b)) return ebin (XOR, a->a, K (a->b->v ^ b->v, w));
      break;
    case SHL: case LSHR: case ASHR:
      if (kb && b->v == 0) return a;
      if (kb && op == SHL && b->v < w) return econcat (eext (a, 0, w - (unsigned) b->v), K (0, (unsigned) b->v));
      if (kb && op == LSHR && b->v < w) return ezext (eext (a, (unsigned) b->v, w - (unsigned) b->v), w);
      if (kb && b->v >= w && op != ASHR) return K (0, w);
      if (kb && op == ASHR && a->op == CONCAT && isk (a->b) && a->b->v == 0 && a->b->w == b->v) return esext (a->a, w);
      if (kb && op == ASHR && umax_ (a) < ((u128) 1 << (w - 1))) return ebin (LSHR, a, b);
      break;
    case EQ:
      if (a == b) return K (1, 1);
      if (kb && w == 1) return b->v ? a : enot (a);
      if (kb) {
	if (a->op == ZEXT) return (b->v >> a->a->w) ? K (0, 1) : ebin (EQ, a->a, K (b->v, a->a->w));
	if (a->op == SEXT) { u128 lowv = b->v & mask (a->a->w); if ((((u128) sx (lowv, a->a->w)) & mask (w)) != b->v) return K (0, 1); return ebin (EQ, a->a, K (lowv, a->a->w)); }
	if (a->op == ITE && (isk (a->b) || isk (a->c))) return eite (a->a, ebin (EQ, a->b, b), ebin (EQ, a->c, b));
	if (a->op == CONCAT) return ebin (AND, ebin (EQ, a->b, eext (b, 0, a->b->w)), ebin (EQ, a->a, eext (b, a->b->w, a->a->w)));
	if (a->op == ADD && isk (a->b)) return ebin (EQ, a->a, K (b->v - a->b->v, w));
	if (a->op == XOR && isk (a->b)) return ebin (EQ, a->a, K (b->v ^ a->b->v, w));
	if (umax_ (a) < b->v) return K (0, 1);
      }
      else if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return ebin (EQ, a->a, b->a);
      break;
    case ULT:
      if (a == b) return K (0, 1);
      if (kb && b->v == 0) return K (0, 1);
      if (kb && umax_ (a) < b->v) return K (1, 1);
      if (isk (a) && umax_ (b) <= a->v) return K (0, 1);
      if (kb && a->op == ZEXT && (b->v >> a->a->w) == 0) return ebin (ULT, a->a, K (b->v, a->a->w));
      break;
    case ULE:
      if (a == b) return K (1, 1);
      if (kb && umax_ (a) <= b->v) return K (1, 1);
      if (isk (a) && umax_ (b) < a->v) return K (0, 1);
      if (kb && a->op == ZEXT && (b->v >> a->a->w) == 0) return ebin (ULE, a->a, K (b->v, a->a->w));
      break;
    case SLT: case SLE:
      if (a == b) return K (op == SLE, 1);
      if (umax_ (a) < ((u128) 1 << (w - 1)) && umax_ (b) < ((u128) 1 << (w - 1))) return ebin (op == SLT ? ULT : ULE, a, b);
      if (kb && a->op == ZEXT && sx (b->v, w) < 0) return K (0, 1);
      if (isk (a) && b->op == ZEXT && sx (a->v, w) < 0) return K (1, 1);
      break;
    default: break;
  }
  return mk (op, cmp ? 1 : w, a, b);
}

// -------------------------------------------------------------------- state
static std::vector<E*> pc;
static std::vector<uint64_t> model;   // satisfies pc
static uint32_t epoch = 0;
static const std::vector<uint64_t> *cur_model;
static u128 fp_eval (E *e, u128 a, u128 b);
static u128 ev_ (E *e)
{
  if (e->op == CONST) return e->v;
  if (e->ep == epoch) return e->ev;
  u128 r = 0;
  switch (e->op) {
    case VAR: r = e->x < cur_model->size () ? (*cur_model)[e->x] : 0; break;
    case ITE: r = ev_ (e->a) ? ev_ (e->b) : ev_ (e->c); break;
    case ZEXT: r = ev_ (e->a); break;
    case SEXT: r = (u128) sx (ev_ (e->a), e->a->w) & mask (e->w); break;
    case EXTRACT: r = (ev_ (e->a) >> e->x) & mask (e->w); break;
    case CONCAT: r = (ev_ (e->a) << e->b->w) | ev_ (e->b); break;
    default:
      if (e->op >= FADD) r = fp_eval (e, ev_ (e->a), e->b ? ev_ (e->b) : 0);
      else r = fold (e->op, ev_ (e->a), ev_ (e->b), e->a->w);
  }
  e->ep = epoch; e->ev = r;
  return r;
}
static u128 eval (E *e, const std::vector<uint64_t> &m) { epoch++; cur_model = &m; return ev_ (e); }

// ------------------------------------------------------------------- shared
struct Shared {
  std::atomic<long> started, ended, paths, assumed_out, incomplete, viol, forks, queries, sat_n, unsat_n, unknown, solver_ns, instrs, maxpath, checks, discharged;
  sem_t tokens;
  unsigned char fn[16384];
  char reasons[64][256];
  std::atomic<int> nreasons;
  uint64_t witness[64]; int nwitness; std::atomic<int> have_witness;
};
static Shared *sh;
static bool own_token = false, is_path = false;
static uint64_t ninstr = 0, max_instr = 200000000ull, solver_ns = 0;
static int violfd = -1;
static std::vector<std::pair<std::string, unsigned>> cstack_names;
static double deadline = 0;
static double now () { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void __attribute__ ((noreturn)) leave ()
{
  sh->instrs += ninstr;
  long c = sh->maxpath; while ((long) ninstr > c && !sh->maxpath.compare_exchange_weak (c, ninstr));
  sh->solver_ns += solver_ns;
  sh->ended++;
  if (own_token) sem_post (&sh->tokens);
  _exit (0);
}
static std::string where ();
static void reason (const std::string &r)
{
  int n = sh->nreasons;
  for (int i = 0; i < n && i < 64; i++) if (!strncmp (sh->reasons[i], r.c_str (), 255)) return;
  n = sh->nreasons++;
  if (n < 64) strncpy (sh->reasons[n], r.c_str (), 255);
}
static void __attribute__ ((noreturn)) incomplete (const std::string &r) { sh->incomplete++; reason (r + " at " + where ()); leave (); }
static std::string jesc (const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char) c < 32) o += ' '; else o += c; } return o; }
static unsigned nvars = 0;
static void report (const std::string &kind, const std::string &msg, const std::vector<uint64_t> &m)
{
  sh->viol++;
  std::string s = "{\"kind\":\"" + kind + "\",\"description\":\"" + jesc (msg) + "\",\"where\":\"" + jesc (where ()) + "\",\"inputs\":[";
  bool first = true;
  for (unsigned i = 0; i < nvars; i++) if (!internal_var[i]) { s += (first ? "" : ",") + std::to_string (i < m.size () ? m[i] : 0); first = false; }
  s += "]}\n";
  if (write (violfd, s.data (), s.size ()) < 0) {}
}
static void __attribute__ ((noreturn)) fault (const std::string &msg) { report ("fault", msg, model); leave (); }

// ------------------------------------------------------------------- solver
static Z3_context z;
static Z3_solver zs = 0, zsf = 0, zquick = 0;
static void zinit ()
{
  Z3_config cfg = Z3_mk_config (); z = Z3_mk_context (cfg);
  zquick = Z3_mk_simple_solver (z); Z3_solver_inc_ref (z, zquick);
  Z3_params p = Z3_mk_params (z); Z3_params_inc_ref (z, p);
  Z3_params_set_uint (z, p, Z3_mk_string_symbol (z, "rlimit"), 3000000u);
  Z3_solver_set_params (z, zquick, p);
  // warm up before the first fork
  Z3_sort b = Z3_mk_bv_sort (z, 8); Z3_ast x = Z3_mk_const (z, Z3_mk_int_symbol (z, 4000), b);
  Z3_solver_assert (z, zquick, Z3_mk_bvult (z, x, Z3_mk_unsigned_int64 (z, 7, b))); Z3_solver_check (z, zquick);
}
static void zerr (Z3_context c, Z3_error_code e) { incomplete (std::string ("z3 error ") + Z3_get_error_msg (c, e)); }
static Z3_ast zbool (Z3_ast b) { return Z3_mk_ite (z, b, Z3_mk_unsigned_int64 (z, 1, Z3_mk_bv_sort (z, 1)), Z3_mk_unsigned_int64 (z, 0, Z3_mk_bv_sort (z, 1))); }
static Z3_sort fsort (unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32 (z) : w == 64 ? Z3_mk_fpa_sort_64 (z) : Z3_mk_fpa_sort (z, 15, 64); }
static Z3_ast zl (E *e);
static bool is_fp_op (E *e) { return e->op >= FADD; }
static Z3_ast zf (E *e)   // expression as a float
{
  Z3_ast b = zl (e);
  if (e->w == 80) b = Z3_mk_concat (z, Z3_mk_extract (z, 79, 64, b), Z3_mk_extract (z, 62, 0, b));
  return Z3_mk_fpa_to_fp_bv (z, b, fsort (e->w));
}
static std::vector<Z3_ast> zside;   // definitions of float results
static std::map<E*, std::pair<Z3_ast, Z3_ast>> fdefs;
static Z3_ast zb (E *e) { return Z3_mk_eq (z, zl (e), Z3_mk_unsigned_int64 (z, 1, Z3_mk_bv_sort (z, 1))); }
static Z3_ast zl (E *e)
{
  if (e->z) return e->z;
  Z3_ast r = 0;
  switch (e->op) {
    case CONST: {
      char buf[48]; int i = 47; buf[i] = 0; u128 v = e->v; if (!v) buf[--i] = '0'; while (v) { buf[--i] = '0' + (int) (v % 10); v /= 10; }
      r = Z3_mk_numeral (z, buf + i, Z3_mk_bv_sort (z, e->w)); break; }
    case VAR: r = Z3_mk_const (z, Z3_mk_int_symbol (z, e->x), Z3_mk_bv_sort (z, e->w)); break;
    case ADD: r = Z3_mk_bvadd (z, zl (e->a), zl (e->b)); break;
    case SUB: r = Z3_mk_bvsub (z, zl (e->a), zl (e->b)); break;
    case MUL: r = Z3_mk_bvmul (z, zl (e->a), zl (e->b)); break;
    case UDIV: r = Z3_mk_bvudiv (z, zl (e->a), zl (e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv (z, zl (e->a), zl (e->b)); break;
    case UREM: r = Z3_mk_bvurem (z, zl (e->a), zl (e->b)); break;
    case SREM: r = Z3_mk_bvsrem (z, zl (e->a), zl (e->b)); break;
    case AND: r = Z3_mk_bvand (z, zl (e->a), zl (e->b)); break;
    case OR: r = Z3_mk_bvor (z, zl (e->a), zl (e->b)); break;
    case XOR: r = Z3_mk_bvxor (z, zl (e->a), zl (e->b)); break;
    case SHL: r = Z3_mk_bvshl (z, zl (e->a), zl (e->b)); break;
    case LSHR: r = Z3_mk_bvlshr (z, zl (e->a), zl (e->b)); break;
    case ASHR: r = Z3_mk_bvashr (z, zl (e->a), zl (e->b)); break;
    case EQ: r = zbool (Z3_mk_eq (z, zl (e->a), zl (e->b))); break;
    case ULT: r = zbool (Z3_mk_bvult (z, zl (e->a), zl (e->b))); break;
    case ULE: r = zbool (Z3_mk_bvule (z, zl (e->a), zl (e->b))); break;
    case SLT: r = zbool (Z3_mk_bvslt (z, zl (e->a), zl (e->b))); break;
    case SLE: r = zbool (Z3_mk_bvsle (z, zl (e->a), zl (e->b))); break;
    case ITE: r = Z3_mk_ite (z, zb (e->a), zl (e->b), zl (e->c)); break;
    case ZEXT: r = Z3_mk_zero_ext (z, e->w - e->a->w, zl (e->a)); break;
    case SEXT: r = Z3_mk_sign_ext (z, e->w - e->a->w, zl (e->a)); break;
    case EXTRACT: r = Z3_mk_extract (z, e->x + e->w - 1, e->x, zl (e->a)); break;
    case CONCAT: r = Z3_mk_concat (z, zl (e->a), zl (e->b)); break;
    case FEQ: r = zbool (Z3_mk_fpa_eq (z, zf (e->a), zf (e->b))); break;
    case FLT: r = zbool (Z3_mk_fpa_lt (z, zf (e->a), zf (e->b))); break;
    case FLE: r = zbool (Z3_mk_fpa_leq (z, zf (e->a), zf (e->b))); break;
    case FUNO: { Z3_ast o[2] = { Z3_mk_fpa_is_nan (z, zf (e->a)), Z3_mk_fpa_is_nan (z, zf (e->b)) }; r = zbool (Z3_mk_or (z, 2, o)); break; }
    case FP2SI: r = Z3_mk_fpa_to_sbv (z, Z3_mk_fpa_rtz (z), zf (e->a), e->w); break;
    case FP2UI: r = Z3_mk_fpa_to_ubv (z, Z3_mk_fpa_rtz (z), zf (e->a), e->w); break;
    default: {
      Z3_ast rm = Z3_mk_fpa_rne (z), f;
      switch (e->op) {
	case FADD: f = Z3_mk_fpa_add (z, rm, zf (e->a), zf (e->b)); break;
	case FSUB: f = Z3_mk_fpa_sub (z, rm, zf (e->a), zf (e->b)); break;
	case FMUL: f = Z3_mk_fpa_mul (z, rm, zf (e->a), zf (e->b)); break;
	case FDIV: f = Z3_mk_fpa_div (z, rm, zf (e->a), zf (e->b)); break;
	case FNEG: f = Z3_mk_fpa_neg (z, zf (e->a)); break;
	case SI2FP: f = Z3_mk_fpa_to_fp_signed (z, rm, zl (e->a), fsort (e->w)); break;
	case UI2FP: f = Z3_mk_fpa_to_fp_unsigned (z, rm, zl (e->a), fsort (e->w)); break;
	case FP2FP: f = Z3_mk_fpa_to_fp_float (z, rm, zf (e->a), fsort (e->w)); break;
	default: incomplete ("expression kind"); }
      Z3_ast b = Z3_mk_fpa_to_ieee_bv (z, f);
      if (e->w == 80) {
	// put the explicit integer bit back: set unless the exponent is zero
	Z3_ast ex = Z3_mk_extract (z, 77, 63, b), zero = Z3_mk_unsigned_int64 (z, 0, Z3_mk_bv_sort (z, 15));
	Z3_ast one1 = Z3_mk_unsigned_int64 (z, 1, Z3_mk_bv_sort (z, 1)), zero1 = Z3_mk_unsigned_int64 (z, 0, Z3_mk_bv_sort (z, 1));
	Z3_ast ib = Z3_mk_ite (z, Z3_mk_eq (z, ex, zero), zero1, one1);
	b = Z3_mk_concat (z, Z3_mk_extract (z, 78, 63, b), Z3_mk_concat (z, ib, Z3_mk_extract (z, 62, 0, b)));
      }
      r = b; }
  }
  Z3_inc_ref (z, r);
  e->z = r;
  return r;
}
static bool has_fp (E *e, std::unordered_map<E*, bool> &memo)
{
  if (!e || e->op <= VAR) return false;
  auto it = memo.find (e); if (it != memo.end ()) return it->second;
  bool r = is_fp_op (e) || has_fp (e->a, memo) || has_fp (e->b, memo) || has_fp (e->c, memo);
  return memo[e] = r;
}
static std::map<std::vector<uint32_t>, int> qcache;
static const char *slow_dir = getenv ("VSYM_SLOW");
static int solve (const std::vector<E*> &cons, std::vector<uint64_t> *out)
{
  if (deadline && now () > deadline) incomplete ("out of time");
  struct timespec t0, t1; clock_gettime (CLOCK_MONOTONIC, &t0);
  std::unordered_map<E*, bool> memo; bool fp = false;
  for (E *e : cons) if (has_fp (e, memo)) { fp = true; break; }
  // small queries: plain solver with a resource limit; otherwise the bit-vector (floating point) solver
  Z3_solver s = zquick; Z3_lbool r = Z3_L_UNDEF;
  if (!fp) {
    Z3_solver_reset (z, s);
    for (E *e : cons) Z3_solver_assert (z, s, zb (e));
    r = Z3_solver_check (z, s);
  }
  if (r == Z3_L_UNDEF) {
    Z3_solver &t = fp ? zsf : zs;
    if (!t) { t = Z3_mk_solver_for_logic (z, Z3_mk_string_symbol (z, fp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref (z, t); Z3_params p = Z3_mk_params (z); Z3_params_inc_ref (z, p); Z3_params_set_uint (z, p, Z3_mk_string_symbol (z, "rlimit"), 400000000u); Z3_solver_set_params (z, t, p); }
    s = t;
    Z3_solver_reset (z, s);
    for (E *e : cons) Z3_solver_assert (z, s, zb (e));
    r = Z3_solver_check (z, s);
  }
  sh->queries++;
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 2;
  if (res == 1) {
    sh->sat_n++;
    *out = model;
    Z3_model m = Z3_solver_get_model (z, s);
    Z3_model_inc_ref (z, m);
    VSet u; for (E *e : cons) u |= *e->vs;
    for (unsigned i = 0; i < NV; i++) if (u[i]) {
      Z3_ast v, k = zl (mk (VAR, 64, 0, 0, 0, 0, i)); uint64_t n = 0;
      if (Z3_model_eval (z, m, k, true, &v)) { Z3_get_numeral_uint64 (z, v, &n); }
      if (out->size () <= i) out->resize (i + 1);
      (*out)[i] = n;
    }
    Z3_model_dec_ref (z, m);
    for (E *e : cons) if (!eval (e, *out)) { res = 2; break; }
  }
  else if (res == 0) sh->unsat_n++;
  if (res == 2) sh->unknown++;
  clock_gettime (CLOCK_MONOTONIC, &t1);
  uint64_t dt = (t1.tv_sec - t0.tv_sec) * 1000000000ull + (t1.tv_nsec - t0.tv_nsec);
  solver_ns += dt;
  if (slow_dir && dt > 1000000000ull) {
    std::string f = std::string (slow_dir) + "/" + std::to_string (getpid ()) + "." + std::to_string (sh->queries.load ()) + ".smt2";
    FILE *o = fopen (f.c_str (), "w"); if (o) { fprintf (o, "; %.1fs res %d fp %d at %s\n%s\n", dt / 1e9, res, fp, where ().c_str (), Z3_solver_to_string (z, s)); fclose (o); }
  }
  return res;
}
// inputs that a definition on the path expresses by other variables
static std::vector<std::pair<E*, E*>> solved;   // VAR or EXTRACT (VAR) -> expression
static E *rewrite (E *e, std::unordered_map<E*, E*> &memo)
{
  bool any = false;
  for (auto &p : solved) if ((*e->vs & *p.first->vs).any ()) any = true;
  if (!any) return e;
  auto it = memo.find (e);
  if (it != memo.end ()) return it->second;
  E *r = e;
  for (auto &p : solved) if (p.first == e) { E *t = rewrite (p.second, memo); memo[e] = t; return t; }
  if (e->op == VAR || (e->op == EXTRACT && e->a->op == VAR)) {
    unsigned lo = e->op == VAR ? 0 : e->x;
    for (auto &p : solved) if (p.first->op != CONCAT) {
      E *v = p.first->op == VAR ? p.first : p.first->a; unsigned pl = p.first->op == VAR ? 0 : p.first->x;
      if (v == (e->op == VAR ? e : e->a) && lo >= pl && lo + e->w <= pl + p.first->w) { r = rewrite (eext (p.second, lo - pl, e->w), memo); break; }
    }
  }
  else switch (e->op) {
    case ZEXT: r = ezext (rewrite (e->a, memo), e->w); break;
    case SEXT: r = esext (rewrite (e->a, memo), e->w); break;
    case EXTRACT: r = eext (rewrite (e->a, memo), e->x, e->w); break;
    case CONCAT: { E *h = rewrite (e->a, memo), *l = rewrite (e->b, memo); r = econcat (h, l); break; }
    case ITE: { E *c = rewrite (e->a, memo), *x = rewrite (e->b, memo), *y = rewrite (e->c, memo); r = eite (c, x, y); break; }
    default: if (e->op <= SLE && e->a && e->b) { E *x = rewrite (e->a, memo), *y = rewrite (e->b, memo); r = ebin (e->op, x, y); } break;
  }
  memo[e] = r;
  return r;
}
// v == h: express the input in v by h where that is direct
static void solve_for (E *v, E *h)
{
  for (;;) {
    if (v->op == ZEXT || v->op == SEXT) { h = eext (h, 0, v->a->w); v = v->a; }
    else if (v->op == SUB && isk (v->a)) { h = ebin (SUB, v->a, h); v = v->b; }
    else if (v->op == ADD && isk (v->b)) { h = ebin (SUB, h, v->b); v = v->a; }
    else if (v->op == XOR && isk (v->b)) { h = ebin (XOR, h, v->b); v = v->a; }
    else break;
  }
  bool pair = v->op == CONCAT && v->a->op == VAR && v->b->op == VAR;
  if (v->op != VAR && !(v->op == EXTRACT && v->a->op == VAR) && !pair) return;
  if ((*h->vs & *v->vs).any ()) return;
  std::unordered_map<E*, E*> memo;
  h = rewrite (h, memo);
  if ((*h->vs & *v->vs).any ()) return;
  solved.push_back ({ v, h });
  if (pair) { solved.push_back ({ v->a, eext (h, 64, 64) }); solved.push_back ({ v->b, eext (h, 0, 64) }); }
}
// values of the solved inputs from those of the variables they are expressed by
static void forward (std::vector<uint64_t> &m)
{
  if (m.size () < nvars) m.resize (nvars, 0);
  for (size_t i = solved.size (); i-- > 0;) {
    E *v = solved[i].first; if (v->op == CONCAT) continue;
    uint64_t val = (uint64_t) eval (solved[i].second, m);
    if (v->op == VAR) m[v->x] = val;
    else { uint64_t k = (uint64_t) mask (v->w) << v->x; m[v->a->x] = (m[v->a->x] & ~k) | (val << v->x); }
  }
}
static bool all_hold (const std::vector<E*> &cons, const std::vector<uint64_t> &m) { for (E *e : cons) if (!eval (e, m)) return false; return true; }

static std::unordered_set<E*> heavy;   // definitions of executor variables by arithmetic
static int check_sat (const std::vector<E*> &cons, std::vector<uint64_t> *out)
{
  std::vector<uint32_t> key; for (E *e : cons) key.push_back (e->id);
  std::sort (key.begin (), key.end ());
  auto it = qcache.find (key);
  if (it != qcache.end () && it->second == 0) return 0;
  std::vector<E*> light, hv;
  for (E *e : cons) (heavy.count (e) ? hv : light).push_back (e);
  int res = -1;
  if (!hv.empty ()) {
    // without the definitions; then with the values of the defined variables fixed to that answer
    std::vector<uint64_t> m = model;
    int r = light.empty () ? 1 : solve (light, &m);
    if (r == 0) res = 0;
    else if (r == 1) {
      forward (m);
      if (all_hold (cons, m)) { *out = m; res = 1; }
    }
  }
  if (res < 0 && !solved.empty ()) {
    std::unordered_map<E*, E*> memo; std::vector<E*> rw; bool no = false;
    for (E *e : cons) { E *t = rewrite (e, memo); if (isk (t)) { if (!t->v) no = true; } else rw.push_back (t); }
    std::vector<uint64_t> m = model;
    int r = no ? 0 : rw.empty () ? 1 : solve (rw, &m);
    if (r == 0) res = 0;
    else if (r == 1) { forward (m); if (all_hold (cons, m)) { *out = m; res = 1; } }
  }
  if (res < 0 && !hv.empty ()) {
    std::vector<uint64_t> m = model;
    VSet u; for (E *e : hv) u |= *e->vs;
    if (light.empty () || solve (light, &m) == 1) {
      std::vector<E*> f = cons;
      for (unsigned i = 0; i < nvars; i++) if (u[i] && internal_var[i]) f.push_back (ebin (EQ, mk (VAR, 64, 0, 0, 0, 0, i), K (i < m.size () ? m[i] : 0, 64)));
      if (solve (f, &m) == 1) { *out = m; res = 1; }
    }
  }
  if (res < 0) res = solve (cons, out);
  qcache[key] = res;
  return res;
}
static void slice (E *c, std::vector<E*> &out)
{
  VSet u = *c->vs;
  std::vector<char> used (pc.size (), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size (); i++)
      if (!used[i] && (u & *pc[i]->vs).any ()) { used[i] = 1; u |= *pc[i]->vs; ch = true; }
  }
  for (size_t i = 0; i < pc.size (); i++) if (used[i]) out.push_back (pc[i]);
}
static int possible (E *c, std::vector<uint64_t> *m)
{
  if (isk (c)) { *m = model; return c->v != 0; }
  if (eval (c, model)) { *m = model; return 1; }
  if (!solved.empty ()) {
    std::unordered_map<E*, E*> memo;
    E *t = rewrite (c, memo);
    if (isk (t) && !t->v) { sh->queries++; sh->unsat_n++; return 0; }
  }
  std::vector<E*> q; slice (c, q); q.push_back (c);
  return check_sat (q, m);
}
static std::unordered_map<E*, bool> known;
static std::map<std::pair<E*, uint64_t>, std::pair<E*, E*>> qr;   // v / c, v % c
static void add_pc (E *c);
// v <= k makes the quotients by larger divisors zero
static void small_dividend (E *c)
{
  E *v; u128 k;
  if (c->op == ULT && isk (c->b)) { v = c->a; k = c->b->v - 1; }
  else if (c->op == ULE && isk (c->b)) { v = c->a; k = c->b->v; }
  else if (c->op == XOR && c->w == 1 && c->a->op == ULT && isk (c->a->a)) { v = c->a->b; k = c->a->a->v; }
  else if (c->op == XOR && c->w == 1 && c->a->op == ULE && isk (c->a->a)) { v = c->a->b; k = c->a->a->v - 1; }
  else return;
  if (k >> 63) return;
  for (auto it = qr.upper_bound ({ v, (uint64_t) k }); it != qr.end () && it->first.first == v; ++it) add_pc (ebin (EQ, it->second.first, K (0, v->w)));
}
static void add_pc (E *c)
{
  if (c->op == AND && c->w == 1) { add_pc (c->a); add_pc (c->b); return; }
  if (c->op == EQ && isk (c->b)) { E *v = c->a->op == EXTRACT ? c->a->a : c->a; if (v->op == VAR && internal_var[v->x]) solve_for (c->a, c->b); }
  if (!isk (c)) { pc.push_back (c); known[c] = true; known[enot (c)] = false; small_dividend (c); }
}
static void reap () { int st; while (waitpid (-1, &st, WNOHANG) > 0); }
// returns true in the child
static bool do_fork ()
{
  if (deadline && now () > deadline) incomplete ("out of time");
  reap ();
  sh->forks++;
  sh->started++;
  bool async = sem_trywait (&sh->tokens) == 0;
  pid_t p = fork ();
  if (p < 0) { sh->ended++; if (async) sem_post (&sh->tokens); incomplete ("fork failed"); }
  if (p == 0) { own_token = async; ninstr = 0; solver_ns = 0; return true; }
  if (!async) { int st; while (waitpid (p, &st, 0) < 0 && errno == EINTR); }
  return false;
}
static bool decide (E *c)
{
  if (isk (c)) return c->v != 0;
  auto it = known.find (c);
  if (it != known.end ()) return it->second;
  bool s = eval (c, model) != 0;
  E *yes = s ? c : enot (c), *no = s ? enot (c) : c;
  std::vector<uint64_t> m;
  int r = possible (no, &m);
  if (r == 0) { known[c] = s; known[enot (c)] = !s; return s; }
  if (r == 2) { sh->incomplete++; reason ("solver undecided at " + where ()); add_pc (yes); return s; }
  if (do_fork ()) { model = m; add_pc (no); return !s; }
  add_pc (yes);
  return s;
}

static void __attribute__ ((noreturn)) incomplete (const std::string &r);
// a variable of the executor itself with a known value under the current model
static E *fresh (u128 bound, uint64_t value)
{
  if (nvars >= NV) incomplete ("too many variables");
  internal_var[nvars] = true; varmax[nvars] = bound;
  E *v = mk (VAR, 64, 0, 0, 0, 0, nvars++);
  model.resize (nvars, 0); model[nvars - 1] = value;
  if (bound < ~0ull) { E *c = mk (ULE, 1, v, K (bound, 64)); pc.push_back (c); known[c] = true; }
  return v;
}
// v / c and v % c by the quotient and remainder that multiplication defines: v == q * c + r, r < c
static void divide (E *v, uint64_t c, E **q, E **r)
{
  if (v->op == ZEXT) {
    E *a, *b; unsigned w = v->w; v = v->a;
    if (umax_ (v) < c) { *q = K (0, w); *r = ezext (v, w); return; }
    divide (v, c, &a, &b); *q = ezext (a, w); *r = ezext (b, w);
    return;
  }
  auto it = qr.find ({ v, c });
  if (it == qr.end ()) {
    unsigned w = v->w;
    u128 val = eval (v, model), vm = umax_ (v), qm = vm / c, q0 = val / c;
    E *R = fresh (c - 1, (uint64_t) (val % c)), *Q;
    R = w < 64 ? eext (R, 0, w) : ezext (R, w);
    if (w <= 64) Q = eext (fresh (qm, (uint64_t) q0), 0, w);
    else if (qm >> 64) { E *hi = fresh (qm >> 64, (uint64_t) (q0 >> 64)); Q = econcat (hi, fresh (~0ull, (uint64_t) q0)); add_pc (ebin (ULE, Q, K (qm, w))); }
    else Q = ezext (fresh (qm, (uint64_t) q0), w);
    // q * c + r does not wrap
    add_pc (ebin (OR, ebin (ULT, Q, K (qm, w)), ebin (ULE, R, K (vm % c, w))));
    E *h = ebin (ADD, ebin (MUL, Q, K (c, w)), R);
    E *eq = ebin (EQ, h, v);
    heavy.insert (eq); add_pc (eq); solve_for (v, h);
    it = qr.insert ({ { v, c }, { Q, R } }).first;
  }
  *q = it->second.first; *r = it->second.second;
}
// decimal digits, most significant first, of v < 10^n
static std::map<std::pair<E*, unsigned>, std::vector<E*>> digs;
static const std::vector<E*> &digits (E *v, unsigned n)
{
  std::vector<E*> &d = digs[{ v, n }];
  if (d.empty ()) {
    u128 val = eval (v, model);
    d.resize (n);
    for (unsigned i = n; i-- > 0; val /= 10) d[i] = eext (fresh (9, (uint64_t) (val % 10)), 0, 8);
    unsigned w = n < 20 ? 64 : 128;   // no overflow
    E *h = ezext (d[0], w);
    for (unsigned i = 1; i < n; i++) h = ebin (ADD, ebin (MUL, h, K (10, w)), ezext (d[i], w));
    E *eq = ebin (EQ, h, ezext (v, w)); heavy.insert (eq); add_pc (eq); solve_for (v, eext (h, 0, 64));
    if (n > 1) add_pc (enot (ebin (EQ, d[0], K (0, 8))));
  }
  return d;
}

// ------------------------------------------------------------------- values
struct Val { uint64_t lo, hi; E *e; };
static inline Val kv (u128 v) { Val r; r.lo = (uint64_t) v; r.hi = (uint64_t) (v >> 64); r.e = 0; return r; }
static inline u128 cv (const Val &v) { return ((u128) v.hi << 64) | v.lo; }
static inline Val ve (E *e) { if (isk (e)) return kv (e->v); Val r; r.lo = r.hi = 0; r.e = e; return r; }
static inline E *ex (const Val &v, unsigned w) { return v.e ? v.e : K (cv (v), w); }

// ------------------------------------------------------------------- memory
static const uint64_t BASE = 0x100000000000ull, ASIZE = 1ull << 33;   // 8 GB of address space
static const uint64_t GLOB = BASE, STK = BASE + (1ull << 30), HEAP = BASE + (2ull << 30);
static uint8_t *shadow; static E **sym; static uint8_t *psym;
static uint64_t gtop = GLOB + 4096, stop_ = STK + 4096, htop = HEAP + 4096;
enum { RO = 0x40, FREED = 0x80, DEADSTK = 0x20 };   // in shadow, low 4 bits: valid bytes of the granule
static inline bool inar (uint64_t a, uint64_t n) { return a >= BASE && a < BASE + ASIZE && n <= BASE + ASIZE - a; }
static void mark (uint64_t a, uint64_t n, uint8_t flag, bool valid)
{
  uint64_t g = (a - BASE) >> 3;
  while (n) { unsigned k = n < 8 ? (unsigned) n : 8; shadow[g++] = (valid ? k : 0) | flag; n -= k; }
}
static void unsym (uint64_t a, uint64_t n)
{
  if (!n) return;
  for (uint64_t p = (a - BASE) >> 12; p <= (a + n - 1 - BASE) >> 12; p++) if (psym[p]) {
    uint64_t s = std::max (a, BASE + (p << 12)), e = std::min (a + n, BASE + ((p + 1) << 12));
    memset (&sym[s - BASE], 0, (e - s) * sizeof (E*));
  }
}
static uint64_t galloc (uint64_t &top, uint64_t n, uint64_t al)
{
  if (al < 16) al = 16;
  uint64_t a = (top + 32 + al - 1) / al * al;
  top = (a + n + 32 + 15) & ~15ull;
  return a;
}
static const char *acc (uint64_t a, uint64_t n, bool wr)
{
  if (!inar (a, n)) return a < 4096 ? "null pointer dereference" : "access outside of any object";
  if (!n) return 0;
  uint64_t g = (a - BASE) >> 3, ge = (a + n - 1 - BASE) >> 3;
  for (uint64_t i = g; i <= ge; i++) {
    uint8_t s = shadow[i]; unsigned need = i == ge ? (unsigned) ((a + n - 1) & 7) + 1 : 8;
    if ((s & 15) < need) return (s & FREED) ? "use after free" : (s & DEADSTK) ? "use of dead stack memory" : "access out of bounds";
    if (wr && (s & RO)) return "write to read-only memory";
  }
  return 0;
}
static inline void chk (uint64_t a, uint64_t n, bool wr)
{
  if (n <= 8 && inar (a, n)) {   // fast path
    uint8_t s = shadow[(a - BASE) >> 3]; unsigned end = (unsigned) (a & 7) + (unsigned) n;
    if (end <= 8 && (s & 15) >= end && !(wr && (s & RO))) return;
  }
  const char *m = acc (a, n, wr);
  if (m) fault (std::string (m) + (wr ? " (write of " : " (read of ") + std::to_string (n) + ")");
}
static inline bool anysym (uint64_t a, uint64_t n)
{
  if (!n) return false;
  uint64_t p = (a - BASE) >> 12, q = (a + n - 1 - BASE) >> 12;
  bool any = false;
  for (uint64_t i = p; i <= q; i++) if (psym[i]) { any = true; break; }
  if (!any) return false;
  for (uint64_t i = 0; i < n; i++) if (sym[a + i - BASE]) return true;
  return false;
}
// bytes of a stored word stay references to the word, so that loading it back gives the word itself
static inline E *byteE (uint64_t a)
{
  E *e = psym[(a - BASE) >> 12] ? sym[a - BASE] : 0;
  if (!e) return K (*(uint8_t *) a, 8);
  return e->op == EXTRACT ? eext (e->a, e->x, 8) : e;
}
static inline Val rawload (uint64_t a, unsigned w)
{
  unsigned n = (w + 7) / 8;
  if (!anysym (a, n)) {
    Val r; r.lo = r.hi = 0; r.e = 0;
    if (n == 8) r.lo = *(uint64_t *) a;
    else if (n == 4) r.lo = *(uint32_t *) a;
    else if (n == 1) r.lo = *(uint8_t *) a;
    else if (n == 2) r.lo = *(uint16_t *) a;
    else { memcpy (&r, (void *) a, n); }
    if (w & 7) { u128 v = cv (r) & mask (w); r = kv (v); }
    return r;
  }
  E *e = 0;
  for (unsigned i = 0; i < n;) {
    E *b = psym[(a + i - BASE) >> 12] ? sym[a + i - BASE] : 0, *r; unsigned k = 1;
    if (b && b->op == EXTRACT) {
      for (; i + k < n; k++) { E *t = psym[(a + i + k - BASE) >> 12] ? sym[a + i + k - BASE] : 0; if (!t || t->op != EXTRACT || t->a != b->a || t->x != b->x + 8 * k) break; }
      r = eext (b->a, b->x, 8 * k);
    }
    else r = byteE (a + i);
    e = e ? econcat (r, e) : r;
    i += k;
  }
  if (w & 7) e = eext (e, 0, w);
  return ve (e);
}
static inline void rawstore (uint64_t a, unsigned w, const Val &v)
{
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    if (n == 8) *(uint64_t *) a = v.lo;
    else if (n == 4) *(uint32_t *) a = (uint32_t) v.lo;
    else if (n == 1) *(uint8_t *) a = (uint8_t) v.lo;
    else if (n == 2) *(uint16_t *) a = (uint16_t) v.lo;
    else memcpy ((void *) a, &v, n);
    unsym (a, n);
    return;
  }
  E *e = v.e; if (w & 7) e = ezext (e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    E *b = eext (e, i * 8, 8);
    if (n > 1 && !isk (b)) b = mk (EXTRACT, 8, e, 0, 0, 0, i * 8);
    if (isk (b)) { *(uint8_t *) (a + i) = (uint8_t) b->v; if (psym[(a + i - BASE) >> 12]) sym[a + i - BASE] = 0; }
    else { sym[a + i - BASE] = b; psym[(a + i - BASE) >> 12] = 1; }
  }
}
static void movesym (uint64_t d, uint64_t s, uint64_t n)
{
  if (!n) return;
  if (!anysym (s, n)) { unsym (d, n); return; }
  memmove (&sym[d - BASE], &sym[s - BASE], n * sizeof (E*));
  for (uint64_t p = (d - BASE) >> 12; p <= (d + n - 1 - BASE) >> 12; p++) psym[p] = 1;
}
static std::unordered_map<uint64_t, uint64_t> hsize;   // live heap blocks
static uint64_t hmalloc (uint64_t n, int fill)
{
  if (n > (1ull << 28) || htop + n > BASE + ASIZE - 4096) return 0;
  uint64_t a = galloc (htop, n, 16);
  memset ((void *) a, fill, n);
  mark (a, n, 0, true);
  hsize[a] = n;
  return a;
}
static void hfree (uint64_t a)
{
  if (!a) return;
  auto it = hsize.find (a);
  if (it == hsize.end ()) fault (inar (a, 1) && (shadow[(a - BASE) >> 3] & FREED) ? "double free" : "free of a pointer that is not a heap block");
  mark (a, it->second ? it->second : 1, FREED, false);
  hsize.erase (it);
}
// extent of the object around a (a must be valid)
static void extent (uint64_t a, uint64_t &s, uint64_t &n)
{
  uint64_t g = (a - BASE) >> 3, b = g, e = g;
  while ((shadow[b - 1] & 15) == 8) b--;
  while ((shadow[e] & 15) == 8) e++;
  s = BASE + (b << 3);
  n = (e << 3) + (shadow[e] & 15) - (b << 3);
}
// one concrete value for e on this path (forks for the others)
static uint64_t pick (const Val &v, unsigned w)
{
  if (!v.e) return v.lo;
  unsigned cnt = 0;
  for (;;) {
    uint64_t k = (uint64_t) eval (v.e, model);
    if (decide (ebin (EQ, v.e, K (k, w)))) return k;
    if (++cnt > 5000) incomplete ("too many values");
  }
}
// generated scanner tables: looked up without splitting the path, the split comes with the next state
static std::vector<std::pair<uint64_t, uint64_t>> lazy_tables;
static bool is_lazy (uint64_t s) { for (auto &t : lazy_tables) if (t.first == s) return true; return false; }
static bool leaves_ok (E *e, uint64_t s, uint64_t len, unsigned n, int &budget)
{
  if (--budget < 0) return false;
  if (isk (e)) return (uint64_t) e->v >= s && (uint64_t) e->v + n <= s + len;
  return e->op == ITE && leaves_ok (e->b, s, len, n, budget) && leaves_ok (e->c, s, len, n, budget);
}
static E *map_leaves (E *e, unsigned w)
{
  if (isk (e)) { Val v = rawload ((uint64_t) e->v, w); return ex (v, w); }
  return eite (e->a, map_leaves (e->b, w), map_leaves (e->c, w));
}
// symbolic address of an access of n bytes: splits off out-of-bounds values, true if a whole object remains possible
static Val symload (const Val &pv, unsigned w)
{
  E *p = pv.e; unsigned n = (w + 7) / 8;
  for (;;) {
    uint64_t a = (uint64_t) eval (p, model);
    const char *m = acc (a, n, false);
    if (m) {
      E *eq = ebin (EQ, p, K (a, 64));
      report ("fault", std::string (m) + " (read at symbolic address)", model);
      (void) eq; leave ();
    }
    uint64_t s, len; extent (a, s, len);
    bool lazy = is_lazy (s);
    if (lazy) { int budget = 200; if (leaves_ok (p, s, len, n, budget)) return ve (map_leaves (p, w)); }
    E *off = ebin (SUB, p, K (s, 64));
    E *inb = ebin (ULE, off, K (len - n, 64));
    if (!decide (inb)) continue;
    unsigned tz = std::min<unsigned> (ktz (off), 12);
    uint64_t step = 1ull << tz, hi = (uint64_t) std::min<u128> (umax_ (off), len - n), cnt = hi / step + 1;
    if (cnt <= 4096 && !anysym (s, hi + n)) {
      std::map<u128, std::vector<uint64_t>> cls;
      for (uint64_t o = 0; o <= hi; o += step) { Val v = rawload (s + o, w); cls[cv (v)].push_back (o); }
      if (lazy && cls.size () <= 96) {
	E *r = 0; size_t big = 0; u128 dflt = 0;
	for (auto &k : cls) big = std::max (big, k.second.size ());
	for (auto &k : cls) if (k.second.size () == big) { r = K (k.first, w); dflt = k.first; break; }
	for (auto &k : cls) {
	  if (k.first == dflt) continue;
	  E *c = K (0, 1); auto &os = k.second;
	  for (size_t i = 0; i < os.size ();) {
	    size_t j = i; while (j + 1 < os.size () && os[j + 1] == os[j] + step) j++;
	    c = ebin (OR, c, i == j ? ebin (EQ, off, K (os[i], 64)) : ebin (ULE, ebin (SUB, off, K (os[i], 64)), K (os[j] - os[i], 64))); i = j + 1;
	  }
	  r = eite (c, K (k.first, w), r);
	}
	return ve (r);
      }
      if (cls.size () <= 96) {
	for (;;) {
	  uint64_t o = (uint64_t) eval (off, model);
	  u128 val = cv (rawload (s + o, w));
	  auto &os = cls[val];
	  E *c = K (0, 1);
	  for (size_t i = 0; i < os.size ();) {
	    size_t j = i; while (j + 1 < os.size () && os[j + 1] == os[j] + step) j++;
	    E *t = i == j ? ebin (EQ, off, K (os[i], 64)) : ebin (ULE, ebin (SUB, off, K (os[i], 64)), K (os[j] - os[i], 64));
	    c = ebin (OR, c, t); i = j + 1;
	  }
	  if (decide (c)) return kv (val);
	}
      }
    }
    uint64_t k = pick (pv, 64);
    chk (k, n, false);
    return rawload (k, w);
  }
}
#include "interp.h"
