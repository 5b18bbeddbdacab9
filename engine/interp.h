// ------------------------------------------------------------------- decode
enum IK : uint8_t { I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH,
  I_RET, I_CALL, I_EXTV, I_INSV, I_COPY, I_UNREACH, I_EXTE, I_INSE, I_SHUF, I_ATOMRMW, I_CMPXCHG, I_NOP, I_INDIRECTBR };
struct Flat { uint64_t off; unsigned w; bool ptr; };
struct FInfo;
struct Edge { int target; std::vector<std::pair<int, int>> copies; };
struct GepIdx { int opd; uint64_t scale; unsigned w; };
struct Aux {
  std::vector<Flat> fl; std::vector<GepIdx> gi; uint64_t off = 0; Edge e0, e1; std::vector<std::pair<u128, int>> cases; std::vector<Edge> edges;
  std::vector<int> args; std::vector<unsigned> argw; std::vector<uint64_t> byval; std::vector<int> argslots; unsigned nfixed = 0; FInfo *callee = 0; int bi = 0; std::vector<int> list; bool va = false;
};
struct Ins { IK k; uint8_t sub; uint8_t w, w2; int dst, a, b, c; int n; Aux *x; const Instruction *I; };
struct FInfo { Function *F; bool decoded = false; int idx = 0; unsigned nslots = 0; std::vector<Val> consts; std::vector<Ins> code; std::vector<int> bbstart; std::vector<int> argslot; std::vector<unsigned> argn; int bi = 0; std::string name; };

static Module *M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, FInfo*> byaddr;
static std::unordered_map<const Function*, FInfo*> finfo;
static std::vector<FInfo*> flist;
static const Ins *cur = 0;
struct Fr { FInfo *f; const Ins *call; };
static std::vector<Fr> frames;

static std::string loc (const Instruction *I)
{
  if (!I) return "";
  if (const DILocation *d = I->getDebugLoc ()) return (d->getFilename ().rsplit ('/').second.empty () ? d->getFilename () : d->getFilename ().rsplit ('/').second).str () + ":" + std::to_string (d->getLine ());
  return "";
}
static std::string where ()
{
  std::string s; if (!cur) return "start";
  const Ins *i = cur;
  for (int k = (int) frames.size () - 1, n = 0; k >= 0 && n < 8; k--, n++) { s += (n ? " < " : "") + frames[k].f->name + " " + loc (i ? i->I : 0); i = frames[k].call; }
  return s;
}
static unsigned tw (Type *T)
{
  if (T->isIntegerTy ()) return T->getIntegerBitWidth ();
  if (T->isPointerTy ()) return 64;
  if (T->isFloatTy ()) return 32;
  if (T->isDoubleTy ()) return 64;
  if (T->isX86_FP80Ty ()) return 80;
  return 0;
}
static void flat (Type *T, uint64_t off, std::vector<Flat> &out)
{
  if (T->isVoidTy ()) return;
  if (StructType *S = dyn_cast<StructType> (T)) { const StructLayout *L = DL->getStructLayout (S); for (unsigned i = 0; i < S->getNumElements (); i++) flat (S->getElementType (i), off + L->getElementOffset (i), out); return; }
  if (ArrayType *A = dyn_cast<ArrayType> (T)) { uint64_t s = DL->getTypeAllocSize (A->getElementType ()); for (uint64_t i = 0; i < A->getNumElements (); i++) flat (A->getElementType (), off + i * s, out); return; }
  if (FixedVectorType *V = dyn_cast<FixedVectorType> (T)) { unsigned w = tw (V->getElementType ()); for (unsigned i = 0; i < V->getNumElements (); i++) out.push_back ({ off + i * w / 8, w, V->getElementType ()->isPointerTy () }); return; }
  out.push_back ({ off, tw (T), T->isPointerTy () });
}
static std::vector<Flat> flat (Type *T) { std::vector<Flat> v; flat (T, 0, v); return v; }

static void cvals (const Constant *C, std::vector<Val> &out)
{
  Type *T = C->getType ();
  if (auto *ci = dyn_cast<ConstantInt> (C)) { APInt v = ci->getValue (); u128 r = v.extractBitsAsZExtValue (std::min (64u, v.getBitWidth ()), 0); if (v.getBitWidth () > 64) r |= (u128) v.extractBitsAsZExtValue (std::min (64u, v.getBitWidth () - 64), 64) << 64; out.push_back (kv (r)); return; }
  if (auto *cf = dyn_cast<ConstantFP> (C)) { APInt v = cf->getValueAPF ().bitcastToAPInt (); u128 r = v.extractBitsAsZExtValue (std::min (64u, v.getBitWidth ()), 0); if (v.getBitWidth () > 64) r |= (u128) v.extractBitsAsZExtValue (v.getBitWidth () - 64, 64) << 64; out.push_back (kv (r)); return; }
  if (isa<ConstantPointerNull> (C) || isa<UndefValue> (C) || isa<ConstantAggregateZero> (C)) { for (size_t i = 0, n = flat (T).size (); i < n; i++) out.push_back (kv (0)); return; }
  if (auto *gv = dyn_cast<GlobalValue> (C)) { if (auto *ga = dyn_cast<GlobalAlias> (gv)) { cvals (ga->getAliasee (), out); return; } auto it = gaddr.find (gv); if (it == gaddr.end ()) { fprintf (stderr, "no address for %s\n", gv->getName ().str ().c_str ()); exit (2); } out.push_back (kv (it->second)); return; }
  if (auto *ca = dyn_cast<ConstantAggregate> (C)) { for (unsigned i = 0; i < ca->getNumOperands (); i++) cvals (ca->getOperand (i), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential> (C)) { for (unsigned i = 0; i < cd->getNumElements (); i++) cvals (cd->getElementAsConstant (i), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr> (C)) {
    std::vector<Val> a;
    for (unsigned i = 0; i < ce->getNumOperands (); i++) cvals (ce->getOperand (i), a);
    switch (ce->getOpcode ()) {
      case Instruction::GetElementPtr: { APInt off (64, 0); if (!cast<GEPOperator> (ce)->accumulateConstantOffset (*DL, off)) break; out.push_back (kv ((uint64_t) (a[0].lo + off.getSExtValue ()))); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: out.push_back (kv (cv (a[0]) & mask (tw (T)))); return;
      case Instruction::Add: out.push_back (kv ((cv (a[0]) + cv (a[1])) & mask (tw (T)))); return;
      case Instruction::Sub: out.push_back (kv ((cv (a[0]) - cv (a[1])) & mask (tw (T)))); return;
      case Instruction::Xor: out.push_back (kv (cv (a[0]) ^ cv (a[1]))); return;
      case Instruction::ICmp: { bool r = false; u128 x = cv (a[0]), y = cv (a[1]); switch (ce->getPredicate ()) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_UGT: r = x > y; break; default: fprintf (stderr, "const icmp\n"); exit (2); } out.push_back (kv (r)); return; }
      default: break;
    }
    std::string s; raw_string_ostream o (s); C->print (o); fprintf (stderr, "constant expression: %s\n", s.c_str ()); exit (2);
  }
  std::string s; raw_string_ostream o (s); C->print (o); fprintf (stderr, "constant: %s\n", s.c_str ()); exit (2);
}
static void initmem (uint64_t a, const Constant *C)
{
  if (isa<ConstantAggregateZero> (C) || isa<UndefValue> (C)) return;
  std::vector<Val> v; cvals (C, v);
  std::vector<Flat> f = flat (C->getType ());
  for (size_t i = 0; i < f.size (); i++) rawstore (a + f[i].off, f[i].w, v[i]);
}

static int builtin_id (const std::string &n);
static FInfo *getf (Function *F)
{
  auto it = finfo.find (F); if (it != finfo.end ()) return it->second;
  FInfo *f = new FInfo; f->F = F; f->name = F->getName ().str (); f->idx = (int) flist.size (); flist.push_back (f); finfo[F] = f;
  if (F->isDeclaration ()) f->bi = builtin_id (f->name);
  return f;
}
static void decode (FInfo *f)
{
  f->decoded = true;
  Function *F = f->F;
  std::unordered_map<const Value*, int> slot, cidx;
  unsigned ns = 0;
  for (Argument &a : F->args ()) { unsigned n = (unsigned) flat (a.getType ()).size (); slot[&a] = ns; f->argslot.push_back (ns); f->argn.push_back (n); ns += n; }
  std::unordered_map<const BasicBlock*, int> bbi; int nb = 0;
  for (BasicBlock &B : *F) { bbi[&B] = nb++; for (Instruction &I : B) { unsigned n = (unsigned) flat (I.getType ()).size (); if (n) { slot[&I] = ns; ns += n; } } }
  int scratch = ns; ns += 256;   // parallel copies of phi nodes
  f->nslots = ns; (void) scratch;
  auto O = [&] (const Value *v) -> int {
    auto it = slot.find (v); if (it != slot.end ()) return it->second;
    auto ic = cidx.find (v); if (ic != cidx.end ()) return ~ic->second;
    if (auto *C = dyn_cast<Constant> (v)) { int i = (int) f->consts.size (); cvals (C, f->consts); if ((int) f->consts.size () == i) f->consts.push_back (kv (0)); cidx[v] = i; return ~i; }
    int i = (int) f->consts.size (); f->consts.push_back (kv (0)); cidx[v] = i; return ~i;   // metadata, asm, labels
  };
  // operand slot k of a multi-slot operand: reg +k, const index +k
  auto OK = [&] (int o, int k) { return o >= 0 ? o + k : ~(~o + k); };
  auto edge = [&] (const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = bbi[to];
    for (const PHINode &P : to->phis ()) { int d = slot[&P], s = O (P.getIncomingValueForBlock (from)); unsigned n = (unsigned) flat (P.getType ()).size (); for (unsigned k = 0; k < n; k++) e.copies.push_back ({ d + (int) k, OK (s, k) }); }
    return e;
  };
  for (BasicBlock &B : *F) {
    f->bbstart.push_back ((int) f->code.size ());
    for (Instruction &I : B) {
      if (isa<PHINode> (I) || isa<DbgInfoIntrinsic> (I)) continue;
      Ins n; n.k = I_NOP; n.sub = 0; n.w = n.w2 = 0; n.dst = slot.count (&I) ? slot[&I] : -1; n.a = n.b = n.c = 0; n.n = 0; n.x = 0; n.I = &I;
      Type *T = I.getType ();
      if (auto *b = dyn_cast<BinaryOperator> (&I)) {
	n.a = O (b->getOperand (0)); n.b = O (b->getOperand (1)); n.sub = b->getOpcode ();
	Type *ST = T->getScalarType (); n.w = tw (ST); n.n = (int) flat (T).size ();
	n.k = ST->isFloatingPointTy () ? I_FBIN : I_BIN;
      }
      else if (auto *u = dyn_cast<UnaryOperator> (&I)) { n.k = I_FNEG; n.a = O (u->getOperand (0)); n.w = tw (T->getScalarType ()); n.n = (int) flat (T).size (); }
      else if (auto *c = dyn_cast<CmpInst> (&I)) { n.k = isa<ICmpInst> (I) ? I_ICMP : I_FCMP; n.sub = c->getPredicate (); n.a = O (c->getOperand (0)); n.b = O (c->getOperand (1)); n.w = tw (c->getOperand (0)->getType ()->getScalarType ()); n.n = (int) flat (T).size (); }
      else if (auto *c = dyn_cast<CastInst> (&I)) {
	n.k = I_CAST; n.sub = c->getOpcode (); n.a = O (c->getOperand (0)); n.w = tw (T->getScalarType ()); n.w2 = tw (c->getSrcTy ()->getScalarType ()); n.n = (int) flat (T).size ();
	if (isa<BitCastInst> (c)) { n.x = new Aux; n.x->fl = flat (T); for (auto &q : flat (c->getSrcTy ())) n.x->argw.push_back (q.w); }
      }
      else if (auto *s = dyn_cast<SelectInst> (&I)) { n.k = I_SELECT; n.c = O (s->getCondition ()); n.a = O (s->getTrueValue ()); n.b = O (s->getFalseValue ()); n.x = new Aux; n.x->fl = flat (T); n.n = (int) n.x->fl.size (); n.sub = s->getCondition ()->getType ()->isVectorTy (); }
      else if (auto *l = dyn_cast<LoadInst> (&I)) { n.k = I_LOAD; n.a = O (l->getPointerOperand ()); n.x = new Aux; n.x->fl = flat (T); n.n = (int) n.x->fl.size (); n.w = n.n == 1 ? n.x->fl[0].w : 0; }
      else if (auto *s = dyn_cast<StoreInst> (&I)) { n.k = I_STORE; n.a = O (s->getPointerOperand ()); n.b = O (s->getValueOperand ()); n.x = new Aux; n.x->fl = flat (s->getValueOperand ()->getType ()); n.n = (int) n.x->fl.size (); n.w = n.n == 1 ? n.x->fl[0].w : 0; }
      else if (auto *g = dyn_cast<GetElementPtrInst> (&I)) {
	n.k = I_GEP; n.a = O (g->getPointerOperand ()); n.x = new Aux;
	for (auto it = gep_type_begin (g), e = gep_type_end (g); it != e; ++it) {
	  Value *ix = it.getOperand ();
	  if (StructType *st = it.getStructTypeOrNull ()) n.x->off += DL->getStructLayout (st)->getElementOffset ((unsigned) cast<ConstantInt> (ix)->getZExtValue ());
	  else { uint64_t sc = DL->getTypeAllocSize (it.getIndexedType ()); if (auto *ci = dyn_cast<ConstantInt> (ix)) n.x->off += sc * ci->getSExtValue (); else n.x->gi.push_back ({ O (ix), sc, tw (ix->getType ()) }); }
	}
      }
      else if (auto *al = dyn_cast<AllocaInst> (&I)) { n.k = I_ALLOCA; n.a = O (al->getArraySize ()); n.x = new Aux; n.x->off = DL->getTypeAllocSize (al->getAllocatedType ()); n.c = (int) al->getAlign ().value (); n.w = tw (al->getArraySize ()->getType ()); }
      else if (auto *b = dyn_cast<BranchInst> (&I)) {
	n.x = new Aux;
	n.x->e0 = edge (&B, b->getSuccessor (0));
	if (b->isConditional ()) { n.k = I_CBR; n.a = O (b->getCondition ()); n.x->e1 = edge (&B, b->getSuccessor (1)); } else n.k = I_BR;
      }
      else if (auto *s = dyn_cast<SwitchInst> (&I)) {
	n.k = I_SWITCH; n.a = O (s->getCondition ()); n.w = tw (s->getCondition ()->getType ()); n.x = new Aux; n.x->e0 = edge (&B, s->getDefaultDest ());
	std::map<const BasicBlock*, int> m;
	for (auto c : s->cases ()) {
	  const BasicBlock *t = c.getCaseSuccessor ();
	  if (!m.count (t)) { m[t] = (int) n.x->edges.size (); n.x->edges.push_back (edge (&B, t)); }
	  std::vector<Val> v; cvals (c.getCaseValue (), v); n.x->cases.push_back ({ cv (v[0]), m[t] });
	}
      }
      else if (auto *r = dyn_cast<ReturnInst> (&I)) { n.k = I_RET; if (r->getReturnValue ()) { n.a = O (r->getReturnValue ()); n.n = (int) flat (r->getReturnValue ()->getType ()).size (); } }
      else if (isa<UnreachableInst> (I)) n.k = I_UNREACH;
      else if (auto *e = dyn_cast<ExtractValueInst> (&I)) {
	Type *t = e->getAggregateOperand ()->getType (); unsigned base = 0;
	for (unsigned ix : e->indices ()) { for (unsigned q = 0; q < ix; q++) base += (unsigned) flat (isa<StructType> (t) ? t->getStructElementType (q) : t->getArrayElementType ()).size (); t = isa<StructType> (t) ? t->getStructElementType (ix) : t->getArrayElementType (); }
	n.k = I_COPY; n.a = OK (O (e->getAggregateOperand ()), base); n.n = (int) flat (T).size ();
      }
      else if (auto *e = dyn_cast<InsertValueInst> (&I)) {
	Type *t = T; unsigned base = 0;
	for (unsigned ix : e->indices ()) { for (unsigned q = 0; q < ix; q++) base += (unsigned) flat (isa<StructType> (t) ? t->getStructElementType (q) : t->getArrayElementType ()).size (); t = isa<StructType> (t) ? t->getStructElementType (ix) : t->getArrayElementType (); }
	n.k = I_INSV; n.a = O (e->getAggregateOperand ()); n.b = O (e->getInsertedValueOperand ()); n.n = (int) flat (T).size (); n.c = base; n.sub = (uint8_t) flat (t).size ();
      }
      else if (isa<FreezeInst> (I)) { n.k = I_COPY; n.a = O (I.getOperand (0)); n.n = (int) flat (T).size (); }
      else if (auto *e = dyn_cast<ExtractElementInst> (&I)) { n.k = I_EXTE; n.a = O (e->getVectorOperand ()); n.b = O (e->getIndexOperand ()); n.n = (int) flat (e->getVectorOperand ()->getType ()).size (); n.w = tw (e->getIndexOperand ()->getType ()); }
      else if (auto *e = dyn_cast<InsertElementInst> (&I)) { n.k = I_INSE; n.a = O (e->getOperand (0)); n.b = O (e->getOperand (1)); n.c = O (e->getOperand (2)); n.n = (int) flat (T).size (); n.w = tw (e->getOperand (2)->getType ()); }
      else if (auto *s = dyn_cast<ShuffleVectorInst> (&I)) { n.k = I_SHUF; n.a = O (s->getOperand (0)); n.b = O (s->getOperand (1)); n.x = new Aux; n.c = (int) flat (s->getOperand (0)->getType ()).size (); for (int m : s->getShuffleMask ()) n.x->list.push_back (m); }
      else if (auto *a = dyn_cast<AtomicRMWInst> (&I)) { n.k = I_ATOMRMW; n.a = O (a->getPointerOperand ()); n.b = O (a->getValOperand ()); n.w = tw (T); n.sub = a->getOperation (); }
      else if (auto *a = dyn_cast<AtomicCmpXchgInst> (&I)) { n.k = I_CMPXCHG; n.a = O (a->getPointerOperand ()); n.b = O (a->getCompareOperand ()); n.c = O (a->getNewValOperand ()); n.w = tw (a->getCompareOperand ()->getType ()); }
      else if (isa<FenceInst> (I)) n.k = I_NOP;
      else if (auto *cb = dyn_cast<CallBase> (&I)) {
	n.k = I_CALL; n.x = new Aux;
	Function *callee = cb->getCalledFunction ();
	if (!callee) if (auto *al = dyn_cast<GlobalAlias> (cb->getCalledOperand ())) callee = dyn_cast<Function> (al->getAliasee ());
	if (!callee) callee = dyn_cast<Function> (cb->getCalledOperand ()->stripPointerCasts ());
	if (cb->isInlineAsm ()) { n.k = I_NOP; n.sub = 1; }
	else {
	  if (callee) n.x->callee = getf (callee); else n.a = O (cb->getCalledOperand ());
	  FunctionType *ft = cb->getFunctionType (); n.x->va = ft->isVarArg (); n.x->nfixed = ft->getNumParams ();
	  for (unsigned i = 0; i < cb->arg_size (); i++) {
	    Value *v = cb->getArgOperand (i);
	    n.x->args.push_back (O (v)); std::vector<Flat> fl = v->getType ()->isMetadataTy () ? std::vector<Flat> () : flat (v->getType ());
	    n.x->argslots.push_back ((int) fl.size ()); for (auto &q : fl) n.x->argw.push_back (q.w);
	    n.x->byval.push_back (cb->isByValArgument (i) ? (uint64_t) DL->getTypeAllocSize (cb->getParamByValType (i)) : 0);
	  }
	  n.n = (int) flat (T).size ();
	  n.w = n.n ? flat (T)[0].w : 0;
	}
      }
      else { std::string s; raw_string_ostream o (s); I.print (o); fprintf (stderr, "instruction: %s\n", s.c_str ()); exit (2); }
      f->code.push_back (n);
    }
  }
}

// --------------------------------------------------------------- interpreter
static Val *rstack, *rtop;
static int depth = 0;
struct LongJmp { uint64_t buf; Val val; };
struct JmpBuf { FInfo *f; const Ins *ip; Val *R; uint64_t sp; };
static std::map<uint64_t, JmpBuf> jmpbufs;
static void call (FInfo *f, const Val *args, Val *ret, uint64_t vaptr);
#include "builtins.h"

static Val fp2val (long double d, unsigned w) { Val r = kv (0); if (w == 32) { float x = (float) d; memcpy (&r.lo, &x, 4); } else if (w == 64) { double x = (double) d; memcpy (&r.lo, &x, 8); } else memcpy (&r, &d, 10); return r; }
static long double val2fp (u128 v, unsigned w) { if (w == 32) { float x; memcpy (&x, &v, 4); return x; } if (w == 64) { double x; memcpy (&x, &v, 8); return x; } long double d = 0; memcpy (&d, &v, 10); return d; }
static long double val2fp (const Val &v, unsigned w) { return val2fp (cv (v), w); }
static Val fbin (unsigned op, const Val &a, const Val &b, unsigned w)
{
  if (a.e || b.e) {
    Op o; switch (op) { case Instruction::FAdd: o = FADD; break; case Instruction::FSub: o = FSUB; break; case Instruction::FMul: o = FMUL; break; case Instruction::FDiv: o = FDIV; break; default: incomplete ("symbolic frem"); }
    return ve (mk (o, w, ex (a, w), ex (b, w)));
  }
  if (w == 32) { float x = (float) val2fp (a, w), y = (float) val2fp (b, w), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf (x, y); } return fp2val (r, w); }
  if (w == 64) { double x = (double) val2fp (a, w), y = (double) val2fp (b, w), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod (x, y); } return fp2val (r, w); }
  long double x = val2fp (a, w), y = val2fp (b, w), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodl (x, y); } return fp2val (r, w);
}
static u128 fp_eval (E *e, u128 a, u128 b)
{
  unsigned w = e->a->w;
  switch (e->op) {
    case FADD: return cv (fbin (Instruction::FAdd, kv (a), kv (b), w));
    case FSUB: return cv (fbin (Instruction::FSub, kv (a), kv (b), w));
    case FMUL: return cv (fbin (Instruction::FMul, kv (a), kv (b), w));
    case FDIV: return cv (fbin (Instruction::FDiv, kv (a), kv (b), w));
    case FNEG: return a ^ ((u128) 1 << (w - 1));
    case FEQ: return val2fp (a, w) == val2fp (b, w);
    case FLT: return val2fp (a, w) < val2fp (b, w);
    case FLE: return val2fp (a, w) <= val2fp (b, w);
    case FUNO: return std::isnan (val2fp (a, w)) || std::isnan (val2fp (b, w));
    case SI2FP: if (e->w == 32) return cv (fp2val ((float) sx (a, w), 32)); if (e->w == 64) return cv (fp2val ((double) sx (a, w), 64)); return cv (fp2val ((long double) sx (a, w), e->w));
    case UI2FP: if (e->w == 32) return cv (fp2val ((float) a, 32)); if (e->w == 64) return cv (fp2val ((double) a, 64)); return cv (fp2val ((long double) a, e->w));
    case FP2SI: return (u128) (s128) val2fp (a, w) & mask (e->w);
    case FP2UI: return (u128) val2fp (a, w) & mask (e->w);
    case FP2FP: return cv (fp2val (val2fp (a, w), e->w));
    default: return 0;
  }
}
static Val bin (unsigned op, const Val &a, const Val &b, unsigned w)
{
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.lo, y = b.lo, r; uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
      case Instruction::AShr: r = (uint64_t) ((int64_t) sx (x, w) >> (y >= w ? w - 1 : y)); break;
      case Instruction::UDiv: if (!y) fault ("division by zero"); r = x / y; break;
      case Instruction::URem: if (!y) fault ("division by zero"); r = x % y; break;
      case Instruction::SDiv: case Instruction::SRem: {
	if (!y) fault ("division by zero");
	int64_t p = (int64_t) sx (x, w), q = (int64_t) sx (y, w);
	if (q == -1) { if (w >= 32 && p == (int64_t) sx ((u128) 1 << (w - 1), w)) fault ("division overflow"); r = op == Instruction::SDiv ? 0 - (uint64_t) p : 0; }
	else r = op == Instruction::SDiv ? p / q : p % q; break; }
      default: incomplete ("binary operator");
    }
    Val v; v.lo = r & m; v.hi = 0; v.e = 0; return v;
  }
  Op o; bool div = false, sg = false;
  switch (op) {
    case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break;
    case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
    case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
    case Instruction::UDiv: o = UDIV; div = true; break; case Instruction::URem: o = UREM; div = true; break;
    case Instruction::SDiv: o = SDIV; div = sg = true; break; case Instruction::SRem: o = SREM; div = sg = true; break;
    default: incomplete ("binary operator");
  }
  E *x = ex (a, w), *y = ex (b, w);
  if (div) {
    if (decide (ebin (EQ, y, K (0, w)))) fault ("division by zero");
    if (sg && w >= 32) { E *ov = ebin (AND, ebin (EQ, y, K (mask (w), w)), ebin (EQ, x, K ((u128) 1 << (w - 1), w))); if (decide (ov)) fault ("division overflow"); }
  }
  if ((o == UDIV || o == UREM) && isk (y) && !isk (x) && (y->v & (y->v - 1)) && y->v < (1ull << 62)) {
    E *q, *r; divide (x, (uint64_t) y->v, &q, &r);
    return ve (o == UDIV ? q : r);
  }
  return ve (ebin (o, x, y));
}
static Val icmp (unsigned pr, const Val &a, const Val &b, unsigned w)
{
  if (!a.e && !b.e) {
    u128 x = cv (a), y = cv (b); bool r;
    switch (pr) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx (x, w) < sx (y, w); break; case CmpInst::ICMP_SLE: r = sx (x, w) <= sx (y, w); break; case CmpInst::ICMP_SGT: r = sx (x, w) > sx (y, w); break; default: r = sx (x, w) >= sx (y, w);
    }
    Val v; v.lo = r; v.hi = 0; v.e = 0; return v;
  }
  E *x = ex (a, w), *y = ex (b, w);
  switch (pr) {
    case CmpInst::ICMP_EQ: return ve (ebin (EQ, x, y)); case CmpInst::ICMP_NE: return ve (enot (ebin (EQ, x, y)));
    case CmpInst::ICMP_ULT: return ve (ebin (ULT, x, y)); case CmpInst::ICMP_ULE: return ve (ebin (ULE, x, y)); case CmpInst::ICMP_UGT: return ve (ebin (ULT, y, x)); case CmpInst::ICMP_UGE: return ve (ebin (ULE, y, x));
    case CmpInst::ICMP_SLT: return ve (ebin (SLT, x, y)); case CmpInst::ICMP_SLE: return ve (ebin (SLE, x, y)); case CmpInst::ICMP_SGT: return ve (ebin (SLT, y, x)); default: return ve (ebin (SLE, y, x));
  }
}
static Val fcmp (unsigned pr, const Val &a, const Val &b, unsigned w)
{
  E *x = ex (a, w), *y = ex (b, w);
  auto F = [&] (Op o, E *p, E *q) -> E * { if (isk (p) && isk (q)) { E t; t.op = o; t.w = 1; t.a = p; t.b = q; return K (fp_eval (&t, p->v, q->v), 1); } return mk (o, 1, p, q); };
  E *un = F (FUNO, x, y), *eq = F (FEQ, x, y);
  E *r;
  switch (pr) {
    case CmpInst::FCMP_FALSE: r = K (0, 1); break; case CmpInst::FCMP_TRUE: r = K (1, 1); break;
    case CmpInst::FCMP_OEQ: r = eq; break; case CmpInst::FCMP_UEQ: r = ebin (OR, eq, un); break;
    case CmpInst::FCMP_ONE: r = ebin (AND, enot (eq), enot (un)); break; case CmpInst::FCMP_UNE: r = enot (eq); break;
    case CmpInst::FCMP_OLT: r = F (FLT, x, y); break; case CmpInst::FCMP_OLE: r = F (FLE, x, y); break;
    case CmpInst::FCMP_OGT: r = F (FLT, y, x); break; case CmpInst::FCMP_OGE: r = F (FLE, y, x); break;
    case CmpInst::FCMP_ULT: r = ebin (OR, un, F (FLT, x, y)); break; case CmpInst::FCMP_ULE: r = ebin (OR, un, F (FLE, x, y)); break;
    case CmpInst::FCMP_UGT: r = ebin (OR, un, F (FLT, y, x)); break; case CmpInst::FCMP_UGE: r = ebin (OR, un, F (FLE, y, x)); break;
    case CmpInst::FCMP_ORD: r = enot (un); break; default: r = un;
  }
  return ve (r);
}
static Val cast_ (const Ins &n, const Val &a)
{
  unsigned w = n.w, s = n.w2;
  switch (n.sub) {
    case Instruction::Trunc: return a.e ? ve (eext (a.e, 0, w)) : kv (cv (a) & mask (w));
    case Instruction::ZExt: return a.e ? ve (ezext (a.e, w)) : a;
    case Instruction::SExt: return a.e ? ve (esext (a.e, w)) : kv ((u128) sx (cv (a), s) & mask (w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (w == s) return a; return a.e ? ve (w < s ? eext (a.e, 0, w) : ezext (a.e, w)) : kv (cv (a) & mask (w));
    case Instruction::BitCast: return a;
    case Instruction::FPExt: case Instruction::FPTrunc: return a.e ? ve (mk (FP2FP, w, a.e)) : fp2val (val2fp (a, s), w);
    case Instruction::SIToFP: if (a.e) return ve (mk (SI2FP, w, a.e)); { E t; t.op = SI2FP; t.w = w; E q; q.w = s; t.a = &q; return kv (fp_eval (&t, cv (a), 0)); }
    case Instruction::UIToFP: if (a.e) return ve (mk (UI2FP, w, a.e)); { E t; t.op = UI2FP; t.w = w; E q; q.w = s; t.a = &q; return kv (fp_eval (&t, cv (a), 0)); }
    case Instruction::FPToSI: return a.e ? ve (mk (FP2SI, w, a.e)) : w <= 64 ? kv ((u128) (s128) (int64_t) val2fp (a, s) & mask (w)) : kv ((u128) (s128) val2fp (a, s));
    case Instruction::FPToUI: return a.e ? ve (mk (FP2UI, w, a.e)) : kv ((u128) val2fp (a, s) & mask (w));
  }
  incomplete ("cast");
}
static void killstack (uint64_t from) { if (stop_ > from) { memset (&shadow[(from - BASE) >> 3], DEADSTK, (stop_ - from + 7) >> 3); stop_ = from; } }
static uint64_t salloc (uint64_t n, uint64_t al)
{
  uint64_t a = galloc (stop_, n, al);
  if (stop_ >= HEAP - (1 << 20)) fault ("stack overflow");
  memset ((void *) a, 0xbe, n); unsym (a, n);
  mark (a, n, DEADSTK, true);
  if (n == 0) shadow[(a - BASE) >> 3] = DEADSTK;
  return a;
}
static bool trace_on = getenv ("VSYM_TRACE") != 0;
static std::map<std::string, uint64_t> prof; static bool prof_on = getenv ("VSYM_PROF") != 0;

static void run (FInfo *f, Val *R, Val *ret, uint64_t vaptr)
{
  const Val *C = f->consts.data ();
  #define V(o) ((o) >= 0 ? R[o] : C[~(o)])
  #define VK(o, k) ((o) >= 0 ? R[(o) + (k)] : C[~(o) + (k)])
  uint64_t sp0 = stop_;
  const Ins *ip = &f->code[f->bbstart[0]];
  Val tmp[128];
  size_t fr0 = frames.size (); int depth0 = depth; Val *top0 = rtop;
again:
  try {
  for (;; ip++) {
    const Ins &n = *ip;
    cur = ip;
    if (++ninstr > max_instr) fault ("runs away (instruction limit)");
    switch (n.k) {
      case I_NOP: break;
      case I_BIN: for (int i = 0; i < n.n; i++) R[n.dst + i] = bin (n.sub, VK (n.a, i), VK (n.b, i), n.w); break;
      case I_FBIN: for (int i = 0; i < n.n; i++) R[n.dst + i] = fbin (n.sub, VK (n.a, i), VK (n.b, i), n.w); break;
      case I_FNEG: for (int i = 0; i < n.n; i++) { const Val &v = VK (n.a, i); R[n.dst + i] = v.e ? ve (ebin (XOR, v.e, K ((u128) 1 << (n.w - 1), n.w))) : kv (cv (v) ^ ((u128) 1 << (n.w - 1))); } break;
      case I_ICMP: for (int i = 0; i < n.n; i++) R[n.dst + i] = icmp (n.sub, VK (n.a, i), VK (n.b, i), n.w); break;
      case I_FCMP: for (int i = 0; i < n.n; i++) R[n.dst + i] = fcmp (n.sub, VK (n.a, i), VK (n.b, i), n.w); break;
      case I_CAST:
	if (n.sub == Instruction::BitCast && (n.n != 1 || n.x->argw.size () != 1)) {
	  E *all = 0; for (size_t i = 0; i < n.x->argw.size (); i++) { E *e = ex (VK (n.a, (int) i), n.x->argw[i]); all = all ? econcat (e, all) : e; }
	  unsigned off = 0; for (int i = 0; i < n.n; i++) { R[n.dst + i] = ve (eext (all, off, n.x->fl[i].w)); off += n.x->fl[i].w; }
	}
	else for (int i = 0; i < n.n; i++) R[n.dst + i] = cast_ (n, VK (n.a, i));
	break;
      case I_SELECT:
	if (n.sub) { for (int i = 0; i < n.n; i++) { Val c = VK (n.c, i); bool t = c.e ? decide (c.e) : c.lo; R[n.dst + i] = t ? VK (n.a, i) : VK (n.b, i); } break; }
	{ Val c = V (n.c);
	  if (c.e) { auto it = known.find (c.e); if (it != known.end ()) c = kv (it->second); }
	  if (c.e) {
	    bool ptr = false; for (auto &q : n.x->fl) ptr |= q.ptr;
	    if (ptr || n.n > 1) { c = kv (decide (c.e)); }
	    else { R[n.dst] = ve (eite (c.e, ex (V (n.a), n.x->fl[0].w), ex (V (n.b), n.x->fl[0].w))); break; }
	  }
	  for (int i = 0; i < n.n; i++) tmp[i] = c.lo ? VK (n.a, i) : VK (n.b, i);
	  for (int i = 0; i < n.n; i++) R[n.dst + i] = tmp[i];
	} break;
      case I_LOAD: {
	const Val &p = V (n.a);
	if (p.e) { if (n.n == 1) { Val r = symload (p, n.w); R[n.dst] = r; break; } Val q = kv (pick (p, 64)); for (int i = 0; i < n.n; i++) { chk (q.lo + n.x->fl[i].off, (n.x->fl[i].w + 7) / 8, false); R[n.dst + i] = rawload (q.lo + n.x->fl[i].off, n.x->fl[i].w); } break; }
	if (n.w) { chk (p.lo, (n.w + 7) / 8, false); R[n.dst] = rawload (p.lo, n.w); }
	else { uint64_t a = p.lo; for (int i = 0; i < n.n; i++) { chk (a + n.x->fl[i].off, (n.x->fl[i].w + 7) / 8, false); R[n.dst + i] = rawload (a + n.x->fl[i].off, n.x->fl[i].w); } }
	break; }
      case I_STORE: {
	uint64_t a = pick (V (n.a), 64);
	for (int i = 0; i < n.n; i++) { chk (a + n.x->fl[i].off, (n.x->fl[i].w + 7) / 8, true); rawstore (a + n.x->fl[i].off, n.x->fl[i].w, VK (n.b, i)); }
	break; }
      case I_GEP: {
	Val p = V (n.a); bool s = p.e; for (auto &g : n.x->gi) s |= V (g.opd).e != 0;
	if (!s) { uint64_t a = p.lo + n.x->off; for (auto &g : n.x->gi) a += (uint64_t) (int64_t) sx (V (g.opd).lo, g.w) * g.scale; R[n.dst] = kv (a); }
	else { E *e = ebin (ADD, ex (p, 64), K (n.x->off, 64)); for (auto &g : n.x->gi) { E *ie = ex (V (g.opd), g.w); ie = g.w < 64 ? esext (ie, 64) : eext (ie, 0, 64); e = ebin (ADD, e, ebin (MUL, ie, K (g.scale, 64))); } R[n.dst] = ve (e); }
	break; }
      case I_ALLOCA: { uint64_t k = pick (V (n.a), n.w); if (k * n.x->off > (64u << 20)) fault ("stack overflow (huge local array)"); R[n.dst] = kv (salloc (k * n.x->off, n.c)); break; }
      case I_BR: case I_CBR: case I_SWITCH: {
	const Edge *e;
	if (n.k == I_BR) e = &n.x->e0;
	else if (n.k == I_CBR) { const Val &c = V (n.a); bool t = c.e ? decide (c.e) : (c.lo & 1); e = t ? &n.x->e0 : &n.x->e1; }
	else {
	  Val c = V (n.a); e = 0;
	  if (!c.e) { u128 v = cv (c); e = &n.x->e0; for (auto &q : n.x->cases) if (q.first == v) { e = &n.x->edges[q.second]; break; } }
	  else {
	    std::vector<E*> cond (n.x->edges.size (), 0);
	    for (auto &q : n.x->cases) { E *t = ebin (EQ, c.e, K (q.first, n.w)); cond[q.second] = cond[q.second] ? ebin (OR, cond[q.second], t) : t; }
	    for (size_t i = 0; i < cond.size () && !e; i++) if (decide (cond[i])) e = &n.x->edges[i];
	    if (!e) e = &n.x->e0;
	  }
	}
	size_t nc = e->copies.size ();
	if (nc == 1) R[e->copies[0].first] = V (e->copies[0].second);
	else if (nc) { std::vector<Val> big; Val *t = tmp; if (nc > 128) { big.resize (nc); t = big.data (); } for (size_t i = 0; i < nc; i++) t[i] = V (e->copies[i].second); for (size_t i = 0; i < nc; i++) R[e->copies[i].first] = t[i]; }
	ip = &f->code[f->bbstart[e->target]] - 1;
	break; }
      case I_RET: for (int i = 0; i < n.n; i++) ret[i] = VK (n.a, i); killstack (sp0); return;
      case I_UNREACH: fault ("unreachable code reached");
      case I_COPY: for (int i = 0; i < n.n; i++) R[n.dst + i] = VK (n.a, i); break;
      case I_INSV: for (int i = 0; i < n.n; i++) R[n.dst + i] = VK (n.a, i); for (int i = 0; i < n.sub; i++) R[n.dst + n.c + i] = VK (n.b, i); break;
      case I_EXTE: { uint64_t i = pick (V (n.b), n.w); R[n.dst] = VK (n.a, (int) (i < (uint64_t) n.n ? i : 0)); break; }
      case I_INSE: { uint64_t i = pick (V (n.c), n.w); Val b = V (n.b); for (int k = 0; k < n.n; k++) R[n.dst + k] = VK (n.a, k); if (i < (uint64_t) n.n) R[n.dst + i] = b; break; }
      case I_SHUF: { int q = 0; for (int m : n.x->list) { tmp[q++] = m < 0 ? kv (0) : m < n.c ? VK (n.a, m) : VK (n.b, m - n.c); } for (int i = 0; i < q; i++) R[n.dst + i] = tmp[i]; break; }
      case I_ATOMRMW: {
	uint64_t a = pick (V (n.a), 64); chk (a, n.w / 8, true); Val o = rawload (a, n.w), b = V (n.b), r;
	switch (n.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = bin (Instruction::Add, o, b, n.w); break; case AtomicRMWInst::Sub: r = bin (Instruction::Sub, o, b, n.w); break; case AtomicRMWInst::Or: r = bin (Instruction::Or, o, b, n.w); break; case AtomicRMWInst::And: r = bin (Instruction::And, o, b, n.w); break; default: incomplete ("atomicrmw"); }
	rawstore (a, n.w, r); R[n.dst] = o; break; }
      case I_CMPXCHG: {
	uint64_t a = pick (V (n.a), 64); chk (a, n.w / 8, true); Val o = rawload (a, n.w), c = icmp (CmpInst::ICMP_EQ, o, V (n.b), n.w);
	bool eq = c.e ? decide (c.e) : c.lo; if (eq) rawstore (a, n.w, V (n.c)); R[n.dst] = o; R[n.dst + 1] = kv (eq); break; }
      case I_CALL: {
	Aux &x = *n.x;
	FInfo *g = x.callee;
	if (!g) { uint64_t a = pick (V (n.a), 64); auto it = byaddr.find (a); if (it == byaddr.end ()) fault (a < 4096 ? "call through a null pointer" : "call through a bad pointer"); g = it->second; }
	Val args[64]; int na = 0;
	for (size_t i = 0; i < x.args.size () && na < 60; i++) for (int k = 0; k < x.argslots[i]; k++) args[na++] = VK (x.args[i], k);
	if (g->bi) { builtin (g, n, args, na, R, x, vaptr); cur = ip; break; }
	if (g->F->isDeclaration ()) incomplete ("external function " + g->name);
	uint64_t sp1 = stop_, va = 0;
	int fixed = 0;
	for (size_t i = 0, q = 0; i < x.args.size (); q += x.argslots[i], i++) {
	  if (i < x.nfixed) fixed += x.argslots[i];
	  if (x.byval[i] && (i < x.nfixed)) { uint64_t src = args[q].lo, d = salloc (x.byval[i], 16); chk (src, x.byval[i], false); memcpy ((void *) d, (void *) src, x.byval[i]); movesym (d, src, x.byval[i]); args[q] = kv (d); }
	}
	if (g->F->isVarArg ()) {
	  // overflow area of the variable arguments
	  uint64_t sz = 16; for (size_t i = x.nfixed; i < x.args.size (); i++) { sz += x.byval[i] ? (x.byval[i] + 15) & ~7ull : 0; for (int k = 0; k < x.argslots[i]; k++) sz += 32; }
	  va = salloc (sz, 16); uint64_t p = va; size_t q = 0, wq = 0;
	  for (size_t i = 0; i < x.args.size (); i++) {
	    if (i >= x.nfixed) {
	      if (x.byval[i]) { uint64_t al = cast<CallBase> (n.I)->getParamAlign ((unsigned) i).valueOrOne ().value (); if (al < 8) al = 8; p = (p + al - 1) / al * al; uint64_t src = args[q].lo; chk (src, x.byval[i], false); memcpy ((void *) p, (void *) src, x.byval[i]); movesym (p, src, x.byval[i]); p += (x.byval[i] + 7) & ~7ull; }
	      else for (int k = 0; k < x.argslots[i]; k++) { unsigned w = x.argw[wq + k]; if (w > 64) p = (p + 15) & ~15ull; rawstore (p, w, args[q + k]); p += w > 64 ? 16 : 8; }
	    }
	    q += x.argslots[i]; wq += x.argslots[i];
	  }
	  na = fixed;
	}
	Val rv[64];
	frames.push_back ({ g, ip });
	call (g, args, rv, va);
	frames.pop_back ();
	cur = ip;
	killstack (sp1);
	for (int i = 0; i < n.n; i++) R[n.dst + i] = rv[i];
	break; }
      default: incomplete ("instruction kind");
    }
  }
  }
  catch (LongJmp &j) {
    auto it = jmpbufs.find (j.buf);
    if (it == jmpbufs.end () || it->second.R != R || it->second.f != f) throw;
    frames.resize (fr0); depth = depth0; rtop = top0;
    killstack (it->second.sp);
    ip = it->second.ip;
    R[ip->dst] = j.val;
    ip++;
    goto again;
  }
}
static void call (FInfo *f, const Val *args, Val *ret, uint64_t vaptr)
{
  if (!f->decoded) decode (f);
  if (f->idx < (int) sizeof (sh->fn)) sh->fn[f->idx] = 1;
  if (++depth > 20000) fault ("unbounded recursion");
  if (trace_on) fprintf (stderr, "%*s%s\n", depth, "", f->name.c_str ());
  uint64_t i0 = ninstr;
  Val *R = rtop; rtop += f->nslots;
  unsigned q = 0;
  for (size_t i = 0; i < f->argslot.size (); i++) for (unsigned k = 0; k < f->argn[i]; k++) R[f->argslot[i] + k] = args[q++];
  run (f, R, ret, vaptr);
  if (prof_on) prof[f->name] += ninstr - i0;
  rtop = R;
  depth--;
}
static void callname (Function *F) { FInfo *f = getf (F); Val rv[64]; Val args[8] = {}; frames.push_back ({ f, 0 }); call (f, args, rv, 0); frames.pop_back (); }

int main (int argc, char **argv)
{
  const char *file = 0, *out = 0; double tmax = 600; int procs = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-t") tmax = atof (argv[++i]); else if (a == "-j") procs = atoi (argv[++i]); else if (a == "-i") max_instr = strtoull (argv[++i], 0, 0); else if (a == "-o") out = argv[++i]; else file = argv[i];
  }
  struct rlimit rl; getrlimit (RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv ("VSYM_STACK")) { rl.rlim_cur = std::min<rlim_t> (rl.rlim_max, 1ull << 30); setrlimit (RLIMIT_STACK, &rl); setenv ("VSYM_STACK", "1", 1); execv ("/proc/self/exe", argv); }
  double t0 = now ();
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile (file, err, ctx);
  if (!mod) { err.print ("vsym", errs ()); return 2; }
  M = mod.get (); DL = &M->getDataLayout ();
  sh = (Shared *) mmap (0, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init (&sh->tokens, 1, procs > 1 ? procs - 1 : 0);
  char tmpl[] = "/tmp/vsym-viol-XXXXXX"; violfd = mkstemp (tmpl); unlink (tmpl); fcntl (violfd, F_SETFL, O_APPEND);
  auto rsv = [] (uint64_t at, uint64_t n) { void *p = mmap ((void *) at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror ("mmap"); exit (2); } madvise (p, n, MADV_NOHUGEPAGE); return p; };
  rsv (BASE, ASIZE); shadow = (uint8_t *) rsv (0, ASIZE >> 3); sym = (E **) rsv (0, ASIZE * sizeof (E*)); psym = (uint8_t *) rsv (0, ASIZE >> 12);
  rstack = rtop = (Val *) rsv (0, 1ull << 30);
  // addresses
  std::vector<GlobalVariable*> gs;
  for (Function &F : *M) { uint64_t a = gtop; gtop += 16; gaddr[&F] = a; }
  for (GlobalVariable &G : M->globals ()) { uint64_t n = DL->getTypeAllocSize (G.getValueType ()); uint64_t a = galloc (gtop, n, G.getAlign () ? G.getAlign ()->value () : 16); gaddr[&G] = a; gs.push_back (&G); StringRef nm = G.getName (); for (const char *t : { "yy_ec", "yy_meta", "yy_chk", "yy_base", "yy_def" }) if (nm == t || nm.starts_with (std::string (t) + ".")) lazy_tables.push_back ({ a, n }); }
  for (Function &F : *M) byaddr[gaddr[&F]] = getf (&F);
  for (GlobalVariable *G : gs) { if (G->hasInitializer () && !G->getName ().starts_with ("llvm.")) initmem (gaddr[G], G->getInitializer ()); if (!G->getName ().starts_with ("llvm.")) mark (gaddr[G], DL->getTypeAllocSize (G->getValueType ()), G->isConstant () ? RO : 0, true); }
  pid_t root = fork ();
  if (root == 0) {
    prctl (PR_SET_PDEATHSIG, SIGKILL);
    setpgid (0, 0);
    sh->started++;
    deadline = t0 + tmax;
    zinit (); Z3_set_error_handler (z, zerr);
    if (GlobalVariable *gc = M->getGlobalVariable ("llvm.global_ctors")) if (gc->hasInitializer ()) if (auto *ca = dyn_cast<ConstantArray> (gc->getInitializer ())) {
      std::vector<std::pair<uint64_t, Function*>> cs;
      for (unsigned i = 0; i < ca->getNumOperands (); i++) { auto *s = cast<ConstantStruct> (ca->getOperand (i)); if (auto *F = dyn_cast<Function> (s->getOperand (1)->stripPointerCasts ())) cs.push_back ({ cast<ConstantInt> (s->getOperand (0))->getZExtValue (), F }); }
      std::stable_sort (cs.begin (), cs.end (), [] (auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : cs) callname (c.second);
    }
    Function *H = M->getFunction ("harness");
    if (!H) incomplete ("no harness");
    callname (H);
    if (prof_on) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &p : prof) v.push_back ({ p.second, p.first }); std::sort (v.rbegin (), v.rend ()); for (size_t i = 0; i < v.size () && i < 25; i++) fprintf (stderr, "%12lu %s\n", (unsigned long) v[i].first, v[i].second.c_str ()); }
    sh->paths++;
    leave ();
  }
  prctl (PR_SET_CHILD_SUBREAPER, 1);
  setpgid (root, root);
  bool timeout = false, crash = false;
  for (;;) {
    int st; pid_t p = waitpid (-1, &st, WNOHANG);
    if (p < 0 && errno == ECHILD) break;
    if (p > 0) { if (!WIFEXITED (st) && !timeout) crash = true; continue; }
    usleep (2000);
    if (now () - t0 > tmax + 20 || sh->viol > 200) { timeout = now () - t0 > tmax + 20; kill (-root, SIGKILL); }
  }
  if (sh->started != sh->ended && sh->viol <= 200) { sh->incomplete++; reason (timeout ? "timeout" : "an exploring process died"); }
  (void) crash;
  std::string s = "{\"paths\":" + std::to_string (sh->paths) + ",\"assumed_out\":" + std::to_string (sh->assumed_out) + ",\"incomplete\":" + std::to_string (sh->incomplete) + ",\"forks\":" + std::to_string (sh->forks) +
    ",\"queries\":" + std::to_string (sh->queries) + ",\"sat\":" + std::to_string (sh->sat_n) + ",\"unsat\":" + std::to_string (sh->unsat_n) + ",\"unknown\":" + std::to_string (sh->unknown) + ",\"solver_s\":" + std::to_string (sh->solver_ns * 1e-9) +
    ",\"instructions\":" + std::to_string (sh->instrs) + ",\"checks\":" + std::to_string (sh->checks) + ",\"discharged\":" + std::to_string (sh->discharged) + ",\"wall_s\":" + std::to_string (now () - t0);
  s += ",\"witness\":"; if (!sh->have_witness) s += "null"; else { s += "["; for (int i = 0; i < sh->nwitness; i++) s += (i ? "," : "") + std::to_string (sh->witness[i]); s += "]"; }
  s += ",\"reasons\":["; for (int i = 0; i < sh->nreasons && i < 64; i++) s += std::string (i ? "," : "") + "\"" + jesc (sh->reasons[i]) + "\"";
  s += "],\"functions\":["; bool first = true; for (FInfo *f : flist) if (sh->fn[f->idx]) { s += (first ? "\"" : ",\"") + f->name + "\""; first = false; }
  s += "],\"violations\":[";
  lseek (violfd, 0, SEEK_SET); std::string v; char buf[65536]; ssize_t k; while ((k = read (violfd, buf, sizeof buf)) > 0) v.append (buf, k);
  if (!v.empty ()) v.pop_back ();
  for (char &c : v) if (c == '\n') c = ',';
  s += v + "]}\n";
  FILE *o = out ? fopen (out, "w") : stdout; fputs (s.c_str (), o); fflush (o); if (out) fclose (o);
  _exit (0);
}
