/* Unions: the member which the discriminator selects survives save + load (FMT) or deep copy (COPY).
   DK: kind of discriminator. */
#include "vh_sym.h"
#include "vh_mem.h"
#ifdef FMT
#include "fmt.h"
#endif
TYPEDEF_STRUCT (pt_t, (int8_t, a), (int16_t, b))
TYPEDEF_UNION (u_t, (int8_t, i8), (int16_t, i16), (char *, str), (pt_t, pt))
#define MEMBERS 4
TYPEDEF_ENUM (kind_t, (K_PT, = 3, "pt"), (K_I8, = 10, "i8"), (K_STR, = -1, "str"), (K_I16, = 7, "i16"))
static char * names[MEMBERS] = { "i8", "i16", "str", "pt" };
static int32_t kinds[MEMBERS] = { K_I8, K_I16, K_STR, K_PT };
#if DK == 0 /* enumeration whose constants name the members */
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind"), (kind_t, kind), (int8_t, last))
#elif DK == 1 /* member number */
TYPEDEF_STRUCT (root_t, (DT, kind), (u_t, u, , "kind"), (int8_t, last))
#elif DK == 2 /* member name */
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind"), (string_t, kind), (int8_t, last))
#elif DK == 3 /* member name in a char array */
typedef char ca_t[8];
MR_TYPEDEF_DESC_BI (ca_t);
TYPEDEF_STRUCT (root_t, (ca_t, kind), (u_t, u, , "kind"), (int8_t, last))
#elif DK == 4 /* pointer to an enumeration */
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind"), (kind_t *, kind), (int8_t, last))
#elif DK == 5 /* bit field */
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind"), (uint8_t, pad, : 3), (uint8_t, kind, : 2), (int8_t, last))
#elif DK == 6 /* overrides */
#define OVR (mr_ud_override_t[]) { { 5, "i8" }, { 6, "i16" }, { 200, "str" }, { 0, "pt" }, }
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind", { OVR }, "mr_ud_override_t", sizeof (OVR)), (int16_t, kind), (int8_t, last))
static int16_t ovr[MEMBERS] = { 5, 6, 200, 0 };
#elif DK == 7 /* anonymous union */
TYPEDEF_STRUCT (root_t, ANON_UNION (), (int8_t, i8), (int16_t, i16), (char *, str), (pt_t, pt), END_ANON_UNION ("kind"), (kind_t, kind), (int8_t, last))
#define ANON
#elif DK == 8 /* named anonymous union */
#define ANON
TYPEDEF_STRUCT (root_t, ANON_UNION (u), (int8_t, i8), (int16_t, i16), (char *, str), (pt_t, pt), END_ANON_UNION ("kind"), (kind_t, kind), (int8_t, last))
#elif DK == 9 /* array of unions */
TYPEDEF_STRUCT (root_t, (u_t, uu, [2], "kind"), (kind_t, kind), (int8_t, last))
#elif DK == 10 /* pointer to a union */
TYPEDEF_STRUCT (root_t, (u_t *, up, , "kind"), (kind_t, kind), (int8_t, last))
#elif DK == 11 /* discriminator in an outer structure */
TYPEDEF_STRUCT (mid_t, (int8_t, x), (u_t, u, , "kind"))
TYPEDEF_STRUCT (root_t, (mid_t, mid), (kind_t, kind), (int8_t, last))
#endif
#if DK == 12 /* signed bit field */
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind"), (int8_t, pad, : 3), (int8_t, kind, : 2), (int8_t, last))
#elif DK == 13 /* overrides, signed bit field */
#define OVR (mr_ud_override_t[]) { { -1, "str" }, { -8, "i16" }, { 7, "pt" }, { 0, "i8" }, }
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind", { OVR }, "mr_ud_override_t", sizeof (OVR)), (uint8_t, pad, : 3), (int8_t, kind, : 4), (int8_t, last))
static int16_t ovr[MEMBERS] = { 0, -8, -1, 7 };
#elif DK == 14 /* bit field of an enumeration */
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind"), (uint8_t, pad, : 3), (kind_t, kind, : 5), (int8_t, last))
#elif DK == 15 /* overrides by negative numbers */
#define OVR (mr_ud_override_t[]) { { -1, "str" }, { -128, "i16" }, { 127, "pt" }, { 0, "i8" }, }
TYPEDEF_STRUCT (root_t, (u_t, u, , "kind", { OVR }, "mr_ud_override_t", sizeof (OVR)), (int8_t, kind), (int8_t, last))
static int16_t ovr[MEMBERS] = { 0, -128, -1, 127 };
#endif
#ifdef ANON
#define UN(X) (X)
#elif DK == 9
#define UN(X) (X).uu[1]
#elif DK == 10
#define UN(X) (*(X).up)
#elif DK == 11
#define UN(X) (X).mid.u
#else
#define UN(X) (X).u
#endif

static void
transfer (root_t * s, root_t * d)
{
#ifdef FMT
  mr_rarray_t ra = SAVE (root_t, s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
  mr_status_t st = LOAD (root_t, ra, d);
  MR_FREE (ra.data.ptr);
  CHECK (MR_SUCCESS == st, "load succeeds");
#else
  CHECK (MR_SUCCESS == MR_COPY_RECURSIVELY (root_t, s, d), "copy succeeds");
#endif
}

#ifdef LEAKS /* only the ownership of memory: what the operation allocates is released exactly once */
#define TRANSFER(S, D) { vh_mem_start (); transfer (S, D); MR_FREE_RECURSIVELY (root_t, D); CHECK (vh_live == 0, "everything is released"); WITNESS (); return; }
#else
#define TRANSFER(S, D) transfer (S, D)
#endif

void
harness (void)
{
  root_t s, d;
  int m;
  char txt[3] = "ab";
  memset (&s, 0, sizeof (s));
  memset (&d, 0, sizeof (d));
  s.last = 99;
#if DK == 10
  u_t uo;
  memset (&uo, 0, sizeof (uo));
  s.up = &uo;
#endif
#if DK == 1
  DT k = SYM (DT);
#ifdef KMAX
  ASSUME (k <= KMAX);
#endif
  s.kind = k;
  /* numbers without a member select the first one */
  m = vsym_pick ((k >= 0 && k < MEMBERS) ? k : 0);
#else
#if DK != 12
  m = vh_pick (MEMBERS);
#endif
#if DK == 12
  int k = vh_pick (4) - 2;
  m = (k >= 0) ? k : 0;
  s.kind = k;
  s.pad = -2;
#elif DK == 13 || DK == 15
  s.kind = ovr[m];
#elif DK == 14
  s.kind = kinds[m];
#elif DK == 2
  s.kind = names[m];
#elif DK == 3
  strcpy (s.kind, names[m]);
#elif DK == 4
  kind_t kk;
  memcpy (&kk, &kinds[m], sizeof (kk));
  s.kind = &kk;
#elif DK == 5
  s.kind = m;
  s.pad = 5;
#elif DK == 6
  s.kind = ovr[m];
#else
  memcpy (&s.kind, &kinds[m], sizeof (s.kind));
#endif
#endif
  switch (m)
    {
    case 0: UN (s).i8 = SYM (int8_t); break;
    case 1: UN (s).i16 = SYM (int16_t); break;
    case 2: txt[0] = vh_range ('a', 'z'); UN (s).str = vh_pick (2) ? txt : NULL; break;
    case 3: UN (s).pt.a = SYM (int8_t); UN (s).pt.b = 1000; break;
    }
#if DK == 9
  s.uu[0] = s.uu[1];
#elif DK == 11
  s.mid.x = 17;
#endif
  TRANSFER (&s, &d);
#if DK == 1 || DK == 6 || DK >= 12
  CHECK (d.kind == s.kind, "discriminator restored");
#elif DK == 2 || DK == 3
  CHECK (d.kind != s.kind && 0 == strcmp (d.kind, s.kind), "discriminator restored");
#elif DK == 4
  CHECK (d.kind != s.kind && *d.kind == *s.kind, "discriminator restored");
#elif DK == 5
  CHECK (d.kind == s.kind && d.pad == 5, "discriminator restored");
#else
  CHECK (d.kind == s.kind, "discriminator restored");
#endif
#if DK == 10
  CHECK (d.up != NULL && d.up != s.up, "union restored");
#elif DK == 11
  CHECK (d.mid.x == 17, "neighbours restored");
#endif
  switch (m)
    {
    case 0: CHECK (UN (d).i8 == UN (s).i8, "selected member restored"); break;
    case 1: CHECK (UN (d).i16 == UN (s).i16, "selected member restored"); break;
    case 2:
      CHECK ((UN (d).str == NULL) == (UN (s).str == NULL), "selected member restored");
      CHECK (UN (s).str == NULL || (UN (d).str != UN (s).str && 0 == strcmp (UN (d).str, UN (s).str)), "selected member restored");
      break;
    case 3: CHECK (UN (d).pt.a == UN (s).pt.a && UN (d).pt.b == 1000, "selected member restored"); break;
    }
  CHECK (d.last == 99, "neighbours restored");
  MR_FREE_RECURSIVELY (root_t, &d);
  WITNESS ();
}
