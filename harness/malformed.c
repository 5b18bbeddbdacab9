/* Loading damaged input is safe: a saved image in which M adjacent bytes at any position are replaced by anything
   (a zero byte truncates a text) is either rejected or loaded, without touching foreign memory; a rejected one leaves no blocks.
   KIND 0: scalars and a string, 1: references, 2: arrays, 3: union, enumeration, bit field, boolean, 4: character arrays as a field, in an array and behind a pointer. */
#include "vh_sym.h"
#ifdef BINARY
#define VH_MAX_ALLOC 12
#define TAIL 0
#ifndef M
#define M 4
#endif
#define STEP 4
#endif
#include "vh_mem.h"
#include "fmt.h"
#ifndef TAIL
#define TAIL 1		/* the terminating zero of a text */
#endif
#ifndef STEP
#define STEP 1
#endif
#ifndef M
#define M 1
#endif
#if KIND == 0
TYPEDEF_STRUCT (m_t, (int8_t, i), (char *, s), (char, c))
#elif KIND == 1
TYPEDEF_STRUCT (m_t, (m_t *, p), (m_t *, q), (char *, s), (char *, t))
#elif KIND == 2
TYPEDEF_STRUCT (m_t, (uint8_t, a, [2]), (uint8_t *, r, , , { .offset = offsetof (m_t, n) }, "offset"), (ssize_t, n), (char, b, [2]))
#elif KIND == 3
TYPEDEF_ENUM (me_t, ATTRIBUTES (__attribute__ ((packed))), (ME_A, = 1, "x"), (ME_B, = 2, "y"))
TYPEDEF_UNION (mu_t, (uint8_t, x), (char *, y))
TYPEDEF_STRUCT (m_t, (me_t, e), (mu_t, u, , "e"), (int8_t, k, : 3), (bool, b))
#elif KIND == 4
typedef char ca_t[4]; MR_TYPEDEF_DESC_BI (ca_t);
TYPEDEF_STRUCT (m_t, (ca_t, f), (ca_t, a, [2]), (ca_t *, p, , , { .offset = offsetof (m_t, n) }, "offset"), (ssize_t, n))
#endif
int vh_no_floats = 1;
void
harness (void)
{
  m_t s, d;
  int i, pos;
  memset (&s, 0, sizeof (s));
  memset (&d, 0, sizeof (d));
#if KIND == 0
  s.i = -7;
  s.s = "a";
  s.c = 'z';
#elif KIND == 1
  m_t t = { .p = &s, .q = NULL, .s = NULL, .t = NULL };
  char str[] = "v";
  s.p = &t;
  s.q = &t;
  s.s = str;
  s.t = str;
#elif KIND == 2
  uint8_t r[] = { 3, 4 };
  s.a[0] = 1;
  s.r = r;
  s.n = sizeof (r);
  s.b[0] = 'q';
#elif KIND == 3
  s.e = ME_B;
  s.u.y = "s";
  s.k = -2;
  s.b = true;
#elif KIND == 4
  ca_t p[2] = { "abcd", "xy" };
  strcpy (s.f, "uv");
  strcpy (s.a[0], "m");
  s.p = p;
  s.n = sizeof (p);
#endif
  mr_conf.log_level = MR_LL_OFF;
  mr_rarray_t ra = SAVE (m_t, &s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
  vh_mem_start ();
  pos = vh_pick ((ra.MR_SIZE - TAIL - M + 1 + STEP - 1) / STEP) * STEP;
  for (i = 0; i < M; ++i)
    ((char*) ra.data.ptr)[pos + i] = SYM (char);
  mr_status_t status = LOAD (m_t, ra, &d);
  if (MR_SUCCESS != status)
    CHECK (vh_live == 0, "a rejected input leaves no blocks");
#if (KIND != 1) && (KIND != 3) && !defined (BINARY)	/* damaged references and union discriminators do not tell who owns what */
  else
    {
      MR_FREE_RECURSIVELY (m_t, &d);
      CHECK (vh_live == 0, "the loaded object owns all blocks");
    }
#endif
  WITNESS ();
}
