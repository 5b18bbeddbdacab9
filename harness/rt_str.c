/* Strings and characters survive save + load, whatever bytes they contain.
   KIND 0: string pointer, 1: array of characters, 3: char array type, 2: single character.  N: symbolic bytes; LO..HI: their range. */
#include "vh_sym.h"
#include "fmt.h"
#ifndef N
#define N 2
#endif
#ifndef LO
#define LO 1
#define HI 255
#endif
#if KIND == 0
TYPEDEF_STRUCT (rs_t, (int, a), (char *, s), (int, b))
#elif KIND == 3
typedef char ca_t[N + 2];
MR_TYPEDEF_DESC_BI (ca_t);
TYPEDEF_STRUCT (rs_t, (int, a), (ca_t, s), (int, b))
#elif KIND == 1
TYPEDEF_STRUCT (rs_t, (int, a), (char, s, [N + 2]), (int, b))
#else
TYPEDEF_STRUCT (rs_t, (int, a), (char, s), (int, b))
#endif
void
harness (void)
{
  rs_t s, d;
  char buf[N + 1];
  int i;
  memset (&s, 0, sizeof (s));
  memset (&d, 0, sizeof (d));
  s.a = 11;
  s.b = 22;
#if KIND == 2
  s.s = (char) vh_range (LO, HI);
#else
  for (i = 0; i < N; ++i)
    {
      buf[i] = (char) vh_range (LO, HI);
    }
  buf[N] = 0;
#if KIND == 0
  s.s = buf;
#else
  memcpy (s.s, buf, N + 1);
#endif
#endif
  mr_rarray_t ra = SAVE (rs_t, &s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
  CHECK (MR_SUCCESS == LOAD (rs_t, ra, &d), "load succeeds");
  CHECK (d.a == 11 && d.b == 22, "neighbours restored");
#if KIND == 0
  CHECK (d.s != NULL, "string restored");
  CHECK (d.s != s.s, "string is a copy");
  for (i = 0; i < N + 1; ++i)
    CHECK (d.s[i] == buf[i], "characters restored");
#elif KIND != 2
  for (i = 0; i < N + 1; ++i)
    CHECK (d.s[i] == buf[i], "characters restored");
#else
  CHECK (d.s == s.s, "character restored");
#endif
  MR_FREE (ra.data.ptr);
  MR_FREE_RECURSIVELY (rs_t, &d);
  WITNESS ();
}
