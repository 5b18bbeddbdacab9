/* Field names which coincide with keywords of a format survive save + load. */
#include "vh_sym.h"
#include "fmt.h"
TYPEDEF_STRUCT (in_t, (int8_t, INF), (int8_t, Inf), (int8_t, NAN_), (int8_t, x))
TYPEDEF_STRUCT (rt_t, (int8_t, i), (int8_t, t), (int8_t, nil), (in_t, nan), (int8_t, inf), (int8_t, NaN), (int8_t, ref), (int8_t, null), (int8_t, e1))
void
harness (void)
{
  rt_t s, d;
  memset (&s, 0, sizeof (s));
  memset (&d, 0x5a, sizeof (d));
  s.i = (int8_t) vh_range (0, 1); s.t = (int8_t) vh_range (0, 1); s.nil = (int8_t) vh_range (0, 1); s.nan.INF = (int8_t) vh_range (0, 1); s.nan.Inf = 3; s.nan.x = 4;
  s.inf = (int8_t) vh_range (0, 1); s.NaN = (int8_t) vh_range (0, 1); s.ref = 7; s.null = 8; s.e1 = 9;
  mr_rarray_t ra = SAVE (rt_t, &s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
  CHECK (MR_SUCCESS == LOAD (rt_t, ra, &d), "load succeeds");
  CHECK (0 == memcmp (&s, &d, sizeof (s)), "values restored");
  MR_FREE (ra.data.ptr);
  WITNESS ();
}
