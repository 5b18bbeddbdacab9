/* Integer values survive save + load.  T: type, INIT: expression over SYM. */
#include "vh_sym.h"
#include "fmt.h"
#ifndef VAL
#define VAL SYM (T)
#endif
TYPEDEF_STRUCT (rt_t, (T, first), (T, x), (T, last))
void
harness (void)
{
  rt_t s, d;
  memset (&s, 0, sizeof (s));
  memset (&d, 0x5a, sizeof (d));
  s.first = 1;
  s.x = VAL;
  s.last = 2;
  mr_rarray_t ra = SAVE (rt_t, &s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
  CHECK (MR_SUCCESS == LOAD (rt_t, ra, &d), "load succeeds");
  CHECK (d.x == s.x, "value restored");
  CHECK (d.first == (T) 1 && d.last == (T) 2, "neighbours restored");
  MR_FREE (ra.data.ptr);
  WITNESS ();
}
