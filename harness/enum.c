/* Enumerations: every value of the underlying type survives save + load; named values are found by name and by value.
   E 0..5 selects the enumeration. */
#include "vh_sym.h"
#ifdef FMT
#include "fmt.h"
#endif
#if E == 0 /* plain */
TYPEDEF_ENUM (e_t, ZERO, (ONE), (TWO, = 2, "comment"), (SEVEN, = 7), EIGHT, (MINUS, = -5))
#define U int32_t
#elif E == 1 /* flags */
TYPEDEF_ENUM (e_t, (NONE, = 0), (FIRST, = 1 << 0), (SECOND, = 1 << 1), (THIRD, = 1 << 2), (FORTH, = 1 << 3))
#define U uint32_t
#elif E == 2
TYPEDEF_ENUM (e_t, ATTRIBUTES (__attribute__ ((packed))), (U0, = 0), (U1, = 1), (U3, = 3), (U200, = 200))
#define U uint8_t
#elif E == 3
TYPEDEF_ENUM (e_t, ATTRIBUTES (__attribute__ ((packed))), (S_MIN, = -128), (S_M1, = -1), (S_ZERO, = 0), (S_ONE, = 1), (S_MAX, = 127))
#define U int8_t
#elif E == 4
TYPEDEF_ENUM (e_t, ATTRIBUTES (__attribute__ ((packed))), (L_ZERO, = 0), (L_BIG, = 1ULL << 63), (L_MID, = 1ULL << 32), (L_ONE, = 1))
#define U uint64_t
#elif E == 5
TYPEDEF_ENUM (e_t, ATTRIBUTES (__attribute__ ((packed))), (I_FIRST, = -1), (I_MIN, = -0x7fffffffffffffffLL - 1), (I_LAST, = 0x7fffffffffffffffLL))
#define U int64_t
#elif E == 6 /* signed flags */
TYPEDEF_ENUM (e_t, ATTRIBUTES (__attribute__ ((packed))), (F_ZERO, = 0), (F_ONE, = 1), (F_TWO, = 2), (F_FOUR, = 4), (F_TOP, = -128))
#define U int8_t
#endif
TYPEDEF_STRUCT (root_t, (int8_t, first), (e_t, x), (int8_t, last))

void
harness (void)
{
  U v = SYM (U);
#ifdef MASK
  ASSUME ((v & ~(U) (MASK)) == 0);
#endif
#ifdef FMT
  root_t s, d;
  memset (&s, 0, sizeof (s));
  memset (&d, 0x5a, sizeof (d));
  CHECK (sizeof (s.x) == sizeof (U), "representation");
  s.first = 1;
  memcpy (&s.x, &v, sizeof (v));
  s.last = 2;
  mr_rarray_t ra = SAVE (root_t, &s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
  CHECK (MR_SUCCESS == LOAD (root_t, ra, &d), "load succeeds");
  CHECK (0 == memcmp (&d.x, &v, sizeof (v)), "value restored");
  CHECK (d.first == 1 && d.last == 2, "neighbours restored");
  MR_FREE (ra.data.ptr);
#else
  /* lookup */
  mr_conf_init ();
  mr_td_t * tdp = mr_get_td_by_name ("e_t");
  CHECK (tdp != NULL && tdp->mr_type != MR_TYPE_NONE, "type is registered");
  int i, n = tdp->param.enum_param.enums_size / sizeof (tdp->param.enum_param.enums[0]);
  bool found = false;
  mr_ed_t * edp = mr_get_enum_by_value (tdp, v);
  for (i = 0; i < n; ++i)
    {
      mr_ed_t * e = tdp->param.enum_param.enums[i];
      bool same = (U) e->value._unsigned == v;
      found |= same;
      CHECK (same == (edp == e), "lookup by value finds exactly the constant with that value");
      CHECK (mr_get_enum_by_name (e->name.str) == e, "lookup by name");
    }
  CHECK (found == (edp != NULL), "values without a name are not found");
#endif
  WITNESS ();
}
