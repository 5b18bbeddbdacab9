/* Sorting through the interface (MR_GENERIC_SORT): for every type of elements the result is ordered, a permutation of whole
   elements, and nothing around the array is touched. */
#include "vh_sym.h"
#include "vh_mem.h"

#if KIND == 0
typedef T el_t;
#elif KIND == 1 /* strings of a fixed length, not terminated when full */
typedef char el_t[3];
#elif KIND == 2
typedef char * el_t;
#elif KIND == 3
TYPEDEF_STRUCT (el_t, (int8_t, a), (int16_t, b))
#elif KIND == 4
TYPEDEF_STRUCT (el_t, (char *, s), (int8_t, b))
#elif KIND == 5
TYPEDEF_STRUCT (el_t, (float, f), (uint8_t, b))
#elif KIND == 6
TYPEDEF_ENUM (el_t, (E_A, = -1), (E_B, = 5))
#define TYPE "el_t"
#elif KIND == 7
TYPEDEF_UNION (un_t, (int16_t, i), (uint8_t, c))
TYPEDEF_STRUCT (el_t, (bool, k), (un_t, u, , "k"))
#endif
#if KIND == 3 || KIND == 4 || KIND == 5 || KIND == 7
#define TYPE "el_t"
#endif

static char text[CNT + 2][3];

static void
make (el_t * x, int i)
{
  memset (x, 0xA5, sizeof (*x));
#if KIND == 0
  *x = SYM (T);
#elif KIND == 1
  int k;
  for (k = 0; k < 3; ++k)
    (*x)[k] = SYM (char);
#elif KIND == 2 || KIND == 4
  int n = vh_pick (4), k;
  memset (text[i], 0, sizeof (text[i]));
  for (k = 0; k < n - 1; ++k)
    {
      text[i][k] = SYM (char);
      ASSUME (text[i][k] != 0);
    }
#if KIND == 2
  *x = n ? text[i] : NULL;
#else
  x->s = n ? text[i] : NULL;
  x->b = SYM (int8_t);
#endif
#elif KIND == 3
  x->a = SYM (int8_t);
  x->b = SYM (int16_t);
#elif KIND == 5
  uint32_t f = SYM (uint32_t);
  memcpy (&x->f, &f, sizeof (f));
  x->b = SYM (uint8_t);
#elif KIND == 6
  *x = SYM (int32_t);
#elif KIND == 7
  x->k = vh_pick (2);
  x->u.i = SYM (int16_t);
#endif
}

/* x may not stand after y */
static bool
greater (el_t * x, el_t * y)
{
#if KIND == 0 || KIND == 6
  return (*x > *y);
#elif KIND == 1
  int k;
  for (k = 0; k < 3; ++k)
    if ((*x)[k] != (*y)[k])
      return ((unsigned char) (*x)[k] > (unsigned char) (*y)[k]);
    else if (0 == (*x)[k])
      break;
  return (false);
#elif KIND == 2
  if (NULL == *x || NULL == *y)
    return (*x != NULL);
  return (strcmp (*x, *y) > 0);
#else
  return (MR_CMP_STRUCTS (el_t, x, y) > 0); /* see C13 */
#endif
}

void
harness (void)
{
  el_t * a = malloc ((CNT + GUARD) * sizeof (el_t));
  el_t old[CNT + GUARD];
  int i, j;
  ASSUME (a != NULL);
  for (i = 0; i < CNT + GUARD; ++i)
    make (&a[i], i);
  memcpy (old, a, sizeof (old));
  vh_mem_start ();
#ifdef TYPE
  CHECK (MR_SUCCESS == MR_GENERIC_SORT (a, CNT, TYPE), "sorting succeeds");
#else
  CHECK (MR_SUCCESS == MR_GENERIC_SORT (a, CNT), "sorting succeeds");
#endif
  CHECK (vh_live == 0, "everything is released");
  for (i = 0; i + 1 < CNT; ++i)
    CHECK (!(greater (&a[i], &a[i + 1])), "sorted array is ordered");
  /* every element occurs as often as before */
  for (i = 0; i < CNT; ++i)
    {
      int n = 0, m = 0;
      for (j = 0; j < CNT; ++j)
	{
	  n += 0 == memcmp (&old[i], &a[j], sizeof (el_t));
	  m += 0 == memcmp (&old[i], &old[j], sizeof (el_t));
	}
      CHECK (n == m, "sorted array is a permutation of the original one");
    }
  for (i = CNT; i < CNT + GUARD; ++i)
    CHECK (0 == memcmp (&old[i], &a[i], sizeof (el_t)), "elements after the array are untouched");
  free (a);
  WITNESS ();
}
