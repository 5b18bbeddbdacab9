/* C07: mr_hsort sorts: result ordered, a permutation, nothing outside touched. */
#include "vh.h"
#include <metaresc.h>
/* CBMC's front end does not decay an array that is passed as a transparent
   union (mr_ptr_t): the comparator type is replaced by plain pointers. */
typedef int (*vh_compar_fn_t) (const void *, const void *, const void *);
#define mr_compar_fn_t vh_compar_fn_t
#include "mr_hsort.c"

typedef struct { int16_t key; uint8_t id; } el_t;
static int
cmp (const void * x, const void * y, const void * context)
{
  const el_t * x_ = x;
  const el_t * y_ = y;
  return ((x_->key > y_->key) - (x_->key < y_->key));
}

void
harness (void)
{
  el_t a[N + 2], old[N + 2];
  unsigned i, j;
  for (i = 0; i < N + 2; ++i)
    {
      a[i].key = ND (int16_t);
      a[i].id = i;
      old[i] = a[i];
    }
  unsigned count = CNT;
  mr_hsort (&a[1], count, sizeof (a[0]), cmp, NULL);
  for (i = 1; i + 1 < count + 1; ++i)
    CHECK (a[i].key <= a[i + 1].key, "sorted array is ordered");
  bool seen[N + 2] = { false };
  for (i = 1; i <= count; ++i)
    {
      CHECK ((a[i].id >= 1) && (a[i].id <= count), "sorted array holds only original elements");
      CHECK (!seen[a[i].id], "no element is duplicated by sorting");
      seen[a[i].id] = true;
      CHECK (a[i].key == old[a[i].id].key, "elements are moved whole");
    }
  CHECK ((a[0].key == old[0].key) && (a[0].id == 0), "element before the array is untouched");
  for (i = count + 1; i < N + 2; ++i)
    CHECK ((a[i].key == old[i].key) && (a[i].id == i), "elements after the array are untouched");
  WITNESS ();
}
#ifndef VH_CBMC
int main () { harness (); return (0); }
#endif
