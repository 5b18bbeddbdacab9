/* Exhausted memory.  OP 0: save, 1: load, 2: deep copy, 3: compare, 4: hash, 5: free.  One allocation (ALL: and all later ones)
   fails, chosen by the solver among all allocations of the operation; then the operation is repeated with enough memory. */
#include "vh_sym.h"
#include "vh_mem.h"
#ifdef FMT
#include "fmt.h"
#endif
TYPEDEF_STRUCT (leaf_t, (int16_t, v), (char *, s))
TYPEDEF_UNION (alt_t, (int8_t, num), (char *, txt), (leaf_t *, leaf))
TYPEDEF_STRUCT (root_t,
		(struct root_t *, self),
		(char *, s1), (char *, s2),
		(leaf_t *, one), (leaf_t *, same),
		(int16_t *, data, , , { "size" }, "string"), (ssize_t, size),
		(alt_t, alt, , "kind"), (int8_t, kind),
		(leaf_t *, many, , , { "count" }, "string"), (ssize_t, count))
static root_t s, d;
static leaf_t l1, l2, ll[2];
static int16_t nums[2];
static int shape;

static void
make (void)
{
  memset (&s, 0, sizeof (s));
  memset (&d, 0, sizeof (d));
  s.s1 = "first";
  if (shape & 1)
    {
      s.self = &s;
      s.one = &l1;
      s.same = &l1;
      l1.v = 7;
      l1.s = s.s1;
      s.s2 = s.s1;
    }
  else
    {
      s.s2 = "other";
      s.one = &l1;
      s.same = &l2;
      l2.s = "x";
    }
  if (shape & 2)
    {
      s.data = nums;
      s.size = sizeof (nums);
      s.kind = 2;
      s.alt.leaf = &l2;
    }
  else
    {
      s.kind = 1;
      s.alt.txt = "alt";
      s.many = ll;
      s.count = sizeof (ll);
      ll[0].s = "m";
      ll[1].v = 3;
    }
}

static bool
str_eq (char * x, char * y)
{
  return ((x == NULL || y == NULL) ? x == y : 0 == strcmp (x, y));
}
static bool
leaf_eq (leaf_t * x, leaf_t * y)
{
  return ((x == NULL || y == NULL) ? x == y : (x->v == y->v && str_eq (x->s, y->s)));
}
static bool
same (root_t * x, root_t * y)
{
  return ((x->self == x) == (y->self == y) && (x->self == NULL) == (y->self == NULL)
	  && str_eq (x->s1, y->s1) && str_eq (x->s2, y->s2) && (x->s1 == x->s2) == (y->s1 == y->s2)
	  && leaf_eq (x->one, y->one) && leaf_eq (x->same, y->same) && (x->one == x->same) == (y->one == y->same)
	  && x->size == y->size && (x->data == NULL) == (y->data == NULL) && (!x->data || 0 == memcmp (x->data, y->data, x->size))
	  && x->kind == y->kind && (x->kind == 1 ? str_eq (x->alt.txt, y->alt.txt) : leaf_eq (x->alt.leaf, y->alt.leaf))
	  && x->count == y->count && (x->many == NULL) == (y->many == NULL)
	  && (!x->many || (leaf_eq (&x->many[0], &y->many[0]) && leaf_eq (&x->many[1], &y->many[1]))));
}

#ifdef FMT
static mr_rarray_t image;
#endif
static mr_hash_value_t hv;
/* the operation; it returns true when it claims success */
static bool
run (void)
{
#if OP == 0
  image = SAVE (root_t, &s);
  return (image.data.ptr != NULL);
#elif OP == 1
  return (MR_SUCCESS == LOAD (root_t, image, &d));
#elif OP == 2
  return (MR_SUCCESS == MR_COPY_RECURSIVELY (root_t, &s, &d));
#elif OP == 3
  root_t other = s;
  other.self = (s.self == &s) ? &other : s.self;
  return (0 == MR_CMP_STRUCTS (root_t, &s, &other));
#elif OP == 4
  hv = MR_HASH_STRUCT (root_t, &s);
  return (true);
#endif
}

/* the result of a successful operation, released afterwards */
static void
verify (void)
{
#if OP == 0
  memset (&d, 0, sizeof (d));
  CHECK (MR_SUCCESS == LOAD (root_t, image, &d), "a saved image can be loaded");
  CHECK (same (&s, &d), "a saved image is complete");
  MR_FREE_RECURSIVELY (root_t, &d);
  MR_FREE (image.data.ptr);
  image.data.ptr = NULL;
#elif OP == 1 || OP == 2
  CHECK (same (&s, &d), "a successful operation is complete");
  MR_FREE_RECURSIVELY (root_t, &d);
#endif
}

void
harness (void)
{
  shape = vh_pick (4);
  mr_conf.log_level = 0;
  make ();
  CHECK (mr_get_td_by_name ("root_t") != NULL, "library initialized");
  vh_mem_start ();
#if OP == 1
  image = SAVE (root_t, &s);
  CHECK (image.data.ptr != NULL, "save succeeds");
#endif
  int live = vh_live;
  vh_allocs = 0;
#ifdef ALL
  vh_fail_all = true;
#endif
  vh_fail = vh_pick (MAXALLOC);
  bool ok = run ();
  int n = vh_allocs;
  vh_fail = -1;
  CHECK (n < MAXALLOC, "bound on the number of allocations");
  CHECK (ok || vh_failed, "with enough memory the operation succeeds");
  if (ok)
    verify ();
#if OP == 1
  else /* whatever was loaded before the failure */
    MR_FREE_RECURSIVELY (root_t, &d);
#endif
  CHECK (vh_live == live, "all memory is released");
  make ();
  vh_failed = false;
  CHECK (run (), "the operation succeeds afterwards");
  verify ();
  CHECK (vh_live == live, "all memory is released");
  WITNESS ();
}
