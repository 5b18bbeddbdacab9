/* Comparison and hashing of arbitrary objects: the comparison is a total preorder, it is zero exactly for objects with the
   same content, and objects that compare equal have the same hash. KIND selects the type of the objects. */
#include "vh_sym.h"
#include "vh_mem.h"

#if KIND == 0 /* integers of all widths */
TYPEDEF_STRUCT (root_t, (int8_t, a), (uint16_t, b), (int32_t, c), (uint64_t, d))
#elif KIND == 1
TYPEDEF_STRUCT (root_t, (uint8_t, a), (int16_t, b), (mr_int128_t, c), (bool, d))
#elif KIND == 2 /* enumerations and bit fields */
TYPEDEF_ENUM (e_t, (E_A, = 1), (E_B, = -5))
TYPEDEF_ENUM (p_t, ATTRIBUTES (__attribute__ ((packed))), (P_A, = 1), (P_B, = 2))
TYPEDEF_STRUCT (root_t, (e_t, e), (p_t, p), (int, f, : 3), (unsigned, g, : 11), (int64_t, h, : 20))
#elif KIND == 3 /* characters and strings */
typedef char ca_t[3];
MR_TYPEDEF_DESC_BI (ca_t);
TYPEDEF_STRUCT (root_t, (char, c), (ca_t, s))
#elif KIND == 4
TYPEDEF_STRUCT (root_t, (char *, s), (string_t, t))
#elif KIND == 5 /* floating point */
TYPEDEF_STRUCT (root_t, (float, f), (double, d))
#elif KIND == 6
TYPEDEF_STRUCT (root_t, (complex_float_t, f))
#elif KIND == 7 /* a union */
TYPEDEF_UNION (u_t, (int32_t, i), (char, c, [2]), (uint8_t, b))
TYPEDEF_STRUCT (root_t, (uint8_t, k), (u_t, u, , "k"))
#elif KIND == 8 /* a resizable array */
TYPEDEF_STRUCT (root_t, (int16_t *, v, , , { "size" }, "string"), (uint8_t, size))
#elif KIND == 9 /* a graph */
TYPEDEF_STRUCT (root_t, (int8_t, id), (root_t *, l), (root_t *, r))
#elif KIND == 10 /* a structure in an array, a pointer to an integer */
TYPEDEF_STRUCT (in_t, (int8_t, x), (int16_t, y))
TYPEDEF_STRUCT (root_t, (in_t, v, [2]), (int32_t *, p))
#elif KIND == 11
TYPEDEF_STRUCT (root_t, (long double, f))
#endif

#define SIGN(X) (((X) > 0) - ((X) < 0))
#if KIND == 9
#define IDS 2
#else
#define IDS 1
#endif

#if KIND == 3 || KIND == 4
static bool
str_eq (char * x, char * y, int max)
{
  int i;
  if ((NULL == x) || (NULL == y))
    return (x == y);
  for (i = 0; i < max; ++i)
    {
      if (x[i] != y[i])
	return (false);
      if (0 == x[i])
	return (true);
    }
  return (true);
}
#endif

/* a float of every class */
#define FEQ(X, Y) (((X) == (Y)) || ((X) != (X) && (Y) != (Y)))

typedef struct { root_t * r; char buf[2][4]; int16_t arr[3]; int32_t i; int l[IDS], rr[IDS]; } object_t;

static void
make (object_t * o)
{
  int i;
  memset (o, 0, sizeof (*o));
  o->r = malloc (IDS * sizeof (root_t)); /* nothing behind it may be read */
  ASSUME (o->r != NULL);
  root_t * x = &o->r[0];
  memset (x, 0xA5, IDS * sizeof (*x)); /* padding is not a part of the content */
#if KIND <= 1
  x->a = SYM (typeof (x->a));
  x->b = SYM (typeof (x->b));
  x->c = SYM (typeof (x->c));
#if KIND == 0
  x->d = SYM (uint64_t);
#else
  x->c = ((mr_int128_t) SYM (int64_t) << 64) | SYM (uint64_t);
  x->d = vh_range (0, 1);
#endif
#elif KIND == 2
  x->e = SYM (int32_t);
  *(uint8_t *) &x->p = SYM (uint8_t);
  x->f = SYM (int);
  x->g = SYM (unsigned);
  x->h = SYM (int64_t);
#elif KIND == 3
  for (i = 0; i < sizeof (x->s); ++i)
    x->s[i] = SYM (char);
  x->c = SYM (char);
#elif KIND == 4
  char ** s[] = { &x->s, &x->t };
  for (i = 0; i < 2; ++i)
    {
#if defined (ORDER) && !defined (DEEP)
      int n = vh_pick (4), j;
      ASSUME (i == 0 || n != 2);
#else
      int n = vh_pick (i ? 4 : 6), j;
#endif
      for (j = 0; j < n - 1 && j < 3; ++j)
	o->buf[i][j] = SYM (char);
      *s[i] = n ? o->buf[i] : NULL;
      if (i && n == 3)
	*s[i] = o->buf[0]; /* shared */
      ASSUME (n < 4 || i == 0);
      if (n > 3)
	*s[i] = o->buf[1];
    }
#elif KIND == 5
  uint32_t f = SYM (uint32_t);
  uint64_t d = SYM (uint64_t);
  memcpy (&x->f, &f, sizeof (f));
  memcpy (&x->d, &d, sizeof (d));
#elif KIND == 6
  uint32_t re = SYM (uint32_t), im = SYM (uint32_t);
  memcpy ((char *) &x->f, &re, sizeof (re));
  memcpy ((char *) &x->f + sizeof (re), &im, sizeof (im));
#elif KIND == 7
  x->k = SYM (uint8_t);
  for (i = 0; i < sizeof (x->u); ++i)
    ((char *) &x->u)[i] = SYM (char);
#elif KIND == 8
  int n = vh_pick (4);
  for (i = 0; i < n; ++i)
    o->arr[i] = SYM (int16_t);
  x->size = n * sizeof (o->arr[0]);
  x->v = o->arr;
  if (n == 0 && vh_pick (2))
    x->v = NULL;
#elif KIND == 9
  for (i = 0; i < IDS; ++i)
    {
      o->r[i].id = SYM (int8_t);
      o->l[i] = vh_pick (IDS + 1);
#ifdef ORDER
      o->rr[i] = IDS; /* three objects, one link in each node */
#else
      o->rr[i] = vh_pick (IDS + 1);
#endif
      o->r[i].l = o->l[i] == IDS ? NULL : &o->r[o->l[i]];
      o->r[i].r = o->rr[i] == IDS ? NULL : &o->r[o->rr[i]];
    }
#elif KIND == 10
  for (i = 0; i < 2; ++i)
    {
      x->v[i].x = SYM (int8_t);
      x->v[i].y = SYM (int16_t);
    }
  o->i = SYM (int32_t);
  x->p = vh_pick (2) ? &o->i : NULL;
#elif KIND == 11
  uint64_t m = SYM (uint64_t);
  uint16_t e = SYM (uint16_t);
  ASSUME (((m >> 63) != 0) == ((e & 0x7fff) != 0)); /* a valid encoding */
  memcpy ((char *) &x->f, &m, sizeof (m));
  memcpy ((char *) &x->f + sizeof (m), &e, sizeof (e));
#endif
}

/* the content is the same */
static bool
same (object_t * p, object_t * q)
{
  root_t * x = &p->r[0], * y = &q->r[0];
  int i;
#if KIND <= 1
  return (x->a == y->a && x->b == y->b && x->c == y->c && x->d == y->d);
#elif KIND == 2
  return (x->e == y->e && x->p == y->p && x->f == y->f && x->g == y->g && x->h == y->h);
#elif KIND == 3
  return (str_eq (x->s, y->s, sizeof (x->s)) && x->c == y->c);
#elif KIND == 4
  return (str_eq (x->s, y->s, 4) && str_eq (x->t, y->t, 4) && (x->s == x->t && x->s != NULL) == (y->s == y->t && y->s != NULL));
#elif KIND == 5
  return (FEQ (x->f, y->f) && FEQ (x->d, y->d));
#elif KIND == 6 || KIND == 11
  float a[2], b[2];
#if KIND == 11
  return (FEQ (x->f, y->f));
#else
  memcpy (a, &x->f, sizeof (a));
  memcpy (b, &y->f, sizeof (b));
  bool xn = a[0] != a[0] || a[1] != a[1], yn = b[0] != b[0] || b[1] != b[1];
  return (xn || yn ? xn && yn : a[0] == b[0] && a[1] == b[1]);
#endif
#elif KIND == 7
  if (x->k != y->k)
    return (false);
  if (x->k == 1)
    return (x->u.c[0] == y->u.c[0] && x->u.c[1] == y->u.c[1]);
  if (x->k == 2)
    return (x->u.b == y->u.b);
  return (x->u.i == y->u.i);
#elif KIND == 8
  if (x->size != y->size)
    return (false);
  for (i = 0; i < x->size / 2; ++i)
    if (x->v[i] != y->v[i])
      return (false);
  return (true);
#elif KIND == 9
  int map[IDS] = { -1, -1 }, inv[IDS] = { -1, -1 }, todo[8], n = 0;
#define PAIR(A, B) {							\
    if ((A) == IDS || (B) == IDS) { if ((A) != (B)) return (false); }	\
    else if (map[A] != -1 || inv[B] != -1) { if (map[A] != (B)) return (false); } \
    else { map[A] = (B); inv[B] = (A); todo[n++] = (A); }		\
  }
  PAIR (0, 0);
  for (i = 0; i < n; ++i)
    {
      int a = todo[i], b = map[a];
      if (p->r[a].id != q->r[b].id)
	return (false);
      PAIR (p->l[a], q->l[b]);
      PAIR (p->rr[a], q->rr[b]);
    }
  return (true);
#elif KIND == 10
  for (i = 0; i < 2; ++i)
    if (x->v[i].x != y->v[i].x || x->v[i].y != y->v[i].y)
      return (false);
  if (x->p && y->p)
    return (*x->p == *y->p);
  return (x->p == y->p);
#endif
}

/* another object with the same integers in another place: equality of the values becomes syntactic for the solver */
static void
twin (object_t * p, object_t * q)
{
#if KIND <= 2
  root_t * x = &p->r[0], * y = &q->r[0];
  memset (y, 0x5A, sizeof (*y));
#if KIND <= 1
  y->a = x->a;
  y->b = x->b;
  y->c = x->c;
  y->d = x->d;
#else
  y->e = x->e;
  y->p = x->p;
  y->f = x->f;
  y->g = x->g;
  y->h = x->h;
#endif
#endif
}

void
harness (void)
{
  object_t x, y;
  make (&x);
  make (&y);
  vh_mem_start ();
  int xy = MR_CMP_STRUCTS (root_t, &x.r[0], &y.r[0]);
#ifdef ORDER /* a total preorder */
  object_t z;
  make (&z);
  CHECK (SIGN (xy) == -SIGN (MR_CMP_STRUCTS (root_t, &y.r[0], &x.r[0])), "comparison is antisymmetric");
  if (xy <= 0)
    {
      int yz = MR_CMP_STRUCTS (root_t, &y.r[0], &z.r[0]);
      if (yz <= 0)
	{
	  int xz = MR_CMP_STRUCTS (root_t, &x.r[0], &z.r[0]);
	  CHECK (xz <= 0, "comparison is transitive");
	  CHECK ((xy == 0 && yz == 0) == (xz == 0), "equality is transitive, strict order too");
	}
    }
#else
#if KIND == 8
  if (x.r->size != 0 || y.r->size != 0 || (x.r->v == NULL) == (y.r->v == NULL)) /* no opinion on NULL and other arrays of no elements */
#endif
  CHECK ((xy == 0) == same (&x, &y), "objects compare equal exactly when they have the same content");
  if (xy == 0)
    twin (&x, &y);
  if (xy == 0)
    CHECK (MR_HASH_STRUCT (root_t, &x.r[0]) == MR_HASH_STRUCT (root_t, &y.r[0]), "equal objects have the same hash");
#endif
  CHECK (vh_live == 0, "everything is released");
  free (x.r);
  free (y.r);
#ifdef ORDER
  free (z.r);
#endif
  WITNESS ();
}
