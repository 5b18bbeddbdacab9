/* Arrays survive save + load (FMT) or deep copy (COPY).
   KIND 0: fixed dimensions; 1: sized data with a size member of type ST; 2: sized array of structures with strings;
   3: array with a used part; 4: pointer to fixed array members, arrays of pointers; 5: nested sized data;
   6: strings in character arrays of a fixed length, possibly without a terminating zero. */
#include "vh_sym.h"
#include "vh_mem.h"
#ifdef FMT
#include "fmt.h"
#endif
#ifndef ST
#define ST int
#endif
#if KIND == 0
#ifndef DIMS
#define DIMS [2][3]
#define COUNT 6
#endif
TYPEDEF_STRUCT (root_t, (int8_t, first), (int16_t, a, DIMS), (int8_t, last))
#elif KIND == 1
TYPEDEF_STRUCT (root_t, (int16_t *, data, , , { "size" }, "string"), (ST, size), (int8_t, last))
#elif KIND == 2
TYPEDEF_STRUCT (item_t, (int8_t, v), (char *, s))
TYPEDEF_STRUCT (root_t, (ST, size), (item_t *, data, , , { "size" }, "string"), (int8_t, last))
#elif KIND == 3
#ifndef DT
#define DT int16_t
#endif
TYPEDEF_STRUCT (root_t, (DT, data, [3], , { "size" }, "string"), (ST, size), (int8_t, last))
#elif KIND == 4
TYPEDEF_STRUCT (in_t, (int16_t, m, [2][2]), (char, txt, [2][4]))
TYPEDEF_STRUCT (root_t, (in_t *, p, [2]), (string_t, names, [3]), (int8_t, last))
#elif KIND == 5
TYPEDEF_STRUCT (row_t, (int16_t *, cells, , , { "size" }, "string"), (ST, size))
TYPEDEF_STRUCT (root_t, (row_t *, data, , , { "size" }, "string"), (ST, size), (int8_t, last))
#elif KIND == 6
typedef char ca_t[4]; MR_TYPEDEF_DESC_BI (ca_t);
TYPEDEF_STRUCT (root_t, (ca_t, one), (ca_t, arr, [2]), (ca_t *, single), (ca_t *, data, , , { "size" }, "string"), (ST, size), (int8_t, last))
#endif

static mr_status_t
transfer (root_t * s, root_t * d)
{
#ifdef FMT
  mr_rarray_t ra = SAVE (root_t, s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
#endif
#ifdef OOM
  vh_allocs = 0;
#ifdef FMT
  CHECK (MR_SUCCESS == LOAD (root_t, ra, d), "load or copy succeeds");
#else
  CHECK (MR_SUCCESS == MR_COPY_RECURSIVELY (root_t, s, d), "load or copy succeeds");
#endif
  int n = vh_allocs; /* as many allocations as there are may fail */
  MR_FREE_RECURSIVELY (root_t, d);
  memset (d, 0x5a, sizeof (*d));
  vh_allocs = 0;
  vh_fail = vh_pick (n + 1);
#endif
#ifdef FMT
  mr_status_t st = LOAD (root_t, ra, d);
#else
  mr_status_t st = MR_COPY_RECURSIVELY (root_t, s, d);
#endif
#ifdef OOM
  vh_fail = -1;
#endif
#ifdef FMT
  MR_FREE (ra.data.ptr);
#endif
#ifdef OOM
  CHECK (MR_SUCCESS == st || vh_failed, "load or copy succeeds");
#else
  CHECK (MR_SUCCESS == st, "load or copy succeeds");
#endif
  return (st);
}

#ifndef N
#define N 3
#endif
#ifdef LEAKS /* only the ownership of memory: what the operation allocates is released exactly once */
#define TRANSFER(S, D) { vh_mem_start (); transfer (S, D); MR_FREE_RECURSIVELY (root_t, D); CHECK (vh_live == 0, "everything is released"); WITNESS (); return; }
#elif defined (OOM) /* one allocation fails: a failure is reported and nothing is lost, a success is a complete one */
#ifdef FMT
#define DROP(D) MR_FREE_RECURSIVELY (root_t, D) /* whatever was loaded before the failure */
#else
#define DROP(D) (void) 0
#endif
#define TRANSFER(S, D) { vh_mem_start (); if (MR_SUCCESS != transfer (S, D)) { DROP (D); CHECK (vh_live == 0, "everything is released"); WITNESS (); return; } }
#else
#define TRANSFER(S, D) transfer (S, D)
#endif

void
harness (void)
{
  root_t s, d;
  int i, j;
  memset (&s, 0, sizeof (s));
  memset (&d, 0x5a, sizeof (d));
  s.last = 99;
#if KIND == 0
  int16_t * a = (int16_t *) s.a, * b = (int16_t *) d.a;
  int at = vh_pick (COUNT);
  s.first = 98;
  for (i = 0; i < COUNT; ++i)
    a[i] = (i & 1) ? 1000 + i : -i;
  a[at] = SYM (int16_t);
  TRANSFER (&s, &d);
  for (i = 0; i < COUNT; ++i)
    CHECK (a[i] == b[i], "elements in their places");
  CHECK (d.first == 98, "neighbours restored");
#elif KIND == 1
  int16_t x[N + 1];
  int n = vh_pick (N + 1);
  for (i = 0; i < N; ++i)
    x[i] = i * 1000 - 1000;
  if (n)
    x[vh_pick (n)] = SYM (int16_t);
  s.data = x;
  s.size = n * sizeof (x[0]);
  TRANSFER (&s, &d);
  CHECK (d.size == s.size, "size restored");
  CHECK (d.data != x, "data is a copy");
  CHECK (n == 0 || d.data != NULL, "data restored");
  for (i = 0; i < n; ++i)
    CHECK (d.data[i] == x[i], "elements in their places");
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 2
  item_t x[N];
  char t[2] = { 0, 0 };
  char * txt[3] = { "abc", NULL, t };
  int n = vh_pick (N + 1);
  t[0] = vh_range ('a', 'z');
  for (i = 0; i < N; ++i)
    {
      x[i].v = i * 7;
      x[i].s = i < n ? txt[vh_pick (3)] : NULL;
    }
  s.data = x;
  s.size = n * sizeof (x[0]);
  TRANSFER (&s, &d);
  CHECK (d.size == s.size, "size restored");
  CHECK (d.data != x, "data is a copy");
  CHECK (n == 0 || d.data != NULL, "data restored");
  for (i = 0; i < n; ++i)
    {
      CHECK (d.data[i].v == x[i].v, "elements in their places");
      CHECK ((x[i].s == NULL) == (d.data[i].s == NULL), "strings restored");
      if (x[i].s)
	CHECK (d.data[i].s != x[i].s && 0 == strcmp (d.data[i].s, x[i].s), "strings restored");
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 3
  int size = vh_pick (4 * sizeof (DT) + 2) - 1; /* in bytes, not only whole elements, negative and beyond the array too */
  int n = size < 0 ? 0 : size / sizeof (DT) > 3 ? 3 : size / sizeof (DT);
  for (i = 0; i < 3; ++i)
    s.data[i] = i * 1000 - 1001;
  if (n)
    s.data[vh_pick (n)] = SYM (DT);
  s.size = size;
  TRANSFER (&s, &d);
  CHECK (d.size == s.size, "size restored");
  for (i = 0; i < n; ++i)
    CHECK (d.data[i] == s.data[i], "elements in their places");
#ifdef FMT
  for (i = n; i < 3; ++i)
    CHECK (d.data[i] == 0, "the unused part is not transferred");
#endif
#elif KIND == 4
  in_t x[2];
  for (i = 0; i < 4; ++i)
    {
      x[0].m[i / 2][i % 2] = i + 10;
      x[1].m[i / 2][i % 2] = -i;
    }
  x[1].m[1][0] = SYM (int16_t);
  strcpy (x[0].txt[0], "ab");
  strcpy (x[0].txt[1], "");
  strcpy (x[1].txt[0], "");
  strcpy (x[1].txt[1], "cde");
  x[0].txt[0][1] = vh_range ('A', 'Z');
  for (i = 0; i < 2; ++i)
    s.p[i] = vh_pick (2) ? &x[i] : NULL;
  char * txt[3] = { "x", "", NULL };
  for (i = 0; i < 3; ++i)
    s.names[i] = txt[vh_pick (3)];
  TRANSFER (&s, &d);
  for (i = 0; i < 2; ++i)
    {
      CHECK ((s.p[i] == NULL) == (d.p[i] == NULL), "null links stay null, others do not");
      if (s.p[i])
	{
	  CHECK (0 == memcmp (s.p[i]->m, d.p[i]->m, sizeof (x[0].m)), "elements in their places");
	  for (j = 0; j < 2; ++j)
	    CHECK (0 == strcmp (s.p[i]->txt[j], d.p[i]->txt[j]), "strings restored");
	}
    }
  for (i = 0; i < 3; ++i)
    {
      CHECK ((s.names[i] == NULL) == (d.names[i] == NULL), "strings restored");
      if (s.names[i])
	CHECK (0 == strcmp (s.names[i], d.names[i]), "strings restored");
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 5
  row_t rows[2];
  int16_t x[2][2] = { { 1, 2 }, { 3, 4 } };
  int n = vh_pick (3), m[2] = { 0, 0 };
  for (i = 0; i < n; ++i)
    {
      rows[i].cells = x[i];
      rows[i].size = (m[i] = vh_pick (3)) * sizeof (x[0][0]);
    }
  if (n == 2 && m[1])
    x[1][0] = SYM (int16_t);
  s.data = rows;
  s.size = n * sizeof (rows[0]);
  TRANSFER (&s, &d);
  CHECK (d.size == s.size, "size restored");
  for (i = 0; i < n; ++i)
    {
      CHECK (d.data[i].size == rows[i].size, "size restored");
      for (j = 0; j < m[i]; ++j)
	CHECK (d.data[i].cells[j] == x[i][j], "elements in their places");
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 6
  ca_t x[7], y[7];	/* one, arr, single, data */
  int n = vh_pick (N + 1), at = vh_pick (4 + n);
  memset (x, 0, sizeof (x));
  for (i = 0; i < 4 + n; ++i)
    memcpy (x[i], "abcd", i == at ? vh_pick (5) : (i * 3 + 2) % 5);
  if (x[at][0])
    x[at][0] = vh_range ('A', 'Z');
  memcpy (s.one, x[0], sizeof (ca_t));
  memcpy (s.arr, x[1], 2 * sizeof (ca_t));
  s.single = &x[3];
  s.data = &x[4];
  s.size = n * sizeof (ca_t);
  TRANSFER (&s, &d);
  CHECK (d.size == s.size, "size restored");
  CHECK (d.single != NULL && d.single != s.single, "data is a copy");
  CHECK (n == 0 || (d.data != NULL && d.data != s.data), "data is a copy");
  memcpy (y[0], d.one, sizeof (ca_t));
  memcpy (y[1], d.arr, 2 * sizeof (ca_t));
  memcpy (y[3], d.single, sizeof (ca_t));
  if (n)
    memcpy (y[4], d.data, n * sizeof (ca_t));
  for (i = 0; i < 4 + n; ++i)
    CHECK (0 == strncmp (x[i], y[i], sizeof (ca_t)), "strings restored");
  MR_FREE_RECURSIVELY (root_t, &d);
#endif
  CHECK (d.last == 99, "neighbours restored");
  WITNESS ();
}
