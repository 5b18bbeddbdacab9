/* Indexed collections are sets.  IC: kind of collection, M elements indexed at first, PRE elements added, S operations (add or delete).
   The K keys are arbitrary distinct values (ANYKEY, their order is up to the solver) or 0..K-1; hash values are arbitrary (ANYHASH) or HASH. */
#include "vh_sym.h"
#include "vh_mem.h"
#include <mr_ic.h>
#include <mr_btree.h>
#ifndef K
#define K 3
#endif
#ifndef S
#define S 4
#endif
#ifndef M
#define M 0
#endif
static uintptr_t keys[K];
static unsigned hashes[K];
static int
idx (mr_ptr_t key)
{
#ifdef ANYKEY
  int i;
  for (i = 0; i < K; ++i)
    if (keys[i] == key.uintptr)
      return (i);
  CHECK (0, "elements are keys");
  return (0);
#else
  CHECK (key.uintptr < K, "elements are keys");
  return (key.uintptr);
#endif
}
static int
cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
{
  return ((x.uintptr > y.uintptr) - (x.uintptr < y.uintptr));
}
static mr_hash_value_t
hash (const mr_ptr_t x, const void * context)
{
  return (hashes[idx (x)]);
}
static int seen[K], visits;
static mr_status_t
visit (mr_ptr_t key, void * context)
{
  seen[idx (key)]++;
  visits++;
  return (MR_SUCCESS);
}
static mr_ic_t ic;
static int present[K];
static void
verify (void)
{
  unsigned i, count = 0;
  for (i = 0; i < K; ++i)
    {
      mr_ptr_t * f = mr_ic_find (&ic, (mr_ptr_t) { .uintptr = keys[i] });
      CHECK ((f != NULL) == !!present[i], "find tells whether the key is a member");
      CHECK (f == NULL || f->uintptr == keys[i], "find returns the key");
      count += present[i];
      seen[i] = 0;
    }
  CHECK (ic.items_count == count, "items count");
  visits = 0;
  CHECK (MR_SUCCESS == mr_ic_foreach (&ic, visit, NULL), "visit succeeds");
  CHECK (visits == count, "every member is visited");
  for (i = 0; i < K; ++i)
    CHECK (seen[i] == present[i], "every member is visited once");
  if (ic.ic_type == MR_IC_RBTREE)
    CHECK (mr_rbtree_is_valid (&ic.rb, cmp, NULL), "valid red-black tree");
  if (ic.ic_type == MR_IC_AVLTREE)
    CHECK (mr_avltree_is_valid (&ic.avl, cmp, NULL), "valid AVL tree");
}
static void
step (void)
{
  int op = vh_pick (2 * K), i = op >> 1;
  mr_ptr_t key = { .uintptr = keys[i] };
#ifdef OOM
  vh_allocs = 0;
  vh_failed = false;
  vh_fail = vh_pick (2) - 1;
#endif
  if (op & 1)
    {
      mr_status_t st = mr_ic_del (&ic, key);
      CHECK (vh_failed || (st == MR_SUCCESS) == !!present[i], "only a member can be deleted");
      if (st == MR_SUCCESS || !vh_failed)
	present[i] = 0;
    }
  else
    {
      mr_ptr_t * add = mr_ic_add (&ic, key);
      CHECK (add != NULL || vh_failed, "add succeeds");
      CHECK (add == NULL || add->uintptr == keys[i], "add returns the element");
      if (add)
	present[i] = 1;
    }
#ifdef OOM
  vh_fail = -1;
#endif
}
void
harness (void)
{
  int i, j;
  mr_ptr_t init[M + 2];
  CHECK (mr_get_td_by_name ("int") != NULL, "library initialized");
  for (i = 0; i < K; ++i)
    {
#ifdef ANYKEY
      keys[i] = SYM (uintptr_t);
      for (j = 0; j < i; ++j)
	ASSUME (keys[i] != keys[j]);
#else
      keys[i] = i;
#endif
#ifdef ANYHASH
      hashes[i] = SYM (unsigned);
#else
      hashes[i] = HASH;
#endif
    }
  vh_mem_start ();
  CHECK (MR_SUCCESS == mr_ic_new (&ic, hash, cmp, "uintptr_t", IC, NULL), "collection created");
#if M > 0
  for (i = 0; i < M; ++i)
    {
      j = vh_pick (K);
#ifdef DISTINCT
      ASSUME (!present[j]);
#endif
      present[j] = 1;
      init[i].uintptr = keys[j];
    }
  CHECK (MR_SUCCESS == mr_ic_index (&ic, init, M * sizeof (init[0])), "index");
#endif
#ifdef PRE
  for (i = 0; i < PRE; ++i)
    {
      CHECK (NULL != mr_ic_add (&ic, (mr_ptr_t) { .uintptr = keys[i] }), "add succeeds");
      present[i] = 1;
    }
#endif
  verify ();
  for (i = 0; i < S; ++i)
    {
      step ();
      verify ();
    }
#ifdef REINDEX
  /* index replaces the content */
  for (i = 0; i < K; ++i)
    present[i] = 0;
  int n = vh_pick (3);
  for (i = 0; i < n; ++i)
    init[i].uintptr = keys[i];
  CHECK (MR_SUCCESS == mr_ic_index (&ic, init, n * sizeof (init[0])), "index");
  for (i = 0; i < n; ++i)
    present[i] = 1;
  verify ();
#endif
  mr_ic_free (&ic);
  for (i = 0; i < K; ++i)
    present[i] = 0;
  verify ();
  CHECK (vh_live == 0, "all memory is released");
  CHECK (NULL != mr_ic_add (&ic, (mr_ptr_t) { .uintptr = keys[0] }), "add succeeds");
  present[0] = 1;
  verify ();
  mr_ic_free (&ic);
  CHECK (vh_live == 0, "all memory is released");
  WITNESS ();
}
