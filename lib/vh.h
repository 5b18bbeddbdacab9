/* Common part of all harnesses.
   VH_CBMC defined: inputs are symbolic, checks are solver queries.
   VH_CBMC undefined: the same harness is an ordinary program which replays the
   input values of a counterexample (file named by $VH_INPUT) on the real code. */
#ifndef VH_H
#define VH_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef unsigned long long vh_ull;

#ifdef VH_CBMC

extern vh_ull nondet_vh_ull (void);
static vh_ull vh_nd (void) { vh_ull vh_ndv = nondet_vh_ull (); return (vh_ndv); }
#define ASSUME(C) __CPROVER_assume (C)
#define CHECK(C, MSG) __CPROVER_assert ((C), "VH: " MSG)
#define WITNESS() __CPROVER_assert (0, "VH_WITNESS")

#elif defined (VH_SYM) /* vsym: symbolic execution of the LLVM code */

extern vh_ull nondet_vh_ull (void);
extern void vsym_assume (int);
extern void vsym_check (int, const char *);
extern void vsym_witness (void);
static vh_ull __attribute__ ((unused)) vh_nd (void) { return (nondet_vh_ull ()); }
#define ASSUME(C) vsym_assume ((C) ? 1 : 0)
#define CHECK(C, MSG) vsym_check ((C) ? 1 : 0, MSG)
#define WITNESS() vsym_witness ()

#else /* native replay */

static FILE * vh_file = NULL;
static void __attribute__ ((unused)) vh_exit (int rc) { fflush (stdout); fflush (stderr); _exit (rc); }
extern void _exit (int);
static vh_ull __attribute__ ((unused))
vh_nd (void)
{
  vh_ull v = 0;
  if (NULL == vh_file)
    {
      const char * name = getenv ("VH_INPUT");
      vh_file = name ? fopen (name, "r") : NULL;
      if (NULL == vh_file)
	return (0);
    }
  if (1 != fscanf (vh_file, "%llu", &v))
    v = 0;
  return (v);
}
#define ASSUME(C) do { if (!(C)) { fprintf (stderr, "VH_ASSUME_FALSE %s:%d\n", __FILE__, __LINE__); _exit (77); } } while (0)
#define CHECK(C, MSG) do { if (!(C)) { fprintf (stderr, "VH_CHECK_FAILED %s\n", MSG); fflush (stderr); _exit (3); } } while (0)
#define WITNESS() do { fprintf (stderr, "VH_END\n"); } while (0)

#endif

#define ND(T) ((T) vh_nd ())
static vh_ull __attribute__ ((unused))
vh_range (vh_ull lo, vh_ull hi)
{
  vh_ull v = vh_nd ();
  ASSUME (v >= lo && v <= hi);
  return (v);
}
#define ND_BOOL() (vh_range (0, 1) != 0)

#define VH_TEXT_(X) #X
#define VH_TEXT(X) VH_TEXT_ (X)
#define SRC(F) VH_TEXT (VH_SRC/F)

#endif
