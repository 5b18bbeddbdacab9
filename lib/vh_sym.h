/* Common part of the harnesses executed by vsym: the whole library is linked
   in unchanged, the harness is a client of its public interface. */
#ifndef VH_SYM_H
#define VH_SYM_H
#include "vh.h"
#include <ctype.h>
#include <metaresc.h>

/* arbitrary value of an integer type */
#define SYM(T) ((T) vh_nd ())

/* a choice among n possibilities, one path each */
#if defined (VH_SYM)
extern vh_ull vsym_pick (vh_ull);
#else
#define vsym_pick(V) (V)
#endif
static int __attribute__ ((unused)) vh_pick (int n) { return ((int) vsym_pick (vh_range (0, n - 1))); }

#if !defined (VH_SYM)
extern void harness (void);
int main (void) { harness (); return (0); }
#endif
#endif
