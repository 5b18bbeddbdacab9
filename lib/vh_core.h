/* Includes the real metaresc.c (and through it metaresc.h) into a harness.
   - mr_conf_init is replaced by an empty function: harnesses build the state
     they need themselves (macro VH_REAL_CONF_INIT keeps the real one);
   - "volatile" is dropped, CBMC treats volatile reads as arbitrary values;
   - constructors/destructors become ordinary unused functions. */
#ifndef VH_CORE_H
#define VH_CORE_H
#include "vh.h"
#include <setjmp.h>
#include <inttypes.h>
#include <unistd.h>
#include <ctype.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <complex.h>
#include <errno.h>
#define constructor unused
#define destructor unused
#include <metaresc.h>
#define volatile
#ifndef VH_REAL_CONF_INIT
#define mr_conf_init vh_real_conf_init
#endif
#include "metaresc.c"
#undef volatile
#ifndef VH_REAL_CONF_INIT
#undef mr_conf_init
void mr_conf_init (void) {}
#endif
#ifndef VH_REAL_MESSAGE
void
mr_message (const char * file_name, const char * func_name, int line, mr_log_level_t log_level, mr_message_id_t message_id, ...)
{
}
#endif
#ifndef VH_CBMC
extern void harness (void);
int main () { harness (); return (0); }
#endif
#endif
