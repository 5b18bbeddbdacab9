/* Allocator of the library which counts the live blocks and fails on demand. */
#ifndef VH_MEM_H
#define VH_MEM_H
static int vh_live = 0;		/* blocks allocated and not yet freed */
static int vh_allocs = 0;	/* allocation requests so far */
static int vh_fail = -1;	/* this request, and with vh_fail_all every later one, fails */
static bool vh_fail_all = false;
static bool vh_failed = false;	/* some request failed */

static bool
vh_refuse (void)
{
  int n = vh_allocs++;
  if ((vh_fail < 0) || !((n == vh_fail) || (vh_fail_all && (n > vh_fail))))
    return (false);
  vh_failed = true;
  return (true);
}

/* requests whose size comes from the input are served up to VH_MAX_ALLOC bytes, bigger ones are refused */
#ifndef VH_MAX_ALLOC
#define vh_too_big(N) false
#elif defined (VH_SYM)
extern vh_ull vsym_issym (vh_ull);
static bool vh_too_big (size_t n) { return (vsym_issym (n) && (n > VH_MAX_ALLOC)); }
#else
static bool vh_too_big (size_t n) { return (n > (1 << 16)); }
#endif

static void *
vh_calloc (const char * file, const char * func, int line, size_t count, size_t size)
{
  void * p = (vh_refuse () || vh_too_big (count * size)) ? NULL : calloc (count, size);
  vh_live += (p != NULL);
  return (p);
}

static void *
vh_realloc (const char * file, const char * func, int line, void * ptr, size_t size)
{
  void * p = (vh_refuse () || vh_too_big (size)) ? NULL : realloc (ptr, size);
  vh_live += (p != NULL) && (ptr == NULL);
  return (p);
}

static void
vh_free (const char * file, const char * func, int line, void * ptr)
{
  vh_live -= (ptr != NULL);
  free (ptr);
}

/* from here on the library uses the allocator above */
static void __attribute__ ((unused))
vh_mem_start (void)
{
  mr_conf_init ();
  mr_conf.mr_mem.calloc = vh_calloc;
  mr_conf.mr_mem.realloc = vh_realloc;
  mr_conf.mr_mem.free = vh_free;
  vh_live = vh_allocs = 0;
  vh_fail = -1;
  vh_failed = vh_fail_all = false;
}
#endif
