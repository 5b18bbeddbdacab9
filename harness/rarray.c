/* C08: growth of resizable arrays, with allocation failing at any point. */
#include "vh_core.h"

static unsigned char * cur;
static size_t cur_size;
static bool oom;
static void *
h_realloc (const char * f, const char * fn, int line, void * ptr, size_t size)
{
  CHECK (ptr == (void*)cur, "only the array's own block is reallocated");
  oom = ND_BOOL ();
  if (oom)
    return (NULL);
  unsigned char * p = malloc (size);
  ASSUME (p != NULL);
  size_t i;
  for (i = 0; (i < cur_size) && (i < size); ++i)
    p[i] = cur[i];
  free (cur);
  cur = p;
  cur_size = size;
  return (p);
}
void
harness (void)
{
  mr_rarray_t ra;
  memset (&ra, 0, sizeof (ra));
  mr_conf.mr_mem.realloc = h_realloc;
  unsigned char model[STEPS * MAXEL + 1];
  ssize_t n = 0;
  unsigned s;
  for (s = 0; s < STEPS; ++s)
    {
      ssize_t el = vh_range (0, MAXEL);
      ssize_t before = ra.MR_SIZE, alloc_before = ra.alloc_size;
      void * data_before = ra.data.ptr;
      oom = false;
      unsigned char * p = mr_rarray_append (&ra, el);
      ssize_t i;
      if (oom)
	{
	  CHECK (p == NULL, "failed growth reports NULL");
	  CHECK (ra.MR_SIZE == before, "failed growth leaves the size");
	  CHECK (ra.alloc_size == alloc_before, "failed growth leaves the capacity");
	  CHECK (ra.data.ptr == data_before, "failed growth leaves the block");
	}
      else if (el > 0 || ra.data.ptr != NULL)
	{
	  CHECK (p == &((unsigned char*)ra.data.ptr)[n], "append returns the place after the previous content");
	  CHECK (ra.MR_SIZE == n + el, "append extends the size by the element size");
	  CHECK (ra.data.ptr == (void*)cur, "array points to its block");
	  CHECK (ra.MR_SIZE <= ra.alloc_size, "size never exceeds capacity");
	  CHECK (ra.alloc_size <= (ssize_t)cur_size, "capacity never exceeds the allocated block");
	  for (i = 0; i < MAXEL; ++i)
	    if (i < el)
	      p[i] = model[n + i] = ND (uint8_t);
	  n += el;
	}
      for (i = 0; i < STEPS * MAXEL; ++i)
	if (i < n)
	  CHECK (((unsigned char*)ra.data.ptr)[i] == model[i], "content survives growth");
    }
  WITNESS ();
}
