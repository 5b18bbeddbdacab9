/* C08: one growth step from an arbitrary valid (size, capacity) pair. */
#include "vh_core.h"

static size_t asked;
static unsigned calls;
static char block[8];
static void *
h_realloc (const char * f, const char * fn, int line, void * ptr, size_t size)
{
  ++calls;
  asked = size;
  return (ND_BOOL () ? block : NULL);
}
void
harness (void)
{
  mr_conf.mr_mem.realloc = h_realloc;
  void * data = block;
  ssize_t size = ND (ssize_t), alloc = ND (ssize_t), el = ND (ssize_t);
  ASSUME (size <= alloc && alloc >= 0);
  ASSUME (size < ((ssize_t)1 << 62) && el < ((ssize_t)1 << 62));
  ssize_t size_ = size, alloc_ = alloc;
  unsigned null_arg = vh_range (0, 3);
  char * p = mr_rarray_allocate_element (null_arg == 1 ? NULL : &data, null_arg == 2 ? NULL : &size, null_arg == 3 ? NULL : &alloc, el);
  if (null_arg || size_ < 0 || el < 0)
    {
      CHECK (p == NULL && calls == 0, "invalid arguments are refused");
      CHECK (size == size_ && alloc == alloc_ && data == block, "refused call changes nothing");
    }
  else if (p == NULL)
    {
      CHECK (calls == 1, "NULL only if memory is exhausted");
      CHECK (size == size_ && alloc == alloc_ && data == block, "failed growth changes nothing");
    }
  else
    {
      CHECK (size == size_ + el, "size extended by the element size");
      CHECK (size <= alloc, "size never exceeds capacity");
      CHECK ((calls == 0) ? (alloc == alloc_) : ((size_t)alloc <= asked), "capacity is what was really allocated");
      CHECK (p == (char*)data + size_, "element follows previous content");
    }
  WITNESS ();
}
