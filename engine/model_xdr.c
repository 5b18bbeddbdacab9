/* libtirpc's XDR primitives, restated over the stream operations of the XDR handle. */
#include <rpc/types.h>
#include <rpc/xdr.h>
#include <stdint.h>

static bool_t getl (XDR * x, long * l) { return (*x->x_ops->x_getlong) (x, l); }
static bool_t putl (XDR * x, long l) { return (*x->x_ops->x_putlong) (x, &l); }

#define INT(NAME, T)							\
  bool_t NAME (XDR * x, T * p)						\
  {									\
    long l = 0;								\
    switch (x->x_op)							\
      {									\
      case XDR_ENCODE: return (putl (x, (long)*p));			\
      case XDR_DECODE: if (!getl (x, &l)) return (FALSE); *p = (T)l; return (TRUE); \
      case XDR_FREE: return (TRUE);					\
      }									\
    return (FALSE);							\
  }
INT (xdr_int, int)
INT (xdr_int16_t, int16_t)
INT (xdr_uint16_t, uint16_t)
INT (xdr_int32_t, int32_t)
INT (xdr_uint32_t, uint32_t)

bool_t xdr_void (void) { return (TRUE); }

bool_t xdr_float (XDR * x, float * f) { return (xdr_int32_t (x, (int32_t*)f)); }

bool_t xdr_double (XDR * x, double * d)
{
  int32_t * p = (int32_t*)d;
  if (!xdr_int32_t (x, p + 1))
    return (FALSE);
  return (xdr_int32_t (x, p));
}

bool_t xdr_opaque (XDR * x, char * cp, u_int cnt)
{
  static char zero[4];
  char crud[4];
  u_int rndup;
  if (cnt == 0)
    return (TRUE);
  rndup = cnt % 4;
  if (rndup)
    rndup = 4 - rndup;
  switch (x->x_op)
    {
    case XDR_ENCODE:
      if (!(*x->x_ops->x_putbytes) (x, cp, cnt))
	return (FALSE);
      return (rndup ? (*x->x_ops->x_putbytes) (x, zero, rndup) : TRUE);
    case XDR_DECODE:
      if (!(*x->x_ops->x_getbytes) (x, cp, cnt))
	return (FALSE);
      return (rndup ? (*x->x_ops->x_getbytes) (x, crud, rndup) : TRUE);
    case XDR_FREE:
      return (TRUE);
    }
  return (FALSE);
}
