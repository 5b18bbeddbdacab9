/* Wrapper found before /repo/src/mr_protos.h on the include path.
   The prototype pass (normal include from metaresc.h) goes straight to the
   real header.  The descriptor pass of metaresc.c (MR_MODE DESC) is skipped:
   it only creates the static self-descriptors of the library's own types and
   CBMC's front end does not get through it.  With -DVH_WITH_DESC it is kept
   (native builds). */
#if defined (MR_MODE_UNDEFINED) || defined (VH_WITH_DESC)
# include VH_REAL_PROTOS
#endif
