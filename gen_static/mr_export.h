/* src/mr_export.h.  Generated from mr_export.h.in by configure.  */

/* Bison & Flex found */
#define HAVE_BISON_FLEX /**/

/* define if __builtin_dump_struct is present */
/* #undef HAVE_BUILTIN_DUMP_STRUCT */

/* define if __builtin_dump_struct supports extra args */
/* #undef HAVE_BUILTIN_DUMP_STRUCT_EXTRA_ARGS */

/* define if libxml2 is present */
#define HAVE_LIBXML2 /**/

/* define if libyaml is present */
#define HAVE_LIBYAML /**/

/* Define to 1 if you have the <rpc/types.h> header file. */
#define HAVE_RPC_TYPES_H 1

/* Preprocessor routines depth */
#define MR_PP_DEPTH 256

/* type of union discriminators indexes */
#define MR_RA_UD_IDX_TYPE uint8_t

/* define if __int128 is supported */
#define MR_HAVE_INT128 /**/

/* long double significant bytes */
#define MR_SIZEOF_LONG_DOUBLE 10

/* sizeof char in bits */
#define MR_SIZEOF_CHAR 8

/* sizeof short in bits */
#define MR_SIZEOF_SHORT 16

/* sizeof int in bits */
#define MR_SIZEOF_INT 32

/* sizeof long in bits */
#define MR_SIZEOF_LONG 64

/* sizeof long long in bits */
#define MR_SIZEOF_LONG_LONG 64
