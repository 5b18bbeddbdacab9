/* C library functions the executed code calls, written over plain bytes so
   that they can run on symbolic text.  Linked into every symbolic program. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#undef errno

static int vsym_errno;
int * __errno_location (void) { return (&vsym_errno); }
void * stdin, * stdout, * stderr;

extern void vsym_digits (unsigned long long v, unsigned count, char * dst);
extern int vsym_fprint (char * dst, size_t size, const char * fmt, long double value);
extern long double vsym_strtold (const char * s, size_t * used, int kind);

#define IS(NAME, C) int NAME (int c) { return (C); }
IS (isdigit, (unsigned)c - '0' < 10)
IS (isupper, (unsigned)c - 'A' < 26)
IS (islower, (unsigned)c - 'a' < 26)
IS (isalpha, ((unsigned)c | 32) - 'a' < 26)
IS (isalnum, (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10))
IS (isspace, (c == ' ') | ((unsigned)c - '\t' < 5))
IS (isprint, (unsigned)c - 0x20 < 0x5f)
IS (isgraph, (unsigned)c - 0x21 < 0x5e)
IS (ispunct, ((unsigned)c - 0x21 < 0x5e) & !((((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10)))
IS (iscntrl, ((unsigned)c < 0x20) | (c == 0x7f))
IS (isxdigit, ((unsigned)c - '0' < 10) | (((unsigned)c | 32) - 'a' < 6))
int tolower (int c) { return ((unsigned)c - 'A' < 26 ? c + 32 : c); }
int toupper (int c) { return ((unsigned)c - 'a' < 26 ? c - 32 : c); }

int strcmp (const char * a, const char * b)
{
  for (; *a && *a == *b; a++, b++);
  return ((int)*(const unsigned char *)a - (int)*(const unsigned char *)b);
}
int strncmp (const char * a, const char * b, size_t n)
{
  for (; n; a++, b++, n--)
    {
      if (*a != *b)
	return ((int)*(const unsigned char *)a - (int)*(const unsigned char *)b);
      if (!*a)
	break;
    }
  return (0);
}
int strcasecmp (const char * a, const char * b)
{
  for (; *a && tolower (*(const unsigned char *)a) == tolower (*(const unsigned char *)b); a++, b++);
  return (tolower (*(const unsigned char *)a) - tolower (*(const unsigned char *)b));
}
int strncasecmp (const char * a, const char * b, size_t n)
{
  for (; n; a++, b++, n--)
    {
      int x = tolower (*(const unsigned char *)a), y = tolower (*(const unsigned char *)b);
      if (x != y)
	return (x - y);
      if (!x)
	break;
    }
  return (0);
}
char * strchr (const char * s, int c) { for (;; s++) { if (*s == (char)c) return ((char*)s); if (!*s) return (NULL); } }
char * strrchr (const char * s, int c) { const char * r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return ((char*)r); } }
size_t strnlen (const char * s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++); return (i); }
char * strcpy (char * d, const char * s) { char * r = d; while ((*d++ = *s++)); return (r); }
char * strncpy (char * d, const char * s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return (d); }
char * strcat (char * d, const char * s) { strcpy (d + strlen (d), s); return (d); }
void * memchr (const void * s, int c, size_t n) { const unsigned char * p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return ((void*)p); return (NULL); }
char * strstr (const char * h, const char * n) { size_t l = strlen (n); for (;; h++) { if (0 == strncmp (h, n, l)) return ((char*)h); if (!*h) return (NULL); } }
size_t strspn (const char * s, const char * set) { size_t i; for (i = 0; s[i] && strchr (set, s[i]); i++); return (i); }
size_t strcspn (const char * s, const char * set) { size_t i; for (i = 0; s[i] && !strchr (set, s[i]); i++); return (i); }
char * strdup (const char * s) { size_t l = strlen (s) + 1; char * d = malloc (l); if (d) memcpy (d, s, l); return (d); }
char * getenv (const char * n) { return (NULL); }

static unsigned long long
scan_int (const char * s, const char ** end, int base, int width, bool * neg, bool * ovf)
{
  const char * p = s;
  unsigned long long v = 0;
  bool any = false;
  int count = 0;
  *neg = *ovf = false;
  if (width > 0 && (*p == '-' || *p == '+'))
    {
      *neg = *p == '-';
      p++, width--;
    }
  if ((base == 0 || base == 16) && width > 1 && p[0] == '0' && (p[1] | 32) == 'x')
    {
      if (width > 2 && isxdigit ((unsigned char)p[2]))
	p += 2, width -= 2, base = 16;
      else
	{
	  *end = p + 1;
	  return (0);
	}
    }
  if (base == 0)
    base = (width > 0 && *p == '0') ? 8 : 10;
  for (; width > 0; p++, width--)
    {
      int c = (unsigned char)*p, d;
      if (isdigit (c)) d = c - '0';
      else if (isalpha (c)) d = (c | 32) - 'a' + 10;
      else break;
      if (d >= base) break;
      any = true;
      if (++count <= (base == 16 ? 16 : base == 10 ? 19 : base == 8 ? 21 : 0))
	v = v * base + d; /* cannot overflow */
      else
	{
	  unsigned __int128 t = (unsigned __int128)v * base + d;
	  if (t >> 64) *ovf = true;
	  v = (unsigned long long)t;
	}
    }
  *end = any ? p : s;
  return (v);
}
unsigned long long strtoull (const char * s, char ** e, int base)
{
  const char * p = s, * q;
  bool neg, ovf;
  while (isspace ((unsigned char)*p)) p++;
  unsigned long long v = scan_int (p, &q, base, 1 << 30, &neg, &ovf);
  if (q == p) q = s;
  if (e) *e = (char*)q;
  if (ovf) { vsym_errno = ERANGE; return (~0ull); }
  return (neg ? -v : v);
}
unsigned long long __isoc23_strtoull (const char * s, char ** e, int b) { return (strtoull (s, e, b)); }
unsigned long strtoul (const char * s, char ** e, int b) { return (strtoull (s, e, b)); }
unsigned long __isoc23_strtoul (const char * s, char ** e, int b) { return (strtoull (s, e, b)); }
uintmax_t strtoumax (const char * s, char ** e, int b) { return (strtoull (s, e, b)); }
uintmax_t __isoc23_strtoumax (const char * s, char ** e, int b) { return (strtoull (s, e, b)); }
long long strtoll (const char * s, char ** e, int base)
{
  const char * p = s, * q;
  bool neg, ovf;
  while (isspace ((unsigned char)*p)) p++;
  unsigned long long v = scan_int (p, &q, base, 1 << 30, &neg, &ovf);
  if (q == p) q = s;
  if (e) *e = (char*)q;
  if (ovf || v > (neg ? 1ull << 63 : ~(1ull << 63))) { vsym_errno = ERANGE; return (neg ? (long long)(1ull << 63) : ~(1ull << 63)); }
  return (neg ? -v : v);
}
long long __isoc23_strtoll (const char * s, char ** e, int b) { return (strtoll (s, e, b)); }
long strtol (const char * s, char ** e, int b) { return (strtoll (s, e, b)); }
long __isoc23_strtol (const char * s, char ** e, int b) { return (strtoll (s, e, b)); }
int atoi (const char * s) { return ((int)strtoll (s, NULL, 10)); }
extern void vsym_assume (int);
__attribute__ ((weak)) int vh_no_floats = 0; /* a harness may put texts with floating point literals out of its bounds */
static long double fl (const char * s, char ** e, int k) { if (vh_no_floats) vsym_assume (0); size_t used = 0; long double d = vsym_strtold (s, &used, k); if (e) *e = (char*)s + used; return (d); }
float strtof (const char * s, char ** e) { return (fl (s, e, 0)); }
double strtod (const char * s, char ** e) { return (fl (s, e, 1)); }
long double strtold (const char * s, char ** e) { return (fl (s, e, 2)); }

/* sscanf: %[width][hh|h|l|ll]{d,i,u,o,x,c,s,n}, literals, blanks */
static int
vscan (const char * s, const char * f, va_list a)
{
  const char * p = s;
  int cnt = 0;
  for (; *f; f++)
    {
      if (isspace ((unsigned char)*f)) { while (isspace ((unsigned char)*p)) p++; continue; }
      if (*f != '%') { if (*p != *f) return (*p == 0 && cnt == 0 ? -1 : cnt); p++; continue; }
      f++;
      if (*f == '%') { if (*p != '%') return (cnt); p++; continue; }
      int width = 0, len = 4;
      bool skip = false;
      if (*f == '*') skip = true, f++;
      while (isdigit ((unsigned char)*f)) width = width * 10 + *f++ - '0';
      if (*f == 'h') { len = 2; f++; if (*f == 'h') { len = 1; f++; } }
      else if (*f == 'l') { len = 8; f++; if (*f == 'l') f++; }
      else if (*f == 'j' || *f == 'z' || *f == 't') { len = 8; f++; }
      if (*f == 'n') { *va_arg (a, int *) = p - s; continue; }
      if (*f == 'c') { if (!*p) return (cnt ? cnt : -1); if (!skip) *va_arg (a, char *) = *p, cnt++; p++; continue; }
      while (isspace ((unsigned char)*p)) p++;
      if (!*p) return (cnt ? cnt : -1);
      if (*f == 's')
	{
	  char * d = skip ? NULL : va_arg (a, char *);
	  for (; *p && !isspace ((unsigned char)*p) && (width == 0 || width-- > 1 || (width = -1)); p++) { if (d) *d++ = *p; if (width == -1) { p++; break; } }
	  if (d) *d = 0, cnt++;
	  continue;
	}
      int base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : *f == 'd' || *f == 'u' ? 10 : -1;
      if (base < 0) abort ();
      const char * q;
      bool neg, ovf;
      unsigned long long v = scan_int (p, &q, base, width ? width : 1 << 30, &neg, &ovf);
      if (q == p) return (cnt);
      p = q;
      if (neg) v = -v;
      if (*f == 'p') len = 8;
      if (!skip)
	{
	  void * d = va_arg (a, void *);
	  if (len == 1) *(uint8_t*)d = v; else if (len == 2) *(uint16_t*)d = v; else if (len == 4) *(uint32_t*)d = v; else *(uint64_t*)d = v;
	  cnt++;
	}
    }
  return (cnt);
}
int sscanf (const char * s, const char * f, ...) { va_list a; va_start (a, f); int r = vscan (s, f, a); va_end (a); return (r); }
int __isoc99_sscanf (const char * s, const char * f, ...) { va_list a; va_start (a, f); int r = vscan (s, f, a); va_end (a); return (r); }
int __isoc23_sscanf (const char * s, const char * f, ...) { va_list a; va_start (a, f); int r = vscan (s, f, a); va_end (a); return (r); }

struct out { char * d; size_t size, n; };
static void put (struct out * o, char c) { if (o->d && o->n + 1 < o->size) o->d[o->n] = c; o->n++; }
int
vsnprintf (char * d, size_t size, const char * f, va_list a)
{
  struct out o = { d, size, 0 };
  for (; *f; f++)
    {
      if (*f != '%') { put (&o, *f); continue; }
      const char * spec = f++;
      bool left = false, zero = false, plus = false, space = false, alt = false;
      for (;; f++)
	if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break;
      int width = 0, prec = -1, len = 4;
      if (*f == '*') { width = va_arg (a, int); if (width < 0) left = true, width = -width; f++; }
      else while (isdigit ((unsigned char)*f)) width = width * 10 + *f++ - '0';
      if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg (a, int); f++; } else while (isdigit ((unsigned char)*f)) prec = prec * 10 + *f++ - '0'; }
      bool L = false;
      if (*f == 'h') { len = 2; f++; if (*f == 'h') { len = 1; f++; } }
      else if (*f == 'l') { len = 8; f++; if (*f == 'l') f++; }
      else if (*f == 'j' || *f == 'z' || *f == 't') { len = 8; f++; }
      else if (*f == 'L') { L = true; f++; }
      char c = *f;
      char buf[128];
      const char * body = buf;
      int blen = 0;
      char pre[4];
      int npre = 0;
      if (c == '%') { put (&o, '%'); continue; }
      else if (c == 'c') { buf[0] = (char)va_arg (a, int); blen = 1; zero = false; }
      else if (c == 's')
	{
	  body = va_arg (a, const char *);
	  if (NULL == body) body = "(null)";
	  blen = prec >= 0 ? (int)strnlen (body, prec) : (int)strlen (body);
	  zero = false;
	}
      else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p')
	{
	  unsigned long long v;
	  if (c == 'p') v = (unsigned long long)va_arg (a, void *), alt = true;
	  else if (len == 8) v = va_arg (a, unsigned long long);
	  else v = va_arg (a, unsigned int);
	  if (c == 'd' || c == 'i')
	    {
	      long long s = len == 1 ? (signed char)v : len == 2 ? (short)v : len == 4 ? (int)v : (long long)v;
	      if (s < 0) { pre[npre++] = '-'; v = -(unsigned long long)s; }
	      else { v = s; if (plus) pre[npre++] = '+'; else if (space) pre[npre++] = ' '; }
	    }
	  else
	    v = len == 1 ? (unsigned char)v : len == 2 ? (unsigned short)v : len == 4 && c != 'p' ? (unsigned int)v : v;
	  unsigned base = c == 'o' ? 8 : c == 'x' || c == 'X' || c == 'p' ? 16 : 10;
	  if (alt && v && base == 16) { pre[npre++] = '0'; pre[npre++] = c == 'X' ? 'X' : 'x'; }
	  char * q = buf + sizeof (buf);
	  int n = 0;
	  /* the number of digits is decided by comparisons with powers of the base */
	  unsigned long long t = v, lim = base;
	  int digits = v == 0 && prec == 0 ? 0 : 1;
	  for (; v >= lim && digits; )
	    {
	      digits++;
	      if (lim > ~0ull / base)
		break;
	      lim *= base;
	    }
	  if (base == 10)
	    {
	      q -= digits;
	      vsym_digits (v, digits, q);
	      n = digits;
	    }
	  else
	  for (n = 0; n < digits; n++)
	    {
	      unsigned x = t % base;
	      t /= base;
	      *--q = x < 10 ? '0' + x : (c == 'X' ? 'A' : 'a') + x - 10;
	    }
	  if (alt && base == 8 && (n == 0 || *q != '0')) { *--q = '0'; n++; }
	  if (prec >= 0) zero = false;
	  for (; n < prec; n++) *--q = '0';
	  body = q;
	  blen = n;
	}
      else if (strchr ("aAeEfFgG", c))
	{
	  char fm[32];
	  int n = f - spec + 1;
	  long double v = L ? va_arg (a, long double) : va_arg (a, double);
	  if (n >= (int)sizeof (fm)) abort ();
	  memcpy (fm, spec, n);
	  fm[n] = 0;
	  char big[512];
	  blen = vsym_fprint (big, sizeof (big), fm, v);
	  for (int i = 0; i < blen; i++) put (&o, big[i]);
	  continue;
	}
      else
	abort ();
      int pad = width - npre - blen;
      if (!left && !zero) for (; pad > 0; pad--) put (&o, ' ');
      for (int i = 0; i < npre; i++) put (&o, pre[i]);
      if (!left && zero) for (; pad > 0; pad--) put (&o, '0');
      for (int i = 0; i < blen; i++) put (&o, body[i]);
      for (; pad > 0; pad--) put (&o, ' ');
    }
  if (d && size) d[o.n < size ? o.n : size - 1] = 0;
  return (o.n);
}
int snprintf (char * d, size_t n, const char * f, ...) { va_list a; va_start (a, f); int r = vsnprintf (d, n, f, a); va_end (a); return (r); }
int sprintf (char * d, const char * f, ...) { va_list a; va_start (a, f); int r = vsnprintf (d, ~0ul >> 1, f, a); va_end (a); return (r); }
int vsprintf (char * d, const char * f, va_list a) { return (vsnprintf (d, ~0ul >> 1, f, a)); }

typedef void FILE_;
int fprintf (FILE_ * s, const char * f, ...) { return (0); }
int vfprintf (FILE_ * s, const char * f, va_list a) { return (0); }
int printf (const char * f, ...) { return (0); }
int puts (const char * f) { return (0); }
int fflush (FILE_ * s) { return (0); }
size_t fwrite (const void * p, size_t n, size_t m, FILE_ * s) { return (m); }
size_t fread (void * p, size_t n, size_t m, FILE_ * s) { return (0); }
int getc (FILE_ * s) { return (-1); }
int fgetc (FILE_ * s) { return (-1); }
int ferror (FILE_ * s) { return (0); }
void clearerr (FILE_ * s) { }
int fputs (const char * f, FILE_ * s) { return (0); }
int fputc (int c, FILE_ * s) { return (c); }
int putchar (int c) { return (c); }
int backtrace (void ** b, int n) { return (0); }
char ** backtrace_symbols (void * const * b, int n) { return (NULL); }
int dladdr (const void * a, void * i) { return (0); }
void * dlsym (void * h, const char * n) { return (NULL); }

/* compiler support */
_Complex long double __mulxc3 (long double a, long double b, long double c, long double d) { _Complex long double r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return (r); }
_Complex double __muldc3 (double a, double b, double c, double d) { _Complex double r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return (r); }
_Complex float __mulsc3 (float a, float b, float c, float d) { _Complex float r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return (r); }
_Complex long double __divxc3 (long double a, long double b, long double c, long double d) { long double q = c * c + d * d; _Complex long double r; __real__ r = (a * c + b * d) / q; __imag__ r = (b * c - a * d) / q; return (r); }
