/* C02: mr_strtouintmax against an independent reference. */
#include "vh_core.h"

static int
digit (char c)
{
  if (c >= '0' && c <= '9') return (c - '0');
  if (c >= 'a' && c <= 'z') return (c - 'a' + 10);
  if (c >= 'A' && c <= 'Z') return (c - 'A' + 10);
  return (99);
}
void
harness (void)
{
  char str[LEN + 1];
  unsigned i;
  for (i = 0; i < LEN; ++i)
    {
      str[i] = ND (uint8_t);
      ASSUME (((unsigned char)str[i]) < 128);
    }
  str[LEN] = 0;
  static int bases[] = { 0, 8, 10, 16 };
  int base = bases[vh_range (0, 3)];
  char * end = NULL;
  mr_uintmax_t got = mr_strtouintmax (str, &end, base);

  unsigned p = 0;
  while (str[p] == ' ' || (str[p] >= 9 && str[p] <= 13))
    ++p;
  bool neg = str[p] == '-';
  if (str[p] == '-' || str[p] == '+')
    ++p;
  mr_uintmax_t want = 0;
  if (digit (str[p]) > 9)
    p = 0;
  else
    {
      if ((base == 0 || base == 16) && str[p] == '0' && (str[p + 1] == 'x' || str[p + 1] == 'X'))
	{
	  p += 2;
	  base = 16;
	}
      else if (base == 0)
	base = str[p] == '0' ? 8 : 10;
      for ( ; digit (str[p]) < base; ++p)
	want = want * base + digit (str[p]);
      if (neg)
	want = -want;
    }
  CHECK (got == want, "parsed integer has the value of its text");
  CHECK (end == &str[p], "end pointer stops after the last digit");
  WITNESS ();
}
