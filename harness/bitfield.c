/* C01: bit-field access through a descriptor equals the C language meaning:
   bit i of the value is bit (shift + i) of the little endian memory image. */
#include "vh_core.h"

#ifndef NBYTES
#define NBYTES 17
#endif

static mr_ed_t * no_enums[] = { NULL };
void
harness (void)
{
  uint8_t mem[NBYTES + 2], old[NBYTES + 2];
  unsigned i;
  unsigned shift = vh_range (0, 7);
  unsigned width = vh_range (WLO, WHI);
  for (i = 0; i < sizeof (mem); ++i)
    mem[i] = old[i] = ND (uint8_t);
  unsigned type_idx = vh_range (0, 12);
  static mr_type_t types[] = { MR_TYPE_INT8, MR_TYPE_UINT8, MR_TYPE_INT16, MR_TYPE_UINT16, MR_TYPE_INT32, MR_TYPE_UINT32,
    MR_TYPE_INT64, MR_TYPE_UINT64, MR_TYPE_INT128, MR_TYPE_UINT128, MR_TYPE_BOOL, MR_TYPE_CHAR, MR_TYPE_ENUM };
  static bool is_signed[] = { true, false, true, false, true, false, true, false, true, false, false, false, false };
  mr_type_t type = types[type_idx];
  bool sign = is_signed[type_idx];
  mr_td_t td = { .type = { .str = "e" }, .mr_type = MR_TYPE_ENUM, .param = { .enum_param = { .enums = no_enums, } } };
  mr_fd_t fd = { .stype = { .mr_type = MR_TYPE_BITFIELD, .mr_type_aux = type, .tdp = &td } };
  if (MR_TYPE_ENUM == type)
    {
      unsigned eff = vh_range (0, 9);
      td.param.enum_param.mr_type_effective = types[eff];
      sign = is_signed[eff];
    }
  fd.bitfield_param.shift = shift;
  fd.bitfield_param.width = width;
  mr_ptrdes_t ptrdes = { .data = { &mem[1] }, .fdp = &fd, .mr_type = MR_TYPE_BITFIELD, .mr_type_aux = type };

  mr_uintmax_t got = 0, want = 0;
#define BIT(M, I) (((M)[1 + ((I) >> 3)] >> ((I) & 7)) & 1)

#ifdef READ
  CHECK (MR_SUCCESS == mr_save_bitfield_value (&ptrdes, &got), "reading a bit-field succeeds");
  for (i = 0; i < 128; ++i)
    {
      unsigned bit = i < width ? BIT (old, shift + i) : (sign ? BIT (old, shift + width - 1) : 0);
      want |= ((mr_uintmax_t)bit) << i;
    }
  CHECK (got == want, "bit-field read returns the stored bits, sign extended for signed types");
  for (i = 0; i < sizeof (mem); ++i)
    CHECK (mem[i] == old[i], "bit-field read leaves memory alone");
#else
  mr_uintmax_t value = ((mr_uintmax_t)ND (uint64_t) << 64) | ND (uint64_t);
  mr_uintmax_t copy = value;
  CHECK (MR_SUCCESS == mr_load_bitfield_value (&ptrdes, &value), "writing a bit-field succeeds");
  CHECK (value == copy, "source value unchanged");
  CHECK ((mem[0] == old[0]) && (mem[NBYTES + 1] == old[NBYTES + 1]), "bytes outside are unchanged");
  for (i = 0; i < NBYTES * 8; ++i)
    {
      unsigned bit = ((i >= shift) && (i < shift + width)) ? ((value >> (i - shift)) & 1) : BIT (old, i);
      CHECK (bit == BIT (mem, i), "bit-field write stores exactly its own bits");
    }
#endif
  WITNESS ();
}
