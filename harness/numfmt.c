/* Integers appended to a bounded range: exact decimal digits, or nothing and the size needed. */
#include "vp.h"
#include "evfs/util/range_strings.h"
#define CAPMAX 13
/* WIN: values within 256 of every power of ten, of the ends of the type and of their halves; else every value up to MAXV */
static uint32_t draw(void) {
#ifdef WIN
  static const uint32_t base[] = { 1000000u-128, 10000000u-128, 100000000u-128, 1000000000u-128, 2000000000u, 0x7fffffffu-100, 0x80000000u, 0xffffffffu-255, 0u-1000000u-128, 0u-10000000u-128, 0u-1000000000u-128 };
  int k = vp_range(0, 10); uint32_t b = 0;
  for(int i = 0; i < 11; i++) if(i == k) b = base[i];
  return b + vp_u8();
#else
  uint32_t n = vp_uint();
# ifdef UNSIGNED
  vp_assume(n <= MAXV);
# else
  vp_assume((int32_t)n <= MAXV && (int32_t)n >= -MAXV);
# endif
  return n;
#endif
}
static void one(int cap, int pre) {
  char mem[CAPMAX+4];
  for(int i = 0; i < CAPMAX+4; i++) mem[i] = 'q';
  AppendRange r = { .start = &mem[2] + pre, .end = &mem[2] + cap };
  if(pre < cap) mem[2+pre] = 0;
  const int room = cap - pre;                     /* bytes left, the terminator included */
#ifdef UNSIGNED
  uint32_t n = draw(); const bool neg = false; const uint32_t mag = n;
  int rc = range_cat_uint(&r, n);
#else
  int32_t n = (int32_t)draw(); const bool neg = n < 0; const uint32_t mag = neg ? 0u - (uint32_t)n : (uint32_t)n;
  int rc = range_cat_int(&r, n);
#endif
  int digits = 1; { uint64_t p = 10; for(int i = 0; i < 9; i++) { if(mag >= p) digits++; p *= 10; } }
  const int need = digits + neg;
  if(need + 1 <= room) {
    vp_assert(rc == need, "the number of characters written is reported");
    vp_assert(r.start == &mem[2] + pre + need && r.end == &mem[2] + cap, "the range advances past the number");
    uint64_t v = 0; bool ok = true;
    for(int i = 0; i < 12; i++) if(i < need) {
      char c = mem[2+pre+i];
      if(i == 0 && neg) ok = ok && c == '-';
      else { ok = ok && c >= '0' && c <= '9'; v = v*10 + (uint64_t)(c - '0'); }
    }
    vp_assert(ok, "a minus sign for negative values, then digits only");
    vp_assert(v == mag, "the digits are the value");
    vp_assert(mem[2+pre+need] == 0, "the text is terminated");
    for(int i = 0; i < CAPMAX+4; i++) if(i < 2+pre || i > 2+pre+need) vp_assert(mem[i] == 'q', "nothing else is written");
    
#if CAP-PRE > 1 && !(defined WIN && CAP-PRE < 9)
    vp_reach("fits");
#endif
  } else {
    vp_assert(rc < 0, "a number that does not fit is reported");
    vp_assert(r.start == &mem[2] + pre && r.end == &mem[2] + cap, "the range stays when the number does not fit");
    if(room > 0) vp_assert(mem[2+pre] == 0, "the text stays when the number does not fit");
    for(int i = 0; i < CAPMAX+4; i++) if(i < 2+pre || i >= 2+cap) vp_assert(mem[i] == 'q', "nothing is written outside the range");
    
#if CAP-PRE < 6 || (defined WIN && CAP-PRE < 11)
    vp_reach("too small");
#endif
  }
}
void harness(void) { one(CAP, PRE); }
