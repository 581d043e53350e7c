/* search_exact / search_nearest* over every sorted table of up to N items */
#include "vp.h"
#include "util/search.h"
#ifndef N
#define N 6
#endif
static const int *s_base; static size_t s_num; static const int *s_key; static bool s_oob;
static ptrdiff_t cmp(const void *a, const void *b) {
  const int *x = a, *y = b;
  /* one side is the key, the other an item of the table */
  const int *item = (x == s_key) ? y : x;
  vp_assert(x == s_key || y == s_key, "key is compared with an item");
  vp_assert(item >= s_base && item < s_base + s_num, "only items of the table are compared");
  return (ptrdiff_t)*x - (ptrdiff_t)*y;
}
static long dist(int a, int b) { long d = (long)a - (long)b; return d < 0 ? -d : d; }
void harness(void) {
  int t[N]; int key = vp_char(); int num = vp_range(1, N);
  for(int i = 0; i < N; i++) { t[i] = vp_char(); if(i > 0 && i < num) vp_assume(t[i-1] <= t[i]); }
  s_base = t; s_num = num; s_key = &key;
  bool present = false, some_ge = false, some_le = false; long best = -1; int ge = 0, le = 0;
  for(int i = 0; i < num; i++) {
    if(t[i] == key) present = true;
    if(best < 0 || dist(t[i], key) < best) best = dist(t[i], key);
    if(t[i] >= key && !some_ge) { some_ge = true; ge = t[i]; }
    if(t[i] <= key) { some_le = true; le = t[i]; }
  }
#if FN == 0
  ptrdiff_t e = search_exact(&key, t, num, sizeof *t, cmp);
  if(present) { vp_assert(e >= 0 && e < num && t[e] == key, "exact search finds a present key"); vp_reach("present"); }
  else { vp_assert(e == -1, "exact search reports an absent key"); vp_reach("absent"); }
#elif FN == 1
  size_t n = search_nearest(&key, t, num, sizeof *t, cmp);
  vp_assert(n < (size_t)num && dist(t[n], key) == best, "nearest search returns a nearest item");
  vp_reach("found");
#elif FN == 2
  size_t n = search_nearest_above(&key, t, num, sizeof *t, cmp);
  vp_assert(n < (size_t)num, "index inside the table");
  if(some_ge) vp_assert(t[n] == ge, "nearest item not below the key");
  else vp_assert(t[n] == t[num-1], "largest item when none is above");
  vp_reach("found");
#else
  size_t n = search_nearest_below(&key, t, num, sizeof *t, cmp);
  vp_assert(n < (size_t)num, "index inside the table");
  if(some_le) vp_assert(t[n] == le, "nearest item not above the key");
  else vp_assert(t[n] == t[0], "smallest item when none is below");
  vp_reach("found");
#endif
  /* an empty table has no exact match and nothing is compared */
  s_num = 0;
  vp_assert(search_exact(&key, t, 0, sizeof *t, cmp) == -1, "nothing is found in an empty table");
}
