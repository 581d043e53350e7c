/* strlcpy, strlcat, strxcpy against their contract */
#include "vp.h"
#include "bsd/string.h"
#ifndef N
#define N 6
#endif
#include <stdlib.h>
static int draw(char *p, int n) {
  int len = vp_range(0, n);
  for(int i = 0; i < n; i++) { p[i] = vp_char(); if(i < len) vp_assume(p[i] != 0); else p[i] = 0; }
  p[n] = 0;
  return len;
}
void harness(void) {
  char src[N+1], dst[N+2], old[N+2];
  int sl;
  for(int i = 0; i < N+2; i++) { dst[i] = vp_char(); old[i] = dst[i]; }
  int size = vp_range(0, N+1);
#if FN == 0
  sl = draw(src, N);
  size_t r = strlcpy(dst, src, size);
  vp_assert(r == (size_t)sl, "bounded copy returns the source length");
  int w = size == 0 ? 0 : (sl < size-1 ? sl : size-1);
  for(int i = 0; i < N+2; i++) {
    if(size > 0 && i < w) vp_assert(dst[i] == src[i], "copied bytes match");
    else if(size > 0 && i == w) vp_assert(dst[i] == 0, "result is terminated");
    else vp_assert(dst[i] == old[i], "nothing else is written");
  }
  if(sl >= size) vp_reach("truncated"); else vp_reach("fits");
#elif FN == 1
  /* destination: an exactly `size` byte object, terminated or not */
  sl = draw(src, N);
  char *d = vp_malloc(size > 0 ? size : 1);
  int dl = size;
  for(int i = 0; i < size; i++) { d[i] = old[i]; if(dl == size && old[i] == 0) dl = i; }
  size_t r = strlcat(d, src, size);
  if(size > 0) vp_assert(r == (size_t)(dl + sl), "bounded concatenation returns the length it tried to create");
  for(int i = 0; i < size; i++) {
    if(i < dl) vp_assert(d[i] == old[i], "existing text is kept");
    else if(i < size-1 && i-dl < sl) vp_assert(d[i] == src[i-dl], "appended bytes match");
    else if(i-dl == sl || (i == size-1 && i-dl < sl)) vp_assert(d[i] == 0, "result is terminated");
    else vp_assert(d[i] == old[i], "nothing else is written");
  }
  if(dl == size) vp_reach("unterminated"); else if(dl+sl >= size) vp_reach("truncated"); else vp_reach("fits");
#else
  /* source: a counted substring that need not be terminated; at most size-1 bytes belong to it */
  int cnt = size > 0 ? size-1 : 0;
  char *s = vp_malloc(cnt > 0 ? cnt : 1);
  sl = cnt;
  for(int i = 0; i < cnt; i++) { s[i] = vp_char(); if(sl == cnt && s[i] == 0) sl = i; }
  if(cnt == 0) s[0] = 'x';
  size_t r = strxcpy(dst, s, size);
  vp_assert(r == (size_t)sl, "counted copy returns the bytes copied");
  for(int i = 0; i < N+2; i++) {
    if(size > 0 && i < sl) vp_assert(dst[i] == s[i], "copied bytes match");
    else if(size > 0 && i == sl) vp_assert(dst[i] == 0, "result is terminated");
    else vp_assert(dst[i] == old[i], "nothing else is written");
  }
  if(sl < cnt) vp_reach("terminated"); else vp_reach("counted");
#endif
}
