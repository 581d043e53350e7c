/* tokenizers, trimming and comparison of string ranges against plain-byte definitions */
#include "vp.h"
#include <ctype.h>
#include "util/range_strings.h"
#ifndef N
#define N 6
#endif
static char dl[3];
static bool isd(char c) { return (dl[0] && c == dl[0]) || (dl[0] && dl[1] && c == dl[1]); }
static bool ref_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
void harness(void) {
#if FN == 0 || FN == 1
  dl[0] = vp_char(); dl[1] = vp_char(); dl[2] = 0;
#if FN == 0          /* C string */
  char s[N+1]; int n = vp_range(0, N);
  for(int i = 0; i < N; i++) { s[i] = vp_char(); if(i < n) vp_assume(s[i] != 0); else s[i] = 0; }
  s[N] = 0;
#else                /* counted string of exactly n bytes, not terminated: the object ends there */
  int n = LEN; char s[LEN]; size_t limit = n;
  int sn = n;        /* a NUL ends it early */
  for(int i = n-1; i >= 0; i--) s[i] = vp_char();
  for(int i = n-1; i >= 0; i--) if(s[i] == 0) sn = i;
  n = sn;
#endif
  bool d[N+1]; for(int i = 0; i <= N; i++) d[i] = i < n && isd(s[i]);
  StringRange tok = {0}; int pos = 0; bool first = true; int count = 0;
  for(int k = 0; k <= N/2 + 1; k++) {
    bool want = false;
    for(int i = 0; i < N; i++) if(i >= pos && i < n && !d[i]) want = true;
#if FN == 0
    bool got = range_token(first ? s : NULL, dl, &tok);
#else
    bool got = range_token_limit(first ? s : NULL, dl, &tok, &limit);
#endif
    first = false;
    vp_assert(got == want, "a token is returned as long as there is one");
    if(!got) break;
    count++;
    int b = tok.start - s, e = tok.end - s;
    vp_assert(b >= pos && b < e && e <= n, "the token lies in the rest of the string");
    for(int i = 0; i < N; i++) {
      if(i >= pos && i < b) vp_assert(d[i], "only delimiters are skipped");
      if(i >= b && i < e) vp_assert(!d[i], "no delimiter inside a token");
      if(i == e && i < n) vp_assert(d[i], "the token is maximal");
    }
    pos = e;
  }
  vp_assert(count <= (N+1)/2, "the tokenizer ends");
  if(count == 2) vp_reach("two tokens");
  if(count == 0) vp_reach("none");
#elif FN == 2        /* trimming */
  char buf[N+2], *s = buf+1; int a = vp_range(0, N), b = vp_range(0, N); vp_assume(a <= b);
  for(int i = 0; i < N+2; i++) buf[i] = vp_char();
  int n = b; for(int i = b-1; i >= a; i--) if(s[i] == 0) n = i;   /* text ends at the first NUL */
  int l = a, r = n; 
  while(l < b && ref_space(s[l])) l++;
  StringRange rg = {s+a, s+b};
  int which = vp_range(0, 2);
  if(which == 0) { range_ltrim(&rg); vp_assert(rg.start == s+l && rg.end == s+b, "left trim removes leading white space only"); vp_reach("l"); }
  else if(which == 1) { while(r > a && ref_space(s[r-1])) r--; range_rtrim(&rg); vp_assert(rg.start == s+a && rg.end == s+r, "right trim removes trailing white space only"); vp_reach("r"); }
  else {
    int e = n < l ? l : n; while(e > l && ref_space(s[e-1])) e--;
    range_trim(&rg); vp_assert(rg.start == s+l && rg.end == s+e, "trim removes white space at both ends"); vp_reach("t");
  }
#else                /* comparison */
  char x[N+1], y[N+1]; int n = vp_range(0, N), m = vp_range(0, N);
  for(int i = 0; i <= N; i++) { x[i] = vp_char(); y[i] = vp_char(); }
  StringRange a = {x, x+n}, b = {y, y+m};
  bool eq = n == m; for(int i = 0; i < N; i++) if(i < n && i < m && x[i] != y[i]) eq = false;
  vp_assert(range_eq_range(&a, &b) == eq, "ranges are equal when size and bytes are");
  bool digits = true; for(int i = 0; i < N; i++) if(i < n && !(x[i] >= '0' && x[i] <= '9')) digits = false;
  vp_assert(range_is_int(&a) == digits, "digits are recognised");
  for(int i = 0; i < N; i++) if(i < m) vp_assume(y[i] != 0);
  y[m] = 0;
  vp_assert(range_eq(&a, y) == eq, "range equals a C string when size and bytes do");
  if(eq && n == 3) vp_reach("equal"); if(!eq && n == m) vp_reach("differ");
#endif
}
