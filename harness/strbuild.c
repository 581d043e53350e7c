/* range_strings: appending to / copying into a bounded range is all-or-nothing and in bounds.
   The range lies inside a guarded buffer; every capacity from none up, every text up to N. */
#include "vp.h"
#include <stdarg.h>
#include "util/range_strings.h"
#ifndef N
#define N 5
#endif
#define G 2
#define CAP (N+2)
static char buf[CAP+2*G], before[CAP+2*G];
static int cap;
static void fresh(AppendRange *r) {
  for(int i = 0; i < CAP+2*G; i++) before[i] = buf[i] = vp_char();
  cap = vp_range(0, CAP);
  r->start = buf+G; r->end = buf+G+cap;
}
static void guard_ok(void) {
  for(int i = 0; i < CAP+2*G; i++) if(i < G || i >= G+cap) vp_assert(buf[i] == before[i], "nothing outside the range is written");
}
static int text(char *t) {   /* any text of 0..N characters */
  int n = vp_range(0, N);
  for(int i = 0; i < N; i++) { t[i] = vp_char(); if(i < n) vp_assume(t[i] != 0); else t[i] = 0; }
  t[N] = 0;
  return n;
}
/* outcome of an append of `t` (n characters); nul: terminated */
static void appended(int rc, AppendRange *r, const char *start, const char *t, int n, bool nul) {
  int room = (buf+G+cap) - start, off = start - (buf+G);
  if(n + 1 <= room) {
    vp_assert(rc == n, "append returns the number of characters appended");
    vp_assert(r->start == start + n && r->end == buf+G+cap, "range starts right after the appended characters");
    for(int i = 0; i < N; i++) if(i < n) vp_assert(start[i] == t[i], "exactly the given characters are appended");
    if(nul) vp_assert(start[n] == 0, "result is terminated");
    else vp_assert(start[n] == before[G+off+n], "nothing after the appended characters is written");
    vp_reach("fits");
  } else if(n > 0 || room > 0) {
    vp_assert(rc < 0, "what does not fit is reported");
    vp_assert(rc == -n, "the needed length is returned");
    vp_assert(r->start == start && r->end == buf+G+cap, "range is left where it was");
    if(room > 0 && nul) vp_assert(*start == 0, "nothing partial is left");
    vp_reach("too long");
  }
  guard_ok();
}
#if FN == 6 || FN == 7
static int vcat(AppendRange *r, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
#if FN == 6
  int rc = range_cat_vfmt(r, fmt, ap);
#else
  int rc = 0;
#endif
  va_end(ap); return rc;
}
#endif
void harness(void) {
  AppendRange r; char t[N+1];
  fresh(&r);
  char *s0 = r.start;
  int n = text(t);
#if FN == 0        /* two appends in a row */
  int rc = range_cat_str(&r, t);
  if(rc >= 0 && n+1 <= cap) {
    char u[N+1]; int m = text(u);
    vp_assert(r.start == s0+n, "range starts right after the appended characters");
    for(int i = 0; i < N; i++) if(i < n) vp_assert(s0[i] == t[i], "exactly the given characters are appended");
    for(int i = 0; i < CAP+2*G; i++) before[i] = buf[i];
    char *s1 = r.start;
    appended(range_cat_str(&r, u), &r, s1, u, m, true);
    for(int i = 0; i < N; i++) if(i < n) vp_assert(s0[i] == t[i], "earlier text is kept");
  } else appended(rc, &r, s0, t, n, true);
#elif FN == 1
  /* without a terminator the last byte is spare: accept n == capacity either way */
  int rc = range_cat_str_no_nul(&r, t);
  vp_assume(n != cap);
  appended(rc, &r, s0, t, n, false);
#elif FN == 2 || FN == 3
  /* source is a range: ends at its end or at its first NUL */
  char q[N+1]; int size = vp_range(0, N), m = 0;
  for(int i = 0; i <= N; i++) q[i] = vp_char();
  while(m < size && q[m] != 0) m++;
  StringRange src; range_init(&src, q, size);
#if FN == 2
  int rc = range_cat_range(&r, &src);
  appended(rc, &r, s0, q, m, true);
#else
  int rc = range_cat_range_no_nul(&r, &src);
  vp_assume(m != cap);
  appended(rc, &r, s0, q, m, false);
#endif
#elif FN == 4
  t[0] = vp_char(); vp_assume(t[0] != 0); t[1] = 0;
  bool nul = vp_bool();
  int rc = nul ? range_cat_char(&r, t[0]) : range_cat_char_no_nul(&r, t[0]);
  if(cap >= 2) appended(rc, &r, s0, t, 1, nul);
  else { vp_assert(rc < 0 && r.start == s0, "a character that does not fit is reported"); guard_ok(); for(int i = 0; i < CAP+2*G; i++) if(i < G) vp_assert(buf[i] == before[i], "in bounds"); vp_reach("char too long"); }
#elif FN == 5 || FN == 6
  /* formatted output: "%s%c" */
  char c = vp_char(); vp_assume(c != 0); vp_assume(n < N); t[n+1 > N ? N : n] = c;
  char f[N+1]; for(int i = 0; i <= N; i++) f[i] = i < n ? t[i] : 0;
#if FN == 5
  int rc = range_cat_fmt(&r, "%s%c", f, (int)c);
#else
  int rc = vcat(&r, "%s%c", f, (int)c);
#endif
  appended(rc, &r, s0, t, n+1, true);
#elif FN == 8   /* copy, cutting or refusing */
  bool tr = vp_bool();
  int rc = range_copy_str(&r, t, tr);
  vp_assert(r.start == s0 && r.end == s0+cap, "copy leaves the range itself alone");
  if(n+1 <= cap) {
    vp_assert(rc == n, "copy returns the length");
    for(int i = 0; i <= N; i++) if(i <= n) vp_assert(s0[i] == t[i], "copy is exact");
    vp_reach("fits");
  } else if(n > 0) {
    vp_assert(rc < 0, "a cut or refused copy is reported");
    if(cap > 0 && tr) {
      for(int i = 0; i < N; i++) if(i < cap-1) vp_assert(s0[i] == t[i], "cut copy keeps the first characters");
      vp_assert(s0[cap-1] == 0, "cut copy is terminated");
    } else if(cap > 0) vp_assert(s0[0] == 0 && rc == -n, "refused copy leaves an empty string and the needed length");
    vp_reach("too long");
  }
  guard_ok();
#elif FN == 9   /* padding, terminating, shortening */
  int k = 0; while(k < cap && buf[G+k]) k++;
  StringRange sr; range_init(&sr, s0, cap);
  vp_assert((int)range_strlen(&sr) == k, "length stops at the first NUL or the end of the range");
  int which = vp_range(0, 2);
  if(which == 0) {
    char pad = vp_char(); vp_assume(pad != 0);
    int want = (cap > 0 && k < cap-1) ? cap-1-k : 0;
    vp_assert(range_pad_right(&sr, pad) == want, "padding fills the range up to its terminator");
    for(int i = 0; i < CAP; i++) if(i < cap) {
      if(i < k) vp_assert(s0[i] == before[G+i], "padding keeps the text");
      else if(want && i < cap-1) vp_assert(s0[i] == pad, "padding characters");
      else if(want) vp_assert(s0[i] == 0, "padded text is terminated");
    }
    vp_reach("pad");
  } else if(which == 1) {
    range_terminate(&r);
    for(int i = 0; i < CAP; i++) if(i < cap) vp_assert(s0[i] == ((k == cap && i == cap-1) ? 0 : before[G+i]), "termination only adds a missing NUL");
    vp_reach("terminate");
  } else {
    size_t l = vp_range(0, CAP+1);
    range_set_len(&sr, l);
    for(int i = 0; i < CAP; i++) if(i < cap) vp_assert(s0[i] == ((size_t)i >= l ? 0 : before[G+i]), "shortening keeps the first characters");
    vp_reach("set_len");
  }
  guard_ok();
#endif
}
