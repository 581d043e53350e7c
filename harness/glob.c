/* glob_match against its pattern language, for every pattern and name */
#include "vp.h"
#include "util/glob.h"
#ifndef NP
#define NP 4
#endif
#ifndef NS
#define NS 4
#endif
static bool sep(char c) { return c == '/' || c == '\\'; }
/* one-character set starting at p[i]=='[': end index of its ']' (or -1: malformed), and membership */
static int set_end(const char *p, int i) {
  int k = i+1; if(k < NP && p[k] == '!') k++;
  int end = -1;
  for(int m = 0; m < NP; m++) if(m >= k && end == -1) {
    if(p[m] == ']') end = m;
    else if(m+1 < NP && p[m+1] == '-' && (m+2 >= NP || p[m+2] == ']' || p[m+2] == 0)) end = -2;
    else if(m+1 < NP && p[m+1] == '-') k = m+3;
    else if(p[m] == 0) end = -2;
  }
  return end;
}
static bool in_set(const char *p, int i, int e, char c) {
  int k = i+1; bool inv = false, in = false;
  if(p[k] == '!') { inv = true; k++; }
  for(int m = 0; m < NP; m++) if(m >= k && m < e) {
    unsigned char lo = p[m], hi = p[m], u = c;
    if(m+2 < e && p[m+1] == '-') { hi = p[m+2]; k = m+3; }
    if(lo <= u && u <= hi) in = true;
  }
  return in != inv;
}
void harness(void) {
  char p[NP+1], s[NS+1];
  int pn = vp_range(0, NP), sn = vp_range(0, NS);
  for(int i = 0; i < NP; i++) { p[i] = vp_char(); if(i < pn) vp_assume(p[i] != 0); else p[i] = 0; }
  for(int i = 0; i < NS; i++) { s[i] = vp_char(); if(i < sn) vp_assume(s[i] != 0); else s[i] = 0; }
  p[NP] = 0; s[NS] = 0;
#ifndef NOSET   /* whether a set may match a separator is not documented: names without separators here */
  for(int i = 0; i < NS; i++) vp_assume(!sep(s[i]));
#endif
#ifdef NOSET
  for(int i = 0; i < NP; i++) vp_assume(p[i] != '[');
#endif
#ifdef SPAN   /* spans of at most SPAN characters in this job */
  for(int i = 0; i+2 < NP; i++) if(p[i+1] == '-') vp_assume((int)(unsigned char)p[i+2] - (int)(unsigned char)p[i] < SPAN);
#endif
#ifdef ONESET
  vp_assume(p[0] == '[' && p[NP-1] == ']');
#endif
#ifdef PAT    /* one set with one span, its end fixed */
  vp_assume(pn == 5 && p[0] == '[' && p[2] == '-' && (unsigned char)p[3] == PAT && p[4] == ']');
  vp_assume(p[1] != '!');
#endif
  bool m[NP+2][NS+2], bad = false;
  for(int i = NP+1; i >= 0; i--) for(int j = NS+1; j >= 0; j--) m[i][j] = false;
  for(int i = NP; i >= 0; i--) {
    int e = -1;
    if(i < pn && p[i] == '[') e = set_end(p, i);
    for(int j = NS; j >= 0; j--) {
      if(i > pn || j > sn) continue;
      bool r = false;
      if(i == pn) r = j == sn;
      else if(p[i] == '*') r = m[i+1][j] || (j < sn && !sep(s[j]) && m[i][j+1]);
      else if(p[i] == '?') r = j < sn && !sep(s[j]) && m[i+1][j+1];
      else if(p[i] == '[') {
        if(e >= 0 && j < sn) for(int q = 0; q < NP; q++) if(q == e && in_set(p, i, e, s[j])) r = m[q+1][j+1];
      } else r = j < sn && p[i] == s[j] && m[i+1][j+1];
      m[i][j] = r;
    }
  }
  /* malformed: a set without its end, met when reading the pattern left to right */
  { int k = 0; for(int i = 0; i < NP; i++) if(i >= k && i < pn && p[i] == '[') { int e = set_end(p, i); if(e < 0) { bad = true; break; } k = e+1; } }
  bool got = glob_match(p, s, "/\\");
  if(!bad) {
    vp_assert(got == m[0][0], "a pattern matches exactly the names of its language");
    if(got && sn > 0) vp_reach("match");
    if(!got && sn > 0) vp_reach("no match");
  } else vp_reach("malformed");
  bool g = false; for(int i = 0; i < NP; i++) if(i < pn && (p[i] == '*' || p[i] == '?' || p[i] == '[')) g = true;
  vp_assert(is_glob(p) == g, "patterns are recognised");
}
