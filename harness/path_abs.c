/* evfs_path_absolute over a filesystem with an arbitrary current directory.
   MODE 0: separate output, ample; 1: separate output of any size; 2: overlapping output of any size */
#include "vp.h"
#include "evfs.h"
#include "pathref.h"
#define PS_NORM_ONLY
#include "pathstub.h"
#ifndef N
#define N 4
#endif
#ifndef CW
#define CW 3
#endif
#define OUT (N+CW+6)
static int t_open(Evfs *v, const char *p, EvfsFile *fh, int f) { return EVFS_ERR_NO_FILE; }
static int t_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR_NO_FILE; }
static char s_cwd[CW+2]; static int s_cwdlen, s_cwderr;
static bool t_root(Evfs *v, const char *p, StringRange *root) {
  bool abs; int n = ref_root(p, false, &abs);
  range_init(root, p, n); return abs;
}
static int t_get(Evfs *v, StringRange *r) {   /* the documented behaviour: exact, or overflow */
  if(s_cwderr) return s_cwderr;
  char *d = (char *)r->start; long cap = r->end - r->start;
  if(s_cwdlen + 1 > cap) { if(cap > 0) d[0] = 0; return EVFS_ERR_OVERFLOW; }
  for(int i = 0; i <= CW+1; i++) if(i <= s_cwdlen) d[i] = s_cwd[i];
  return EVFS_OK;
}
static Evfs s_vfs;
static int draw_path(char *p, int n) {
  int len = vp_range(0, n);
  for(int i = 0; i < n; i++) { p[i] = vp_char(); if(i < len) vp_assume(p[i] != 0); else p[i] = 0; }
  p[n] = 0;
  return len;
}
void harness(void) {
  s_vfs.vfs_name = "t"; s_vfs.m_open = t_open; s_vfs.m_stat = t_stat; s_vfs.m_get_cur_dir = t_get; s_vfs.m_path_root_component = t_root;
  s_cwd[0] = '/'; s_cwdlen = 1 + draw_path(s_cwd+1, CW);
  char in[N+1]; int len = draw_path(in, N);
#ifdef CWERR
  s_cwderr = EVFS_ERR_IO;
#endif
  char j[N+CW+4], want[N+CW+4]; int k = 0;
  bool rel = !ref_sep(in[0]);
  if(rel) { for(int i = 0; i < CW+2 && s_cwd[i]; i++) j[k++] = s_cwd[i]; j[k++] = '/'; }
  for(int i = 0; i <= N; i++) if(i <= len) j[k+i] = in[i];
  int wl = ref_normalize(j, false, want);
  StringRange r; int rc;
  char out[OUT+2];
  memset(out, 'Z', sizeof out);
#if MODE == 0
  range_init(&r, out, OUT);
  rc = evfs_vfs_path_absolute(&s_vfs, in, &r);
  if(rel && s_cwderr) { vp_assert(rc != EVFS_OK, "an unreadable current directory is an error"); 
#ifdef CWERR
    vp_reach("cwd error");
#endif
  }
  else {
    vp_assert(rc == EVFS_OK, "conversion succeeds when the result fits");
    vp_assert(memcmp(out, want, wl+1) == 0, "result is the normalized concatenation");
    vp_reach("converted");
  }
  vp_assert(out[OUT] == 'Z' && out[OUT+1] == 'Z', "nothing written past the range");
  vp_assert(r.start == out && r.end == out+OUT, "output range preserved");
#elif MODE == 1
  int cap = vp_range(1, OUT-2);
  range_init(&r, out, cap);
  rc = evfs_vfs_path_absolute(&s_vfs, in, &r);
  if(rc == EVFS_OK) {
    vp_assert(wl+1 <= cap, "success only when the result fits");
    vp_assert(memcmp(out, want, wl+1) == 0, "success only with the exact result");
    vp_reach("fits");
  } else {
    vp_assert(wl+1 > cap || (rel && s_cwdlen+1 > cap), "an error only when the result or the directory does not fit");
    vp_reach("overflow");
  }
  for(int i = 0; i < OUT+2; i++) if(i >= cap) vp_assert(out[i] == 'Z', "no write outside the range");
#else
  int at = vp_range(0, N+2);       /* where the input sits relative to the output range */
#ifdef AT
  vp_assume(at == AT); at = AT;
#endif
  char buf[2*OUT+2];
  memset(buf, 'Z', sizeof buf);
  int cap = vp_range(1, OUT+4);
  for(int i = 0; i <= N; i++) buf[at+i] = in[i];
  /* the output starts at OFF; the input may begin before, at or after it */
  range_init(&r, buf+OFF, cap);
  vp_assume(at+len+1 <= OFF+cap);
  rc = evfs_vfs_path_absolute(&s_vfs, buf+at, &r);
  if(rc == EVFS_OK) {
    vp_assert(wl+1 <= cap, "success only when the result fits");
    vp_assert(memcmp(buf+OFF, want, wl+1) == 0, "success only with the exact result");
    vp_reach("overlap converted");
  } else {
    vp_assert(wl+1 > cap || rel, "absolute paths only fail when they do not fit");
    vp_assert(s_cwdlen + len + 2 > cap - (N+4) , "an error only when space is short");
    vp_reach("overlap overflow");
  }
  for(int i = 0; i < 2*OUT+2; i++) if(i >= OFF+cap) vp_assert(buf[i] == 'Z' || (i >= at && i <= at+N && buf[i] == in[i-at]), "no write past the range");
#endif
}
