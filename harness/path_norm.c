/* evfs_path_normalize: canonical form for every path */
#include "vp.h"
#include "evfs.h"
#include "pathref.h"
#ifndef N
#define N 6
#endif
static int t_open(Evfs *v, const char *p, EvfsFile *fh, int f) { return EVFS_ERR_NO_FILE; }
static int t_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR_NO_FILE; }
#ifdef DOS
static bool t_root(Evfs *v, const char *p, StringRange *root) {
  bool abs; int n = ref_root(p, true, &abs);
  range_init(root, p, n); return abs;
}
#endif
static Evfs s_vfs;
void harness(void) {
  evfs_init();
  s_vfs.vfs_name = "t"; s_vfs.m_open = t_open; s_vfs.m_stat = t_stat;
#ifdef DOS
  s_vfs.m_path_root_component = t_root;
#endif
  vp_assert(evfs_register(&s_vfs, true) == EVFS_OK, "register");

  char path[N+1], orig[N+1], want[2*N+4], out[N+4];
  int len = vp_range(0, N);
  for(int i = 0; i < N; i++) { path[i] = vp_char(); if(i < len) vp_assume(path[i] != 0); else path[i] = 0; }
  path[N] = 0;
  memcpy(orig, path, N+1);
  bool abs; int rl = ref_root(orig, 
#ifdef DOS
   true
#else
   false
#endif
   , &abs);
#ifdef DOS
  vp_assume(abs || rl == 0); /* drive-relative paths ("C:x") have no documented canonical form */
  int wl = ref_normalize(orig, true, want);
#else
  int wl = ref_normalize(orig, false, want);
#endif
  StringRange r;
  int rc;
#if MODE == 0
  { /* separate buffer, always large enough */
    memset(out, 'Z', sizeof out);
    range_init(&r, out, N+2);
    rc = evfs_path_normalize_ex(path, &r, "t");
    vp_assert(rc == EVFS_OK, "normalize succeeds when the result fits");
    vp_assert(memcmp(out, want, wl+1) == 0, "normalize yields the canonical path");
    vp_assert(memcmp(path, orig, N+1) == 0, "input untouched");
    vp_assert(out[N+2] == 'Z' && out[N+3] == 'Z', "nothing written past the range");
    vp_assert(r.start == out && r.end == out+N+2, "output range preserved");
    vp_reach("separate");
  }
#elif MODE == 1
  { /* in place */
    range_init(&r, path, len+1);
    rc = evfs_path_normalize_ex(path, &r, "t");
    vp_assert(rc == EVFS_OK, "in-place normalize always fits");
    vp_assert(memcmp(path, want, wl+1) == 0, "in-place normalize yields the canonical path");
    vp_reach("inplace");
  }
#else
  { /* output of any size: exact result or OVERFLOW, in bounds */
    int cap = vp_range(1, N+1);
    memset(out, 'Z', sizeof out);
    range_init(&r, out, cap);
    rc = evfs_path_normalize_ex(path, &r, "t");
    if(wl+1 <= cap) {
      vp_assert(rc == EVFS_OK, "normalize into an exact-fit range succeeds");
      vp_assert(memcmp(out, want, wl+1) == 0, "bounded normalize yields the canonical path");
      vp_reach("fits");
    } else {
      vp_assert(rc == EVFS_ERR_OVERFLOW, "too small a range is reported, not truncated");
      vp_reach("overflow");
    }
    for(int i = 0; i < N+4; i++) if(i >= cap) vp_assert(out[i] == 'Z', "no write outside the range");
  }
#endif
}
