/* Contract versions of the path library for harnesses of its clients: the reference
   semantics of pathref.h (which C01..C03 prove equal to the real functions), written so
   that every store has a concrete index.  Included by the harness, replaces evfs_path.c. */
#ifndef PATHSTUB_H
#define PATHSTUB_H
#include "vp.h"
#include "evfs.h"
#include "pathref.h"
#ifndef VP_REPLAY   /* replays run the real path functions */
#ifndef PS_CAP
#define PS_CAP 24
#endif
static int ps_load(const char *p, int max, char *out) {   /* copy at most max chars up to NUL */
  int n = PS_CAP;
  for(int i = 0; i < PS_CAP; i++) {
    if(n == PS_CAP && (i >= max || p[i] == 0)) n = i;
    out[i] = (n == PS_CAP) ? p[i] : 0;
  }
  out[PS_CAP] = 0;
  vp_assert(n < PS_CAP, "harness: path longer than the model's capacity");
  return n;
}
static int ps_store(StringRange *dst, const char *s, int n) {
  long cap = dst->end - dst->start;
  char *d = (char *)dst->start;
  int rc = EVFS_OK;
  if(n+1 > cap) { n = cap-1; rc = EVFS_ERR_OVERFLOW; }   /* a cut result is what callers must not use */
  for(int i = 0; i < PS_CAP; i++) if(i <= n) d[i] = (i < n) ? s[i] : 0;
  return rc;
}
static int ps_canon(const char *p, char *out) { return ref_normalize(p, false, out); }

int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized) {
  if(!vfs || !path || !normalized) return EVFS_ERR_BAD_ARG;
  char a[PS_CAP+1], c[2*PS_CAP+4];
  ps_load(path, PS_CAP, a);
  return ps_store(normalized, c, ps_canon(a, c));
}
#ifndef PS_NORM_ONLY
int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
  if(!vfs || !path || !absolute) return EVFS_ERR_BAD_ARG;
  char a[PS_CAP+1], j[2*PS_CAP+4], c[2*PS_CAP+4], w[PS_CAP+1];
  if(absolute->end - absolute->start > EVFS_MAX_PATH) return EVFS_ERR_OVERFLOW;
  int n = ps_load(path, PS_CAP, a), k = 0;
  if(!ref_sep(a[0])) {
    char cw[EVFS_MAX_PATH]; StringRange r; range_init(&r, cw, sizeof cw);
    int rc = vfs->m_get_cur_dir(vfs, &r);
    if(rc != EVFS_OK) return rc;
    k = ps_load(cw, PS_CAP, w);
    for(int i = 0; i < k; i++) j[i] = w[i];
    j[k++] = '/';
  }
  for(int i = 0; i < n; i++) j[k+i] = a[i];
  j[k+n] = 0;
  return ps_store(absolute, c, ps_canon(j, c));
}
int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRange *joined) {
  if(!vfs || !head || !tail || !joined) return EVFS_ERR_BAD_ARG;
  char a[PS_CAP+1], b[PS_CAP+1], j[2*PS_CAP+4];
  int n = ps_load(head->start, head->end - head->start, a), m = ps_load(tail->start, tail->end - tail->start, b), k = 0;
  bool abs; int r = ref_root(a, false, &abs);
  if(n + 1 + m >= EVFS_MAX_PATH) return EVFS_ERR_OVERFLOW;
  for(int i = 0; i < n; i++) j[k++] = a[i];
  if(n > 0 && n != r) j[k++] = '/';
  for(int i = 0; i < m; i++) j[k++] = b[i];
  j[k] = 0;
  return ps_store(joined, j, k);
}
int evfs_vfs_path_join_str(Evfs *vfs, const char *head, const char *tail, StringRange *joined) {
  StringRange h, t; range_init(&h, (char *)head, strlen(head)); range_init(&t, (char *)tail, strlen(tail));
  return evfs_vfs_path_join(vfs, &h, &t, joined);
}
size_t strlcpy(char *dst, const char *src, size_t n) {   /* contract proved by C29 */
  char a[PS_CAP+1];
  int l = ps_load(src, PS_CAP, a);
  for(int i = 0; i < PS_CAP; i++) if(n > 0 && (size_t)i < n) { if(i < l && (size_t)i < n-1) dst[i] = a[i]; else if(i == l || (size_t)i == n-1) dst[i] = 0; }
  return l;
}
#endif
#endif
#endif
