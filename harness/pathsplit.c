/* join, basename, dirname, extension against their documented contract */
#include "vp.h"
#include "evfs.h"
#include "pathref.h"
#ifndef N
#define N 6
#endif
static int t_open(Evfs *v, const char *p, EvfsFile *fh, int f) { return EVFS_ERR_NO_FILE; }
static int t_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR_NO_FILE; }
static Evfs s_vfs;
static int sym(char *p, int max) {
  int len = vp_range(0, max);
  for(int i = 0; i < max; i++) { p[i] = vp_char(); if(i < len) vp_assume(p[i] != 0); else p[i] = 0; }
  p[max] = 0;
  return len;
}
void harness(void) {
  evfs_init();
  s_vfs.vfs_name = "t"; s_vfs.m_open = t_open; s_vfs.m_stat = t_stat;
  vp_assert(evfs_register(&s_vfs, true) == EVFS_OK, "register");
#if FN < 3
  /* the path lies at the start of its object: reading before it is out of bounds */
  char path[N+1]; int len = sym(path, N);
  int last = -1, root = 0; bool allsep = true;
  for(int i = 0; i < N; i++) if(i < len) {
    if(ref_sep(path[i])) { last = i; if(allsep) root = i+1; } else allsep = false;
  }
  StringRange r = {0};
#if FN == 0
  vp_assert(evfs_path_basename(path, &r) == EVFS_OK, "basename succeeds");
  vp_assert(r.start == path + last + 1 && r.end == path + len, "basename is what follows the last separator");
#elif FN == 1
  int dot = -1; bool named = false;
  for(int i = 0; i < N; i++) if(i < len && i > last) { if(path[i] == '.') { if(named) dot = i; } else named = true; }
  vp_assert(evfs_path_extname(path, &r) == EVFS_OK, "extname succeeds");
  if(dot >= 0) vp_assert(r.start == path + dot && r.end == path + len, "the extension starts at the last dot of the final segment");
  else vp_assert(r.start == r.end && r.start >= path && r.end <= path + len, "no extension");
  if(dot >= 0) vp_reach("ext");
#else
  int h = last + 1;                       /* up to the last separator, */
  if(h > root) { int k = h; for(int i = N-1; i >= 0; i--) if(i < k && i == h-1 && i >= root && ref_sep(path[i])) h = i; }  /* without it, unless it is the root */
  vp_assert(evfs_path_dirname_ex(path, &r, "t") == EVFS_OK, "dirname succeeds");
  vp_assert(r.start == path && r.end == path + h, "dirname is what precedes the last separator");
  if(h > root && root > 0) vp_reach("abs");
#endif
  if(len == N) vp_reach("full");
#else
  char head[N+1], tail[N+1], want[2*N+3], out[2*N+6];
  int hl = sym(head, N), tl = sym(tail, N), k = 0; bool abs;
  int root = ref_root(head, false, &abs);
  bool onlyroot = root == hl;
  bool inplace = FN == 4;
  for(int i = 0; i < N; i++) if(i < hl) want[k++] = head[i];
  if(!onlyroot) want[k++] = '/';
  for(int i = 0; i < N; i++) if(i < tl) want[k++] = tail[i];
  want[k] = 0;
  int cap = vp_range(1, 2*N+3);
  for(int i = 0; i < 2*N+6; i++) out[i] = 'Z';
  if(inplace) { vp_assume(hl < cap); for(int i = 0; i <= N; i++) if(i <= hl) out[i] = head[i]; }
  StringRange h, t, j; range_init(&t, tail, tl); range_init(&j, out, cap);
  if(inplace) range_init(&h, out, cap); else range_init(&h, head, hl);
  int rc = (FN == 5) ? evfs_path_join_str_ex(head, tail, &j, "t") : evfs_path_join_ex(&h, &t, &j, "t");
  if(k + 1 <= cap) {
    vp_assert(rc == EVFS_OK, "a join that fits succeeds");
    for(int i = 0; i < 2*N+2; i++) if(i <= k) vp_assert(out[i] == want[i], "join is head, separator, tail");
    vp_reach("fits");
  } else { vp_assert(rc == EVFS_ERR_OVERFLOW, "a join that does not fit is an overflow"); vp_reach("overflow"); }
  for(int i = 0; i < 2*N+6; i++) if(i >= cap) vp_assert(out[i] == 'Z', "nothing outside the output range is written");
  vp_assert(j.start == out && j.end == out + cap, "the output range is preserved");
#endif
}
