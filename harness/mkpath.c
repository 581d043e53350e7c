/* Creating a directory path: every path of up to N characters, every existing/missing/file state of its
   prefixes, failures of any stat or mkdir.  -DRANGE: path is a range inside a longer string. */
#include "vp.h"
#include "evfs.h"
#include "pathref.h"
#ifndef N
#define N 5
#endif
#define NC ((N+1)/2)
#ifndef LEN
#define LEN vp_range(0, N)
#endif
#define CAP (N+4)
enum { MISSING, DIRECTORY, PLAIN };
static char s_want[NC+1][CAP];      /* canonical text of the first k components */
static int s_nc, s_kind[NC+1], s_trouble, s_made;
static bool s_abs;
static bool same(const char *a, const char *b) { for(int i = 0; i < CAP; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } return false; }
static int which(const char *p) {   /* which prefix does the filesystem see? (separators count once, a trailing one is ignored) */
  char c[CAP]; int n = 0; bool done = false;
  for(int i = 0; i < CAP; i++) {
    if(!done && p[i] == 0) done = true;
    if(!done) { bool sep = ref_sep(p[i]); if(!(sep && n > 0 && c[n-1] == '/')) { for(int j = 0; j < CAP; j++) if(j == n) c[j] = sep ? '/' : p[i]; n++; } }
  }
  vp_assert(done, "paths handed to the filesystem are no longer than the requested one");
  for(int j = 0; j < CAP; j++) if(j == n) c[j] = 0;
  if(n > 1) for(int j = 1; j < CAP; j++) if(j == n-1 && c[j] == '/') c[j] = 0;
  for(int k = 1; k <= NC; k++) if(k <= s_nc && same(c, s_want[k])) return k;
  return 0;
}
static int b_stat(Evfs *v, const char *p, EvfsInfo *info) {
  int k = which(p);
  if(k == 0) { info->type = EVFS_FILE_DIR; return EVFS_OK; }        /* looking at something else is harmless */
  if(vp_bool()) { s_trouble++; return EVFS_ERR_IO; }
  int kind = MISSING;
  for(int j = 1; j <= NC; j++) if(j == k) kind = s_kind[j];
  info->size = 0; info->name = NULL; info->mtime = 0;
  info->type = kind == DIRECTORY ? EVFS_FILE_DIR : 0;
  return kind == MISSING ? EVFS_ERR_NO_FILE : EVFS_OK;
}
static int b_mkdir(Evfs *v, const char *p) {
  int k = which(p);
  vp_assert(k > 0, "only directories on the way are created");
  for(int j = 1; j <= NC; j++) {
    if(j == k) vp_assert(s_kind[j] == MISSING, "only missing directories are created");
    if(j == k-1) vp_assert(s_kind[j] == DIRECTORY, "ancestors are created first");
  }
  vp_assert(!s_trouble, "nothing is created after a failure");
  if(vp_bool()) { s_trouble++; return -vp_range(1, 22); }
  for(int j = 1; j <= NC; j++) if(j == k) s_kind[j] = DIRECTORY;
  s_made++;
  return EVFS_OK;
}
static int b_open(Evfs *v, const char *p, EvfsFile *fh, int flags) { vp_assert(0, "no file is opened"); return EVFS_ERR; }
static bool b_root(Evfs *v, const char *path, StringRange *root) { int n = 0; while(ref_sep(path[n])) n++; range_init(root, (char *)path, n); return n > 0; }
static Evfs s_v;
void harness(void) {
  evfs_init();
  s_v.vfs_name = "v"; s_v.m_open = b_open; s_v.m_stat = b_stat; s_v.m_make_dir = b_mkdir; s_v.m_path_root_component = b_root;
  evfs_register(&s_v, true);
#ifdef RANGE
  char p[N+3], q[N+3];
  int len = LEN;
  for(int i = 0; i < N+2; i++) { p[i] = vp_char(); vp_assume(p[i] != 0); q[i] = p[i]; }
  p[N+2] = q[N+2] = 0;
#else
  char p[N+1], q[N+1];
  int len = LEN;
  for(int i = 0; i < N; i++) { p[i] = vp_char(); if(i < len) vp_assume(p[i] != 0); else p[i] = 0; q[i] = p[i]; }
  p[N] = q[N] = 0;
#endif
  /* expected prefixes */
  char out[CAP]; int n = 0; bool insep = true;
  s_abs = len > 0 && ref_sep(p[0]);
  if(s_abs) { out[0] = '/'; n = 1; }
  for(int i = 0; i <= N; i++) {
    bool sep = i >= len || ref_sep(p[i]);
    if(i <= len) {
      if(sep && !insep) { s_nc++; for(int k = 1; k <= NC; k++) if(k == s_nc) { for(int j = 0; j < CAP; j++) s_want[k][j] = j < n ? out[j] : 0; } insep = true; }
      else if(!sep) {
        if(insep && s_nc > 0) { for(int j = 0; j < CAP; j++) if(j == n) out[j] = '/'; n++; }
        for(int j = 0; j < CAP; j++) if(j == n) out[j] = p[i];
        n++; insep = false;
      }
    }
  }
  bool file = false; int missing = 0;
  for(int k = 1; k <= NC; k++) {
    s_kind[k] = vp_range(MISSING, PLAIN);
    if(k > 1 && s_kind[k-1] != DIRECTORY) vp_assume(s_kind[k] == MISSING);
    if(k <= s_nc && s_kind[k] == PLAIN) file = true;
    if(k <= s_nc && s_kind[k] == MISSING) missing++;
  }
  int live = vp_live;
  StringRange r; range_init(&r, p, len);
  int rc;
#ifdef RANGE
  rc = evfs_make_path_range_ex(&r, "v");
  vp_assert(r.start == p && r.end == p + len, "the caller's range is left as it was");
  for(int i = 0; i < N+2; i++) vp_assert(p[i] == q[i], "the caller's path is left as it was");
#else
  rc = evfs_make_path_ex(p, "v");
  for(int i = 0; i < N; i++) vp_assert(p[i] == q[i], "the caller's path is left as it was");
#endif
  vp_assert(vp_live == live, "no memory stays behind");
  if(file || s_trouble) { vp_assert(rc < 0, "a component that is a file or cannot be created is an error"); if(file) vp_reach("file in the way"); }
  else {
    vp_assert(rc == EVFS_OK, "a path that can be created is created");
    for(int k = 1; k <= NC; k++) if(k <= s_nc) vp_assert(s_kind[k] == DIRECTORY, "on success every component is a directory");
    vp_assert(s_made == missing, "exactly the missing directories are created");
    if(s_nc == NC && s_made == 2 && s_abs) vp_reach("two made");
    if(s_nc == NC) vp_reach("created");
  }
}
