/* Jail shim over a recording base filesystem.
   -DOP=1..7 operation, -DN path length, -DCWD directory changed to first, -DROOT jail root string,
   -DEXACT: mapping must equal root + canonical path; otherwise only confinement. */
#include "vp.h"
#include "evfs.h"
#include "evfs/shim/shim_jail.h"
#include "pathref.h"
#include "vplock.h"
#ifdef STUB
#include "pathstub.h"
#endif
#ifdef VP_TYPED
#define memset(p,c,n) ((void)0)
#include "shim_jail.c"
#undef memset
static struct { Evfs v; JailData d; char s[24]; } s_mem;
#endif
#ifndef ROOT
#define ROOT "/j"
#endif
enum { O_OPEN=1, O_STAT, O_DELETE, O_RENAME, O_MKDIR, O_OPENDIR, O_CHDIR };
#define RLEN ((int)sizeof(ROOT)-1)
#define PCAP 32
static struct { int op, arg; char path[PCAP], path2[PCAP]; } s_rec;
static int s_calls;            /* calls that reached the base filesystem */
static int s_result;           /* what the base filesystem answers */
static EvfsFileMethods s_fm; static EvfsDirMethods s_dm;
static int dummy_fclose(EvfsFile *fh) { return EVFS_OK; }
static int dummy_dclose(EvfsDir *dh) { return EVFS_OK; }

static void take(char *dst, const char *p) {
  int i = 0;
  for(; i < PCAP-1 && p[i]; i++) dst[i] = p[i];
  dst[i] = 0;
  vp_assert(p[i] == 0, "path handed to the base fits its documented maximum");
}
static void rec(int op, const char *p, int arg) { s_rec.op = op; s_rec.arg = arg; take(s_rec.path, p); s_calls++; }
static int b_open(Evfs *v, const char *p, EvfsFile *fh, int flags) { rec(O_OPEN, p, flags); if(s_result == EVFS_OK) fh->methods = &s_fm; return s_result; }
static int b_stat(Evfs *v, const char *p, EvfsInfo *info) { rec(O_STAT, p, 0); info->type = EVFS_FILE_DIR; info->size = 77; info->name = NULL; return s_result; }
static int b_delete(Evfs *v, const char *p) { rec(O_DELETE, p, 0); return s_result; }
static int b_rename(Evfs *v, const char *a, const char *b) { rec(O_RENAME, a, 0); take(s_rec.path2, b); return s_result; }
static int b_mkdir(Evfs *v, const char *p) { rec(O_MKDIR, p, 0); return s_result; }
static int b_opendir(Evfs *v, const char *p, EvfsDir *dh) { rec(O_OPENDIR, p, 0); if(s_result == EVFS_OK) dh->methods = &s_dm; return s_result; }
static bool b_root(Evfs *v, const char *p, StringRange *root) {   /* one or more separators, as the default does */
  bool abs; int n = ref_root(p, false, &abs);
  range_init(root, (char *)p, n);
  return abs;
}
static Evfs s_base;

/* string compare bounded by the harness buffers */
static bool same(const char *a, const char *b) { for(int i = 0; i < PCAP; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } return false; }

static void confined(const char *p) {
  for(int i = 0; i < RLEN; i++) vp_assert(p[i] == ROOT[i], "path lies below the jail root");
  vp_assert(p[RLEN] == 0 || p[RLEN] == '/', "path is the jail root or below it");
  /* normalized: no empty, '.' or '..' segment, except one trailing separator directly after the root */
  int s = RLEN;
  for(int i = RLEN; i < PCAP; i++) {
    if(p[i] == '/' || p[i] == 0) {
      int l = i - s;
      if(s > RLEN) {
        vp_assert(!(l == 0 && p[i] == '/'), "no empty segment below the jail root");
        vp_assert(!(l == 1 && p[s] == '.'), "no '.' segment below the jail root");
        vp_assert(!(l == 2 && p[s] == '.' && p[s+1] == '.'), "no parent segment below the jail root");
      }
      s = i+1;
    }
    vp_assert(p[i] != '\\', "no alternative separator survives");
    if(p[i] == 0) break;
  }
}
static int draw_path(char *p, int n) {
  int len = vp_range(0, n);
  for(int i = 0; i < n; i++) { p[i] = vp_char(); if(i < len) vp_assume(p[i] != 0); else p[i] = 0; }
  p[n] = 0;
  return len;
}
static void map(const char *cwd, const char *p, char *out) {   /* ROOT + canonical(cwd joined p) */
  char j[2*PCAP], c[2*PCAP]; int n = 0, k;
  if(!ref_sep(p[0])) { for(k = 0; cwd[k]; k++) j[n++] = cwd[k]; j[n++] = '/'; }
  for(k = 0; p[k]; k++) j[n++] = p[k];
  j[n] = 0;
  ref_normalize(j, false, c);
  for(n = 0; n < RLEN; n++) out[n] = ROOT[n];
  if(c[1] == 0) { out[n] = 0; return; }
  for(k = 0; c[k]; k++) out[n++] = c[k];
  out[n] = 0;
}
/* the recorded path names the expected file (the root itself may carry a trailing separator) */
static void expect_path(const char *got, const char *want) {
  if(want[RLEN] == 0) {
    vp_assert(same(got, want) || (got[RLEN] == '/' && got[RLEN+1] == 0), "jail root maps to the root directory");
  } else vp_assert(same(got, want), "virtual path maps to jail root plus canonical path");
}

void harness(void) {
  evfs_init();
  s_fm.m_close = dummy_fclose; s_dm.m_close = dummy_dclose;
  s_base.vfs_name = "b"; s_base.vfs_file_size = sizeof(EvfsFile); s_base.vfs_dir_size = sizeof(EvfsDir);
  s_base.m_open = b_open; s_base.m_stat = b_stat; s_base.m_delete = b_delete; s_base.m_rename = b_rename;
  s_base.m_path_root_component = b_root; s_base.m_make_dir = b_mkdir; s_base.m_open_dir = b_opendir;
  vp_assert(evfs_register(&s_base, false) == EVFS_OK, "register base");
#ifdef VP_TYPED
  vp_place(&s_mem, sizeof s_mem);
#endif
  vp_assert(evfs_register_jail("q", "b", ROOT, true) == EVFS_OK, "register jail");

#ifdef CWD
  static const char cwd[] = CWD;
#else
  static const char cwd[] = "/";
#endif
  int rc;
#ifdef CWD
  s_result = EVFS_OK;
  rc = evfs_set_cur_dir_ex(CWD, "q");
  vp_assert(rc == EVFS_OK && s_calls == 1, "changing to an existing directory succeeds");
  confined(s_rec.path);
  s_calls = 0;
#endif
  char p[N+1], keep[N+1], p2[N+1];
  draw_path(p, N);
  memcpy(keep, p, N+1);
  s_result = vp_bool() ? EVFS_OK : vp_range(-20, -1);
  vp_assume(s_result == EVFS_OK || s_result <= EVFS_ERR);
#ifdef EXACT
  char want[2*PCAP]; map(cwd, p, want);
#endif
  Evfs *v = evfs_find_vfs("q");
#if OP == 1
  EvfsFile *fh = NULL; int flags = vp_range(0, 255);
  rc = evfs_vfs_open(v, p, &fh, flags);
  if(rc != EVFS_OK) vp_assert(fh == NULL, "failed open gives no handle");
#elif OP == 2
  EvfsInfo info = {0};
  rc = evfs_stat_ex(p, &info, "q");
#  ifdef EXACT
  if(s_calls) vp_assert(info.size == 77 && info.type == EVFS_FILE_DIR, "stat result passes through");
#  endif
#elif OP == 3
  rc = evfs_delete_ex(p, "q");
#elif OP == 4
  draw_path(p2, N);
  rc = evfs_rename_ex(p, p2, "q");
#elif OP == 5
  rc = evfs_make_dir_ex(p, "q");
#elif OP == 6
  EvfsDir *dh = NULL;
  rc = evfs_vfs_open_dir(v, p, &dh);
  if(rc != EVFS_OK) vp_assert(dh == NULL, "failed open gives no handle");
#elif OP == 7
  rc = evfs_set_cur_dir_ex(p, "q");
#endif
  vp_unlocked();
  vp_assert(s_calls <= 1, "at most one operation reaches the base");
  if(s_calls == 0) {
    vp_assert(rc != EVFS_OK, "an operation that was not performed is not reported as success");
  } else {
    confined(s_rec.path);
    vp_reach("performed");
#if OP == 4
    confined(s_rec.path2);
#endif
#ifdef EXACT
    expect_path(s_rec.path, want);
    vp_assert(s_rec.op == (OP == 7 ? O_STAT : OP), "the same operation is performed");
#  if OP != 7
    vp_assert(rc == s_result, "the base result is returned unchanged");
#  else
    vp_assert((rc == EVFS_OK) == (s_result == EVFS_OK), "cwd changes exactly when the directory exists");
#  endif
#  if OP == 1
    vp_assert(s_rec.arg == flags, "open flags pass through");
#  endif
#  if OP == 4
    map(cwd, p2, want); expect_path(s_rec.path2, want);
#  endif
#endif
  }
#ifdef EXACT
#  ifndef TIGHT
  vp_assert(s_calls == 1, "an in-jail operation reaches the base");
#  endif
  vp_assert(same(p, keep), "the caller's path is unchanged");
#  if OP == 7
  {  /* the reported directory is the virtual one */
    char g[PCAP], c[2*PCAP], w[2*PCAP]; StringRange r; range_init(&r, g, PCAP);
    vp_assert(evfs_get_cur_dir_ex(&r, "q") == EVFS_OK, "cwd is reported");
    if(rc != EVFS_OK) vp_assert(same(g, cwd), "failed change keeps the directory");
    else {
      ref_normalize(g, false, c);
      for(int i = 0; i < RLEN; i++) w[i] = ROOT[i];
      int i = 0; for(; c[i]; i++) w[RLEN+i] = c[i]; w[RLEN+i] = 0;
      if(c[1] == 0) w[RLEN] = 0;
      vp_assert(same(w, want), "reported directory is the virtual path changed to");
      vp_reach("chdir");
    }
  }
#  endif
#endif
}
