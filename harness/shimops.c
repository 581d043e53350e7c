/* Operations through a shim that adds no behaviour of its own to handles.
   -DSHIM=0 trace, 1 jail; -DPART=0 filesystem operations (trace), 1 file handles, 2 directory handles */
#if PART > 0
#define MK_OPENRC EVFS_OK     /* what a failing open does is part of the other jobs */
#endif
#include "mock.h"
#include "vplock.h"
#if SHIM == 0
#include "evfs/shim/shim_trace.h"
#define memset(p,c,n) ((void)0)
#include "shim_trace.c"
#undef memset
static struct { Evfs v; TraceData d; char s[4]; } s_mem;
static struct { TraceFile f; MkFile b; } s_hf;
static struct { TraceDir f; MkDir b; } s_hd;
#define PATH "/d/n"
#else
#include "evfs/shim/shim_jail.h"
#ifndef VP_REPLAY   /* the mapping of paths is the business of C02..C05: here every path is "/n" and every joined path "/j/n" */
static int put(StringRange *r, const char *s) { char *d = (char *)r->start; int i = 0; for(; s[i]; i++) d[i] = s[i]; d[i] = 0; return EVFS_OK; }
int evfs_vfs_path_normalize(Evfs *v, const char *p, StringRange *o) { return put(o, "/n"); }
int evfs_vfs_path_absolute(Evfs *v, const char *p, StringRange *o) { return put(o, "/n"); }
int evfs_vfs_path_join(Evfs *v, StringRange *h, StringRange *t, StringRange *o) { return put(o, "/j/n"); }
int evfs_vfs_path_join_str(Evfs *v, const char *h, const char *t, StringRange *o) { return put(o, "/j/n"); }
#endif
#define memset(p,c,n) ((void)0)
#include "shim_jail.c"
#undef memset
static struct { Evfs v; JailData d; char s[24]; } s_mem;
static struct { JailFile f; MkFile b; } s_hf;
static struct { JailDir f; MkDir b; } s_hd;
#define PATH "/n"
#endif
#ifndef VP_REPLAY
_Bool nondet_bool(void);
char *evfs__vmprintf(const char *fmt, va_list args) {   /* contract: a fresh string, or none when memory is short */
  if(nondet_bool()) return NULL;
  char *b = vp_malloc(2); b[0] = 'x'; b[1] = 0; return b;
}
#endif
static int s_lines;
static int report(const char *buf, void *ctx) {
  vp_assert(buf != NULL && ctx == (void *)&s_lines, "report lines reach the callback with its context");
  s_lines++; return 0;
}
static Evfs s_base;
#if SHIM == 1
static bool one_sep(Evfs *v, const char *p, StringRange *r) { range_init(r, (char *)p, 1); return true; }
#endif
static EvfsInfo info;
static void same_info(void) { vp_assert(info.name == mk_last.name && info.size == mk_last.size && info.mtime == mk_last.mtime && info.type == mk_last.type, "the reported information is the filesystem's"); }

void harness(void) {
  evfs_init();
  mk_init(&s_base, "b");
#if SHIM == 1
  s_base.m_path_root_component = one_sep;
#endif
  evfs_register(&s_base, false);
  vp_place(&s_mem, sizeof s_mem);
#if SHIM == 0
  vp_assert(evfs_register_trace("t", "b", report, &s_lines, vp_bool()) == EVFS_OK, "register");
#else
  vp_assert(evfs_register_jail("t", "b", "/j", false) == EVFS_OK, "register");
#endif
  mk_n = 0;
  Evfs *v = evfs_find_vfs("t");
  static char p[] = PATH, q[] = "/q";
  long long rc; bool ok;
#if PART == 0
  int op = vp_range(OP_OPEN, OP_ROOT);
  int k = vp_int(); vp_assume(op != OP_VCTRL || k != EVFS_CMD_UNREGISTER);
  StringRange r;
  switch(op) {
    case OP_STAT: rc = evfs_stat_ex(p, &info, "t"); ok = mk_is(0, op, &s_base, p, 0, 0, 0); if(rc == EVFS_OK) same_info(); break;
    case OP_DELETE: rc = evfs_delete_ex(p, "t"); ok = mk_is(0, op, &s_base, p, 0, 0, 0); break;
    case OP_RENAME: rc = evfs_rename_ex(p, q, "t"); ok = mk_is(0, op, &s_base, p, q, 0, 0); break;
    case OP_MKDIR: rc = evfs_make_dir_ex(p, "t"); ok = mk_is(0, op, &s_base, p, 0, 0, 0); break;
    case OP_OPEN: { EvfsFile *fh = NULL; vp_place(&s_hf, sizeof s_hf); rc = evfs_vfs_open(v, p, &fh, k); ok = mk_is(0, op, &s_base, p, 0, 0, k); vp_assert((fh != NULL) == (rc == EVFS_OK), "a handle exactly on success"); break; }
    case OP_OPENDIR: { EvfsDir *dh = NULL; vp_place(&s_hd, sizeof s_hd); rc = evfs_vfs_open_dir(v, p, &dh); ok = mk_is(0, op, &s_base, p, 0, 0, 0); vp_assert((dh != NULL) == (rc == EVFS_OK), "a handle exactly on success"); break; }
    case OP_GETCWD: rc = evfs_get_cur_dir_ex(&r, "t"); ok = mk_is(0, op, &s_base, &r, 0, 0, 0); break;
    case OP_SETCWD: rc = evfs_set_cur_dir_ex(p, "t"); ok = mk_is(0, op, &s_base, p, 0, 0, 0); break;
    case OP_VCTRL: rc = evfs_vfs_ctrl_ex(k, &info, "t"); ok = mk_is(0, op, &s_base, &info, 0, 0, k); break;
    default: rc = evfs_path_root_component_ex(p, &r, "t"); ok = mk_is(0, op, &s_base, p, 0, 0, 0); vp_assert(r.start == p && r.end == p+1, "the root component is the filesystem's"); break;
  }
  vp_unlocked();
  vp_assert(mk_n == 1, "exactly one operation reaches the filesystem");
  vp_assert(ok, "it is the same operation with the same arguments");
  vp_assert(rc == mk_log[0].ret, "its result is returned unchanged");
  vp_reach("performed");
  if(s_lines) vp_reach("traced");
#elif PART == 1
  int flags = vp_int();
  EvfsFile *f = NULL;
  vp_place(&s_hf, sizeof s_hf);
  rc = evfs_vfs_open(v, p, &f, flags);
  vp_assert(mk_n == 1 && mk_log[0].op == OP_OPEN && mk_log[0].obj == &s_base && mk_log[0].k == flags && rc == mk_log[0].ret, "open performs the same open once and returns its result");
#if SHIM == 0
  vp_assert(mk_log[0].p1 == p, "open passes the path on");
#endif
  vp_assert((f != NULL) == (rc == EVFS_OK), "a handle exactly on success");
  const void *b = mk_log[0].p2;
  int op = vp_range(F_CTRL, F_EOF);
  static char buf[4]; size_t n = vp_uint(); evfs_off_t off = vp_int(); int k = vp_int();
  mk_n = 0;
  int last = 0;
  switch(op) {
    case F_CTRL: rc = evfs_file_ctrl(f, k, &info); ok = mk_is(0, op, b, &info, 0, 0, k); break;
    case F_READ: rc = evfs_file_read(f, buf, n); ok = mk_is(0, op, b, buf, 0, (long long)n, 0); if(rc > 0 && n > 0) vp_assert(buf[0] == mk_rbyte, "the bytes read are the filesystem's"); break;
    case F_WRITE: rc = evfs_file_write(f, buf, n); ok = mk_is(0, op, b, buf, 0, (long long)n, 0); break;
    case F_TRUNC: rc = evfs_file_truncate(f, off); ok = mk_is(0, op, b, 0, 0, off, 0); break;
    case F_SYNC: rc = evfs_file_sync(f); ok = mk_is(0, op, b, 0, 0, 0, 0); break;
    case F_SIZE: rc = evfs_file_size(f); last = mk_n - 1; ok = last >= 0 && last <= 1 && mk_is(last, op, b, 0, 0, 0, 0) && (last == 0 || mk_is(0, F_SYNC, b, 0, 0, 0, 0)); break;
    case F_SEEK: rc = evfs_file_seek(f, off, k); ok = mk_is(0, op, b, 0, 0, off, k); break;
    case F_TELL: rc = evfs_file_tell(f); ok = mk_is(0, op, b, 0, 0, 0, 0); break;
    case F_EOF: rc = evfs_file_eof(f); ok = mk_is(0, op, b, 0, 0, 0, 0); break;
    default: rc = evfs_file_close(f); f = NULL; ok = mk_is(0, F_CLOSE, b, 0, 0, 0, 0); break;
  }
  vp_unlocked();
  vp_assert(mk_n == last + 1, "exactly one operation reaches the file");
  vp_assert(ok, "it is the same operation with the same arguments");
  vp_assert(rc == mk_log[last].ret, "its result is returned unchanged");
  vp_reach("performed");
#else
  EvfsDir *d = NULL;
  vp_place(&s_hd, sizeof s_hd);
  rc = evfs_vfs_open_dir(v, p, &d);
  vp_assert(mk_n == 1 && mk_log[0].op == OP_OPENDIR && mk_log[0].obj == &s_base && rc == mk_log[0].ret, "open performs the same open once and returns its result");
  vp_assert((d != NULL) == (rc == EVFS_OK), "a handle exactly on success");
  const void *b = mk_log[0].p2;
  int op = vp_range(D_CLOSE, D_REWIND);
  mk_n = 0;
  switch(op) {
    case D_READ: rc = evfs_dir_read(d, &info); if(rc == EVFS_OK) same_info(); break;
    case D_REWIND: rc = evfs_dir_rewind(d); break;
    default: rc = evfs_dir_close(d); break;
  }
  vp_unlocked();
  vp_assert(mk_n == 1 && mk_is(0, op, b, 0, 0, 0, 0), "exactly that operation reaches the directory");
  vp_assert(rc == mk_log[0].ret, "its result is returned unchanged");
  vp_reach("performed");
#endif
}
