/* Recording filesystem: every method logs one call and answers with a drawn result. */
#ifndef MOCK_H
#define MOCK_H
#include "vp.h"
#include "evfs.h"
enum { OP_NONE, OP_OPEN, OP_STAT, OP_DELETE, OP_RENAME, OP_MKDIR, OP_OPENDIR, OP_GETCWD, OP_SETCWD, OP_VCTRL, OP_ROOT,
       F_CTRL, F_CLOSE, F_READ, F_WRITE, F_TRUNC, F_SYNC, F_SIZE, F_SEEK, F_TELL, F_EOF, D_CLOSE, D_READ, D_REWIND };
typedef struct { int op; const void *obj, *p1, *p2; long long n; int k; long long ret; } MkCall;
#ifndef MK_OPENRC
#define MK_OPENRC vp_int()
#endif
#ifndef MK_MAX
#define MK_MAX 4
#endif
static MkCall mk_log[MK_MAX]; static int mk_n;       /* all calls but sync-before-size */
static int mk_syncs, mk_open_handles, mk_open_dirs;
static void mk_add(int op, const void *obj, const void *p1, const void *p2, long long n, int k, long long ret) {
  vp_assert(mk_n < MK_MAX, "an operation reaches the filesystem a bounded number of times");
  mk_log[mk_n].op = op; mk_log[mk_n].obj = obj; mk_log[mk_n].p1 = p1; mk_log[mk_n].p2 = p2;
  mk_log[mk_n].n = n; mk_log[mk_n].k = k; mk_log[mk_n].ret = ret; mk_n++;
}
#ifdef VP_REPLAY
#define MK_PRE
#endif
typedef struct { EvfsFile base; char tag[8]; } MkFile;
typedef struct { EvfsDir base; char tag[8]; } MkDir;
#ifndef MK_FH
#define MK_FH(x) (x)
#endif
static char mk_rbyte;
static int mf_ctrl(EvfsFile *f, int c, void *a) { int r = vp_int(); mk_add(F_CTRL, f, a, 0, 0, c, r); return r; }
static int mf_close(EvfsFile *f) { int r = vp_int(); mk_add(F_CLOSE, f, 0, 0, 0, 0, r); mk_open_handles--; return r; }
static ptrdiff_t mf_read(EvfsFile *f, void *b, size_t n) { long r = vp_long(); mk_add(F_READ, f, b, 0, n, 0, r); if(r > 0 && n > 0) { mk_rbyte = vp_char(); ((char *)b)[0] = mk_rbyte; } return r; }
static ptrdiff_t mf_write(EvfsFile *f, const void *b, size_t n) { long r = vp_long(); mk_add(F_WRITE, f, b, 0, n, 0, r); return r; }
static int mf_trunc(EvfsFile *f, evfs_off_t n) { int r = vp_int(); mk_add(F_TRUNC, f, 0, 0, n, 0, r); return r; }
static int mf_sync(EvfsFile *f) { int r = vp_int(); mk_add(F_SYNC, f, 0, 0, 0, 0, r); return r; }
static evfs_off_t mf_size(EvfsFile *f) { evfs_off_t r = vp_int(); mk_add(F_SIZE, f, 0, 0, 0, 0, r); return r; }
static int mf_seek(EvfsFile *f, evfs_off_t n, EvfsSeekDir d) { int r = vp_int(); mk_add(F_SEEK, f, 0, 0, n, d, r); return r; }
static evfs_off_t mf_tell(EvfsFile *f) { evfs_off_t r = vp_int(); mk_add(F_TELL, f, 0, 0, 0, 0, r); return r; }
static bool mf_eof(EvfsFile *f) { bool r = vp_bool(); mk_add(F_EOF, f, 0, 0, 0, 0, r); return r; }
static const EvfsFileMethods mk_fm = { mf_ctrl, mf_close, mf_read, mf_write, mf_trunc, mf_sync, mf_size, mf_seek, mf_tell, mf_eof };
static char mk_name[4] = "n";
static int md_close(EvfsDir *d) { int r = vp_int(); mk_add(D_CLOSE, d, 0, 0, 0, 0, r); mk_open_dirs--; return r; }
static EvfsInfo mk_last;
static void mk_info(EvfsInfo *i, int r) { if(r == EVFS_OK) { i->name = mk_name; i->size = vp_int(); i->mtime = vp_int(); i->type = vp_u8(); mk_last = *i; } }
static int md_read(EvfsDir *d, EvfsInfo *i) { int r = vp_int(); mk_add(D_READ, d, i, 0, 0, 0, r); mk_info(i, r); return r; }
static int md_rewind(EvfsDir *d) { int r = vp_int(); mk_add(D_REWIND, d, 0, 0, 0, 0, r); return r; }
static const EvfsDirMethods mk_dm = { md_close, md_read, md_rewind };
static int mk_open(Evfs *v, const char *p, EvfsFile *f, int flags) {
  int r = MK_OPENRC; mk_add(OP_OPEN, v, p, f, 0, flags, r);
  if(r == EVFS_OK) { f->methods = &mk_fm; mk_open_handles++; }
  return r;
}
static int mk_stat(Evfs *v, const char *p, EvfsInfo *i) { int r = vp_int(); mk_add(OP_STAT, v, p, i, 0, 0, r); mk_info(i, r); return r; }
static int mk_delete(Evfs *v, const char *p) { int r = vp_int(); mk_add(OP_DELETE, v, p, 0, 0, 0, r); return r; }
static int mk_rename(Evfs *v, const char *a, const char *b) { int r = vp_int(); mk_add(OP_RENAME, v, a, b, 0, 0, r); return r; }
static int mk_mkdir(Evfs *v, const char *p) { int r = vp_int(); mk_add(OP_MKDIR, v, p, 0, 0, 0, r); return r; }
static int mk_opendir(Evfs *v, const char *p, EvfsDir *d) {
  int r = MK_OPENRC; mk_add(OP_OPENDIR, v, p, d, 0, 0, r);
  if(r == EVFS_OK) { d->methods = &mk_dm; mk_open_dirs++; }
  return r;
}
static int mk_getcwd(Evfs *v, StringRange *s) { int r = vp_int(); mk_add(OP_GETCWD, v, s, 0, 0, 0, r); return r; }
static int mk_setcwd(Evfs *v, const char *p) { int r = vp_int(); mk_add(OP_SETCWD, v, p, 0, 0, 0, r); return r; }
static int mk_vctrl(Evfs *v, int c, void *a) { int r = vp_int(); mk_add(OP_VCTRL, v, a, 0, 0, c, r); return r; }
static bool mk_root(Evfs *v, const char *p, StringRange *s) { bool r = vp_bool(); mk_add(OP_ROOT, v, p, s, 0, 0, r); s->start = p; s->end = p + (p[0] == '/'); return r; }
static void mk_init(Evfs *v, const char *name) {
  v->vfs_name = name; v->vfs_file_size = sizeof(MkFile); v->vfs_dir_size = sizeof(MkDir);
  v->m_open = mk_open; v->m_stat = mk_stat;
  v->m_delete = mk_delete; v->m_rename = mk_rename; v->m_make_dir = mk_mkdir; v->m_open_dir = mk_opendir;
  v->m_get_cur_dir = mk_getcwd; v->m_set_cur_dir = mk_setcwd; v->m_vfs_ctrl = mk_vctrl; v->m_path_root_component = mk_root;
}
static bool mk_is(int i, int op, const void *obj, const void *p1, const void *p2, long long n, int k) {
  return i < mk_n && mk_log[i].op == op && mk_log[i].obj == obj && (!p1 || mk_log[i].p1 == p1) && (!p2 || mk_log[i].p2 == p2) && mk_log[i].n == n && mk_log[i].k == k;
}
#endif
