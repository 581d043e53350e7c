/* Host-file wrapper over a modelled host.  Every host call records itself and answers with drawn results.
   PART 0 open flags, 1 file operations, 2 filesystem operations, 3 listing, 4 read-only, 5 positions. */
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include "vp.h"
#include "evfs.h"
#define _Bool_ bool
typedef struct { int dummy; } HFILE;
typedef struct { int dummy; } HDIR;
static HFILE h_file; static HDIR h_dir; static struct dirent h_ent;
static int h_errno2;
/* ---- host state ---- */
static const char *h_path, *h_path2;     /* paths of the last call */
static int h_calls;                      /* host calls that reached the object */
static bool h_mut, h_touch;              /* something modified / reached the host */
static bool x_ex, x_trunc, x_created, x_opened; static int x_open, x_dirs;
static bool m_r, m_w, m_a, m_t, m_b, m_x;            /* mode of the stream */
static long h_size, h_pos; static bool h_eof, h_err, h_dirty;
static int h_badfail;
static const void *a_buf; static size_t a_n, a_sz; static long a_off; static int a_org; static long a_ret; static int a_kind;
static int err_draw(void) { int e = vp_int(); vp_assume(e > 0 && e < 134); h_errno2 = e; return e; }
#define H_PATH 8
static HFILE *h_fopen(const char *p, const char *mode) {
  h_path = p; h_touch = true;
  bool plus = false, b = false, x = false; char k = mode[0];
  for(int i = 1; i < 5 && mode[i]; i++) { if(mode[i] == '+') plus = true; else if(mode[i] == 'b') b = true; else if(mode[i] == 'x') x = true; else vp_assert(0, "a defined mode"); }
  vp_assert(k == 'r' || k == 'w' || k == 'a', "a defined mode");
  vp_assert(!x || k == 'w', "exclusive creation only with w");
  if(k != 'r') h_mut = true;
  if(vp_bool()) { err_draw(); h_badfail++; return NULL; }
  if(k == 'r' && !x_ex) { h_errno2 = ENOENT; return NULL; }
  if(x && x_ex) { h_errno2 = EEXIST; return NULL; }
  if(k == 'w' && x_ex) x_trunc = true;
  if(!x_ex) { x_ex = true; x_created = true; }
  m_r = k == 'r' || plus; m_w = k != 'r' || plus; m_a = k == 'a'; m_b = b; m_x = x;
  vp_assert(x_open == 0, "one stream at a time");
  x_open++;
  return &h_file;
}
static int h_fclose(HFILE *f) { vp_assert(f == &h_file && x_open == 1, "the stream is closed once"); x_open--; if(vp_bool()) { h_badfail++; err_draw(); return EOF; } h_dirty = false; return 0; }
static int h_stat(const char *p, struct stat *s) {
  h_path = p;
  s->st_size = h_size; s->st_mode = (mode_t)vp_uint(); s->st_mtim.tv_sec = vp_int();
  if(vp_bool()) { err_draw(); h_badfail++; return -1; }
  if(!x_ex) { h_errno2 = ENOENT; return -1; }
  return 0;
}
static int h_fileno(HFILE *f) { vp_assert(f == &h_file, "the stream of this handle"); return 7; }
static int h_fstat(int fd, struct stat *s) { vp_assert(fd == 7, "the descriptor of this handle"); s->st_mode = 0; s->st_mtim.tv_sec = 0; if(vp_bool()) { h_badfail++; err_draw(); s->st_size = 0; return -1; } s->st_size = h_size; return 0; }
static size_t h_fread(void *b, size_t sz, size_t n, HFILE *f) {
  vp_assert(f == &h_file, "the stream of this handle"); h_calls++; a_kind = 'r'; a_buf = b; a_sz = sz; a_n = n;
  size_t r = (size_t)vp_long(); vp_assume(r <= n);
  if(r < n) { if(vp_bool()) h_err = true; else h_eof = true; }
  a_ret = (long)r; return r;
}
static size_t h_fwrite(const void *b, size_t sz, size_t n, HFILE *f) {
  vp_assert(f == &h_file, "the stream of this handle"); h_calls++; h_mut = true; a_kind = 'w'; a_buf = b; a_sz = sz; a_n = n;
  size_t r = (size_t)vp_long(); vp_assume(r <= n);
  if(r < n) h_err = true;
  if(r > 0) h_dirty = true;
  a_ret = (long)r; return r;
}
static int h_ferror(HFILE *f) { return h_err; }
static void h_clearerr(HFILE *f) { h_err = false; h_eof = false; }
static int h_feof(HFILE *f) { vp_assert(f == &h_file, "the stream of this handle"); return h_eof ? 1 : 0; }
static int h_fflush(HFILE *f) { vp_assert(f == &h_file, "the stream of this handle"); h_calls++; a_kind = 'f'; if(vp_bool()) { h_badfail++; h_err = true; err_draw(); return EOF; } h_dirty = false; return 0; }
static int h_ftruncate(int fd, off_t n) { vp_assert(fd == 7, "the descriptor of this handle"); vp_assert(!h_dirty, "nothing buffered is left to reappear after the truncation"); h_calls++; h_mut = true; a_kind = 't'; a_off = n; if(vp_bool()) { h_badfail++; err_draw(); return -1; } h_size = n; return 0; }
static int h_fseek(HFILE *f, long o, int org) {
  vp_assert(f == &h_file, "the stream of this handle"); h_calls++; a_kind = 's'; a_off = o; a_org = org;
  if(vp_bool()) { h_badfail++; err_draw(); return -1; }
  long t = org == SEEK_SET ? o : org == SEEK_CUR ? h_pos + o : h_size + o;
  if(t < 0) { h_errno2 = EINVAL; return -1; }
  h_pos = t; h_eof = false; return 0;
}
static long h_ftell(HFILE *f) { vp_assert(f == &h_file, "the stream of this handle"); return h_pos; }
static int h_rc(int k, const char *p, const char *q) { h_path = p; h_path2 = q; h_calls++; h_mut = true; h_touch = true; a_kind = k; a_ret = 0; if(vp_bool()) { h_badfail++; err_draw(); a_ret = -1; } return (int)a_ret; }
static int h_remove(const char *p) { return h_rc('d', p, 0); }
static int h_rename(const char *p, const char *q) { return h_rc('n', p, q); }
static int h_mkdir(const char *p, mode_t m) { return h_rc('m', p, 0); }
static int h_chdir(const char *p) { int r = h_rc('c', p, 0); h_mut = false; return r; }
static char *h_getcwd(char *b, size_t n) { h_calls++; a_kind = 'g'; a_buf = b; a_n = n; if(vp_bool() || n < 2) { h_badfail++; err_draw(); return NULL; } b[0] = '/'; b[1] = 0; return b; }
static HDIR *h_opendir(const char *p) { h_path = p; if(vp_bool()) { err_draw(); h_badfail++; return NULL; } x_dirs++; return &h_dir; }
static int h_closedir(HDIR *d) { vp_assert(d == &h_dir && x_dirs == 1, "the directory is closed once"); x_dirs--; return 0; }
#ifndef K
#define K 4
#endif
static int d_kind[K], d_n, d_pos; static bool d_isdir[K];     /* 0 '.', 1 '..', 2 '.x', 3 'a' 4 '...' */
static const char *const d_names[5] = { ".", "..", ".x", "a", "..." };
static struct dirent *h_readdir(HDIR *d) {
  vp_assert(d == &h_dir && x_dirs == 1, "the directory of this handle");
  for(int i = 0; i < K; i++) if(i == d_pos && i < d_n) {
    d_pos++;
    int k = d_kind[i];
    h_ent.d_name[0] = k == 3 ? 'a' : '.'; h_ent.d_name[1] = k == 0 || k == 3 ? 0 : k == 2 ? 'x' : '.'; h_ent.d_name[2] = k == 4 ? '.' : 0; h_ent.d_name[3] = 0;
    h_ent.d_type = d_isdir[i] ? DT_DIR : DT_REG;
    return &h_ent;
  }
  return NULL;
}
static void h_rewinddir(HDIR *d) { vp_assert(d == &h_dir, "the directory of this handle"); d_pos = 0; }
#define FILE HFILE
#define DIR HDIR
#undef errno
#define errno h_errno2
#undef feof
#undef ferror
#undef fileno
#undef clearerr
#define fopen h_fopen
#define fclose h_fclose
#define stat(p,s) h_stat(p,s)
#define fileno h_fileno
#define fstat h_fstat
#define fread h_fread
#define fwrite h_fwrite
#define ferror h_ferror
#define clearerr h_clearerr
#define feof h_feof
#define fflush h_fflush
#define ftruncate h_ftruncate
#define fseek h_fseek
#define ftell h_ftell
#define remove h_remove
#define rename h_rename
#define mkdir h_mkdir
#define chdir h_chdir
#define getcwd h_getcwd
#define opendir h_opendir
#define closedir h_closedir
#define readdir h_readdir
#define rewinddir h_rewinddir
#include "stdio_fs.c"
#undef stat
#undef FILE

static Evfs *const V = &s_stdio_vfs;
static StdioFile s_f; static EvfsFile *const F = &s_f.base; static StdioDir s_d; static EvfsDir *const D = &s_d.base;
static EvfsInfo s_i;
static const char P[] = "p", Q[] = "q";
static void ro(unsigned v) { vp_assert(V->m_vfs_ctrl(V, EVFS_CMD_SET_READONLY, &v) == EVFS_OK, "read-only can be set"); }
static void opened(void) { x_ex = true; s_f.base.methods = &s_stdio_methods; s_f.fp = &h_file; s_f.fs_data = &s_stdio_data; x_open = 1; h_size = vp_int(); h_pos = vp_int(); vp_assume(h_size >= 0 && h_pos >= 0); }
static int kind_of(int e) {
  switch(e) { case EIO: return EVFS_ERR_IO; case ENOENT: return EVFS_ERR_NO_FILE; case EEXIST: return EVFS_ERR_EXISTS; case ENOTDIR: return EVFS_ERR_NO_PATH; case EISDIR: return EVFS_ERR_IS_DIR;
    case ENOTEMPTY: return EVFS_ERR_NOT_EMPTY; case ENOSPC: return EVFS_ERR_FS_FULL; case ENOMEM: return EVFS_ERR_ALLOC; case ENAMETOOLONG: return EVFS_ERR_TOO_LONG; case EACCES: return EVFS_ERR_AUTH; default: return 0; }
}
#define KIND(rc) vp_assert((rc) < 0 && (!kind_of(h_errno2) || (rc) == kind_of(h_errno2)), "a host error is reported as an error of its kind")

#if PART == 0
void harness(void) {
  int fl = vp_range(0, 63); bool was = x_ex = vp_bool();
  bool R = fl & EVFS_READ, W = fl & EVFS_WRITE, N = fl & EVFS_OPEN_OR_NEW, X = fl & EVFS_NO_EXIST, O = fl & EVFS_OVERWRITE, A = fl & EVFS_APPEND;
  vp_assume(!(A && (O || X)) && !(X && N));          /* contradictory requests carry no meaning */
  int rc = V->m_open(V, P, F, fl);
  vp_assert(h_path == P, "the path is passed on");
  vp_assert((rc == EVFS_OK) == (x_open == 1), "success exactly when the host opened the file");
  if(rc == EVFS_OK) {
    bool cr = N || X || O || A || (W && !R);
    vp_assert(was || cr, "nothing is created unless the flags ask for it");
    vp_assert(!(was && X), "an existing file is refused on request");
    vp_assert(!x_trunc || O || (W && !R && !N && !A), "content is cut only when the flags say so");
    if(was && O) vp_assert(x_trunc, "overwrite cuts the existing content");
    if(R && (W || !(A || O || X))) vp_assert(m_r, "readable when asked");
    if(W) vp_assert(m_w, "writable when asked");
    if(A) vp_assert(m_a, "appends go to the end"); else vp_assert(!m_a, "no appending unless asked");
    if(!W && !O && !X && !A) vp_assert(!m_w, "not writable unless asked");
    vp_assert(m_b, "binary mode");
    if(x_created) vp_reach("created");
    if(x_trunc) vp_reach("truncated");
  } else {
    vp_assert(!x_trunc, "a refused open cuts nothing");
    if(h_badfail == 0) {                    /* the host did not fail by itself */
      vp_assert((was && X) || (!was && !(N || X || O || A || (W && !R))), "refused only when the flags say so");
      vp_assert(rc == (was ? EVFS_ERR_EXISTS : EVFS_ERR_NO_FILE), "the reason is reported");
      if(was) vp_reach("refused: exists"); else vp_reach("refused: missing");
    } else KIND(rc);
  }
}
#endif
#if PART == 1
void harness(void) {
  int op = vp_range(0, 8);
  char *buf = (char *)&s_i; size_t n = (size_t)vp_long(); vp_assume((long)n >= 0);
  opened();
  if(vp_bool()) h_err = true;
  if(op == 0) {
    h_err = false;
    ptrdiff_t r = F->methods->m_read(F, buf, n);
    vp_assert(h_calls == 1 && a_kind == 'r' && a_buf == buf && a_sz * a_n == n, "a read asks the host for the same bytes");
    if(a_ret > 0) vp_assert(r == a_ret, "a read reports what the host delivered");
    else if(n > 0 && h_err) vp_assert(r < 0, "a failed read is an error");
    else vp_assert(r == 0, "end of file reads nothing");
    if(r < 0) vp_reach("read error");
  } else if(op == 1) {
    h_err = false;
    ptrdiff_t r = F->methods->m_write(F, buf, n);
    vp_assert(h_calls == 1 && a_kind == 'w' && a_buf == buf && a_sz * a_n == n, "a write passes the same bytes to the host");
    if(a_ret > 0) vp_assert(r == a_ret, "a write reports what the host took");
    else vp_assert(n > 0 ? r < 0 : r == 0, "a failed write is an error");
  } else if(op == 2) {
    h_dirty = vp_bool(); int to = vp_int();
    int rc = F->methods->m_truncate(F, to);
    vp_assert((rc == EVFS_OK) == (h_badfail == 0) && rc <= 0, "truncation succeeds exactly when the host did");
    if(rc == EVFS_OK) vp_assert(a_kind == 't' && a_off == to, "the host cuts to the same size");
  } else if(op == 3) {
    int rc = F->methods->m_sync(F);
    vp_assert(a_kind == 'f' && (rc == EVFS_OK) == (h_badfail == 0) && rc <= 0, "sync succeeds exactly when the host did");
  } else if(op == 4) {
    evfs_off_t s = F->methods->m_size(F);
    if(h_badfail == 0) vp_assert(s == h_size, "the size is the host's");
  } else if(op == 5) {
    evfs_off_t t = F->methods->m_tell(F);
    vp_assert(t == h_pos, "the position is the host's");
  } else if(op == 6) {
    int rc = F->methods->m_close(F);
    vp_assert(x_open == 0, "closing closes the host file");
    vp_assert((rc == EVFS_OK) == (h_badfail == 0) && rc <= 0, "closing succeeds exactly when the host did");
  } else if(op == 7) {
    int o = vp_int(), org = vp_range(1, 3); vp_assume(org == EVFS_SEEK_REL || o >= 0);
    long was = h_pos, t = org == EVFS_SEEK_TO ? o : org == EVFS_SEEK_REL ? h_pos + o : h_size - o;
    int rc = F->methods->m_seek(F, o, org);
    if(rc == EVFS_OK) vp_assert(h_pos == t && h_badfail == 0, "a seek moves the host file to the requested position");
    else vp_assert(rc < 0 && h_pos == was && (h_badfail || t < 0), "a seek fails only when the host does");
    if(rc == EVFS_OK && org == EVFS_SEEK_REV && o > 0) vp_reach("from the end");
  } else {
    h_eof = vp_bool();
    bool e = F->methods->m_eof(F), was = h_eof;
    if(h_badfail == 0) vp_assert(e == (was || h_pos >= h_size), "end of file is reported exactly at or past the end");
  }
}
#endif
#if PART == 2
static char s_cwd[4];
void harness(void) {
  int op = vp_range(0, 6), rc;
  x_ex = vp_bool();
  if(op == 0) {
    h_size = vp_int(); vp_assume(h_size >= 0);
    s_i.name = P; s_i.type = vp_u8(); s_i.size = vp_int();
    rc = V->m_stat(V, P, &s_i);
    vp_assert(h_path == P, "the path is passed on");
    vp_assert((rc == EVFS_OK) == (x_ex && h_badfail == 0), "success only when the host found the object");
    if(rc == EVFS_OK) vp_assert(s_i.size == h_size, "the size is the host's"); else KIND(rc);
  } else if(op == 1) { rc = V->m_delete(V, P); vp_assert(h_calls == 1 && a_kind == 'd' && h_path == P && (rc == EVFS_OK) == (a_ret == 0) && rc <= 0, "delete is carried out on the same path and reports the host's outcome"); }
  else if(op == 2) { rc = V->m_rename(V, P, Q); vp_assert(h_calls == 1 && a_kind == 'n' && h_path == P && h_path2 == Q && (rc == EVFS_OK) == (a_ret == 0) && rc <= 0, "rename is carried out on the same paths and reports the host's outcome"); }
  else if(op == 3) { rc = V->m_make_dir(V, P); vp_assert(h_calls == 1 && a_kind == 'm' && h_path == P && (rc == EVFS_OK) == (a_ret == 0), "a directory is made at the same path"); if(a_ret) KIND(rc); }
  else if(op == 4) { rc = V->m_set_cur_dir(V, P); vp_assert(h_calls == 1 && a_kind == 'c' && h_path == P && (rc == EVFS_OK) == (a_ret == 0) && rc <= 0, "the working directory is changed to the same path"); }
  else if(op == 5) {
    StringRange r; range_init(&r, s_cwd, sizeof s_cwd);
    rc = V->m_get_cur_dir(V, &r);
    vp_assert(a_kind == 'g' && a_buf == s_cwd && a_n <= sizeof s_cwd, "the working directory goes to the caller's range");
    vp_assert((rc == EVFS_OK) == (h_badfail == 0) && rc <= 0, "and is reported only when the host did");
  } else {
    rc = V->m_open_dir(V, P, D);
    vp_assert(h_path == P && (rc == EVFS_OK) == (x_dirs == 1) && rc <= 0, "a directory is opened exactly when the host opens it");
    if(rc == EVFS_OK) { D->methods->m_close(D); vp_assert(x_dirs == 0, "closing closes the host directory"); vp_reach("directory opened"); }
  }
}
#endif
#if PART == 3
void harness(void) {
  unsigned dots = vp_bool();
  d_n = vp_range(0, K);
  for(int i = 0; i < K; i++) { d_kind[i] = vp_range(0, 4); d_isdir[i] = vp_bool(); }
  V->m_vfs_ctrl(V, EVFS_CMD_SET_NO_DIR_DOTS, &dots);
  s_d.base.methods = &s_stdio_dir_methods; s_d.dp = &h_dir; s_d.fs_data = &s_stdio_data; x_dirs = 1;
  int first = vp_range(0, K);
  for(int i = 0; i < K; i++) if(i < first) D->methods->m_read(D, &s_i);
  if(first > 0 || vp_bool()) { vp_assert(D->methods->m_rewind(D) == EVFS_OK, "rewinding works"); }
  for(int i = 0; i < K; i++) if(i < d_n && !(dots && d_kind[i] < 2)) {
    int rc = D->methods->m_read(D, &s_i);
    vp_assert(rc == EVFS_OK && s_i.name, "every entry is listed");
    const char *n = s_i.name; int k = n[0] == 'a' ? 3 : n[1] == 0 ? 0 : n[1] == 'x' ? 2 : n[2] == 0 ? 1 : 4;
    vp_assert(k == d_kind[i], "entries are listed once, in the host's order, with their names");
    vp_assert(!(s_i.type & EVFS_FILE_DIR) == !d_isdir[i], "with their types");
    if(dots) vp_reach("listed without dots");
  }
  vp_assert(D->methods->m_read(D, &s_i) == EVFS_DONE, "then the listing ends");
  vp_assert(D->methods->m_read(D, &s_i) == EVFS_DONE, "and stays ended");
}
#endif
#if PART == 4
void harness(void) {
  int op = vp_range(0, 7);
  opened(); x_open = 0;
  ro(1 + (vp_uint() & 7));
  int rc = EVFS_ERR_DISABLED;
  if(op == 0) {
    int fl = vp_int();
    x_ex = vp_bool();
    rc = V->m_open(V, P, F, fl);
    if(fl & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) { vp_assert(rc == EVFS_ERR_DISABLED && !h_touch, "an open that would modify is refused before the host is reached"); vp_reach("open refused"); }
    else { vp_assert((rc == EVFS_OK) == (x_ex && !h_badfail), "reading stays possible"); if(rc == EVFS_OK) vp_reach("opened for reading"); }
    rc = EVFS_ERR_DISABLED;
  }
  else if(op == 1) rc = V->m_delete(V, P);
  else if(op == 2) rc = V->m_rename(V, P, Q);
  else if(op == 3) rc = V->m_make_dir(V, P);
  else if(op == 4) rc = (int)F->methods->m_write(F, &s_i, vp_range(0, 8));
  else if(op == 5) rc = F->methods->m_truncate(F, vp_int());
  else if(op == 6) { vp_assert(F->methods->m_read(F, &s_i, 4) == a_ret || h_err, "reading stays possible"); }
  else { x_ex = true; V->m_stat(V, P, &s_i); F->methods->m_size(F); F->methods->m_eof(F); F->methods->m_seek(F, vp_int() & 0xff, EVFS_SEEK_TO); x_open = 1; F->methods->m_close(F); }
  vp_assert(rc == EVFS_ERR_DISABLED, "a modification is refused with a read-only error");
  vp_assert(!h_mut, "the host is never modified");
}
#endif
