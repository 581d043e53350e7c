/* Entry points of the core library over a recording filesystem.
   -DPART=0 VFS operations, 1 file and directory operations, 2 names, 3 path helpers */
#include "mock.h"
#include "vplock.h"
static Evfs s_v, s_w;
static const char P1[] = "/a", P2[] = "b";
#define MAYBE(p) (vp_bool() ? (p) : NULL)
static void none(void) { vp_assert(mk_n == 0, "nothing reaches the filesystem"); }
static void once(void) { vp_assert(mk_n == 1, "the operation reaches the filesystem exactly once"); }

#if PART == 0
void harness(void) {
  evfs_init();
  mk_init(&s_v, "v");
  int op = vp_range(OP_OPEN, OP_VCTRL + 2);   /* +1, +2: direct open variants */
  bool missing = vp_bool();
  if(missing) switch(op) {
    case OP_DELETE: s_v.m_delete = NULL; break;   case OP_RENAME: s_v.m_rename = NULL; break;
    case OP_MKDIR: s_v.m_make_dir = NULL; break;  case OP_OPENDIR: case OP_VCTRL + 2: s_v.m_open_dir = NULL; break;
    case OP_GETCWD: s_v.m_get_cur_dir = NULL; break; case OP_SETCWD: s_v.m_set_cur_dir = NULL; break;
    case OP_VCTRL: s_v.m_vfs_ctrl = NULL; break;
    default: missing = false; break;
  }
  bool reg = vp_bool();
  bool direct = op > OP_VCTRL;
  if(direct) vp_assume(reg);
  if(reg) vp_assert(evfs_register(&s_v, vp_bool()) == EVFS_OK, "register");
  vp_assert(evfs_register(NULL, true) == EVFS_ERR_BAD_ARG && evfs_unregister(NULL) == EVFS_ERR_BAD_ARG && evfs_find_vfs(NULL) == NULL, "missing filesystem object is refused");
  const char *name = vp_bool() ? "v" : MAYBE("x");   /* unknown names use the default */
  const char *p = MAYBE(P1), *q = MAYBE(P2);
  Evfs *v = direct ? MAYBE(&s_v) : &s_v;
  EvfsInfo info; EvfsInfo *ip = MAYBE(&info);
  static char marker; EvfsFile *fh = (EvfsFile *)&marker, **fp = MAYBE(&fh); EvfsDir *dh = (EvfsDir *)&marker, **dp = MAYBE(&dh);
  StringRange r, *rp = MAYBE(&r);
  int flags = vp_int(); void *arg = MAYBE(&info); int cmd = vp_int();
  int live = vp_live;
#ifdef ALLOCFAIL
  vp_alloc_fail_ok = 1;
#endif
  int rc; bool bad = !p;
  switch(op) {
    case OP_OPEN: bad |= !fp; rc = evfs_open_ex(p, fp, flags, name); break;
    case OP_STAT: bad |= !ip; rc = evfs_stat_ex(p, ip, name); break;
    case OP_DELETE: rc = evfs_delete_ex(p, name); break;
    case OP_RENAME: bad |= !q; rc = evfs_rename_ex(p, q, name); break;
    case OP_MKDIR: rc = evfs_make_dir_ex(p, name); break;
    case OP_OPENDIR: bad |= !dp; rc = evfs_open_dir_ex(p, dp, name); break;
    case OP_GETCWD: bad = !rp; rc = evfs_get_cur_dir_ex(rp, name); break;
    case OP_SETCWD: rc = evfs_set_cur_dir_ex(p, name); break;
    case OP_VCTRL: bad = false; rc = evfs_vfs_ctrl_ex(cmd, arg, name); break;
    case OP_VCTRL + 1: bad |= !v || !fp; rc = evfs_vfs_open(v, p, fp, flags); break;
    default: bad |= !v || !dp; rc = evfs_vfs_open_dir(v, p, dp); break;
  }
  vp_unlocked();
  bool isopen = op == OP_OPEN || op == OP_VCTRL + 1, isdir = op == OP_OPENDIR || op == OP_VCTRL + 2;
  if(bad) { vp_assert(rc == EVFS_ERR_BAD_ARG, "a missing argument is reported as a bad argument"); none(); vp_reach("bad argument"); }
  else if(!reg) { vp_assert(rc == EVFS_ERR_NO_VFS, "no filesystem is reported"); none(); vp_reach("no filesystem"); }
  else if(missing) { vp_assert(rc == EVFS_ERR_NO_SUPPORT, "an operation the filesystem does not provide is reported as unsupported"); none(); vp_reach("unsupported"); }
  else if(vp_alloc_failed) { vp_assert(rc == EVFS_ERR_ALLOC, "allocation failure is reported"); none(); vp_reach("alloc failed"); }
  else {
    once();
    bool ok = false;
    switch(op) {
      case OP_STAT: ok = mk_is(0, OP_STAT, &s_v, p, ip, 0, 0); break;
      case OP_DELETE: case OP_MKDIR: case OP_SETCWD: ok = mk_is(0, op, &s_v, p, 0, 0, 0); break;
      case OP_RENAME: ok = mk_is(0, op, &s_v, p, q, 0, 0); break;
      case OP_GETCWD: ok = mk_is(0, op, &s_v, rp, 0, 0, 0); break;
      case OP_VCTRL: ok = mk_is(0, op, &s_v, arg, 0, 0, cmd) && mk_log[0].p1 == arg; break;
      default: ok = isopen ? mk_is(0, OP_OPEN, &s_v, p, 0, 0, flags) : mk_is(0, OP_OPENDIR, &s_v, p, 0, 0, 0); break;
    }
    vp_assert(ok, "the filesystem gets the operation with the caller's arguments");
    vp_assert(rc == mk_log[0].ret, "the filesystem's result is returned");
    vp_reach("forwarded");
  }
  if(isopen && fp) {
    if(rc == EVFS_OK) { vp_assert(fh == mk_log[0].p2 && vp_live == live + 1 && mk_open_handles == 1, "a successful open hands out its one handle"); vp_reach("opened"); }
    else { vp_assert(fh == NULL || fh == (EvfsFile *)&marker, "a failed open stores no handle"); vp_assert(vp_live == live, "a failed open leaves no memory behind"); }
  }
  if(isdir && dp) {
    if(rc == EVFS_OK) { vp_assert(dh == mk_log[0].p2 && vp_live == live + 1 && mk_open_dirs == 1, "a successful directory open hands out its one handle"); vp_reach("opened dir"); }
    else { vp_assert(dh == NULL || dh == (EvfsDir *)&marker, "a failed directory open stores no handle"); vp_assert(vp_live == live, "a failed directory open leaves no memory behind"); }
  }
  if(!isopen && !isdir) vp_assert(vp_live == live, "no memory stays behind");
  /* release what was opened */
  vp_alloc_fail_ok = 0;
  if(rc == EVFS_OK && isopen && fp) {
    mk_n = 0; int c = evfs_file_close(fh);
    vp_assert(mk_n == 1 && mk_is(0, F_CLOSE, fh, 0, 0, 0, 0) && c == mk_log[0].ret, "close reaches the filesystem once and returns its result");
    vp_assert(vp_live == live, "closing releases the handle");
  }
  if(rc == EVFS_OK && isdir && dp) {
    mk_n = 0; int c = evfs_dir_close(dh);
    vp_assert(mk_n == 1 && mk_is(0, D_CLOSE, dh, 0, 0, 0, 0) && c == mk_log[0].ret, "directory close reaches the filesystem once and returns its result");
    vp_assert(vp_live == live, "closing releases the directory handle");
  }
}
#elif PART == 1
static EvfsFile s_f = { &mk_fm }; static EvfsDir s_d = { &mk_dm };
void harness(void) {
  evfs_init();
  int op = vp_range(F_CTRL, D_REWIND + 2);
  vp_assume(op != F_CLOSE && op != D_CLOSE);       /* closing is part of the open jobs */
  EvfsFile *f = MAYBE(&s_f); EvfsDir *d = MAYBE(&s_d);
  char buf[4] = "xy"; char *b = MAYBE(buf); EvfsInfo info, *ip = MAYBE(&info);
  size_t n = vp_uint(); evfs_off_t off = vp_int(); int k = vp_int(); void *arg = MAYBE(&info);
  long long rc = 0; bool bad = !f;
  bool isdir = op == D_READ || op == D_REWIND;
  switch(op) {
    case F_CTRL: rc = evfs_file_ctrl(f, k, arg); break;
    case F_READ: bad |= !b; rc = evfs_file_read(f, b, n); break;
    case F_WRITE: bad |= !b; rc = evfs_file_write(f, b, n); break;
    case F_TRUNC: rc = evfs_file_truncate(f, off); break;
    case F_SYNC: rc = evfs_file_sync(f); break;
    case F_SIZE: rc = evfs_file_size(f); break;
    case F_SEEK: rc = evfs_file_seek(f, off, k); break;
    case F_TELL: rc = evfs_file_tell(f); break;
    case F_EOF: if(f) rc = evfs_file_eof(f); else { evfs_file_eof(f); rc = EVFS_ERR_BAD_ARG; } break;
    case D_READ: bad = !d || !ip; rc = evfs_dir_read(d, ip); break;
    case D_REWIND: bad = !d; rc = evfs_dir_rewind(d); break;
    case D_REWIND + 1: bad |= !b; rc = evfs_file_puts(f, b); break;
    default: rc = evfs_file_rewind(f); break;
  }
  vp_unlocked();
  if(bad) { vp_assert(rc == EVFS_ERR_BAD_ARG, "a missing argument is reported as a bad argument"); none(); vp_reach("bad argument"); return; }
  if(op == F_SIZE) {
    vp_assert(mk_n >= 1 && mk_n <= 2 && mk_log[mk_n-1].op == F_SIZE && mk_log[mk_n-1].obj == f && (mk_n == 1 || mk_log[0].op == F_SYNC), "size is asked for once, after flushing");
    vp_assert(rc == mk_log[mk_n-1].ret, "the filesystem's size is returned");
    vp_reach("size"); return;
  }
  once();
  vp_assert(mk_log[0].obj == (isdir ? (void *)d : (void *)f), "the operation is made on the given object");
  bool ok;
  switch(op) {
    case F_CTRL: ok = mk_is(0, F_CTRL, f, 0, 0, 0, k) && mk_log[0].p1 == arg; break;
    case F_READ: case F_WRITE: ok = mk_is(0, op, f, b, 0, (long long)n, 0); break;
    case F_TRUNC: ok = mk_is(0, op, f, 0, 0, off, 0); break;
    case F_SEEK: ok = mk_is(0, op, f, 0, 0, off, k); break;
    case D_READ: ok = mk_is(0, op, d, ip, 0, 0, 0); break;
    case D_REWIND: ok = mk_is(0, op, d, 0, 0, 0, 0); break;
    case D_REWIND + 1: ok = mk_is(0, F_WRITE, f, b, 0, 2, 0); break;
    case D_REWIND + 2: ok = mk_is(0, F_SEEK, f, 0, 0, 0, EVFS_SEEK_TO); break;
    default: ok = mk_is(0, op, f, 0, 0, 0, 0); break;
  }
  vp_assert(ok, "the filesystem gets the operation with the caller's arguments");
  if(op == D_REWIND + 1) vp_assert(rc == (int)mk_log[0].ret, "the filesystem's result is returned");
  else vp_assert(rc == mk_log[0].ret, "the filesystem's result is returned");
  vp_reach("forwarded");
}
#elif PART == 2
static const struct { const char *n; int v; } E[] = {
  {"EVFS_DONE", 1}, {"EVFS_OK", 0}, {"EVFS_ERR", -1}, {"EVFS_ERR_NO_SUPPORT", -2}, {"EVFS_ERR_NO_VFS", -3}, {"EVFS_ERR_IO", -4}, {"EVFS_ERR_CORRUPTION", -5},
  {"EVFS_ERR_NO_FILE", -6}, {"EVFS_ERR_EXISTS", -7}, {"EVFS_ERR_NO_PATH", -8}, {"EVFS_ERR_IS_DIR", -9}, {"EVFS_ERR_NOT_EMPTY", -10}, {"EVFS_ERR_OVERFLOW", -11},
  {"EVFS_ERR_BAD_ARG", -12}, {"EVFS_ERR_FS_FULL", -13}, {"EVFS_ERR_ALLOC", -14}, {"EVFS_ERR_TOO_LONG", -15}, {"EVFS_ERR_AUTH", -16}, {"EVFS_ERR_BAD_NAME", -17},
  {"EVFS_ERR_INIT", -18}, {"EVFS_ERR_DISABLED", -19}, {"EVFS_ERR_INVALID", -20}, {"EVFS_ERR_REPAIRED", -21}, {"EVFS_ERR_NOT_OPEN", -22} };
static const struct { const char *n; int v; } C[] = {
  {"EVFS_CMD_UNREGISTER", EVFS_CMD_UNREGISTER}, {"EVFS_CMD_SET_READONLY", EVFS_CMD_SET_READONLY}, {"EVFS_CMD_SET_NO_DIR_DOTS", EVFS_CMD_SET_NO_DIR_DOTS},
  {"EVFS_CMD_GET_STAT_FIELDS", EVFS_CMD_GET_STAT_FIELDS}, {"EVFS_CMD_GET_DIR_FIELDS", EVFS_CMD_GET_DIR_FIELDS}, {"EVFS_CMD_SET_ROTATE_CFG", EVFS_CMD_SET_ROTATE_CFG},
  {"EVFS_CMD_SET_ROTATE_TRIM", EVFS_CMD_SET_ROTATE_TRIM}, {"EVFS_CMD_GET_RSRC_ADDR", EVFS_CMD_GET_RSRC_ADDR} };
static bool same(const char *a, const char *b) { for(int i = 0; i < 32; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } return false; }
void harness(void) {
  int k = vp_int();
  const char *e = evfs_err_name(k), *c = evfs_cmd_name(k);
  vp_assert(e && c, "every code has a name");
  bool ek = false, ck = false;
  for(int i = 0; i < (int)COUNT_OF(E); i++) if(E[i].v == k) { ek = true; vp_assert(same(e, E[i].n), "error code prints its own name"); }
  for(int i = 0; i < (int)COUNT_OF(C); i++) if(C[i].v == k) { ck = true; vp_assert(same(c, C[i].n), "command code prints its own name"); }
  if(!ek && (k < -40 || k > 1)) vp_assert(same(e, "<unknown>"), "an unknown error code is named as such");
  if(!ck && k < 0) vp_assert(same(c, "<unknown>"), "an unknown command code is named as such");
  if(ek) vp_reach("error"); if(ck) vp_reach("command"); if(!ek && !ck) vp_reach("unknown");
}
#else
/* helpers working on paths: missing arguments (REG=1), missing filesystem (REG=0); what they do with
   valid arguments is C01..C03 and C21 */
void harness(void) {
  evfs_init();
  mk_init(&s_v, "v");
  if(REG) evfs_register(&s_v, true);
  const char *name = MAYBE("v");
  static char out[16], in[] = "/a/b";
#if REG
  for(int m = 1; m < 8; m++) for(int op = 0; op < 12; op++) {
    const char *p = (m & 1) ? NULL : in; StringRange r, h, t, *rp = (m & 2) ? NULL : &r, *hp = (m & 1) ? NULL : &h, *tp = (m & 4) ? NULL : &t;
    if((op != 3 && (m & 4)) || ((op >= 6 && op <= 9) && (m & 2)) || (op == 10 && m != 2)) continue;
#else
    int op = vp_range(0, 10);
    const char *p = MAYBE(in); StringRange r, h, t, *rp = MAYBE(&r), *hp = MAYBE(&h), *tp = MAYBE(&t);
#endif
    range_init(&r, out, sizeof out); range_init(&h, in, 4); range_init(&t, P2, 1);
    int rc = 0; bool bad = !p || !rp, boolean = false;
    switch(op) {
      case 0: rc = evfs_path_normalize_ex(p, rp, name); break;
      case 1: rc = evfs_path_absolute_ex(p, rp, name); break;
      case 2: rc = evfs_path_dirname_ex(p, rp, name); break;
      case 3: bad = !rp || !hp || !tp; rc = evfs_path_join_ex(hp, tp, rp, name); break;
      case 4: rc = evfs_path_join_str_ex(p, P2, rp, name); break;
      case 5: boolean = true; rc = evfs_path_root_component_ex(p, rp, name); break;
      case 6: boolean = true; bad = !p; rc = evfs_path_is_absolute_ex(p, name); break;
      case 7: bad = !p; boolean = true; rc = evfs_existing_file_ex(p, name); break;
      case 8: bad = !p; boolean = true; rc = evfs_existing_dir_ex(p, name); break;
      case 9: bad = !p; rc = evfs_make_path_ex(p, name); break;
      case 10: bad = !rp; rc = evfs_make_path_range_ex(rp, name); break;
      default:
        vp_assert(evfs_path_basename(p, rp) == EVFS_ERR_BAD_ARG && evfs_path_extname(p, rp) == EVFS_ERR_BAD_ARG, "a missing argument is reported as a bad argument");
        vp_assert(!evfs_vfs_path_is_absolute(NULL, p) && !evfs_vfs_path_is_absolute(&s_v, NULL), "a missing argument is no success");
        vp_assert(evfs_copy_to_file_ex(p, NULL, NULL, 0, name) == EVFS_ERR_BAD_ARG, "a missing argument is reported as a bad argument");
        rc = EVFS_ERR_BAD_ARG; break;
    }
    vp_unlocked();
    if(bad) { if(boolean) vp_assert(!rc, "a missing argument is no success"); else vp_assert(rc == EVFS_ERR_BAD_ARG, "a missing argument is reported as a bad argument"); }
    else { if(boolean) vp_assert(!rc, "no filesystem is no success"); else vp_assert(rc == EVFS_ERR_NO_VFS, "no filesystem is reported"); }
    vp_assert(mk_n == 0, "nothing reaches the filesystem");
#if REG
  }
#endif
  vp_reach("done");
}
#endif
