/* Copying an open file: N source bytes, every buffer size, faults and short transfers at any point. */
#include "vp.h"
#include "evfs.h"
#ifndef N
#define N 5
#endif
#ifndef BUF
#define BUF 4
#endif
static uint8_t s_key;                    /* source byte at position p is p + key: transfers are position-exact */
static int pos0, s_size, s_pos, s_wrote, s_closed, s_src_closed, s_trouble, s_short, s_read_calls;
static int s_open_flags;
static bool s_sizeerr;
static ptrdiff_t src_read(EvfsFile *f, void *b, size_t n) {
  vp_assert(b != NULL, "source is read into a buffer");
  if(vp_bool()) { s_trouble++; return -vp_range(1, 22); }
  int left = s_size - s_pos; if(left < 0) left = 0;
  int k = left < (int)n ? left : (int)n;
  if(k > 0 && vp_bool()) { int h = vp_range(0, k-1); s_short++; k = h; }       /* the storage stops early */
  for(int i = 0; i < N; i++) if(i < k) ((uint8_t *)b)[i] = (uint8_t)(s_pos + i + s_key);
  s_pos += k;
  return k;
}
static evfs_off_t src_size(EvfsFile *f) { return s_sizeerr ? -4 : s_size; }
static int src_sync(EvfsFile *f) { return EVFS_OK; }
static int src_close(EvfsFile *f) { s_src_closed++; return EVFS_OK; }
static ptrdiff_t dst_write(EvfsFile *f, const void *b, size_t n) {
  vp_assert(s_closed == 0, "the copy is not used after closing");
  if(vp_bool()) { s_trouble++; return -vp_range(1, 22); }
  int k = (int)n;
  if(k > 0 && vp_bool()) { k = vp_range(0, k-1); s_trouble++; }
  vp_assert(k >= 0 && k <= N, "no more than the source is written");
  for(int i = 0; i < N; i++) if(i < k && pos0 == 0) vp_assert(((const uint8_t *)b)[i] == (uint8_t)(s_wrote + i + s_key), "the copied bytes are the source's, in order");
  s_wrote += k;
  return k;
}
static int dst_close(EvfsFile *f) { s_closed++; if(vp_bool()) { s_trouble++; return -vp_range(1, 22); } return EVFS_OK; }
static int dst_sync(EvfsFile *f) { return EVFS_OK; }
static const EvfsFileMethods src_m = { .m_read = src_read, .m_size = src_size, .m_sync = src_sync, .m_close = src_close };
static const EvfsFileMethods dst_m = { .m_write = dst_write, .m_close = dst_close, .m_sync = dst_sync };
static EvfsFile s_src = { &src_m };
static int d_opens;
static int d_open(Evfs *v, const char *p, EvfsFile *f, int flags) {
  s_open_flags = flags; d_opens++;
  vp_assert(p[0] == '/' && p[1] == 'd' && p[2] == 0, "the copy is made under the requested path");
  if(vp_bool()) { s_trouble++; return -vp_range(1, 22); }
  f->methods = &dst_m; return EVFS_OK;
}
static Evfs s_v, s_o;
static int o_open(Evfs *v, const char *p, EvfsFile *f, int flags) { vp_assert(0, "the named filesystem is used"); return EVFS_ERR; }
static int n_stat(Evfs *v, const char *p, EvfsInfo *i) { vp_assert(0, "only the copy is opened"); return EVFS_ERR; }
void harness(void) {
  evfs_init();
  s_v.vfs_name = "v"; s_v.m_stat = n_stat; s_v.m_open = d_open; s_v.vfs_file_size = sizeof(EvfsFile);
  s_o.vfs_name = "o"; s_o.m_open = o_open; s_o.m_stat = n_stat; s_o.vfs_file_size = sizeof(EvfsFile);
  evfs_register(&s_v, true);
  evfs_register(&s_o, false);
  s_key = vp_u8();
  s_size = vp_range(0, N); s_pos = vp_range(0, N); pos0 = s_pos; s_sizeerr = vp_bool();
  static char buf[BUF];
  int live = vp_live;
  size_t bs;
  char *b = NULL;
#ifdef HEAP
  bs = vp_range(0, BUF); vp_alloc_fail_ok = 1;
#else
  b = buf; bs = vp_range(0, BUF);
#endif
  int rc = vp_bool() ? evfs_copy_to_file_ex("/d", &s_src, b, bs, "v") : evfs_copy_to_file("/d", &s_src, b, bs);
  vp_alloc_fail_ok = 0;
  vp_assert(vp_live == live, "no memory stays behind");
  vp_assert(s_src_closed == 0, "the source stays open");
  vp_assert(d_opens <= 1 , "only the requested file is opened");
  if(d_opens) vp_assert((s_open_flags & EVFS_WRITE) && (s_open_flags & EVFS_NO_EXIST) && !(s_open_flags & EVFS_OVERWRITE), "the copy never replaces an existing file");
  if(rc == EVFS_OK) {
    vp_assert(s_wrote == s_size && !s_sizeerr, "success means every byte was copied");
    vp_assert(s_trouble == 0 && vp_alloc_failed == 0, "success means nothing failed");
    vp_assert(s_size == 0 || pos0 == 0, "success means the copy starts with the first byte");
    vp_assert(s_closed == 1, "the copy is closed once");
    if(s_size == N) vp_reach("copied");
  } else {
    vp_assert(rc < 0, "a failed copy reports an error");
    vp_reach("failed");
  }
  if(d_opens && rc != EVFS_OK && s_wrote) { vp_assert(s_closed == 1, "the partial copy is closed once"); vp_reach("partial"); }
  if(!s_trouble && !s_short && !s_sizeerr && !vp_alloc_failed && pos0 == 0 && (bs > 0 || !b)) { vp_assert(rc == EVFS_OK, "a copy without failures succeeds"); vp_reach("clean"); }
}
