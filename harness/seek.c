/* The shared conversion of a seek to an absolute position: every offset, position and size. */
#include "vp.h"
#include "evfs.h"
#include "evfs_internal.h"
static evfs_off_t s_tell, s_size; static int s_other;
static evfs_off_t m_tell(EvfsFile *f) { return s_tell; }
static evfs_off_t m_size(EvfsFile *f) { return s_size; }
static int m_sync(EvfsFile *f) { return EVFS_OK; }
static int m_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { s_other++; return EVFS_OK; }
static int m_close(EvfsFile *f) { s_other++; return EVFS_OK; }
static ptrdiff_t m_read(EvfsFile *f, void *b, size_t n) { s_other++; return 0; }
static ptrdiff_t m_write(EvfsFile *f, const void *b, size_t n) { s_other++; return 0; }
static int m_trunc(EvfsFile *f, evfs_off_t n) { s_other++; return EVFS_OK; }
static bool m_eof(EvfsFile *f) { return s_tell >= s_size; }
static int m_ctrl(EvfsFile *f, int c, void *a) { return EVFS_ERR_NO_SUPPORT; }
static const EvfsFileMethods s_m = { m_ctrl, m_close, m_read, m_write, m_trunc, m_sync, m_size, m_seek, m_tell, m_eof };
void harness(void) {
  EvfsFile f = { .methods = &s_m };
  s_tell = vp_int(); s_size = vp_int(); vp_assume(s_tell >= 0 && s_size >= 0);
  evfs_off_t off = vp_int(); int dir = vp_range(EVFS_SEEK_TO, EVFS_SEEK_REV);
  long long t = dir == EVFS_SEEK_TO ? off : dir == EVFS_SEEK_REL ? (long long)s_tell + off : (long long)s_size - off;
  long long max = sizeof(evfs_off_t) == 8 ? INT64_MAX : INT32_MAX;
  evfs_off_t r = evfs__absolute_offset(&f, off, dir);
  vp_assert(s_other == 0, "converting a position changes nothing");
  vp_assert(r >= 0, "a position is never negative");
  if(t < 0) { vp_assert(r == 0, "a position before the start is clamped to it"); vp_reach("before the start"); }
  else if(t > max) vp_assert(r == max, "a position past the type's range is clamped to it");
  else { vp_assert(r == t, "the position is the one the seek means"); vp_reach("inside"); }
}
