/* Tar archives: iterators (PART 0 file, 1 resource) and the two filesystems (PART 2 lookup, 3 reading, 4 refusals).
   The hash map is a model with the contract C28 establishes; the file-backed archive is a model file with faults. */
#include "vp.h"
#include "evfs.h"
#include "vplock.h"
#include "evfs/tar_common.h"
#include "evfs/util/dhash.h"
#ifndef VP_REPLAY
static void z_info(EvfsInfo *i) { i->name = 0; i->size = 0; i->mtime = 0; i->type = 0; }
static void z_nop(void *p) { (void)p; }
#define memset(p, c, n) _Generic((p), EvfsInfo *: z_info, default: z_nop)((void *)(p))
#endif

/* ---- a header with symbolic fields ---- */
static const char s_mode[8] = "0000644";
static uint32_t hdr_sum(const TarHeader *h, int len) {
  uint32_t s = 0; const uint8_t *r = (const uint8_t *)h;
  for(int i = 0; i < 148; i++) s += r[i];
  for(int i = 156; i < len; i++) s += r[i];
  return s + 8*' ';
}
static void hdr_fill(TarHeader *h, char junk) {
  for(int i = 0; i < TAR_FILE_NAME_LEN; i++) h->file_name[i] = 0;
  for(int i = 0; i < 8; i++) { h->mode[i] = s_mode[i]; h->uid[i] = junk; h->gid[i] = junk; h->checksum[i] = ' '; h->dev_major[i] = 0; h->dev_minor[i] = 0; }
  for(int i = 0; i < 12; i++) { h->size[i] = '0'; h->mtime[i] = junk; }
  h->size[11] = 0; h->type_flag = '0';
  for(int i = 0; i < TAR_LINK_NAME_LEN; i++) h->link_name[i] = 0;
  for(int i = 0; i < 6; i++) h->magic[i] = (uint8_t)"ustar "[i];
  h->version[0] = ' '; h->version[1] = 0;
  for(int i = 0; i < 32; i++) { h->uname[i] = junk; h->gname[i] = junk; }
  for(int i = 0; i < TAR_FILE_PREFIX_LEN; i++) h->file_prefix[i] = 0;
}
static void hdr_size(TarHeader *h, uint32_t v) { for(int i = 10; i >= 0; i--) { h->size[i] = '0' + (v & 7); v >>= 3; } h->size[11] = 0; }
static void hdr_seal(TarHeader *h) {      /* what tar writes: six digits, NUL, space */
  uint32_t s = hdr_sum(h, 500);
  for(int i = 5; i >= 0; i--) { h->checksum[i] = '0' + (s & 7); s >>= 3; }
  h->checksum[6] = 0; h->checksum[7] = ' ';
}
/* number field by its definition: optional blanks, octal digits, then the end, NUL or a blank */
static bool octal(const uint8_t *f, int n, uint64_t *v) {
  int i = 0; *v = 0;
  for(int k = 0; k < n; k++) if(i == k && f[k] == ' ') i++;
  for(int k = 0; k < n; k++) if(i == k && f[k] >= '0' && f[k] <= '7') { *v = *v*8 + (f[k]-'0'); i++; }
  bool ok = i == n;
  for(int k = 0; k < n; k++) if(i == k && (f[k] == 0 || f[k] == ' ')) ok = true;
  return ok;
}

#if PART == 0
/* ================= file-backed iterator: any archive size, any header position, any member size ================= */
#include "evfs/tar_iter.h"
#include "tar_iter.c"
static TarHeader s_hdr; static evfs_off_t b_len, b_cur, b_hdrpos; static int b_reads; static bool b_fail;
typedef struct { EvfsFile base; } BF;
static bool flt(void) { if(vp_bool()) { b_fail = true; return true; } return false; }
static ptrdiff_t b_read(EvfsFile *f, void *buf, size_t n) {
  vp_assert(n == TAR_HEADER_SIZE, "the iterator reads headers");
  b_reads++; b_hdrpos = b_cur;
  if(flt()) { long r = vp_int(); vp_assume(r < (long)n); return r; }
  if(b_len - b_cur < (evfs_off_t)n) { long r = b_len > b_cur ? b_len - b_cur : 0; b_cur = b_len; return r; }
  *(TarHeader *)buf = s_hdr; b_cur += n; return n;
}
static int b_sync(EvfsFile *f) { return EVFS_OK; }
static evfs_off_t b_size(EvfsFile *f) { if(flt()) return EVFS_ERR_IO; return b_len; }
static int b_seek(EvfsFile *f, evfs_off_t n, EvfsSeekDir d) {
  if(flt()) return EVFS_ERR_IO;
  int64_t t = d == EVFS_SEEK_REL ? (int64_t)b_cur + n : n;
  vp_assert(d != EVFS_SEEK_REV, "the iterator seeks forward");
  if(t < 0) return EVFS_ERR;
  b_cur = t > b_len ? b_len : t; return EVFS_OK;
}
static evfs_off_t b_tell(EvfsFile *f) { if(flt()) return EVFS_ERR_IO; return b_cur; }
static const EvfsFileMethods b_m = { .m_read = b_read, .m_sync = b_sync, .m_size = b_size, .m_seek = b_seek, .m_tell = b_tell };
void harness(void) {
  BF bf; bf.base.methods = &b_m;
  b_len = vp_int(); vp_assume(b_len >= 0);
  hdr_fill(&s_hdr, 'x');
#ifdef FIXEDSIZE
  hdr_size(&s_hdr, vp_uint());
  hdr_seal(&s_hdr);
#else
  for(int i = 0; i < 12; i++) s_hdr.size[i] = vp_u8();
  for(int i = 0; i < 8; i++) s_hdr.checksum[i] = vp_u8();
  s_hdr.magic[vp_range(0, 1) ? 5 : 0] = vp_u8(); s_hdr.version[1] = vp_u8(); s_hdr.file_prefix[154] = vp_u8(); s_hdr.file_name[0] = vp_u8(); s_hdr.link_name[99] = vp_u8();
#endif
  uint64_t size, sum;
  bool valid = s_hdr.magic[0] == 'u' && s_hdr.magic[5] == ' ' && s_hdr.version[1] == 0;
  valid = valid && octal(s_hdr.checksum, 8, &sum) && sum == hdr_sum(&s_hdr, 500);
  valid = valid && octal(s_hdr.size, 12, &size);
  TarFileIterator it; it.header_offset = vp_int(); it.file_size = vp_int();
  tar_iter_init(&it, &bf.base);
#ifdef NEXT
  /* the step from any member the iterator may stand on */
  it.header_offset = vp_int(); it.file_size = vp_int();
  vp_assume(it.header_offset >= 0 && it.file_size >= 0 && b_len - it.header_offset >= 512 && it.file_size <= b_len - it.header_offset - 512);
  int64_t want = (int64_t)it.header_offset + 512 + ((int64_t)it.file_size + 511) / 512 * 512;
  evfs_off_t was = it.header_offset;
  bool r = tar_iter_next(&it);
  if(r) vp_assert(it.header_offset > was, "the iterator always moves forward");
#else
  int64_t want = vp_int();
  bool r = tar_iter_seek(&it, (evfs_off_t)want);
#endif
  if(r) {
    vp_assert(!b_fail, "a failing archive gives no member");
    vp_assert(want == b_hdrpos && it.header_offset == want, "the next member is the one after the data of the last");
    vp_assert(valid, "only a valid header makes a member");
    vp_assert((uint64_t)it.file_size == size, "the member has its recorded size");
    vp_assert(it.file_size >= 0 && it.header_offset >= 0 && (int64_t)it.header_offset + 512 + it.file_size <= b_len, "a member lies inside the archive");
    vp_assert(tar_iter_file_offset(&it) == it.header_offset + 512, "the data follows the header block");
    vp_reach("member");
  } else {
    vp_assert(b_fail || !valid || want < 0 || want + 512 > b_len || size > (uint64_t)(b_len - want - 512), "a valid header inside the archive is accepted");
    vp_reach("rejected");
  }
}

#elif PART == 1
/* ================= resource iterator: exactly sized resources with hostile contents ================= */
#include "evfs/tar_iter_rsrc.h"
#include "tar_iter_rsrc.c"
#ifndef LEN
#define LEN 1024
#endif
static const long s_off[] = OFFS;
static void one(long off) {
#if LEN > 0
  static uint8_t img[LEN];
#else
  static uint8_t img[1];
#endif
  for(int i = 0; i < LEN; i++) img[i] = 0;
  TarHeader h; hdr_fill(&h, 'x');
  for(int i = 0; i < 12; i++) h.size[i] = vp_u8();
  for(int i = 0; i < 8; i++) h.checksum[i] = vp_u8();
  h.magic[0] = vp_u8(); h.version[1] = vp_u8(); h.file_prefix[154] = vp_u8(); h.file_name[99] = vp_u8();
  if(off >= 0) for(int i = 0; i < 500; i++) if(off + i < LEN) img[off + i] = ((uint8_t *)&h)[i];
  uint64_t size, sum;
  bool valid = h.magic[0] == 'u' && h.version[1] == 0 && octal(h.checksum, 8, &sum) && sum == hdr_sum(&h, 500) && octal(h.size, 12, &size);
  TarRsrcIterator it;
  it.header_offset = 0; it.file_size = 0; it.cur_header = NULL;
  tar_rsrc_iter_init(&it, img, LEN); it.resource = img; it.resource_len = LEN; it.read_pos = img;
#ifdef NEXT
  it.header_offset = 0; it.file_size = NEXT; it.cur_header = (TarHeader *)img;
  bool r = tar_rsrc_iter_next(&it);
#else
  bool r = tar_rsrc_iter_seek(&it, off);
#endif
  if(r) {
    vp_assert(valid && off >= 0, "only a valid header makes a member");
    vp_assert(it.header_offset == (size_t)off && (uint8_t *)it.cur_header == img + off, "the member asked for");
    vp_assert(it.file_size == size, "the member has its recorded size");
    vp_assert(it.header_offset + 512 <= LEN && it.file_size <= LEN - 512 - it.header_offset, "a member lies inside the archive");
    vp_assert(tar_rsrc_iter_file_offset(&it) == it.header_offset + 512, "the data follows the header block");
  } else {
    vp_assert(!valid || off < 0 || off + 512 > LEN || size > (uint64_t)(LEN - off - 512), "a valid header inside the archive is accepted");
  }
}
void harness(void) {
  int n = vp_range(0, (int)(sizeof s_off/sizeof s_off[0]) - 1);
  for(int i = 0; i < (int)(sizeof s_off/sizeof s_off[0]); i++) if(n == i) { one(s_off[i]); break; }
  vp_reach("done");
}

#else
/* ================= the filesystems ================= */
#ifndef TYPES
#define TYPES {'0','5','0'}
#define SIZES {5,0,600}
#define NLEN  {2,2,2}
#endif
#define M 3
static const int  m_size[M] = SIZES, m_len[M] = NLEN; static const char m_type[M] = TYPES;
#ifndef PLEN
#define PLEN {0,0,0}
#endif
static const int m_plen[M] = PLEN;
static int m_off[M+1]; static TarHeader m_hdr[M];
static int s_archive;
static uint8_t tag(long o) { return (uint8_t)(o*7 + 3); }

/* the map */
static struct { const char *p; size_t n; } e_key[M]; static int e_n; static int e_state;   /* 0 none, 1 made */
static long e_hdr[M], e_size[M];
#ifdef RSRC
typedef ptrdiff_t eoff;
#else
typedef evfs_off_t eoff;
#endif
typedef struct { eoff header_offset, file_size; } Ent;
static char s_keys[KCAP]; static size_t s_keyreq; static bool s_keylive;
static bool fault(void);
bool dh_init(dhash *h, dhConfig *c, void *ctx) {
  vp_assert(c->value_size == sizeof(Ent) && c->gen_hash && c->is_equal && c->destroy_item, "the index is configured");
  if(fault()) return false;
  e_state = 1; e_n = 0; h->buckets = h; return true;
}
void dh_free(dhash *h) { if(e_state) { e_state = 0; h->buckets = NULL; } }
#ifndef VP_REPLAY
#define INKEYS(p) __CPROVER_same_object(p, s_keys)
#else
#define INKEYS(p) 1
#endif
bool dh_insert(dhash *h, dhKey k, void *v) {
  vp_assert(e_state == 1, "the index exists");
  vp_assert(e_n < M, "at most one entry per member");
  const char *p = k.data; Ent *e = v;
  if(fault()) return false;
  vp_assert(INKEYS(p) && p >= s_keys && p + k.length < s_keys + s_keyreq, "a name is stored inside the memory asked for");
  e_key[e_n].p = p; e_key[e_n].n = k.length; e_hdr[e_n] = e->header_offset; e_size[e_n] = e->file_size; e_n++;
  return true;
}
bool dh_lookup(dhash *h, dhKey k, void *v) {
  vp_assert(e_state == 1, "the index exists");
  const char *q = k.data; Ent *e = v; bool hit = false;
  for(int i = 0; i < M; i++) if(i < e_n) {
    bool same = e_key[i].n == k.length;
#ifdef LONGNAME
    for(int j = 0; j < LONGNAME; j++) if(same && e_key[i].p[j] != q[j]) same = false;
#else
    for(int j = 0; j < 8; j++) if(same && j < (int)k.length && e_key[i].p[j] != q[j]) same = false;
#endif
    if(same) { e->header_offset = e_hdr[i]; e->file_size = e_size[i]; hit = true; }   /* last inserted wins */
  }
  return hit;
}
dhIKey dh_gen_hash_string(dhKey k) { return 0; }
bool dh_equal_hash_keys_string(dhKey a, dhKey b, void *c) { return false; }

static Evfs *g_vfs; static int g_registered;
static int h_register(Evfs *v, bool d) { g_vfs = v; g_registered++; return evfs_register(v, d); }
/* fault schedule: the f_at-th fallible call while registering fails */
static int f_ct, f_at = -1; static bool f_hit;
static bool fault(void) { if(f_ct++ == f_at) { f_hit = true; return true; } return false; }
static void *h_malloc(size_t n); static void h_free(void *p);
#undef evfs_malloc
#undef evfs_free
#define evfs_malloc h_malloc
#define evfs_free h_free
#define evfs_register h_register
/* the iterator is a model with the contract the iter-* jobs establish */
#ifdef RSRC
#include "evfs/tar_iter_rsrc.h"
static struct { struct { TarHeader h; uint8_t pad[12]; uint8_t d[BLK]; } m[M]; uint8_t end[1024]; } r_img;
static int it_ix;
static bool it_at(TarRsrcIterator *it, int k) { if(k >= M) return false; it_ix = k; it->cur_header = &r_img.m[k].h; it->header_offset = m_off[k]; it->file_size = m_size[k]; return true; }
void tar_rsrc_iter_init(TarRsrcIterator *it, uint8_t *r, size_t n) { vp_assert(r == (uint8_t *)&r_img && n == sizeof r_img, "the resource given"); it->cur_header = NULL; it->header_offset = 0; it->file_size = 0; }
bool tar_rsrc_iter_seek(TarRsrcIterator *it, evfs_off_t o) { vp_assert(o == 0, "harness: seek to the first"); return it_at(it, 0); }
bool tar_rsrc_iter_next(TarRsrcIterator *it) { return it_at(it, it_ix + 1); }
size_t tar_rsrc_iter_file_offset(TarRsrcIterator *it) { return it->header_offset + 512; }
#include "tar_rsrc_fs.c"
#else
#include "evfs/tar_iter.h"
static int it_ix;
static bool it_at(TarFileIterator *it, int k) { if(fault() || k >= M) return false; it_ix = k; it->cur_header = m_hdr[k]; it->header_offset = m_off[k]; it->file_size = m_size[k]; return true; }
static EvfsFile b_file;
void tar_iter_init(TarFileIterator *it, EvfsFile *f) { vp_assert(f == &b_file, "the archive given"); it->fd = f; it->header_offset = 0; it->file_size = 0; }
void tar_iter_close(TarFileIterator *it) { vp_assert(0, "the archive stays open"); }
bool tar_iter_seek(TarFileIterator *it, evfs_off_t o) { vp_assert(o == 0, "harness: seek to the first"); return it_at(it, 0); }
bool tar_iter_next(TarFileIterator *it) { return it_at(it, it_ix + 1); }
evfs_off_t tar_iter_file_offset(TarFileIterator *it) { return it->header_offset + 512; }
static int h_fclose(EvfsFile *f);
#define evfs_file_close h_fclose
#include "tar_fs.c"
#undef evfs_file_close
#endif
#undef memset
#undef evfs_register
static struct { Evfs v; TarfsData d; char nm[4]; } s_mem; static TarfsFile s_hf;
static bool s_vfslive, s_abs; static int s_mallocs;
static char s_absbuf[24];
static void *h_malloc(size_t n) {
  if(fault()) return NULL;
  if(s_mallocs == 0) { vp_assert(n <= sizeof s_mem, "filesystem memory"); s_mallocs++; s_vfslive = true; return &s_mem; }
  if(s_mallocs == 1) { vp_assert(n <= KCAP-4, "harness: key memory"); s_mallocs++; s_keyreq = n; s_keylive = true; return s_keys; }
  vp_assert(!s_abs && n <= sizeof s_absbuf, "harness: path memory"); s_abs = true; return s_absbuf;
}
static void h_free(void *p) {
  if(p == &s_mem) { vp_assert(s_vfslive, "released once"); s_vfslive = false; }
  else if(p == s_keys) { vp_assert(s_keylive, "released once"); s_keylive = false; }
  else if(p == s_absbuf) { vp_assert(s_abs, "released once"); s_abs = false; }
  else vp_assert(p == NULL, "only own memory is released");
}

static bool g_relfail;      /* the next path cannot be resolved */
static int fail_cur_dir(Evfs *v, StringRange *r) { return EVFS_ERR_OVERFLOW; }
/* paths: contracts established by C01/C02; the working directory is the root */
#ifndef VP_REPLAY
bool evfs_vfs_path_is_absolute(Evfs *v, const char *p) { return p[0] == '/'; }
int evfs_vfs_path_absolute(Evfs *v, const char *p, StringRange *out) {
#ifdef FAULTS
  return EVFS_ERR;
#else
  vp_assert(v == g_vfs, "this filesystem's path");
#ifdef RELFAIL
  if(g_relfail) return EVFS_ERR_OVERFLOW;
#endif
  char *o = (char *)out->start; size_t cap = out->end - out->start, n = 1;
  for(int i = 0; i < 8; i++) if(n == (size_t)i+1 && p[i]) n++;
  if(n + 1 > cap) return EVFS_ERR_OVERFLOW;
  o[0] = '/'; for(int i = 0; i < 8; i++) if(i < (int)n - 1) o[i+1] = p[i];
  o[n] = 0; out->end = o + n;
  return EVFS_OK;
#endif
}
#endif
/* the archive file */
static bool b_fail, b_faults; static int b_calls;
static evfs_off_t b_cur; static bool b_open = true;
static bool flt(void) { if(b_faults && vp_bool()) { b_fail = true; return true; } return false; }
static void lockck(void) {
#if defined USE_PTHREADS && !defined RSRC
  if(b_calls >= 0 && g_registered) vp_assert(vl_holding(&s_mem.d.tfs_lock), "the archive file is used under the filesystem's lock");
#endif
}
static ptrdiff_t b_read(EvfsFile *f, void *buf, size_t n) {
  lockck();
  if(flt()) { long r = vp_int(); vp_assume(r < 0); return r; }
  vp_assert(n <= RCAP, "a read asks for no more than the member holds");
  size_t got = n;
  if(b_faults && vp_bool()) { got = (size_t)vp_range(0, RCAP); vp_assume(got <= n); if(got < n) b_fail = true; }
  for(size_t i = 0; i < RCAP; i++) if(i < got) ((uint8_t *)buf)[i] = tag(b_cur + (long)i);
  b_cur += got; return got;
}
static int b_sync(EvfsFile *f) { return EVFS_OK; }
static evfs_off_t b_size(EvfsFile *f) { return flt() ? EVFS_ERR_IO : s_archive; }
static int b_seek(EvfsFile *f, evfs_off_t n, EvfsSeekDir d) {
  lockck();
  if(flt()) return EVFS_ERR_IO;
  evfs_off_t t = d == EVFS_SEEK_REL ? b_cur + n : n;
  vp_assert(d != EVFS_SEEK_REV && t >= 0 && t <= s_archive, "positions inside the archive");
  b_cur = t; return EVFS_OK;
}
static evfs_off_t b_tell(EvfsFile *f) { return b_cur; }
#ifndef RSRC
static int h_fclose(EvfsFile *f) { vp_assert(f == &b_file && b_open, "the archive is closed once"); b_open = false; return EVFS_OK; }
#endif
static int b_close(EvfsFile *f) { vp_assert(b_open, "the archive is closed once"); b_open = false; return EVFS_OK; }
static const EvfsFileMethods b_m = { .m_close = b_close, .m_read = b_read, .m_sync = b_sync, .m_size = b_size, .m_seek = b_seek, .m_tell = b_tell };
#ifdef RSRC
static EvfsFile b_file;
#endif

#ifdef FAULTS
#define NAMECH() 'a'
#else
#define NAMECH() (vp_bool() ? 'a' : vp_bool() ? '.' : 0xe9)
#endif
static void setup(void) {
  int o = 0;
  for(int k = 0; k < M; k++) {
    hdr_fill(&m_hdr[k], 'x');
    m_hdr[k].type_flag = m_type[k];
    for(int i = 0; i < m_len[k]; i++) {
#if PART == 2
      uint8_t c;
# ifdef LONGNAME
      if(i > 0 && i < m_len[k]-1) c = 'n'; else
# endif
      c = NAMECH();
      if(m_type[k] == '5' && i == m_len[k]-1 && k != 0) c = '/';
      m_hdr[k].file_name[i] = c;
#else
      m_hdr[k].file_name[i] = (uint8_t)(m_type[k] == '5' && i == m_len[k]-1 ? '/' : 'a' + k);
#endif
    }
    for(int i = 0; i < m_plen[k]; i++) {
      uint8_t c = 'p';
#if PART == 2
      if(i == 0) c = NAMECH();
#endif
      m_hdr[k].file_prefix[i] = c;
    }
    hdr_size(&m_hdr[k], m_size[k]);
    m_off[k] = o;
#ifdef RSRC
    o += 512 + BLK;
    r_img.m[k].h = m_hdr[k];
    if(PART == 3) for(int i = 0; i < 28; i++) r_img.m[k].d[i] = tag(m_off[k] + 512 + i);
#else
    o += 512 + (m_size[k] + 511) / 512 * 512;
#endif
  }
  s_archive = o + 1024;
  for(int i = 0; i < KCAP; i++) s_keys[i] = 0x5A;
  b_file.methods = &b_m;
}
static int registerfs(void) {
#ifdef RSRC
  return evfs_register_tar_rsrc_fs("t", (uint8_t *)&r_img, sizeof r_img, false);
#else
  return evfs_register_tar_fs("t", &b_file, false);
#endif
}
/* name of member k as a user writes it after the leading slash; -1: not listed */
static int full(int k, char *out) {
  int n = 0;
  if(m_type[k] != '0' && m_type[k] != '5') return -1;
  for(int i = 0; i < m_plen[k]; i++) out[n++] = (char)m_hdr[k].file_prefix[i];
  if(m_plen[k]) out[n++] = '/';
  int l = m_len[k];
  for(int i = 0; i < l; i++) out[n+i] = (char)m_hdr[k].file_name[i];
  n += l;
  if(m_type[k] == '5' && m_hdr[k].file_name[l-1] == '/') n--;
  return n;
}
static void clean(void) {
  vp_assert(!s_abs, "no path memory is left");
  vp_unlocked();
  for(int i = 0; i < KCAP; i++) if(s_keylive && (size_t)i >= s_keyreq) vp_assert(s_keys[i] == 0x5A, "nothing is written past the names");
}

#ifdef FAULTS
/* one failing call, anywhere in the registration */
static void run(int at) {
  f_at = at;
  setup();
  int rc = registerfs();
  if(rc != EVFS_OK) {
    vp_assert(f_hit, "a sound archive is accepted");
    vp_assert(!s_vfslive && !s_keylive && !e_state && !g_registered, "a failed registration leaves nothing behind");
    vp_assert(b_open, "a refused archive stays with the caller");
    vp_assert(!evfs_find_vfs("t"), "a failed registration is not found");
    vp_unlocked();
    vp_reach("registration failed");
    return;
  }
  vp_assert(g_registered == 1 && s_vfslive && s_keylive && e_state == 1, "the filesystem is registered with its index");
  clean();
  vp_reach("registered");
}
void harness(void) {
  evfs_init();
  int n = vp_range(0, FAULTS);
  for(int i = 0; i <= FAULTS; i++) if(n == i) { run(i); break; }
}
#else
void harness(void) {
  evfs_init();
  setup();
  int rc = registerfs();
  vp_assert(rc == EVFS_OK, "a sound archive is accepted");
  vp_assert(g_registered == 1 && s_vfslive && s_keylive && e_state == 1, "the filesystem is registered with its index");
  clean();
#if PART == 2
# ifdef LONGNAME
#  define QN (LONGNAME+1)
# else
#  define QN 8
# endif
  char q[QN+1]; int ql = QN;
# ifdef LONGNAME
  for(int i = 0; i < QN; i++) q[i] = i == 0 ? '/' : i < PRE_N+1 ? 'p' : i == PRE_N+1 ? '/' : 'n';
  q[1] = vp_char(); q[PRE_N+2] = vp_char(); q[QN-1] = vp_char(); vp_assume(q[1] && q[PRE_N+2] && q[QN-1]);
  q[QN] = 0;
# else
  q[0] = '/'; ql = vp_range(1, QN-2);
  for(int i = 1; i <= QN; i++) { q[i] = vp_char(); if(i < ql) vp_assume(q[i] != 0); else q[i] = 0; }
# endif
  int want = -1; bool root = ql == 1;
  for(int k = 0; k < M; k++) {
    char nm[KCAP]; for(int i = 0; i < KCAP; i++) nm[i] = 0;
    int n = full(k, nm);
    bool same = n >= 0 && n == ql-1;
    for(int i = 0; i < QN-1; i++) if(same && i < n && nm[i] != q[i+1]) same = false;
    if(same) want = k;
  }
  EvfsInfo info; info.size = 99; info.type = 77;
  const char *uq = q;
#ifdef RELQ
  for(int i = 1; i < QN; i++) vp_assume(q[i] != '/' && q[i] != '.');
  vp_assume(ql > 1); uq = q + 1;
#endif
#ifdef RELFAIL
  static int (*cur_dir)(Evfs *, StringRange *); cur_dir = g_vfs->m_get_cur_dir;
  g_relfail = vp_bool(); g_vfs->m_get_cur_dir = g_relfail ? fail_cur_dir : cur_dir;
#endif
  rc = g_vfs->m_stat(g_vfs, uq, &info); clean();
#ifdef RELFAIL
  if(g_relfail) { vp_assert(rc != EVFS_OK, "a path that cannot be resolved is an error"); vp_reach("path refused"); }
  else
#endif
  if(want >= 0 && !root) {
    vp_assert(rc == EVFS_OK, "an archived member is found");
    vp_assert(m_type[want] == '5' ? info.type & EVFS_FILE_DIR : !(info.type & EVFS_FILE_DIR), "a member has its recorded type");
    if(m_type[want] == '0') vp_assert(info.size == m_size[want], "a member has its recorded size");
    vp_reach("member found");
  } else if(!root) { vp_assert(rc == EVFS_ERR_NO_FILE || rc == EVFS_ERR_NO_PATH, "a name that is not archived is missing"); vp_reach("not archived"); }
  EvfsFile *fh = NULL;
#ifdef RELFAIL
  g_relfail = vp_bool(); g_vfs->m_get_cur_dir = g_relfail ? fail_cur_dir : cur_dir;
#endif
  vp_place(&s_hf, sizeof s_hf);
  rc = evfs_vfs_open(g_vfs, uq, &fh, EVFS_READ); clean();
#ifdef RELFAIL
  if(g_relfail) vp_assert(rc != EVFS_OK && !fh && vp_live == 0, "a path that cannot be resolved opens nothing");
  else
#endif
  if(want >= 0 && m_type[want] == '0' && !root) {
    vp_assert(rc == EVFS_OK && fh, "an archived file opens");
    vp_assert(evfs_file_size(fh) == m_size[want] && evfs_file_tell(fh) == 0, "an opened member has its size");
    vp_assert(((TarfsFile *)fh)->header_offset == m_off[want], "the member opened is the one archived under that name");
    vp_reach("opened");
  } else {
    vp_assert(rc != EVFS_OK && !fh && vp_live == 0, "a directory or missing name does not open and leaves no handle");
    if(want < 0 && !root) vp_assert(rc == EVFS_ERR_NO_FILE || rc == EVFS_ERR_NO_PATH, "a name that is not archived is missing");
  }
#elif PART == 3
  EvfsFile *fh = NULL;
  vp_place(&s_hf, sizeof s_hf);
  rc = evfs_vfs_open(g_vfs, FILENAME, &fh, EVFS_READ);
  vp_assert(rc == EVFS_OK && fh, "an archived file opens");
  b_faults = true;
  const int sz = m_size[FILEIX];
  long pos = 0;
  for(int s = 0; s < STEPS; s++) {
    b_fail = false;
    if(vp_bool()) {
      evfs_off_t off = vp_int(); int dir = vp_range(EVFS_SEEK_TO, EVFS_SEEK_REV);
      int64_t t = dir == EVFS_SEEK_TO ? off : dir == EVFS_SEEK_REL ? pos + (int64_t)off : sz - (int64_t)off;
      rc = evfs_file_seek(fh, off, dir);
      if(t < 0) { if(rc == EVFS_OK) pos = 0; vp_reach("negative"); }
      else { vp_assert(rc == EVFS_OK, "a seek in the member succeeds"); pos = t > sz ? sz : t; vp_reach("moved"); }
    } else {
      size_t n = (size_t)vp_long(); if(sz > RCAP) vp_assume(n <= RCAP); uint8_t buf[RCAP]; for(int i = 0; i < RCAP; i++) buf[i] = 0;
      long exp = sz - pos; if(n < (size_t)exp) exp = (long)n;
      ptrdiff_t r = evfs_file_read(fh, buf, n);
      if(!b_fail) { vp_assert(r == exp, "a read gives all that is left or asked for"); vp_reach("read"); }
#ifndef RSRC
      else vp_reach("read fault");
#endif
      vp_assert(r <= exp, "a read never runs past the member");
      for(int i = 0; i < RCAP; i++) if(i < r) vp_assert(buf[i] == tag(m_off[FILEIX] + 512 + pos + i), "a read gives the archived bytes");
      if(r > 0) pos += r;
    }
    vp_assert(evfs_file_tell(fh) == pos, "tell reports the position");
    vp_assert(evfs_file_eof(fh) == (pos >= sz), "end of file exactly at the end");
    vp_assert(evfs_file_size(fh) == sz, "the size stays");
    clean();
  }
  vp_assert(evfs_file_close(fh) == EVFS_OK && vp_live == 0, "closing releases the handle");
  vp_assert(g_vfs->m_vfs_ctrl(g_vfs, EVFS_CMD_UNREGISTER, NULL) == EVFS_OK, "the filesystem unregisters");
  vp_assert(!s_vfslive && !s_keylive && !e_state, "unregistering releases everything");
#ifndef RSRC
  vp_assert(!b_open, "unregistering closes the archive");
#endif
#else
  /* refusals */
  char q[8] = FILENAME; int flags = vp_int();
  EvfsFile *fh = NULL;
  vp_place(&s_hf, sizeof s_hf);
  rc = evfs_vfs_open(g_vfs, q, &fh, flags); clean();
  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) {
    vp_assert(rc != EVFS_OK && !fh && vp_live == 0, "opening to change anything is refused"); vp_reach("refused");
  }
  if(fh) {
    uint8_t b = 1;
    vp_assert(evfs_file_write(fh, &b, 1) < 0, "writing is refused");
    vp_assert(evfs_file_truncate(fh, vp_int()) != EVFS_OK, "truncating is refused");
    vp_assert(evfs_file_size(fh) == m_size[FILEIX], "the size stays");
    vp_reach("opened");
  }
  vp_assert(evfs_delete_ex(q, "t") != EVFS_OK && evfs_rename_ex(q, q, "t") != EVFS_OK && evfs_make_dir_ex(q, "t") != EVFS_OK, "there is no operation that changes the archive");
#endif
  clean();
}
#endif
#endif
