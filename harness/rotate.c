/* Rotate shim over a modelled storage.  The storage holds chunk files (number, generation) whose content is a run of
   consecutive tags (byte at offset o carries tag base+o) with at most one overwritten interval, so content is exact
   without symbolic data arrays.  -DNC chunks, -DCS bytes per chunk, -DPART. */
#include "vp.h"
#include "evfs.h"
#include "evfs/shim/shim_rotate.h"
#include <stdarg.h>
#ifndef NC
#define NC 3
#endif
#ifndef CS
#define CS 4
#endif
#define NF (2*NC)
#define CAP (NC*CS)
#ifndef VP_REPLAY
static int rot_snprintf(char *b, size_t n, const char *fmt, ...) {   /* single-digit numbers, so every position is concrete */
  va_list ap; va_start(ap, fmt); size_t o = 0;
  for(; *fmt; fmt++) {
    if(*fmt != '%') { if(o + 1 < n) b[o] = *fmt; o++; continue; }
    fmt++;
    int w = 1;
    if(*fmt == '0') { w = 0; fmt++; while(*fmt >= '0' && *fmt <= '9') { w = w*10 + (*fmt - '0'); fmt++; } }
    if(*fmt == 'c') { int c = va_arg(ap, int); if(o + 1 < n) b[o] = (char)c; o++; }
    else {
      int v = va_arg(ap, int);
      vp_assert(*fmt == 'd' && v >= 0 && v < 10, "chunk number within the container");
      for(; w > 1; w--) { if(o + 1 < n) b[o] = '0'; o++; }
      if(o + 1 < n) b[o] = (char)('0' + v); o++;
    }
  }
  b[o < n ? o : n-1] = 0;
  va_end(ap); return (int)o;
}
static long rot_strtol(const char *s, char **e, int base) { long v = 0; for(int i = 0; i < 5; i++) { if(s[i] < '0' || s[i] > '9') break; v = v*10 + (s[i] - '0'); } return v; }
#define snprintf rot_snprintf
#define strtol rot_strtol
#define memset(p,c,n) ((void)0)
#endif
#include "shim_rotate.c"
#undef memset

/* ---- storage ---- */
static bool f_ex[NF]; static int f_size[NF], f_base[NF], f_lo[NF], f_hi[NF], f_ov[NF]; static bool f_bad[NF];
static uint32_t g_cs = CS, g_mc = NC, g_magic = EVFS_MULTI_MAGIC; static uint8_t g_type = EVFS_MULTI_ROTATE_TYPE; static int g_len = 16;
static bool g_dir = true, g_geom = true;
static int s_junk;                       /* 1..: an unexpected directory entry */
static int s_ops, s_crash = -1;          /* operations until the writer is interrupted (-1: never) */
static bool s_fault, s_failed, s_short, s_long;
static int s_open, s_dirs;               /* open handles */
static bool fault(void) {                /* this operation fails without effect */
  if(s_crash >= 0) { if(s_ops >= s_crash) { s_failed = true; return true; } s_ops++; return false; }
  if(s_fault && vp_bool()) { s_failed = true; return true; }
  return false;
}
static int tag(int k, int o) { return (o >= f_lo[k] && o < f_hi[k] ? f_ov[k] : f_base[k]) + o; }
enum { P_NONE = -1, P_DIR = -2, P_GEOM = -3 };
static int decode(const char *p) {       /* chunk slot or one of the above */
#ifndef VP_REPLAY
  if(p[0] == 'G') return P_GEOM;
  if(p[0] == 'C') { int c = p[1], g = p[2]; return (c >= 0 && c < NC && (g == 0 || g == 1)) ? c*2+g : P_NONE; }
  if(p[0] == '/' && p[1] == 'r' && p[2] == 0) return P_DIR;
  return P_NONE;
#else
  int c, g;
  if(!strcmp(p, "/r")) return P_DIR;
  if(!strcmp(p, "/r/geom.dat")) return P_GEOM;
  if(strlen(p) == 15 && sscanf(p, "/r/c%5d_%1d.cnk", &c, &g) == 2) return (c >= 0 && c < NC && (g == 0 || g == 1)) ? c*2+g : P_NONE;
  return P_NONE;
#endif
}
typedef struct { EvfsFile base; int slot, pos; } BF;
typedef struct { EvfsDir base; int pos; } BD;
static int b_close(EvfsFile *f) { s_open--; return fault() ? EVFS_ERR_IO : EVFS_OK; }
static ptrdiff_t b_read(EvfsFile *f, void *buf, size_t n) {
  BF *h = (BF *)f;
  if(fault()) return EVFS_ERR_IO;
  if(h->slot == P_GEOM) {
    if(h->pos == 0 && n == sizeof(MultipartHeader)) { if(g_len < 8) return g_len; MultipartHeader *m = buf; m->magic = g_magic; m->type = g_type; m->version = 1; m->reserved = 0; h->pos = 8; return 8; }
    if(h->pos == 8 && n == sizeof(RotateGeometry)) { if(g_len < 16) return g_len-8; RotateGeometry *m = buf; m->chunk_size = g_cs; m->max_chunks = g_mc; h->pos = 16; return 8; }
    vp_assert(0, "harness: geometry read pattern"); return EVFS_ERR_IO;
  }
  int avail = 0;
  for(int k = 0; k < NF; k++) if(k == h->slot) avail = f_ex[k] ? f_size[k] - h->pos : 0;
  if(avail < 0) avail = 0;
  long r = (long)n < avail ? (long)n : avail;
  if(s_short && r > 1) { long t = vp_int(); vp_assume(t >= 1 && t <= r); r = t; }
  for(int i = 0; i < CS; i++) if(i < r) { int v = 0; for(int k = 0; k < NF; k++) if(k == h->slot) v = tag(k, h->pos + i); ((uint8_t *)buf)[i] = (uint8_t)v; }
  h->pos += r;
  return r;
}
static ptrdiff_t b_write(EvfsFile *f, const void *buf, size_t n) {
  BF *h = (BF *)f; const uint8_t *b = buf;
  if(fault()) return EVFS_ERR_IO;
  if(h->slot == P_GEOM) {
    if(n == sizeof(MultipartHeader) && h->pos == 0) { const MultipartHeader *m = buf; g_magic = m->magic; g_type = m->type; g_len = 8; h->pos = 8; return n; }
    if(n == sizeof(RotateGeometry) && h->pos == 8) { const RotateGeometry *m = buf; g_cs = m->chunk_size; g_mc = m->max_chunks; g_len = 16; h->pos = 16; return n; }
    vp_assert(0, "harness: geometry write pattern"); return EVFS_ERR_IO;
  }
  vp_assert(h->pos + (long)n <= CS, "no chunk file grows beyond the chunk size");
  long r = n;
  if(s_short && r > 1) { long t = vp_int(); vp_assume(t >= 1 && t <= r); r = t; }
  if(r == 0) return 0;
  bool seq = true;
  for(int i = 1; i < CS; i++) if(i < r && b[i] != (uint8_t)(b[0] + i)) seq = false;
  int d = (int)b[0] - h->pos;
  for(int k = 0; k < NF; k++) if(k == h->slot) {
    if(!f_ex[k] || !seq || h->pos > f_size[k]) f_bad[k] = true;
    if(f_size[k] == 0 && h->pos == 0) { f_base[k] = d; f_lo[k] = f_hi[k] = 0; }
    else if(h->pos == f_size[k] && f_hi[k] <= f_lo[k] && (uint8_t)f_base[k] == (uint8_t)d) ;             /* plain growth */
    else if(f_hi[k] > f_lo[k] && (uint8_t)f_ov[k] == (uint8_t)d && h->pos >= f_lo[k] && h->pos <= f_hi[k]) { if(h->pos + r > f_hi[k]) f_hi[k] = h->pos + r; }
    else if(f_hi[k] <= f_lo[k]) { f_lo[k] = h->pos; f_hi[k] = h->pos + r; f_ov[k] = d; }
    else if((uint8_t)f_base[k] == (uint8_t)d && h->pos >= f_hi[k]) ;
    else f_bad[k] = true;
    if(h->pos + r > f_size[k]) f_size[k] = h->pos + r;
  }
  h->pos += r;
  return r;
}
static int b_trunc(EvfsFile *f, evfs_off_t n) { BF *h = (BF *)f; if(fault()) return EVFS_ERR_IO; for(int k = 0; k < NF; k++) if(k == h->slot) { if(n < 0 || n > f_size[k]) f_bad[k] = true; else f_size[k] = n; } return EVFS_OK; }
static int b_sync(EvfsFile *f) { return fault() ? EVFS_ERR_IO : EVFS_OK; }
static evfs_off_t b_size(EvfsFile *f) { BF *h = (BF *)f; int s = 16; if(fault()) return EVFS_ERR_IO; for(int k = 0; k < NF; k++) if(k == h->slot) s = f_size[k]; return s; }
static int b_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { BF *h = (BF *)f; if(fault()) return EVFS_ERR_IO; int sz = 16; for(int k = 0; k < NF; k++) if(k == h->slot) sz = f_size[k]; h->pos = d == EVFS_SEEK_TO ? o : d == EVFS_SEEK_REL ? h->pos + o : sz - o; return EVFS_OK; }
static evfs_off_t b_tell(EvfsFile *f) { return ((BF *)f)->pos; }
static bool b_eof(EvfsFile *f) { BF *h = (BF *)f; int sz = 16; for(int k = 0; k < NF; k++) if(k == h->slot) sz = f_size[k]; return h->pos >= sz; }
static int b_ctrl(EvfsFile *f, int c, void *a) { return EVFS_ERR_NO_SUPPORT; }
static const EvfsFileMethods b_fm = { b_ctrl, b_close, b_read, b_write, b_trunc, b_sync, b_size, b_seek, b_tell, b_eof };
static int b_open(Evfs *v, const char *p, EvfsFile *fh, int flags) {
  BF *h = (BF *)fh; int k = decode(p);
  fh->methods = NULL;
  if(fault()) return EVFS_ERR_IO;
  if(k == P_DIR) return EVFS_ERR_IS_DIR;
  if(k == P_NONE) return EVFS_ERR_NO_FILE;
  bool create = flags & (EVFS_OVERWRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST);
  if(k == P_GEOM) { if(!g_geom) { if(!create || !g_dir) return EVFS_ERR_NO_FILE; g_geom = true; g_len = 0; } if(flags & EVFS_OVERWRITE) g_len = 0; }
  for(int i = 0; i < NF; i++) if(i == k) {
    if(!f_ex[i]) { if(!create) return EVFS_ERR_NO_FILE; f_ex[i] = true; f_size[i] = 0; f_base[i] = 0; f_lo[i] = f_hi[i] = 0; f_bad[i] = false; }
    else if(flags & EVFS_OVERWRITE) { f_size[i] = 0; f_base[i] = 0; f_lo[i] = f_hi[i] = 0; }
  }
  h->slot = k; h->pos = 0; fh->methods = &b_fm; s_open++;
  return EVFS_OK;
}
static int b_stat(Evfs *v, const char *p, EvfsInfo *info) {
  int k = decode(p);
  if(fault()) return EVFS_ERR_IO;
  info->name = NULL; info->mtime = 0; info->type = 0; info->size = 16;
  if(k == P_DIR) { info->type = EVFS_FILE_DIR; info->size = 0; return g_dir ? EVFS_OK : EVFS_ERR_NO_FILE; }
  if(k == P_GEOM) { info->size = g_len; return g_dir && g_geom ? EVFS_OK : EVFS_ERR_NO_FILE; }
  int rc = EVFS_ERR_NO_FILE;
  for(int i = 0; i < NF; i++) if(i == k && f_ex[i]) { info->size = f_size[i]; rc = EVFS_OK; }
  return rc;
}
static int b_delete(Evfs *v, const char *p) {
  int k = decode(p), rc = EVFS_ERR_NO_FILE;
  if(fault()) return EVFS_ERR_IO;
  if(k == P_GEOM) { if(g_geom) { g_geom = false; rc = EVFS_OK; } return rc; }
  if(k == P_DIR) { bool e = !g_geom && !s_junk; for(int i = 0; i < NF; i++) if(f_ex[i]) e = false; if(!e) return EVFS_ERR_NOT_EMPTY; g_dir = false; return EVFS_OK; }
  for(int i = 0; i < NF; i++) if(i == k && f_ex[i]) { f_ex[i] = false; f_size[i] = 0; rc = EVFS_OK; }
  return rc;
}
static int b_rename(Evfs *v, const char *a, const char *b) { return EVFS_ERR_NO_SUPPORT; }
static int b_mkdir(Evfs *v, const char *p) { if(fault()) return EVFS_ERR_IO; if(decode(p) != P_DIR) return EVFS_ERR_NO_PATH; if(g_dir) return EVFS_ERR_EXISTS; g_dir = true; g_geom = false; return EVFS_OK; }
static bool s_rev; static char s_nm[16] = "c00000_0.cnk", s_gm[] = "geom.dat", s_jk[16] = "x";
static int s_dirlimit = -1;
static int bd_close(EvfsDir *d) { s_dirs--; return EVFS_OK; }
/* a listing is a snapshot: geometry, chunk files (either order), then an unexpected entry */
static int s_list[NF], s_cnt;
#ifndef MAXENT
#define MAXENT NC
#endif
static int bd_read(EvfsDir *d, EvfsInfo *info) {
  BD *h = (BD *)d; int i = h->pos++;
  if(fault()) return EVFS_ERR_IO;
  info->type = 0; info->mtime = 0; info->size = 0;
  if(i == 0) { info->name = s_gm; return EVFS_OK; }
  i--;
  if(i < MAXENT && i < s_cnt) { s_nm[5] = (char)('0' + s_list[i]/2); s_nm[7] = (char)('0' + s_list[i]%2); info->name = s_nm; return EVFS_OK; }
  if(s_junk && h->pos < 100) { h->pos = 100; info->name = s_jk; return EVFS_OK; }
  return EVFS_DONE;
}
static int bd_rewind(EvfsDir *d) { ((BD *)d)->pos = 0; return EVFS_OK; }
static const EvfsDirMethods b_dm = { bd_close, bd_read, bd_rewind };
static int b_opendir(Evfs *v, const char *p, EvfsDir *d) { d->methods = NULL; if(fault()) return EVFS_ERR_IO; if(decode(p) != P_DIR || !g_dir) return EVFS_ERR_NO_PATH; ((BD *)d)->pos = 0; d->methods = &b_dm; s_dirs++;
  s_cnt = 0;
  for(int i = 0; i < NF; i++) { int k = s_rev ? NF-1-i : i; bool e = false; for(int j = 0; j < NF; j++) if(j == k) e = f_ex[j]; if(e) { for(int j = 0; j < NF; j++) if(j == s_cnt) s_list[j] = k; s_cnt++; } }
  vp_assert(s_cnt <= MAXENT, "harness: more files than modelled");
  return EVFS_OK; }
static bool b_root(Evfs *v, const char *p, StringRange *r) { range_init(r, (char *)p, p[0] == '/'); return p[0] == '/'; }
static Evfs s_b;
#ifndef VP_REPLAY
/* contract versions of the core's handle functions with fixed storage (their own checks: C19, C34, C03, C26) */
static BF s_h0, s_h1; static bool s_u0, s_u1; static BD s_d0; static bool s_ud;
int evfs_vfs_open(Evfs *vfs, const char *path, EvfsFile **fh, int flags) {
  if(!vfs || !path || !fh) return EVFS_ERR_BAD_ARG;
  BF *h = s_u0 ? &s_h1 : &s_h0;
  vp_assert(!(s_u0 && s_u1), "handles of old chunks are not kept open");
  int rc = b_open(vfs, path, &h->base, flags);
  *fh = NULL;
  if(rc == EVFS_OK) { if(s_u0) s_u1 = true; else s_u0 = true; *fh = &h->base; }
  return rc;
}
int evfs_file_close(EvfsFile *fh) {
  if(!fh || !fh->methods) return EVFS_ERR_BAD_ARG;
  int rc = b_close(fh);
  fh->methods = NULL;
  if(fh == &s_h0.base) s_u0 = false; else s_u1 = false;
  return rc;
}
int evfs_vfs_open_dir(Evfs *vfs, const char *path, EvfsDir **dh) {
  vp_assert(!s_ud, "one listing at a time");
  int rc = b_opendir(vfs, path, &s_d0.base);
  *dh = NULL;
  if(rc == EVFS_OK) { s_ud = true; *dh = &s_d0.base; }
  return rc;
}
int evfs_dir_close(EvfsDir *dh) { if(!dh || !dh->methods) return EVFS_ERR_BAD_ARG; int rc = bd_close(dh); dh->methods = NULL; s_ud = false; return rc; }
int evfs_vfs_path_join_str(Evfs *vfs, const char *head, const char *tail, StringRange *joined) {
  char *d = (char *)joined->start;
  if(tail[0] == 'c' && s_long) return EVFS_ERR_OVERFLOW;
  if(tail[0] == 'g') { d[0] = 'G'; d[1] = 0; return EVFS_OK; }
  if(tail[0] != 'c') { d[0] = 'X'; d[1] = 0; return EVFS_OK; }
  int g = tail[7] - '0', c = tail[5] - '0';
  d[0] = 'C'; d[1] = (char)c; d[2] = (char)g; d[3] = 0;
  vp_assert(tail[6] == '_' && tail[8] == '.' && tail[12] == 0, "chunk files keep their naming");
  return EVFS_OK;
}
bool glob_match(const char *pat, const char *s, const char *seps) {
  bool a[16], b[16];
  if(s == s_nm) s = "c00000_0.cnk";      /* digits only differ from digits */
  for(int j = 0; j < 16; j++) a[j] = j == 0;
  for(int i = 0; pat[i]; i++) {
    for(int j = 0; j < 16; j++) b[j] = pat[i] == '*' ? (a[j] || (j > 0 && b[j-1] && s[j-1])) : (j > 0 && a[j-1] && s[j-1] && s[j-1] == pat[i]);
    for(int j = 0; j < 16; j++) a[j] = b[j];
  }
  for(int j = 0; j < 15; j++) { if(!s[j]) return a[j]; }
  return false;
}
#endif
static struct { Evfs v; RotateData d; char s[8]; } s_mem;
static struct { RotateState s; char p[8]; } s_rs0, s_rs1;
static struct { RotateFile f; BF b; } s_fil;
static Evfs *s_rot;
static int s_opens;
static void setup(void) {
  evfs_init();
  s_b.vfs_name = "b"; s_b.vfs_file_size = sizeof(BF); s_b.vfs_dir_size = sizeof(BD);
  s_b.m_open = b_open; s_b.m_stat = b_stat; s_b.m_delete = b_delete; s_b.m_rename = b_rename; s_b.m_make_dir = b_mkdir; s_b.m_open_dir = b_opendir; s_b.m_path_root_component = b_root;
  evfs_register(&s_b, false);
  RotateConfig cfg = { 64, 7 };          /* the stored geometry differs on purpose */
  vp_place(&s_mem, sizeof s_mem);
  vp_assert(evfs_register_rotate("q", "b", &cfg, true) == EVFS_OK, "register rotate");
  s_rot = &s_mem.v;
}
static EvfsFile *const F = &s_fil.f.base;
static int open_it(int flags) {
#ifndef VP_REPLAY
  if(s_opens++ == 0) vp_place(&s_rs0, sizeof s_rs0); else vp_place(&s_rs1, sizeof s_rs1);
#endif
  return s_rot->m_open(s_rot, "/r", F, flags);
}
/* ---- a valid container: n chunks from (s,g), the last holding l bytes; byte at logical position p has tag p ---- */
static int T;          /* bytes held */
static int s_n, s_s;
static void container(void) {
  int s = vp_range(0, NC-1), g = vp_range(0, 1), n = vp_range(0, NC), l = vp_range(1, CS);
  s_n = n; s_s = s;
  for(int i = 0; i < NC; i++) if(i < n) {
    int c = s + i, gg = g;
    if(c >= NC) { c -= NC; gg = 1-g; }
    for(int k = 0; k < NF; k++) if(k == c*2+gg) { f_ex[k] = true; f_size[k] = i == n-1 ? l : CS; f_base[k] = i*CS; }
  }
  T = n ? (n-1)*CS + l : 0;
  s_rev = vp_bool();
}
#define NEWTAG 100
static void disk_ok(void) {
  int n = 0, sum = 0;
  for(int k = 0; k < NF; k++) { n += f_ex[k]; sum += f_size[k]; if(f_ex[k]) vp_assert(f_size[k] <= CS && !f_bad[k], "chunk files are well formed"); }
  vp_assert(n <= NC, "never more than the configured number of chunk files");
  vp_assert(F->methods->m_size(F) == sum, "the reported size is what is stored");
}
static uint8_t s_out[CAP+2];
/* expected tag at current logical position q */
static int s_drop, s_wpos = -1, s_wlen, s_end;       /* bytes dropped from the start; overwritten/extended range in original coordinates */
static int want(int q) { int o = q + s_drop; return (s_wpos >= 0 && o >= s_wpos && o < s_wpos + s_wlen) ? NEWTAG + (o - s_wpos) : o; }
static void probe(int size) {
  int q = vp_int(); vp_assume(q >= 0 && q <= size);
  vp_assert(F->methods->m_seek(F, q, EVFS_SEEK_TO) == EVFS_OK && F->methods->m_tell(F) == q, "a seek inside the data moves there");
  vp_assert(F->methods->m_eof(F) == (q >= size), "end of file is reported exactly at the end");
  ptrdiff_t r = F->methods->m_read(F, s_out, 1);
  vp_assert(r == (q < size ? 1 : 0), "reading stops exactly at the end of the retained data");
  if(r == 1) vp_assert(s_out[0] == (uint8_t)want(q), "every retained byte is the one written there");
  vp_assert(F->methods->m_tell(F) == q + r, "the position advances by the bytes read");
}
static uint8_t s_in[CAP+CS+2];
static void fill(int from) { for(int i = 0; i < (int)sizeof s_in; i++) s_in[i] = (uint8_t)(NEWTAG + from + i); }
static int after_append(int t, int n) {      /* retained size after appending n bytes to t retained ones */
  int total = t + n, drop = 0;
  for(int i = 0; i < CAP; i++) if(total - drop > CAP) drop += CS;
  s_drop += drop;
  return total - drop;
}
#ifndef MAXW
#define MAXW (2*CS+1)
#endif

#if PART == 0      /* C06: appends */
void harness(void) {
  setup(); container();
  s_wpos = T; s_wlen = 0;
#ifdef SHORT
  s_short = true;
#endif
  vp_assert(open_it(EVFS_RDWR | EVFS_APPEND) == EVFS_OK, "a valid container opens");
  vp_assert(F->methods->m_size(F) == T, "the size is the retained bytes");
  int size = T;
  for(int a = 0; a < APPENDS; a++) {
    int n = vp_range(0, MAXW);
    fill(s_wlen);
    ptrdiff_t w = F->methods->m_write(F, s_in, n);
    vp_assert(w == n, "an append stores all its bytes");
    s_wlen += n;
    size = after_append(size, n);
    vp_assert(F->methods->m_size(F) == size, "nothing is dropped before the capacity is exceeded, then one chunk at a time");
    disk_ok();
  }
  if(s_drop > 0) vp_reach("rotated");
  if(s_wlen > 0 && s_drop == 0) vp_reach("appended");
  probe(size);
}
#endif
#if PART == 1      /* C08: a flat file */
void harness(void) {
  setup(); container();
  s_short = vp_bool();
  vp_assert(open_it(EVFS_RDWR) == EVFS_OK, "a valid container opens");
  vp_assert(F->methods->m_tell(F) == 0, "a fresh handle starts at the beginning");
  int q = vp_int(), org = vp_range(1, 3);
  vp_assume(q >= -CAP-1 && q <= CAP+1);
  int first = vp_range(0, T);
  F->methods->m_seek(F, first, EVFS_SEEK_TO);
  int target = org == EVFS_SEEK_TO ? q : org == EVFS_SEEK_REL ? first + q : T - q;
  vp_assume(target >= 0 && (org != EVFS_SEEK_REV || q >= 0) && (org != EVFS_SEEK_TO || q >= 0));
  int rc = F->methods->m_seek(F, q, org);
  if(target > T) { vp_assert(rc != EVFS_OK && F->methods->m_tell(F) == first, "a seek past the end is refused and moves nothing"); target = first; }
  else vp_assert(rc == EVFS_OK && F->methods->m_tell(F) == target, "a seek moves to the requested position");
  int n = vp_range(0, MAXW);
#ifdef WRITE
  fill(0);
  ptrdiff_t w = F->methods->m_write(F, s_in, n);
  vp_assert(w == n, "a write transfers all its bytes");
  s_wpos = target; s_wlen = n;
  int size = T, end = target + n;
  if(end > T) size = after_append(T, end - T);
  vp_assert(F->methods->m_size(F) == size, "overwriting retained bytes does not change the size");
  vp_assert(F->methods->m_tell(F) == end - s_drop, "the position advances by the bytes written");
  disk_ok();
  if(end <= T && n > CS) vp_reach("overwrite across a boundary");
  if(end > T && target < T) vp_reach("write past the end");
  s_short = false;
  probe(size);
#else
  ptrdiff_t r = F->methods->m_read(F, s_out, n), e = T - target < n ? T - target : n;
  vp_assert(r == e, "a read transfers what a flat file would");
  for(int i = 0; i < MAXW; i++) if(i < r) vp_assert(s_out[i] == (uint8_t)(target + i), "a read returns the bytes stored there");
  vp_assert(F->methods->m_tell(F) == target + r, "the position advances by the bytes read");
  vp_assert(F->methods->m_eof(F) == (target + r >= T), "end of file is reported exactly at the end");
  if(r > CS) vp_reach("read across a boundary");
  if(r < n) vp_reach("end of data");
  disk_ok();
#endif
  F->methods->m_close(F);
  vp_assert(s_open == 0 && s_dirs == 0, "closing releases every handle of the storage");
}
#endif
#if PART == 2      /* C09: truncate, trim */
void harness(void) {
  setup(); container();
  vp_assert(open_it(EVFS_RDWR) == EVFS_OK, "a valid container opens");
  int first = vp_range(0, T), size = T, pos = first;
  F->methods->m_seek(F, first, EVFS_SEEK_TO);
  if(vp_bool()) { F->methods->m_read(F, s_out, 1); if(first < T) pos++; }      /* a chunk may be active */
  s_wpos = T; s_wlen = 0;
#ifdef TRIM
  evfs_off_t b = vp_int();
  int r = F->methods->m_ctrl(F, EVFS_CMD_SET_ROTATE_TRIM, &b);
  int full = b < 0 ? 0 : b >= CAP ? CAP : b/CS*CS, gone = full >= T ? T : full;
  vp_assert(r == gone, "trim reports the bytes it removed: whole chunks, never more than requested");
  s_drop = gone; size = T - gone; pos = pos > gone ? pos - gone : 0;
  if(gone > 0 && gone < T) vp_reach("partial trim");
  if(gone > 0 && gone == T) vp_reach("everything trimmed");
#else
  int to = vp_int();
  int rc = F->methods->m_truncate(F, to);
  if(to < 0) vp_assert(rc != EVFS_OK, "a negative size is refused");
  else {
    vp_assert(rc == EVFS_OK, "truncation succeeds");
    if(to < T) { size = to; s_wpos = to; if(pos > to) pos = to; }
  }
  if(to > 0 && to < T - CS) vp_reach("several chunks cut");
  if(to == 0 && T > 0) vp_reach("emptied");
#endif
  vp_assert(F->methods->m_size(F) == size, "the size is the remaining bytes");
  vp_assert(F->methods->m_tell(F) == pos, "the position stays on the same byte, or at the nearest remaining one");
  disk_ok();
#ifdef APPEND
  F->methods->m_seek(F, size, EVFS_SEEK_TO);
  int n = vp_range(1, APPEND);
  fill(0);
  vp_assert(F->methods->m_write(F, s_in, n) == n, "appending after the removal works");
  s_wlen = n;
  size = after_append(size, n);
  vp_assert(F->methods->m_size(F) == size, "appending continues at the end of the remaining bytes");
  disk_ok();
#endif
  probe(size);
}
#endif
