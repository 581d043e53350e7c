/* FAT wrapper over a modelled FatFs library (its calls record themselves and answer with drawn results).
   PART 0 open, 1 file operations, 2 filesystem operations, 3 directories, 4 read-only, 5 block device. */
#include "vp.h"
#include <time.h>
#include "ff.h"
#include "diskio.h"
#include "evfs.h"
static struct tm h_tm; static long h_time; static int h_mk;
static time_t h_mktime(struct tm *t) { h_tm = *t; h_mk++; h_time = vp_int(); return h_time; }
#define mktime h_mktime
#include "fatfs_fs.c"
#undef mktime
#if PART == 5      /* the image file: the core's file functions are recording contracts here */
int b_seek(EvfsFile *, evfs_off_t, EvfsSeekDir); ptrdiff_t b_read(EvfsFile *, void *, size_t); ptrdiff_t b_write(EvfsFile *, const void *, size_t); int b_sync(EvfsFile *); evfs_off_t b_fsize(EvfsFile *);
#define evfs_file_seek b_seek
#define evfs_file_read b_read
#define evfs_file_write b_write
#define evfs_file_sync b_sync
#define evfs_file_size b_fsize
#include "fatfs_image.c"
#endif
static int h_calls, h_fail; static bool h_mut, h_touch;
static const void *a_p1, *a_p2; static const void *a_obj; static long a_n; static int a_kind, a_flags; static UINT a_bw; static bool h_wr;
static FSIZE_t h_before;
static bool h_canfail = true;
static FRESULT res(void) { h_calls++; int r = vp_int(); vp_assume(r >= 0 && r <= 19); if(!h_canfail) vp_assume(r == 0); if(r) h_fail = r; return (FRESULT)r; }
#define CALL(k, obj, p, q, n) do { a_kind = k; a_obj = obj; a_p1 = p; a_p2 = q; a_n = n; h_touch = true; } while(0)
FRESULT f_open(FIL *f, const TCHAR *p, BYTE m) { CALL('o', f, p, 0, 0); a_flags = m; if(m & ~FA_READ) h_mut = true; return res(); }
FRESULT f_close(FIL *f) { CALL('c', f, 0, 0, 0); return res(); }
FRESULT f_read(FIL *f, void *b, UINT n, UINT *br) { CALL('r', f, b, 0, n); FRESULT r = res(); *br = 0; if(r == FR_OK) { *br = vp_uint(); vp_assume(*br <= n); } a_bw = *br; return r; }
FRESULT f_write(FIL *f, const void *b, UINT n, UINT *bw) { CALL('w', f, b, 0, n); h_mut = true; FRESULT r = res(); *bw = 0; if(r == FR_OK) { *bw = vp_uint(); vp_assume(*bw <= n); } a_bw = *bw; return r; }
FRESULT f_lseek(FIL *f, FSIZE_t o) {
  CALL('s', f, 0, 0, (long)o); FRESULT r = res(); if(r) return r;
  if(o > f->obj.objsize) { if(h_wr) { h_mut = true; f->obj.objsize = o; } else o = f->obj.objsize; }
  f->fptr = o; return r;
}
FRESULT f_truncate(FIL *f) { CALL('t', f, 0, 0, 0); h_mut = true; if(!h_wr) { h_calls++; h_fail = FR_DENIED; return FR_DENIED; } FRESULT r = res(); if(r == FR_OK && f->fptr < f->obj.objsize) f->obj.objsize = f->fptr; return r; }
FRESULT f_sync(FIL *f) { CALL('y', f, 0, 0, 0); return res(); }
FRESULT f_opendir(DIR *d, const TCHAR *p) { CALL('D', d, p, 0, 0); return res(); }
FRESULT f_closedir(DIR *d) { CALL('E', d, 0, 0, 0); return res(); }
static bool h_end; static FILINFO h_fi;
static void info(FILINFO *i) { i->fname[0] = h_end ? 0 : 'n'; i->fname[1] = 0; i->fsize = (FSIZE_t)(vp_int() & 0x7fffffff); i->fattrib = vp_u8(); i->fdate = (WORD)vp_uint(); i->ftime = (WORD)vp_uint(); h_fi.fsize = i->fsize; h_fi.fattrib = i->fattrib; h_fi.fdate = i->fdate; h_fi.ftime = i->ftime; }
FRESULT f_readdir(DIR *d, FILINFO *i) { if(!i) { CALL('W', d, 0, 0, 0); return res(); } CALL('R', d, i, 0, 0); h_end = vp_bool(); info(i); return res(); }
FRESULT f_mkdir(const TCHAR *p) { CALL('m', 0, p, 0, 0); h_mut = true; return res(); }
FRESULT f_unlink(const TCHAR *p) { CALL('u', 0, p, 0, 0); h_mut = true; return res(); }
FRESULT f_rename(const TCHAR *p, const TCHAR *q) { CALL('n', 0, p, q, 0); h_mut = true; return res(); }
FRESULT f_stat(const TCHAR *p, FILINFO *i) { CALL('S', 0, p, i, 0); info(i); return res(); }
FRESULT f_chdir(const TCHAR *p) { CALL('h', 0, p, 0, 0); return res(); }
FRESULT f_getcwd(TCHAR *b, UINT n) { CALL('g', 0, b, 0, n); return res(); }

static struct { Evfs v; FatfsData d; char n[8]; } s_mem;
static FatfsFile s_f; static EvfsFile *const F = &s_f.base; static FatfsDir s_d; static EvfsDir *const D = &s_d.base;
static Evfs *V;
static EvfsInfo s_i; static const char P[] = "p", Q[] = "q";
static void setup(void) {
  evfs_init();
  vp_place(&s_mem, sizeof s_mem);
  vp_assert(evfs_register_fatfs("f", 1, true) == EVFS_OK, "register");
  V = &s_mem.v;
}
static void opened(void) {
  s_f.base.methods = &s_fatfs_methods; s_f.fs_data = &s_mem.d; h_wr = vp_bool();
  s_f.fil.obj.objsize = (FSIZE_t)vp_range(0, 0x7fffffff); s_f.fil.fptr = (FSIZE_t)vp_range(0, 0x7fffffff);
  vp_assume(s_f.fil.fptr <= s_f.fil.obj.objsize);
}
static int kind_of(int e) {
  switch(e) { case FR_OK: return EVFS_OK; case FR_DISK_ERR: return EVFS_ERR_IO; case FR_NO_FILE: return EVFS_ERR_NO_FILE; case FR_NO_PATH: return EVFS_ERR_NO_PATH; case FR_INVALID_NAME: return EVFS_ERR_BAD_NAME;
    case FR_DENIED: return EVFS_ERR_AUTH; case FR_EXIST: return EVFS_ERR_EXISTS; case FR_NOT_ENOUGH_CORE: return EVFS_ERR_ALLOC; case FR_INVALID_PARAMETER: return EVFS_ERR_BAD_ARG; default: return 1; }
}
#define KIND(rc) do { int k_ = kind_of(h_fail); vp_assert(k_ == 1 ? (rc) < 0 : (rc) == k_, "the library's outcome is reported, an error as an error of its kind"); } while(0)
#define ONE(k, obj, p, q) vp_assert(h_calls == 1 && a_kind == (k) && a_obj == (const void *)(obj) && a_p1 == (const void *)(p) && a_p2 == (const void *)(q), "the matching library call on the same arguments")

#if PART == 0
void harness(void) {
  setup();
  int fl = vp_range(0, 63);
  int rc = V->m_open(V, P, F, fl);
  ONE('o', &s_f.fil, P, 0);
  int f = a_flags;
  vp_assert(!(fl & EVFS_READ) == !(f & FA_READ) && !(fl & EVFS_WRITE) == !(f & FA_WRITE), "access is what was asked for");
  vp_assert(!(fl & EVFS_NO_EXIST) == !(f & FA_CREATE_NEW) && !(fl & EVFS_OVERWRITE) == !(f & FA_CREATE_ALWAYS), "creation is what was asked for");
  vp_assert((f & FA_OPEN_APPEND) == ((fl & EVFS_APPEND) ? FA_OPEN_APPEND : (fl & EVFS_OPEN_OR_NEW) ? FA_OPEN_ALWAYS : 0), "appending and opening are what was asked for");
  vp_assert((f & ~0x3f) == 0, "nothing else is asked for");
  KIND(rc);
  if(rc == EVFS_OK) vp_reach("opened");
}
#endif
#if PART == 1
void harness(void) {
  setup(); opened();
  int op = vp_range(0, 8); char b; long n = vp_range(0, 0x7fffffff);
  FSIZE_t pos = s_f.fil.fptr, size = s_f.fil.obj.objsize;
  if(op == 0) { ptrdiff_t r = F->methods->m_read(F, &b, n); ONE('r', &s_f.fil, &b, 0); vp_assert(a_n == n, "the same number of bytes"); if(h_fail) { KIND(r); } else vp_assert(r == (ptrdiff_t)a_bw, "the bytes the library read"); }
  else if(op == 1) { ptrdiff_t r = F->methods->m_write(F, &b, n); ONE('w', &s_f.fil, &b, 0); vp_assert(a_n == n, "the same number of bytes"); if(h_fail) { KIND(r); } else vp_assert(r == (ptrdiff_t)a_bw, "the bytes the library wrote"); }
  else if(op == 2) {
    int to = vp_int();
    h_canfail = vp_bool();
    int rc = F->methods->m_truncate(F, to);
    if(to < 0) vp_assert(rc != EVFS_OK && s_f.fil.obj.objsize == size, "a negative size is refused");
    else if(h_fail) { vp_assert(rc < 0, "a library failure is reported"); vp_assert(s_f.fil.obj.objsize <= size, "a failed truncation never grows the file"); }
    else {
      vp_assert(rc == EVFS_OK, "truncation succeeds when the library does");
      vp_assert(s_f.fil.obj.objsize == ((FSIZE_t)to < size ? (FSIZE_t)to : size), "truncation leaves exactly the requested size or the shorter existing one");
      vp_assert(s_f.fil.fptr == (pos < s_f.fil.obj.objsize ? pos : s_f.fil.obj.objsize), "the position stays where it was, inside the file");
      if((FSIZE_t)to < size) vp_reach("cut"); else vp_reach("nothing to cut");
    }
  }
  else if(op == 3) { int rc = F->methods->m_sync(F); ONE('y', &s_f.fil, 0, 0); vp_assert((rc == EVFS_OK) == !h_fail && rc <= 0, "sync reports the library's outcome"); }
  else if(op == 4) vp_assert(F->methods->m_size(F) == (evfs_off_t)size, "the size is the library's");
  else if(op == 5) vp_assert(F->methods->m_tell(F) == (evfs_off_t)pos, "the position is the library's");
  else if(op == 6) vp_assert(F->methods->m_eof(F) == (pos >= size), "end of file is reported exactly at the end");
  else if(op == 7) { int rc = F->methods->m_close(F); ONE('c', &s_f.fil, 0, 0); KIND(rc); }
  else {
    int o = vp_int(), org = vp_range(1, 3);
    long long t = org == EVFS_SEEK_TO ? o : org == EVFS_SEEK_REL ? (long long)pos + o : (long long)size - o;
    if(t < 0) t = 0;
    if(t > 0x7fffffff) t = 0x7fffffff;
    int rc = F->methods->m_seek(F, o, org);
    vp_assert(a_kind == 's' && a_obj == &s_f.fil && a_n == t, "the library is asked for the position the seek means");
    if(rc == EVFS_OK) { vp_assert((long long)s_f.fil.fptr == (h_wr || t < (long long)size ? t : (long long)size), "and the file is there"); if(org == EVFS_SEEK_REV) vp_reach("from the end"); }
  }
}
#endif
#if PART == 2
static char s_b[8];
void harness(void) {
  setup();
  int op = vp_range(0, 5), rc;
  if(op == 0) {
    h_end = false; rc = V->m_stat(V, P, &s_i);
    vp_assert(h_calls == 1 && a_kind == 'S' && a_p1 == P, "the matching library call on the same path"); KIND(rc);
    if(rc == EVFS_OK) vp_assert(s_i.size == (evfs_off_t)h_fi.fsize && !(s_i.type & EVFS_FILE_DIR) == !(h_fi.fattrib & AM_DIR) && s_i.name && s_i.name[0] == 'n', "size, type and name are the library's");
  }
  else if(op == 1) { rc = V->m_delete(V, P); ONE('u', 0, P, 0); KIND(rc); }
  else if(op == 2) { rc = V->m_rename(V, P, Q); ONE('n', 0, P, Q); KIND(rc); }
  else if(op == 3) { rc = V->m_make_dir(V, P); ONE('m', 0, P, 0); KIND(rc); }
  else if(op == 4) { rc = V->m_set_cur_dir(V, P); ONE('h', 0, P, 0); KIND(rc); }
  else { StringRange r; range_init(&r, s_b, 8); rc = V->m_get_cur_dir(V, &r); ONE('g', 0, s_b, 0); vp_assert(a_n <= 8, "inside the caller's range"); KIND(rc); }
  if(rc == EVFS_OK) vp_reach("done");
}
#endif
#if PART == 3
void harness(void) {
  setup();
  int rc = V->m_open_dir(V, P, D);
  ONE('D', &s_d.dir, P, 0); KIND(rc);
  if(rc != EVFS_OK) return;
  h_calls = h_fail = 0;
  int op = vp_range(0, 2);
  if(op == 0) {
    rc = D->methods->m_read(D, &s_i);
    vp_assert(h_calls == 1 && a_kind == 'R' && a_obj == &s_d.dir, "the matching library call on the same directory");
    if(h_fail) KIND(rc);
    else if(h_end) vp_assert(rc == EVFS_DONE, "the end is reported when the library ends");
    else {
      vp_assert(rc == EVFS_OK && s_i.name && s_i.name[0] == 'n' && s_i.size == (evfs_off_t)h_fi.fsize && !(s_i.type & EVFS_FILE_DIR) == !(h_fi.fattrib & AM_DIR), "name, size and type are the library's");
      vp_assert(h_mk == 1 && s_i.mtime == (time_t)h_time && h_tm.tm_year == 80 + (h_fi.fdate >> 9) && h_tm.tm_mon == ((h_fi.fdate >> 5) & 15) - 1 && h_tm.tm_mday == (h_fi.fdate & 31)
        && h_tm.tm_hour == (h_fi.ftime >> 11) && h_tm.tm_min == ((h_fi.ftime >> 5) & 63) && h_tm.tm_sec == 2*(h_fi.ftime & 31), "the time is the library's");
      vp_reach("entry");
    }
  } else if(op == 1) { rc = D->methods->m_rewind(D); vp_assert(h_calls == 1 && a_kind == 'W' && a_obj == &s_d.dir, "the matching library call on the same directory"); KIND(rc); }
  else { rc = D->methods->m_close(D); ONE('E', &s_d.dir, 0, 0); vp_assert((rc == EVFS_OK) == !h_fail && rc <= 0, "closing reports the library's outcome"); }
}
#endif
#if PART == 4
void harness(void) {
  setup(); opened(); h_wr = false;
  unsigned one = 1 + (vp_uint() & 7);
  vp_assert(V->m_vfs_ctrl(V, EVFS_CMD_SET_READONLY, &one) == EVFS_OK, "read-only can be set");
  int op = vp_range(0, 6), rc = EVFS_ERR_DISABLED;
  if(op == 0) {
    int fl = vp_int(); rc = V->m_open(V, P, F, fl);
    if(fl & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) { vp_assert(rc == EVFS_ERR_DISABLED && !h_touch, "an open that would modify is refused before the storage is reached"); vp_reach("open refused"); }
    else { KIND(rc); vp_assert(a_kind == 'o', "reading stays possible"); vp_reach("open allowed"); }
    rc = EVFS_ERR_DISABLED;
  }
  else if(op == 1) rc = V->m_delete(V, P);
  else if(op == 2) rc = V->m_rename(V, P, Q);
  else if(op == 3) rc = V->m_make_dir(V, P);
  else if(op == 4) rc = (int)F->methods->m_write(F, &s_i, vp_range(0, 8));
  else if(op == 5) rc = F->methods->m_truncate(F, vp_int());
  else {
    F->methods->m_read(F, &s_i, 4);
    vp_assert(a_kind == 'r', "reading stays possible");
    F->methods->m_seek(F, vp_int(), EVFS_SEEK_TO);
    F->methods->m_close(F);
    V->m_stat(V, P, &s_i);
  }
  vp_assert(rc == EVFS_ERR_DISABLED, "a modification is refused with a read-only error");
  vp_assert(!h_mut, "the storage is never modified");
}
#endif
#if PART == 5
/* the image file: the core's file functions are replaced by recording contracts */
static EvfsFile b_f; static long b_pos = -1; static int b_rc; static int b_n;
int b_seek(EvfsFile *fh, evfs_off_t o, EvfsSeekDir d) { vp_assert(fh == &b_f && d == EVFS_SEEK_TO, "the image of this volume"); b_rc = vp_bool() ? EVFS_ERR_IO : EVFS_OK; if(b_rc == EVFS_OK) b_pos = o; else h_fail = 1; return b_rc; }
ptrdiff_t b_read(EvfsFile *fh, void *b, size_t n) { vp_assert(fh == &b_f, "the image of this volume"); a_kind = 'r'; a_p1 = b; a_n = (long)n; long r = vp_long(); vp_assume(r <= (long)n && r >= -9); if(r < (long)n) h_fail = 1; b_n++; return r; }
ptrdiff_t b_write(EvfsFile *fh, const void *b, size_t n) { vp_assert(fh == &b_f, "the image of this volume"); a_kind = 'w'; a_p1 = b; a_n = (long)n; long r = vp_long(); vp_assume(r <= (long)n && r >= -9); if(r < (long)n) h_fail = 1; b_n++; return r; }
int b_sync(EvfsFile *fh) { vp_assert(fh == &b_f, "the image of this volume"); a_kind = 'y'; int r = vp_bool() ? EVFS_ERR_IO : EVFS_OK; if(r) h_fail = 1; return r; }
static long b_size;
evfs_off_t b_fsize(EvfsFile *fh) { vp_assert(fh == &b_f, "the image of this volume"); return (evfs_off_t)b_size; }
static BYTE s_sec[4];
void harness(void) {
  int d = vp_range(0, FF_VOLUMES-1), op = vp_range(0, 2);
  LBA_t sec = vp_uint(); UINT cnt = vp_range(1, 1000);
  for(int i = 0; i < FF_VOLUMES; i++) if(i == d) s_fatfs_image_data[i].fh = &b_f;
  if(op < 2) {
    DRESULT r = op ? disk_write((BYTE)d, s_sec, sec, cnt) : disk_read((BYTE)d, s_sec, sec, cnt);
    vp_assert((r == RES_OK) ? !h_fail && b_n == 1 : (h_fail || (uint64_t)sec * FF_MAX_SS > 0x7fffffff), "a transfer succeeds exactly when every byte moved");
    if(b_n) vp_assert(a_kind == (op ? 'w' : 'r') && a_p1 == s_sec && a_n == (long)cnt * FF_MAX_SS, "the same bytes");
    if(r == RES_OK) { vp_assert((uint64_t)b_pos == (uint64_t)sec * FF_MAX_SS, "at the sector's place in the image"); vp_reach("moved"); }
  } else {
    DWORD v[2] = { 0xffffffff, 0x12345678 }; int c = vp_range(0, 3); b_size = vp_range(0, 0x7fffffff);
    BYTE cmd = c == 0 ? CTRL_SYNC : c == 1 ? GET_SECTOR_COUNT : c == 2 ? GET_SECTOR_SIZE : GET_BLOCK_SIZE;
    DRESULT r = disk_ioctl((BYTE)d, cmd, v);
    vp_assert((r == RES_OK) == !h_fail, "a command succeeds exactly when the image file does");
    if(c == 1) vp_assert(v[0] == (DWORD)b_size / FF_MAX_SS, "the medium has the image's sectors");
    if(c == 2) vp_assert(*(WORD *)v == FF_MAX_SS, "the sector size");
    if(c == 3) vp_assert(v[0] != 0 && v[0] <= 32768 && (v[0] & (v[0]-1)) == 0, "a valid block size fills the whole value");
    vp_assert(v[1] == 0x12345678, "nothing past the value is written");
  }
}
#endif
