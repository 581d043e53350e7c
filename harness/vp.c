/* Solver / replay runtime shared by every harness. */
#include <stdarg.h>
#include "vp.h"
#undef malloc
#undef calloc
#undef free
#undef realloc
#undef snprintf
#undef vsnprintf
#undef vsprintf
#undef fprintf
#undef vfprintf
#undef atexit
#include <stdlib.h>
#include <stdio.h>

int vp_live;
int vp_alloc_fail_ok;
int vp_alloc_failed;

#ifdef VP_REPLAY
static long long *s_vals; static size_t s_nvals, s_pos;
long long vp_next(void) {
  if(s_pos >= s_nvals) { s_pos++; return 0; }
  return s_vals[s_pos++];
}
void vp_assert_fail(const char *msg, int line) {
  fprintf(stderr, "VP_ASSERT_FAIL line %d: %s\n", line, msg);
  fflush(stderr); _Exit(77);
}
void vp_assume_fail(const char *msg, int line) {
  fprintf(stderr, "VP_ASSUME_FAIL line %d: %s\n", line, msg);
  fflush(stderr); _Exit(78);
}
void vp_reached(const char *tag) { fprintf(stderr, "VP_REACH %s\n", tag); }
void vp_note(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "VP_NOTE "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
}
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
  size_t cap = 0; long long v;
  while(f && fscanf(f, "%lld", &v) == 1) {
    if(s_nvals == cap) { cap = cap ? cap*2 : 64; s_vals = realloc(s_vals, cap*sizeof v); }
    s_vals[s_nvals++] = v;
  }
  if(f) fclose(f);
  harness();
  if(s_pos > s_nvals) fprintf(stderr, "VP_NOTE replay drew %zu values past the trace\n", s_pos - s_nvals);
  fprintf(stderr, "VP_DONE\n");
  return 0;
}
#else
long long vp_last_sym;
long long nondet_longlong(void);
long long vp_next(void) { return nondet_longlong(); }
#endif

#ifdef VP_REPLAY
#  define DRAW(T) return (T)vp_next()
#else
#  define DRAW(T) T v = (T)vp_next(); vp_last_sym = (long long)v; return v
#endif
#ifndef VP_REPLAY
char nondet_char(void); unsigned char nondet_uchar(void); _Bool nondet_bool(void);
int nondet_int(void); unsigned nondet_uint(void); long nondet_long(void);
char     vp_char(void) { char v = nondet_char(); vp_last_sym = v; return v; }
uint8_t  vp_u8(void)   { uint8_t v = nondet_uchar(); vp_last_sym = v; return v; }
bool     vp_bool(void) { _Bool v = nondet_bool(); vp_last_sym = v; return v; }
int      vp_int(void)  { int v = nondet_int(); vp_last_sym = v; return v; }
unsigned vp_uint(void) { unsigned v = nondet_uint(); vp_last_sym = v; return v; }
long     vp_long(void) { long v = nondet_long(); vp_last_sym = v; return v; }
#else
char     vp_char(void) { return (char)vp_next(); }
uint8_t  vp_u8(void)   { return (uint8_t)vp_next(); }
bool     vp_bool(void) { return vp_next() != 0; }
int      vp_int(void)  { return (int)vp_next(); }
unsigned vp_uint(void) { return (unsigned)vp_next(); }
long     vp_long(void) { return (long)vp_next(); }
#endif
int vp_range(int lo, int hi) { int v = vp_int(); vp_assume(v >= lo && v <= hi); return v; }

/* The next allocation is placed in typed storage supplied by the harness, so that the solver
   sees structure members instead of a byte array.  Semantically it is an ordinary allocation. */
static void *s_place; static size_t s_place_size; static void *s_placed[4];
void vp_place(void *p, size_t n) { s_place = p; s_place_size = n; }
static void *placed(size_t n) {
  void *p = s_place;
  if(!p) return NULL;
  s_place = NULL;
  vp_assert(n <= s_place_size, "harness: placed allocation too large");
  for(int i = 0; i < 4; i++) if(!s_placed[i]) { s_placed[i] = p; break; }
  vp_live++;
  return p;
}
void *vp_malloc(size_t n) {
  if(s_place) return placed(n);
  if(vp_alloc_fail_ok && vp_bool()) { vp_alloc_failed++; return NULL; }
#if defined VP_MALLOC_CAP && !defined VP_REPLAY   /* fixed object size for the solver; exact sizes are checked by other jobs */
  vp_assert(n <= VP_MALLOC_CAP, "allocation larger than the bound of this job");
  void *p = malloc(VP_MALLOC_CAP);
#else
  void *p = malloc(n);
#endif
#ifndef VP_REPLAY
  __CPROVER_assume(p != NULL);
#endif
  vp_live++;
  return p;
}
void *vp_calloc(size_t n, size_t m) {
  if(vp_alloc_fail_ok && vp_bool()) { vp_alloc_failed++; return NULL; }
  void *p = calloc(n, m);
#ifndef VP_REPLAY
  __CPROVER_assume(p != NULL);
#endif
  vp_live++;
  return p;
}
void vp_free(void *p) {
  if(!p) return;
  vp_live--;
  for(int i = 0; i < 4; i++) if(s_placed[i] == p) { s_placed[i] = NULL; return; }
  free(p);
}

int vp_atexit(void (*f)(void)) { (void)f; return 0; }

/* ---- stdio formatting used by the library: %s %c %d %u %x %ld %zu %.*s %0Nd %*d ---- */
int vp_fprintf(FILE *f, const char *fmt, ...) { (void)f; (void)fmt; return 0; }
int vp_vfprintf(FILE *f, const char *fmt, va_list ap) { (void)f; (void)fmt; (void)ap; return 0; }
#ifdef VP_REPLAY
int vp_vsnprintf(char *b, size_t n, const char *fmt, va_list ap) { return vsnprintf(b, n, fmt, ap); }
#elif defined VP_FMT
struct vp_out { char *b; size_t n, pos; };
static void vp_put(struct vp_out *o, char c) { if(o->n && o->pos < o->n-1) o->b[o->pos] = c; o->pos++; }
static void vp_num(struct vp_out *o, unsigned long v, bool neg, unsigned base, int width, bool zero, bool left) {
  char d[VP_FMT]; int k = 0;
  do { d[k++] = "0123456789abcdef"[v % base]; v /= base; } while(v && k < VP_FMT);
  int len = k + neg;
  if(!left && !zero) for(int i = len; i < width; i++) vp_put(o, ' ');
  if(neg) vp_put(o, '-');
  if(!left && zero) for(int i = len; i < width; i++) vp_put(o, '0');
  for(; k > 0; k--) vp_put(o, d[k-1]);
  if(left) for(int i = len; i < width; i++) vp_put(o, ' ');
}
int vp_vsnprintf(char *b, size_t n, const char *fmt, va_list ap) {
  struct vp_out o = {b, n, 0};
  for(; *fmt; fmt++) {
    if(*fmt != '%') { vp_put(&o, *fmt); continue; }
    fmt++;
    bool zero = false, left = false; int width = 0, prec = -1, lng = 0;
    for(;; fmt++) { if(*fmt == '0') zero = true; else if(*fmt == '-') left = true; else break; }
    if(*fmt == '*') { width = va_arg(ap, int); fmt++; if(width < 0) { left = true; width = -width; } }
    else while(*fmt >= '0' && *fmt <= '9') { width = width*10 + (*fmt - '0'); fmt++; }
    if(*fmt == '.') { fmt++; prec = 0;
      if(*fmt == '*') { prec = va_arg(ap, int); fmt++; }
      else while(*fmt >= '0' && *fmt <= '9') { prec = prec*10 + (*fmt - '0'); fmt++; } }
    while(*fmt == 'l' || *fmt == 'z' || *fmt == 'h') { if(*fmt != 'h') lng++; fmt++; }
    switch(*fmt) {
      case 's': { const char *s = va_arg(ap, const char *); int l = 0;
        while((prec < 0 || l < prec) && s[l]) l++;
        if(!left) for(int i = l; i < width; i++) vp_put(&o, ' ');
        for(int i = 0; i < l; i++) vp_put(&o, s[i]);
        if(left) for(int i = l; i < width; i++) vp_put(&o, ' ');
        break; }
      case 'c': vp_put(&o, (char)va_arg(ap, int)); break;
      case 'd': case 'i': { long v = lng ? va_arg(ap, long) : va_arg(ap, int);
        vp_num(&o, v < 0 ? -(unsigned long)v : (unsigned long)v, v < 0, 10, width, zero, left); break; }
      case 'u': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        vp_num(&o, v, false, 10, width, zero, left); break; }
      case 'x': case 'X': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        vp_num(&o, v, false, 16, width, zero, left); break; }
      case '%': vp_put(&o, '%'); break;
      default: vp_assert(0, "harness: unsupported conversion"); break;
    }
  }
  if(n) b[o.pos < n ? o.pos : n-1] = '\0';
  return (int)o.pos;
}
#else
int vp_vsnprintf(char *b, size_t n, const char *fmt, va_list ap) {
  (void)fmt; (void)ap;
  vp_assert(0, "harness: formatted output not modelled here");
  if(n) b[0] = 0;
  return 0;
}
#endif
int vp_snprintf(char *b, size_t n, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int r = vp_vsnprintf(b, n, fmt, ap);
  va_end(ap); return r;
}
int vp_vsprintf(char *b, const char *fmt, va_list ap) { return vp_vsnprintf(b, (size_t)1 << 30, fmt, ap); }
