/* Common harness vocabulary.
   In the solver build (CBMC) vp_* symbolic draws are unconstrained; in the
   native replay build (-DVP_REPLAY) the same calls return the values of a
   counterexample, in order, and a failed vp_assert ends the process with 77. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>

#ifdef VP_REPLAY
#  include <stdio.h>
#  include <stdlib.h>
long long vp_next(void);
void vp_assert_fail(const char *msg, int line);
void vp_assume_fail(const char *msg, int line);
void vp_reached(const char *tag);
void vp_note(const char *fmt, ...);
#  define vp_assume(c)      do { if(!(c)) vp_assume_fail(#c, __LINE__); } while(0)
#  define vp_assert(c, msg) do { if(!(c)) vp_assert_fail(msg, __LINE__); } while(0)
#  define vp_reach(tag)     vp_reached(tag)
#else
extern long long vp_last_sym;
long long vp_next(void);
#  define vp_assume(c)      __CPROVER_assume(c)
#  define vp_assert(c, msg) __CPROVER_assert(c, "PROP " msg)
#  define vp_reach(tag)     __CPROVER_assert(0, "REACH " tag)
#  define vp_note(...)      ((void)0)
#endif

char     vp_char(void);
uint8_t  vp_u8(void);
bool     vp_bool(void);
int      vp_int(void);
unsigned vp_uint(void);
long     vp_long(void);
int      vp_range(int lo, int hi);      /* inclusive */

void harness(void);

/* allocation accounting: the repository's malloc/calloc/free are routed here */
extern int vp_live;            /* live heap objects */
extern int vp_alloc_fail_ok;   /* when non-zero an allocation may fail */
extern int vp_alloc_failed;    /* number of failed allocations so far */
void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
void vp_free(void *p);
void vp_place(void *p, size_t n);

#endif
