/* Locks of the threading build: acquired at most once, released by their holder, all free at the end. */
#ifndef VPLOCK_H
#define VPLOCK_H
#if defined USE_PTHREADS
#include "evfs_internal.h"
static EvfsLock *vl_lock[4]; static bool vl_held[4]; static int vl_n, vl_used;
static int vl_ix(EvfsLock *l) {
  for(int i = 0; i < 4; i++) if(i < vl_n && vl_lock[i] == l) return i;
  vp_assert(vl_n < 4, "harness: number of locks");
  vl_lock[vl_n] = l; return vl_n++;
}
static bool vl_holding(EvfsLock *l) { return vl_held[vl_ix(l)]; }
int evfs__lock_init(EvfsLock *l) { vl_held[vl_ix(l)] = false; return EVFS_OK; }
int evfs__lock_destroy(EvfsLock *l) { vp_assert(!vl_held[vl_ix(l)], "a lock in use is not destroyed"); return EVFS_OK; }
int evfs__lock(EvfsLock *l) { int i = vl_ix(l); vp_assert(!vl_held[i], "a lock already held is not acquired again"); vl_held[i] = true; vl_used++; return EVFS_OK; }
int evfs__unlock(EvfsLock *l) { int i = vl_ix(l); vp_assert(vl_held[i], "only a held lock is released"); vl_held[i] = false; return EVFS_OK; }
void evfs__lib_init(void);
void evfs__init_once(void) { static bool done; if(!done) { done = true; evfs__lib_init(); } }
static void vp_unlocked(void) { for(int i = 0; i < 4; i++) vp_assert(!vl_held[i], "every lock is released before the operation returns"); }
#else
#define vp_unlocked() ((void)0)
#endif
#endif
