/* The hash map against a ghost map, over every history of K operations on NK keys with symbolic hashes. */
#include "vp.h"
#include <stdio.h>
#include "util/dhash.h"
#ifndef K
#define K 4
#endif
#ifndef NK
#define NK 3
#endif
#ifndef VS
#define VS 4
#endif
#ifndef INIT
#define INIT 1
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef EXT
#define EXT 0
#endif
typedef struct { unsigned char b[VS]; } Val;

static int  g_val[NK];      /* 0: absent, else the id of the value stored last */
#ifndef GROWAT
#define GROWAT 0
#endif
static int  g_maygrow, g_started;
static int  g_count;
static int  g_key, g_rel, g_relval, g_quiet;
static unsigned g_hash[NK];

/* dhash allocates with calloc: the initial table, then only when it grows.  The solver build hands out one
   exactly sized object per table size, natively calloc is used. */
#ifndef VP_REPLAY
#define ENT (24 + (VS+7)/8*8)
static unsigned char s_t3[3*ENT] __attribute__((aligned(8))), s_t5[5*ENT] __attribute__((aligned(8)));
static int s_l3, s_l5;
#endif
void *h_calloc(size_t n, size_t m) {
#ifdef ALLOCFAIL
  if(g_started) return NULL;
#endif
  if(!g_maygrow) { vp_assert(0, "the table grows only when it is full"); vp_assume(0); }
#ifdef VP_REPLAY
  return vp_calloc(n, m);
#else
  vp_live++;
  if(n*m == sizeof s_t3) { vp_assert(!s_l3, "one table of a size at a time"); s_l3 = 1; return s_t3; }
  vp_assert(n*m == sizeof s_t5 && !s_l5, "a table is as large as its entries"); s_l5 = 1; return s_t5;
#endif
}
void h_free(void *p) {
#ifdef VP_REPLAY
  vp_free(p);
#else
  if(p == s_t3) { vp_assert(s_l3, "a table is freed once"); s_l3 = 0; vp_live--; }
  else if(p == s_t5) { vp_assert(s_l5, "a table is freed once"); s_l5 = 0; vp_live--; }
  else vp_assert(p == NULL, "only tables are freed");
#endif
}
static int kid(dhKey k) { return (int)(uintptr_t)k.data; }
static dhKey mk(int id) { dhKey k; k.data = (void *)(uintptr_t)id; k.length = 1; return k; }
static unsigned char g_pay[VS];   /* arbitrary payload */
static void put(Val *v, int id) { v->b[0] = (unsigned char)id; for(int i = 1; i < VS; i++) v->b[i] = (unsigned char)(g_pay[i] + id); }
static int get(const Val *v) {
  int id = v->b[0];
  for(int i = 1; i < VS; i++) vp_assert(v->b[i] == (unsigned char)(g_pay[i] + id), "a value comes back whole");
  return id;
}
static dhIKey h_hash(dhKey key) {
  int k = kid(key);
  vp_assert(k >= 0 && k < NK && key.length == 1, "only keys in the map are hashed");
  for(int i = 0; i < NK; i++) if(k == i) return g_hash[i];
  return 0;
}
static bool h_equal(dhKey a, dhKey b, void *ctx) {
  vp_assert(a.length == 1 && b.length == 1, "only live keys are compared");
  return kid(a) == kid(b);
}
static void h_destroy(dhKey key, void *value, void *ctx) {
  vp_assert(ctx == (void *)g_hash, "callbacks receive the map's context");
  vp_assert(key.length == 1 && kid(key) >= 0 && kid(key) < NK, "a released item comes with its key");
  if(g_quiet) {   /* whole map released */
    int id = get(value), hit = 0;
    for(int i = 0; i < NK; i++) if(kid(key) == i) { vp_assert(g_val[i] == id && id, "freeing the map releases each live item once"); g_val[i] = 0; }
    g_count--;
    return;
  }
  g_rel++; g_key = kid(key); g_relval = get(value);
}
static int at(int k) { int r = 0; for(int i = 0; i < NK; i++) if(k == i) r = g_val[i]; return r; }
static void set(int k, int v) { for(int i = 0; i < NK; i++) if(k == i) g_val[i] = v; }

static void step(dhash *map, int k, int op, int s) {
    int old = at(k);
    g_rel = 0;
    if(op == 0) {
      Val v; put(&v, s);
      bool r = dh_insert(map, mk(k), &v);
#if !EXT && !defined ALLOCFAIL
      vp_assert(r, "an insertion succeeds");
#endif
      if(r) {
        if(old) vp_assert(g_rel == 1 && g_key == k && g_relval == old, "a replaced item is released exactly once");
        else { vp_assert(g_rel == 0, "a new key releases nothing"); g_count++; }
        set(k, s);
        if(old) vp_reach("replaced");
      } else { vp_assert(g_rel == 0, "a refused insertion changes nothing"); vp_reach("refused"); }
    } else if(op == 1) {
      bool keep = vp_bool();
      Val v; put(&v, 15);
      bool r = dh_remove(map, mk(k), keep ? &v : NULL);
      vp_assert(r == (old != 0), "removal succeeds exactly when the key is present");
      if(r && keep) vp_assert(get(&v) == old && g_rel == 0, "a removed value is handed over");
      if(r && !keep) vp_assert(g_rel == 1 && g_key == k && g_relval == old, "a removed item is released exactly once");
      if(!r) vp_assert(g_rel == 0, "a failed removal releases nothing");
      if(r) { set(k, 0); g_count--; vp_reach("removed"); }
    } else {
      Val v; put(&v, 15); void *p = &v;
      bool r = dh_lookup(map, mk(k), &v);
      vp_assert(r == (old != 0), "lookup succeeds exactly when the key is present");
      vp_assert(get(&v) == (r ? old : 15), "lookup returns the last value inserted");
#ifdef INPLACE
      r = dh_lookup_in_place(map, mk(k), &p);
      vp_assert(r == (old != 0), "lookup in place agrees");
      vp_assert(r ? get(p) == old : !p, "lookup in place gives the last value inserted");
#endif
      vp_reach("looked up");
    }
}

static void finish(dhash *mp) {
#if FIN == 0
  /* every key, after the whole history */
  for(int k = 0; k < NK; k++) {
    Val v; put(&v, 15);
    bool r = dh_lookup(mp, mk(k), &v);
    vp_assert(r == (g_val[k] != 0), "at the end exactly the live keys are found");
    vp_assert(get(&v) == (r ? g_val[k] : 15), "at the end each key has its last value");
  }
#elif FIN == 1
  dhIter it; dhKey key; void *p; int seen[NK]; int n = 0;
  for(int i = 0; i < NK; i++) seen[i] = 0;
  dh_iter_init(mp, &it);
  for(int i = 0; i <= NK && dh_iter_next(&it, &key, &p); i++) {
    n++;
    vp_assert(kid(key) >= 0 && kid(key) < NK && key.length == 1, "iteration gives real keys");
    for(int j = 0; j < NK; j++) if(kid(key) == j) { vp_assert(!seen[j], "iteration visits an entry once"); seen[j] = 1; vp_assert(g_val[j] && get(p) == g_val[j], "iteration gives live values"); }
  }
  vp_assert(n == g_count, "iteration visits every entry");
  vp_assert(!dh_iter_next(&it, &key, &p), "iteration stays finished");
  if(n == 2) vp_reach("two entries");
#else
  g_quiet = 1;
  dh_free(mp);
  vp_assert(g_count == 0, "freeing the map releases every live item");
#if !EXT
  vp_assert(vp_live == 0, "freeing the map releases its storage");
#endif
  vp_reach("freed");
#endif
}

#ifdef SEQ
/* fixed kinds of operation, the key of each drawn from a range; each choice continues on its own branch, so the
   table size stays constant along it */
static void run(dhash *map, int s) {
  static const int seq[] = SEQ, lo[] = KLO, hi[] = KHI;
  if(s > K) { finish(map); return; }
  int k = vp_range(lo[s-1], hi[s-1]);
  for(int i = 0; i < NK; i++) if(k == i) {
    g_maygrow = s == GROWAT;
    if(seq[s-1] == 2) {     /* either */
      if(g_count >= 2) g_maygrow = 1;
      if(vp_bool()) { step(map, i, 1, s); run(map, s+1); return; }
      step(map, i, 0, s); run(map, s+1); return;
    }
    step(map, i, seq[s-1], s);
    vp_assert(dh_num_items(map) == (size_t)g_count, "the count is right");
    run(map, s+1);
    return;
  }
}
#endif

#ifdef STR
#include <stdlib.h>
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
void harness(void) {
  int la = vp_range(0, STR), lb = vp_range(0, STR);
  char *a = vp_malloc(la ? la : 1), *b = vp_malloc(lb ? lb : 1);
  bool eq = la == lb, eqi = la == lb;
  for(int i = 0; i < STR; i++) {
    if(i < la) { a[i] = vp_char(); vp_assume(a[i] != 0 && (unsigned char)a[i] < 128); }
    if(i < lb) { b[i] = vp_char(); vp_assume(b[i] != 0 && (unsigned char)b[i] < 128); }
    if(i < la && i < lb) { if(a[i] != b[i]) eq = false; if(up(a[i]) != up(b[i])) eqi = false; }
  }
  dhKey ka = { a, la }, kb = { b, lb };
  vp_assert(dh_equal_hash_keys_string(ka, kb, NULL) == eq, "string keys are equal exactly when their text is");
  if(eq) { vp_assert(dh_gen_hash_string(ka) == dh_gen_hash_string(kb), "equal string keys have equal hashes"); vp_reach("equal"); }
  if(eqi) vp_assert(dh_gen_hash_string_no_case(ka) == dh_gen_hash_string_no_case(kb), "keys equal without case have equal caseless hashes");
  else vp_reach("different");
  int x = vp_int(), y = vp_int();
  dhKey kx = { (void *)(uintptr_t)(unsigned)x, 0 }, ky = { (void *)(uintptr_t)(unsigned)y, 0 };
  vp_assert(dh_equal_hash_keys_int(kx, ky, NULL) == (x == y), "integer keys are equal exactly when their value is");
  if(x == y) vp_assert(dh_gen_hash_int(kx) == dh_gen_hash_int(ky), "equal integer keys have equal hashes");
  vp_free(a); vp_free(b);
}
#else
void harness(void) {
  dhash map;
  dhConfig cfg; memset(&cfg, 0, sizeof cfg);
  cfg.init_buckets = INIT; cfg.value_size = VS; cfg.destroy_item = h_destroy; cfg.gen_hash = h_hash; cfg.is_equal = h_equal;
#if EXT
  static unsigned char store[EXT] __attribute__((aligned(8)));
  cfg.ext_storage = store; cfg.max_storage = EXT;
#endif
#ifndef SEQ
  for(int i = 1; i < VS; i++) g_pay[i] = vp_u8();
#endif
#ifdef HASHES
  static const unsigned hs[] = HASHES;
  for(int i = 0; i < NK; i++) g_hash[i] = hs[i];
#else
  for(int i = 0; i < NK; i++) g_hash[i] = vp_range(0, 3);
#endif
  vp_alloc_fail_ok = 0;
  g_maygrow = 1;
  bool ok = dh_init(&map, &cfg, g_hash);
#if EXT
  if(!ok) { vp_assert(EXT < 96, "storage for three entries is enough"); vp_reach("storage too small"); return; }
#else
  vp_assert(ok, "an empty map can be made");
#endif
  g_started = 1;
#ifdef SEQ
  run(&map, 1);
#else
  for(int s = 1; s <= K; s++) {
    int k = vp_range(0, NK-1);
    int op = vp_range(0, OPS-1);
    g_maygrow = 0;
    /* split on the key: with constant hashes every probe position is constant on each branch */
    for(int i = 0; i < NK; i++) if(k == i) {
      if(op == 0) step(&map, i, 0, s); else if(op == 1) step(&map, i, 1, s); else if(OPS > 2) step(&map, i, 2, s);
      break;
    }
    vp_assert(dh_num_items(&map) == (size_t)g_count, "the count is right");
  }
  finish(&map);
#endif
}
#endif
