/* The registry under concurrent use: other threads' whole operations run at every point where the lock is taken,
   and every access to the registry's shared variables must happen while holding it. */
#include "vp.h"
#include "evfs.h"
#include "evfs_internal.h"
#define NO 4
static Evfs s_o0, s_o1, s_o2, s_o3;
#define O(i) ((i) == 0 ? &s_o0 : (i) == 1 ? &s_o1 : (i) == 2 ? &s_o2 : &s_o3)
static const char *const s_name[NO] = { "a", "b", "b", "c" };     /* 0, 1: this thread's; 2, 3: the others' */
static bool s_on[NO];                                           /* the owner's last call registered it */
static int s_clean[NO], s_removed[NO]; static bool s_final;
static int r_open(Evfs *v, const char *p, EvfsFile *f, int fl) { return EVFS_ERR; }
static int r_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR; }
static int r_ctrl(Evfs *v, int cmd, void *arg) {
  if(cmd == EVFS_CMD_UNREGISTER) { if(v == &s_o0) s_clean[0]++; else if(v == &s_o1) s_clean[1]++; else if(v == &s_o2) s_clean[2]++; else s_clean[3]++; return EVFS_OK; }
  return EVFS_ERR_NO_SUPPORT;
}
static EvfsLock *l_reg; static bool l_held, l_live, l_env; static int l_steps, l_taken;
void vp_guard(void) { if(l_live) vp_assert(l_held, "the registry is used while holding its lock"); }
static void op(int i, int what) {
  Evfs *v = O(i);
  if(what == 0 || what == 1) { int rc = evfs_register(v, what == 1); vp_assert(rc == EVFS_OK, "registration succeeds"); s_on[i] = true; }
  else if(what == 2) { int rc = evfs_unregister(v); if(rc == EVFS_OK) { s_on[i] = false; s_removed[i]++; } else vp_assert(i == 1 || i == 2 || !s_on[i], "what is registered can be removed"); if(i == 1 || i == 2) s_on[i] = false; }
  else if(what == 3) { Evfs *f = evfs_find_vfs(s_name[i]); if(i == 0 || i == 3) vp_assert((f == v) == s_on[i], "a lookup finds exactly what is registered"); }
  else { EvfsInfo inf; evfs_stat_ex("x", &inf, NULL); }
}
static void env(void) {
  if(!l_live || l_env || l_steps >= ENV || s_final) return;
  if(vp_bool()) { l_env = true; l_steps++; int i = vp_range(2, 3), w = vp_range(0, 2);
    for(int k = 2; k < NO; k++) if(k == i) { if(w == 0) op(k, 0); else if(w == 1) op(k, 1); else op(k, 2); break; }
    l_env = false; }
}
int evfs__lock_init(EvfsLock *l) { l_reg = l; return EVFS_OK; }
int evfs__lock_destroy(EvfsLock *l) { return EVFS_OK; }
int evfs__lock(EvfsLock *l) { env(); vp_assert(!l_held, "the lock is not acquired again by its holder"); l_held = true; l_taken++; return EVFS_OK; }
int evfs__unlock(EvfsLock *l) { vp_assert(l_held, "only a held lock is released"); l_held = false; env(); return EVFS_OK; }
void evfs__lib_init(void);
void evfs__init_once(void) { evfs__lib_init(); }
static void init(Evfs *v, const char *n) { v->vfs_name = n; v->next = NULL; v->m_open = r_open; v->m_stat = r_stat; v->m_vfs_ctrl = r_ctrl; v->fs_data = NULL; }
void harness(void) {
  init(&s_o0, "a"); init(&s_o1, "b"); init(&s_o2, "b"); init(&s_o3, "c");
  evfs_init();
  l_live = true;
  for(int k = 0; k < K; k++) {
    int i = vp_range(0, 1), w = vp_range(0, 4);
    if(i == 0) { if(w == 0) op(0, 0); else if(w == 1) op(0, 1); else if(w == 2) op(0, 2); else if(w == 3) op(0, 3); else op(0, 4); }
    else { if(w == 0) op(1, 0); else if(w == 1) op(1, 1); else if(w == 2) op(1, 2); else if(w == 3) op(1, 3); else op(1, 4); }
    vp_assert(!l_held, "the lock is released before an operation returns");
  }
  s_final = true;
  bool any = false;
  for(int i = 0; i < NO; i++) if((i == 0 || i == 3)) { vp_assert((evfs_find_vfs(s_name[i]) == O(i)) == s_on[i], "every registered filesystem is found by its name"); any |= s_on[i]; }
  Evfs *b = evfs_find_vfs("b");
  if((s_on[1] || s_on[2]) && s_removed[1] + s_removed[2] == 0) vp_assert(b == &s_o1 || b == &s_o2, "every registered filesystem is found by its name");
  any |= b != NULL;
  const char *d = evfs_default_vfs_name();
  vp_assert((d[0] != 0) == any, "there is a default exactly when something is registered");
  if(d[0]) vp_assert(d[0] == 'b' ? b != NULL : d[0] == 'a' ? s_on[0] : s_on[3], "the default is registered");
  for(int i = 0; i < NO; i++) { vp_assert(s_clean[i] == s_removed[i], "cleanup runs exactly once per removal"); s_clean[i] = 0; }
  evfs_unregister_all();
  for(int i = 0; i < NO; i++) vp_assert(s_clean[i] <= 1, "every filesystem is listed once");
  vp_assert(s_clean[0] == s_on[0] && s_clean[3] == s_on[3], "every registered filesystem is listed exactly once");
  vp_assert(s_clean[1] + s_clean[2] == (b != NULL), "no name is registered twice");
  vp_assert(!evfs_find_vfs("a") && !evfs_find_vfs("b") && !evfs_find_vfs("c") && !l_held, "nothing is left");
  vp_assert(l_taken > 0, "the lock is used");
  vp_reach("end");
  if(l_steps == ENV) vp_reach("interleaved");
}
