/* Registry: every history of K registrations/removals of three filesystems (two share a name), then removal of all. */
#include "vp.h"
#include "evfs.h"
#ifndef K
#define K 4
#endif
#define NV 3
static Evfs s_v0, s_v1, s_v2, s_dead;      /* separate objects: cheaper than an array for the solver */
#define V(i) ((i) == 0 ? &s_v0 : (i) == 1 ? &s_v1 : &s_v2)
static bool s_reg[NV]; static int s_clean[NV], s_want_clean[NV], s_probe, s_def = -1;
static const char *nm(int i) { return i == 1 ? "b" : "a"; }
static int r_open(Evfs *v, const char *p, EvfsFile *f, int fl) { return EVFS_ERR; }
static int r_stat(Evfs *v, const char *p, EvfsInfo *i) { return EVFS_ERR; }
static void init(int i);
static int idx(Evfs *v) { for(int i = 0; i < NV; i++) if(v == V(i)) return i; return -1; }
static int r_ctrl(Evfs *v, int cmd, void *arg) {
  int k = idx(v);
  for(int i = 0; i < NV; i++) if(i == k) {
    if(cmd == EVFS_CMD_UNREGISTER) { s_clean[i]++; V(i)->next = &s_dead; V(i)->vfs_name = "z"; }   /* its memory may be gone now */
    else { s_probe = i; vp_assert(s_reg[i], "the default filesystem is a registered one"); }
  }
  return EVFS_OK;
}
static void init(int i) {
  Evfs *v = V(i);
  v->next = NULL; v->vfs_name = nm(i);
  v->m_open = r_open; v->m_stat = r_stat; v->m_vfs_ctrl = r_ctrl;
}
static int deflt(void) { s_probe = -1; int rc = evfs_vfs_ctrl_ex(77, NULL, NULL); vp_assert((rc == EVFS_ERR_NO_VFS) == (s_probe < 0), "without a default no filesystem is reported"); return s_probe; }
#include "vplock.h"
static void invariant(void) {
  vp_unlocked();
  int n = 0, a = -1, b = -1;
  for(int i = 0; i < NV; i++) { n += s_reg[i]; if(s_reg[i] && i == 1) b = i; if(s_reg[i] && i != 1) a = i; vp_assert(s_clean[i] == s_want_clean[i], "cleanup runs exactly once per removal"); }
  int fa = idx(evfs_find_vfs("a")), fb = idx(evfs_find_vfs("b"));
  vp_assert(fa == a && fb == b, "lookup finds exactly the registered filesystems");
  vp_assert(evfs_find_vfs("c") == NULL, "an unknown name is not found");
  int d = deflt();
  vp_assert((d >= 0) == (n > 0), "there is a default exactly when something is registered");
  s_probe = -1; evfs_vfs_ctrl_ex(77, NULL, "b");
  vp_assert(s_probe == (b >= 0 ? b : d), "a name selects its filesystem, an unknown one the default");
  const char *dn = evfs_default_vfs_name();
  vp_assert(d < 0 ? dn[0] == 0 : dn[0] == (d == 1 ? 'b' : 'a'), "the default's name is reported");
}
void harness(void) {
  for(int i = 0; i < NV; i++) init(i);
  vp_assert(evfs_register(&s_v0, true) == EVFS_ERR_INIT, "nothing can be registered before initialization");
  evfs_init();
  bool dup = false, moved = false;
  for(int k = 0; k < K; k++) {
    int i = vp_range(0, NV-1); bool add = vp_bool(), mk = vp_bool();
    int n = s_reg[0] + s_reg[1] + s_reg[2], before = s_def;
    for(int j = 0; j < NV; j++) if(j == i) {
      if(add) {
        int other = j == 0 ? 2 : j == 2 ? 0 : -1, eff = j;
        if(!s_reg[j]) init(j);
        if(other >= 0) for(int o = 0; o < NV; o++) if(o == other && s_reg[o]) { eff = o; dup = true; }
        vp_assert(evfs_register(V(j), mk) == EVFS_OK, "registration succeeds");
        bool was = false;
        for(int o = 0; o < NV; o++) if(o == eff) { was = s_reg[o]; s_reg[o] = true; }
        int d = deflt();
        if(mk || n == 0) vp_assert(d == eff, "the filesystem chosen as default is the default");
        else if(before == eff) { if(n > 1) { vp_assert(d != eff, "a filesystem giving up default status is replaced"); moved = true; } else vp_assert(d == eff, "the only filesystem stays the default"); }
        else vp_assert(d == before, "the default is unchanged");
        s_def = d; (void)was;
      } else {
        int rc = evfs_unregister(V(j));
        if(s_reg[j]) {
          vp_assert(rc == EVFS_OK, "a registered filesystem can be removed");
          s_reg[j] = false; s_want_clean[j]++;
          int d = deflt();
          if(before != j) vp_assert(d == before, "the default is unchanged");
          s_def = d;
          vp_reach("removed");
        } else vp_assert(rc == EVFS_ERR_NO_VFS, "removing what is not registered is reported");
      }
    }
  }
  invariant();
  if(dup) vp_reach("same name");
  if(moved) vp_reach("default handed on");
  evfs_unregister_all();
  for(int i = 0; i < NV; i++) if(s_reg[i]) { s_reg[i] = false; s_want_clean[i]++; }
  invariant();
  vp_reach("all removed");
}
