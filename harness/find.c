/* Directory search over a listing of up to K entries, an error at any point.
   glob_match is replaced by its contract for the pattern and names used (C26 decides it in general). */
#include "vp.h"
#include "evfs.h"
#ifndef K
#define K 4
#endif
static char s_a[] = "a", s_b[] = "b";
static const char PAT[] = "a";
static int s_name[K], s_len, s_end, s_pos, s_sizes[K]; static uint8_t s_type[K];
#ifndef VP_REPLAY
bool glob_match(const char *pattern, const char *str, const char *delims) {
  vp_assert(pattern && str && pattern[0] == 'a' && pattern[1] == 0, "the caller's pattern is matched");
  vp_assert(str == s_a || str == s_b, "entry names are matched");
  vp_assert(delims && delims[0] == '/' && delims[1] == '\\' && delims[2] == 0, "path separators delimit the match");
  return str[0] == 'a';
}
#endif
static int d_read(EvfsDir *d, EvfsInfo *info) {
  vp_assert(s_pos <= s_len, "the listing is not read past its end");
  if(s_pos == s_len) { s_pos++; return s_end; }
  for(int i = 0; i < K; i++) if(i == s_pos) { info->name = s_name[i] ? s_a : s_b; info->type = s_type[i]; info->size = s_sizes[i]; info->mtime = i; }
  s_pos++;
  return EVFS_OK;
}
static int d_rewind(EvfsDir *d) { vp_assert(0, "a search does not restart the listing"); return 0; }
static int d_close(EvfsDir *d) { vp_assert(0, "a search does not close the directory"); return 0; }
static const EvfsDirMethods dm = { d_close, d_read, d_rewind };
static EvfsDir s_d = { &dm };
void harness(void) {
  s_len = vp_range(0, K);
  s_end = vp_bool() ? EVFS_DONE : -vp_range(1, 22);
  for(int i = 0; i < K; i++) { s_name[i] = vp_bool(); s_type[i] = vp_u8(); s_sizes[i] = vp_int(); }
  int want = 0;
  EvfsInfo info;
  for(int call = 0; call <= K; call++) {
    int w = -1;
    for(int i = 0; i < K; i++) if(i >= want && i < s_len && w < 0 && s_name[i]) w = i;
    int rc = evfs_dir_find(&s_d, PAT, &info);
    if(w < 0) {
      vp_assert(rc == s_end, "after the last match the end or the listing's error is reported");
      if(rc == EVFS_DONE) vp_reach("end"); else vp_reach("error");
      if(call == K) vp_reach("all matched");
      return;
    }
    vp_assert(rc == EVFS_OK, "a matching entry is returned");
    vp_assert(s_pos == w + 1, "entries are returned in order, one per call");
    for(int i = 0; i < K; i++) if(i == w) vp_assert(info.name == s_a && info.type == s_type[i] && info.size == s_sizes[i] && info.mtime == i, "the entry's information is the listing's");
    want = w + 1;
    vp_reach("match");
  }
  vp_assert(0, "no more matches than entries");
}
