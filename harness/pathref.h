/* Reference path semantics, written from the documentation (doc/rst/api/paths.rst
   and the comments of evfs_path_*_ex), not from the code. */
#ifndef PATHREF_H
#define PATHREF_H
#include "vp.h"
static inline bool ref_sep(char c) { return c == '/' || c == '\\'; }

/* Length of the root component. dos: one alphanumeric + ':' may precede the separators */
static inline int ref_alnum(char c) { return (c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
static inline int ref_root(const char *p, bool dos, bool *abs) {
  int n = 0;
  if(dos && ref_alnum(p[0]) && p[1] == ':') n = 2;
  int k = n;
  while(ref_sep(p[k])) k++;
  *abs = ref_sep(p[n]);
  return k;
}

/* Canonical form of p into out (capacity must suffice). Returns its length.
   One pass: characters are appended, a finished segment is kept, dropped or pops its parent. */
#ifndef REF_DEPTH
#define REF_DEPTH 24
#endif
static inline int ref_normalize(const char *p, bool dos, char *out) {
  bool abs; int n = 0, depth = 0, seg = 0, c = 0; bool in = false;
  unsigned char stk[REF_DEPTH];   /* output length before each poppable segment */
  int r = ref_root(p, dos, &abs), i = 0;
  if(abs) {
    if(dos && !ref_sep(p[0])) { out[n++] = p[0]; out[n++] = p[1]; }
    out[n++] = '/';
    i = r;
  }
  int root = n;
  for(;; i++) {
    char ch = p[i];
    if(ch == 0 || ref_sep(ch)) {
      if(in) {
        if(n-c == 1 && out[c] == '.') n = seg;
        else if(n-c == 2 && out[c] == '.' && out[c+1] == '.') {
          if(depth > 0) n = stk[--depth];
          else if(abs) n = seg;
        } else stk[depth++] = (unsigned char)seg;
        in = false;
      }
      if(ch == 0) break;
    } else {
      if(!in) { seg = n; if(n > root) out[n++] = '/'; c = n; in = true; }
      out[n++] = ch;
    }
  }
  out[n] = 0;
  return n;
}
#endif
