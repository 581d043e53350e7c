/* C library functions CBMC 6.11 ships no body for (solver build only). */
#include <stddef.h>
#include <string.h>
#ifndef VP_REPLAY
size_t strnlen(const char *s, size_t n) { size_t i = 0; while(i < n && s[i]) i++; return i; }
void *memchr(const void *s, int c, size_t n) {
  for(size_t i = 0; i < n; i++) if(((const unsigned char *)s)[i] == (unsigned char)c) return (char *)s + i;
  return NULL;
}
char *strstr(const char *h, const char *n) {
  for(;; h++) {
    size_t i = 0;
    while(n[i] && h[i] == n[i]) i++;
    if(!n[i]) return (char *)h;
    if(!*h) return NULL;
  }
}
char *strpbrk(const char *s, const char *set) {
  for(; *s; s++) for(const char *d = set; *d; d++) if(*d == *s) return (char *)s;
  return NULL;
}
size_t strspn(const char *s, const char *set) {
  size_t i = 0;
  for(; s[i]; i++) {
    const char *d = set; 
    while(*d && *d != s[i]) d++;
    if(!*d) break;
  }
  return i;
}
size_t strcspn(const char *s, const char *set) {
  size_t i = 0;
  for(; s[i]; i++) {
    const char *d = set; 
    while(*d && *d != s[i]) d++;
    if(*d) break;
  }
  return i;
}
#endif
#ifdef VP_MM
/* memmove/memcpy with concrete store positions (jobs rename memmove to this); same meaning */
#include "vp.h"
void *vp_memmove(void *dst, const void *src, size_t n) {
  char t[VP_MM]; char *d = dst; const char *s = src;
  vp_assert(n <= VP_MM, "block move larger than any buffer it may touch");
  for(size_t i = 0; i < VP_MM; i++) t[i] = i < n ? s[i] : 0;
  for(size_t i = 0; i < VP_MM; i++) if(i < n) d[i] = t[i];
  return dst;
}
#endif
