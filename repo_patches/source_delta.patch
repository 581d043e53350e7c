From 029e83f28cf60346b32d8a04ec7cf34198d1aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 01/23] fix: normalize only treats an exact '..' segment as the
 parent directory

A segment that merely begins with two dots ('..foo', '...') was removed
together with the segment before it.
---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..c11bd99 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -301,7 +301,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -423,7 +423,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From 0fbb54f6c884566665dee1db426bd4412b07f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 02/23] fix: jail never operates on a path it could not convert

Errors from path conversion were ignored, so an over-long path was cut and the
operation performed on another object. Over-long directories were stored
truncated and reported as success.
---
 src/shim_jail.c | 70 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..ee1d447 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,17 +81,20 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 ||
+     range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    return EVFS_ERR_OVERFLOW;
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK) // Never operate on a partial path
+    return status;
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +109,8 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+
+  return EVFS_OK;
 }
 
 
@@ -276,9 +281,9 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +309,9 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +325,9 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +340,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +361,9 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +381,9 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
@@ -401,9 +408,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  range_cat_str(&r, fs_data->cur_dir);
+  int copied = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return copied < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -416,6 +423,9 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
 
+    if(strlen(path) >= sizeof(shim_data->cur_dir)) // Don't switch to a truncated path
+      return EVFS_ERR_OVERFLOW;
+
     strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
     shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
 
@@ -433,7 +443,11 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int status = evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    if(status != EVFS_OK) {
+      evfs_free(joined_path);
+      return status;
+    }
 
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, joined_path)) {
@@ -495,7 +509,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const char *jail_root, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(jail_root)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   JailData *shim_data;
@@ -506,7 +520,9 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int status = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(status != EVFS_OK) // Never jail to a partial path
+    return status;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
-- 
2.43.0


From 9a889c98af7c817b2f3a9dfe77037f0c82df9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 03/23] fix: strxcpy and strlcat stay inside their counted
 operand

The limit was only checked after reading the next byte.
---
 src/util/bsd_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 354aa91..2d40de5 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -83,7 +83,7 @@ size_t strxcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--;
-    while(*src != '\0' && copied < size) {
+    while(copied < size && *src != '\0') {
       *dst++ = *src++;
       copied++;
     }
@@ -113,7 +113,7 @@ size_t strlcat(char *dst, const char *src, size_t size) {
   size_t cat_len = 0;
 
   if(size > 0) {
-    while(*dst != '\0' && cat_len < size) {
+    while(cat_len < size && *dst != '\0') {
       dst++;
       cat_len++;
     }
-- 
2.43.0


From e11f5b88677453719a25ba634e6dbec9f3701a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 04/23] fix: string ranges never write outside an empty range
 and report what does not fit

---
 src/util/range_strings.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2980afd..e76dece 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -207,11 +207,14 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
 
   if(!done) { // Truncated
     if(truncate) {
-      dest--;
-      *dest = '\0';
-      rval = -(rval-1);
+      if(dest > rng->start) { // Replace last byte with NUL
+        dest--;
+        *dest = '\0';
+        rval--;
+      }
+      rval = -rval - 1;
     } else {
-      if(rng->start)
+      if(rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
       rval = -(rval + strlen(src)); // Add uncopied bytes
     }
@@ -253,12 +256,16 @@ int range_cat_fmt(AppendRange *rng, const char *fmt, ...) {
       if(rval < range_size(rng)) { // Success
         rng->start += rval;
       } else { // Truncated
-        if(rng->start)
+        if(rng->start < rng->end)
           *rng->start = '\0'; // Wipe partial string
         rval = -rval;
       }
     }
 
+  } else { // No space
+    va_start(args, fmt);
+    rval = -vsnprintf(NULL, 0, fmt, args);
+    va_end(args);
   }
 
   return rval;
@@ -278,12 +285,14 @@ int range_cat_vfmt(AppendRange *rng, const char *fmt, va_list args) {
       if(rval < range_size(rng)) { // Success
         rng->start += rval;
       } else { // Truncated
-        if(rng->start)
+        if(rng->start < rng->end)
           *rng->start = '\0'; // Wipe partial string
         rval = -rval;
       }
     }
 
+  } else { // No space
+    rval = -vsnprintf(NULL, 0, fmt, args);
   }
 
   return rval;
@@ -321,7 +330,7 @@ int range_cat_str(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -359,9 +368,9 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   rval = src - str; // Number of bytes copied
 
   if(done) {
-    rng->start = dest-1;
+    rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -410,7 +419,7 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -459,7 +468,7 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -801,9 +810,13 @@ Returns:
   Number of pad bytes written
 */
 int range_pad_right(StringRange *rng, char pad) {
+  size_t pad_num = 0;
+
+  if(rng->start >= rng->end) // No space
+    return pad_num;
+
   size_t width = range_size(rng) - 1;
 
-  size_t pad_num = 0;
   size_t rng_len = range_strlen(rng);
   char *pad_pos = (char *)&rng->start[rng_len];
   if(rng_len < width) {
@@ -877,7 +890,7 @@ void range_terminate(AppendRange *rng) {
   size_t maxlen = range_size(rng);
   size_t rlen = strnlen(rng->start, maxlen);
 
-  if(rlen == maxlen) { // No NUL found
+  if(maxlen > 0 && rlen == maxlen) { // No NUL found
     *(rng->end-1) = '\0';
   }
 }
-- 
2.43.0


From bd54b214ccb9484252f7d5abb64035cf0550ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 05/23] fix: range_token_limit never reads past its limit or
 returns empty tokens

---
 src/util/range_strings.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index e76dece..81f69fd 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -1067,25 +1067,20 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
 
 
   // Skip leading delimiters
-  size_t consumed = strspn(str, delim);
-  str += consumed;
-  if(*str == '\0') // No more tokens
+  const char *end = str + *limit;
+  while(str < end && *str != '\0' && strchr(delim, *str))
+    str++;
+
+  *limit = end - str;
+  if(str >= end || *str == '\0') // No more tokens
     return false;
 
   // Get token length
-  size_t tok_len = strcspn(str, delim);
-  if(consumed + tok_len > *limit) {// Truncate token
-    if(consumed <= *limit)
-      tok_len = *limit - consumed;
-    else
-      tok_len = 0;
-  }
-  consumed += tok_len;
-
-  if(consumed > *limit)
-    consumed = *limit;
+  size_t tok_len = 0;
+  while(tok_len < *limit && str[tok_len] != '\0' && !strchr(delim, str[tok_len]))
+    tok_len++;
 
-  *limit -= consumed;
+  *limit -= tok_len;
 
   // Save token
   token->start = (char *)str;
-- 
2.43.0


From 62e6be7c8ec78eb5aad82dde3c39a4c5ab6a9f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 06/23] fix: glob_match terminates and stays in bounds on
 malformed sets, '*' never crosses a separator

---
 src/util/glob.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index efda6d7..ca3014a 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -62,13 +62,13 @@ typedef struct {
   uint32_t chars[8]; // 256 bits
 } CharSet;
 
-#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1 << ( ((uint8_t)(c)) % 32)) )
-#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1 << ( ((uint8_t)(c)) % 32)) )
+#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1u << ( ((uint8_t)(c)) % 32)) )
+#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1u << ( ((uint8_t)(c)) % 32)) )
 #define COUNT_OF(a)            (sizeof(a) / sizeof(*a))
 
 static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   const char *rng_pos;
-  char ch, end_ch;
+  unsigned char ch, end_ch;
   bool invert = false;
 
   if(*(pat_pos+1) == '!') {
@@ -87,6 +87,7 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
 
       for(ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
         ADD_TO_SET(cs, ch);
+        if(ch == UINT8_MAX) break;
       }
       rng_pos += 2;
     } else { // Single character
@@ -168,7 +169,7 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
       case '[': // Character range
         memset(&cs, 0, sizeof(cs));
         pat_pos = parse_range_def(pat_pos, &cs);
-        if(CHAR_IS_IN_SET(&cs, s_ch)) {
+        if(*pat_pos == ']' && s_ch != '\0' && CHAR_IS_IN_SET(&cs, s_ch)) {
           str_pos++;
           pat_pos++;
           continue;
@@ -187,7 +188,8 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
     }
 
     // Mismatch; Recover with backtracking or fail
-    if(pat_star && s_ch != '\0' && !char_match(s_ch, dir_separators)) {
+    // The star can't absorb a directory separator
+    if(pat_star && s_ch != '\0' && !char_match(*(str_star-1), dir_separators)) {
       str_pos = str_star;
       pat_pos = pat_star;
       continue;
-- 
2.43.0


From d6817eaa9e5ee453ee9f9e04a773e3c2e6df19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 07/23] fix: every registry access happens under the library
 lock

---
 src/evfs.c | 60 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..e111bbd 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -243,6 +243,22 @@ static bool default__path_root_component(Evfs *vfs, const char *path, StringRang
 // ******************** VFS registration ********************
 
 
+// Search for a VFS by name with the library lock already held
+static Evfs *evfs__find_vfs_locked(const char *vfs_name) {
+  Evfs *rval = NULL;
+  Evfs *cur_vfs = s_vfs_list;
+
+  while(cur_vfs) {
+    if(!strcmp(cur_vfs->vfs_name, vfs_name))
+      rval = cur_vfs;
+
+    cur_vfs = cur_vfs->next;
+  }
+
+  return rval;
+}
+
+
 /*
 Search for a VFS by name
 
@@ -254,17 +270,9 @@ Returns:
 */
 Evfs *evfs_find_vfs(const char *vfs_name) {
   if(PTR_CHECK(vfs_name)) return NULL;
-  Evfs *rval = NULL;
 
   LOCK();
-  Evfs *cur_vfs = s_vfs_list;
-
-  while(cur_vfs) {
-    if(!strcmp(cur_vfs->vfs_name, vfs_name))
-      rval = cur_vfs;
-
-    cur_vfs = cur_vfs->next;
-  }
+  Evfs *rval = evfs__find_vfs_locked(vfs_name);
   UNLOCK();
 
   return rval;
@@ -278,8 +286,11 @@ static Evfs *evfs__get_vfs(const char *vfs_name) {
   if(vfs_name)
     vfs = evfs_find_vfs(vfs_name);
 
-  if(!vfs) // No name provided or not found in registered list
+  if(!vfs) { // No name provided or not found in registered list
+    LOCK();
     vfs = s_default_vfs;
+    UNLOCK();
+  }
 
   return vfs;
 }
@@ -337,11 +348,12 @@ int evfs_register(Evfs *vfs, bool make_default) {
   if(!s_evfs_initialized) THROW(EVFS_ERR_INIT);
 
 
+  LOCK();
+
   if(s_vfs_list) { // Prepend entry to existing list
     // Check if this VFS is already registered
-    Evfs *existing_vfs = evfs_find_vfs(vfs->vfs_name);
+    Evfs *existing_vfs = evfs__find_vfs_locked(vfs->vfs_name);
 
-    LOCK();
     if(!existing_vfs) { // Add a New VFS
       vfs->next = s_vfs_list;
       s_vfs_list = vfs;
@@ -367,12 +379,7 @@ int evfs_register(Evfs *vfs, bool make_default) {
         s_default_vfs = vfs;
     }
 
-    if(!new_vfs) {
-      UNLOCK();
-    }
-
   } else { // First VFS entry
-    LOCK();
     s_default_vfs = vfs; // First entry must be the default
     s_vfs_list = vfs;
 
@@ -393,9 +400,10 @@ int evfs_register(Evfs *vfs, bool make_default) {
     if(!vfs->m_vfs_ctrl)     vfs->m_vfs_ctrl = default__vfs_ctrl;
 
     if(!vfs->m_path_root_component) vfs->m_path_root_component = default__path_root_component;
-    UNLOCK();
   }
 
+  UNLOCK();
+
   return EVFS_OK;
 }
 
@@ -456,14 +464,16 @@ int evfs_unregister(Evfs *vfs) {
 Unregister all registered VFS objects
 */
 void evfs_unregister_all(void) {
-  Evfs *cur_vfs = s_vfs_list;
-  Evfs *next_vfs;
+  Evfs *cur_vfs;
 
-  while(cur_vfs) {
-    next_vfs = cur_vfs->next;
-    evfs_unregister(cur_vfs);
-    cur_vfs = next_vfs;
-  }
+  do {
+    LOCK();
+    cur_vfs = s_vfs_list;
+    UNLOCK();
+
+    if(cur_vfs)
+      evfs_unregister(cur_vfs);
+  } while(cur_vfs);
 }
 
 
-- 
2.43.0


From 84fa51e6a68869821bbc451406650e204666bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 08/23] fix: missing objects are reported instead of
 dereferenced or taken for success

---
 src/evfs.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index e111bbd..4f43ffc 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -514,6 +514,8 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open(Evfs *vfs, const char *path, EvfsFile **fh, int flags) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
+
   *fh = (EvfsFile *)evfs_malloc(vfs->vfs_file_size);
   if(MEM_CHECK(*fh)) return EVFS_ERR_ALLOC;
 
@@ -792,6 +794,8 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open_dir(Evfs *vfs, const char *path, EvfsDir **dh) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(dh)) return EVFS_ERR_BAD_ARG;
+
   if(vfs->m_open_dir == default__open_dir) return EVFS_ERR_NO_SUPPORT; // Avoid wasted malloc()
 
 
@@ -971,9 +975,9 @@ Returns:
   true when the path is absolute
 */
 bool evfs_path_root_component_ex(const char *path, StringRange *root, const char *vfs_name) {
-  if(PTR_CHECK(path) || PTR_CHECK(root)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(path) || PTR_CHECK(root)) return false;
   Evfs *vfs = evfs__get_vfs(vfs_name);
-  if(!vfs) THROW(EVFS_ERR_NO_VFS);
+  if(!vfs) return false;
 
   return vfs->m_path_root_component(vfs, path, root);
 }
@@ -1127,7 +1131,7 @@ Returns:
   true if path is absolute
 */
 bool evfs_vfs_path_is_absolute(Evfs *vfs, const char *path) {
-  if(PTR_CHECK(path)) return false;
+  if(PTR_CHECK(vfs) || PTR_CHECK(path)) return false;
 
   StringRange root;
   return vfs->m_path_root_component(vfs, path, &root);
@@ -1151,6 +1155,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_file_ctrl(EvfsFile *fh, int cmd, void *arg) {
+  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   return fh->methods->m_ctrl(fh, cmd, arg);
 }
 
@@ -1438,6 +1443,7 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
+  if(PTR_CHECK(fh) || PTR_CHECK(fmt)) return EVFS_ERR_BAD_ARG;
   va_list args;
   char *buf;
 
@@ -1467,6 +1473,7 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_puts(EvfsFile *fh, const char *str) {
+  if(PTR_CHECK(fh) || PTR_CHECK(str)) return EVFS_ERR_BAD_ARG;
   return evfs_file_write(fh, str, strlen(str));
 }
 
-- 
2.43.0


From 52f9c95e0d5873b54fa63f0d19fe6b16b452414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 09/23] fix: join, basename, dirname and extname stay inside
 the path and split it consistently

---
 src/evfs_path.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index c11bd99..af44c9a 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -95,15 +95,12 @@ Returns:
 int evfs_path_basename(const char *path, StringRange *tail) {
   if(PTR_CHECK(path) || PTR_CHECK(tail)) return EVFS_ERR_BAD_ARG;
   const char *end = (char *)path + strlen(path);
-  const char *pos = end - 1;
+  const char *pos = end;
 
   // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
+  while(pos > path && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
     pos--;
 
-  if(char_match(*pos, EVFS_PATH_SEPS))
-    pos++;
-
   range_init(tail, pos, end-pos);
 
   return EVFS_OK;
@@ -138,7 +135,12 @@ int evfs_path_extname(const char *path, StringRange *ext) {
     }
   }
 
-  if(pos > ext->start) { // Extension found
+  // Leading periods are part of the name
+  const char *name = ext->start;
+  while(name < ext->end && *name == '.')
+    name++;
+
+  if(pos > name) { // Extension found
     ext->start = pos;
   } else { // Return empty range
     ext->start = ext->end;
@@ -163,6 +165,9 @@ int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
   vfs->m_path_root_component(vfs, path, &root);
   if(pos == path + range_size(&root)-1 && char_match(*pos, EVFS_PATH_SEPS)) {
     pos++;
+  } else { // Remove all separators between head and basename
+    while(pos > path + range_size(&root) && char_match(*(pos-1), EVFS_PATH_SEPS))
+      pos--;
   }
 
   range_init(head, path, pos - path);
@@ -193,26 +198,28 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
 
   size_t head_len = range_strlen(head);
   size_t tail_len = range_strlen(tail);
+
+  // Join with the separator
+  // If head is empty no separator
+  // If head is only a root component we don't need to add an extra separator
+  StringRange root;
+  vfs->m_path_root_component(vfs, head->start, &root);
+  bool add_sep = head_len > 0 && head_len > (size_t)range_size(&root);
+
   // We need to fit in the joined string, possibly with a new separator
-  size_t joined_len = head_len + 1 + tail_len;
+  size_t joined_len = head_len + (add_sep ? 1 : 0) + tail_len;
 
 
 #ifndef ALLOW_LONG_PATHS
   if(ASSERT(joined_len < EVFS_MAX_PATH, "joined string too long")) return EVFS_ERR_OVERFLOW;
 #endif
 
-  if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
+  if(ASSERT(joined_len < (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
   range_cat_range(&joined_a, head);
 
-  // Join with the separator
-  // If head is empty no separator
-  // If head is only a root component we don't need to add an extra separator
-  StringRange root;
-  vfs->m_path_root_component(vfs, head->start, &root);
-
-  if(head_len > 0 && head_len != (size_t)range_size(&root))
+  if(add_sep)
     range_cat_char(&joined_a, EVFS_DIR_SEP);
 
   if(tail_len > 0)
-- 
2.43.0


From 92ead1a0455b1edc9f7dee0a57dea063280aad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 10/23] fix: a copy reports a failed close and
 evfs_copy_to_file uses the caller's buffer

---
 include/evfs.h |  2 +-
 src/evfs.c     | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/evfs.h b/include/evfs.h
index c687258..19ffc8f 100644
--- a/include/evfs.h
+++ b/include/evfs.h
@@ -348,7 +348,7 @@ static inline int evfs_vfs_ctrl(int op, void *arg) {
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name);
 
 static inline int evfs_copy_to_file(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size) {
-  return evfs_copy_to_file_ex(dest_path, fh, NULL, 0, NULL);
+  return evfs_copy_to_file_ex(dest_path, fh, buf, buf_size, NULL);
 }
 
 
diff --git a/src/evfs.c b/src/evfs.c
index 4f43ffc..6c712c3 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -928,13 +928,13 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
 
   while(copy_size > 0) {
     size_t read_size = MIN(copy_size, buf_size);
-    int read = evfs_file_read(fh, buf, read_size);
+    ptrdiff_t read = evfs_file_read(fh, buf, read_size);
     if(read <= 0) {
       rval = read < 0 ? read : EVFS_ERR_IO;
       break;
     }
 
-    int wrote = evfs_file_write(dest_fh, buf, read);
+    ptrdiff_t wrote = evfs_file_write(dest_fh, buf, read);
     if(wrote != read) {
       rval = wrote < 0 ? wrote : EVFS_ERR_IO;
       break;
@@ -947,8 +947,11 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
   if(alloc_buf)
     evfs_free(buf);
 
-cleanup:
-  evfs_file_close(dest_fh);
+cleanup: ;
+  // Buffered data may only be written on close so its failure is a failed copy
+  int close_err = evfs_file_close(dest_fh);
+  if(rval == EVFS_OK)
+    rval = close_err;
 
   return rval;
 }
-- 
2.43.0


From 01a19ace1209dba0ce5a2a383f971c513485d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 11/23] fix: making a path fails on a component that is a file
 and leaves the caller's range alone

---
 src/evfs.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 6c712c3..63ade67 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -707,14 +707,18 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
   AppendRange cur_path_r;
   range_init(&cur_path_r, cur_path, path_len+1);
 
+  const char *segments = path->start;
   size_t limit = path_len;
 
   // Add root separator for absolute paths
   StringRange root;
-  bool is_absolute = vfs->m_path_root_component(vfs, path->start, &root);
+  bool is_absolute = path_len > 0 && vfs->m_path_root_component(vfs, path->start, &root);
   if(is_absolute) {
+    if(root.end > path->end) // Root extends past the range
+      root.end = (char *)path->end;
+
     // Skip over the root component
-    path->start += range_size(&root);
+    segments += range_size(&root);
     limit -= range_size(&root);
     range_cat_range(&cur_path_r, &root); // Add root component to the buffer
   }
@@ -722,7 +726,7 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
 
   // Iterate over each segment of path creating any non-existant directories
   StringRange token;
-  bool new_tok = range_token_limit(path->start, EVFS_PATH_SEPS, &token, &limit);
+  bool new_tok = range_token_limit(segments, EVFS_PATH_SEPS, &token, &limit);
   while(new_tok) {
     range_cat_range(&cur_path_r, &token); // Append new token
     EvfsInfo info;
@@ -737,6 +741,9 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
     } else if(err != EVFS_OK) { // Can't get status of segment
       rval = err;
       goto cleanup;
+    } else if(!(info.type & EVFS_FILE_DIR)) { // Segment exists as a file
+      rval = EVFS_ERR_EXISTS;
+      goto cleanup;
     }
 
     range_cat_char(&cur_path_r, EVFS_DIR_SEP);
-- 
2.43.0


From bd803c0ed296fad792c28ed92086cafb99266e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 12/23] fix: plain files opened through the rotate shim have no
 rotation state

---
 src/shim_rotate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 8d6f611..fd6c9ed 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1248,6 +1248,7 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   fil->shim_data = shim_data;
 
   fil->base_file = (EvfsFile *)NEXT_OBJ(fil);  // We have two objects allocated together [RotateFile][<base VFS file size>]
+  fil->rot_state = NULL; // Stays NULL for a normal file
 
   int status;
 
@@ -1258,6 +1259,8 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   // Check if this is an existing regular file
   if(exists && !is_rotate_file(base_vfs, path)) {
     status = base_vfs->m_open(base_vfs, path, fil->base_file, flags);
+    if(status == EVFS_OK && !fil->base_file->methods)
+      status = EVFS_ERR_INIT;
   } else {
     // Open or create a container
     status = EVFS_OK;
-- 
2.43.0


From ff48f0df24f73de3f33be160c8d0ee94cf1850bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 13/23] fix: rotate reads and writes address the right chunk
 across boundaries, rotation and storage errors

---
 src/shim_rotate.c | 158 +++++++++++++++++++++++++---------------------
 1 file changed, 85 insertions(+), 73 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index fd6c9ed..dc8fd13 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -235,9 +235,15 @@ static evfs_off_t cur_write_pos(MultipartState *ms) {
 }
 
 
+// Advance past written data. Only data beyond the end grows the file.
 static void incr_write_pos(MultipartState *ms, evfs_off_t offset) {
+  evfs_off_t new_pos = cur_write_pos(ms) + offset;
+
+  if(new_pos > ms->total_size)
+    ms->total_size = new_pos;
+
   if(!(ms->flags & EVFS_APPEND))
-    ms->file_pos += offset;
+    ms->file_pos = new_pos;
 }
 
 
@@ -381,9 +387,26 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
+static inline int deactivate_chunk(MultipartState *ms) {
+  int status = EVFS_OK;
+
+  // Shutdown current active chunk
+  if(ms->active_chunk_fh) {
+    status = evfs_file_close(ms->active_chunk_fh);
+    ms->active_chunk_fh = NULL;
+    ms->active_chunk.chunk = -1;
+  }
+
+  return status;
+}
+
+
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
+  if(ms->active_chunk.chunk == chunk_num.chunk) // Don't keep a handle to a deleted file
+    deactivate_chunk(ms);
+
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
   char *joined = ms->buf->tmp_path;
@@ -429,13 +452,15 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static inline void deactivate_chunk(MultipartState *ms) {
-  // Shutdown current active chunk
-  if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
-    ms->active_chunk_fh = NULL;
-    ms->active_chunk.chunk = -1;
-  }
+// Number of chunks in the current sequence
+static inline uint32_t active_chunks(RotateState *rs) {
+  if(rs->base.total_size == 0) return 0;
+
+  int span = rs->end_chunk.chunk - rs->start_chunk.chunk;
+  if(span < 0)
+    span += rs->cfg.max_chunks;
+
+  return span + 1;
 }
 
 
@@ -446,7 +471,8 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
     return EVFS_OK;
 
   // Shutdown current active chunk
-  deactivate_chunk(ms);
+  int status = deactivate_chunk(ms);
+  if(status != EVFS_OK) return status;
 
   // Open new chunk
   EvfsFile *fh;
@@ -462,7 +488,7 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 #endif
   build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
-  int status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
+  status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
 
   UNLOCK(ms->buf);
 
@@ -476,11 +502,13 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 
 
 // Method
-static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
-  bool is_empty = rs->start_chunk.chunk == rs->end_chunk.chunk &&
-                  !chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL);
+static int append_new_chunk(Evfs *base_vfs, RotateState *rs) {
+  bool is_empty = rs->base.total_size == 0;
   ChunkId next = rs->end_chunk;
 
+  int status = deactivate_chunk(&rs->base);
+  if(status != EVFS_OK) return status;
+
   //DPRINT("ROT append  empty:%c", is_empty ? 'T':'f');
 
   if(!is_empty) {
@@ -491,18 +519,18 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
     // Remove the old start chunk on wrap around
     if(next.chunk == rs->start_chunk.chunk) {
-      evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      evfs_off_t evicted_size;
+      status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, &evicted_size);
+      if(status != EVFS_OK) return status;
 
       incr_chunk(rs, &rs->start_chunk);
 
       // Adjust read/write pos to reflect trimmed file
-      if(rs->base.file_pos > (evfs_off_t)rs->cfg.chunk_size)
-        rs->base.file_pos -= rs->cfg.chunk_size;
+      if(rs->base.file_pos > evicted_size)
+        rs->base.file_pos -= evicted_size;
       else
         rs->base.file_pos = 0;
     }
-
-    rs->end_chunk = next;
   }
 
   //DPRINT("ROT: Append new chunk: %d_%d", rs->end_chunk.chunk, rs->end_chunk.gen);
@@ -520,11 +548,17 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
   // Add new chunk file
   build_chunk_path(base_vfs, &rs->base, next, &joined_r);
 
-  // Open file handle is returned through fh
-  int status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
+  EvfsFile *fh;
+  status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR | EVFS_OVERWRITE);
 
   UNLOCK(rs->base.buf);
 
+  if(status == EVFS_OK) { // Set new active chunk
+    rs->end_chunk = next;
+    rs->base.active_chunk = next;
+    rs->base.active_chunk_fh = fh;
+  }
+
   return status;
 }
 
@@ -890,28 +924,21 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
     int status = EVFS_OK;
 
     // We may have more than one chunk's worth of data to read
-    while(size > 0) {
+    while(size > 0 && rs->base.file_pos < rs->base.total_size) {
       ChunkPos rpos = get_chunk_pos(rs, rs->base.file_pos);
 
       //DPRINT("rptr: %ld, rpos: %d:%d,  active: %d", rs->base.file_pos, rpos.chunk_num, rpos.offset, rs->base.active_chunk);
 
-      // If the chunk doesn't exist we are out of chunks to read
-      evfs_off_t chunk_size;
-      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size))
-        break;
-
-      if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
-        status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
-        if(status != EVFS_OK) return status;
-      }
-
-      if(rpos.offset >= chunk_size) // Nothing left to read
-        break;
+      status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
+      if(status != EVFS_OK) break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
-      evfs_off_t remain_space = chunk_size - rpos.offset;
-      size_t read_size = MIN((evfs_off_t)size, remain_space);
+      status = evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
+
+      evfs_off_t remain_space = MIN((evfs_off_t)rs->cfg.chunk_size - rpos.offset,
+                                    rs->base.total_size - rs->base.file_pos);
+      size_t read_size = MIN(size, (size_t)remain_space);
 
       ptrdiff_t read_chunk = evfs_file_read(rs->base.active_chunk_fh, cbuf, read_size);
       if(read_chunk > 0) {
@@ -920,12 +947,13 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         rs->base.file_pos += read_chunk;
         read += read_chunk;
       } else { // Chunk is prematurely empty
-        return EVFS_ERR_IO;
+        status = read_chunk < 0 ? read_chunk : EVFS_ERR_IO;
+        break;
       }
 
     }
 
-    if(status != EVFS_OK)
+    if(status != EVFS_OK && read == 0)
       read = status;
 
   }
@@ -947,7 +975,6 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
-    EvfsFile *new_chunk;
     int status = EVFS_OK;
 
     //DPRINT("ROT: write  %d", size);
@@ -955,53 +982,38 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
     // We may have more than one chunk's worth of data to write
     while(size > 0) {
       // Our write position depends on whether we're in append mode
-      ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
-
       // If the chunk doesn't exist we need to create it
-      if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-
-        // Set new active chunk
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
+      if(cur_write_pos(&rs->base) / rs->cfg.chunk_size >= active_chunks(rs)) {
+        status = append_new_chunk(base_vfs, rs);
+        if(status != EVFS_OK) break;
       }
 
-      if(wpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
-        status = activate_chunk(base_vfs, &rs->base, wpos.chunk_num);
-        if(status != EVFS_OK) return status;
-      }
+      // The write position can change when a new chunk is added
+      ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
+
+      status = activate_chunk(base_vfs, &rs->base, wpos.chunk_num);
+      if(status != EVFS_OK) break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
 
       evfs_off_t free_space = rs->cfg.chunk_size - wpos.offset;
-      if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
-        return EVFS_ERR_CORRUPTION;
-
-      size_t write_size = MIN((evfs_off_t)size, free_space);
+      size_t write_size = MIN(size, (size_t)free_space);
 
       ptrdiff_t wrote_chunk = evfs_file_write(rs->base.active_chunk_fh, cbuf, write_size);
-      if(wrote_chunk > 0) {
-        cbuf += wrote_chunk;
-        size -= wrote_chunk;
-        incr_write_pos(&rs->base, wrote_chunk);
-        wrote += wrote_chunk;
-        rs->base.total_size += wrote_chunk;
+      if(wrote_chunk <= 0) {
+        status = wrote_chunk < 0 ? wrote_chunk : EVFS_ERR_IO;
+        break;
       }
 
-      // Check if we have more chunks to write
-      if(size > 0) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
-      }
+      cbuf += wrote_chunk;
+      size -= wrote_chunk;
+      wrote += wrote_chunk;
+      incr_write_pos(&rs->base, wrote_chunk);
     }
 
-    if(status != EVFS_OK)
+    if(status != EVFS_OK && wrote == 0)
       wrote = status;
   }
 
-- 
2.43.0


From eebb37e4c1b2337739dec2159cdd5dce52b3f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 14/23] fix: rotate truncate and trim reject bad sizes and keep
 their state when the storage fails

---
 src/shim_rotate.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index dc8fd13..db83aee 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -780,9 +780,9 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
 
   int status = EVFS_OK;
   // We need to round down to the nearest chunk size
-  int trim_chunks = trim_bytes / rs->cfg.chunk_size;
+  int trim_chunks = trim_bytes > 0 ? trim_bytes / rs->cfg.chunk_size : 0;
 
-  if(trim_chunks == 0) // No change
+  if(trim_chunks == 0 || rs->base.total_size == 0) // No change
     return 0;
 
   ChunkId trim_start, trim_end;
@@ -821,14 +821,15 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   }
 
   // Fix up state
-  if(cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
+  if(status == EVFS_OK && cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
     rs->base.total_size = 0; // Just to be sure this is correct
     rs->start_chunk = (ChunkId){0,0};
     rs->end_chunk = (ChunkId){0,0};
     rs->base.file_pos = 0;
 
   } else { // Partial trim
-    incr_chunk(rs, &cur_chunk);
+    if(status == EVFS_OK) // Otherwise the current chunk wasn't removed
+      incr_chunk(rs, &cur_chunk);
     rs->start_chunk = cur_chunk;
 
     if(rs->base.file_pos > trimmed_size)
@@ -1034,6 +1035,9 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
+    if(size < 0)
+      return EVFS_ERR_BAD_ARG;
+
     if(size >= rs->base.total_size) // Do nothing if larger
       return EVFS_OK;
 
@@ -1082,8 +1086,9 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
       if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
         return EVFS_ERR_CORRUPTION;
 
-      evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
-      rs->base.total_size -= delete_bytes;
+      status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      if(status == EVFS_OK)
+        rs->base.total_size -= delete_bytes;
     }
 
     if(rs->base.total_size == 0) { // Restart chunk sequence
@@ -1092,8 +1097,11 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     }
 
     // Adjust position
-    if(rs->base.file_pos > size)
-      rs->base.file_pos = size;
+    if(rs->base.file_pos > rs->base.total_size)
+      rs->base.file_pos = rs->base.total_size;
+
+    if(status != EVFS_OK) // Some of the data couldn't be removed
+      return status;
 
     if(ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
       status = EVFS_ERR_CORRUPTION;
-- 
2.43.0


From a72d0eaa9a7739d204a6c2b923228859b4e1ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 15/23] fix: rotate validates what it finds on storage and
 reports storage failures

---
 src/shim_rotate.c | 174 +++++++++++++++++++++++++++++-----------------
 1 file changed, 109 insertions(+), 65 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index db83aee..cda9058 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -250,18 +250,22 @@ static void incr_write_pos(MultipartState *ms, evfs_off_t offset) {
 
 // Method
 static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig *cfg) {
+  char joined[EVFS_MAX_PATH];
+  StringRange joined_r = RANGE_FROM_ARRAY(joined);
+  int status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status != EVFS_OK) return status;
+
   // Create the multipart container directory
-  int status = base_vfs->m_make_dir(base_vfs, path);
+  status = base_vfs->m_make_dir(base_vfs, path);
   if(status != EVFS_OK) return status;
 
   // Add dat file
-  char joined[EVFS_MAX_PATH];
-  StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
-
   EvfsFile *dat_fh;
   status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_WRITE | EVFS_OVERWRITE);
-  if(status != EVFS_OK) return status;
+  if(status != EVFS_OK) {
+    base_vfs->m_delete(base_vfs, path);
+    return status;
+  }
 
   // Write header
   MultipartHeader hdr = {
@@ -272,7 +276,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   status = evfs_file_write(dat_fh, &hdr, sizeof(hdr));
 
-  if(status > 0) {
+  if(status == sizeof(hdr)) {
     // Write geometry
     RotateGeometry geom = {
       .chunk_size = cfg->chunk_size,
@@ -283,9 +287,16 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   }
 
-  evfs_file_close(dat_fh);
+  int close_status = evfs_file_close(dat_fh);
+
+  if(status == sizeof(RotateGeometry) && close_status == EVFS_OK)
+    return EVFS_OK;
+
+  // Don't leave an unusable container behind
+  base_vfs->m_delete(base_vfs, joined);
+  base_vfs->m_delete(base_vfs, path);
 
-  return status == sizeof(RotateGeometry) ? EVFS_OK : EVFS_ERR;
+  return EVFS_ERR;
 }
 
 
@@ -297,19 +308,21 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) != EVFS_DONE) {
+  while((status = evfs_dir_read(dh, &info)) == EVFS_OK) {
     // Check for dir dots
     if(info.name[0] == '.') continue;
 
     char joined[EVFS_MAX_PATH];
     StringRange joined_r = RANGE_FROM_ARRAY(joined);
-    evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
-    base_vfs->m_delete(base_vfs, joined);
+    status = evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, joined);
+    if(status != EVFS_OK) break;
   }
 
   evfs_dir_close(dh);
 
-  return status;
+  return status == EVFS_DONE ? EVFS_OK : status;
 }
 
 
@@ -324,7 +337,8 @@ static bool is_rotate_file(Evfs *base_vfs, const char *path) {
   // Multipart info file needs to exist
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status != EVFS_OK) return false;
 
   status = base_vfs->m_stat(base_vfs, joined, &info);
   return status == EVFS_OK;
@@ -340,7 +354,7 @@ static int build_chunk_path(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_nu
 }
 
 
-static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
+static int get_chunk_size(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
@@ -351,16 +365,16 @@ static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num,
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
+  int status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
   EvfsInfo info;
-  int status = base_vfs->m_stat(base_vfs, joined, &info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, joined, &info);
   UNLOCK(ms->buf);
 
-  if(chunk_size)
-    *chunk_size = (status == EVFS_OK) ? info.size : 0;
+  *chunk_size = (status == EVFS_OK) ? info.size : 0;
 
-  return status == EVFS_OK;
+  return status;
 }
 
 
@@ -416,10 +430,11 @@ static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, ev
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
+  int status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
   EvfsInfo info;
-  int status = base_vfs->m_stat(base_vfs, joined, &info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, joined, &info);
   if(status == EVFS_OK)
     status = base_vfs->m_delete(base_vfs, joined);
 
@@ -486,9 +501,9 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
-
-  status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
+  status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
+  if(status == EVFS_OK)
+    status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
 
   UNLOCK(ms->buf);
 
@@ -546,10 +561,10 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs) {
 #endif
 
   // Add new chunk file
-  build_chunk_path(base_vfs, &rs->base, next, &joined_r);
-
   EvfsFile *fh;
-  status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR | EVFS_OVERWRITE);
+  status = build_chunk_path(base_vfs, &rs->base, next, &joined_r);
+  if(status == EVFS_OK)
+    status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR | EVFS_OVERWRITE);
 
   UNLOCK(rs->base.buf);
 
@@ -566,7 +581,9 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs) {
 static ChunkId parse_chunk_name(const char *name) {
   ChunkId id = {-1,0};
 
-  if(strlen(name) == 12) {
+  // Format is "c%05d_%c.cnk"
+  if(strlen(name) == 12 && strspn(&name[1], "0123456789") == 5 && name[6] == '_' &&
+     (name[7] == '0' || name[7] == '1')) {
     id.chunk = strtol(&name[1], NULL, 10);
     id.gen = name[7] - '0';
 
@@ -598,35 +615,48 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
   rs->base.total_size = 0;
 
   // Scan chunks
+  int num_chunks = 0;
   EvfsDir *dh;
-  if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
-    EvfsInfo info;
-    while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
-      ChunkId id = parse_chunk_name(info.name);
-      bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
-
-      // It's possible a 0-length chunk was leftover from a previous
-      // power failure. We'll clean it up now. This should just leave
-      // us with a gap between generations unless more significant
-      // errors have happened.
-      if(exists && chunk_size == 0) {
-        //DPRINT("ROT evict zero length chunk");
-        evict_chunk(base_vfs, &rs->base, id, NULL);
-        exists = false;
-      }
-
-      if(exists) {
-        gen_span[id.gen].start  = MIN(gen_span[id.gen].start, id.chunk);
-        gen_span[id.gen].end    = MAX(gen_span[id.gen].end, id.chunk);
+  status = evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh);
+  if(status != EVFS_OK) return status;
 
-        rs->base.total_size += chunk_size;
-        //DPRINT("ROT found chunk %d_%d  size:%d (%p)", id.chunk, id.gen, rs->base.total_size,
-        //        &rs->base);
-      }
+  EvfsInfo info;
+  while((status = evfs_dir_find(dh, "c*.cnk", &info)) == EVFS_OK) {
+    ChunkId id = parse_chunk_name(info.name);
+    if(id.chunk < 0) continue; // Not one of our files
+
+    status = get_chunk_size(base_vfs, &rs->base, id, &chunk_size);
+    if(status != EVFS_OK) break;
+
+    // It's possible a 0-length chunk was leftover from a previous
+    // power failure. We'll clean it up now. This should just leave
+    // us with a gap between generations unless more significant
+    // errors have happened.
+    if(chunk_size == 0) {
+      //DPRINT("ROT evict zero length chunk");
+      status = evict_chunk(base_vfs, &rs->base, id, NULL);
+      if(status != EVFS_OK) break;
+      continue;
+    }
 
+    if(id.chunk >= (int)rs->cfg.max_chunks || chunk_size < 0 || chunk_size > rs->base.chunk_size) {
+      status = EVFS_ERR_CORRUPTION;
+      break;
     }
-    evfs_dir_close(dh);
+
+    gen_span[id.gen].start  = MIN(gen_span[id.gen].start, id.chunk);
+    gen_span[id.gen].end    = MAX(gen_span[id.gen].end, id.chunk);
+
+    num_chunks++;
+    rs->base.total_size += chunk_size;
+    //DPRINT("ROT found chunk %d_%d  size:%d (%p)", id.chunk, id.gen, rs->base.total_size,
+    //        &rs->base);
   }
+  evfs_dir_close(dh);
+
+  if(status != EVFS_DONE)
+    return status;
+  status = EVFS_OK;
 
   if(gen_span[0].end >= 0 || gen_span[1].end >= 0) { // Found chunk files
     if(gen_span[0].end >= 0 && gen_span[1].end >= 0) { // Both generations present
@@ -647,6 +677,16 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
       }
     }
 
+    // The sequence can't have gaps and only its last chunk can be partially filled
+    bool wrapped = rs->start_chunk.gen != rs->end_chunk.gen;
+    evfs_off_t end_size;
+    status = get_chunk_size(base_vfs, &rs->base, rs->end_chunk, &end_size);
+    if(status == EVFS_OK &&
+       ((wrapped && rs->end_chunk.chunk >= rs->start_chunk.chunk) ||
+        num_chunks != (int)active_chunks(rs) ||
+        rs->base.total_size - end_size != (num_chunks-1) * rs->base.chunk_size))
+      status = EVFS_ERR_CORRUPTION;
+
     //DPRINT("ROT init: start: %d_%d  end: %d_%d  size: %d", rs->start_chunk.chunk, rs->start_chunk.gen,
     //      rs->end_chunk.chunk, rs->end_chunk.gen, rs->base.total_size);
 
@@ -687,10 +727,10 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
-
   EvfsFile *dat_fh;
-  int status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_READ);
+  int status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status == EVFS_OK)
+    status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_READ);
   UNLOCK(&shim_data->buf);
 
   if(status != EVFS_OK)
@@ -719,6 +759,12 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
     goto cleanup2;
   }
 
+  if(geom.chunk_size == 0 || geom.chunk_size > INT32_MAX ||
+     geom.max_chunks < 2 || geom.max_chunks > MULTIPART_MAX_CHUNK) {
+    status = EVFS_ERR_INVALID;
+    goto cleanup2;
+  }
+
   // Copy geometry fields
   rs->cfg.chunk_size = geom.chunk_size;
   rs->cfg.max_chunks = geom.max_chunks;
@@ -762,7 +808,8 @@ static int set_rotate_config(Evfs *vfs, RotateConfig *cfg) {
   // Validate the config settings
   if(cfg->max_chunks < 2
     || cfg->max_chunks > MULTIPART_MAX_CHUNK
-    || cfg->chunk_size < MULTIPART_MIN_CHUNK_SIZE)
+    || cfg->chunk_size < MULTIPART_MIN_CHUNK_SIZE
+    || cfg->chunk_size > INT32_MAX)
     return EVFS_ERR_INVALID;
 
   RotateData *shim_data = (RotateData *)vfs->fs_data; 
@@ -888,16 +935,12 @@ static int rotate__file_close(EvfsFile *fh) {
     RotateState *rs = fil->rot_state;
 
     // Shutdown current active chunk
-    if(rs->base.active_chunk_fh) {
-      evfs_file_close(rs->base.active_chunk_fh);
-      rs->base.active_chunk_fh = NULL;
-      rs->base.active_chunk.chunk = -1;
-    }
+    status = deactivate_chunk(&rs->base);
 
     evfs_free(rs);
 
     fil->rot_state = NULL;
-    status = EVFS_OK;
+    fil->base.methods = NULL; // Disable this instance
   }
 
 
@@ -1325,8 +1368,9 @@ static int rotate__delete(Evfs *vfs, const char *path) {
     status = base_vfs->m_delete(base_vfs, path);
 
   } else { // This is a rotate container
-    clear_container(base_vfs, path);
-    status = base_vfs->m_delete(base_vfs, path);
+    status = clear_container(base_vfs, path);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, path);
   }
 
   return status;
-- 
2.43.0


From dfe5edddbfc027ba13b1792b96a30e6260c17737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 16/23] fix: stdio reports host failures, counts from-the-end
 seeks backwards and never truncates for WRITE|OPEN_OR_NEW

---
 src/stdio_fs.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..1337818 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -97,14 +97,17 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int status = fclose(fil->fp); // Buffered data may fail to reach the host here
   fil->fp = NULL;
-  return EVFS_OK;
+  return status == 0 ? EVFS_OK : EVFS_ERR_IO;
 }
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
-  return (ptrdiff_t)fread(buf, 1, size, fil->fp);
+  size_t read = fread(buf, 1, size, fil->fp);
+  if(read == 0 && size > 0 && ferror(fil->fp)) return EVFS_ERR_IO;
+
+  return (ptrdiff_t)read;
 }
 
 static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
@@ -113,8 +116,10 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  size_t wrote = fwrite(buf, 1, size, fil->fp);
+  if(wrote == 0 && size > 0) return EVFS_ERR_IO;
 
-  return (ptrdiff_t)fwrite(buf, 1, size, fil->fp);
+  return (ptrdiff_t)wrote;
 }
 
 static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
@@ -124,6 +129,9 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Buffered writes must not extend the file again after it is truncated
+  if(fflush(fil->fp) != 0) return EVFS_ERR_IO;
+
   return simple_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
@@ -160,16 +168,20 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
 static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
   StdioFile *fil = (StdioFile *)fh;
   int sorg = SEEK_SET;
+  long sofs = offset;
 
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
+    case EVFS_SEEK_REV: // Offset counts backwards from the end
+      sorg = SEEK_END;
+      sofs = -sofs;
+      break;
     default:
       break;
   }
 
-  return simple_error(fseek(fil->fp, offset, sorg));
+  return simple_error(fseek(fil->fp, sofs, sorg));
 }
 
 static evfs_off_t stdio__file_tell(EvfsFile *fh) {
@@ -179,7 +191,11 @@ static evfs_off_t stdio__file_tell(EvfsFile *fh) {
 
 static bool stdio__file_eof(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  return feof(fil->fp) != 0;
+  if(feof(fil->fp)) return true;
+
+  // The stream only learns it is at the end from a read that fails
+  evfs_off_t pos = ftell(fil->fp);
+  return pos >= 0 && pos >= stdio__file_size(fh);
 }
 
 
@@ -265,6 +281,7 @@ static EvfsDirMethods s_stdio_dir_methods = {
 
   "r"   EVFS_READ
   "r+"  EVFS_READ | EVFS_WRITE
+  "r+"  EVFS_WRITE | EVFS_OPEN_OR_NEW
   "w"   EVFS_WRITE
   "w"   EVFS_OVERWRITE
   "w+"  EVFS_OVERWRITE | EVFS_WRITE | EVFS_READ
@@ -282,7 +299,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
@@ -291,12 +308,12 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   if(flags & EVFS_APPEND)
     mode[mode_pos++] = 'a';
-  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & EVFS_READ)))
+  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & (EVFS_READ | EVFS_OPEN_OR_NEW))))
     mode[mode_pos++] = 'w';
   else // Default to reading
     mode[mode_pos++] = 'r';
 
-  if((flags & EVFS_WRITE) && (flags & EVFS_READ))
+  if((flags & EVFS_WRITE) && ((flags & EVFS_READ) || mode[0] == 'r'))
     mode[mode_pos++] = '+';
 
   mode[mode_pos++] = 'b'; // Always use binary mode
-- 
2.43.0


From 562688d4dc38f3e432c6a2f7714818348f7f5906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 17/23] fix: fatfs reports close, truncate and directory read
 failures; truncate gives the exact size

---
 src/fatfs_fs.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..ec95473 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -112,8 +112,7 @@ static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int fatfs__file_close(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  f_close(&fil->fil);
-  return EVFS_OK;
+  return translate_error(f_close(&fil->fil)); // Buffered data may fail to reach the disk here
 }
 
 static ptrdiff_t fatfs__file_read(EvfsFile *fh, void *buf, size_t size) {
@@ -160,8 +159,9 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   // f_lseek() can grow files in write mode which we don't want to do here.
   evfs_off_t file_size = f_size(&fil->fil);
-  if(size >= file_size)
-    size = file_size-1;
+  if(size < 0) return EVFS_ERR_BAD_ARG;
+  if(size > file_size)
+    size = file_size;
 
   if(cur_pos > size)
     cur_pos = size;
@@ -171,7 +171,9 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
     status = f_truncate(&fil->fil);
 
   // Restore original position
-  f_lseek(&fil->fil, cur_pos);
+  FRESULT restored = f_lseek(&fil->fil, cur_pos);
+  if(status == FR_OK)
+    status = restored;
 
   return translate_error(status);
 #else
@@ -282,7 +284,10 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   memset(info, 0, sizeof(*info));
 
-  if(status == FR_OK && dir->info.fname[0] != '\0') {
+  if(status != FR_OK)
+    return translate_error(status);
+
+  if(dir->info.fname[0] != '\0') {
     info->name = dir->info.fname;
     info->size = dir->info.fsize;
 
@@ -342,7 +347,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   BYTE fs_flags = 0;
-- 
2.43.0


From f98f95b35968f4e6980b09237d990463639e0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 18/23] fix: fatfs image device reports seek failures and its
 block size

---
 src/fatfs_image.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 914fbd1..28812c2 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -158,10 +158,18 @@ DSTATUS disk_status(BYTE pdrv) {
   return img ? 0 : STA_NOINIT;
 }
 
+// Position the image at a sector
+static int seek_sector(FatfsImage *img, LBA_t sector) {
+  evfs_off_t offset = (evfs_off_t)((uint64_t)sector * FF_MAX_SS);
+  if(offset < 0 || (uint64_t)offset != (uint64_t)sector * FF_MAX_SS) return EVFS_ERR_OVERFLOW;
+
+  return evfs_file_seek(img->fh, offset, EVFS_SEEK_TO);
+}
+
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(seek_sector(img, sector) != EVFS_OK) return RES_ERROR;
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
 
   return read == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -170,7 +178,7 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(seek_sector(img, sector) != EVFS_OK) return RES_ERROR;
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
 
   return wrote == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -205,7 +213,7 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
 
   case GET_BLOCK_SIZE:    // Get erase block size (needed at FF_USE_MKFS == 1)
     {
-      WORD *ss = (WORD *)buff;
+      DWORD *ss = (DWORD *)buff;
       *ss = FF_MAX_SS;
       return RES_OK;
     }
-- 
2.43.0


From 86d2d6719680b1981b75e09ddefee33996a31c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 19/23] fix: absolute offset of a seek cannot overflow

---
 src/evfs.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 63ade67..695f5e5 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -169,6 +169,15 @@ bool evfs__vfs_existing_dir(Evfs *vfs, const char *path) {
 
 
 // Common offset conversion routine for implementations of m_file_seek()
+#define OFF_MAX  (sizeof(evfs_off_t) == sizeof(int64_t) ? (evfs_off_t)INT64_MAX : (evfs_off_t)INT32_MAX)
+
+// Add to an offset without leaving the range of its type
+static evfs_off_t offset_sum(evfs_off_t a, evfs_off_t b) {
+  if(b > 0 && a > OFF_MAX - b) return OFF_MAX;
+  if(b < 0 && a < -OFF_MAX - b) return -OFF_MAX;
+  return a + b;
+}
+
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
   // Compute absolute offset from start of file
   switch(origin) {
@@ -176,11 +185,11 @@ evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir or
       break;
 
     case EVFS_SEEK_REL:
-      offset += evfs_file_tell(fh);
+      offset = offset_sum(evfs_file_tell(fh), offset);
       break;
 
     case EVFS_SEEK_REV:
-      offset = evfs_file_size(fh) - offset;
+      offset = offset_sum(evfs_file_size(fh), offset < -OFF_MAX ? OFF_MAX : -offset);
       break;
 
     default:
-- 
2.43.0


From c9f762ea73825b612ec4dcf6ec22e311e1f2c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 20/23] fix: dhash ignores tombstones on insert, keeps to the
 value object's size and releases removed items with their key

---
 include/evfs/util/dhash.h |  3 ++-
 src/util/dhash.c          | 35 ++++++++++++++++++++---------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/evfs/util/dhash.h b/include/evfs/util/dhash.h
index e432506..5b57cad 100644
--- a/include/evfs/util/dhash.h
+++ b/include/evfs/util/dhash.h
@@ -108,7 +108,8 @@ typedef struct dhash {
 #endif
 
   // Configuration
-  size_t          value_size;   // Bytes per entry value
+  size_t          value_size;   // Bytes per entry value, padded for alignment
+  size_t          value_len;    // Bytes per entry value as configured
   size_t          max_storage;  // Max bytes to use for bucket array
 
   // Callbacks
diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a57bf2..d3d596b 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -391,6 +391,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       .prime_ix     = prime_ix,
 #endif
       .value_size   = value_size,
+      .value_len    = config->value_size,
       .max_storage  = config->max_storage,
       .ctx          = ctx,
       .destroy_item = config->destroy_item,
@@ -417,6 +418,12 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
 #endif
       hash->static_buckets = true;
 
+      if(hash->num_buckets < 1 || (size_t)hash->num_buckets > ext_buckets) { // Storage can't hold the smallest table
+        hash->buckets = NULL;
+        hash->num_buckets = 0;
+        return false;
+      }
+
       //printf("## EXT SIZE: %d  bsz: %d  num: %d\n", config->max_storage, bucket_size, ext_buckets);
       //printf("## EXT HASH STORE: %d  %ld\n", hash->num_buckets, get_prime(hash->prime_ix));
 
@@ -701,7 +708,7 @@ bool dh_lookup(dhash *hash, dhKey key, void *value) {
 
   if(entry && !WAS_DELETED(entry)) { // Found match
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->value_len);
     return true;
   }
 
@@ -747,14 +754,11 @@ bool dh_lookup_in_place(dhash *hash, dhKey key, void **value) {
 // ******************** Storage ********************
 
 // Exchange value objects for Robin Hood algo.
-static inline void swap_values(uintptr_t * restrict v1, uintptr_t * restrict v2, size_t value_size) {
-  uintptr_t temp;
+static inline void swap_values(uint8_t * restrict v1, uint8_t * restrict v2, size_t value_len) {
+  uint8_t temp;
 
-  // The value size is rounded up to a multiple of uintptr_t alignment so this
-  // will never have a remainder.
-  value_size /= sizeof(uintptr_t);
-
-  for(size_t i = 0; i < value_size; i++) {
+  // The caller's value object need not be padded or aligned like the bucket storage
+  for(size_t i = 0; i < value_len; i++) {
     temp = v1[i];
     v1[i] = v2[i];
     v2[i] = temp;
@@ -781,14 +785,14 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       entry->ikey = ikey;
 #endif
       entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
+      memcpy(&entry->value_obj, value, hash->value_len);
 
       SET_PROBE_COUNT(entry, probes);
       hash->used_buckets++;
       return true;
     }
 
-    if(
+    if(!WAS_DELETED(entry) &&
 #ifdef DH_USE_MEMOIZED_HASH
         entry->ikey == ikey &&
 #endif
@@ -803,7 +807,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
 
       hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
       entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
+      memcpy(&entry->value_obj, value, hash->value_len);
       return true;
     }
 
@@ -814,7 +818,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
         entry->ikey = ikey;
 #endif
         entry->key = key;
-        memcpy(&entry->value_obj, value, hash->value_size);
+        memcpy(&entry->value_obj, value, hash->value_len);
 
         CLEAR_DELETED(entry); // Clear tombstone
         SET_PROBE_COUNT(entry, probes);
@@ -839,7 +843,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       key    = titem.key;
       probes = PROBE_COUNT(&titem);
 
-      swap_values((uintptr_t *)&entry->value_obj, (uintptr_t *)value, hash->value_size);
+      swap_values((uint8_t *)&entry->value_obj, (uint8_t *)value, hash->value_len);
     }
 
     // Continue linear probe
@@ -974,11 +978,12 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     // Return removed value if caller wants to manage it, otherwise destroy it
     // after we finish internal bookkeeping.
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->value_len);
 
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
 #endif
+    dhKey old_key = entry->key;
     entry->key.data = NULL;
     entry->key.length = 0;
 
@@ -987,7 +992,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     hash->used_buckets--;
 
     if(!value)
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
+      hash->destroy_item(old_key, &entry->value_obj, hash->ctx);
 
     memset(&entry->value_obj, 0, hash->value_size);
 
-- 
2.43.0


From 1f6e730f7a58bf1ca669028c7091d997f362de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 21/23] fix: tar iterators check headers, sizes and positions
 against the archive

Magic, checksum and size fields are read within their bounds, a member must
lie inside the archive and a damaged or cut off archive ends the iteration.
---
 include/evfs/tar_common.h | 74 +++++++++++++++++++++++++++++++++++++++
 src/tar_iter.c            | 50 ++++++++++----------------
 src/tar_iter_rsrc.c       | 63 ++++++++++++---------------------
 3 files changed, 116 insertions(+), 71 deletions(-)

diff --git a/include/evfs/tar_common.h b/include/evfs/tar_common.h
index ef39e36..1cab66b 100644
--- a/include/evfs/tar_common.h
+++ b/include/evfs/tar_common.h
@@ -1,6 +1,11 @@
 #ifndef TAR_COMMON_H
 #define TAR_COMMON_H
 
+#include <stdint.h>
+#include <stdbool.h>
+#include <stddef.h>
+#include <string.h>
+
 #define TAR_BLOCK_SIZE 512
 #define TAR_HEADER_SIZE 500
 
@@ -44,5 +49,74 @@ typedef struct TarHeader
 
 
 
+// Length of a text field which is not NUL terminated when it is full
+static inline size_t tar_field_len(const uint8_t *field, size_t max_len) {
+  size_t len = 0;
+  while(len < max_len && field[len] != '\0')
+    len++;
+  return len;
+}
+
+
+// Read a number field. Only octal with an optional NUL or space terminator is supported
+static inline bool tar_parse_octal(const uint8_t *field, size_t max_len, uint64_t *value) {
+  size_t i = 0;
+  *value = 0;
+
+  while(i < max_len && field[i] == ' ')
+    i++;
+
+  for(; i < max_len && field[i] >= '0' && field[i] <= '7'; i++)
+    *value = *value * 8 + (field[i] - '0');
+
+  return i == max_len || field[i] == '\0' || field[i] == ' ';
+}
+
+
+// Check the format and checksum of a header
+static inline bool tar_valid_header(const TarHeader *header) {
+  const uint8_t *raw_header = (const uint8_t *)header;
+  const size_t checksum_start = offsetof(TarHeader, checksum);
+  const size_t checksum_end   = offsetof(TarHeader, type_flag);
+
+  // Only support ustar format (magic and version fields together)
+  if(memcmp(header->magic, "ustar  ", 8) != 0) return false;
+
+  // Compute the checksum with spaces in place of its own field
+  uint32_t checksum = 0;
+  for(size_t i = 0; i < TAR_HEADER_SIZE; i++)
+    checksum += (i >= checksum_start && i < checksum_end) ? ' ' : raw_header[i];
+
+  uint64_t orig_checksum;
+  return tar_parse_octal(header->checksum, sizeof(header->checksum), &orig_checksum) &&
+         orig_checksum == checksum;
+}
+
+
+// Get the full name of an archive member
+// Returns the length of the name. It is stored in buf with a terminator if it fits
+static inline size_t tar_member_name(const TarHeader *header, char *buf, size_t buf_size) {
+  size_t prefix_len = tar_field_len(header->file_prefix, TAR_FILE_PREFIX_LEN);
+  size_t name_len   = tar_field_len(header->file_name, TAR_FILE_NAME_LEN);
+
+  // Directory names have a trailing slash
+  if(header->type_flag == TAR_TYPE_DIRECTORY && name_len > 0 && header->file_name[name_len-1] == '/')
+    name_len--;
+
+  size_t name_start = prefix_len > 0 ? prefix_len + 1 : 0;
+
+  if(name_start + name_len < buf_size) {
+    if(prefix_len > 0) {
+      memcpy(buf, header->file_prefix, prefix_len);
+      buf[prefix_len] = '/';
+    }
+    memcpy(buf + name_start, header->file_name, name_len);
+    buf[name_start + name_len] = '\0';
+  }
+
+  return name_start + name_len;
+}
+
+
 #endif // TAR_COMMON_H
 
diff --git a/src/tar_iter.c b/src/tar_iter.c
index b00db91..1528ddc 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -41,46 +41,32 @@ void tar_iter_close(TarFileIterator *tar_it) {
 }
 
 
-static bool tar__valid_header(TarHeader *header) {
-  // Only support ustar format
-  if(strcmp((const char *)header->magic, "ustar  ") != 0) return false;
-  
-  // Compute the checksum
-  uint8_t *raw_header = (uint8_t *)header;
-  uint32_t checksum = 0;
-  for(size_t i = 0; i < offsetof(TarHeader, checksum); i++) {
-    checksum += raw_header[i];
-  }
-  // Replace checksum with spaces
-  for(size_t i = offsetof(TarHeader, checksum); i < offsetof(TarHeader, type_flag); i++) {
-    checksum += ' ';
-  }
-  for(size_t i = offsetof(TarHeader, type_flag); i < TAR_HEADER_SIZE; i++) {
-    checksum += raw_header[i];
-  }
-
-  // Validate  
-  // Only supporting NUL terminated octal with '0' padding
-  uint32_t orig_checksum_value = strtol((const char *)&header->checksum, NULL, 8);
-
-  return orig_checksum_value == checksum;
-}
-
-
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
+  uint64_t file_size;
+  evfs_off_t archive_size = evfs_file_size(tar_it->fd);
+
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
+  if(tar_it->header_offset < 0)
+    goto fail;
 
   if(evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE) != TAR_HEADER_SIZE)
     goto fail;
 
-  if(tar__valid_header(header)) {
+  if(tar_valid_header(header)) {
     // Seek to start of next 512 byte TAR block for file data
     if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK)
       goto fail;
 
     // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)header->size, NULL, 8);
+    if(!tar_parse_octal(header->size, sizeof(header->size), &file_size))
+      goto fail;
+
+    // File data must be inside the archive
+    if(archive_size - tar_it->header_offset < TAR_BLOCK_SIZE ||
+       file_size > (uint64_t)(archive_size - tar_it->header_offset - TAR_BLOCK_SIZE))
+      goto fail;
+
+    tar_it->file_size = file_size;
     return true;
   }
 
@@ -102,8 +88,10 @@ bool tar_iter_seek(TarFileIterator *tar_it, evfs_off_t offset) {
 
 bool tar_iter_next(TarFileIterator *tar_it) {
   // Position at start of next header
-  evfs_off_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
-  evfs_off_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
+  int64_t file_blocks = ((int64_t)tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
+  int64_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
+  if(next_header >= evfs_file_size(tar_it->fd))
+    return false;
 
   if(evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO) != EVFS_OK)
     return false;
diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..1a8da16 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -37,47 +37,34 @@ void tar_rsrc_iter_init(TarRsrcIterator *tar_it, uint8_t *resource, size_t resou
 }
 
 
-static bool tar__valid_header(TarHeader *header) {
-  // Only support ustar format
-  if(strcmp((const char *)header->magic, "ustar  ") != 0) return false;
-  
-  // Compute the checksum
-  uint8_t *raw_header = (uint8_t *)header;
-  uint32_t checksum = 0;
-  for(size_t i = 0; i < offsetof(TarHeader, checksum); i++) {
-    checksum += raw_header[i];
-  }
-  // Replace checksum with spaces
-  for(size_t i = offsetof(TarHeader, checksum); i < offsetof(TarHeader, type_flag); i++) {
-    checksum += ' ';
-  }
-  for(size_t i = offsetof(TarHeader, type_flag); i < TAR_HEADER_SIZE; i++) {
-    checksum += raw_header[i];
-  }
+static bool tar__rsrc_get_header(TarRsrcIterator *tar_it, size_t offset) {
+  uint64_t file_size;
 
-  // Validate  
-  // Only supporting NUL terminated octal with '0' padding
-  uint32_t orig_checksum_value = strtol((const char *)&header->checksum, NULL, 8);
+  // Resource must hold the block for this header
+  if(tar_it->resource_len < TAR_BLOCK_SIZE || offset > tar_it->resource_len - TAR_BLOCK_SIZE)
+    goto fail;
 
-  return orig_checksum_value == checksum;
-}
+  tar_it->header_offset = offset;
+  tar_it->cur_header = (TarHeader *)(tar_it->resource + offset);
 
+  if(tar_valid_header(tar_it->cur_header)) {
+    // Start of next 512 byte TAR block for file data
+    offset += TAR_BLOCK_SIZE;
+    tar_it->read_pos = tar_it->resource + offset;
 
-static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
-  tar_it->header_offset = tar_it->read_pos - tar_it->resource;
+    // Extract fields
+    if(!tar_parse_octal(tar_it->cur_header->size, sizeof(tar_it->cur_header->size), &file_size))
+      goto fail;
 
-  tar_it->cur_header = (TarHeader *)tar_it->read_pos;
-  tar_it->read_pos += TAR_HEADER_SIZE;
-  if(tar__valid_header(tar_it->cur_header)) {
-    // Seek to start of next 512 byte TAR block for file data
-    tar_it->read_pos += TAR_BLOCK_SIZE - TAR_HEADER_SIZE;
+    // File data must be inside the resource
+    if(file_size > tar_it->resource_len - offset)
+      goto fail;
 
-    // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
+    tar_it->file_size = file_size;
     return true;
   }
 
+fail:
   tar_it->cur_header = NULL;
   tar_it->header_offset = 0;
   tar_it->file_size = 0;
@@ -87,22 +74,18 @@ static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
 
 
 bool tar_rsrc_iter_seek(TarRsrcIterator *tar_it, evfs_off_t offset) {
-  tar_it->read_pos = tar_it->resource + offset;
+  if(offset < 0) return false;
 
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, offset);
 }
 
 
 bool tar_rsrc_iter_next(TarRsrcIterator *tar_it) {
   // Position at start of next header
-  size_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
+  size_t file_blocks = tar_it->file_size / TAR_BLOCK_SIZE + (tar_it->file_size % TAR_BLOCK_SIZE != 0);
   size_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  tar_it->read_pos = tar_it->resource + next_header;
-  if((size_t)(tar_it->read_pos - tar_it->resource) >= tar_it->resource_len)
-    return false;
-
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, next_header);
 }
 
 
-- 
2.43.0


From cce2b77cca399ee1a2ef4adf305d651946c62b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 22/23] fix: tar filesystems index full member names and
 release everything on failure

Long names are joined with their prefix by a separator, names are kept inside
their memory, a failed registration or path conversion leaves no memory or lock
behind, missing names are reported as such and short reads are not skipped.
---
 src/tar_fs.c      | 118 +++++++++++++++++++++++++++++-----------------
 src/tar_rsrc_fs.c | 104 +++++++++++++++++++++++++---------------
 2 files changed, 143 insertions(+), 79 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..134f2c2 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -125,6 +125,12 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
   if(status == EVFS_OK)
     *absolute = abs_path;
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+  else if(!force_malloc)
+    UNLOCK(); // FREE_ABS() will not be called
+#endif
+  else
+    evfs_free(abs_path);
 
   return status;
 }
@@ -163,12 +169,17 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
     .is_equal     = dh_equal_hash_keys_string
   };
 
-  ht->keys = evfs_malloc(total_path_len);
+  ht->keys = evfs_malloc(total_path_len + 1);
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  if(!dh_init(&ht->hash_table, &s_hash_init, NULL)) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+    return EVFS_ERR;
+  }
+
+  return EVFS_OK;
 }
 
 
@@ -191,8 +202,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    total_path_len += tar_member_name(&tar_it->cur_header, NULL, 0) + 1;
 
   } while(tar_iter_next(tar_it));
 
@@ -202,11 +212,11 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   if(err != EVFS_OK) return err;
 
 
-  AppendRange keys_r;
-  range_init(&keys_r, ht->keys, total_path_len);
+  char *keys = ht->keys;
+  char *keys_end = ht->keys + total_path_len;
 
   // Build the index
-  tar_iter_begin(tar_it);
+  if(!tar_iter_begin(tar_it)) goto fail;
 
   do {
     // Only index plain files and directories
@@ -216,13 +226,11 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
-// FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
-    range_cat_char(&keys_r,'\0');
+    key.data = keys;
+    key.length = tar_member_name(&tar_it->cur_header, keys, keys_end - keys);
+    if(key.length >= (size_t)(keys_end - keys)) goto fail; // Archive has changed
+
+    keys += key.length + 1;
 
     EvfsTarEntry entry;
 
@@ -232,18 +240,21 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
-      return EVFS_ERR;
+      goto fail;
+
+    total_files--;
 
   } while(tar_iter_next(tar_it));
 
+  if(total_files == 0)
+    return EVFS_OK;
 
-  return EVFS_OK;
+fail:
+  tarfs__index_hash_free(ht);
+  return EVFS_ERR;
 }
 
 
@@ -255,6 +266,12 @@ static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTa
   key.data = &path[1];
   key.length = strlen(key.data);
 
+  if(key.length == 0) { // Root directory
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   return dh_lookup(&ht->hash_table, key, entry);
 }
 
@@ -282,13 +299,17 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   evfs_off_t remaining = fil->file_size - fil->read_pos;
   if(remaining <= 0) return 0;
 
-  if((evfs_off_t)size > remaining)
+  if(size > (size_t)remaining)
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos,
+                                  EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
+
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   return rval;
@@ -376,20 +397,20 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
 
   } else { // Convert relative path
     MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
     FREE_ABS(abs_path);
   }
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -413,10 +434,10 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   int err;
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
   } else { // Convert relative path
     MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
     FREE_ABS(abs_path);
   }
 
@@ -440,9 +461,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  int copied = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return copied < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -454,9 +475,11 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+
+    if(strlen(path) >= EVFS_MAX_PATH)
+      return EVFS_ERR_OVERFLOW;
+
+    strcpy(fs_data->cur_dir, path);
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
@@ -470,18 +493,24 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int status = evfs_vfs_path_join(vfs, &head, &tail, &joined);
+
+    if(status == EVFS_OK)
+      status = evfs_vfs_path_normalize(vfs, joined_path, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      status = EVFS_ERR_NO_PATH;
+
+    if(status == EVFS_OK && strlen(joined_path) >= EVFS_MAX_PATH)
+      status = EVFS_ERR_OVERFLOW;
 
     // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+    if(status == EVFS_OK)
+      strcpy(fs_data->cur_dir, joined_path);
 
     evfs_free(joined_path);
+    return status;
   }
 
   return EVFS_OK;
@@ -562,7 +591,11 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) {
+    evfs_free(new_vfs);
+    return status;
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -581,6 +614,7 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..879edde 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -135,6 +135,12 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
   if(status == EVFS_OK)
     *absolute = abs_path;
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+  else if(!force_malloc)
+    UNLOCK(); // FREE_ABS() will not be called
+#endif
+  else
+    evfs_free(abs_path);
 
   return status;
 }
@@ -173,12 +179,17 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
     .is_equal     = dh_equal_hash_keys_string
   };
 
-  ht->keys = evfs_malloc(total_path_len);
+  ht->keys = evfs_malloc(total_path_len + 1);
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  if(!dh_init(&ht->hash_table, &s_hash_init, NULL)) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+    return EVFS_ERR;
+  }
+
+  return EVFS_OK;
 }
 
 
@@ -201,8 +212,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    total_path_len += tar_member_name(tar_it->cur_header, NULL, 0) + 1;
 
   } while(tar_rsrc_iter_next(tar_it));
 
@@ -212,11 +222,11 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   if(err != EVFS_OK) return err;
 
 
-  AppendRange keys_r;
-  range_init(&keys_r, ht->keys, total_path_len);
+  char *keys = ht->keys;
+  char *keys_end = ht->keys + total_path_len;
 
   // Build the index
-  tar_rsrc_iter_begin(tar_it);
+  if(!tar_rsrc_iter_begin(tar_it)) goto fail;
 
   do {
     // Only index plain files and directories
@@ -226,13 +236,11 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
+    key.data = keys;
+    key.length = tar_member_name(tar_it->cur_header, keys, keys_end - keys);
+    if(key.length >= (size_t)(keys_end - keys)) goto fail; // Archive has changed
 
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
-    range_cat_char(&keys_r,'\0');
+    keys += key.length + 1;
 
     EvfsTarEntry entry;
 
@@ -242,18 +250,21 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
-      return EVFS_ERR;
+      goto fail;
+
+    total_files--;
 
   } while(tar_rsrc_iter_next(tar_it));
 
+  if(total_files == 0)
+    return EVFS_OK;
 
-  return EVFS_OK;
+fail:
+  tarfs__index_hash_free(ht);
+  return EVFS_ERR;
 }
 
 
@@ -265,6 +276,12 @@ static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTa
   key.data = &path[1];
   key.length = strlen(key.data);
 
+  if(key.length == 0) { // Root directory
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   return dh_lookup(&ht->hash_table, key, entry);
 }
 
@@ -397,20 +414,20 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
 
   } else { // Convert relative path
     MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
     FREE_ABS(abs_path);
   }
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -434,10 +451,10 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   int err;
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
   } else { // Convert relative path
     MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
+    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
     FREE_ABS(abs_path);
   }
 
@@ -461,9 +478,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  int copied = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return copied < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -475,9 +492,11 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+
+    if(strlen(path) >= EVFS_MAX_PATH)
+      return EVFS_ERR_OVERFLOW;
+
+    strcpy(fs_data->cur_dir, path);
 
   } else { // Path is relative: Join it to the existing directory
     StringRange head, tail, joined;
@@ -491,18 +510,24 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int status = evfs_vfs_path_join(vfs, &head, &tail, &joined);
+
+    if(status == EVFS_OK)
+      status = evfs_vfs_path_normalize(vfs, joined_path, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      status = EVFS_ERR_NO_PATH;
+
+    if(status == EVFS_OK && strlen(joined_path) >= EVFS_MAX_PATH)
+      status = EVFS_ERR_OVERFLOW;
 
     // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+    if(status == EVFS_OK)
+      strcpy(fs_data->cur_dir, joined_path);
 
     evfs_free(joined_path);
+    return status;
   }
 
   return EVFS_OK;
@@ -586,7 +611,11 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) {
+    evfs_free(new_vfs);
+    return status;
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -605,6 +634,7 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
-- 
2.43.0


From 796dce5bb0436bd92cb0805e41fda96eeea5e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 23/23] fix: range_cat_int handles the minimum value and stays
 all-or-nothing

---
 src/util/range_strings.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 81f69fd..b8e6a1d 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -565,15 +565,21 @@ Returns:
   Number of bytes needed if negative
 */
 int range_cat_int(AppendRange *rng, int32_t n) {
-  int s_chars = 0;
-  if(n < 0) {
-    n = -n; // NOTE: Does not work with INT_MIN
-    s_chars = range_cat_char(rng, '-');
-  }
+  if(n >= 0)
+    return range_cat_uint(rng, n);
+
+  char *start = rng->start;
+  int s_chars = range_cat_char(rng, '-');
+  int n_chars = range_cat_uint(rng, 0u - (uint32_t)n);
 
-  int n_chars = range_cat_uint(rng, n);
-  if(n_chars < 0 && s_chars > 0)
-    s_chars = -s_chars;
+  if(s_chars < 0 || n_chars < 0) { // Won't fit
+    if(s_chars > 0) { // Remove the sign
+      rng->start = start;
+      *rng->start = '\0';
+    }
+
+    return -1 - (n_chars < 0 ? -n_chars : n_chars);
+  }
 
   return s_chars + n_chars;
 }
-- 
2.43.0

