From 7ea413f0bcffd8b320a9decd18a76fc5e3cd4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 01/61] fix: a block appended to the trace chain has no
 successor

A resized block kept the successor it had before it moved to the tail, so
cee_state_gc could walk the chain in a cycle.
---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..480ef07 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -4,6 +4,7 @@
  */
 static void S(chain) (struct S(header) * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
diff --git a/release/cee.c b/release/cee.c
index 9e70323..6152aef 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1388,6 +1388,7 @@ struct _cee_boxed_header {
  */
 static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -1803,6 +1804,7 @@ struct _cee_str_header {
  */
 static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2260,6 +2262,7 @@ struct _cee_dict_header {
  */
 static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2425,6 +2428,7 @@ struct _cee_map_header{
  */
 static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2805,6 +2809,7 @@ struct _cee_set_header {
  */
 static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3129,6 +3134,7 @@ struct _cee_stack_header {
  */
 static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3296,6 +3302,7 @@ struct _cee_tuple_header {
  */
 static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3424,6 +3431,7 @@ struct _cee_triple_header {
  */
 static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3545,6 +3553,7 @@ struct _cee_quadruple_header {
  */
 static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3666,6 +3675,7 @@ struct _cee_list_header {
  */
 static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3870,6 +3880,7 @@ struct _cee_tagged_header {
  */
 static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4018,6 +4029,7 @@ struct _cee_closure_header {
  */
 static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4134,6 +4146,7 @@ struct _cee_block_header {
  */
 static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4270,6 +4283,7 @@ struct _cee_n_tuple_header {
  */
 static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4404,6 +4418,7 @@ struct _cee_env_header {
  */
 static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
-- 
2.43.0


From 94c3483b4f75471d538e2a1f217069b947de5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 02/61] fix: cee_str_mkv/cee_str_strn measure with the copied
 va_list and terminate

---
 release/cee.c | 5 +++--
 str.c         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 6152aef..83e83c6 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1903,6 +1903,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
@@ -1916,7 +1917,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
@@ -1937,7 +1938,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
 
   h->capacity = s - sizeof(struct _cee_str_header);
 
-  vsnprintf(h->_, s, fmt, ap);
+  vsnprintf(h->_, h->capacity, fmt, ap);
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index 458626b..2bd0309 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
@@ -77,7 +78,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
@@ -98,7 +99,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   
   h->capacity = s - sizeof(struct S(header));
 
-  vsnprintf(h->_, s, fmt, ap);
+  vsnprintf(h->_, h->capacity, fmt, ap);
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 030aa03e47f8dadefd8caa84f76ecb048ee5bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 03/61] fix: cee_str_mk_e honours n, cee_str_add writes at the
 string's end, every va_start is ended

---
 release/cee.c | 15 +++++++++++----
 str.c         | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 83e83c6..0fca8d5 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1964,7 +1964,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -1986,6 +1989,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
@@ -2025,16 +2029,16 @@ char * cee_str_end(struct cee_str * str) {
  */
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct _cee_str_header * b = (struct _cee_str_header *)((void *)((char *)(str) - (__builtin_offsetof(struct _cee_str_header, _))));
-  uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  size_t slen = strlen((char *)str);
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
@@ -2078,16 +2082,19 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   size_t s = vsnprintf(NULL, 0, fmt, ap);
+  va_end(ap);
   s ++; /* including the null terminator */
 
   va_start(ap, fmt);
   if( s < b->capacity ){
     vsnprintf(b->_, s, fmt, ap);
+    va_end(ap);
     return str;
   }else{
     struct _cee_str_header *b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (s) ? (b->cs.mem_block_size): (s))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
     vsnprintf(b1->_, s, fmt, ap);
+    va_end(ap);
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 2bd0309..5e94362 100644
--- a/str.c
+++ b/str.c
@@ -125,7 +125,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -147,6 +150,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
@@ -186,16 +190,16 @@ char * cee_str_end(struct cee_str * str) {
  */
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct S(header) * b = FIND_HEADER(str);
-  uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  size_t slen = strlen((char *)str);
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
@@ -239,16 +243,19 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   size_t s = vsnprintf(NULL, 0, fmt, ap);
+  va_end(ap);
   s ++; /* including the null terminator */
 
   va_start(ap, fmt);
   if( s < b->capacity ){
     vsnprintf(b->_, s, fmt, ap);
+    va_end(ap);
     return str;
   }else{
     struct S(header) *b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, s));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
     vsnprintf(b1->_, s, fmt, ap);
+    va_end(ap);
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From 86218ad23feaf004fcac93f828dd7b8f2b852b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 04/61] fix: trim the first/last blank too

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 0fca8d5..4139446 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2102,7 +2102,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -2117,7 +2117,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index 5e94362..74f9e04 100644
--- a/str.c
+++ b/str.c
@@ -263,7 +263,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -278,7 +278,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From 8f94a9d6281815289589496afa6643c6e6213b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 05/61] fix: str_replace_all and str_replace_all_ext allocate
 room for the longest result

---
 release/cee.c | 11 +++--------
 str.c         | 12 +++---------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 4139446..b8dc9b8 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2167,7 +2167,7 @@ char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
   double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  char *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
@@ -2193,7 +2193,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int max_new_len = 1; /* a byte that is not replaced takes one byte */
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -2211,18 +2211,13 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
 
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
 
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len * max_new_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
diff --git a/str.c b/str.c
index 74f9e04..0e6d107 100644
--- a/str.c
+++ b/str.c
@@ -328,7 +328,7 @@ char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
   double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  char  *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
@@ -354,7 +354,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int max_new_len = 1; /* a byte that is not replaced takes one byte */
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -372,18 +372,12 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
     
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
-    
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len * max_new_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
-- 
2.43.0


From d9640e97fec99e18e71796ac4f45a17adfcb52b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 06/61] fix: iterating an empty list returns 0

---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index b8dc9b8..2d6889e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3851,7 +3851,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From 2b26799f950a195511e815f036448501a9fb22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 07/61] fix: a map never touches the counts of keys/values it
 does not manage

---
 map.c         | 16 ++++++++++++----
 release/cee.c | 15 +++++++++++----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/map.c b/map.c
index ee52dd6..afc93eb 100644
--- a/map.c
+++ b/map.c
@@ -84,7 +84,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the tuples own the keys, this list only records their order */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
@@ -209,6 +210,13 @@ bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
     return false;
 }
 
+/*
+ * a list derived from a map shares its keys/values, unless they're not managed
+ */
+static enum cee_del_policy S(shared) (enum cee_del_policy o) {
+  return o == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+}
+
 static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const int depth) {
   struct cee_tuple * p;
   switch (which){
@@ -225,7 +233,7 @@ static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct S(header) * b = FIND_HEADER(m);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, S(shared)(b->del_policies._.key), n);
   musl_twalk(keys, b->_[0], S(get_key));
   return keys;
 }
@@ -233,7 +241,7 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct S(header) * b = FIND_HEADER(m);
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, S(shared)(b->del_policies._.key), n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -258,7 +266,7 @@ static void S(get_value) (void * ctx, const void *nodep, const VISIT which, cons
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct S(header) *b = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(b->cs.state, S(shared)(b->del_policies._.val), s);
   musl_twalk(values, b->_[0], S(get_value));
   return values;
 }
diff --git a/release/cee.c b/release/cee.c
index 2d6889e..26a36d9 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2544,7 +2544,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the tuples own the keys, this list only records their order */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
@@ -2668,6 +2669,12 @@ bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
   }else
     return false;
 }
+/*
+ * a list derived from a map shares its keys/values, unless they're not managed
+ */
+static enum cee_del_policy _cee_map_shared (enum cee_del_policy o) {
+  return o == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+}
 
 static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which, const int depth) {
   struct cee_tuple * p;
@@ -2685,7 +2692,7 @@ static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which,
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, _cee_map_shared(b->del_policies._.key), n);
   musl_twalk(keys, b->_[0], _cee_map_get_key);
   return keys;
 }
@@ -2693,7 +2700,7 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, _cee_map_shared(b->del_policies._.key), n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -2718,7 +2725,7 @@ static void _cee_map_get_value (void * ctx, const void *nodep, const VISIT which
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(b->cs.state, _cee_map_shared(b->del_policies._.val), s);
   musl_twalk(values, b->_[0], _cee_map_get_value);
   return values;
 }
-- 
2.43.0


From b453453a0d393bceb815cd37df91871c2974c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 08/61] fix: a live map keeps its list of insertion ordered
 keys alive

---
 map.c         | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/map.c b/map.c
index afc93eb..007c2bd 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
diff --git a/release/cee.c b/release/cee.c
index 26a36d9..7ff74c1 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2528,6 +2528,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
-- 
2.43.0


From f905b1f9689a4c972492e04c9b9f54959d8cd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 09/61] fix: a map retains exactly the value it stores under an
 existing key

---
 map.c         | 10 +++++++---
 release/cee.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/map.c b/map.c
index 007c2bd..ac10cd6 100644
--- a/map.c
+++ b/map.c
@@ -122,7 +122,9 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct S(header) *b = FIND_HEADER(m);
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  /* value is retained once it's known to be stored */
+  enum cee_del_policy o[2] = { b->del_policies._.key, CEE_DP_NOOP };
+  t = cee_tuple_mk_e(b->cs.state, o, key, value);
   oldp = musl_tsearch(b, t, b->_, S(cmp));
 
   if (oldp == NULL)
@@ -137,12 +139,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
       t1->_[1] = new_value; 
+      cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
-    cee_del(t);    
+    cee_del(t); /* does nothing for t[1] */
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
diff --git a/release/cee.c b/release/cee.c
index 7ff74c1..d743e48 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2582,7 +2582,9 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  /* value is retained once it's known to be stored */
+  enum cee_del_policy o[2] = { b->del_policies._.key, CEE_DP_NOOP };
+  t = cee_tuple_mk_e(b->cs.state, o, key, value);
   oldp = musl_tsearch(b, t, b->_, _cee_map_cmp);
 
   if (oldp == NULL)
@@ -2597,12 +2599,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
       t1->_[1] = new_value;
+      cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
-    cee_del(t);
+    cee_del(t); /* does nothing for t[1] */
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
-- 
2.43.0


From 445d4f84bab3a94a7aa659292241776e66bf99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 10/61] fix: find/remove/size/empty treat a NULL map or set as
 documented

---
 map.c         | 4 ++--
 release/cee.c | 8 ++++++--
 set.c         | 4 ++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index ac10cd6..ab5a8a9 100644
--- a/map.c
+++ b/map.c
@@ -158,7 +158,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) * b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
@@ -184,7 +184,7 @@ static void cee_map_ordered_key_delete(struct S(header) *b, void *deleted_key){
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
diff --git a/release/cee.c b/release/cee.c
index d743e48..d6ddc49 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2618,7 +2618,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2644,7 +2644,7 @@ static void cee_map_ordered_key_delete(struct _cee_map_header *b, void *deleted_
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2957,11 +2957,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
@@ -3008,6 +3010,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3040,6 +3043,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index 88ca5ff..fa44b3a 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
@@ -147,6 +149,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -179,6 +182,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From 82e017c96961d257f8743cd5f66f7c2b089a42e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 11/61] fix: deleting a set hands its delete policy to the
 element callback

---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index d6ddc49..58ad248 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2912,7 +2912,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index fa44b3a..9397c7f 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From 8ff38bb7e3cc1988613655ad9abb21198f8ac66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 12/61] fix: cee_set_remove gives up the reference cee_set_add
 took

---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 58ad248..c8dd0d4 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3052,6 +3052,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index 9397c7f..f0d0521 100644
--- a/set.c
+++ b/set.c
@@ -191,6 +191,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From ac075b5bcee155b829b41dd7af4c111efd730872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 13/61] fix: lists and unions of unmanaged set elements do not
 manage them

---
 release/cee.c | 7 +++++--
 set.c         | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index c8dd0d4..52b104d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3036,7 +3036,9 @@ static void _cee_set_get_value (void * cxt, const void *nodep, const VISIT which
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  /* the list shares the elements, unless they're not managed */
+  struct cee_list *values = cee_list_mk_e(h->cs.state,
+                              h->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], _cee_set_get_value);
   return values;
@@ -3061,7 +3063,8 @@ struct cee_set * cee_set_union_set (struct cee_state * s, struct cee_set * s1, s
   struct _cee_set_header * h1 = (struct _cee_set_header *)((void *)((char *)(s1) - (__builtin_offsetof(struct _cee_set_header, _))));
   struct _cee_set_header * h2 = (struct _cee_set_header *)((void *)((char *)(s2) - (__builtin_offsetof(struct _cee_set_header, _))));
   if (h1->cmp == h2->cmp) {
-    struct cee_set * s0 = cee_set_mk(s, h1->cmp);
+    struct cee_set * s0 = cee_set_mk_e(s,
+                            h1->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC, h1->cmp);
     struct cee_list * v1 = cee_set_values(s1);
     struct cee_list * v2 = cee_set_values(s2);
     int i;
diff --git a/set.c b/set.c
index f0d0521..98435e9 100644
--- a/set.c
+++ b/set.c
@@ -175,7 +175,9 @@ static void S(get_value) (void * cxt, const void *nodep, const VISIT which, cons
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct S(header) * h = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  /* the list shares the elements, unless they're not managed */
+  struct cee_list *values = cee_list_mk_e(h->cs.state, 
+                              h->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], S(get_value));
   return values;
@@ -200,7 +202,8 @@ struct cee_set * cee_set_union_set (struct cee_state * s, struct cee_set * s1, s
   struct S(header) * h1 = FIND_HEADER(s1);
   struct S(header) * h2 = FIND_HEADER(s2);
   if (h1->cmp == h2->cmp) {
-    struct cee_set * s0 = cee_set_mk(s, h1->cmp);
+    struct cee_set * s0 = cee_set_mk_e(s, 
+                            h1->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC, h1->cmp);
     struct cee_list * v1 = cee_set_values(s1);
     struct cee_list * v2 = cee_set_values(s2);
     int i;
-- 
2.43.0


From 562685c112304833ee50929671a1b88e2b7de221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 14/61] fix: a live closure and its environment survive a
 collection

---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index 52b104d..ab2a32e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4121,6 +4121,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From a565d12511aa9dfa046251bd3a5052f834520ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 15/61] fix: an environment retains its outer environment and
 variables

---
 env.c         | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..8920067 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(h->env_dp, outer);
+  if (vars)
+    cee_incr_indegree(h->vars_dp, vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index ab2a32e..3a29cc5 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4541,6 +4541,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(h->env_dp, outer);
+  if (vars)
+    cee_incr_indegree(h->vars_dp, vars);
 
   return &h->_;
 }
-- 
2.43.0


From c326d00510833ce0a12373123e923bcd4bc5746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 16/61] fix: cee_env_find looks past an environment without
 variables

---
 env.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/env.c b/env.c
index 8920067..a9aa89b 100644
--- a/env.c
+++ b/env.c
@@ -73,8 +73,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) ) 
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
   }
diff --git a/release/cee.c b/release/cee.c
index 3a29cc5..07c1082 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4556,8 +4556,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) )
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
   }
-- 
2.43.0


From e914fde95e19a4e415c143c782781d4ac017a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 17/61] fix: a dict applies its delete policy to its elements

---
 dict.c        | 8 ++++----
 release/cee.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dict.c b/dict.c
index fee19b8..2cd14a9 100644
--- a/dict.c
+++ b/dict.c
@@ -35,8 +35,8 @@ static void S(trace)(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       S(de_chain)(m);
       free(m);
@@ -54,10 +54,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
   
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
   
   m->size = size;
diff --git a/release/cee.c b/release/cee.c
index 07c1082..992c338 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2334,8 +2334,8 @@ static void _cee_dict_trace(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       _cee_dict_de_chain(m);
       free(m);
@@ -2353,10 +2353,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct _cee_dict_header);
   struct _cee_dict_header * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
 
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
 
   m->size = size;
-- 
2.43.0


From e639618d6c7cd4d87ac286a4a56506675052fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 18/61] fix: a dict that cannot be created leaves the trace
 chain

---
 dict.c        | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dict.c b/dict.c
index 2cd14a9..74a1897 100644
--- a/dict.c
+++ b/dict.c
@@ -76,6 +76,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    S(de_chain)(m);
     free(m);
     return NULL;
   }
diff --git a/release/cee.c b/release/cee.c
index 992c338..9562404 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2375,6 +2375,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    _cee_dict_de_chain(m);
     free(m);
     return NULL;
   }
-- 
2.43.0


From 33de8176041cccd5d29633f039c5131493a27f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 19/61] fix: adding an element a set already has does not count
 it again

---
 release/cee.c | 3 +++
 set.c         | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 9562404..495f731 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2975,6 +2975,9 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
+  /* an element of the set, including val itself, is not added again */
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
+    return;
   void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
 
   if (oldp == NULL)
diff --git a/set.c b/set.c
index 98435e9..3061e2c 100644
--- a/set.c
+++ b/set.c
@@ -113,6 +113,10 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
+  /* an element of the set, including val itself, is not added again */
+  if (musl_tfind(h, val, h->_, S(cmp)))
+    return;
+
   void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
   
   if (oldp == NULL)
-- 
2.43.0


From 5032e93f3d3bf256611fd37279033f5d77db6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 20/61] fix: cee_list_insert ignores an index outside the list

---
 list.c        | 2 ++
 release/cee.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/list.c b/list.c
index 4be0a17..b26125e 100644
--- a/list.c
+++ b/list.c
@@ -86,6 +86,8 @@ void cee_list_append (struct cee_list *v, void *e) {
 
 void cee_list_insert(struct cee_list *v, int index, void *e) {
   struct S(header) * m = FIND_HEADER(v);
+  if (index > m->size) return; /* a negative index is too large as well */
+
   size_t capacity = m->capacity;
   size_t extra_cap = capacity ? capacity : 1;
   if (m->size == m->capacity) {
diff --git a/release/cee.c b/release/cee.c
index 495f731..b3e223e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3826,6 +3826,7 @@ void cee_list_append (struct cee_list *v, void *e) {
 
 void cee_list_insert(struct cee_list *v, int index, void *e) {
   struct _cee_list_header * m = (struct _cee_list_header *)((void *)((char *)(v) - (__builtin_offsetof(struct _cee_list_header, _))));
+  if (index > m->size) return; /* a negative index is too large as well */
   size_t capacity = m->capacity;
   size_t extra_cap = capacity ? capacity : 1;
   if (m->size == m->capacity) {
-- 
2.43.0


From f497c6a9b71f08e0be3ba47df7fa824509cbc376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 21/61] fix: cee_n_tuple_mk ends its argument list

---
 n_tuple.c     | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/n_tuple.c b/n_tuple.c
index 05cda2c..5c8b79b 100644
--- a/n_tuple.c
+++ b/n_tuple.c
@@ -78,6 +78,7 @@ struct cee_n_tuple * cee_n_tuple_mk (struct cee_state * st, size_t ntuple, ...)
     o[i] = CEE_DP_DEL_RC;
   
   struct S(header) * h = cee_n_tuple_v(st, ntuple, o, ap);
+  va_end(ap);
   free(o);
   return (struct cee_n_tuple *)(h->_);
 }
diff --git a/release/cee.c b/release/cee.c
index b3e223e..07e9a49 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4430,6 +4430,7 @@ struct cee_n_tuple * cee_n_tuple_mk (struct cee_state * st, size_t ntuple, ...)
     o[i] = CEE_DP_DEL_RC;
 
   struct _cee_n_tuple_header * h = cee_n_tuple_v(st, ntuple, o, ap);
+  va_end(ap);
   free(o);
   return (struct cee_n_tuple *)(h->_);
 }
-- 
2.43.0


From 0cc20ebbe85ec200cda396df02e394e8bf344dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 22/61] fix: the JSON tokenizer stays inside the buffer it is
 given

---
 cee-json/release/cee-json.c | 54 ++++++++++++++++++++--------------
 cee-json/tokenizer.c        | 58 +++++++++++++++++++++++--------------
 2 files changed, 68 insertions(+), 44 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..b8ea24f 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1923,11 +1923,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
 
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -2105,12 +2105,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -2128,6 +2128,9 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   }
   return false; /*  ill formed string */
 }
+static bool is_digit_at(struct tokenizer *t, char *p) {
+  return p < t->buf_end && isdigit((unsigned char)*p);
+}
 
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
@@ -2141,31 +2144,31 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end))
+  if (!is_digit_at(t, end))
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end))
+  while (is_digit_at(t, ++end))
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (end < t->buf_end && '.' == *end) {
+    if (!is_digit_at(t, ++end))
       return false;
-    while (isdigit(*++end))
+    while (is_digit_at(t, ++end))
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (end < t->buf_end && ('e' == *end || 'E' == *end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (end < t->buf_end && ('+' == *end || '-' == *end))
       ++end;
-    if (!isdigit(*end))
+    if (!is_digit_at(t, end))
       return false;
-    while (isdigit(*++end))
+    while (is_digit_at(t, ++end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -2173,20 +2176,27 @@ static bool parse_number(struct tokenizer *t) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
+  /* 5th STEP: convert string to number; the buffer may end right behind the
+   * number, so convert a terminated copy */
+  size_t len = end - start;
+  char *text = malloc(len + 1);
+  memcpy(text, start, len);
+  text[len] = '\0';
   char *endptr=NULL;
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(text, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(text, &endptr, 10);
   }
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  bool converted = text != endptr;
+  free(text);
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -2216,17 +2226,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -2245,7 +2255,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..ccb721b 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,6 +1,8 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
 #include <ctype.h>
+#include <string.h>
+#include <errno.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -179,11 +181,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
   
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -361,12 +363,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -385,6 +387,10 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+static bool is_digit_at(struct tokenizer *t, char *p) {
+  return p < t->buf_end && isdigit((unsigned char)*p);
+}
+
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
   char *end = start;
@@ -397,31 +403,31 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end)) 
+  if (!is_digit_at(t, end))
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end)) 
+  while (is_digit_at(t, ++end))
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (end < t->buf_end && '.' == *end) {
+    if (!is_digit_at(t, ++end))
       return false;
-    while (isdigit(*++end)) 
+    while (is_digit_at(t, ++end))
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (end < t->buf_end && ('e' == *end || 'E' == *end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (end < t->buf_end && ('+' == *end || '-' == *end))
       ++end;
-    if (!isdigit(*end)) 
+    if (!is_digit_at(t, end))
       return false;
-    while (isdigit(*++end))
+    while (is_digit_at(t, ++end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -429,20 +435,28 @@ static bool parse_number(struct tokenizer *t) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
+  /* 5th STEP: convert string to number; the buffer may end right behind the
+   * number, so convert a terminated copy */
+  size_t len = end - start;
+  char *text = malloc(len + 1);
+  memcpy(text, start, len);
+  text[len] = '\0';
+
   char *endptr=NULL;
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(text, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(text, &endptr, 10);
   }
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  bool converted = text != endptr;
+  free(text);
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -472,17 +486,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -501,7 +515,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
-- 
2.43.0


From eb816e6f71a342677dc6426726aa7a8a29a7b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 23/61] fix: a JSON number with a fraction or exponent has no
 leading zeros either

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/tokenizer.c        | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b8ea24f..8808a1d 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2150,6 +2150,9 @@ static bool parse_number(struct tokenizer *t) {
   /* 2nd STEP: skips until a non digit char found */
   while (is_digit_at(t, ++end))
     continue;
+  /* can't be a number that starts with zero followed n digits (ex: 012, -023) */
+  if (end - (start+offset_sign) > 1 && '0' == start[offset_sign])
+    return false;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (end < t->buf_end && '.' == *end) {
@@ -2171,9 +2174,6 @@ static bool parse_number(struct tokenizer *t) {
     while (is_digit_at(t, ++end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number; the buffer may end right behind the
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index ccb721b..7936c0d 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -410,6 +410,10 @@ static bool parse_number(struct tokenizer *t) {
   while (is_digit_at(t, ++end))
     continue;
 
+  /* can't be a number that starts with zero followed n digits (ex: 012, -023) */
+  if (end - (start+offset_sign) > 1 && '0' == start[offset_sign])
+    return false;
+
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (end < t->buf_end && '.' == *end) {
     if (!is_digit_at(t, ++end))
@@ -430,9 +434,6 @@ static bool parse_number(struct tokenizer *t) {
     while (is_digit_at(t, ++end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number; the buffer may end right behind the
-- 
2.43.0


From 8e75c5c3e3d0bdf6c7879c9a98fcd017fccadc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 24/61] fix: a JSON integer beyond int64_t is not replaced by
 the largest int64_t

---
 cee-json/release/cee-json.c | 10 ++++++++++
 cee-json/tokenizer.c        | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 8808a1d..8b0f9a9 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2188,8 +2188,18 @@ static bool parse_number(struct tokenizer *t) {
     t->number.real = strtod(text, &endptr);
   }
   else {
+    errno = 0;
     t->type = NUMBER_IS_I64;
     t->number.i64 = strtoll(text, &endptr, 10);
+    if (ERANGE == errno && !offset_sign) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(text, &endptr, 10);
+    }
+    if (ERANGE == errno) { /* fits neither */
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(text, &endptr);
+    }
   }
 
   t->buf = end; /* skips entire length of number */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 7936c0d..c45a00f 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -449,8 +449,18 @@ static bool parse_number(struct tokenizer *t) {
     t->number.real = strtod(text, &endptr);
   }
   else {
+    errno = 0;
     t->type = NUMBER_IS_I64;
     t->number.i64 = strtoll(text, &endptr, 10);
+    if (ERANGE == errno && !offset_sign) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(text, &endptr, 10);
+    }
+    if (ERANGE == errno) { /* fits neither */
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(text, &endptr);
+    }
   }
 
   t->buf = end; /* skips entire length of number */
-- 
2.43.0


From b019977b71b20aceb734a1f637131f7893982917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 25/61] fix: a JSON string that ends after a high surrogate is
 ill formed

---
 cee-json/release/cee-json.c | 2 ++
 cee-json/tokenizer.c        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 8b0f9a9..5408dc6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2070,6 +2070,8 @@ second_iter:
       d++;
     }
   }
+  if (second_surrogate_expected)
+    goto return_err;
 
   switch (state) {
   case UNESCAPING:
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index c45a00f..6f674e8 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -329,6 +329,9 @@ second_iter:
     }
   }
 
+  if (second_surrogate_expected)
+    goto return_err;
+
   switch (state) {
   case UNESCAPING:
       if (!utf8_validate(out_start, d))
-- 
2.43.0


From 9d98de13e91eb57d85be2331398e076951709004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 26/61] fix: pretty printing indents more than 127 levels

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/snprint.c          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 5408dc6..58db3aa 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1374,7 +1374,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..eb85334 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
-- 
2.43.0


From 871aa353373e7a720b08332e3e79496767aeedcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 27/61] fix: a JSON value as deep as the parser accepts is
 printed in full

---
 cee-json/release/cee-json.c | 3 ++-
 cee-json/snprint.c          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 58db3aa..a2fea46 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1549,7 +1549,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /* room for every value the parser accepts (up to 512 levels) */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 512 + 2);
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index eb85334..5cca5b3 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -187,7 +187,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /* room for every value the parser accepts (up to 512 levels) */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 512 + 2);
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-- 
2.43.0


From 864da2c8ed031b1ceb39ee603c21443398003ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 28/61] fix: cee_json_asprint has room for the terminator

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/snprint.c          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index a2fea46..a51f0cd 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1719,7 +1719,7 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1); /* including the null terminator */
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
   return cee_json_snprint(st, buf, buf_size, j, f);
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 5cca5b3..04fe9d0 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -357,7 +357,7 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1); /* including the null terminator */
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
   return cee_json_snprint(st, buf, buf_size, j, f);
-- 
2.43.0


From 40ec7abb4ef4c6178d08f70be92b51d69f746af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 29/61] fix: cee_json_listify of an object

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index a51f0cd..4d8a2b6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -277,7 +277,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..9bda68e 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -53,7 +53,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
-- 
2.43.0


From 322a11b8ffb3ad4068209b7a13f99544805318d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 30/61] fix: cee_json_object_append turns a value of any type
 into an array

---
 cee-json/release/cee-json.c | 4 +++-
 cee-json/value.c            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 4d8a2b6..2ad4cd4 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -648,7 +648,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* the value may be of any type: take the state of the object */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index 9bda68e..1bb5dc2 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -424,7 +424,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* the value may be of any type: take the state of the object */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From ef47cf277d6548d81d7ef91c3dd5bfe0d754a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 31/61] fix: cee_json_object_convert_to_i64 converts the value
 of the key

---
 cee-json/release/cee-json.c | 5 +++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 2ad4cd4..4d5d890 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -574,13 +574,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return false;
 
   struct cee_json *old_val = cee_json_object_get(j, key);
+  if (NULL == old_val)
+    return false;
   int64_t i64 = 0;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index 1bb5dc2..bfd891a 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -350,13 +350,15 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return false;
   
   struct cee_json *old_val = cee_json_object_get(j, key);
+  if (NULL == old_val)
+    return false;
+
   int64_t i64 = 0;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
-- 
2.43.0


From f89f06aab63ee37e1a9033ef533fe1e723782167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 32/61] fix: cee_json_select takes a field name from its
 arguments and :n fits every number

---
 cee-json/release/cee-json.c | 5 +++--
 cee-json/value.c            | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 4d5d890..6489ff0 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1006,7 +1006,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && o->t != CEE_JSON_I64 && o->t != CEE_JSON_U64
+            && o->t != CEE_JSON_DOUBLE) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
@@ -1045,7 +1046,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index bfd891a..3decc0b 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -783,7 +783,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && o->t != CEE_JSON_I64 && o->t != CEE_JSON_U64
+            && o->t != CEE_JSON_DOUBLE) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
@@ -822,7 +823,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From 796f25ea5eb66d080c8cad6f496615e5fa87c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 33/61] fix: cee_json_escape_string steps over all six
 characters of an escaped control character

---
 cee-json/release/cee-json.c | 7 ++++---
 cee-json/value.c            | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6489ff0..055e2ad 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1096,9 +1096,10 @@ size_t cee_json_escape_string(const char *s, size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't', j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        static char const tohex[]="0123456789abcdef";
+        dest[j] = '\\', dest[j+1] = 'u', dest[j+2] = '0', dest[j+3] = '0';
+        dest[j+4] = tohex[c >> 4], dest[j+5] = tohex[c & 0xF];
+        j += 6;
       }else{
         dest[j] = c, j++;
       }
diff --git a/cee-json/value.c b/cee-json/value.c
index 3decc0b..73d7a6e 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -873,9 +873,10 @@ size_t cee_json_escape_string(const char *s,  size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't',  j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        static char const tohex[]="0123456789abcdef";
+        dest[j] = '\\', dest[j+1] = 'u', dest[j+2] = '0', dest[j+3] = '0';
+        dest[j+4] = tohex[c >> 4], dest[j+5] = tohex[c & 0xF];
+        j += 6;
       }else{
         dest[j] = c, j++;
       }
-- 
2.43.0


From 47e71f34918be9a248a73e5b6484ffd396d69498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 34/61] fix: a list or JSON array can be merged with itself
 (unused helper)

fix: a list or JSON array can be merged with itself
---
 cee-json/release/cee-json.c |  5 +++--
 cee-json/value.c            |  5 +++--
 list.c                      | 11 ++++-------
 release/cee.c               | 11 ++++-------
 4 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 055e2ad..12eacf6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -846,8 +846,9 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  /* src may be dest */
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index 73d7a6e..cfa151f 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -623,8 +623,9 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  /* src may be dest */
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/list.c b/list.c
index b26125e..0642990 100644
--- a/list.c
+++ b/list.c
@@ -145,13 +145,10 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int S(_add_v)(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, S(_add_v));
+  /* src may be dest */
+  int i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
diff --git a/release/cee.c b/release/cee.c
index 07e9a49..17df547 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3884,15 +3884,12 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int _cee_list__add_v(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, _cee_list__add_v);
+  /* src may be dest */
+  int i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
 
 struct _cee_tagged_header {
-- 
2.43.0


From 92e7ead9f26cb4e046a7b5894290a3514ca1da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 35/61] fix: cee_json_load_from_fileno checks what it reads and
 honours force_eof

---
 cee-json/release/cee-json.c | 21 ++++++++++++++++-----
 cee-json/value.c            | 21 ++++++++++++++++-----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 12eacf6..3ddbc54 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -859,14 +859,25 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof,
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  if( fstat(fd, &buf) ){
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  off_t size = buf.st_size, got = 0;
+  char * b = malloc(size + 1);
+  while( got < size ){
+    ssize_t n = read(fd, b + got, size - got);
+    if( n <= 0 ){
+      fprintf(stderr, "failed to read the file\n");
+      free(b);
+      return NULL;
+    }
+    got += n;
+  }
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
diff --git a/cee-json/value.c b/cee-json/value.c
index cfa151f..5f93dec 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -636,14 +636,25 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  if( fstat(fd, &buf) ){
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  off_t size = buf.st_size, got = 0;
+  char * b = malloc(size + 1);
+  while( got < size ){
+    ssize_t n = read(fd, b + got, size - got);
+    if( n <= 0 ){
+      fprintf(stderr, "failed to read the file\n");
+      free(b);
+      return NULL;
+    }
+    got += n;
+  }
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
-- 
2.43.0


From d0e8026cfb6ecf7f614a5aefafa559dab7738df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 36/61] fix: cee_json_merge_all closes its files and reports a
 failed save

---
 cee-json/cee_json_merge.c   | 13 +++++++++++--
 cee-json/release/cee-json.c | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..5672e0b 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -19,6 +19,8 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   j0 = cee_json_load_from_FILE(state, f0, true, &line);
   if( j0 == NULL ){
     fprintf(stderr, "error at %s:%d\n", json_files[0], line);
+    fclose(f0);
+    cee_del(state);
     return 1;
   }
 
@@ -27,12 +29,17 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
+      fclose(f0);
+      cee_del(state);
       return 1;
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
+      fclose(fn);
+      fclose(f0);
+      cee_del(state);
       return 1;
     }
     cee_json_merge(j0, jn);
@@ -42,6 +49,8 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
+    fclose(f0);
+    cee_del(state);
     return 1;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
@@ -51,9 +60,9 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  int failed = !cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return failed;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 3ddbc54..2365eaa 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2320,6 +2320,8 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   j0 = cee_json_load_from_FILE(state, f0, true, &line);
   if( j0 == NULL ){
     fprintf(stderr, "error at %s:%d\n", json_files[0], line);
+    fclose(f0);
+    cee_del(state);
     return 1;
   }
 
@@ -2328,12 +2330,17 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
+      fclose(f0);
+      cee_del(state);
       return 1;
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
+      fclose(fn);
+      fclose(f0);
+      cee_del(state);
       return 1;
     }
     cee_json_merge(j0, jn);
@@ -2343,6 +2350,8 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
+    fclose(f0);
+    cee_del(state);
     return 1;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
@@ -2352,11 +2361,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  int failed = !cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return failed;
 }
 
 #endif
-- 
2.43.0


From 00a4744c06f296ed25e0c6b7072799eafa10ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 37/61] fix: cee_json_select read past the end of a selector
 that ends in an empty name

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 2365eaa..70cf38a 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1030,7 +1030,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
-      if (*p != '*') {
+      if (*p == '\0') {
+        /* the last selector is empty, as in "." or in ".*" with "" */
+        goto notfound;
+      } else if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
         if (tlen > JSEL_MAX_TOKEN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index 5f93dec..85d4b6b 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -807,7 +807,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
-      if (*p != '*') {
+      if (*p == '\0') {
+        /* the last selector is empty, as in "." or in ".*" with "" */
+        goto notfound;
+      } else if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
         if (tlen > JSEL_MAX_TOKEN) goto notfound;
-- 
2.43.0


From 451a6913ea30f8591d562776fe2effbd9ca8de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 38/61] fix: cee_json_load_from_buffer released nothing when
 the text is wrong

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 70cf38a..c9448ee 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -919,6 +919,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
diff --git a/cee-json/value.c b/cee-json/value.c
index 85d4b6b..05520a7 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -696,6 +696,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
-- 
2.43.0


From b1ef81e1122e93afc01bd9eb3332eedae93b4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 39/61] fix: a failing SQL statement was not finalized, and a
 step that fails ended no selection

---
 sqlite3/cee-sqlite3.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..6be0e0e 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,8 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          if( !sql_stmt_pp )
+            sqlite3_finalize(sql_stmt);
           return SQLITE_ERROR;
         }
       }
@@ -419,21 +421,18 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
-  if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
-    if( status ){
-      accept_result(state, status, &result);
-      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-    }
-    return rc;
-  }
-  while( rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
     if( f(cls, state, info, stmt) ){
       sqlite3_finalize(stmt);
       return SQLITE_DONE;
     }
     rc = sqlite3_step(stmt);
   }
+  if( rc != SQLITE_DONE && status ){
+    accept_result(state, status, &result);
+    cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+  }
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From 5dc69eef60e0c3918f3ff01ea9ff8bc772295629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 40/61] fix: cee_sqlite3_delete crashed without status and
 counted rows for a statement that failed

---
 sqlite3/cee-sqlite3.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 6be0e0e..2f834e0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -319,10 +319,12 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
 		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
-    cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
-  else
-    cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
+  else if( result ){
+    if( key )
+      cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
+    else
+      cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
+  }
   return rc;
 }
 
-- 
2.43.0


From 0888d8eb6b9947142d1619f4d1d18f82f86090e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 41/61] fix: cee_sqlite3_update_or_insert inserted when the
 search for the row failed

---
 sqlite3/cee-sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 2f834e0..9cd5ec0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -259,6 +259,8 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
     rc = cee_sqlite3_bind_run_sql(cs, info, data, update, NULL, status);
     if( rc != SQLITE_DONE )
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, update, sqlite3_errmsg(db));
+  }else if( rc != SQLITE_DONE ){
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   }else{
     char *insert = stmts->insert_dynamic ? stmts->insert_stmt_x : stmts->insert_stmt;
     rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
-- 
2.43.0


From 58287802b3c3d085d8c234e6655caa265aefb306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 42/61] fix: cee_sqlite3_update_if_exists reports the rows this
 update changed, and a failing search

---
 sqlite3/cee-sqlite3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 9cd5ec0..5bbe6c1 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -373,8 +373,10 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
                          cs->db_name, rc, update, sqlite3_errmsg(db));
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
-                              sqlite3_total_changes(db));
-  }
+                              sqlite3_changes(db));
+  }else if( rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   return rc;
 }
 
-- 
2.43.0


From dc219b669849fadabe8a5797807337839f98ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 43/61] fix: row ids beyond 32 bits were reported wrong

---
 sqlite3/cee-sqlite3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 5bbe6c1..6a004bd 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -268,7 +268,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -292,7 +292,7 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -595,7 +595,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From 3591a9ba88aa2dc3cfcb91593312266dd913fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 44/61] fix: cee_sqlite3_insert gave no id to a caller without
 status

---
 sqlite3/cee-sqlite3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 6a004bd..8decc32 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -291,11 +291,11 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
-  else if( result ){
+  else{
     sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
-    if( key )
+    if( result && key )
       cee_json_object_set_i64(result, key, row_id);
-    else
+    else if( result )
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     if( id )
       *id = row_id;
-- 
2.43.0


From 4083540fcdf9282c147a1f7901e94238f5ed8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 45/61] fix: cee_sqlite3_insert_op crashed without status

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 8decc32..42fd529 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -894,7 +894,8 @@ int cee_sqlite3_insert_op(struct cee_sqlite3 *cs,
                                       op->stmts,
                                       status,
                                       cee_sqlite3_insert_wrapper);
-  cee_json_object_rename(*status, "last_insert_rowid", "id");
+  if( status )
+    cee_json_object_rename(*status, "last_insert_rowid", "id");
   return rc;
 }
 
-- 
2.43.0


From 8349fbbc5b198069ef78d2e10e5ad5352a934615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 46/61] fix: cee_json_to_bind_info gave every slot to the first
 key

---
 sqlite3/cee-sqlite3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 42fd529..da6f2a8 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1053,6 +1053,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break;
   }
   return 0;
 }
-- 
2.43.0


From d5a92046a6162addae50d8b69b40a2fa39a8384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 47/61] fix: cee_json_to_bind_info cut numbers to 32 bits

---
 sqlite3/cee-sqlite3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index da6f2a8..da069ad 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1036,9 +1036,9 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     if( info[i].var_name ) continue;
     switch( val->t ){
     case CEE_JSON_I64:
-      if ( cee_json_to_intx(val, &info[i].data.i))
+      if ( cee_json_to_i64x(val, &info[i].data.i64))
         cee_segfault();
-      info[i].type = CEE_SQLITE3_INT;
+      info[i].type = CEE_SQLITE3_INT64;
       break;
     case CEE_JSON_STRING:
       info[i].data.value = cee_json_to_str(val)->_;
-- 
2.43.0


From 9a76c17076d8d9106691726a9fda22022cad84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 48/61] fix: cee_sqlite3_insert_json_array wrote behind its 50
 parameters

---
 sqlite3/cee-sqlite3.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index da069ad..c1a7c16 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1109,7 +1109,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info;
   int idx;
 };
 
@@ -1166,6 +1166,9 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   struct insert_columns_values one_ctx = {0};
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
+  /* one for each member and the end */
+  one_ctx.info = (void *)cee_block_mk(state, (cee_map_size(cee_json_to_object(one)) + 1)
+                                      * sizeof(struct cee_sqlite3_bind_info));
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
   size = snprintf(NULL, 0, "insert into %s (%s) values (%s);",
                   p->table_name,
-- 
2.43.0


From 9102df187dd22fc145d411dddd5a3889d05927f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 49/61] fix: cee_sqlite3_init_db crashed on a file that cannot
 be opened and kept its handle

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index c1a7c16..f753d8a 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -12,7 +12,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From 0e560e05c6340a6e53c627f61d0c4ba0833c6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 50/61] fix: binding a blob from JSON crashed for a caller who
 wants no errors

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index f753d8a..9ae68d4 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -684,7 +684,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
                                    info[i].col_name);
         return 1;
       }
-- 
2.43.0


From 8d2d35d0624c678553d7739a7cec7b1145937be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 51/61] fix: cee_sqlite3_next_int ran a query cut after 127
 characters

---
 sqlite3/cee-sqlite3.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 9ae68d4..078b51b 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1083,12 +1083,12 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  struct cee_str *qx = cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                                  int_column_name, from_clause);
 
   struct cee_json *input = NULL, *max_value = NULL;
-  cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
+  cee_sqlite3_select1(cs, NULL, NULL, qx->_, &input);
+  cee_del(qx);
   if( cee_json_select(input, ".error") ){
     *status = input;
     return -1;
-- 
2.43.0


From fbd3f1684f45804a8c9ade950f3774fee0427366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 52/61] fix: cee_sqlite3_select_as gave the rows without their
 key to a caller without an object

---
 sqlite3/cee-sqlite3.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 078b51b..dd75766 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1015,10 +1015,8 @@ cee_sqlite3_select_as(struct cee_sqlite3 *cs,
   }
 
   if( status ){
-    if( *status )
-      cee_json_object_append(*status, key, array);
-    else
-      *status = array;
+    accept_result(cs->state, status, &result);
+    cee_json_object_append(*status, key, array);
   }
   return ret;
 }
-- 
2.43.0


From 4e08d5baf57bc4ce70afe5673a42619f9bfa64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 53/61] fix: joining on a 64-bit key bound the number of an
 earlier row

---
 sqlite3/join.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..767409a 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -32,7 +32,7 @@ static int join_one (void *ctx, void *elem, int idx) {
     }
     switch( value->t ){
       case CEE_JSON_I64:
-        if( cee_json_to_intx(value, &item->i) ){
+        if( cee_json_to_intx(value, &item->i) || cee_json_to_i64x(value, &item->i64) ){
           cee_json_object_set_strf(
             one, "error", "failed to convert json key %s's value to int",
             info[i].col_name);
-- 
2.43.0


From 99909a6135f9433c78ad04420a5c4f3d9f595204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 54/61] fix: a value given after a null for the same parameter
 was bound as null

---
 sqlite3/cee-sqlite3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index dd75766..494b0e4 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -651,6 +651,7 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
+          data[i].is_null = 0;
         }else{
           if( p->errors )
             cee_json_array_append_strf(p->errors, "'%s' should be int",
@@ -663,6 +664,7 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
+          data[i].is_null = 0;
         }else{
           if( p->errors )
             cee_json_array_append_strf(p->errors, "'%s' should be int64",
@@ -675,6 +677,7 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
+          data[i].is_null = 0;
         }else{
           if( p->errors )
             cee_json_array_append_strf(p->errors, "'%s' should be text",
-- 
2.43.0


From 21bd25e71790cdea587b43d9d88f0ec8ecbcc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 55/61] fix: cee_sqlite3_select1_as crashed when no row is
 found

---
 sqlite3/cee-sqlite3.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 494b0e4..583dbe4 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -991,9 +991,8 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
     struct cee_json *old = cee_json_object_get(*status, key);
     if( old )
       cee_json_merge(old, one);
-    else
-      old = one;
-    cee_json_object_set(*status, key, old);
+    else if( one )
+      cee_json_object_set(*status, key, one);
   }
   return ret;
 }
-- 
2.43.0


From 6a646e29c582d3d36c956da7d37368b53ea74da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 56/61] fix: cee_sqlite3_select1_as dropped the caller's status
 when the query fails

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 583dbe4..7039521 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -982,7 +982,8 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   int ret = cee_sqlite3_select1(cs, info, data, sql, &one);
 
   if( cee_json_select(one, ".error") && status ){
-    *status = one;
+    accept_result(cs->state, status, &result);
+    cee_json_object_append(*status, "error", cee_json_select(one, ".error"));
     return ret;
   }
 
-- 
2.43.0


From 21e28e4adb507ce1c77e3dcc18447e1628b6cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 57/61] fix: cee_sqlite3_get_pragma_variable read a column
 without a row

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 7039521..30581ce 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -882,7 +882,7 @@ int cee_sqlite3_get_pragma_variable(sqlite3 *db, char *name) {
   snprintf(buf, sizeof buf, "PRAGMA %s;", name);
   int rc = sqlite3_prepare_v2(db, buf, -1, &sql_stmt, 0);
   rc = sqlite3_step(sql_stmt);
-  int value = sqlite3_column_int(sql_stmt, 0);
+  int value = rc == SQLITE_ROW ? sqlite3_column_int(sql_stmt, 0) : 0;
   sqlite3_finalize(sql_stmt);
   return value;
 }
-- 
2.43.0


From 1a7889a1b81d11a61149aaddbec706f668cd7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 58/61] fix: sv_chop_by_sv: cut off the last delimiter, never
 chop more than the view has

---
 strview.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strview.c b/strview.c
index 48c477b..497df8b 100644
--- a/strview.c
+++ b/strview.c
@@ -203,21 +203,20 @@ SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 {
     String_View window = sv_from_parts(sv->data, thicc_delim.count);
     size_t i = 0;
-    while (i + thicc_delim.count < sv->count 
+    while (i + thicc_delim.count <= sv->count 
         && !(sv_eq(window, thicc_delim))) 
     {
         i++;
         window.data++;
     }
 
+    if (i + thicc_delim.count > sv->count) {
+        // no delimiter: the rest is the last chunk
+        return sv_chop_left(sv, sv->count);
+    }
+
     String_View result = sv_from_parts(sv->data, i);
 
-    if (i + thicc_delim.count == sv->count) {
-        // include last <thicc_delim.count> characters if they aren't 
-        //  equal to thicc_delim
-        result.count += thicc_delim.count; 
-    }
-    
     // Chop!
     sv->data  += i + thicc_delim.count;
     sv->count -= i + thicc_delim.count;
-- 
2.43.0


From 857a909afa8329fb693c0a96334055dfbdf5b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 59/61] fix: cee_json_load_from_file_path: report a file that
 cannot be opened as the other loaders do

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/value.c            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index c9448ee..0fb2066 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -904,8 +904,8 @@ struct cee_json* cee_json_load_from_file_path(struct cee_state *st,
                                               int *error_at_line){
   FILE *fp = fopen(file_path, "r");
   if( fp == NULL ){
-     fprintf(stderr, "failed to open %s", file_path);
-     cee_segfault();
+     fprintf(stderr, "failed to open %s\n", file_path);
+     return NULL;
   }
   struct cee_json *ret = cee_json_load_from_FILE(st, fp, force_eof, error_at_line);
   fclose(fp);
diff --git a/cee-json/value.c b/cee-json/value.c
index 05520a7..32915f7 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -681,8 +681,8 @@ struct cee_json* cee_json_load_from_file_path(struct cee_state *st,
                                               int *error_at_line){
   FILE *fp = fopen(file_path, "r");
   if( fp == NULL ){
-     fprintf(stderr, "failed to open %s", file_path);
-     cee_segfault();
+     fprintf(stderr, "failed to open %s\n", file_path);
+     return NULL;
   }
   struct cee_json *ret = cee_json_load_from_FILE(st, fp, force_eof, error_at_line);
   fclose(fp);
-- 
2.43.0


From 446ddf526a6c90d76db8e1d5cc80a92392edd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:27 +0000
Subject: [PATCH 60/61] fix: cee_incr_indegree, cee_decr_indegree: leave NULL
 alone, as cee_del_ref and cee_del do

---
 cee-common.c  | 4 ++++
 release/cee.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/cee-common.c b/cee-common.c
index effb658..e34e99a 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -104,6 +104,8 @@ static void _cee_common_release (void * p) {
 }
 
 void cee_incr_indegree (enum cee_del_policy o, void * p) {
+  if (!p) return;
+
   switch(o) {
     case CEE_DP_DEL_RC:
       _cee_common_incr_rc(p);
@@ -117,6 +119,8 @@ void cee_incr_indegree (enum cee_del_policy o, void * p) {
 }
 
 void cee_decr_indegree (enum cee_del_policy o, void * p) {
+  if (!p) return;
+
   switch(o) {
     case CEE_DP_DEL_RC:
       _cee_common_decr_rc(p);
diff --git a/release/cee.c b/release/cee.c
index 17df547..654f614 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1336,6 +1336,7 @@ static void _cee_common_release (void * p) {
 }
 
 void cee_incr_indegree (enum cee_del_policy o, void * p) {
+  if (!p) return;
   switch(o) {
     case CEE_DP_DEL_RC:
       _cee_common_incr_rc(p);
@@ -1349,6 +1350,7 @@ void cee_incr_indegree (enum cee_del_policy o, void * p) {
 }
 
 void cee_decr_indegree (enum cee_del_policy o, void * p) {
+  if (!p) return;
   switch(o) {
     case CEE_DP_DEL_RC:
       _cee_common_decr_rc(p);
-- 
2.43.0


From cd28735bc54fad38ff2af40f3a325368ff684829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:55 +0000
Subject: [PATCH 61/61] fix: cee_json_object_rename: free the new key when
 there is nothing to rename

---
 cee-json/release/cee-json.c | 2 ++
 cee-json/value.c            | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 0fb2066..7d4b353 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -550,6 +550,8 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
   struct cee_str *old_str = cee_str_mk(st, "%s", old_key);
   struct cee_str *new_str = cee_str_mk(st, "%s", new_key);
   bool t = cee_map_rename(o, old_str, new_str);
+  if (!t)
+    cee_del(new_str);
   cee_del(old_str);
   return t;
 }
diff --git a/cee-json/value.c b/cee-json/value.c
index 32915f7..bb037ab 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -326,6 +326,8 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
   struct cee_str *old_str = cee_str_mk(st, "%s", old_key);
   struct cee_str *new_str = cee_str_mk(st, "%s", new_key);
   bool t = cee_map_rename(o, old_str, new_str);
+  if (!t)
+    cee_del(new_str);
   cee_del(old_str);
   return t;
 }
-- 
2.43.0

