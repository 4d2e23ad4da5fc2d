From 2db982d67ae33d40de94f0b1212a28772b2f7ee8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 01/67] fix: embc_list_contains returned the inverted
 membership

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..6c8db28 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
-- 
2.43.0


From 6d9fd45716f71c7731e69b730c0f3d740102d8f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 02/67] fix: embc_list_foreach_reverse_unsafe named a
 nonexistent field

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 6c8db28..638c86b 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
-- 
2.43.0


From a0334ed1f76cacfcba0e6905cc90e55089abf983 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 03/67] fix: embc_list_append of an empty list corrupted the
 target list

---
 include/embc/collections/list.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 638c86b..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From 5c03d28a774876e1cab162f221b6de4ff6fe5168 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 04/67] fix: intmap growth lost chained entries and leaked the
 old table

---
 src/collections/intmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..378f807 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,11 +109,12 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &((*previous)->next);
             }
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From 349609ba221d1094cf89179efffcf14fb8673054 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 05/67] fix: intmap remove leaked the removed entry

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 378f807..d21a21e 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -192,6 +192,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
             }
             item->next = 0;
             item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From bdf6f7b08dba27f4abe3c2a13569a3e6df383365 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 06/67] fix: intmap iteration never ended after an entry in the
 last bin

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index d21a21e..356cf7e 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -210,6 +210,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             self->current_bin += 1;
         }
     }
+    self->next_item = 0;
     while (self->current_bin <= self->intmap->hash_mask) {
         self->next_item = self->intmap->bins[self->current_bin];
         if (self->next_item) {
-- 
2.43.0


From 089779c78bc789c3a8d524e4fae8c443b4f9bafa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 07/67] fix: EMBC_INTMAP_DEFINE wrappers leaked the wrapper
 instances

---
 include/embc/collections/intmap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..9761bae 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,10 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { \
+        embc_intmap_free(self->intmap); \
+        free(self); \
+    } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -200,6 +203,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
         embc_intmap_iterator_free(self->iter); \
+        free(self); \
     }
 
 /** @} */
-- 
2.43.0


From 391323470793dc3bd181aea72dc3f02310cdfa21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 08/67] fix: hashmap free leaked the table and every entry

---
 src/collections/hashmap.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..5960c6e 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -63,7 +63,15 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
-        // free everything
+        for (embc_size_t idx = 0; idx <= self->hashtable_mask; ++idx) {
+            struct entry_s * item = self->hashtable[idx];
+            while (item) {
+                struct entry_s * next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From 21b08221a879f791e416a9cdcf47c7990d30a150 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 09/67] fix: strmap hash overflowed a signed integer for long
 keys

---
 src/collections/strmap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collections/strmap.c b/src/collections/strmap.c
index ccf63d4..354fbf0 100644
--- a/src/collections/strmap.c
+++ b/src/collections/strmap.c
@@ -78,7 +78,7 @@ embc_size_t embc_strmap_length(struct embc_strmap_s *self) {
 
 // djb2: http://www.cse.yorku.ca/~oz/hash.html
 static embc_size_t compute_hash(const char * key) {
-    embc_size_t hash = 5381;
+    uint32_t hash = 5381;
     int c;
 
     while (1) {
@@ -86,10 +86,10 @@ static embc_size_t compute_hash(const char * key) {
         if (0 == c) {
             break;
         }
-        hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
+        hash = ((hash << 5) + hash) + (uint32_t) c; /* hash * 33 + c */
     }
 
-    return hash;
+    return (embc_size_t) hash;
 }
 
 static bool is_key_equiv(const char * key1, const char * key2) {
-- 
2.43.0


From c234474b4665a1a3bb876df51ec5f7e3f4da3f7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 10/67] fix: event manager accepted timestamps documented as
 ignored

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..e459a9b 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -52,6 +52,9 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
         ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-- 
2.43.0


From e71c214af65e349c97a7bd21beb94e5b5b310d1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 11/67] fix: event manager dereferenced a failed event
 allocation

---
 src/event_manager.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index e459a9b..735b8a4 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -56,8 +56,11 @@ int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
         return 0;
     }
     if (embc_list_is_empty(&self->events_free)) {
-        ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
+        if (!ev) {
+            return 0;
+        }
+        ++self->event_counter;
         ev->event_id = self->event_counter;
         embc_list_initialize(&ev->node);
     } else {
-- 
2.43.0


From c250f0fd7adb99ef954c04e0f8e2d7643a0fd578 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 12/67] fix: event manager free leaked every event

---
 src/event_manager.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 735b8a4..b80acef 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -45,7 +45,18 @@ struct embc_evm_s * embc_evm_allocate() {
     return self;
 }
 
+static void events_free(struct embc_list_s * events) {
+    struct embc_list_s * node;
+    while (0 != (node = embc_list_remove_head(events))) {
+        free(EVGET(node));
+    }
+}
+
 void embc_evm_free(struct embc_evm_s * self) {
+    if (self) {
+        events_free(&self->events_pending);
+        events_free(&self->events_free);
+    }
     free(self);
 }
 
-- 
2.43.0


From b3281ad3d1bc9566752fcfdff3bfd096041c4573 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 13/67] fix: event processing walked a stale node when a
 callback cancelled an event

---
 src/event_manager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index b80acef..267efb4 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -131,7 +131,7 @@ int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
     struct embc_list_s * node;
     struct event_s * ev;
     int32_t count = 0;
-    embc_list_foreach(&self->events_pending, node) {
+    while (0 != (node = embc_list_peek_head(&self->events_pending))) {
         ev = EVGET(node);
         if (ev->timestamp > time_current) {
             break;
-- 
2.43.0


From f712df55e0baec114db853c89b212320a11997aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 14/67] fix: log level names were misaligned with the log
 levels

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From da0df4a8daa798d7b58e1b6e1ba8c7d2499c0614 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 15/67] fix: EMBC_LOG_ALERT passed a stray argument and did not
 compile

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From a7cc738ee4cebb66bf843ffea27b0517a98d4379 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 16/67] fix: pattern_32a receiver never initialized its
 duplicate count

---
 src/pattern_32a.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..389c435 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
-- 
2.43.0


From e6e6818d62110e6322a5b86e9bbcb461a64af999 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 17/67] fix: pattern_32a resync discarded previously counted
 duplicates

---
 src/pattern_32a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 389c435..336134e 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -184,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
-- 
2.43.0


From cb9159dc29955bf31d3278396a8f6da462fac82f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 18/67] fix: pattern_32a resynchronized to words that are not
 in the pattern

---
 src/pattern_32a.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 336134e..80d7cfe 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -129,6 +129,10 @@ static bool is_counter_value(uint32_t value) {
     return (((~value) >> 16) == (value & 0xffff));
 }
 
+static bool is_shift_value(uint32_t value) {
+    return (0 == (value & (value - 1)));  // zero or exactly one bit set
+}
+
 static uint8_t shift_position(uint32_t shift) {
     // CLZ instruction would be much faster
     uint8_t position = 0;
@@ -155,6 +159,9 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     if (v1_is_counter == v2_is_counter) {
         return false;
     }
+    if (!is_shift_value(v1_is_counter ? v2 : v1)) {
+        return false;
+    }
 
     // Since tx state holds next values, sync to before v1
     if (v2_is_counter && !v1_is_counter) { // most recent is counter
-- 
2.43.0


From d495fae5acf061f5c0744310e03b90089e7672ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 19/67] fix: cli executed the truncated start of an over-long
 line

---
 src/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..1c0f469 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,7 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From eabfe3a809de60fcd911f9d5768804afb40d4e26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 20/67] fix: cli replaced the user's execute cookie when
 parsing arguments

---
 src/cli.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 1c0f469..db43efc 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -151,7 +151,8 @@ static void embc_cli_process_line(embc_cli_t * self) {
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
         if (self->execute_line) {
-            rc = self->execute_line(self->execute_cookie, self->cmdline);
+            void * cookie = self->execute_args ? self : self->execute_cookie;
+            rc = self->execute_line(cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
             if (self->verbose == EMBC_CLI_VERBOSE_FULL) {
@@ -172,7 +173,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     self->cmdlen = 0;
     if (self->execute_args) {
         self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
     }
     print_prompt(self);
 }
-- 
2.43.0


From 21292f14f37018f2845ebc85c4449daddfa2daf9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 21/67] fix: cli line parser read past the end of short command
 strings

---
 src/cli.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index db43efc..0c25f5e 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -222,8 +222,15 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
-    line[sizeof(line) - 1] = 0; // just to be sure.
+    embc_size_t length = 0;
+    while ((length < (embc_size_t) (sizeof(line) - 1)) && cmdline[length]) {
+        line[length] = cmdline[length];
+        ++length;
+    }
+    line[length] = 0;
+    if (cmdline[length]) { // line too long
+        return EMBC_CLI_ERROR_PARAMETER_VALUE;
+    }
     while (1) {
         // consume multiple delimiters
         while (*lineptr && _is_delimiter(*lineptr, delimiters)) {
-- 
2.43.0


From ab1666c82bcbbe53a0bb95bd6a2d5ab2a75cba7d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 22/67] fix: async sink dereferenced an unset producer

---
 src/stream/async_sink.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..ea81f27 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -46,6 +46,13 @@ static void send_event(struct embc_stream_sink_s * self, uint8_t ev) {
     }
 }
 
+static void send_response(struct embc_stream_sink_s * self,
+                          struct embc_stream_transaction_s * transaction) {
+    if (self->producer) {
+        self->producer->send(self->producer, transaction);
+    }
+}
+
 static void send(struct embc_stream_consumer_s * self,
                  struct embc_stream_transaction_s * transaction) {
     EMBC_DBC_NOT_NULL(self);
@@ -55,7 +62,7 @@ static void send(struct embc_stream_consumer_s * self,
             transaction->file_id = 1;
             s->mode = 1;
             s->offset = 0;
-            s->producer->send(s->producer, transaction);
+            send_response(s, transaction);
             if (s->dst_buffer) {
                 send_write_request(s);
             } else {
@@ -77,7 +84,7 @@ static void send(struct embc_stream_consumer_s * self,
                     s->offset += transaction->length;
                 }
             }
-            s->producer->send(s->producer, transaction);
+            send_response(s, transaction);
             send_write_request(s);
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
@@ -85,9 +92,7 @@ static void send(struct embc_stream_consumer_s * self,
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-            if (s->producer) {
-                s->producer->send(s->producer, transaction);
-            }
+            send_response(s, transaction);
             break;
         default:
             break;
-- 
2.43.0


From a97ea999788482b599d3a0bb9616c917eaa18ce3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 23/67] fix: async sink never responded to NOOP and FLUSH
 requests

---
 src/stream/async_sink.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index ea81f27..f18ee80 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -58,6 +58,11 @@ static void send(struct embc_stream_consumer_s * self,
     EMBC_DBC_NOT_NULL(self);
     struct embc_stream_sink_s * s = EMBC_CONTAINER_OF(self, struct embc_stream_sink_s, consumer);
     switch (transaction->type) {
+        case EMBC_STREAM_IOCTL_NOOP: // intentional fall-through
+        case EMBC_STREAM_IOCTL_FLUSH:
+            transaction->status = 0;
+            send_response(s, transaction);
+            break;
         case EMBC_STREAM_IOCTL_OPEN: {
             transaction->file_id = 1;
             s->mode = 1;
-- 
2.43.0


From 41afdaf9801904595b7e29bc539c9982f528c378 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 24/67] fix: async sink reported success for write data that it
 discarded

---
 src/stream/async_sink.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index f18ee80..5f6d48b 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -80,8 +80,9 @@ static void send(struct embc_stream_consumer_s * self,
                 s->write_fn(s->write_user_data, transaction->data.ioctl_write.ptr, transaction->length);
             }
             if (s->dst_buffer) {
-                if (s->dst_length < (s->offset + transaction->length)) {
+                if ((s->dst_length - s->offset) < transaction->length) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    transaction->status = EMBC_ERROR_FULL;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
-- 
2.43.0


From 623b48c1c989765011ef3a55ec9c2213b18a43f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 25/67] fix: async sink remained open after close

---
 src/stream/async_sink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 5f6d48b..42ee9d3 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -94,7 +94,7 @@ static void send(struct embc_stream_consumer_s * self,
             send_write_request(s);
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 1;
+            s->mode = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-- 
2.43.0


From ddb3276823d2a0b78c4ab17346309c4e7aeb5407 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 26/67] fix: async source reported success when the consumer
 rejected a write

---
 src/stream/async_source.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..1d65e4a 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -31,9 +31,11 @@ static void send(struct embc_stream_producer_s * self,
             break;
         case EMBC_STREAM_IOCTL_WRITE:
             s->rx_offset += transaction->length;
-            if (s->rx_offset >= s->source_length) {
+            if (transaction->status || (s->rx_offset >= s->source_length)) {
+                uint8_t status = transaction->status;
                 EMBC_STRUCT_PTR_INIT(transaction);
                 transaction->type = EMBC_STREAM_IOCTL_CLOSE;
+                transaction->status = status;
                 s->consumer->send(s->consumer, transaction);
             }
             break;
-- 
2.43.0


From 963e69296d1ee694d011999c34f2f75168799d90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 27/67] fix: async source ignored the consumer's maximum
 transfer unit

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 1d65e4a..08d92b1 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -47,6 +47,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -54,6 +55,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From dcbc3698246d8798a2168da991e38eefb241f7db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 28/67] fix: mblock treated free blocks as used when a later
 block was allocated

---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From 392a2fb0f023636f26f554382d24038b1df0ca9a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 29/67] fix: mblock block count overflowed for very large sizes

---
 src/memory/block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 84e36f5..5d320a9 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -47,7 +47,7 @@ void embc_mblock_finalize(struct embc_mblock_s * self) {
 }
 
 static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size) {
-    return (size + s->block_size - 1) / s->block_size;
+    return ((size - 1) / s->block_size) + 1;  // size > 0
 }
 
 void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
-- 
2.43.0


From 900aac7445fdc6ee50f9b3154ae14b0b254798f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 30/67] fix: mblock free accepted ranges that extend past the
 managed memory

---
 src/memory/block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5d320a9..264d266 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -89,10 +89,13 @@ void * embc_mblock_alloc(struct embc_mblock_s * self, int32_t size) {
 void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size) {
     struct mblock_s * s = (struct mblock_s *) self;
     uint8_t * b = (uint8_t *) buffer;
+    EMBC_DBC_NOT_NULL(s);
+    EMBC_DBC_GT_ZERO(size);
     EMBC_ASSERT(b >= s->mem);
     EMBC_ASSERT(b < (s->mem + s->mem_size));
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
+    EMBC_ASSERT(blocks <= (s->block_count - idx_start));
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
         int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
-- 
2.43.0


From d546abf46153a79f12c657288c281b66e312a518 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 31/67] fix: cstr_to_u32 reported success with a wrapped value
 for large numbers

---
 src/cstr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cstr.c b/src/cstr.c
index 71e4226..a343db9 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -116,12 +116,19 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
             } else {
                 break;
             }
+            if (v > (UINT32_MAX >> 4)) { // overflow
+                return 1;
+            }
             v = v * 16 + nibble;
             ++src;
         }
     } else {
         while ((*src >= '0') && (*src <= '9')) {
-            v = v * 10 + (*src - '0');
+            uint32_t digit = (uint32_t) (*src - '0');
+            if (v > ((UINT32_MAX - digit) / 10)) { // overflow
+                return 1;
+            }
+            v = v * 10 + digit;
             ++src;
         }
     }
-- 
2.43.0


From 5b15bf34cfc7e2ca9503210e560f31108811d2c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 32/67] fix: cstr_to_i32 reported success with a wrong value
 outside the int32 range

---
 src/cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index a343db9..5d3b429 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -164,10 +164,10 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
     if (rc) {
         return rc;
     }
-    *value = (int32_t) v;
-    if (neg) {
-        *value = -*value;
+    if (v > (((uint32_t) INT32_MAX) + (neg ? 1U : 0U))) { // overflow
+        return 1;
     }
+    *value = (int32_t) (neg ? -((int64_t) v) : (int64_t) v);
     return 0;
 }
 
-- 
2.43.0


From 2bfada614b6a10ff527bcaec80a59ee8380c62b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 33/67] fix: cstr_to_i32s overflowed a signed integer for large
 numbers

---
 src/cstr.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 5d3b429..b7b7a49 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -4,6 +4,8 @@
 #include "embc/config.h"
 
 
+#define I32S_OVERFLOW (((int64_t) INT32_MAX) + 2)
+
 static char _toupper(char c) {
     if ((c >= 'a') && c <= 'z') {
         c = c - 'a' + 'A';
@@ -171,8 +173,14 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
     return 0;
 }
 
+// Append a decimal digit, saturating just outside the int32 range.
+static int64_t append_digit(int64_t v, int digit) {
+    v = v * 10 + digit;
+    return (v > I32S_OVERFLOW) ? I32S_OVERFLOW : v;
+}
+
 int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
-    int32_t v = 0;
+    int64_t v = 0;
     int32_t decimal = -1;  // still on integer part
     int neg = 0;
 
@@ -204,16 +212,15 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
             if (decimal < 0) {
                 break;
             } else {
-                v *= 10;
+                v = append_digit(v, 0);
                 ++decimal;
             }
         } else {
             if (decimal >= 0) {
                 ++decimal;
             }
-            v *= 10;
             if ((*src >= '0') && (*src <= '9')) {
-                v += *src - '0';
+                v = append_digit(v, *src - '0');
             } else {
                 return 1;
             }
@@ -234,14 +241,17 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         decimal = 0;
     }
     while (decimal < exponent) {
-        v *= 10;
+        v = append_digit(v, 0);
         ++decimal;
     }
     if (neg) {
         v = -v;
     }
+    if ((v > INT32_MAX) || (v < INT32_MIN)) { // overflow
+        return 1;
+    }
     if (value) {
-        *value = v;
+        *value = (int32_t) v;
     }
     return 0;
 }
-- 
2.43.0


From 83d55d6f937ad2965e4d24802d43f3063f474f37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 34/67] fix: cstr_to_i32s reported success for a NULL string
 and for several decimal points

---
 src/cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index b7b7a49..bc00e94 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -185,7 +185,7 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
     int neg = 0;
 
     if (!src) {
-        return 0;
+        return 1;
     }
     if (exponent < 0) {
         return -1;
@@ -203,7 +203,7 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
     }
 
     while (decimal < exponent) {
-        if (*src == '.') {
+        if ((*src == '.') && (decimal < 0)) {
             decimal = 0;
             ++src;
             continue;
-- 
2.43.0


From e2c595e3459fa1c4601be74dd3fb80dac8444801 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 35/67] fix: fsm initialization did not validate the
 transitions as documented

---
 src/fsm.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fsm.c b/src/fsm.c
index 779dd8b..708abc9 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -18,6 +18,10 @@
 #include "embc/dbc.h"
 #include <inttypes.h>
 
+static bool is_state_(struct embc_fsm_s * self, embc_fsm_state_t state) {
+    return ((state >= 0) && (state < self->states_count));
+}
+
 static const char * state_name_(struct embc_fsm_s * self, embc_fsm_state_t state) {
     const char * name = 0;
     if ((state >= 0) && (state < self->states_count)) {
@@ -85,6 +89,16 @@ void embc_fsm_initialize(struct embc_fsm_s * self) {
             EMBC_FATAL("invalid state machine");
         }
     }
+    for (int32_t idx = 0; idx < (int32_t) self->transitions_count; ++idx) {
+        struct embc_fsm_transition_s const * t = self->transitions + idx;
+        bool current_ok = is_state_(self, t->current) ||
+            (t->current == EMBC_STATE_ANY) || (t->current == EMBC_STATE_NULL);
+        bool next_ok = is_state_(self, t->next) || (t->next == EMBC_STATE_NULL);
+        if (!current_ok || !next_ok) {
+            EMBC_LOG_CRITICAL("transition %" PRId32 " is invalid", idx);
+            EMBC_FATAL("invalid state machine");
+        }
+    }
     if (!self->name) {
         self->name = "fsm";
     }
-- 
2.43.0


From 55b518fdce74cc84b5392f42201cdb5c0f83965b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 36/67] fix: fsm handlers could move the state machine to an
 undeclared state

---
 src/fsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fsm.c b/src/fsm.c
index 708abc9..245da59 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -119,6 +119,7 @@ static void transition(struct embc_fsm_s * self, embc_fsm_state_t next, embc_fsm
     if (next == EMBC_STATE_NULL) {
         return; // no state change.
     }
+    EMBC_ASSERT(is_state_(self, next));
     if ((self->state >= 0) && (self->state < self->states_count)) {
         exit_handler = self->states[self->state].on_exit;
     }
-- 
2.43.0


From 44a3a521caa36a7fe425330df56c21e04bbe4a9f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 37/67] fix: buffer allocator accepted sizes larger than its
 largest pool

---
 src/memory/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..0da6360 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (32 << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 576de2d21d4461534fe053c7b1ef61cef8f23ca8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 38/67] fix: buffer string write rejected exact fits and shrank
 longer contents

---
 src/memory/buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 0da6360..fca6332 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -237,8 +237,8 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return (*str == 0);
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From f48cd210dc9f41eaffa630601b9ea75b0eb7166e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 39/67] fix: static buffer initialization left the reserve
 uninitialized

---
 include/embc/memory/buffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..20a2a54 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
@@ -713,6 +714,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
         .capacity = sizeof(name ## _mem_), \
         .cursor = 0, \
         .length = 0, \
+        .reserve = 0, \
         .buffer_id = 0, \
         .flags = 0, \
         .manager = &embc_buffer_manager_static, \
-- 
2.43.0


From 19e58f6a7b00c5bca698b4d05d9bdffc48b69b7c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 40/67] fix: framer: free a frame received for an unsupported
 port

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..6852df5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -660,6 +660,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From 3ffbded2126a11adbd81832fe21b13e0e8ae4885 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 41/67] fix: framer: order the received frames modulo the frame
 id range

The frame id is a 4-bit counter.  Comparing the 8-bit header bytes
misordered the frames when the counter wrapped, and a duplicate was leaked.
---
 src/stream/framer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6852df5..d5ee4ef 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -310,10 +310,11 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (uint8_t) ((h->frame_id - h1->frame_id) & EMBC_FRAMER_ID_MASK);
         if (0 == delta) { // duplicate
+            embc_buffer_free(frame);
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > 8) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From 906426bf1f0bdde3561bdc975bb2fc8a9234f255 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 42/67] fix: framer: compute the ack mask modulo the frame id
 range

---
 src/stream/framer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index d5ee4ef..3a45c9f 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -384,8 +384,8 @@ struct embc_buffer_s * embc_framer_construct_ack_from_header(
     uint8_t frame_id = hdr_frame_id(hdr);
 
     if (0 == mask) {
-        uint8_t frame_delta_new = frame_id - self->rx_frame_id;
-        uint8_t frame_delta_old = self->rx_frame_id - frame_id;
+        uint8_t frame_delta_new = (uint8_t) ((frame_id - self->rx_frame_id) & EMBC_FRAMER_ID_MASK);
+        uint8_t frame_delta_old = (uint8_t) ((self->rx_frame_id - frame_id) & EMBC_FRAMER_ID_MASK);
         if (frame_id == self->rx_frame_id) {
             mask = self->rx_frame_bitmask;
         } else if (frame_delta_new < EMBC_FRAMER_OUTSTANDING_FRAMES_MAX) {
-- 
2.43.0


From 5ae3fb3520065d026117583164f32cba002b3b3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 43/67] fix: framer: resync must not skip bytes or erase an
 empty buffer

After recovering a complete frame, the search skipped the first remaining
byte.  When the recovered frame was the last one, erasing the empty buffer
was a fatal error that a remote could trigger.
---
 src/stream/framer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 3a45c9f..fdc09ed 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -800,9 +800,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     }
     self->rx_state = ST_SOF_UNSYNC;
 
-    for (; i < count; ++i) {
+    while (i < count) {
         uint8_t * b = self->rx_buffer->data + i;
         if (*b != SOF) {
+            ++i;
             continue;
         }
         sz = count - i;
@@ -828,16 +829,19 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 count = embc_buffer_length(self->rx_buffer);
                 ++self->status.rx_count;
                 self->rx_hook_fn(self->rx_hook_user_data, f);
-                break;
+                continue;
             }
             case EMBC_ERROR_IO:
                 break;
             default:
                 break;
         }
+        ++i;
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0


From 698ad2559db78d2fc9dff9a65daae02d661c0501 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 44/67] fix: framer: deliver queued frames safely when a
 callback purges the queue

---
 src/stream/framer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index fdc09ed..f6de463 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -343,9 +343,9 @@ static void rx_complete(struct embc_framer_s *self, struct embc_buffer_s * frame
 static void rx_complete_queued(struct embc_framer_s *self) {
     struct embc_list_s *item;
     struct embc_buffer_s *b;
-    embc_list_foreach(&self->rx_pending, item) {
+    // rx_complete invokes user callbacks which may modify rx_pending
+    while (0 != (item = embc_list_remove_head(&self->rx_pending))) {
         b = embc_list_entry(item, struct embc_buffer_s, item);
-        embc_list_remove(&b->item);
         rx_complete(self, b);
     }
 }
-- 
2.43.0


From 5fe7c928af14b771a6749a4bbba220c117af25d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 45/67] fix: framer: purge queued transmit buffers as buffers

tx_queue holds embc_buffer_s, not tx_buf_s.
---
 src/stream/framer.c | 48 ++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index f6de463..f7e7d96 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -441,6 +441,21 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
+static void tx_done_notify(struct embc_framer_s * self, struct embc_framer_header_s * hdr, uint8_t status) {
+    uint16_t port_def = hdr_port_def(hdr);
+    if (hdr->port < EMBC_FRAMER_PORTS) {
+        self->port_cbk[hdr->port].tx_done_fn(
+                self->port_cbk[hdr->port].port,
+                hdr->port,
+                hdr->message_id,
+                port_def,
+                status
+        );
+    } else {
+        EMBC_LOGW("invalid port %d", (int) hdr->port);
+    }
+}
+
 static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
@@ -449,18 +464,7 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     t->b = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
-    uint16_t port_def = hdr_port_def(&hdr);
-    if (hdr.port < EMBC_FRAMER_PORTS) {
-        self->port_cbk[hdr.port].tx_done_fn(
-                self->port_cbk[hdr.port].port,
-                hdr.port,
-                hdr.message_id,
-                port_def,
-                status
-        );
-    } else {
-        EMBC_LOGW("invalid port %d", (int) hdr.port);
-    }
+    tx_done_notify(self, &hdr, status);
 }
 
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
@@ -475,15 +479,23 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
 
 static void tx_purge_queued(struct embc_framer_s * self) {
     struct embc_list_s * item;
-    embc_list_foreach(&self->tx_buffers_active, item) {
+    // detach first, since the callbacks may send.
+    struct embc_list_s active;
+    struct embc_list_s queue;
+    embc_list_initialize(&active);
+    embc_list_initialize(&queue);
+    embc_list_append(&active, &self->tx_buffers_active);
+    embc_list_append(&queue, &self->tx_queue);
+    while (0 != (item = embc_list_remove_head(&active))) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
         tx_complete(self, t, EMBC_ERROR_ABORTED);
     }
-    embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+    while (0 != (item = embc_list_remove_head(&queue))) {
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        struct embc_framer_header_s hdr = *buffer_hdr(b);
+        ++self->status.tx_count;
+        embc_buffer_free(b);
+        tx_done_notify(self, &hdr, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From 05e478f9641ddb18287351cf21716f05869dcd52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 46/67] fix: framer: never free or retransmit a buffer that the
 HAL still owns

The HAL owns a transmit buffer from tx_fn until embc_framer_hal_tx_done().
An ack, timeout, nack or purge in between freed the buffer or handed it to
the HAL a second time.  A late embc_framer_hal_tx_done() also discarded a
received ack.
---
 src/stream/framer.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index f7e7d96..9a37bda 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -77,6 +77,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    uint8_t hal_owned;  // from hal_cbk.tx_fn to embc_framer_hal_tx_done()
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -460,8 +461,11 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(t->b);
+    if (!t->hal_owned) { // otherwise freed by embc_framer_hal_tx_done()
+        embc_buffer_free(t->b);
+    }
     t->b = 0;
+    t->hal_owned = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
     tx_done_notify(self, &hdr, status);
@@ -582,7 +586,10 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     t->status = TX_STATUS_TRANSMITTING;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
-    self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    if (!t->hal_owned) { // otherwise the prior transmission is still pending
+        t->hal_owned = 1;
+        self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    }
     timer_schedule(self);
 }
 
@@ -940,9 +947,14 @@ void embc_framer_hal_tx_done(
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
             if (t->b == buffer) {
-                t->status = TX_STATUS_AWAIT_ACK;
+                t->hal_owned = 0;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                return;
             }
         }
+        embc_buffer_free(buffer); // completed while the HAL owned the buffer
     }
 }
 
-- 
2.43.0


From d35fe5068bcccd9a64f2d92833f51ed59400ecc5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 47/67] fix: framer: complete acknowledged frames in order
 without a stale iterator

tx_complete invokes user callbacks which may modify the active list.
---
 src/stream/framer.c | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 9a37bda..2a5ec32 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -419,17 +419,6 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
-}
-
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -503,25 +492,29 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     }
 }
 
+static void tx_complete_acked(struct embc_framer_s * self) {
+    struct embc_list_s * item;
+    // tx_complete invokes user callbacks which may modify tx_buffers_active
+    while (0 != (item = embc_list_peek_head(&self->tx_buffers_active))) {
+        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+        if (TX_STATUS_ACKED != t->status) {
+            break;
+        }
+        tx_complete(self, t, 0);
+    }
+}
+
 static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s * t_current) {
     // Complete only when guaranteed in order!
-    bool match_current = false;
-    struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
-    embc_list_foreach(&self->tx_buffers_active, item) {
+    tx_complete_acked(self);
+    struct embc_list_s * item = embc_list_peek_head(&self->tx_buffers_active);
+    if ((0 != item) && (TX_STATUS_ACKED == t_current->status)) {
+        // t_current still waits for an earlier frame
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
-            tx_complete(self, t, 0);
-        } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
+        if (t->status == TX_STATUS_AWAIT_ACK) {
             ++self->status.tx_retransmit_count;
             transmit_tx_buf(self, t);
-            break;
-        } else {
-            break;
         }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
     }
 }
 
-- 
2.43.0


From 1ed8b2d39dcbbabd5ac0418f39605ca8ee1a8d71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 48/67] fix: framer: process every timed out frame without a
 stale iterator

---
 src/stream/framer.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2a5ec32..5cee635 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -518,10 +518,20 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     }
 }
 
+static struct tx_buf_s * find_tx_expired(struct embc_framer_s * self, int64_t current_time) {
+    struct embc_list_s * item;
+    embc_list_foreach(&self->tx_buffers_active, item) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
+            return t;
+        }
+    }
+    return 0;
+}
+
 static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_framer_s * self = (struct embc_framer_s *) user_data;
     (void) timer_id;
-    struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
@@ -529,11 +539,9 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
         self->rx_next_timeout = EMBC_TIME_MAX;
         rx_complete_queued(self);
     }
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
-            tx_error(self, t, EMBC_ERROR_TIMED_OUT);
-        }
+    // tx_error invokes user callbacks which may modify tx_buffers_active
+    while (0 != (t = find_tx_expired(self, current_time))) {
+        tx_error(self, t, EMBC_ERROR_TIMED_OUT);
     }
     timer_schedule(self);
 }
-- 
2.43.0


From 63984a45c86c3ce4f721b2676bbed7ff684d64b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 49/67] fix: framer: continue with the next frames after giving
 up on a frame

When a frame exhausted its retries, neither the acknowledged frames behind
it were completed nor the queued frames transmitted until some later event.
---
 src/stream/framer.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5cee635..89e9dbe 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -94,6 +94,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 }
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
+static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
 
 struct embc_framer_s {
@@ -460,9 +461,23 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     tx_done_notify(self, &hdr, status);
 }
 
+static void tx_complete_acked(struct embc_framer_s * self) {
+    struct embc_list_s * item;
+    // tx_complete invokes user callbacks which may modify tx_buffers_active
+    while (0 != (item = embc_list_peek_head(&self->tx_buffers_active))) {
+        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+        if (TX_STATUS_ACKED != t->status) {
+            break;
+        }
+        tx_complete(self, t, 0);
+    }
+}
+
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
         tx_complete(self, t, status);
+        tx_complete_acked(self);
+        transmit_queued(self);
     } else {
         ++t->retries;
         ++self->status.tx_retransmit_count;
@@ -492,18 +507,6 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     }
 }
 
-static void tx_complete_acked(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    // tx_complete invokes user callbacks which may modify tx_buffers_active
-    while (0 != (item = embc_list_peek_head(&self->tx_buffers_active))) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (TX_STATUS_ACKED != t->status) {
-            break;
-        }
-        tx_complete(self, t, 0);
-    }
-}
-
 static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s * t_current) {
     // Complete only when guaranteed in order!
     tx_complete_acked(self);
-- 
2.43.0


From 93f60a89f0d751592e879686a42d0d9b61812593 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 50/67] fix: framer: schedule the timer only for frames that
 can time out

The timeout of an acknowledged frame is never handled, so scheduling it
expired immediately and forever.  An expired timer was also cancelled, and
an equal timeout was not restarted.
---
 src/stream/framer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 89e9dbe..32a4117 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -537,6 +537,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     (void) timer_id;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
+    self->next_timeout = EMBC_TIME_MAX; // expired
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     if (current_time >= self->rx_next_timeout) {
         self->rx_next_timeout = EMBC_TIME_MAX;
@@ -572,7 +573,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
-- 
2.43.0


From ea6c5dfa3e4e21a1cbbc98b8a49f4e988ed1ff30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 51/67] fix: framer: bound the payload length of every
 constructed frame

embc_framer_send rejected a copied maximum size payload and accepted an
oversize payload, which the receiver rejects.
---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 32a4117..7d21bdb 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -969,6 +969,7 @@ struct embc_buffer_s * embc_framer_construct_frame(
         uint8_t const *payload, uint8_t length) {
     EMBC_DBC_NOT_NULL(self);
     EMBC_DBC_RANGE_INT(port, 0, (EMBC_FRAMER_PORTS - 1));
+    EMBC_DBC_RANGE_INT(length, 0, EMBC_FRAMER_PAYLOAD_MAX_SIZE);
     uint32_t frame_crc = 0;
     EMBC_LOGD3("embc_framer_construct_frame");
     struct embc_buffer_s * b = embc_buffer_alloc(self->buffer_allocator, length + HEADER_SIZE + FOOTER_SIZE);
@@ -1028,7 +1029,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
@@ -1036,6 +1037,7 @@ void embc_framer_send(
         length = embc_buffer_length(buffer);
     }
     EMBC_ASSERT(buffer->reserve == EMBC_FRAMER_FOOTER_SIZE);
+    EMBC_ASSERT(length <= (HEADER_SIZE + EMBC_FRAMER_PAYLOAD_MAX_SIZE));
 
     buffer->reserve = 0;
     struct embc_framer_header_s * hdr = buffer_hdr(buffer);
-- 
2.43.0


From f0768968eb79d3ce28220c1ab227ed5e9546ff5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 52/67] fix: framer: require the time_get callback

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 7d21bdb..259feb2 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -219,6 +219,7 @@ void embc_framer_initialize(
     EMBC_DBC_NOT_NULL(buffer_allocator);
     EMBC_DBC_NOT_NULL(callbacks);
     EMBC_DBC_NOT_NULL(callbacks->tx_fn);
+    EMBC_DBC_NOT_NULL(callbacks->time_get);
     EMBC_DBC_NOT_NULL(callbacks->timer_set_fn);
     EMBC_DBC_NOT_NULL(callbacks->timer_cancel_fn);
     EMBC_STRUCT_PTR_INIT(self);
-- 
2.43.0


From bde61c8b7e89a883bb9148d40fe5ce85fc3b3c4b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 53/67] fix: framer: an ack must not assert when an earlier
 frame was given up

Giving up on a frame leaves a gap in the active frame ids, which a remote
could turn into an assert by acknowledging a later frame.
---
 src/stream/framer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 259feb2..c1eea92 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -632,12 +632,12 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
         struct embc_list_s * item = &t_match->item;
         while (item->prev != &self->tx_buffers_active) {
             item = item->prev;
-            mask = mask << 1;
             struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
             struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-            frame_id = (frame_id - 1) & EMBC_FRAMER_ID_MASK;
-            EMBC_ASSERT(frame_id == hdr->frame_id);
-            if ((TX_STATUS_AWAIT_ACK == t->status) && (mask & EMBC_FRAMER_ACK_MASK_CURRENT)) {
+            // not always consecutive: frames in between may have been given up
+            uint8_t delta = (uint8_t) ((frame_id - hdr->frame_id) & EMBC_FRAMER_ID_MASK);
+            uint32_t t_mask = ((uint32_t) mask) << delta;
+            if ((TX_STATUS_AWAIT_ACK == t->status) && (t_mask & EMBC_FRAMER_ACK_MASK_CURRENT)) {
                 t->status = TX_STATUS_ACKED;
             }
         }
-- 
2.43.0


From 99332bef0505ce5c545c0235324f03c50c21cf12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 54/67] fix: async sink requested another write after the
 stream was closed

---
 src/stream/async_sink.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 42ee9d3..d866aac 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -91,7 +91,9 @@ static void send(struct embc_stream_consumer_s * self,
                 }
             }
             send_response(s, transaction);
-            send_write_request(s);
+            if (s->mode) {  // the producer may have closed on the response
+                send_write_request(s);
+            }
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
             s->mode = 0;
-- 
2.43.0


From a435959a737dc772973ce840138b5409e97d9141 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 55/67] fix: async source continued to write and closed again
 after it closed

---
 include/embc/stream/async_source.h |  1 +
 src/stream/async_source.c          | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/embc/stream/async_source.h b/include/embc/stream/async_source.h
index 256387a..d476ef3 100644
--- a/include/embc/stream/async_source.h
+++ b/include/embc/stream/async_source.h
@@ -46,6 +46,7 @@ struct embc_stream_source_s {
     struct embc_stream_consumer_s * consumer;
     uint8_t file_id;
     uint8_t transaction_id;
+    uint8_t is_open;  ///< 1 from sending OPEN until sending CLOSE.
     uint8_t * transaction_buffer;
     uint16_t transaction_length;
     uint8_t const * source_buffer;
diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 08d92b1..6a6c009 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -30,9 +30,13 @@ static void send(struct embc_stream_producer_s * self,
             }
             break;
         case EMBC_STREAM_IOCTL_WRITE:
+            if (!s->is_open) {
+                break;
+            }
             s->rx_offset += transaction->length;
             if (transaction->status || (s->rx_offset >= s->source_length)) {
                 uint8_t status = transaction->status;
+                s->is_open = 0;
                 EMBC_STRUCT_PTR_INIT(transaction);
                 transaction->type = EMBC_STREAM_IOCTL_CLOSE;
                 transaction->status = status;
@@ -40,7 +44,7 @@ static void send(struct embc_stream_producer_s * self,
             }
             break;
         case EMBC_STREAM_EVENT_WRITE_REQUEST: {
-            if (s->tx_offset >= s->source_length) {
+            if (!s->is_open || (s->tx_offset >= s->source_length)) {
                 break;
             }
             uint16_t sz = transaction->length;
@@ -73,6 +77,10 @@ static void send(struct embc_stream_producer_s * self,
             break;
         }
         case EMBC_STREAM_EVENT_ABORT:
+            if (!s->is_open) {
+                break;
+            }
+            s->is_open = 0;
             transaction->type = EMBC_STREAM_IOCTL_CLOSE;
             transaction->status = EMBC_ERROR_ABORTED;
             s->consumer->send(s->consumer, transaction);
@@ -134,6 +142,7 @@ EMBC_API void embc_stream_source_open_ex(
         uint16_t length) {
     self->tx_offset = 0;
     self->rx_offset = 0;
+    self->is_open = 1;
     struct embc_stream_transaction_s transaction;
     EMBC_STRUCT_INIT(transaction);
     transaction.type = EMBC_STREAM_IOCTL_OPEN;
-- 
2.43.0


From cacc43459f3b6bbfc04e5fdde646bdfcd7a884fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 56/67] fix: pattern_32a counted duplicates when first joining
 a running pattern

---
 src/pattern_32a.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 80d7cfe..e62b353 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -214,6 +214,7 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
+                self->duplicate_count = 0;
                 self->error_count = 0;
                 self->state = ST_SYNC;
             } else {
-- 
2.43.0


From e253354fae56572d872b65be754080cec53d9720 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 57/67] fix: cstr to_i32s must accept trailing white space and
 reject digits after it

---
 src/cstr.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index bc00e94..4c42e29 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -208,7 +208,7 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
             ++src;
             continue;
         }
-        if ((*src == 0) || (*src == ',')) {
+        if ((*src == 0) || (*src == ',') || _isspace((uint8_t) *src)) {
             if (decimal < 0) {
                 break;
             } else {
@@ -228,13 +228,13 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         }
     }
 
+    while ((*src >= '0') && (*src <= '9')) { // discard extra digits
+        ++src;
+    }
     while (*src) {
-        if ((*src >= '0') && (*src <= '9')) {
-            // discard extra digits
-        } else if (!_isspace((uint8_t) *src)) { // did not parse full string
+        if (!_isspace((uint8_t) *src++)) { // did not parse full string
             return 1;
         }
-        ++src;
     }
 
     if (decimal < 0) {
-- 
2.43.0


From a7f014f88bf8dc822d63e1242b8db211227fdffc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 58/67] fix: EMBC_BBUF_DECODE_U8 must be usable as an
 expression

---
 include/embc/bbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/bbuf.h b/include/embc/bbuf.h
index 97ebaed..e8c9ac0 100644
--- a/include/embc/bbuf.h
+++ b/include/embc/bbuf.h
@@ -136,7 +136,7 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer.
  * @return The value decoded from the buffer.
  */
-#define EMBC_BBUF_DECODE_U8(buffer) (buffer)[0];
+#define EMBC_BBUF_DECODE_U8(buffer) ((buffer)[0])
 
 /**
  * @brief Decode a uint16 from the buffer in big-endian order.
-- 
2.43.0


From 2e4eefae89c939e5935aa4653eff276f97060793 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 59/67] fix: time conversions must accept an expression as the
 counter frequency

---
 include/embc/time.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embc/time.h b/include/embc/time.h
index 9116a7b..b102912 100644
--- a/include/embc/time.h
+++ b/include/embc/time.h
@@ -182,7 +182,7 @@ EMBC_CPP_GUARD_START
  * @return The 64-bit time in counter ticks.
  */
 #define EMBC_TIME_TO_COUNTER(x, z) \
-    (( ((int64_t) (x)) * z + \
+    (( ((int64_t) (x)) * (z) + \
        _EMBC_TIME_SIGNUM(z) * EMBC_TIME_SECOND / 2) \
      >> EMBC_TIME_Q)
 
@@ -193,7 +193,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * z + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * (z) + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to counter ticks, rounded down
@@ -202,7 +202,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * z) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * (z)) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to 32-bit unsigned seconds.
-- 
2.43.0


From 0ee8133bf25679fbfab4f183b752ca458cc07a44 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 60/67] fix: EMBC_ROUND_UP_TO_MULTIPLE must accept an
 expression as the multiple

---
 include/embc/cdef.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/cdef.h b/include/embc/cdef.h
index af10b83..497f4bc 100644
--- a/include/embc/cdef.h
+++ b/include/embc/cdef.h
@@ -179,7 +179,7 @@
  * WARNING: The values for x and m MUST NOT have any side effects
  * as the parameters occur multiple times in the macro!
  */
-#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * (m - 1) )) / m) * m)
+#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * ((m) - 1) )) / (m)) * (m))
 
 /**
  * @brief Find the container instance given a member pointer.
-- 
2.43.0


From 658879f9b399b58de17e7dd58be5c7d7006481b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 61/67] fix: converting a negative counter or seconds to time
 must not shift a negative value

---
 include/embc/time.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/time.h b/include/embc/time.h
index b102912..7b8ab75 100644
--- a/include/embc/time.h
+++ b/include/embc/time.h
@@ -243,7 +243,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit signed fixed point time.
  */
-#define EMBC_COUNTER_TO_TIME(x, z) ((((int64_t) (x)) << EMBC_TIME_Q) / ((int64_t) (z)))
+#define EMBC_COUNTER_TO_TIME(x, z) ((((int64_t) (x)) * EMBC_TIME_SECOND) / ((int64_t) (z)))
 
 /**
  * @brief Convert to 64-bit signed fixed point time.
@@ -251,7 +251,7 @@ EMBC_CPP_GUARD_START
  * @param x he 32-bit unsigned time in seconds.
  * @return The 64-bit signed fixed point time.
  */
-#define EMBC_SECONDS_TO_TIME(x) (((int64_t) (x)) << EMBC_TIME_Q)
+#define EMBC_SECONDS_TO_TIME(x) (((int64_t) (x)) * EMBC_TIME_SECOND)
 
 /**
  * @brief Convert to 64-bit signed fixed point time.
-- 
2.43.0


From 6fd2cf494f649a8975b897595da8e16c8eba15b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 62/67] fix: framer: a late nack must not undo an earlier
 acknowledgement

---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index c1eea92..c1c6d81 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -668,7 +668,9 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         uint8_t frame_id = hdr_frame_id(&hdr);
         EMBC_LOGI("handle_ack nack, status=%d, frame_id=%d", (int) status, (int) frame_id);
         struct tx_buf_s * t = find_tx(self, frame_id);
-        if (t) {
+        if (t && (TX_STATUS_ACKED == t->status)) {
+            EMBC_LOGD("handle_ack nack: frame_id=%d already acked", (int) frame_id);
+        } else if (t) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
-- 
2.43.0


From 360376200e5a38618d5bbefb4f307cd7d49f16a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 63/67] fix: python buffer binding did not match the C
 structure and exported functions

---
 py/embc/memory/buffer.py | 51 +++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 668f8df..348f093 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -2,7 +2,7 @@
 
 import os
 import ctypes
-from ctypes import cdll, Structure, POINTER, pointer, cast, \
+from ctypes import cdll, Structure, POINTER, pointer, cast, CFUNCTYPE, \
     c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
@@ -10,15 +10,6 @@ from ..collections.list import embc_list_s
 
 
 class embc_buffer_s(Structure):
-    _fields_ = [
-        ('data', POINTER(c_uint8)),
-        ('capacity', c_uint16),
-        ('cursor', c_uint16),
-        ('length', c_uint16),
-        ('reserve', c_uint16),
-        ('buffer_id', c_uint16),
-        ('item', embc_list_s),
-    ]
 
     @property
     def write_remaining(self):
@@ -54,17 +45,39 @@ class embc_buffer_s(Structure):
         erase(self, start, end)
 
     def free(self):
-        free(self)
+        free(pointer(self))
+
+
+# void (*free)(struct embc_buffer_manager_s const * self, struct embc_buffer_s * buffer);
+FREE_FN = CFUNCTYPE(None, c_void_p, POINTER(embc_buffer_s))
+
+
+class embc_buffer_manager_s(Structure):
+    _fields_ = [
+        ('free', FREE_FN),
+    ]
+
 
+embc_buffer_s._fields_ = [
+    ('data', POINTER(c_uint8)),
+    ('capacity', c_uint16),
+    ('cursor', c_uint16),
+    ('length', c_uint16),
+    ('reserve', c_uint16),
+    ('buffer_id', c_uint16),
+    ('flags', c_uint16),
+    ('manager', POINTER(embc_buffer_manager_s)),
+    ('item', embc_list_s),
+]
 
 
-# struct embc_buffer_allocator_s * embc_buffer_initialize(embc_size_t const * sizes, embc_size_t length);
-initialize = _dll.embc_buffer_initialize
+# struct embc_buffer_allocator_s * embc_buffer_allocator_new(embc_size_t const * sizes, embc_size_t length);
+initialize = _dll.embc_buffer_allocator_new
 initialize.restype = c_void_p
 initialize.argtypes = [POINTER(c_size_t), c_size_t]
 
-# void embc_buffer_finalize(struct embc_buffer_allocator_s * self);
-finalize = _dll.embc_buffer_finalize
+# void embc_buffer_allocator_finalize(struct embc_buffer_allocator_s * self);
+finalize = _dll.embc_buffer_allocator_finalize
 finalize.restype = None
 finalize.argtypes = [c_void_p]
 
@@ -73,10 +86,10 @@ alloc = _dll.embc_buffer_alloc
 alloc.restype = POINTER(embc_buffer_s)
 alloc.argtypes = [c_void_p, c_size_t]
 
-# void embc_buffer_free(struct embc_buffer_s * buffer);
-free = _dll.embc_buffer_free
-free.restype = None
-free.argtypes = [POINTER(embc_buffer_s)]
+# static inline void embc_buffer_free(struct embc_buffer_s * buffer);
+def free(buffer):
+    manager = buffer[0].manager
+    manager[0].free(cast(manager, c_void_p), buffer)
 
 # void embc_buffer_write(struct embc_buffer_s * buffer,
 #                        void const * data,
-- 
2.43.0


From 5fb98081af067eed30b8207fc8a4d791331728bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 64/67] fix: python bindings declared wrong result and argument
 types

---
 py/embc/memory/buffer.py | 6 +++---
 py/embc/stream/framer.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 348f093..ec78abe 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -3,7 +3,7 @@
 import os
 import ctypes
 from ctypes import cdll, Structure, POINTER, pointer, cast, CFUNCTYPE, \
-    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
+    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p, c_bool
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
 from ..collections.list import embc_list_s
@@ -115,7 +115,7 @@ write_str.argtypes = [POINTER(embc_buffer_s), c_char_p]
 # bool embc_buffer_write_str_truncate(struct embc_buffer_s * buffer,
 #                                     char const * str);
 write_str_truncate = _dll.embc_buffer_write_str_truncate
-write_str_truncate.restype = None
+write_str_truncate.restype = c_bool
 write_str_truncate.argtypes = [POINTER(embc_buffer_s), c_char_p]
 
 # void embc_buffer_write_u8(struct embc_buffer_s * buffer, uint8_t value);
@@ -199,6 +199,6 @@ read_u64_be.argtypes = [POINTER(embc_buffer_s)]
 #                        embc_size_t start,
 #                        embc_size_t end);
 erase = _dll.embc_buffer_erase
-erase.restype = c_void_p
+erase.restype = None
 erase.argtypes = [POINTER(embc_buffer_s), c_size_t, c_size_t]
 
diff --git a/py/embc/stream/framer.py b/py/embc/stream/framer.py
index 1587805..7c58fdc 100644
--- a/py/embc/stream/framer.py
+++ b/py/embc/stream/framer.py
@@ -59,7 +59,7 @@ class embc_framer_port_callbacks_s(Structure):
     ]
 
 HAL_TX_FN = CFUNCTYPE(None, c_void_p, POINTER(embc_buffer_s))
-TIMER_DONE_FN = CFUNCTYPE(None, c_void_p, c_int32)
+TIMER_DONE_FN = CFUNCTYPE(None, c_void_p, c_uint32)
 HAL_TIME_GET_FN = CFUNCTYPE(c_int64, c_void_p)
 HAL_TIMER_SET_FN = CFUNCTYPE(c_int32, c_void_p, c_int64, TIMER_DONE_FN, c_void_p, POINTER(c_uint32))
 HAL_TIMER_CANCEL_FN = CFUNCTYPE(c_int32, c_void_p, c_uint32)
@@ -83,7 +83,7 @@ instance_size.argtypes = []
 #         struct embc_buffer_allocator_s * buffer_allocator,
 #         struct embc_framer_hal_callbacks_s * callbacks);
 initialize = _dll.embc_framer_initialize
-initialize.restype = c_void_p
+initialize.restype = None
 initialize.argtypes = [c_void_p, c_void_p, POINTER(embc_framer_hal_callbacks_s)]
 
 # void embc_framer_register_port_callbacks(
-- 
2.43.0


From b7e0eff98409e5290545dbb4132cdd81a9d8c166 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 65/67] fix: python list.new returned nothing

---
 py/embc/collections/list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/embc/collections/list.py b/py/embc/collections/list.py
index 6c72462..a25b577 100644
--- a/py/embc/collections/list.py
+++ b/py/embc/collections/list.py
@@ -20,3 +20,4 @@ def reset(i):
 def new():
     i = embc_list_s()
     reset(i)
+    return i
-- 
2.43.0


From ebf51a52a47b13c5274dbcc5d550ee951be95559 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 66/67] fix: framer - cancel the receive timeout once no frame
 is held back

The receive timeout stayed armed after the held frames were delivered or
discarded, so that a later frame could be released before its own timeout.
---
 src/stream/framer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index c1c6d81..a2badf3 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -346,6 +346,7 @@ static void rx_complete(struct embc_framer_s *self, struct embc_buffer_s * frame
 static void rx_complete_queued(struct embc_framer_s *self) {
     struct embc_list_s *item;
     struct embc_buffer_s *b;
+    self->rx_next_timeout = EMBC_TIME_MAX;  // nothing remains held back
     // rx_complete invokes user callbacks which may modify rx_pending
     while (0 != (item = embc_list_remove_head(&self->rx_pending))) {
         b = embc_list_entry(item, struct embc_buffer_s, item);
@@ -362,6 +363,7 @@ static void rx_timeout_set(struct embc_framer_s * self) {
 static void rx_complete_queued_or_set_timeout(struct embc_framer_s *self) {
     if ((self->rx_frame_bitmask & self->rx_frame_bitmask_outstanding) == self->rx_frame_bitmask_outstanding) {
         rx_complete_queued(self);
+        timer_schedule(self);
     } else if (!embc_list_is_empty(&self->rx_pending)) {
         rx_timeout_set(self);
         timer_schedule(self);
@@ -377,6 +379,7 @@ static void rx_purge_queued(struct embc_framer_s *self) {
         EMBC_LOGD2("rx_purge_queued %p", (void *) b);
         embc_buffer_free(b);
     }
+    self->rx_next_timeout = EMBC_TIME_MAX;
 }
 
 struct embc_buffer_s * embc_framer_construct_ack_from_header(
-- 
2.43.0


From 2b76f39d793fe9932aec39ab7b47feba69b49ca9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 67/67] fix: EMBC_INTMAP_DEFINE - take memory from the embc
 allocator

The generated functions used the system heap rather than the allocator
given to embc_allocator_set().
---
 include/embc/collections/intmap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index 9761bae..d5b7b4e 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -175,13 +175,13 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
 #define EMBC_INTMAP_DEFINE(name, type) \
     struct name##_iterator_s { struct embc_intmap_iterator_s * iter; }; \
     struct name##_s * name##_new() { \
-        struct name##_s * self = calloc(1, sizeof(struct name##_s)); \
+        struct name##_s * self = embc_alloc_clr(sizeof(struct name##_s)); \
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
     void name##_free(struct name##_s * self) { \
         embc_intmap_free(self->intmap); \
-        free(self); \
+        embc_free(self); \
     } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
@@ -194,7 +194,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         return embc_intmap_remove(self->intmap, key, (void **) old_value); \
     } \
     struct name##_iterator_s * name##_iterator_new(struct name##_s * self) { \
-        struct name##_iterator_s * iter = calloc(1, sizeof(struct name##_iterator_s)); \
+        struct name##_iterator_s * iter = embc_alloc_clr(sizeof(struct name##_iterator_s)); \
         iter->iter = embc_intmap_iterator_new(self->intmap); \
         return iter; \
     } \
@@ -203,7 +203,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
         embc_intmap_iterator_free(self->iter); \
-        free(self); \
+        embc_free(self); \
     }
 
 /** @} */
-- 
2.43.0

