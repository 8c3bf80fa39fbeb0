From f64f42d60ae4707830fb9931ed5dba10eec78711 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 01/64] fix: build with --enable-persistence when a system
 header already defines offsetof

---
 engines/default/cmdlogrec.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 94f8a65..ddfb5d6 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -16,6 +16,7 @@
  * limitations under the License.
  */
 
+#include <stddef.h>
 #include <string.h>
 #include <ctype.h>
 #include <assert.h>
@@ -31,11 +32,6 @@
 #define PERSISTENCE_MINOR_VERSION 0 /* backward compatibility */
 //#define DEBUG_PERSISTENCE_DISK_FORMAT_PRINT
 
-#ifdef offsetof
-#error "offsetof is already defined"
-#endif
-#define offsetof(type, member) __builtin_offsetof(type, member)
-
 #define EXPIRED_REL_EXPTIME(exptime) ((exptime) == 1)
 
 /* Get aligned size */
-- 
2.43.0


From 3c2d8891902161ebbee3cd1eb2a9cb021edc4b2f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 02/64] hook: let model-checking builds (ARCUS_MC_HOOKS) choose
 collection node fan-outs

---
 engines/default/item_base.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index 2ca8fad..89267da 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -230,7 +230,11 @@ typedef struct _list_meta_info {
 /* set meta info */
 #define SET_HASHTAB_SIZE 16
 #define SET_HASHIDX_MASK 0x0000000F
+#ifdef ARCUS_MC_HOOKS /* small fan-out chosen by the model-checking build */
+#define SET_MAX_HASHCHAIN_SIZE ARCUS_MC_HASHCHAIN_SIZE
+#else
 #define SET_MAX_HASHCHAIN_SIZE 64
+#endif
 
 typedef struct _set_hash_node {
     uint16_t refcount;
@@ -254,7 +258,11 @@ typedef struct _set_meta_info {
 /* map meta info */
 #define MAP_HASHTAB_SIZE 16
 #define MAP_HASHIDX_MASK 0x0000000F
+#ifdef ARCUS_MC_HOOKS /* small fan-out chosen by the model-checking build */
+#define MAP_MAX_HASHCHAIN_SIZE ARCUS_MC_HASHCHAIN_SIZE
+#else
 #define MAP_MAX_HASHCHAIN_SIZE 64
+#endif
 
 typedef struct _map_hash_node {
     uint16_t refcount;
@@ -278,7 +286,11 @@ typedef struct _map_meta_info {
 
 /* btree meta info */
 #define BTREE_MAX_DEPTH  7
+#ifdef ARCUS_MC_HOOKS /* small fan-out chosen by the model-checking build */
+#define BTREE_ITEM_COUNT ARCUS_MC_BTREE_ITEM_COUNT
+#else
 #define BTREE_ITEM_COUNT 32 /* Recommend BTREE_ITEM_COUNT >= 8 */
+#endif
 
 typedef struct _btree_leaf_node {
     uint16_t refcount;
-- 
2.43.0


From 7d09af3741bd2a7071ac18d30259712f62b1ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 03/64] fix: number parsing took blank strings and wrapped
 negatives, and searched for '-' beyond the number

---
 util.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/util.c b/util.c
index a93bde8..fd7b3aa 100644
--- a/util.c
+++ b/util.c
@@ -35,14 +35,12 @@ bool safe_strtoull(const char *str, uint64_t *out) {
     unsigned long long ull = strtoull(str, &endptr, 10);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
-        if ((long long) ull < 0) {
-            /* only check for negative signs in the uncommon case when
-             * the unsigned number is so big that it's negative as a
-             * signed number. */
-            if (strchr(str, '-') != NULL) {
-                return false;
-            }
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
+        /* strtoull() negates the number after a minus sign. Look for it
+         * only in the parsed part: the string may not be terminated.
+         */
+        if (memchr(str, '-', endptr - str) != NULL) {
+            return false;
         }
         *out = ull;
         return true;
@@ -58,7 +56,7 @@ bool safe_strtoll(const char *str, int64_t *out) {
     long long ll = strtoll(str, &endptr, 10);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = ll;
         return true;
     }
@@ -78,14 +76,12 @@ bool safe_strtoul(const char *str, uint32_t *out) {
         return false;
     }
 
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
-        if ((long) l < 0) {
-            /* only check for negative signs in the uncommon case when
-             * the unsigned number is so big that it's negative as a
-             * signed number. */
-            if (strchr(str, '-') != NULL) {
-                return false;
-            }
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
+        /* strtoul() negates the number after a minus sign. Look for it
+         * only in the parsed part: the string may not be terminated.
+         */
+        if (memchr(str, '-', endptr - str) != NULL) {
+            return false;
         }
         *out = l;
         return true;
@@ -102,7 +98,7 @@ bool safe_strtol(const char *str, int32_t *out) {
     long l = strtol(str, &endptr, 10);
     if (errno == ERANGE || l < INT32_MIN || l > INT32_MAX)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = l;
         return true;
     }
@@ -117,7 +113,7 @@ bool safe_strtof(const char *str, float *out) {
     float l = strtof(str, &endptr);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = l;
         return true;
     }
-- 
2.43.0


From 1ec14627df805e74f855b6bd0fe202674f4647d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 04/64] fix: release the item when incr/decr finds a collection

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 0ecb68b..0c39363 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -370,8 +370,8 @@ ENGINE_ERROR_CODE item_arithmetic(const void *key, const uint32_t nkey,
             ret = ENGINE_EBADTYPE;
         } else {
             ret = do_add_delta(it, increment, delta, cas, result, cookie);
-            do_item_release(it);
         }
+        do_item_release(it);
     } else {
         if (create) {
             char buffer[128];
-- 
2.43.0


From adf35da5153bbd731fdfdd296cb8f0cbb404a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 05/64] fix: incr/decr of a blank value took it as zero or read
 beyond the value

---
 engines/default/coll_btree.c | 12 +++++++++++-
 engines/default/items.c      |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 61b5890..295180d 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -23,6 +23,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <time.h>
+#include <ctype.h>
 #include <assert.h>
 #include <sched.h>
 #include <inttypes.h>
@@ -2636,8 +2637,17 @@ static ENGINE_ERROR_CODE do_btree_elem_arithmetic(btree_meta_info *info,
         }
         *result = initial;
     } else {
+        const char *ptr;
+        const char *end;
+
+        /* The value ends with "\r\n", which number parsing takes as blanks.
+         * Skip blanks here so that it never runs over the end of the value.
+         */
         real_nbkey = BTREE_REAL_NBKEY(elem->nbkey);
-        if (! safe_strtoull((const char*)elem->data + real_nbkey + elem->neflag, &value) || elem->nbytes == 2) {
+        ptr = (const char*)elem->data + real_nbkey + elem->neflag;
+        end = ptr + elem->nbytes - 2;
+        while (ptr < end && isspace((unsigned char)*ptr)) ptr++;
+        if (ptr >= end || ! safe_strtoull(ptr, &value)) {
             return ENGINE_EINVAL;
         }
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 0c39363..59d94eb 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -23,6 +23,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <time.h>
+#include <ctype.h>
 #include <assert.h>
 #include <sched.h>
 #include <inttypes.h>
@@ -238,11 +239,17 @@ static ENGINE_ERROR_CODE do_add_delta(hash_item *it, const bool incr, const int6
                                       uint64_t *rcas, uint64_t *result, const void *cookie)
 {
     const char *ptr;
+    const char *end;
     uint64_t value;
     int res;
 
+    /* The value ends with "\r\n", which number parsing takes as blanks.
+     * Skip blanks here so that it never runs over the end of the value.
+     */
     ptr = item_get_data(it);
-    if (!safe_strtoull(ptr, &value)) {
+    end = ptr + it->nbytes - 2;
+    while (ptr < end && isspace((unsigned char)*ptr)) ptr++;
+    if (ptr >= end || !safe_strtoull(ptr, &value)) {
         return ENGINE_EINVAL;
     }
 
-- 
2.43.0


From a58ae05dfd7e50d8fed73cd737927119232ba4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 06/64] fix: a delayed flush made items of an earlier flush
 visible again

---
 engines/default/default_engine.c |  1 +
 engines/default/default_engine.h |  1 +
 engines/default/item_base.c      |  3 +++
 engines/default/items.c          | 15 +++++++++++++++
 engines/default/prefix.c         |  2 ++
 engines/default/prefix.h         |  1 +
 6 files changed, 23 insertions(+)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index f215324..7502fce 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -2062,6 +2062,7 @@ create_instance(uint64_t interface, GET_SERVER_API get_server_api,
       .config = {
          .verbose = 0,
          .oldest_live = 0,
+         .flushed_live = 0,
          .use_cas = true,
          .evict_to_free = true,
          .prefix_delimiter = ':',
diff --git a/engines/default/default_engine.h b/engines/default/default_engine.h
index 48c4be3..119327a 100644
--- a/engines/default/default_engine.h
+++ b/engines/default/default_engine.h
@@ -50,6 +50,7 @@ struct default_engine;
 struct engine_config {
    size_t     verbose;
    rel_time_t oldest_live;
+   rel_time_t flushed_live; /* of an earlier flush already in effect */
    bool       use_cas;
    bool       evict_to_free;
    char       prefix_delimiter;
diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 550bd02..19459d8 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -569,6 +569,9 @@ bool do_item_isvalid(hash_item *it, rel_time_t current_time)
         config->oldest_live <= current_time && it->time <= config->oldest_live) {
         return false; /* flushed by flush_all */
     }
+    if (config->flushed_live != 0 && it->time <= config->flushed_live) {
+        return false; /* flushed by an earlier flush_all */
+    }
     /* check if its prefix is invalid */
     if (prefix_isvalid(it, current_time) == false) {
         return false;
diff --git a/engines/default/items.c b/engines/default/items.c
index 59d94eb..dc7bc1a 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -440,6 +440,17 @@ ENGINE_ERROR_CODE item_delete(const void *key, const uint32_t nkey, uint64_t cas
 #define FLUSH_PREFIX_LOG_INTERVAL   600 /* 600 sec */
 #define FLUSH_PREFIX_LOG_MAXCOUNT   10
 
+/*
+ * A delayed flush must not make the items of an earlier flush valid again
+ * that are not yet unlinked. Keep the time of the one already in effect.
+ */
+static void do_item_keep_flushed_live(rel_time_t oldest_live, rel_time_t *flushed_live)
+{
+    if (oldest_live != 0 && oldest_live <= svcore->get_current_time()) {
+        *flushed_live = oldest_live;
+    }
+}
+
 static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int nprefix,
                                                rel_time_t when, const void *cookie)
 {
@@ -459,7 +470,9 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
 
         if (when == 0) {
             pt->oldest_live = svcore->get_current_time() - 1;
+            pt->flushed_live = 0;
         } else {
+            do_item_keep_flushed_live(pt->oldest_live, &pt->flushed_live);
             pt->oldest_live = when - 1;
         }
         oldest_live = pt->oldest_live;
@@ -486,7 +499,9 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
     } else { /* flush all */
         if (when == 0) {
             config->oldest_live = svcore->get_current_time() - 1;
+            config->flushed_live = 0;
         } else {
+            do_item_keep_flushed_live(config->oldest_live, &config->flushed_live);
             config->oldest_live = when - 1;
         }
         oldest_live = config->oldest_live;
diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index 7cdb66d..8f07456 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -507,6 +507,8 @@ bool prefix_isvalid(hash_item *it, rel_time_t current_time)
             pt->oldest_live <= current_time &&
             it->time <= pt->oldest_live)
             return false;
+        if (pt->flushed_live != 0 && it->time <= pt->flushed_live)
+            return false;
         /* traverse parent prefixes to validate them */
         pt = pt->parent_prefix;
     } while(pt != NULL && pt != null_pt);
diff --git a/engines/default/prefix.h b/engines/default/prefix.h
index b346e9f..c277226 100644
--- a/engines/default/prefix.h
+++ b/engines/default/prefix.h
@@ -33,6 +33,7 @@ typedef struct _prefix_t {
 #endif
 
     rel_time_t oldest_live;
+    rel_time_t flushed_live; /* of an earlier flush already in effect */
     time_t     create_time;
 
     struct _prefix_t *h_next;  /* prefix hash chain */
-- 
2.43.0


From 5d20d08f9edf20eb1f49dc7d64a87a989395b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 07/64] fix: sticky statistics when a set replaces a sticky
 item by a normal one or the reverse

---
 engines/default/item_base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 19459d8..36473fa 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -243,8 +243,13 @@ static inline void do_item_stat_replace(hash_item *old_it, hash_item *new_it)
     }
     /* update item stats imformation */
 #ifdef ENABLE_STICKY_ITEM
+    if (IS_STICKY_EXPTIME(old_it->exptime)) {
+        statsp->sticky_bytes -= old_stotal;
+        statsp->sticky_items -= 1;
+    }
     if (IS_STICKY_EXPTIME(new_it->exptime)) {
-        statsp->sticky_bytes += new_stotal - old_stotal;
+        statsp->sticky_bytes += new_stotal;
+        statsp->sticky_items += 1;
     }
 #endif
     statsp->curr_bytes += new_stotal - old_stotal;
-- 
2.43.0


From 0a1f0453aa5c692028293f546602ab5141948ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 08/64] fix: mop get with repeated field names wrote beyond the
 result array

---
 engines/default/coll_map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 91ab5eb..53b5be6 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -887,9 +887,9 @@ ENGINE_ERROR_CODE map_elem_get(const char *key, const uint32_t nkey,
             if (info->ccnt <= 0) {
                 ret = ENGINE_ELEM_ENOENT; break;
             }
-            if (numfields == 0 || info->ccnt < numfields) {
+            if (numfields == 0) {
                 eresult->elem_array = (eitem **)malloc(info->ccnt * sizeof(eitem*));
-            } else {
+            } else { /* the same field can be given more than once */
                 eresult->elem_array = (eitem **)malloc(numfields * sizeof(eitem*));
             }
             if (eresult->elem_array == NULL) {
-- 
2.43.0


From 7fbbcff54e71a77030689bf9ff0f4b37d3ac2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 09/64] fix: refuse attributes the item type does not have in
 getattr and setattr

---
 engines/default/coll_list.c |  5 ++++-
 engines/default/coll_map.c  |  5 ++++-
 engines/default/coll_set.c  |  5 ++++-
 engines/default/items.c     | 10 +++++++++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/engines/default/coll_list.c b/engines/default/coll_list.c
index 96227df..4680be5 100644
--- a/engines/default/coll_list.c
+++ b/engines/default/coll_list.c
@@ -616,7 +616,8 @@ ENGINE_ERROR_CODE list_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_MINBKEY ||
+            attr_ids[i] == ATTR_MAXBKEY || attr_ids[i] == ATTR_TRIMMED) {
             return ENGINE_EBADATTR;
         }
     }
@@ -651,6 +652,8 @@ ENGINE_ERROR_CODE list_coll_setattr(hash_item *it, item_attr *attrp,
             if (attrp->readable != 1) {
                 return ENGINE_EBADVALUE;
             }
+        } else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
+            return ENGINE_EBADATTR;
         }
     }
 
diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 53b5be6..d437052 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -1010,7 +1010,8 @@ ENGINE_ERROR_CODE map_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_MINBKEY ||
+            attr_ids[i] == ATTR_MAXBKEY || attr_ids[i] == ATTR_TRIMMED) {
             return ENGINE_EBADATTR;
         }
     }
@@ -1043,6 +1044,8 @@ ENGINE_ERROR_CODE map_coll_setattr(hash_item *it, item_attr *attrp,
             if (attrp->readable != 1) {
                 return ENGINE_EBADVALUE;
             }
+        } else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
+            return ENGINE_EBADATTR;
         }
     }
 
diff --git a/engines/default/coll_set.c b/engines/default/coll_set.c
index bf4e732..0a49d42 100644
--- a/engines/default/coll_set.c
+++ b/engines/default/coll_set.c
@@ -1035,7 +1035,8 @@ ENGINE_ERROR_CODE set_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_MINBKEY ||
+            attr_ids[i] == ATTR_MAXBKEY || attr_ids[i] == ATTR_TRIMMED) {
             return ENGINE_EBADATTR;
         }
     }
@@ -1068,6 +1069,8 @@ ENGINE_ERROR_CODE set_coll_setattr(hash_item *it, item_attr *attrp,
             if (attrp->readable != 1) {
                 return ENGINE_EBADVALUE;
             }
+        } else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
+            return ENGINE_EBADATTR;
         }
     }
 
diff --git a/engines/default/items.c b/engines/default/items.c
index dc7bc1a..338720a 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -786,7 +786,8 @@ do_item_getattr(hash_item *it, ENGINE_ITEM_ATTR *attr_ids, const uint32_t attr_c
         for (int i = 0; i < attr_count; i++) {
             if (attr_ids[i] == ATTR_COUNT      || attr_ids[i] == ATTR_MAXCOUNT ||
                 attr_ids[i] == ATTR_OVFLACTION || attr_ids[i] == ATTR_READABLE ||
-                attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+                attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_MINBKEY ||
+                attr_ids[i] == ATTR_MAXBKEY || attr_ids[i] == ATTR_TRIMMED) {
                 return ENGINE_EBADATTR;
             }
         }
@@ -855,6 +856,13 @@ do_item_setattr(hash_item *it, ENGINE_ITEM_ATTR *attr_ids, const uint32_t attr_c
         if (ret != ENGINE_SUCCESS) {
             return ret;
         }
+    } else {
+        /* attribute validation check */
+        for (int i = 0; i < attr_count; i++) {
+            if (attr_ids[i] != ATTR_EXPIRETIME) {
+                return ENGINE_EBADATTR;
+            }
+        }
     }
 
     /* set the expiretime */
-- 
2.43.0


From 5c2c6e627e2bd866ecc880f440abe86b3fcac2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 10/64] fix: bop mget freed uninitialised pointers when the
 connection closed before its keys arrived

---
 memcached.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memcached.c b/memcached.c
index a2cbf79..8acc736 100644
--- a/memcached.c
+++ b/memcached.c
@@ -11893,6 +11893,12 @@ static void process_bop_prepare_nread_keys(conn *c, int cmd, uint32_t vlen, uint
         }
     }
     if (ret == ENGINE_SUCCESS) {
+#ifdef SUPPORT_BOP_MGET
+        if (cmd == OPERATION_BOP_MGET) {
+            /* the connection might be closed before the keys are read */
+            memset((void*)elem, 0, c->coll_numkeys * sizeof(struct elems_result));
+        }
+#endif
         c->coll_strkeys = (void*)&c->memblist;
         ritem_set_first(c, CONN_RTYPE_MBLCK, vlen);
         c->coll_eitem  = (void *)elem;
-- 
2.43.0


From effc459399fb68f030a7b43873074f2b71cfad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 11/64] fix: decrement curr_conns when a new connection cannot
 be set up

---
 thread.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thread.c b/thread.c
index 7478341..06c61e6 100644
--- a/thread.c
+++ b/thread.c
@@ -354,7 +354,7 @@ static void thread_libevent_process(int fd, short which, void *arg)
                     mc_logger->log(EXTENSION_LOG_INFO, NULL,
                             "Can't listen for events on fd %d\n", item->sfd);
                 }
-                close(item->sfd);
+                safe_close(item->sfd);
             }
         } else {
             assert(c->thread == NULL);
@@ -609,7 +609,7 @@ void dispatch_conn_new(int sfd, STATE_FUNC init_state, int event_flags,
 {
     CQ_ITEM *item = cqi_new();
     if (item == NULL) {
-        close(sfd);
+        safe_close(sfd);
         mc_logger->log(EXTENSION_LOG_WARNING, NULL,
                        "Failed to allocate memory for connection object.\n");
         return;
-- 
2.43.0


From 99378960bd613b9f95e89cb857725d2bef430063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 12/64] fix: bop smget accepted offset+count overflowing 32
 bits and overran its buffers

---
 memcached.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index 8acc736..046970e 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6199,7 +6199,8 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
             int kmis_rshdr_size; /* the size of result header about the missed keys */
 
             if (req->message.body.key_count > MAX_SMGET_KEY_COUNT ||
-                (req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
+                req->message.body.req_offset > MAX_SMGET_REQ_COUNT ||
+                req->message.body.req_count > (MAX_SMGET_REQ_COUNT - req->message.body.req_offset)) {
                 ret = ENGINE_EBADVALUE; break;
             }
             smget_count = req->message.body.req_offset + req->message.body.req_count;
@@ -6218,7 +6219,8 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
             int emis_rshdr_size; /* the size of result header about the missed keys */
 
             if (req->message.body.key_count > MAX_SMGET_KEY_COUNT ||
-                (req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
+                req->message.body.req_offset > MAX_SMGET_REQ_COUNT ||
+                req->message.body.req_count > (MAX_SMGET_REQ_COUNT - req->message.body.req_offset)) {
                 ret = ENGINE_EBADVALUE; break;
             }
             elem_array_size = (req->message.body.req_count + req->message.body.key_count) * sizeof(eitem*);
@@ -13095,7 +13097,8 @@ static void process_bop_command(conn *c, token_t *tokens, const size_t ntokens)
 #endif
 #ifdef SUPPORT_BOP_SMGET
         if (subcommid == OPERATION_BOP_SMGET) {
-            if (numkeys > MAX_SMGET_KEY_COUNT || (offset+count) > MAX_SMGET_REQ_COUNT) {
+            if (numkeys > MAX_SMGET_KEY_COUNT ||
+                offset > MAX_SMGET_REQ_COUNT || count > (MAX_SMGET_REQ_COUNT - offset)) {
                 /* ENGINE_EBADVALUE */
                 out_string(c, "CLIENT_ERROR bad value");
                 c->sbytes = lenkeys;
-- 
2.43.0


From 622cf8415c1459332cc78f11265c2a801d1b03ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 13/64] fix: bop gbp with a position above INT32_MAX failed an
 assertion

---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index 046970e..354fa57 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12137,6 +12137,9 @@ static inline int get_position_range_from_str(const char *str, uint32_t *from_po
             return -1;
         *to_posi = *from_posi;
     }
+    /* The engine takes positions as int and no btree is that large. */
+    if (*from_posi > INT32_MAX) *from_posi = INT32_MAX;
+    if (*to_posi   > INT32_MAX) *to_posi   = INT32_MAX;
     return 0;
 }
 
-- 
2.43.0


From d34ff7b101665e80839bdc46f62c146515b5f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 14/64] fix: an eflag filter of more than 100 compare values
 was written past its array

---
 memcached.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index 354fa57..85b9533 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12213,10 +12213,11 @@ static inline int get_efilter_from_tokens(token_t *tokens, const int ntokens, ef
             efilter->compvcnt = 0;
             ptr = strtok_r(tokens[token_count+1].value, ",", &saveptr);
             while (ptr != NULL) {
-                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
-                if (++efilter->compvcnt > MAX_EFLAG_COMPARE_COUNT) {
+                if (efilter->compvcnt >= MAX_EFLAG_COMPARE_COUNT) {
                     return -1;
                 }
+                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
+                efilter->compvcnt += 1;
                 if (efilter->compvcnt == 1) {
                     if (length < 0 || (offset+length) > MAX_EFLAG_LENG)
                         return -1;
-- 
2.43.0


From 90dd499ca2b14abd28245d4a7fd02b54eacaf991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 15/64] fix: leading blanks filling the read buffer were
 scanned past its end

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 85b9533..c39e914 100644
--- a/memcached.c
+++ b/memcached.c
@@ -13798,7 +13798,7 @@ static int try_read_command_ascii(conn *c)
              * large multiget, if not we should just nuke the connection.
              */
             char *ptr = c->rcurr;
-            while (*ptr == ' ') { /* ignore leading whitespaces */
+            while (ptr < c->rcurr + c->rbytes && *ptr == ' ') { /* ignore leading whitespaces */
                 ++ptr;
             }
             if (ptr - c->rcurr > 100) {
-- 
2.43.0


From 5806b6953157d4341c39212db877171c3948c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 16/64] fix: do not copy a long key into the write buffer on a
 binary GETK miss

---
 memcached.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index c39e914..c5cb42b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4001,11 +4001,10 @@ static void process_bin_get(conn *c)
             conn_set_state(c, conn_new_cmd);
         } else {
             if (c->cmd == PROTOCOL_BINARY_CMD_GETK) {
-                char *ofs = c->wbuf + sizeof(protocol_binary_response_header);
+                /* the key might be longer than the write buffer */
                 add_bin_header(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT,
                         0, nkey, nkey);
-                memcpy(ofs, key, nkey);
-                add_iov(c, ofs, nkey);
+                add_iov(c, key, nkey);
                 conn_set_state(c, conn_mwrite);
             } else {
                 write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
-- 
2.43.0


From ac5f59669cd6a5ac5a16307d87a5db793f69e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 17/64] fix: refuse binary bop inserts with an impossible bkey
 or eflag length

---
 memcached.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memcached.c b/memcached.c
index c5cb42b..b378e58 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5494,6 +5494,12 @@ static void process_bin_bop_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_insert* req = binary_get_request(c);
+    if (req->message.body.nbkey > MAX_BKEY_LENG ||
+        req->message.body.neflag > MAX_EFLAG_LENG) {
+        STATS_CMD_NOKEY(c, bop_insert);
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EBADVALUE, vlen);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
-- 
2.43.0


From f93ab08f8b37d49660acac19719ba158ce84bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 18/64] fix: refuse binary bop updates with impossible lengths
 or an unannounced value

---
 memcached.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index b378e58..90ddbc7 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5729,6 +5729,18 @@ static void process_bin_bop_update_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_update* req = binary_get_request(c);
+    if (req->message.body.nbkey > MAX_BKEY_LENG ||
+        (req->message.body.neflag > MAX_EFLAG_LENG &&
+         req->message.body.neflag != EFLAG_NULL)) {
+        STATS_CMD_NOKEY(c, bop_update);
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EBADVALUE, vlen);
+        return;
+    }
+    if (req->message.body.novalue && vlen > 0) {
+        STATS_CMD_NOKEY(c, bop_update);
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EINVAL, vlen);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -5747,7 +5759,7 @@ static void process_bin_bop_update_prepare_nread(conn *c)
     c->coll_eupdate.offset = req->message.body.offset;
     c->coll_eupdate.bitwop = req->message.body.bitwop;
     c->coll_eupdate.neflag = req->message.body.neflag;
-    if (req->message.body.neflag > 0) {
+    if (req->message.body.neflag > 0 && req->message.body.neflag != EFLAG_NULL) {
         memcpy(c->coll_eupdate.eflag, req->message.body.eflag, req->message.body.neflag);
     }
 
-- 
2.43.0


From b6e62496563a7f3dbd8f1ca1aad0afc99ba6bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 19/64] fix: refuse a binary setattr with an impossible
 maxbkeyrange length

---
 memcached.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/memcached.c b/memcached.c
index 90ddbc7..9dd6e63 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6782,6 +6782,13 @@ static void process_bin_setattr(conn *c)
     /* fix byteorder in the request */
     protocol_binary_request_setattr* req = binary_get_request(c);
 
+    if (req->message.body.maxbkeyrange.len > MAX_BKEY_LENG &&
+        req->message.body.maxbkeyrange.len != BKEY_NULL) {
+        STATS_CMD_NOKEY(c, setattr);
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EBADVALUE, 0);
+        return;
+    }
+
     if (req->message.body.expiretime_f != 0) {
         attr_ids[attr_count++] = ATTR_EXPIRETIME;
         req->message.body.expiretime = ntohl(req->message.body.expiretime);
-- 
2.43.0


From 2f04857d6bbc036e1a3e786a15a4bcc3b1966197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 20/64] fix: treat a packet with an unknown opcode and a huge
 body as a protocol error

---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index 9dd6e63..f4a37e6 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7290,6 +7290,9 @@ static void dispatch_bin_command(conn *c)
     default:
         if (mc_engine.v1->unknown_command == NULL) {
             write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_UNKNOWN_COMMAND, bodylen);
+        } else if (bodylen > settings.item_size_max) {
+            /* The whole packet has to be read into the read buffer. */
+            protocol_error = 1;
         } else {
             bin_read_chunk(c, bin_reading_packet, c->binary_header.request.bodylen);
         }
-- 
2.43.0


From fa3b6bdb5a117a77b8540a7143ae120f8521ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 21/64] fix: a binary collection insert with create uses the
 default overflow action

---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index f4a37e6..26993c8 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4674,6 +4674,7 @@ static void process_bin_lop_prepare_nread(conn *c)
             c->coll_attrp->flags    = req->message.body.flags;
             c->coll_attrp->exptime  = realtime(req->message.body.exptime);
             c->coll_attrp->maxcount = req->message.body.maxcount;
+            c->coll_attrp->ovflaction = 0; /* default of the type */
             c->coll_attrp->readable = 1;
         } else {
             c->coll_attrp = NULL;
@@ -5077,6 +5078,7 @@ static void process_bin_sop_prepare_nread(conn *c)
                 c->coll_attrp->flags    = req->message.body.flags;
                 c->coll_attrp->exptime  = realtime(req->message.body.exptime);
                 c->coll_attrp->maxcount = req->message.body.maxcount;
+                c->coll_attrp->ovflaction = 0; /* default of the type */
                 c->coll_attrp->readable = 1;
             } else {
                 c->coll_attrp = NULL;
@@ -5557,6 +5559,7 @@ static void process_bin_bop_prepare_nread(conn *c)
             c->coll_attrp->flags    = req->message.body.flags;
             c->coll_attrp->exptime  = realtime(req->message.body.exptime);
             c->coll_attrp->maxcount = req->message.body.maxcount;
+            c->coll_attrp->ovflaction = 0; /* default of the type */
             c->coll_attrp->readable = 1;
         } else {
             c->coll_attrp = NULL;
-- 
2.43.0


From 0d715e1d0f0e58cbc6d6091627c6338ab70d8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 22/64] fix: binary getattr answers maps fully and leaks no
 stale buffer bytes

---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 26993c8..87fd8d5 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6731,11 +6731,12 @@ static void process_bin_getattr(conn *c)
         STATS_HITS(c, getattr, key, nkey);
 
         protocol_binary_response_getattr* rsp = (protocol_binary_response_getattr*)c->wbuf;
+        memset(&rsp->message.body, 0, sizeof(rsp->message.body));
         rsp->message.body.flags      = attr_data.flags;
         rsp->message.body.expiretime = htonl(lefttime(attr_data.exptime));
         rsp->message.body.type       = attr_data.type;
         if (attr_data.type == ITEM_TYPE_LIST || attr_data.type == ITEM_TYPE_SET ||
-            attr_data.type == ITEM_TYPE_BTREE) {
+            attr_data.type == ITEM_TYPE_MAP || attr_data.type == ITEM_TYPE_BTREE) {
             rsp->message.body.count      = htonl(attr_data.count);
             rsp->message.body.maxcount   = htonl(attr_data.maxcount);
             rsp->message.body.ovflaction = attr_data.ovflaction;
-- 
2.43.0


From c4036c2a4922a2c60c6dde9f18581e9228f1a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 23/64] fix: binary flush prefix accepts correctly framed
 requests

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 87fd8d5..dd49c62 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7067,7 +7067,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_FLUSH_PREFIX:
-        if (keylen > 0 && bodylen == extlen && (extlen == 0 || extlen == 4)) {
+        if (keylen > 0 && bodylen == (keylen + extlen) && (extlen == 0 || extlen == 4)) {
             bin_read_key(c, bin_read_flush_prefix_exptime, extlen);
         } else {
             protocol_error = 1;
-- 
2.43.0


From 74b766cb9f056fd1ddae20664affa7d03bda0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 24/64] fix: binary b+tree update without value is accepted

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index dd49c62..f99ef69 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7233,7 +7233,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_BOP_UPDATE:
-        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen > (keylen + extlen)) {
+        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen >= (keylen + extlen)) {
             bin_read_key(c, bin_reading_bop_update_prepare_nread, (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8));
         } else {
             protocol_error = 1;
-- 
2.43.0


From dc72ce3431ad6e476e3aaa41da6ed2280e90f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 25/64] fix: a binary stat request with a value is a protocol
 error

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index f99ef69..726a4b4 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7123,7 +7123,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_STAT:
-        if (extlen == 0) {
+        if (extlen == 0 && bodylen == keylen) {
             bin_read_key(c, bin_reading_stat, 0);
         } else {
             protocol_error = 1;
-- 
2.43.0


From deb06a8846bab48a0458b6d530940bd4b4ab6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 26/64] fix: a binary stat key is not compared with bytes
 beyond its end

---
 memcached.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/memcached.c b/memcached.c
index 726a4b4..5d76ce0 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4135,19 +4135,19 @@ static void process_bin_stat(conn *c)
         if (ret == ENGINE_SUCCESS) {
             server_stats(&append_bin_stats, c, false);
         }
-    } else if (strncmp(subcommand, "reset", 5) == 0) {
+    } else if (nkey >= 5 && strncmp(subcommand, "reset", 5) == 0) {
         stats_reset(c);
         mc_engine.v1->reset_stats(mc_engine.v0, c);
-    } else if (strncmp(subcommand, "settings", 8) == 0) {
+    } else if (nkey >= 8 && strncmp(subcommand, "settings", 8) == 0) {
         process_stats_settings(&append_bin_stats, c);
 #ifdef ENABLE_ZK_INTEGRATION
-    } else if (strncmp(subcommand, "zookeeper", 9) == 0) {
+    } else if (nkey >= 9 && strncmp(subcommand, "zookeeper", 9) == 0) {
         process_stats_zookeeper(&append_bin_stats, c);
 #endif
-    } else if (strncmp(subcommand, "detail", 6) == 0) {
+    } else if (nkey >= 6 && strncmp(subcommand, "detail", 6) == 0) {
         char *subcmd_pos = subcommand + 6;
         if (settings.allow_detailed) {
-            if (strncmp(subcmd_pos, " dump", 5) == 0) {
+            if (nkey >= 11 && strncmp(subcmd_pos, " dump", 5) == 0) {
                 int len;
                 char *dump_buf = stats_prefix_dump(NULL, 0, &len);
                 if (dump_buf == NULL) {
@@ -4156,9 +4156,9 @@ static void process_bin_stat(conn *c)
                 }
                 append_bin_stats("detailed", strlen("detailed"), dump_buf, len, c);
                 free(dump_buf);
-            } else if (strncmp(subcmd_pos, " on", 3) == 0) {
+            } else if (nkey >= 9 && strncmp(subcmd_pos, " on", 3) == 0) {
                 settings.detail_enabled = 1;
-            } else if (strncmp(subcmd_pos, " off", 4) == 0) {
+            } else if (nkey >= 10 && strncmp(subcmd_pos, " off", 4) == 0) {
                 settings.detail_enabled = 0;
             } else {
                 write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
@@ -4168,9 +4168,9 @@ static void process_bin_stat(conn *c)
             write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_ENOMEM, 0);
             return;
         }
-    } else if (strncmp(subcommand, "aggregate", 9) == 0) {
+    } else if (nkey >= 9 && strncmp(subcommand, "aggregate", 9) == 0) {
         server_stats(&append_bin_stats, c, true);
-    } else if (strncmp(subcommand, "topkeys", 7) == 0) {
+    } else if (nkey >= 7 && strncmp(subcommand, "topkeys", 7) == 0) {
         if (default_topkeys) {
             topkeys_stats(default_topkeys, c, get_current_time(), append_bin_stats);
         } else {
-- 
2.43.0


From 4cea0b116d89a4f24bdbbb33f529f130ffd2c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 27/64] fix: mop delete with noreply or after a pipe error
 swallows its whole field block

---
 memcached.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index 5d76ce0..4ea0e26 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12542,7 +12542,11 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
                 numfields > ((lenfields/2) + 1)) {
                 out_string(c, "CLIENT_ERROR bad value");
                 c->sbytes = lenfields + 2;
-                c->write_and_go = conn_swallow;
+                if (c->state == conn_write) {
+                    c->write_and_go = conn_swallow;
+                } else { /* conn_new_cmd (by noreply) */
+                    conn_set_state(c, conn_swallow);
+                }
                 return;
             }
         }
@@ -12575,7 +12579,7 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
             }
         } else { /* pipe error */
             if (lenfields > 0) {
-                c->sbytes = lenfields;
+                c->sbytes = lenfields + 2;
                 conn_set_state(c, conn_swallow);
             } else {
                 conn_set_state(c, conn_new_cmd);
-- 
2.43.0


From a2c5fea1d9de88f2bfda76bbb4f80c9790e0f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 28/64] hook: model-checking builds (ARCUS_MC_HOOKS) use small
 hash tables and scan steps

---
 engines/default/assoc.c          | 13 +++++++++++++
 engines/default/chkpt_snapshot.c |  4 ++++
 engines/default/item_base.h      |  6 ++++++
 engines/default/items.c          |  4 ++++
 engines/default/prefix.c         |  4 ++++
 5 files changed, 31 insertions(+)

diff --git a/engines/default/assoc.c b/engines/default/assoc.c
index 5f68213..00b5b3f 100644
--- a/engines/default/assoc.c
+++ b/engines/default/assoc.c
@@ -30,6 +30,11 @@
 #define hashsize(n) ((uint32_t)1<<(n))
 #define hashmask(n) (hashsize(n)-1)
 
+#ifdef ARCUS_MC_HOOKS /* model checking builds use tiny tables so that they grow often */
+#define ASSOC_INIT_HASHPOWER 1
+#define ASSOC_INIT_ROOTTABSZ 2
+#endif
+
 #define GET_HASH_BUCKET(hash, mask)        ((hash) & (mask))
 #define GET_HASH_TABIDX(hash, shift, mask) (((hash) >> (shift)) & (mask))
 
@@ -65,13 +70,21 @@ ENGINE_ERROR_CODE assoc_init(struct default_engine *engine)
     assocp = &engine->assoc;
     logger = engine->server.log->get_logger();
 
+#ifdef ASSOC_INIT_HASHPOWER
+    assocp->hashpower = ASSOC_INIT_HASHPOWER;
+#else
     assocp->hashpower = 16; /* (1<<16) => 64K hash size */
+#endif
     assocp->hashsize = hashsize(assocp->hashpower);
     assocp->hashmask = hashmask(assocp->hashpower);
     assocp->rootpower = 0; /* (1<<0) => 1 hash table */
     assocp->rootsize = hashsize(assocp->rootpower);
     assocp->rootmask = hashmask(assocp->rootpower);
+#ifdef ASSOC_INIT_ROOTTABSZ
+    assocp->roottabsz = ASSOC_INIT_ROOTTABSZ;
+#else
     assocp->roottabsz = 512;
+#endif
     /* expansion status */
     assocp->expanding = false;
 
diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 9c44827..1366a93 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -26,7 +26,11 @@
 #include "cmdlogmgr.h"
 
 #define SNAPSHOT_BUFFER_SIZE (10 * 1024 * 1024)
+#ifdef ARCUS_MC_HOOKS /* model checking builds scan in small steps */
+#define SCAN_ITEM_ARRAY_SIZE 2
+#else
 #define SCAN_ITEM_ARRAY_SIZE 16
+#endif
 //#define SCAN_ITEM_ARRAY_SIZE 64
 
 /* snapshot file structure */
diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index 89267da..a27999b 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -42,9 +42,15 @@
 #define DEFAULT_MAX_ELEMENT_BYTES (16*1024)
 
 /* item scrub count */
+#ifdef ARCUS_MC_HOOKS /* model checking builds scan in small steps */
+#define MINIMUM_SCRUB_COUNT 1
+#define MAXIMUM_SCRUB_COUNT 320
+#define DEFAULT_SCRUB_COUNT 2
+#else
 #define MINIMUM_SCRUB_COUNT 16
 #define MAXIMUM_SCRUB_COUNT 320
 #define DEFAULT_SCRUB_COUNT 96
+#endif
 
 /* update type */
 enum upd_type {
diff --git a/engines/default/items.c b/engines/default/items.c
index 338720a..a139a66 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1441,7 +1441,11 @@ static int item_dump_write_key(char *buffer, hash_item *it, rel_time_t mc_curtim
 
 /* dump constants */
 #define DUMP_BUFFER_SIZE (64 * 1024)
+#ifdef ARCUS_MC_HOOKS /* model checking builds scan in small steps */
+#define SCAN_ITEM_ARRAY_SIZE 3
+#else
 #define SCAN_ITEM_ARRAY_SIZE 64
+#endif
 
 /* dump space & write functions */
 typedef int (*DUMP_SPACE_FUNC)(hash_item *it);
diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index 8f07456..b024098 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -30,7 +30,11 @@
 #define hashsize(n) ((uint32_t)1<<(n))
 #define hashmask(n) (hashsize(n)-1)
 
+#ifdef ARCUS_MC_HOOKS /* model checking builds use a tiny table so that chains are long */
+#define DEFAULT_PREFIX_HASHPOWER 1
+#else
 #define DEFAULT_PREFIX_HASHPOWER 10
+#endif
 #define DEFAULT_PREFIX_MAX_DEPTH 1
 
 typedef struct {
-- 
2.43.0


From 6b37c5af4a9b4f180aeafb36ec5eaf8158863bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 29/64] fix: an escaped star or question mark in a scan pattern
 matches only itself

---
 util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util.c b/util.c
index fd7b3aa..530959f 100644
--- a/util.c
+++ b/util.c
@@ -296,8 +296,10 @@ bool string_pattern_match(const char *text, int text_len, const char *pattern, i
             tlen_backup = text_len;
             plen_backup = --pattern_len;
         }
-        else if (*pattern == '?' || *pattern == *text) {
-            /* ? match any character or match the current non-NULL character */
+        else if (*pattern != '\\' && (*pattern == '?' || *pattern == *text)) {
+            /* ? match any character or match the current non-NULL character.
+             * A backslash only quotes the next character, it never matches by itself.
+             */
             text++;
             pattern++;
             text_len--;
-- 
2.43.0


From 0252c7d69e271fe8b1913c07c5910c34b301b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 30/64] fix: scan prefix does not write beyond its result array
 when many prefixes share a bucket

---
 engines/default/prefix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index b024098..fd7fe0b 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -742,6 +742,9 @@ static int _prefix_scan_direct(const char *cursor, int req_count, void **item_ar
         prefix_t *pt = prefxp->hashtable[bucket];
         while (pt) {
             if (!pt->internal && !_prefix_isempty(pt)) {
+                if (item_count >= item_arrsz) {
+                    break; /* the array is full. skip the rest of the chain. */
+                }
                 item_array[item_count++] = pt;
                 PREFIX_REFCOUNT_INCR(pt);
             }
-- 
2.43.0


From 6a06c7703e869f9211551f805e3372560d6ff145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 31/64] fix: a scan that already found count entries ends
 instead of overrunning its result array

---
 engines/default/assoc.c          | 2 +-
 engines/default/default_engine.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/default/assoc.c b/engines/default/assoc.c
index 00b5b3f..a796f31 100644
--- a/engines/default/assoc.c
+++ b/engines/default/assoc.c
@@ -514,7 +514,6 @@ int assoc_scan_direct(const char *cursor, int req_count, hash_item **item_array,
         hash_item *next = assocp->roottable[tabidx].hashtable[bucket];
         while (next != NULL) {
             if (next->nkey > 0) { /* Not placeholder item */
-                item_array[item_count++] = next; /* user cache item */
                 if (item_count >= array_size) {
                     /* Never comes here. If not, @array_size is too small and it's wrong.
                      * This function doesn't set bucket refcount and link placeholder,
@@ -522,6 +521,7 @@ int assoc_scan_direct(const char *cursor, int req_count, hash_item **item_array,
                      */
                     break; /* just skip to scan simply (or do realloc) */
                 }
+                item_array[item_count++] = next; /* user cache item */
             }
             next = next->h_next;
         }
diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index 7502fce..392d06d 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1279,7 +1279,7 @@ default_prefixscan(const char cursor[], const uint32_t count, const char *patter
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = prefix_scan_direct(cursor, iter_count,
@@ -1340,7 +1340,7 @@ default_keyscan(const char cursor[], const uint32_t count, const char *pattern,
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = item_scan_direct(cursor, type, iter_count,
-- 
2.43.0


From 1d6e09b435af97ed46a0abb1640c94681c20f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 32/64] fix: keep a copy of the prefix of a key dump

The dumper kept a pointer into the read buffer of the connection that had
sent "dump start".  The dump thread and "stats dump" used it after the
buffer had been overwritten by the next request or released.
---
 engines/default/default_engine.h | 3 ++-
 engines/default/items.c          | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/engines/default/default_engine.h b/engines/default/default_engine.h
index 119327a..30811a7 100644
--- a/engines/default/default_engine.h
+++ b/engines/default/default_engine.h
@@ -42,6 +42,7 @@ struct default_engine;
 #include "slabs.h"
 
 #define MAX_FILEPATH_LENGTH 4096
+#define MAX_DUMP_PREFIX_LENGTH 250 /* PREFIX_MAX_LENGTH of memcached.h */
 #define MAX_FILENAME_LENGTH 256
 
 /**
@@ -128,7 +129,7 @@ struct engine_dumper {
    time_t          started; /* dump start time */
    time_t          stopped; /* dump stop time */
    char            filepath[MAX_FILEPATH_LENGTH]; /* dump file path */
-   char           *prefix;  /* prefix of keys for dumping */
+   char            prefix[MAX_DUMP_PREFIX_LENGTH+1]; /* prefix of keys for dumping */
    int             nprefix;
 };
 
diff --git a/engines/default/items.c b/engines/default/items.c
index a139a66..dcebd97 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1613,7 +1613,11 @@ ENGINE_ERROR_CODE item_dump_start(struct default_engine *engine,
 
         snprintf(dumper->filepath, MAX_FILEPATH_LENGTH-1, "%s",
                 (filepath != NULL ? filepath : "arcus_dump.txt"));
-        dumper->prefix = (char*)prefix;
+        /* The given prefix string is in the read buffer of the connection.
+         * It must be copied, since it's used after this request is finished.
+         */
+        snprintf(dumper->prefix, sizeof(dumper->prefix), "%.*s",
+                 (nprefix > 0 ? nprefix : 0), (nprefix > 0 ? prefix : ""));
         dumper->nprefix = nprefix;
         dumper->mode = mode;
         dumper->started = time(NULL);
-- 
2.43.0


From f7fc3672858919a3e14eef44e71bf47d848c5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 33/64] fix: do not cut the dump summary of a long prefix

A prefix may have 250 characters; with more than about 190 the summary line
of a key dump lost its count, elapsed time and newline.
---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index dcebd97..57db62c 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1540,7 +1540,7 @@ static void *item_dumper_main(void *arg)
     item_scan_close(&scan, NULL, (ret==0));
 
     if (ret == 0) {
-        int summary_length = 256; /* just, enough memory space size */
+        int summary_length = MAX_DUMP_PREFIX_LENGTH + 256; /* enough memory space size */
         if ((cur_buflen + summary_length) > max_buflen) {
             nwritten = write(fd, dump_buffer, cur_buflen);
             if (nwritten != cur_buflen) {
-- 
2.43.0


From 5be15276b1b6eb7c99a442db50dc2385b670129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 34/64] hook: model-checking builds (ARCUS_MC_HOOKS) choose the
 log buffer and flush unit sizes

---
 engines/default/cmdlogbuf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index a63e6ea..60487d6 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -29,8 +29,13 @@
 #include "cmdlogfile.h"
 
 /* FIXME: config log buffer size */
+#ifdef ARCUS_MC_HOOKS /* sizes chosen by the model-checking build */
+#define CMDLOG_BUFFER_SIZE ARCUS_MC_LOG_BUFFER_SIZE
+#define CMDLOG_FLUSH_AUTO_SIZE ARCUS_MC_LOG_FLUSH_SIZE
+#else
 #define CMDLOG_BUFFER_SIZE (100 * 1024 * 1024) /* 100 MB */
 #define CMDLOG_FLUSH_AUTO_SIZE (32 * 1024) /* 32 KB : see the nflush data type of log_FREQ */
+#endif
 #define CMDLOG_RECORD_MIN_SIZE 16          /* 8 bytes header + 8 bytes body */
 
 #define ENABLE_DEBUG 0
-- 
2.43.0


From ae67c6c158efc13d1a152a16d5d06e660d1b8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 35/64] fix: recovery overwrote the data of snapshot elements
 longer than ten bytes

---
 engines/default/cmdlogrec.c | 25 ++++++++++++++++---------
 engines/default/cmdlogrec.h |  1 -
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index ddfb5d6..1c62609 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1297,21 +1297,25 @@ static void lrec_snapshot_elem_link_write(LogRec *logrec, char *bufptr)
     }
 }
 
+/* collection item that the next snapshot element belongs to (recovery only) */
+static hash_item *snapshot_elem_it = NULL;
+
 static ENGINE_ERROR_CODE lrec_snapshot_elem_link_redo(LogRec *logrec)
 {
     ENGINE_ERROR_CODE ret = ENGINE_FAILED;
     SnapshotElemLog  *log  = (SnapshotElemLog*)logrec;
     SnapshotElemData *body = &log->body;
+    hash_item *it = snapshot_elem_it;
     char *valptr = body->data;
 
-    if (IS_LIST_ITEM(log->it)) {
-        ret = list_apply_elem_insert(engine, log->it, -1, -1, valptr, body->nbytes);
-    } else if (IS_SET_ITEM(log->it)) {
-        ret = set_apply_elem_insert(engine, log->it, valptr, body->nbytes);
-    } else if (IS_MAP_ITEM(log->it)) {
-        ret = map_apply_elem_insert(engine, log->it, valptr, body->nekey, body->nbytes);
-    } else if (IS_BTREE_ITEM(log->it)) {
-        ret = btree_apply_elem_insert(engine, log->it, valptr, body->nekey, body->neflag, body->nbytes);
+    if (IS_LIST_ITEM(it)) {
+        ret = list_apply_elem_insert(engine, it, -1, -1, valptr, body->nbytes);
+    } else if (IS_SET_ITEM(it)) {
+        ret = set_apply_elem_insert(engine, it, valptr, body->nbytes);
+    } else if (IS_MAP_ITEM(it)) {
+        ret = map_apply_elem_insert(engine, it, valptr, body->nekey, body->nbytes);
+    } else if (IS_BTREE_ITEM(it)) {
+        ret = btree_apply_elem_insert(engine, it, valptr, body->nekey, body->neflag, body->nbytes);
     }
 
     if (ret != ENGINE_SUCCESS) {
@@ -1831,7 +1835,10 @@ void lrec_set_item_in_snapshot_elem(SnapshotElemLog *log, hash_item *it)
 {
     assert(it != NULL);
     if (log->header.logtype == LOG_SNAPSHOT_ELEM) {
-        log->it = it;
+        /* The record read from a snapshot file has its data
+         * where the pointers of SnapshotElemLog are located.
+         */
+        snapshot_elem_it = it;
     }
 }
 
diff --git a/engines/default/cmdlogrec.h b/engines/default/cmdlogrec.h
index dae763c..f37eec5 100644
--- a/engines/default/cmdlogrec.h
+++ b/engines/default/cmdlogrec.h
@@ -203,7 +203,6 @@ typedef struct _snapshot_elem_log {
     LogHdr           header;
     SnapshotElemData body;
     char             *valptr;
-    hash_item        *it;
 } SnapshotElemLog;
 
 /* List Elem Insert Log Record */
-- 
2.43.0


From bbbe0f9a08736e28bb141e01181599658abcc50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 36/64] fix: recovery lost the elements of a b+tree with a
 maxbkeyrange in a snapshot

---
 engines/default/cmdlogrec.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 1c62609..3402161 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1827,7 +1827,13 @@ hash_item *lrec_get_item_if_collection_link(ITLinkLog *log)
         log->header.updtype == UPD_STORE) {
         return NULL;
     }
-    hash_item *it = item_get(&log->body.data, log->body.cm.keylen);
+    char *keyptr = log->body.data;
+    if (log->body.cm.ittype == ITEM_TYPE_BTREE &&
+        log->body.ptr.meta.maxbkrlen != BKEY_NULL) {
+        /* the key follows the maxbkeyrange value */
+        keyptr += BTREE_REAL_NBKEY(log->body.ptr.meta.maxbkrlen);
+    }
+    hash_item *it = item_get(keyptr, log->body.cm.keylen);
     return it;
 }
 
-- 
2.43.0


From de82fb2bb49b49e62d52903001d80fe81276526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 37/64] fix: log the trimmed attribute that an implicit trim
 sets

---
 engines/default/coll_btree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 295180d..38e80c2 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -2047,6 +2047,16 @@ static inline void get_bkey_full_range(const int bktype, const bool ascend, bkey
 }
 #endif
 
+static void do_btree_set_implicit_trimmed(btree_meta_info *info)
+{
+    if ((info->mflags & COLL_META_FLAG_TRIMMED) == 0) {
+        info->mflags |= COLL_META_FLAG_TRIMMED; // set trimmed
+        /* No element is linked, so the change must be logged by itself. */
+        ENGINE_ITEM_ATTR attr_id = ATTR_OVFLACTION;
+        CLOG_ITEM_SETATTR((hash_item*)COLL_GET_HASH_ITEM(info), &attr_id, 1);
+    }
+}
+
 static ENGINE_ERROR_CODE do_btree_overflow_check(btree_meta_info *info, btree_elem_item *elem,
                                                  int *overflow_type)
 {
@@ -2101,7 +2111,7 @@ static ENGINE_ERROR_CODE do_btree_overflow_check(btree_meta_info *info, btree_el
             if (BKEY_ISLT(elem->data, elem->nbkey, min_bkey_elem->data, min_bkey_elem->nbkey)) {
                 if (info->ovflact == OVFL_SMALLEST_TRIM) {
                     /* It means the implicit trim. */
-                    info->mflags |= COLL_META_FLAG_TRIMMED; // set trimmed
+                    do_btree_set_implicit_trimmed(info);
                 }
                 return ENGINE_EBKEYOOR;
             }
@@ -2111,7 +2121,7 @@ static ENGINE_ERROR_CODE do_btree_overflow_check(btree_meta_info *info, btree_el
             if (BKEY_ISGT(elem->data, elem->nbkey, max_bkey_elem->data, max_bkey_elem->nbkey)) {
                 if (info->ovflact == OVFL_LARGEST_TRIM) {
                     /* It means the implicit trim. */
-                    info->mflags |= COLL_META_FLAG_TRIMMED; // set trimmed
+                    do_btree_set_implicit_trimmed(info);
                 }
                 return ENGINE_EBKEYOOR;
             }
-- 
2.43.0


From 70f64f7674ca52923aeff82fb2b2a39112aecee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 38/64] fix: recovery dropped expired items before later log
 records changed them

---
 engines/default/cmdlogmgr.c |  2 ++
 engines/default/cmdlogrec.c | 37 ++++++++-----------------------------
 engines/default/item_base.c | 15 +++++++++++++++
 engines/default/item_base.h |  3 +++
 4 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index 5a9f49b..a11091e 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -97,7 +97,9 @@ static ENGINE_ERROR_CODE cmdlog_mgr_recovery(void)
         return ENGINE_FAILED;
     }
     /* do recovery. */
+    item_recovery_set(true);
     ret = chkpt_recovery_redo();
+    item_recovery_set(false);
     if (ret < 0) {
         return ENGINE_FAILED;
     }
diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 3402161..46802e6 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -32,8 +32,6 @@
 #define PERSISTENCE_MINOR_VERSION 0 /* backward compatibility */
 //#define DEBUG_PERSISTENCE_DISK_FORMAT_PRINT
 
-#define EXPIRED_REL_EXPTIME(exptime) ((exptime) == 1)
-
 /* Get aligned size */
 #define GET_8_ALIGN_SIZE(size) \
     (((size) % 8) == 0 ? (size) : ((size) + (8 - ((size) % 8))))
@@ -302,9 +300,6 @@ static ENGINE_ERROR_CODE lrec_it_link_redo(LogRec *logrec)
     char *keyptr = body->data;
 
     cm.exptime = CONVERT_REL_EXPTIME(cm.exptime);
-    if (EXPIRED_REL_EXPTIME(cm.exptime)) {
-        return ENGINE_SUCCESS;
-    }
 
     if (cm.ittype == ITEM_TYPE_KV) {
         ret = item_apply_kv_link(engine, keyptr, cm.keylen, cm.flags, cm.exptime,
@@ -584,18 +579,14 @@ static ENGINE_ERROR_CODE lrec_list_elem_insert_redo(LogRec *logrec)
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
         if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_list_elem_insert_redo failed. "
-                                                     "already exist.\n");
+            /* It was an invalid(e.g. expired) item when the new one was created. */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
+            (void)item_apply_unlink(engine, keyptr, body->keylen);
         }
 
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(keyptr + body->keylen + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = list_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_list_elem_insert_redo failed. "
@@ -718,18 +709,14 @@ static ENGINE_ERROR_CODE lrec_set_elem_insert_redo(LogRec *logrec)
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
         if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_set_elem_insert_redo failed. "
-                                                     "already exist.\n");
+            /* It was an invalid(e.g. expired) item when the new one was created. */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
+            (void)item_apply_unlink(engine, keyptr, body->keylen);
         }
 
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(valptr + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = set_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_set_elem_insert_redo failed. "
@@ -854,18 +841,14 @@ static ENGINE_ERROR_CODE lrec_map_elem_insert_redo(LogRec *logrec)
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
         if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_map_elem_insert_redo failed. "
-                                                     "already exist.\n");
+            /* It was an invalid(e.g. expired) item when the new one was created. */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
+            (void)item_apply_unlink(engine, keyptr, body->keylen);
         }
 
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(datptr + body->fldlen + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = map_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_map_elem_insert_redo failed. "
@@ -992,19 +975,15 @@ static ENGINE_ERROR_CODE lrec_bt_elem_insert_redo(LogRec *logrec)
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
         if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_bt_elem_insert_redo failed. "
-                                                     "already exist.\n");
+            /* It was an invalid(e.g. expired) item when the new one was created. */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
+            (void)item_apply_unlink(engine, keyptr, body->keylen);
         }
 
         /* create collection item */
         item_attr attr;
         int datlen = BTREE_REAL_NBKEY(log->body.nbkey) + log->body.neflag + log->body.vallen;
         do_construct_item_attr(datptr + datlen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         attr.maxbkeyrange.len = BKEY_NULL;
         ret = btree_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 36473fa..3d97b3b 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -557,6 +557,15 @@ static void item_unlink_q(hash_item *it)
     return;
 }
 
+#ifdef ENABLE_PERSISTENCE
+static bool item_in_recovery = false;
+
+void item_recovery_set(bool in_recovery)
+{
+    item_in_recovery = in_recovery;
+}
+#endif
+
 //static bool do_item_isvalid(hash_item *it, rel_time_t current_time)
 bool do_item_isvalid(hash_item *it, rel_time_t current_time)
 {
@@ -567,6 +576,12 @@ bool do_item_isvalid(hash_item *it, rel_time_t current_time)
      **/
 #endif
     if (it->exptime != 0 && it->exptime <= current_time) {
+#ifdef ENABLE_PERSISTENCE
+        /* While the log is replayed, an item stays even if it is expired now:
+         * a later record might refer to it or give it another exptime.
+         */
+        if (item_in_recovery == false)
+#endif
         return false; /* expired */
     }
     /* check if it's flushed */
diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index a27999b..d002fe2 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -385,6 +385,9 @@ void do_coll_space_decr(coll_meta_info *info, ENGINE_ITEM_TYPE item_type,
 
 /* item functions */
 bool do_item_isvalid(hash_item *it, rel_time_t current_time);
+#ifdef ENABLE_PERSISTENCE
+void item_recovery_set(bool in_recovery);
+#endif
 
 void *do_item_mem_alloc(const size_t ntotal, const unsigned int clsid,
                         const void *cookie);
-- 
2.43.0


From d30ce608e371213294a398e84bd6573744529a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 39/64] fix: recovery left incomplete log records at the end of
 the log and appended after them

---
 engines/default/cmdlogfile.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 34f5245..73c982b 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -505,13 +505,7 @@ int cmdlog_file_apply(void)
                 logger->log(EXTENSION_LOG_INFO, NULL,
                             "[RECOVERY - CMDLOG] body of last log record was not completely written. "
                             "body_length=%d\n", loghdr->body_length);
-                seek_offset = disk_lseek(logfile->fd, -sizeof(LogHdr), SEEK_CUR);
-                if (seek_offset < 0) {
-                    logger->log(EXTENSION_LOG_WARNING, NULL,
-                                "[RECOVERY - CMDLOG] failed : lseek(SEEK_CUR-%zd). path=%s, error=%s.\n",
-                                sizeof(LogHdr), logfile->path, strerror(errno));
-                    ret = -1;
-                }
+                seek_offset -= sizeof(LogHdr);
                 break;
             }
 
@@ -549,6 +543,20 @@ int cmdlog_file_apply(void)
             }
         }
     }
+    if (ret == 0) {
+        if (pending) {
+            /* The end of the last operation was not written: it is not redone. */
+            seek_offset = pending_start_offset - sizeof(LogHdr);
+        }
+        /* Remove the incomplete tail. New log records are appended from there. */
+        if ((seek_offset < logfile->size && ftruncate(logfile->fd, seek_offset) != 0) ||
+            disk_lseek(logfile->fd, seek_offset, SEEK_SET) != seek_offset) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "[RECOVERY - CMDLOG] failed : remove incomplete log records. "
+                        "path=%s, error=%s.\n", logfile->path, strerror(errno));
+            ret = -1;
+        }
+    }
     if (ret < 0) {
         close(logfile->fd);
     } else {
-- 
2.43.0


From a86b173c71f19047ead82ba5664b9e4cfd4746b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 40/64] fix: a change was acknowledged when only the first part
 of its log record was flushed

---
 engines/default/cmdlogbuf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index 60487d6..7e5e8fd 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -240,6 +240,11 @@ static LogSN do_log_buff_write(LogRec *logrec, bool dual_write)
     current_lsn = log_buff_gl.nxt_write_lsn;
     log_buff_gl.nxt_write_lsn.roffset += total_length;
 
+    /* The record might be flushed in several units. Return the lsn of its last byte
+     * in order that a waiter waits until the whole record is flushed.
+     */
+    current_lsn.roffset += total_length - 1;
+
     /* update log flush request */
     if (logbuff->fque[logbuff->fend].nflush > 0 &&
         logbuff->fque[logbuff->fend].dual_write != dual_write) {
-- 
2.43.0


From c45a22eaccf2607692dddd8c12de350f322aba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 41/64] fix: report the collection size limit in effect

config max_<type>_size with a value outside the allowed range makes the
engine use the largest allowed size, but the server kept and reported the
value given. The engine now hands the size in effect back.
---
 engines/default/default_engine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index 392d06d..7cf738d 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1431,6 +1431,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
         pthread_mutex_lock(&engine->cache_lock);
         if (new_maxsize > engine->config.max_list_size) {
             engine->config.max_list_size = new_maxsize;
+            *(int32_t*)config_value = new_maxsize; /* the size in effect */
         } else {
             ret = ENGINE_EBADVALUE;
         }
@@ -1446,6 +1447,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
         pthread_mutex_lock(&engine->cache_lock);
         if (new_maxsize > engine->config.max_set_size) {
             engine->config.max_set_size = new_maxsize;
+            *(int32_t*)config_value = new_maxsize; /* the size in effect */
         } else {
             ret = ENGINE_EBADVALUE;
         }
@@ -1461,6 +1463,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
         pthread_mutex_lock(&engine->cache_lock);
         if (new_maxsize > engine->config.max_map_size) {
             engine->config.max_map_size = new_maxsize;
+            *(int32_t*)config_value = new_maxsize; /* the size in effect */
         } else {
             ret = ENGINE_EBADVALUE;
         }
@@ -1476,6 +1479,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
         pthread_mutex_lock(&engine->cache_lock);
         if (new_maxsize > engine->config.max_btree_size) {
             engine->config.max_btree_size = new_maxsize;
+            *(int32_t*)config_value = new_maxsize; /* the size in effect */
         } else {
             ret = ENGINE_EBADVALUE;
         }
-- 
2.43.0


From 198c57005afea8aff041df65130cb463bf4ce3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 42/64] fix: integer widths of config verbosity and
 chkpt_interval_*

The engine reads and writes config values through pointers whose type
differed from that of the variable: 8 bytes were read from or written to
4-byte variables on the stack.
---
 engines/default/default_engine.c |  2 +-
 memcached.c                      | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index 7cf738d..02109b6 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1509,7 +1509,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
     }
     else if (strcmp(config_key, "verbosity") == 0) {
         pthread_mutex_lock(&engine->cache_lock);
-        engine->config.verbose = *(size_t*)config_value;
+        engine->config.verbose = *(unsigned int*)config_value;
         pthread_mutex_unlock(&engine->cache_lock);
     }
 #ifdef ENABLE_PERSISTENCE
diff --git a/memcached.c b/memcached.c
index 4ea0e26..4278aa4 100644
--- a/memcached.c
+++ b/memcached.c
@@ -9431,7 +9431,8 @@ static void process_chkpt_interval_pct_snapshot_command(conn *c, token_t *tokens
     assert(c != NULL);
     char *config_key = tokens[SUBCOMMAND_TOKEN].value;
     char *config_val = tokens[SUBCOMMAND_TOKEN+1].value;
-    unsigned int chkpt_interval_pct_snapshot;
+    unsigned int new_value;
+    size_t chkpt_interval_pct_snapshot;
     ENGINE_ERROR_CODE ret;
 
     if (ntokens == 3) {
@@ -9444,7 +9445,8 @@ static void process_chkpt_interval_pct_snapshot_command(conn *c, token_t *tokens
         } else {
             out_string(c, "NOT_SUPPORTED");
         }
-    } else if (ntokens == 4 && safe_strtoul(config_val, &chkpt_interval_pct_snapshot)) {
+    } else if (ntokens == 4 && safe_strtoul(config_val, &new_value)) {
+        chkpt_interval_pct_snapshot = new_value;
         ret = mc_engine.v1->set_config(mc_engine.v0, c, config_key, (void*)&chkpt_interval_pct_snapshot);
         if (ret == ENGINE_SUCCESS)        out_string(c, "END");
         else if (ret == ENGINE_EBADVALUE) out_string(c, "CLIENT_ERROR bad value");
@@ -9460,7 +9462,8 @@ static void process_chkpt_interval_min_logsize_command(conn *c, token_t *tokens,
     assert(c != NULL);
     char *config_key = tokens[SUBCOMMAND_TOKEN].value;
     char *config_val = tokens[SUBCOMMAND_TOKEN+1].value;
-    unsigned int chkpt_interval_min_logsize;
+    unsigned int new_value;
+    size_t chkpt_interval_min_logsize;
     ENGINE_ERROR_CODE ret;
 
     if (ntokens == 3) {
@@ -9473,7 +9476,8 @@ static void process_chkpt_interval_min_logsize_command(conn *c, token_t *tokens,
         } else {
             out_string(c, "NOT_SUPPORTED");
         }
-    } else if (ntokens == 4 && safe_strtoul(config_val, &chkpt_interval_min_logsize)) {
+    } else if (ntokens == 4 && safe_strtoul(config_val, &new_value)) {
+        chkpt_interval_min_logsize = new_value;
         ret = mc_engine.v1->set_config(mc_engine.v0, c, config_key, (void*)&chkpt_interval_min_logsize);
         if (ret == ENGINE_SUCCESS)        out_string(c, "END");
         else if (ret == ENGINE_EBADVALUE) out_string(c, "CLIENT_ERROR bad value");
-- 
2.43.0


From db532e4ee1df6b4fd5999eac2e58fd9b081f2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 43/64] fix: free memory blocks of connections when a worker
 thread ends

A shutdown while a client was in the middle of sending the keys of a
multi-key command left blocks in use and ended in an assertion failure in
mblck_pool_destroy.
---
 thread.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thread.c b/thread.c
index 06c61e6..6a26237 100644
--- a/thread.c
+++ b/thread.c
@@ -297,6 +297,11 @@ static void *worker_libevent(void *arg)
     /* close all connections */
     conn = me->conn_list;
     while (conn) {
+        if (conn->coll_strkeys != NULL) {
+            /* the keys are in memory blocks of this thread */
+            mblck_list_free(&me->mblck_pool, &conn->memblist);
+            conn->coll_strkeys = NULL;
+        }
         close(conn->sfd);
         conn = conn->conn_next;
     }
-- 
2.43.0


From bb0d5796aa05595f87243b15b60c5743be55a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 44/64] fix: no lock in the signal handler that asks for
 shutdown

A signal that interrupted a thread holding shutdown_lock (the main thread
or a worker in the shutdown command) made it wait for itself forever.
---
 memcached.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/memcached.c b/memcached.c
index 4278aa4..8f19f03 100644
--- a/memcached.c
+++ b/memcached.c
@@ -15101,11 +15101,10 @@ static void shutdown_server(void)
 {
     shutdown_delay = 0;
     dynamic_shutdown = false;
-    pthread_mutex_lock(&shutdown_lock);
-    if (memcached_shutdown == 0) {
-        memcached_shutdown = 1;
-    }
-    pthread_mutex_unlock(&shutdown_lock);
+    /* No lock: this is called by a signal handler, which may have
+     * interrupted a thread that holds shutdown_lock.
+     */
+    (void)__sync_bool_compare_and_swap(&memcached_shutdown, 0, 1);
 }
 
 static void sigterm_handler(int sig)
-- 
2.43.0


From 3515f4cb118b61b31c1e469535698ec14da661eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 45/64] hook: sizes of the command log's buffer and files

---
 cmdlog.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmdlog.c b/cmdlog.c
index 6517fd9..649efa1 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -29,10 +29,16 @@
 #include "memcached/util.h"
 
 #define CMDLOG_INPUT_SIZE 400
+#ifdef ARCUS_MC_HOOKS /* model checking builds use a small buffer and small files */
+#define CMDLOG_BUFFER_SIZE  ARCUS_MC_CMDLOG_BUFFER_SIZE
+#define CMDLOG_WRITE_SIZE   (CMDLOG_BUFFER_SIZE / 4)
+#define CMDLOG_FILE_MAXSIZE CMDLOG_BUFFER_SIZE
+#else
 #define CMDLOG_BUFFER_SIZE  (10 * 1024 * 1024)   /* 10MB */
 #define CMDLOG_WRITE_SIZE   (4 * 1024)           /* 4KB */
 
 #define CMDLOG_FILE_MAXSIZE (10 * 1024 * 1024)   /* 10MB : log at most CMDLOG_INPUT_SIZE * N commands in one file */
+#endif
 #define CMDLOG_FILE_MAXNUM   10                  /* # of cmdlog files */
 #define CMDLOG_DIRPATH_LENGTH  128               /* directory path's length */
 #define CMDLOG_FILENAME_LENGTH CMDLOG_DIRPATH_LENGTH + 128
-- 
2.43.0


From 8924b414f83d595af525e6448ce6e0dc043b63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 46/64] fix: end a command log line of exactly 400 characters

---
 cmdlog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index 649efa1..1d91e4f 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -413,7 +413,7 @@ void cmdlog_write(char *client_ip, char *command)
     nwritten = snprintf(inputstr, CMDLOG_INPUT_SIZE, "%02d:%02d:%02d.%06ld %s %s\n",
                        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, (long)val.tv_usec, client_ip, command);
     /* truncated ? */
-    if (nwritten > CMDLOG_INPUT_SIZE) {
+    if (nwritten >= CMDLOG_INPUT_SIZE) {
         inputstr[CMDLOG_INPUT_SIZE-4] = '.';
         inputstr[CMDLOG_INPUT_SIZE-3] = '.';
         inputstr[CMDLOG_INPUT_SIZE-2] = '\n';
-- 
2.43.0


From 5752ce56ba803cf0b77cd10ee41acb3a5c9d0538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 47/64] fix: count a command as skipped when the command log
 buffer is full before any flush

---
 cmdlog.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdlog.c b/cmdlog.c
index 1d91e4f..8a0c090 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -422,15 +422,19 @@ void cmdlog_write(char *client_ip, char *command)
 
     pthread_mutex_lock(&buffer->lock);
     cmdlog.stats.entered_commands += 1;
-    if (buffer->head <= buffer->tail && inputlen >= (buffer->size - buffer->tail)) {
+    if (buffer->head > 0 && buffer->head <= buffer->tail &&
+        inputlen >= (buffer->size - buffer->tail)) {
         buffer->last = buffer->tail;
         buffer->tail = 0;
     }
     if (buffer->head <= buffer->tail) {
         assert(buffer->last == 0);
-        assert(inputlen < (buffer->size - buffer->tail));
-        memcpy(buffer->data + buffer->tail, inputstr, inputlen);
-        buffer->tail += inputlen;
+        if (inputlen < (buffer->size - buffer->tail)) {
+            memcpy(buffer->data + buffer->tail, inputstr, inputlen);
+            buffer->tail += inputlen;
+        } else { /* full: nothing has been flushed since the head was reset */
+            cmdlog.stats.skipped_commands += 1;
+        }
         if ((buffer->tail - buffer->head) >= CMDLOG_WRITE_SIZE) {
             do_cmdlog_flush_wakeup(); /* wake up flush thread */
         }
-- 
2.43.0


From 75d49c46195131fbdc19f0f4e269d6bc591ad791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 48/64] fix: report an explicit stop of the command log as such

---
 cmdlog.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdlog.c b/cmdlog.c
index 8a0c090..50ff96b 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -49,6 +49,7 @@
 #define CMDLOG_OVERFLOW_STOP 1  /* stop by command log overflow */
 #define CMDLOG_FLUSHERR_STOP 2  /* stop by flush operation error */
 #define CMDLOG_RUNNING       3  /* running */
+#define CMDLOG_EXPLICIT_STOP 4  /* stop by user request */
 
 bool cmdlog_in_use = false; /* true or false : logging start condition */
 
@@ -145,7 +146,7 @@ static void *cmdlog_flush_thread(void *arg)
     uint32_t cur_tail;
     uint32_t cur_last;
     int fd = -1;
-    int stop_state = CMDLOG_NOT_STARTED;
+    int stop_state = CMDLOG_EXPLICIT_STOP;
     int writelen;
     int nwritten;
     int nwtotal = 0;
@@ -373,7 +374,8 @@ char *cmdlog_stats(void)
         char *state_str[5] = { "Not started",                      // CMDLOG_NOT_STARTED
                                "stopped by command log overflow",  // CMDLOG_OVERFLOW_STOP
                                "stopped by disk flush error",      // CMDLOG_FLUSHERR_STOP
-                               "running" };                        // CMDLOG_RUNNING
+                               "running",                          // CMDLOG_RUNNING
+                               "stopped by explicit request" };    // CMDLOG_EXPLICIT_STOP
 
         struct cmd_log_stats *stats = &cmdlog.stats;
         if (cmdlog_in_use) {
-- 
2.43.0


From 49d6263abf6776e827da6e5f602d48363a2d8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 49/64] fix: reset the command log buffer under its lock

---
 cmdlog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdlog.c b/cmdlog.c
index 50ff96b..00c76f2 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -305,9 +305,11 @@ int cmdlog_start(char *file_path, bool *already_started)
                 ret = -1; break;
             }
         }
+        pthread_mutex_lock(&cmdlog.buffer.lock);
         cmdlog.buffer.head = 0;
         cmdlog.buffer.tail = 0;
         cmdlog.buffer.last = 0;
+        pthread_mutex_unlock(&cmdlog.buffer.lock);
 
         /* prepare command logging stats */
         memset(&cmdlog.stats, 0, sizeof(struct cmd_log_stats));
-- 
2.43.0


From e6698cdd2f3f945b8f8d077c27f4fd0b12a8c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 50/64] fix: keep commands entered before a stop in the command
 log

---
 cmdlog.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index 00c76f2..cd00587 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -147,6 +147,7 @@ static void *cmdlog_flush_thread(void *arg)
     uint32_t cur_last;
     int fd = -1;
     int stop_state = CMDLOG_EXPLICIT_STOP;
+    bool in_use;
     int writelen;
     int nwritten;
     int nwtotal = 0;
@@ -165,6 +166,11 @@ static void *cmdlog_flush_thread(void *arg)
             cmdlog.stats.file_count++;
         }
 
+        /* see the state before the tail: when logging has been stopped,
+         * the tail covers every command that was entered before the stop.
+         */
+        in_use = cmdlog_in_use;
+
         pthread_mutex_lock(&buffer->lock);
         cur_last = buffer->last;
         cur_tail = buffer->tail;
@@ -172,7 +178,7 @@ static void *cmdlog_flush_thread(void *arg)
 
         if (buffer->head <= cur_tail) {
             assert(cur_last == 0);
-            if (cmdlog_in_use) {
+            if (in_use) {
                 if ((cur_tail - buffer->head) < CMDLOG_WRITE_SIZE) {
                     do_cmdlog_flush_sleep(); /* flush thread sleeps 50ms. */
                     continue;
-- 
2.43.0


From ca5175916192ccf1e1aaa13c4411f8af94e6e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 51/64] fix: command log flush thread spinning on a buffer
 wrapped when empty

---
 cmdlog.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmdlog.c b/cmdlog.c
index cd00587..b166f83 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -215,11 +215,11 @@ static void *cmdlog_flush_thread(void *arg)
                     stop_state = CMDLOG_FLUSHERR_STOP; break;
                 }
                 nwtotal += nwritten;
-                pthread_mutex_lock(&buffer->lock);
-                buffer->last = 0;
-                buffer->head = 0;
-                pthread_mutex_unlock(&buffer->lock);
             }
+            pthread_mutex_lock(&buffer->lock);
+            buffer->last = 0;
+            buffer->head = 0;
+            pthread_mutex_unlock(&buffer->lock);
         }
         if (nwtotal >= CMDLOG_FILE_MAXSIZE) { /* rotate file */
             close(fd); fd = -1;
-- 
2.43.0


From d123516a04244774611a170ab9d597b33086549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 52/64] fix: update the value size when a genhash entry is
 updated

---
 genhash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genhash.c b/genhash.c
index 38674cc..2e8b4ce 100644
--- a/genhash.c
+++ b/genhash.c
@@ -167,6 +167,7 @@ genhash_update(genhash_t* h, const void* k, size_t klen,
     if(p) {
         free_value(h, p->value);
         p->value=dup_value(h, v, vlen);
+        p->nvalue = vlen;
         rv=MODIFICATION;
     } else {
         genhash_store(h, k, klen, v, vlen);
@@ -193,6 +194,7 @@ genhash_fun_update(genhash_t* h, const void* k, size_t klen,
         void *newValue=upd(k, p->value, &newSize, arg);
         free_value(h, p->value);
         p->value=dup_value(h, newValue, newSize);
+        p->nvalue = newSize;
         fr(newValue);
         rv=MODIFICATION;
     } else {
-- 
2.43.0


From 4a636931f9c2b27049f077e4c35d1f7831f36b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 53/64] fix: call the cache destructor with the object

---
 cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index dd6d390..313a4e9 100644
--- a/cache.c
+++ b/cache.c
@@ -172,7 +172,7 @@ void cache_free(cache_t *cache, void *object) {
             // assert(inFreeList(cache, ptr));
         } else {
             if (cache->destructor) {
-                cache->destructor(ptr, NULL);
+                cache->destructor(get_object(ptr), NULL);
             }
             free(ptr);
             // assert(!inFreeList(cache, ptr));
-- 
2.43.0


From 4d50a50486eb50403a8c0e2aa62b34a8a38cb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 54/64] fix: size the topkeys value buffer for the largest
 counters

---
 topkeys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topkeys.h b/topkeys.h
index 75955e6..7a7d81a 100644
--- a/topkeys.h
+++ b/topkeys.h
@@ -60,7 +60,7 @@
 /* A list of attribute operations */
 #define TK_AOPS(C)  C(getattr_hits) C(getattr_misses) C(setattr_hits) C(setattr_misses)
 
-#define TK_MAX_VAL_LEN 250
+#define TK_MAX_VAL_LEN 400
 
 /* Update the correct stat for a given operation */
 #define TK(tk, op, key, nkey, ctime) { \
-- 
2.43.0


From fca2641efca1145938063c5021019ee18fd61943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 55/64] fix: refuse option values that overflow

---
 config_parser.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/config_parser.c b/config_parser.c
index 0739795..e06697f 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -17,6 +17,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <stdlib.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <strings.h>
 #include <string.h>
@@ -130,8 +131,8 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
             case DT_UINT32:
                {
                   char *sfx = "kmgt";
-                  int multiplier = 1;
-                  int m = 1;
+                  uint64_t multiplier = 1;
+                  uint64_t m = 1;
                   for (char *p = sfx; *p != '\0'; ++p) {
                      m *= 1024;
                      char *ptr = strchr(value, *p);
@@ -147,7 +148,7 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
 
                   if (items[ii].datatype == DT_SIZE) {
                       uint64_t val;
-                      if (safe_strtoull(value, &val)) {
+                      if (safe_strtoull(value, &val) && val <= SIZE_MAX / multiplier) {
                           *items[ii].value.dt_size = (size_t)(val * multiplier);
                           items[ii].found = true;
                       } else {
@@ -155,8 +156,8 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
                       }
                   } else {
                       uint32_t val;
-                      if (safe_strtoul(value, &val)) {
-                          *items[ii].value.dt_uint32 = val * multiplier;
+                      if (safe_strtoul(value, &val) && val <= UINT32_MAX / multiplier) {
+                          *items[ii].value.dt_uint32 = (uint32_t)(val * multiplier);
                           items[ii].found = true;
                       } else {
                           ret = -1;
-- 
2.43.0


From 58d16731c26dac8bc21cdb6ba1fedcaf1099ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 56/64] fix: refuse an option without a value

---
 config_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config_parser.c b/config_parser.c
index e06697f..ac4b024 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -101,7 +101,7 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
 
       const char *end;
       char key[80];
-      if (trim_copy(key, sizeof(key), ptr, &end, '=') == -1) {
+      if (trim_copy(key, sizeof(key), ptr, &end, '=') == -1 || *end != '=') {
          fprintf(error, "ERROR: Invalid key, starting at: <%s>\n", ptr);
          return -1;
       }
-- 
2.43.0


From 21fa3fc493353e8e8618effa832ec95cdd61d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 57/64] fix: report unknown options followed by white space

---
 config_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config_parser.c b/config_parser.c
index ac4b024..42c504f 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -96,7 +96,7 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
       }
       if (*ptr == '\0') {
          /* end of parameters */
-         return 0;
+         return ret;
       }
 
       const char *end;
-- 
2.43.0


From 08b245dc8a56b8656f7dffac54b6fb7621e51f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 58/64] fix: refuse key lists that end in a delimiter at a
 block boundary

---
 mc_util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mc_util.c b/mc_util.c
index f29c7cb..3de85e8 100644
--- a/mc_util.c
+++ b/mc_util.c
@@ -525,7 +525,13 @@ do_again:
     dataptr = MBLCK_GET_BODYPTR(blckptr);
     datalen = (chkblks < numblks) ? bodylen : lastlen;
 
-    while (ntokens < keycnt) {
+    while (true) {
+        /* strings remain, but no more keys are expected or
+         * only the delimiter before them is left.
+         */
+        if (ntokens >= keycnt || datalen == 0) {
+            ret = ENGINE_EBADVALUE; break;
+        }
         /* check the last character */
         bool segmented_blck = false;
         if (chkblks < numblks) {
-- 
2.43.0


From 202d59679a403cfbbb89f4ee23e45a40ca5a9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 59/64] fix: give small memory a page of one block when items
 are below 256k

A server started with -I below the small memory block size (256 kB)
computed zero blocks per page and crashed at the first store.
---
 engines/default/slabs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/default/slabs.c b/engines/default/slabs.c
index b6fcb05..92a2065 100644
--- a/engines/default/slabs.c
+++ b/engines/default/slabs.c
@@ -354,6 +354,9 @@ static int do_smmgr_init(void)
     slabclass_t *p = &slabsp->slabclass[0];
     p->size = SM_BLOCK_SIZE;
     p->perslab = config->item_size_max / p->size;
+    if (p->perslab < 1) { /* item_size_max < SM_BLOCK_SIZE */
+        p->perslab = 1;
+    }
     p->rsvd_slabs = 0; // undefined
 
     return 0;
-- 
2.43.0


From 98c91c875c6c2e5867368d6db6631df817115aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 60/64] fix: withdraw the granted groups when authentication
 starts again

The groups of the previous login stayed in force for the ASCII protocol
when the new authentication failed or was abandoned.
---
 memcached.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memcached.c b/memcached.c
index 8f19f03..635384c 100644
--- a/memcached.c
+++ b/memcached.c
@@ -3194,6 +3194,7 @@ static void init_sasl_conn(conn *c)
     assert(c);
 
     c->authenticated = false;
+    c->authorized = AUTHZ_NONE;
 
     if (!c->sasl_conn) {
         int result=sasl_server_new("memcached",
-- 
2.43.0


From 8703614a4135d5719689c22b14f2bb5f6263d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 61/64] fix: refuse sasl auth data lengths that overflow

A length of 4294967295 made the buffer size wrap around to 1.
---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 635384c..5ea5c85 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4320,7 +4320,8 @@ static void process_ascii_sasl_auth(conn *c, token_t *tokens, const size_t ntoke
         c->sasl_mech[0] = '\0';
     }
 
-    if (! safe_strtoul(tokens[read_ntokens++].value, &c->sasl_auth_data_len)) {
+    if (! safe_strtoul(tokens[read_ntokens++].value, &c->sasl_auth_data_len) ||
+        c->sasl_auth_data_len > (INT_MAX-2)) {
         out_string(c, "CLIENT_ERROR bad command line format");
         return;
     }
-- 
2.43.0


From 1e6f6cccdd45f1bf1e14070b86a6c71e8994307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 62/64] fix: check the granted groups in the binary protocol

Any authenticated binary connection could run every command.
---
 memcached.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 5ea5c85..1f079b6 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4525,8 +4525,57 @@ static void process_bin_complete_sasl_auth(conn *c)
     }
 }
 
+/* the command group (see arcus_sasl_authz) that a binary command belongs to */
+static uint16_t bin_auth_flag(const int cmd)
+{
+    switch (cmd) {
+    case PROTOCOL_BINARY_CMD_GET:
+    case PROTOCOL_BINARY_CMD_GETQ:
+    case PROTOCOL_BINARY_CMD_GETK:
+    case PROTOCOL_BINARY_CMD_GETKQ:
+    case PROTOCOL_BINARY_CMD_SET:
+    case PROTOCOL_BINARY_CMD_SETQ:
+    case PROTOCOL_BINARY_CMD_ADD:
+    case PROTOCOL_BINARY_CMD_ADDQ:
+    case PROTOCOL_BINARY_CMD_REPLACE:
+    case PROTOCOL_BINARY_CMD_REPLACEQ:
+    case PROTOCOL_BINARY_CMD_APPEND:
+    case PROTOCOL_BINARY_CMD_APPENDQ:
+    case PROTOCOL_BINARY_CMD_PREPEND:
+    case PROTOCOL_BINARY_CMD_PREPENDQ:
+    case PROTOCOL_BINARY_CMD_INCREMENT:
+    case PROTOCOL_BINARY_CMD_INCREMENTQ:
+    case PROTOCOL_BINARY_CMD_DECREMENT:
+    case PROTOCOL_BINARY_CMD_DECREMENTQ:
+        return AUTHZ_KV;
+    case PROTOCOL_BINARY_CMD_DELETE:
+    case PROTOCOL_BINARY_CMD_DELETEQ:
+        return AUTHZ_DELETE;
+    case PROTOCOL_BINARY_CMD_FLUSH:
+    case PROTOCOL_BINARY_CMD_FLUSHQ:
+    case PROTOCOL_BINARY_CMD_FLUSH_PREFIX:
+        return AUTHZ_FLUSH;
+    case PROTOCOL_BINARY_CMD_GETATTR:
+    case PROTOCOL_BINARY_CMD_SETATTR:
+        return AUTHZ_ATTR;
+    case PROTOCOL_BINARY_CMD_LOP_CREATE ... PROTOCOL_BINARY_CMD_LOP_DELETEQ:
+        return AUTHZ_LIST;
+    case PROTOCOL_BINARY_CMD_SOP_CREATE ... PROTOCOL_BINARY_CMD_SOP_DELETEQ:
+        return AUTHZ_SET;
+    case PROTOCOL_BINARY_CMD_BOP_CREATE ... PROTOCOL_BINARY_CMD_BOP_DELETEQ:
+        return AUTHZ_BTREE;
+    case PROTOCOL_BINARY_CMD_SCRUB:
+    case PROTOCOL_BINARY_CMD_SCRUB_STALE:
+        return AUTHZ_ADMIN;
+    default:
+        return AUTHZ_NONE;
+    }
+}
+
 static bool authenticated(conn *c)
 {
+    uint16_t auth_flag = bin_auth_flag(c->cmd);
+
     bool rv = false;
 
     switch (c->cmd) {
@@ -4537,7 +4586,7 @@ static bool authenticated(conn *c)
         rv = true;
         break;
     default:
-        rv = c->authenticated;
+        rv = c->authenticated && (c->authorized & auth_flag) == auth_flag;
     }
 
     if (settings.verbose > 1) {
-- 
2.43.0


From 76c631bfc0a43d535d067cf9ec7225d5fc43a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 63/64] fix: check every key of get for the health check
 exception

An unauthenticated 'get arcus:x secret' returned secret.
---
 memcached.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index 1f079b6..1959fb2 100644
--- a/memcached.c
+++ b/memcached.c
@@ -8685,9 +8685,21 @@ static inline void process_get_command(conn *c, token_t *tokens, size_t ntokens,
     int64_t exptime = 0;
 
 #ifdef ASCII_SASL
-    if (settings.require_sasl && !check_ascii_auth(c, AUTHZ_KV, key_token->value, tokens, ntokens)) {
-        out_string(c, "CLIENT_ERROR unauthorized");
-        return;
+    if (settings.require_sasl) {
+        /* Every key has to be checked, not only the first one.
+         * The last token has a value if more keys follow.
+         */
+        const char *auth_key = key_token->value;
+        token_t *t = key_token + 1;
+        for ( ; t->length != 0; t++) {
+            if (strncmp(t->value, "arcus:", 6) != 0) auth_key = NULL;
+        }
+        if (t->value != NULL) auth_key = NULL;
+
+        if (!check_ascii_auth(c, AUTHZ_KV, auth_key, tokens, ntokens)) {
+            out_string(c, "CLIENT_ERROR unauthorized");
+            return;
+        }
     }
 #endif
 
-- 
2.43.0


From 3a8f43e4680eca66455cc04e574985cd6e70c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 64/64] fix: pass the number of tokens for the authorization of
 extensions

An unauthorized 'scrub' aborted the server on the ntokens assertion.
---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 1959fb2..cd539b6 100644
--- a/memcached.c
+++ b/memcached.c
@@ -10000,7 +10000,7 @@ static void process_extension_command(conn *c, token_t *tokens, size_t ntokens)
         return;
     }
 #ifdef ASCII_SASL
-    if (settings.require_sasl && !check_ascii_auth(c, cmd->get_auth_flag(), NULL, tokens, ntokens)) {
+    if (settings.require_sasl && !check_ascii_auth(c, cmd->get_auth_flag(), NULL, tokens, ntokens+1)) {
         out_string(c, "CLIENT_ERROR unauthorized");
         return;
     }
-- 
2.43.0

