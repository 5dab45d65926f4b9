From ad334e7761b98486207e9736d07e78fca9712400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 01/51] fix: recover an interrupted index update when the
 writer opens the DB

---
 src/db.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index ac47816..48aa244 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -498,6 +498,23 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
         }
     }
 
+    // Finish the update interrupted by a writer crash before anything else can
+    // modify the DB or overwrite the exception records in the header. A jemalloc
+    // DB is either reset or rebuilt at startup.
+    if ((config.options & CONSTS::ACCESS_MODE_WRITER)
+        && !(config.options & CONSTS::OPTION_JEMALLOC) && !init_header) {
+        int rval;
+        try {
+            rval = dict->ExceptionRecovery();
+        } catch (int error) {
+            rval = error;
+        }
+        if (rval != MBError::SUCCESS) {
+            Logger::Log(LOG_LEVEL_ERROR, "exception recovery failed: %s",
+                MBError::get_error_str(rval));
+        }
+    }
+
     lock.Init(dict->GetShmLockPtr());
     UpdateNumHandlers(config.options, 1);
 
-- 
2.43.0


From 6de79dc1ea28fb7f21a4f1f8d47e0c3dbffaf43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 02/51] fix: restore the edge flag when recovering an
 interrupted edge removal

---
 src/dict.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0833d48..4bf40ea 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1432,9 +1432,12 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        Write6BInteger(header->excep_buff, header->excep_offset);
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
-            header->excep_lf_offset + EDGE_NODE_LEADING_POS);
+        // Link the parent edge back to the old node. The edge flag may have been
+        // changed together with the offset.
+        header->excep_buff[0] = 0;
+        Write6BInteger(header->excep_buff + 1, header->excep_offset);
+        mm.WriteData(header->excep_buff, OFFSET_SIZE + 1,
+            header->excep_lf_offset + EDGE_FLAG_POS);
         break;
     case EXCEP_STATUS_CLEAR_EDGE:
 #ifdef __LOCK_FREE__
-- 
2.43.0


From 3a0ecf9b051d1e61412c9a373ddef787eaab1414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 03/51] fix: clear the match flag under the lock-free window
 and exception journal

---
 src/dict.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 4bf40ea..b35ec14 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -690,11 +690,7 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         ReleaseBuffer(data_off, rel_size);
         rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
     } else {
-        // No exception handling in this case
-        header->excep_lf_offset = 0;
-        header->excep_offset = 0;
-
-        uint8_t node_buff[NODE_EDGE_KEY_FIRST];
+        uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
 
         // Read node header
@@ -704,7 +700,21 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         if (node_buff[0] & FLAG_NODE_MATCH) {
             // Unset the match flag
             node_buff[0] &= ~FLAG_NODE_MATCH;
-            mm.WriteData(&node_buff[0], 1, node_off);
+            node_buff[NODE_EDGE_KEY_FIRST] = 0;
+
+            header->excep_offset = node_off;
+            header->excep_lf_offset = edge_ptrs.offset;
+            header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
+#ifdef __LOCK_FREE__
+            lfree.WriterLockFreeStart(edge_ptrs.offset);
+#endif
+            mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
+#ifdef __LOCK_FREE__
+            lfree.WriterLockFreeStop();
+#endif
+            header->excep_updating_status = EXCEP_STATUS_NONE;
+            header->excep_lf_offset = 0;
+            header->excep_offset = 0;
 
             // Release data buffer
             data_off = Get6BInteger(node_buff + 2);
-- 
2.43.0


From 1a65a0bdf8ac334ed02f9893ee30ff80d739697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:14 +0000
Subject: [PATCH 04/51] fix: store the crash journal status with release
 ordering

excep_updating_status was a plain int, so the compiler was free to store it
before the offset and buffer it vouches for (gcc does so in AddRootEdge). A
writer killed in between made recovery write the edge to a stale offset.
---
 src/db.cpp     | 2 +-
 src/dict.cpp   | 4 ++--
 src/drm_base.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 48aa244..c001fb5 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -616,7 +616,7 @@ int DB::PrepareStartupRebuild(const MBConfig& config, bool init_header)
         startup_rebuild_reset_only = true;
         Logger::Log(LOG_LEVEL_WARN,
             "jemalloc startup found exception update status %d for %s; next startup will clear DB to fresh state without recovery",
-            header->excep_updating_status, mb_dir.c_str());
+            header->excep_updating_status.load(), mb_dir.c_str());
         return MBError::SUCCESS;
     }
 
diff --git a/src/dict.cpp b/src/dict.cpp
index b35ec14..174b088 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1405,7 +1405,7 @@ int Dict::ExceptionRecovery()
     }
 
     Logger::Log(LOG_LEVEL_INFO, "writer was not shutdown gracefully with exception status %d",
-        header->excep_updating_status);
+        header->excep_updating_status.load());
     // Dumper header before running recover
     std::ofstream* logstream = Logger::GetLogStream();
     if (logstream != NULL) {
@@ -1471,7 +1471,7 @@ int Dict::ExceptionRecovery()
         break;
     default:
         Logger::Log(LOG_LEVEL_ERROR, "unknown exception status: %d",
-            header->excep_updating_status);
+            header->excep_updating_status.load());
         rval = MBError::INVALID_ARG;
     }
 #ifdef __LOCK_FREE__
diff --git a/src/drm_base.h b/src/drm_base.h
index 4deb27f..2ace0c2 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -178,7 +178,7 @@ typedef struct _IndexHeader {
     uint16_t eviction_bucket_index;
 
     // temp variables used for abnormal writer terminations
-    int excep_updating_status;
+    std::atomic<int> excep_updating_status;
     uint8_t excep_buff[MB_EXCEPTION_BUFF_SIZE];
     size_t excep_offset;
     size_t excep_lf_offset;
-- 
2.43.0


From 67b7a305c46906e6549f01258805805ca5f47352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 05/51] fix: validate every edge of a lookup after its data has
 been read

The last edge was read without a validation, so a concurrent removal or
update could hand the reader another key's value, and an edge validated
earlier could be changed (and what it leads to recycled) before the
lookup ended. One snapshot now covers the lookup and each stop checks
the whole path.
---
 src/detail/lf_guard.h        | 20 ++++++++-
 src/detail/search_engine.cpp | 79 +++++++++++++++++++++++++++---------
 src/detail/search_engine.h   | 14 ++++++-
 src/lock_free.cpp            | 24 +++++++++++
 src/lock_free.h              |  3 ++
 5 files changed, 118 insertions(+), 22 deletions(-)

diff --git a/src/detail/lf_guard.h b/src/detail/lf_guard.h
index e543803..4379295 100644
--- a/src/detail/lf_guard.h
+++ b/src/detail/lf_guard.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #ifdef __LOCK_FREE__
+#include "error.h"
 #include "lock_free.h"
 #include "mb_data.h"
 
@@ -14,13 +15,30 @@ struct ReaderLFGuard {
     LockFree& lf;
     MBData& data;
     LockFreeData snap;
+    // Edges already traversed in this lookup. A later change to any of them may
+    // recycle what they lead to, so they are checked again at every stop.
+    static const int MAX_PATH = 64;
+    size_t path[MAX_PATH];
+    int path_len;
     explicit ReaderLFGuard(LockFree& l, MBData& d)
         : lf(l)
         , data(d)
+        , path_len(0)
     {
         lf.ReaderLockFreeStart(snap);
     }
-    inline int stop(size_t edge_off) { return lf.ReaderLockFreeStop(snap, edge_off, data); }
+    inline int stop(size_t edge_off)
+    {
+        int rval = lf.ReaderLockFreeStop(snap, edge_off, data);
+        if (rval != MBError::SUCCESS)
+            return rval;
+        rval = lf.ReaderPathCheck(snap, path, path_len < MAX_PATH ? path_len : MAX_PATH, path_len <= MAX_PATH);
+        if (path_len < MAX_PATH)
+            path[path_len] = edge_off;
+        if (path_len <= MAX_PATH)
+            path_len++;
+        return rval;
+    }
 };
 
 } // namespace mabain
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c7e2d65..9980377 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -267,6 +267,8 @@ namespace detail {
             key_cursor += edge_len;
 
             if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
+                data.match_len = key_cursor - key;
+                rval = dict.ReadDataFromEdge(data, edge_ptrs);
 #ifdef __LOCK_FREE__
                 {
                     int _r = lf_guard.stop(edge_ptrs.offset);
@@ -274,13 +276,16 @@ namespace detail {
                         return _r;
                 }
 #endif
-                data.match_len = key_cursor - key;
-                return dict.ReadDataFromEdge(data, edge_ptrs);
+                return rval;
             }
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
             int last_prefix_rval = MBError::NOT_EXIST;
+#ifdef __LOCK_FREE__
+            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer, lf_guard);
+#else
             rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer);
+#endif
             if (rval == MBError::NOT_EXIST && last_prefix_rval != rval)
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
@@ -310,16 +315,16 @@ namespace detail {
         const uint8_t* key_buff;
         // Do not seed from prefix cache for operations that require
         // precise parent/edge bookkeeping (e.g., remove) or during rc view.
+#ifdef __LOCK_FREE__
+        // One snapshot covers the whole lookup, from the root edge to the data.
+        ReaderLFGuard lf_guard(dict.lfree, data);
+#endif
         bool use_cache = true
             && !(dict.reader_rc_off != 0 && root_off == dict.reader_rc_off)
             && !(data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT);
         bool used_cache = use_cache ? seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed) : false;
 
         if (!used_cache) {
-#ifdef __LOCK_FREE__
-            ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
-
             rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
             if (rval != MBError::SUCCESS) {
                 return MBError::READ_ERROR;
@@ -364,7 +369,15 @@ namespace detail {
                 consumed += edge_len;
                 len -= edge_len;
                 if (len <= 0) {
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
+                    rval = resolveMatchOrInDict(data, edge_ptrs, true);
+#ifdef __LOCK_FREE__
+                    {
+                        int _r = lf_guard.stop(edge_ptrs.offset);
+                        if (_r != MBError::SUCCESS)
+                            return _r;
+                    }
+#endif
+                    return rval;
                 }
                 if (isLeaf(edge_ptrs)) {
 #ifdef __LOCK_FREE__
@@ -380,7 +393,15 @@ namespace detail {
             } else if (edge_len == len) {
                 if (remainderMatches(key_buff, key_cursor, edge_len_m1)) {
                     // Find does not update prefix cache; writer seeds during Add
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
+                    rval = resolveMatchOrInDict(data, edge_ptrs, true);
+#ifdef __LOCK_FREE__
+                    {
+                        int _r = lf_guard.stop(edge_ptrs.offset);
+                        if (_r != MBError::SUCCESS)
+                            return _r;
+                    }
+#endif
+                    return rval;
                 }
 #ifdef __LOCK_FREE__
                 {
@@ -411,23 +432,38 @@ namespace detail {
         }
 
         if (used_cache) {
-            if (len <= 0)
-                return resolveMatchOrInDict(data, edge_ptrs, false);
-            if (isLeaf(edge_ptrs))
-                return MBError::NOT_EXIST;
+            if (len <= 0 || isLeaf(edge_ptrs)) {
+                rval = (len <= 0) ? resolveMatchOrInDict(data, edge_ptrs, false) : MBError::NOT_EXIST;
+#ifdef __LOCK_FREE__
+                {
+                    int _r = lf_guard.stop(edge_ptrs.offset);
+                    if (_r != MBError::SUCCESS)
+                        return _r;
+                }
+#endif
+                return rval;
+            }
         }
+#ifdef __LOCK_FREE__
+        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data, lf_guard);
+#else
         return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+#endif
     }
 
     int SearchEngine::traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data)
+        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data
+#ifdef __LOCK_FREE__
+        ,
+        ReaderLFGuard& lf_guard
+#endif
+    )
     {
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
         int rval = MBError::SUCCESS;
 #ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
         size_t edge_offset_prev = edge_ptrs.offset;
 #else
         size_t edge_offset_prev = edge_ptrs.offset;
@@ -476,11 +512,12 @@ namespace detail {
 
             len -= edge_len;
             if (len <= 0) {
-                int _ret = resolveMatchOrInDict(data, edge_ptrs, false);
-                return _ret;
+                rval = resolveMatchOrInDict(data, edge_ptrs, false);
+                break;
             }
             if (isLeaf(edge_ptrs)) {
-                return MBError::NOT_EXIST;
+                rval = MBError::NOT_EXIST;
+                break;
             }
 
             key_cursor += edge_len;
@@ -505,12 +542,16 @@ namespace detail {
     }
 
     int SearchEngine::traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
-        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const
+        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]
+#ifdef __LOCK_FREE__
+        ,
+        ReaderLFGuard& lf_guard
+#endif
+    ) const
     {
         int rval;
         uint8_t* node_buff = data.node_buff;
 #ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
         size_t edge_offset_prev = edge_ptrs.offset;
 #else
         size_t edge_offset_prev = edge_ptrs.offset;
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 08b5e25..e4b1fd5 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -55,13 +55,23 @@ namespace detail {
         inline int tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
         int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
         int traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data);
+            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data
+#ifdef __LOCK_FREE__
+            ,
+            ReaderLFGuard& lf_guard
+#endif
+        );
 
         // Prefix internals
         int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
         int traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
             EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval,
-            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const;
+            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]
+#ifdef __LOCK_FREE__
+            ,
+            ReaderLFGuard& lf_guard
+#endif
+        ) const;
 
         // Small helpers
         // Exact-match path helper: always copy edge tail into node_buff
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index 0323324..8548111 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -133,4 +133,28 @@ int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_off
     return MBError::SUCCESS;
 }
 
+int LockFree::ReaderPathCheck(const LockFreeData& snapshot, const size_t* edge_offs, int num,
+    bool complete) const
+{
+    uint32_t count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
+    if (count_diff == 0)
+        return MBError::SUCCESS;
+    if (count_diff >= MAX_OFFSET_CACHE || !complete)
+        return MBError::TRY_AGAIN;
+
+    for (unsigned i = 0; i < count_diff; i++) {
+        int index = (snapshot.counter + i) % MAX_OFFSET_CACHE;
+        size_t offset = shm_data_ptr->offset_cache[index].load(MEMORY_ORDER_READER);
+        for (int j = 0; j < num; j++) {
+            if (offset == edge_offs[j])
+                return MBError::TRY_AGAIN;
+        }
+    }
+
+    count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN;
+    return MBError::SUCCESS;
+}
+
 }
diff --git a/src/lock_free.h b/src/lock_free.h
index 7549508..aaaf732 100644
--- a/src/lock_free.h
+++ b/src/lock_free.h
@@ -59,6 +59,9 @@ public:
     // If there was race condition, this function returns MBError::TRY_AGAIN.
     int ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
         MBData& mbdata);
+    // Check that none of the given edges was modified since the snapshot was taken.
+    // complete is false if not all traversed edges are given.
+    int ReaderPathCheck(const LockFreeData& snapshot, const size_t* edge_offs, int num, bool complete) const;
 
 private:
     LockFreeShmData* shm_data_ptr;
-- 
2.43.0


From b908b4ff0e3e10ad195c30370c93179b57097a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 06/51] fix: do not match an edge that is longer than the rest
 of the key

The edge string was compared with bytes behind the end of the given key,
so Find could succeed for a strict prefix of a stored key and read out of
bounds.
---
 src/detail/search_engine.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 9980377..d36eef2 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -504,6 +504,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            if (edge_len > len) {
+                // The edge is longer than the rest of the key.
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
             if (rval == MBError::READ_ERROR)
                 break;
@@ -606,7 +611,7 @@ namespace detail {
             }
 
             // Compare remainder of the edge string when present and ensure edge is valid
-            if (edge_len == 0 || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)) {
+            if (edge_len == 0 || edge_len > len || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)) {
                 rval = MBError::NOT_EXIST;
                 break;
             }
@@ -761,7 +766,11 @@ namespace detail {
             // Any divergence returns NOT_EXIST to the caller, carrying the best
             // candidate captured so far in bound_edge_ptrs.
             if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, edge_label_len);
+                // Do not compare beyond the end of the key.
+                int cmp_len = (edge_len > len) ? len - 1 : edge_label_len;
+                int label_cmp = memcmp(edge_label_ptr, key + 1, cmp_len);
+                if (label_cmp == 0 && edge_len > len)
+                    return MBError::NOT_EXIST; // all keys in this subtree are greater
                 if (label_cmp != 0) {
                     // If the edge label is strictly less than the key suffix, signal
                     // that the current subtree itself is a valid lower-bound pivot.
-- 
2.43.0


From 7b6ff0b6e0ab1e81f58448e467e0372abd3e998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 07/51] fix: report the length of the prefix whose value is
 returned

FindLongestPrefix set match_len before it knew whether the edge had data,
so an internal node without a value made it return the value of a shorter
prefix with the length of the longer one. A result of the resource
collection tree no longer hides an error of the main tree.
---
 src/detail/search_engine.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index d36eef2..623c2f2 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -86,7 +86,7 @@ namespace detail {
 #endif
 
         // Prefer the longer match: copy value and match_len when rc-path wins.
-        if (data_rc.match_len > data.match_len) {
+        if ((rval == MBError::SUCCESS || rval == MBError::NOT_EXIST) && data_rc.match_len > data.match_len) {
             data_rc.TransferValueTo(data.buff, data.data_len);
             // Preserve the longer match length from rc-path.
             data.match_len = data_rc.match_len;
@@ -267,8 +267,9 @@ namespace detail {
             key_cursor += edge_len;
 
             if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-                data.match_len = key_cursor - key;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key;
 #ifdef __LOCK_FREE__
                 {
                     int _r = lf_guard.stop(edge_ptrs.offset);
@@ -290,8 +291,9 @@ namespace detail {
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                data.match_len = len;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = len;
             }
         }
 
@@ -619,8 +621,10 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                data.match_len = key_cursor - key_base;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                // Keep the length of the last matching node if this edge has no data.
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key_base;
                 break;
             }
 #ifdef __LOCK_FREE__
-- 
2.43.0


From 4f45fd6f8f7ba21e5657ebe36694cdfdf9ed7dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 08/51] fix: every DB lookup holds the reader epoch guard;
 publish the epoch sequentially consistently

InDB, FindLowerBound and ReadDataByOffset read the trie and data buffers without
announcing themselves, so a startup rebuild could recycle a block under them.
The epoch store must be ordered before the re-read of the global epoch.
---
 src/db.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index c001fb5..2a0222a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -198,8 +198,10 @@ uint64_t DB::BeginReaderEpochGuard() const
         slot.proc_start_time.store(process_start_time, MEMORY_ORDER_WRITER);
         for (uint32_t retry = 0; retry < kReaderEpochGuardMaxStabilizeRetries; retry++) {
             uint64_t epoch = header->reader_epoch.load(MEMORY_ORDER_READER);
-            slot.epoch.store(epoch, MEMORY_ORDER_WRITER);
-            if (epoch == header->reader_epoch.load(MEMORY_ORDER_READER)) {
+            // The store must be visible before the epoch is read again; release and
+            // acquire do not order a store with a later load.
+            slot.epoch.store(epoch, std::memory_order_seq_cst);
+            if (epoch == header->reader_epoch.load(std::memory_order_seq_cst)) {
                 reader_guard_fast_slot_count++;
                 return i + 1;
             }
@@ -905,8 +907,10 @@ bool DB::InDB(const char* key, int len, int& err)
         return false;
     }
     MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
+    uint64_t reader_epoch = BeginReaderEpochGuard();
     detail::SearchEngine engine(*dict);
     int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, data);
+    EndReaderEpochGuard(reader_epoch);
     if (rval == MBError::IN_DICT) {
         return true; // found it
     } else if (rval != MBError::NOT_EXIST) {
@@ -954,8 +958,11 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
     data.options = 0;
     if (bound_key != nullptr)
         bound_key->reserve(CONSTS::MAX_KEY_LENGHTH);
+    uint64_t reader_epoch = BeginReaderEpochGuard();
     detail::SearchEngine engine(*dict);
-    return engine.lowerBound(reinterpret_cast<const uint8_t*>(key), len, data, bound_key);
+    int rval = engine.lowerBound(reinterpret_cast<const uint8_t*>(key), len, data, bound_key);
+    EndReaderEpochGuard(reader_epoch);
+    return rval;
 }
 
 // Find the longest prefix match
@@ -986,7 +993,10 @@ int DB::ReadDataByOffset(size_t offset, MBData& data) const
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
 
-    return dict->ReadDataByOffset(offset, data);
+    uint64_t reader_epoch = BeginReaderEpochGuard();
+    int rval = dict->ReadDataByOffset(offset, data);
+    EndReaderEpochGuard(reader_epoch);
+    return rval;
 }
 
 int DB::WriteDataByOffset(size_t offset, const char* data, int data_len) const
-- 
2.43.0


From d5f720bd2667e16f062db81c1b8048f2f30b4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 09/51] fix: withdraw a reader slot's epoch before the slot is
 released

The slot was freed first, so another reader could claim it and have the epoch
it announced erased. Claim, epoch advance and slot scan are sequentially
consistent so that the rebuild cannot miss a reader.
---
 src/db.cpp     | 2 +-
 src/drm_base.h | 5 +++--
 src/mb_rc.cpp  | 8 ++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 2a0222a..ee67e91 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -191,7 +191,7 @@ uint64_t DB::BeginReaderEpochGuard() const
         ReaderEpochSlot& slot = header->reader_epoch_slot[i];
         uint32_t expected = 0;
         if (!slot.connect_id.compare_exchange_strong(
-                expected, slot_connect_id, MEMORY_ORDER_WRITER, MEMORY_ORDER_READER))
+                expected, slot_connect_id, std::memory_order_seq_cst, MEMORY_ORDER_READER))
             continue;
 
         slot.pid.store(static_cast<uint32_t>(getpid()), MEMORY_ORDER_WRITER);
diff --git a/src/drm_base.h b/src/drm_base.h
index 2ace0c2..037926d 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -80,10 +80,11 @@ typedef struct _ReaderEpochSlot {
 
     void Clear()
     {
-        connect_id.store(0, MEMORY_ORDER_WRITER);
+        epoch.store(0, MEMORY_ORDER_WRITER);
         pid.store(0, MEMORY_ORDER_WRITER);
         proc_start_time.store(0, MEMORY_ORDER_WRITER);
-        epoch.store(0, MEMORY_ORDER_WRITER);
+        // The slot can be claimed by another reader from here on.
+        connect_id.store(0, MEMORY_ORDER_WRITER);
     }
 } ReaderEpochSlot;
 
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e6b2597..15f51ce 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -498,9 +498,9 @@ bool ResourceCollection::IsReaderEpochQuiesced(uint64_t retire_epoch) const
 
     for (uint32_t i = 0; i < header->reader_epoch_slot_count; i++) {
         ReaderEpochSlot& slot = header->reader_epoch_slot[i];
-        if (slot.connect_id.load(MEMORY_ORDER_READER) == 0)
+        if (slot.connect_id.load(std::memory_order_seq_cst) == 0)
             continue;
-        uint64_t epoch = slot.epoch.load(MEMORY_ORDER_READER);
+        uint64_t epoch = slot.epoch.load(std::memory_order_seq_cst);
         if (epoch != 0 && epoch <= retire_epoch) {
             uint32_t pid = slot.pid.load(MEMORY_ORDER_READER);
             if (pid != 0) {
@@ -597,7 +597,7 @@ int ResourceCollection::EvacuateOneIndexBlock()
 
     TraverseDB(RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX);
 
-    uint64_t retire_epoch = header->reader_epoch.fetch_add(1, MEMORY_ORDER_WRITER);
+    uint64_t retire_epoch = header->reader_epoch.fetch_add(1, std::memory_order_seq_cst);
     int rval = QueueReusableBlock(startup_rebuild_.reusable_index_block,
         startup_rebuild_.reusable_index_block_count,
         evacuate_index_block_start / header->index_block_size,
@@ -623,7 +623,7 @@ int ResourceCollection::EvacuateOneDataBlock()
 
     TraverseDB(RESOURCE_COLLECTION_PHASE_EVACUATE_DATA);
 
-    uint64_t retire_epoch = header->reader_epoch.fetch_add(1, MEMORY_ORDER_WRITER);
+    uint64_t retire_epoch = header->reader_epoch.fetch_add(1, std::memory_order_seq_cst);
     int rval = QueueReusableBlock(startup_rebuild_.reusable_data_block,
         startup_rebuild_.reusable_data_block_count,
         evacuate_data_block_start / header->data_block_size,
-- 
2.43.0


From 9c13e6cbd7c9e469b97648d3cbfa04173769d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 10/51] fix: give every handle its own rebuild barrier file
 descriptor

flock() locks belong to the open file description; with one taken from the
resource pool a handle could release the shared lock of another reader.
---
 src/db.cpp | 11 +++++------
 src/db.h   |  6 +++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ee67e91..4fa1d69 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -253,13 +253,12 @@ int DB::EnsureRebuildGuardFd() const
     if (options & CONSTS::MEMORY_ONLY_MODE)
         return MBError::NOT_INITIALIZED;
 
-    bool map_file = false;
-    const std::string header_path = mb_dir + "_mabain_h";
-    const std::string pool_key = header_path + "#rebuild_guard";
-    rebuild_guard_file = ResourcePool::getInstance().OpenFileWithKey(
-        pool_key, header_path, options, 0, map_file, false);
-    if (rebuild_guard_file == NULL || !rebuild_guard_file->IsOpen())
+    // A flock belongs to the open file description. It must not be shared with other
+    // handles in this process or one of them could release the lock of another.
+    std::shared_ptr<MmapFileIO> guard_file(new MmapFileIO(mb_dir + "_mabain_h", O_RDWR, 0));
+    if (!guard_file->IsOpen())
         return MBError::OPEN_FAILURE;
+    rebuild_guard_file = guard_file;
     return MBError::SUCCESS;
 }
 
diff --git a/src/db.h b/src/db.h
index 37bf8b3..c4ef860 100644
--- a/src/db.h
+++ b/src/db.h
@@ -248,12 +248,12 @@ private:
 
     // DB directory
     std::string mb_dir;
-    int options;
-    Dict* dict;
+    int options = 0;
+    Dict* dict = nullptr;
     int status;
 
     // DB connector ID
-    uint32_t identifier;
+    uint32_t identifier = 0;
     mutable std::shared_ptr<MmapFileIO> rebuild_guard_file;
     uint64_t process_start_time;
     mutable uint64_t reader_guard_fast_slot_count;
-- 
2.43.0


From 211c6dbfa9d57214532645a125e032de9af1966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 11/51] fix: only the registered writer releases the writer
 lock

Closing a second writer that was refused with WRITER_EXIST removed the entry
of the first one, and a third writer was let in.
---
 src/db.cpp | 5 ++++-
 src/db.h   | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 4fa1d69..677eca3 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -155,7 +155,9 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
-    if (options & CONSTS::ACCESS_MODE_WRITER) {
+    // Only the handle that registered itself as the writer may release the lock.
+    if (writer_registered) {
+        writer_registered = false;
         release_file_lock(writer_lock_fd);
         std::string lock_file = mb_dir + "_lock";
         ResourcePool::getInstance().RemoveResourceByPath(lock_file);
@@ -404,6 +406,7 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
         // internal check first
         int ret = ResourcePool::getInstance().AddResourceByPath(lock_file, NULL);
         if (ret == MBError::SUCCESS) {
+            writer_registered = true;
             if (!(config.options & CONSTS::MEMORY_ONLY_MODE)) {
                 // process check by file lock
                 writer_lock_fd = acquire_file_lock_wait_n(lock_file, 1);
diff --git a/src/db.h b/src/db.h
index c4ef860..767b020 100644
--- a/src/db.h
+++ b/src/db.h
@@ -263,11 +263,13 @@ private:
 
     // db lock
     MBLock lock;
-    MBConfig dbConfig;
+    MBConfig dbConfig = {};
 
-    AsyncWriter* async_writer;
+    AsyncWriter* async_writer = nullptr;
 
     int writer_lock_fd;
+    // this handle holds the writer entry of the DB in this process
+    bool writer_registered = false;
 };
 
 }
-- 
2.43.0


From ebb22a4730b2f90c22a0d0d3e9a8d85dfc8540d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 12/51] fix: do not erase the DB when the configuration is
 refused

A failed ValidateConfig left the status unset and InitDB took that for a
corrupted DB.
---
 src/db.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 677eca3..d263264 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -341,7 +341,7 @@ DB::DB(MBConfig& config)
 
 int DB::ValidateConfig(MBConfig& config)
 {
-    if (config.mbdir == NULL)
+    if (config.mbdir == NULL || config.mbdir[0] == '\0')
         return MBError::INVALID_ARG;
 
     if (config.memcap_index == 0)
@@ -779,8 +779,10 @@ void DB::InitDB(MBConfig& config)
 
     int fd = acquire_file_lock_wait_n(lock_file, 5000);
     InitDBEx(config);
+    // A refused request says nothing about the DB on disk.
     if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open()
-        && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED) {
+        && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED
+        && status != MBError::INVALID_ARG) {
         ReInit(config);
     }
     release_file_lock(fd);
@@ -791,8 +793,10 @@ void DB::InitDBEx(MBConfig& config)
     dict = NULL;
     async_writer = NULL;
 
-    if (ValidateConfig(config) != MBError::SUCCESS)
+    if (ValidateConfig(config) != MBError::SUCCESS) {
+        status = MBError::INVALID_ARG;
         return;
+    }
 
     // save the configuration
     memcpy(&dbConfig, &config, sizeof(MBConfig));
-- 
2.43.0


From 54824dbcd0b69b524d8427bc482da465690c8115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 13/51] fix: return errors thrown by Dict from Add, Remove and
 RemoveAll

---
 src/db.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index d263264..9b27656 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1036,7 +1036,11 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        try {
+            rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        } catch (int error) {
+            rval = error;
+        }
     } else {
         AsyncWriter* awr = AsyncWriter::GetInstance();
         if (awr) {
@@ -1106,7 +1110,11 @@ int DB::Remove(const char* key, int len)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        try {
+            rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        } catch (int error) {
+            rval = error;
+        }
     } else {
         rval = dict->SHMQ_Remove(reinterpret_cast<const char*>(key), len);
     }
@@ -1145,7 +1153,11 @@ int DB::RemoveAll()
 
     int rval;
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->RemoveAll();
+        try {
+            rval = dict->RemoveAll();
+        } catch (int error) {
+            rval = error;
+        }
     } else {
         rval = dict->SHMQ_RemoveAll();
     }
@@ -1158,7 +1170,12 @@ int DB::RemoveAllSync()
         return MBError::NOT_INITIALIZED;
     if (!(options & CONSTS::ACCESS_MODE_WRITER))
         return MBError::NOT_ALLOWED;
-    int rval = dict->RemoveAll();
+    int rval;
+    try {
+        rval = dict->RemoveAll();
+    } catch (int error) {
+        rval = error;
+    }
     return rval;
 }
 
-- 
2.43.0


From d902d6b79623278962a7c99ccdcecfed78c4ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 14/51] fix: refuse WriteDataByOffset on a reader handle

---
 src/db.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 9b27656..7751939 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1009,6 +1009,8 @@ int DB::WriteDataByOffset(size_t offset, const char* data, int data_len) const
 {
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
+    if (!(options & CONSTS::ACCESS_MODE_WRITER))
+        return MBError::NOT_ALLOWED;
 
     try {
         dict->WriteData(reinterpret_cast<const uint8_t*>(data), data_len, offset);
-- 
2.43.0


From 4ee399a7440a7f8a54ee8b0bf4d1f0e30b0f4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 15/51] fix: a closed handle does not use its unmapped dict and
 lock

---
 src/db.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 7751939..1500117 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -148,6 +148,8 @@ int DB::Close()
         dict->Destroy();
         delete dict;
         dict = NULL;
+        // the mutex is in the header unmapped above
+        lock.Init(NULL);
     } else {
         rval = status;
     }
@@ -1358,6 +1360,8 @@ bool DB::AsyncWriterEnabled() const
 
 bool DB::AsyncWriterBusy() const
 {
+    if (status != MBError::SUCCESS)
+        return false;
     return dict->SHMQ_Busy();
 }
 
-- 
2.43.0


From a53ea7f39d3d8fef888a6640f2ef476b2b916dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 16/51] fix: InDB reports only keys that have a value

---
 src/db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 1500117..593e4f0 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -914,12 +914,12 @@ bool DB::InDB(const char* key, int len, int& err)
         err = MBError::NOT_ALLOWED;
         return false;
     }
-    MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
+    MBData data;
     uint64_t reader_epoch = BeginReaderEpochGuard();
     detail::SearchEngine engine(*dict);
     int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, data);
     EndReaderEpochGuard(reader_epoch);
-    if (rval == MBError::IN_DICT) {
+    if (rval == MBError::SUCCESS) {
         return true; // found it
     } else if (rval != MBError::NOT_EXIST) {
         err = rval; // error
-- 
2.43.0


From e078a71faad02d62dd1488489eeaa140b6b06104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 17/51] fix: do not recycle a replaced value before the new one
 is linked

---
 src/dict.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 174b088..5cd8a5a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1199,8 +1199,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
         if (!overwrite)
             return MBError::IN_DICT;
-        if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", mbd.data_offset);
+        // The old buffer must not be reused before the new one is linked.
+        size_t old_data_offset = mbd.data_offset;
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
@@ -1215,9 +1215,13 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        if (ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", old_data_offset);
     } else {
         uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
+        size_t old_data_offset = 0;
+        bool release_old = false;
 
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
@@ -1227,8 +1231,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
             mbd.data_offset = Get6BInteger(node_buff + 2);
             if (!overwrite)
                 return MBError::IN_DICT;
-            if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-                Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
+            old_data_offset = mbd.data_offset;
+            release_old = true;
             node_buff[NODE_EDGE_KEY_FIRST] = 0;
         } else {
             // set the match flag
@@ -1251,6 +1255,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        if (release_old && ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", old_data_offset);
     }
 
     return MBError::SUCCESS;
-- 
2.43.0


From c9fefc008d2fba9bb9863dd3ca0e5f3d8937cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 18/51] fix: count an added key only when the add succeeded

---
 src/dict.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 5cd8a5a..8816a8a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -385,14 +385,21 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
         if (rval == MBError::SUCCESS)
             header->rc_count++;
     } else {
-        if (rval == MBError::SUCCESS)
+        if (rval == MBError::SUCCESS) {
             header->num_update++;
-        if (inc_count)
-            header->count++;
+            if (inc_count)
+                header->count++;
+        }
     }
     // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
     if (rval == MBError::SUCCESS && prefix_cache) {
-        SeedCanonicalBoundariesAfterAdd(key, orig_len, /*from_add=*/true);
+        try {
+            SeedCanonicalBoundariesAfterAdd(key, orig_len, /*from_add=*/true);
+        } catch (int err) {
+            // The key has been added. Only the cache entries are missing.
+            Logger::Log(LOG_LEVEL_WARN, "failed to seed prefix cache: %s",
+                MBError::get_error_str(err));
+        }
     }
     return rval;
 }
-- 
2.43.0


From 4be7f335b922e13c78ced8f6aa6020b225388e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 19/51] fix: release and count removed entries only once they
 are unlinked

---
 src/dict.cpp     | 29 +++++++++++++++++++----------
 src/dict_mem.cpp | 25 +++++++++++++++----------
 src/dict_mem.h   |  2 +-
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 8816a8a..4d629b4 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -19,6 +19,7 @@
 #include <errno.h>
 #include <iostream>
 #include <stdlib.h>
+#include <vector>
 
 #include "async_writer.h"
 #include "db.h"
@@ -694,8 +695,9 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         } else {
             rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
         }
-        ReleaseBuffer(data_off, rel_size);
         rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
+        if (rval == MBError::SUCCESS || rval == MBError::TRY_AGAIN)
+            ReleaseBuffer(data_off, rel_size);
     } else {
         uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
@@ -705,6 +707,11 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
             return MBError::READ_ERROR;
 
         if (node_buff[0] & FLAG_NODE_MATCH) {
+            data_off = Get6BInteger(node_buff + 2);
+            if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
+                != DATA_SIZE_BYTE)
+                return MBError::READ_ERROR;
+
             // Unset the match flag
             node_buff[0] &= ~FLAG_NODE_MATCH;
             node_buff[NODE_EDGE_KEY_FIRST] = 0;
@@ -724,11 +731,6 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
             header->excep_offset = 0;
 
             // Release data buffer
-            data_off = Get6BInteger(node_buff + 2);
-            if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
-                != DATA_SIZE_BYTE)
-                return MBError::READ_ERROR;
-
             if (options & CONSTS::OPTION_JEMALLOC) {
                 rel_size = data_len + DATA_HDR_BYTE;
             } else {
@@ -973,8 +975,15 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         rval = engine.find(key, len, data);
     }
     if (rval == MBError::IN_DICT) {
+        // Nodes that lost their only edge. They can be reused when the edges leading
+        // to them are gone.
+        std::vector<size_t> empty_nodes;
         rval = DeleteDataFromEdge(data, data.edge_ptrs);
+        // The value is gone even if the edges leading to it cannot be removed below.
+        if (rval == MBError::SUCCESS || rval == MBError::TRY_AGAIN)
+            header->count--;
         while (rval == MBError::TRY_AGAIN) {
+            empty_nodes.push_back(data.edge_ptrs.curr_node_offset);
             data.Clear();
             len -= data.edge_ptrs.len_ptr[0];
 #ifdef __DEBUG__
@@ -988,10 +997,10 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
                 rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data);
             }
         }
-    }
-
-    if (rval == MBError::SUCCESS) {
-        header->count--;
+        if (rval == MBError::SUCCESS) {
+            for (size_t node_offset : empty_nodes)
+                mm.ReleaseNode(node_offset, 0);
+        }
     }
 
     return rval;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 5c363ee..0d5a4cd 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1375,6 +1375,15 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
 {
     int rval = MBError::SUCCESS;
 
+    uint8_t old_edge_buff[16];
+    size_t old_edge_offset = node_offset + NODE_EDGE_KEY_FIRST + nt;
+    if (ReadData(old_edge_buff, EDGE_SIZE, old_edge_offset) != EDGE_SIZE)
+        return MBError::READ_ERROR;
+    if (old_edge_buff[EDGE_LEN_POS] > LOCAL_EDGE_LEN) {
+        str_off_rel = Get5BInteger(old_edge_buff);
+        str_size_rel = old_edge_buff[EDGE_LEN_POS] - 1;
+    }
+
     if (old_node_buffer[0] & FLAG_NODE_MATCH) {
         uint8_t* parent_edge_buff = header->excep_buff;
         size_t data_offset = Get6BInteger(old_node_buffer + 2);
@@ -1393,15 +1402,6 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
         rval = MBError::TRY_AGAIN;
     }
 
-    uint8_t old_edge_buff[16];
-    size_t old_edge_offset = node_offset + NODE_EDGE_KEY_FIRST + nt;
-    if (ReadData(old_edge_buff, EDGE_SIZE, old_edge_offset) != EDGE_SIZE)
-        return MBError::READ_ERROR;
-    if (old_edge_buff[EDGE_LEN_POS] > LOCAL_EDGE_LEN) {
-        str_off_rel = Get5BInteger(old_edge_buff);
-        str_size_rel = old_edge_buff[EDGE_LEN_POS] - 1;
-    }
-
     return rval;
 }
 
@@ -1438,9 +1438,14 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
             header->excep_offset, nt, str_off_rel, str_size_rel);
     }
     header->excep_updating_status = EXCEP_STATUS_NONE;
+    if (rval != MBError::SUCCESS && rval != MBError::TRY_AGAIN)
+        return rval;
 
     header->n_edges--;
-    ReleaseNode(header->excep_offset, nt - 1);
+    // On TRY_AGAIN the node is still linked, the caller releases it after the edge
+    // leading to it has been removed.
+    if (rval == MBError::SUCCESS)
+        ReleaseNode(header->excep_offset, nt - 1);
     if (str_size_rel > 0)
         ReleaseBuffer(str_off_rel, str_size_rel);
 
diff --git a/src/dict_mem.h b/src/dict_mem.h
index bcb9374..5a59d19 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -85,6 +85,7 @@ public:
         uint8_t* node_buff, MBData& mbdata, EdgePtrs& less_edge_ptrs, int& le_edge_key) const;
     int NextMaxEdge(EdgePtrs& edge_ptrs, uint8_t* node_buff, MBData& mbdata, int& max_key) const;
     int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
+    void ReleaseNode(size_t offset, int nt);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     void WriteData(const uint8_t* buff, unsigned len, size_t offset) const;
@@ -107,7 +108,6 @@ public:
 private:
     friend class DictMemReleaseTestPeer;
     bool ReserveNode(int nt, size_t& offset, uint8_t*& ptr);
-    void ReleaseNode(size_t offset, int nt);
     void ReleaseBuffer(size_t offset, int size);
     void UpdateTailEdge(EdgePtrs& edge_ptrs, int match_len, MBData& data,
         EdgePtrs& tail_edge, uint8_t& new_key_first,
-- 
2.43.0


From c790ed991c93e1b96aa856b780e566d6a814e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 20/51] fix: a reader does not create, extend or initialize the
 prefix cache region

With OPTION_PREFIX_CACHE a handle without writer access created _mabain_d0,
extended it and wrote the cache header and tables.
---
 src/dict.cpp              |  3 ++-
 src/util/prefix_cache.cpp | 17 +++++++++++++----
 src/util/prefix_cache.h   |  5 +++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 4d629b4..e8cdaf5 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -140,7 +140,8 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
         bool want_cache = (header->pfxcache_size > 0) && (options & CONSTS::OPTION_PREFIX_CACHE);
         if (want_cache) {
             try {
-                prefix_cache = std::unique_ptr<PrefixCache>(new PrefixCache(mbdir_, header, /*capacity hint*/65536));
+                prefix_cache = std::unique_ptr<PrefixCache>(new PrefixCache(mbdir_, header, /*capacity hint*/65536,
+                    (options & CONSTS::ACCESS_MODE_WRITER) != 0));
             } catch (...) {
                 // Leave cache disabled on failure; DB remains operational.
             }
diff --git a/src/util/prefix_cache.cpp b/src/util/prefix_cache.cpp
index 8df7c6f..f27d20c 100644
--- a/src/util/prefix_cache.cpp
+++ b/src/util/prefix_cache.cpp
@@ -50,7 +50,7 @@ static inline size_t cap3_from_capacity(size_t capacity)
 //     overflow; publish protocol clears valid, writes body+tag, then sets valid.
 //
 // Publication/reads use release/acquire on the atomic tag/valid arrays.
-PrefixCache::PrefixCache(const std::string& mbdir, const IndexHeader* hdr, size_t capacity)
+PrefixCache::PrefixCache(const std::string& mbdir, const IndexHeader* hdr, size_t capacity, bool writer)
     : cap2(0)
     , cap3(0)
     , cap4(0)
@@ -107,7 +107,7 @@ PrefixCache::PrefixCache(const std::string& mbdir, const IndexHeader* hdr, size_
     full2 = (cap2 == 65536);
     // Embedded mapping only
     if (hdr_ && hdr_->pfxcache_size > 0) {
-        if (!map_embedded(mbdir))
+        if (!map_embedded(mbdir, writer))
             throw std::runtime_error("PrefixCache: failed to map embedded cache");
     } else {
         throw std::runtime_error("PrefixCache: no embedded cache available");
@@ -220,18 +220,20 @@ bool PrefixCache::map_shared(const std::string& path)
 
 // Map the embedded cache region inside _mabain_d.
 // We map the whole first block if necessary and then set pointers at the HDR offset.
-bool PrefixCache::map_embedded(const std::string& mbdir)
+// Only the writer creates, extends or initializes the region.
+bool PrefixCache::map_embedded(const std::string& mbdir, bool writer)
 {
     // Resolve data file block0 path and open.
     std::string data_path0 = mbdir + std::string("_mabain_d0");
     // Create the first data block file if it does not exist yet
-    int fd = ::open(data_path0.c_str(), O_CREAT | O_RDWR, 0666);
+    int fd = ::open(data_path0.c_str(), writer ? (O_CREAT | O_RDWR) : O_RDWR, 0666);
     if (fd < 0) return false;
     struct stat st;
     if (fstat(fd, &st) != 0) { ::close(fd); return false; }
     // Ensure file is at least large enough to cover the cache region
     size_t end_needed = hdr_->pfxcache_offset + hdr_->pfxcache_size;
     if ((size_t)st.st_size < end_needed) {
+        if (!writer) { ::close(fd); return false; }
         // Prefer posix_fallocate to avoid sparse files; fall back to ftruncate if unavailable
         int rc = 0;
 #ifdef _XOPEN_SOURCE
@@ -273,6 +275,13 @@ bool PrefixCache::map_embedded(const std::string& mbdir)
 
     auto* hdr = reinterpret_cast<PCShmHeader*>((uint8_t*)base + shm_delta);
     bool init = (hdr->magic != MAGIC || hdr->version != VER);
+    if (init && !writer) {
+        ::munmap(shm_base, shm_size);
+        ::close(fd);
+        shm_base = nullptr;
+        shm_fd = -1;
+        return false;
+    }
     if (init) {
         hdr->magic = MAGIC;
         hdr->version = VER;
diff --git a/src/util/prefix_cache.h b/src/util/prefix_cache.h
index 520da8e..c7d5e31 100644
--- a/src/util/prefix_cache.h
+++ b/src/util/prefix_cache.h
@@ -74,7 +74,8 @@ class PrefixCache {
 public:
     ~PrefixCache();
     // Shared cache backed by embedded region in _mabain_d.
-    PrefixCache(const std::string& mbdir, const IndexHeader* hdr, size_t capacity = 65536);
+    PrefixCache(const std::string& mbdir, const IndexHeader* hdr, size_t capacity = 65536,
+        bool writer = true);
 
     void Put(const uint8_t* key, int len, const PrefixCacheEntry& in);
     void PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEntry& in);
@@ -137,7 +138,7 @@ private:
     int shm_fd = -1;
     std::string shm_path;
     bool map_shared(const std::string& path);
-    bool map_embedded(const std::string& mbdir);
+    bool map_embedded(const std::string& mbdir, bool writer);
     void unmap_shared();
 
     const IndexHeader* hdr_ = nullptr; // header for embedded layout discovery
-- 
2.43.0


From 60b01aaa88757bd6c7f2ff7bc8b028e4a540ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 21/51] fix: only the writer reserves the prefix cache region
 in the data file

A reader opened with OPTION_JEMALLOC ran the allocator's pre-allocation on the
writer's data file.
---
 src/dict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index e8cdaf5..77e155f 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -129,7 +129,7 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
 
     // In jemalloc mode, ensure the data-file arena starts after the reserved
     // embedded prefix-cache region so allocations do not overwrite cache tables.
-    if ((options & CONSTS::OPTION_JEMALLOC) && header->pfxcache_size > 0) {
+    if ((options & CONSTS::ACCESS_MODE_WRITER) && (options & CONSTS::OPTION_JEMALLOC) && header->pfxcache_size > 0) {
         // header->m_data_offset already points to the first user-data byte.
         // PreAlloc advances the arena's alloc_size to this offset for block 0.
         (void)kv_file->PreAlloc(header->m_data_offset);
-- 
2.43.0


From b8544439f43627f213cecf3549becda5ea3cfc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 22/51] fix: an offset outside the block files is a read error,
 not an exception

---
 src/rollable_file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 41ed77c..e0c935b 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -202,6 +202,8 @@ int RollableFile::CheckAndOpenFile(size_t order, bool create_file)
 {
     int rval = MBError::SUCCESS;
 
+    if (order >= max_num_block)
+        return MBError::NO_RESOURCE;
     if (order >= static_cast<size_t>(files.size()))
         files.resize(order + 3, NULL);
 
@@ -639,8 +641,9 @@ size_t RollableFile::MemRead(void* dst, size_t size, size_t offset)
 {
     int block_order = offset / block_size;
     size_t relative_offset = offset % block_size;
-    if (relative_offset + size > block_size) {
-        throw (int)MBError::OUT_OF_BOUND;
+    // A reader racing with the writer can come here with a stale offset.
+    if (offset / block_size >= max_num_block || relative_offset + size > block_size) {
+        return 0; // signal read error to caller
     }
     // Ensure the source block is opened/mapped in jemalloc mode
     if (block_order >= (int)files.size() || files[block_order] == nullptr) {
@@ -649,6 +652,8 @@ size_t RollableFile::MemRead(void* dst, size_t size, size_t offset)
             return 0; // signal read error to caller
         }
     }
+    if (!files[block_order]->IsMapped())
+        return 0;
     memcpy(dst, files[block_order]->GetMapAddr() + relative_offset, size);
     return size;
 }
-- 
2.43.0


From f5fbc03b50e134e7665808dfedfc01ea18b94f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 23/51] fix: a failed backup copy is reported with an int error
 code

---
 src/mb_backup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a6a5525..4c0ab5b 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -53,12 +53,12 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
 
     if ((fp_read = fopen(src_path.c_str(), "rb")) == NULL) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", src_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
     if ((fp_write = fopen(dest_path.c_str(), "wb")) == NULL) {
         fclose(fp_read);
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
 
     int rval = MBError::SUCCESS;
-- 
2.43.0


From 50ddcd4bc0629d5ca0c5131d20af98222bc98ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 24/51] fix: iterators and UpdateNumHandlers do not use a DB
 that is not open

---
 src/db.cpp       |  2 ++
 src/iterator.cpp | 24 ++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 593e4f0..9646496 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -172,6 +172,8 @@ int DB::UpdateNumHandlers(int mode, int delta)
 {
     int rval = MBError::SUCCESS;
 
+    if (dict == NULL)
+        return MBError::NOT_INITIALIZED;
     if (mode & CONSTS::ACCESS_MODE_WRITER)
         rval = dict->UpdateNumWriter(delta);
     else
diff --git a/src/iterator.cpp b/src/iterator.cpp
index c9ddd94..5e90bbf 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -110,6 +110,12 @@ void DB::iterator::iter_obj_init()
     kv_per_node = NULL;
     lfree = NULL;
 
+    // nothing to iterate if the DB is not open
+    if (db_ref.dict == NULL) {
+        state = DB_ITER_STATE_DONE;
+        return;
+    }
+
     if (!(db_ref.GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) {
 #ifdef __LOCK_FREE__
         lfree = db_ref.dict->GetLockFreePtr();
@@ -150,12 +156,19 @@ void DB::iterator::init(bool check_async_mode)
         state = DB_ITER_STATE_DONE;
         return;
     }
+    if (db_ref.dict == NULL)
+        return;
 
     node_stack = new MBlsq(free_iterator_node);
     kv_per_node = new MBlsq(free_iterator_node);
 
-    load_kv_for_node("");
-    if (next() == NULL)
+    int rval;
+    try {
+        rval = load_kv_for_node("");
+    } catch (int error) {
+        rval = error;
+    }
+    if (rval != MBError::SUCCESS || next() == NULL)
         state = DB_ITER_STATE_DONE;
 }
 
@@ -163,6 +176,9 @@ void DB::iterator::init(bool check_async_mode)
 // This is used for resource collection.
 int DB::iterator::init_no_next()
 {
+    if (db_ref.dict == NULL)
+        return MBError::NOT_INITIALIZED;
+
     node_stack = new MBlsq(NULL);
     kv_per_node = NULL;
 
@@ -364,6 +380,10 @@ DB::iterator* DB::iterator::next()
 {
     iterator_node* inode;
 
+    // not initialized or the DB was closed during the iteration
+    if (kv_per_node == NULL || db_ref.dict == NULL)
+        return NULL;
+
     while (kv_per_node->Count() == 0) {
         inode = (iterator_node*)node_stack->RemoveFromHead();
         if (inode == NULL)
-- 
2.43.0


From 771bfcf7d04cb37dfa8e2b7f689b3106a2ad0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 25/51] fix: errors raised while opening, iterating or
 recovering do not escape as exceptions

---
 src/async_writer.cpp |  9 +++++++--
 src/db.cpp           | 19 +++++++++++++++----
 src/iterator.cpp     |  7 ++++++-
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index a02514c..28fd62f 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -217,9 +217,14 @@ void* AsyncWriter::async_writer_thread()
 
     Logger::Log(LOG_LEVEL_DEBUG, "async writer started");
     if (!(db->GetDBOptions() & CONSTS::OPTION_JEMALLOC)) {
-        ResourceCollection rc(*db);
         writer_lock.lock();
-        rc.ExceptionRecovery();
+        try {
+            ResourceCollection rc(*db);
+            rc.ExceptionRecovery();
+        } catch (int err) {
+            Logger::Log(LOG_LEVEL_WARN, "rc exception recovery failed: %s",
+                MBError::get_error_str(err));
+        }
         writer_lock.unlock();
     }
 
diff --git a/src/db.cpp b/src/db.cpp
index 9646496..88b5240 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -571,8 +571,13 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
         } else {
             if (!(config.options & CONSTS::ASYNC_WRITER_MODE)) {
                 // Run rc exception recovery
-                ResourceCollection rc(*this);
-                int rval = rc.ExceptionRecovery();
+                int rval;
+                try {
+                    ResourceCollection rc(*this);
+                    rval = rc.ExceptionRecovery();
+                } catch (int error) {
+                    rval = error;
+                }
                 if (rval == MBError::SUCCESS) {
                     IndexHeader* header = dict->GetHeaderPtr();
                     header->excep_lf_offset = 0;
@@ -786,7 +791,7 @@ void DB::InitDB(MBConfig& config)
     // A refused request says nothing about the DB on disk.
     if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open()
         && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED
-        && status != MBError::INVALID_ARG) {
+        && status != MBError::INVALID_ARG && status != MBError::THREAD_FAILED) {
         ReInit(config);
     }
     release_file_lock(fd);
@@ -848,7 +853,13 @@ void DB::InitDBEx(MBConfig& config)
     // Prefix cache: auto-enable only if DB was created with OPTION_PREFIX_CACHE
     // (embedded) or reader requested the option and cache can attach.
 
-    PostDBUpdate(config, init_header, update_header);
+    try {
+        PostDBUpdate(config, init_header, update_header);
+    } catch (int error) {
+        status = error;
+        Logger::Log(LOG_LEVEL_ERROR, "failed to open database %s: %s", mb_dir.c_str(),
+            MBError::get_error_str(status));
+    }
 }
 
 int DB::Status() const
diff --git a/src/iterator.cpp b/src/iterator.cpp
index 5e90bbf..1c0d9f7 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -389,7 +389,12 @@ DB::iterator* DB::iterator::next()
         if (inode == NULL)
             return NULL;
 
-        int rval = load_kv_for_node(*inode->key);
+        int rval;
+        try {
+            rval = load_kv_for_node(*inode->key);
+        } catch (int error) {
+            rval = error;
+        }
         free_iterator_node(inode);
         if (rval != MBError::SUCCESS)
             return NULL;
-- 
2.43.0


From a1cb3113cee09bdaf9ceef63a0ed53411995f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 26/51] fix: CollectResource reports that its request could not
 be queued

---
 src/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 88b5240..2310239 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1264,7 +1264,7 @@ int DB::CollectResource(int64_t min_index_rc_size, int64_t min_data_rc_size,
             ResourceCollection rc(*this);
             rc.ReclaimResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
         } else {
-            dict->SHMQ_CollectResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
+            return dict->SHMQ_CollectResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
         }
     } catch (int error) {
         if (error != MBError::RC_SKIPPED) {
-- 
2.43.0


From c5e42970ae3e6dcc9311a84b1f9ec20197c9c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 27/51] fix: queued updates with negative lengths are refused,
 queued backups carry their length

---
 src/shmq_update.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 6bd1cdb..f6116e3 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -29,7 +29,7 @@ namespace mabain {
 int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
     bool overwrite)
 {
-    if (key_len > MB_ASYNC_SHM_KEY_SIZE || data_len > MB_ASYNC_SHM_DATA_SIZE) {
+    if (key_len < 0 || key_len > MB_ASYNC_SHM_KEY_SIZE || data_len < 0 || data_len > MB_ASYNC_SHM_DATA_SIZE) {
         return MBError::OUT_OF_BOUND;
     }
 
@@ -50,7 +50,7 @@ int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
 
 int Dict::SHMQ_Remove(const char* key, int len)
 {
-    if (len > MB_ASYNC_SHM_KEY_SIZE)
+    if (len < 0 || len > MB_ASYNC_SHM_KEY_SIZE)
         return MBError::OUT_OF_BOUND;
 
     int err = MBError::SUCCESS;
@@ -87,6 +87,7 @@ int Dict::SHMQ_Backup(const char* backup_dir)
     if (node_ptr == nullptr)
         return err;
     snprintf(node_ptr->data, MB_ASYNC_SHM_DATA_SIZE, "%s", backup_dir);
+    node_ptr->data_len = strlen(node_ptr->data);
     node_ptr->type = MABAIN_ASYNC_TYPE_BACKUP;
     return SHMQ_PrepareSlot(node_ptr);
 }
-- 
2.43.0


From 823b8e74d309e118eb260e8181435a47da3d7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 28/51] fix: an update is not sent to the async writer of
 another or a closed database

---
 src/async_writer.cpp | 10 ++++++++--
 src/async_writer.h   |  3 ++-
 src/db.cpp           |  2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 28fd62f..abf1f46 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -38,9 +38,13 @@ AsyncWriter* AsyncWriter::CreateInstance(DB* db_ptr)
     return writer_instance;
 }
 
-AsyncWriter* AsyncWriter::GetInstance()
+AsyncWriter* AsyncWriter::GetInstance(const DB* db_ptr)
 {
-    return writer_instance;
+    AsyncWriter* awr = writer_instance;
+    if (awr == NULL || awr->db->GetDBDir() != db_ptr->GetDBDir()
+        || ((awr->db->GetDBOptions() ^ db_ptr->GetDBOptions()) & CONSTS::MEMORY_ONLY_MODE))
+        return NULL;
+    return awr;
 }
 
 AsyncWriter::AsyncWriter(DB* db_ptr)
@@ -77,6 +81,8 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
 
 AsyncWriter::~AsyncWriter()
 {
+    if (writer_instance == this)
+        writer_instance = NULL;
 }
 
 int AsyncWriter::StopAsyncThread()
diff --git a/src/async_writer.h b/src/async_writer.h
index 56f6db9..c97659d 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -40,7 +40,8 @@ public:
     int AddWithLock(const char* key, int len, MBData& mbdata, bool overwrite);
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
-    static AsyncWriter* GetInstance();
+    // the async writer of the given database in this process, if any
+    static AsyncWriter* GetInstance(const DB* db_ptr);
 
 private:
     AsyncWriter(DB* db_ptr);
diff --git a/src/db.cpp b/src/db.cpp
index 2310239..9dd4f8b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1059,7 +1059,7 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
             rval = error;
         }
     } else {
-        AsyncWriter* awr = AsyncWriter::GetInstance();
+        AsyncWriter* awr = AsyncWriter::GetInstance(this);
         if (awr) {
             try {
                 rval = awr->AddWithLock(key, len, mbdata, overwrite);
-- 
2.43.0


From 5e50ec30d83ba2a5b2b1cb1876285820c9b9a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 29/51] fix: synchronous updates and backups of an async writer
 hold the writer lock

---
 src/async_writer.cpp | 2 ++
 src/async_writer.h   | 2 ++
 src/db.cpp           | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index abf1f46..b82fbf1 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -315,12 +315,14 @@ void* AsyncWriter::async_writer_thread()
             rval = MBError::SUCCESS;
             break;
         case MABAIN_ASYNC_TYPE_BACKUP:
+            writer_lock.lock();
             try {
                 DBBackup mbbk(*db);
                 rval = mbbk.Backup((const char*)node_ptr->data);
             } catch (int error) {
                 rval = error;
             }
+            writer_lock.unlock();
             break;
         default:
             rval = MBError::INVALID_ARG;
diff --git a/src/async_writer.h b/src/async_writer.h
index c97659d..a8b4b9b 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -37,6 +37,8 @@ public:
 
     int StopAsyncThread();
     int ProcessTask(int ntasks, bool rc_mode);
+    // held by whoever modifies the database while the async thread is running
+    std::timed_mutex& WriterLock() { return writer_lock; }
     int AddWithLock(const char* key, int len, MBData& mbdata, bool overwrite);
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
diff --git a/src/db.cpp b/src/db.cpp
index 9dd4f8b..80d73a1 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1027,6 +1027,9 @@ int DB::WriteDataByOffset(size_t offset, const char* data, int data_len) const
     if (!(options & CONSTS::ACCESS_MODE_WRITER))
         return MBError::NOT_ALLOWED;
 
+    std::unique_lock<std::timed_mutex> guard;
+    if (async_writer != NULL)
+        guard = std::unique_lock<std::timed_mutex>(async_writer->WriterLock());
     try {
         dict->WriteData(reinterpret_cast<const uint8_t*>(data), data_len, offset);
     } catch (int error) {
@@ -1187,6 +1190,9 @@ int DB::RemoveAllSync()
         return MBError::NOT_INITIALIZED;
     if (!(options & CONSTS::ACCESS_MODE_WRITER))
         return MBError::NOT_ALLOWED;
+    std::unique_lock<std::timed_mutex> guard;
+    if (async_writer != NULL)
+        guard = std::unique_lock<std::timed_mutex>(async_writer->WriterLock());
     int rval;
     try {
         rval = dict->RemoveAll();
-- 
2.43.0


From e93826fe78df5ff90df58aa16fdd1757138ee913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 30/51] fix: Backup of a writer without async thread is not
 queued for nobody

---
 src/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 80d73a1..e6e1b67 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1217,7 +1217,7 @@ int DB::Backup(const char* bk_dir)
         return MBError::NOT_ALLOWED;
 
     try {
-        if (async_writer == NULL && (options & CONSTS::ASYNC_WRITER_MODE)) {
+        if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
             DBBackup bk(*this);
             rval = bk.Backup(bk_dir);
         } else {
-- 
2.43.0


From 2a20731df57f5b6f72220e9c15e96dd07d361efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 31/51] fix: a failed backup does not leak its copy buffer

---
 src/mb_backup.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index 4c0ab5b..11a551d 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -19,6 +19,8 @@
 #include <fstream>
 #include <iostream>
 #include <limits.h>
+#include <memory>
+#include <new>
 #include <sstream>
 
 #include "integer_4b_5b.h"
@@ -115,7 +117,8 @@ int DBBackup::Backup(const char* bk_dir)
     num_data_files = (header->m_data_offset / header->data_block_size) + 1;
     num_index_files = (header->m_index_offset / header->index_block_size) + 1;
 
-    char* buffer = (char*)malloc(BLOCK_SIZE_ALIGN);
+    std::unique_ptr<char[]> buffer_holder(new (std::nothrow) char[BLOCK_SIZE_ALIGN]);
+    char* buffer = buffer_holder.get();
     if (buffer == NULL)
         throw (int)MBError::NO_MEMORY;
 
@@ -145,8 +148,6 @@ int DBBackup::Backup(const char* bk_dir)
     // header is size of page_size
     copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
 
-    free(buffer);
-
     // reset number readers/writers in backed up DB.
     int rval;
     DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
-- 
2.43.0


From 02b2228f486256f5ed2c1d3bd162b0e92af078a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 32/51] fix: erasing a database does not remove the queues of
 other databases

---
 src/util/utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/utils.cpp b/src/util/utils.cpp
index c67497a..a8aac37 100644
--- a/src/util/utils.cpp
+++ b/src/util/utils.cpp
@@ -121,7 +121,11 @@ static int remove_matched_files(const std::string& dpath, const std::string& pat
 
 int remove_db_files(const std::string& db_dir)
 {
-    remove_matched_files("/dev/shm", "_mabain_q");
+    // The queue files of other databases are in the same directory.
+    uint64_t qid = get_file_inode(db_dir + "/_mabain_h");
+    std::string queue_file = "/dev/shm/_mabain_q" + std::to_string(qid);
+    if (qid != 0 && access(queue_file.c_str(), F_OK) == 0 && std::remove(queue_file.c_str()) != 0)
+        std::cerr << "failed to remove " << queue_file << std::endl;
     remove_matched_files(db_dir, "_mabain_");
     return 0;
 }
-- 
2.43.0


From 949df47b9444fb7bf065c881b6c7c324683bd012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 33/51] fix: waking the async writer while it stops does not
 kill the process with SIGPIPE

---
 src/mb_pipe.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index d50bc9c..fbfc190 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -16,8 +16,11 @@
 
 // @author Changxue Deng <chadeng@cisco.com>
 
+#include <errno.h>
 #include <fcntl.h>
 #include <poll.h>
+#include <pthread.h>
+#include <signal.h>
 #include <string.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -29,6 +32,32 @@
 
 namespace mabain {
 
+// Write one byte to the pipe. The process must not be killed by SIGPIPE if the reading end
+// has just been closed.
+static ssize_t write_signal_byte(int fd)
+{
+    sigset_t pipe_set, old_set, pending_set;
+    sigemptyset(&pipe_set);
+    sigaddset(&pipe_set, SIGPIPE);
+    sigpending(&pending_set);
+    bool was_pending = sigismember(&pending_set, SIGPIPE) == 1;
+
+    if (pthread_sigmask(SIG_BLOCK, &pipe_set, &old_set) != 0)
+        return -1;
+    ssize_t ret = write(fd, "", 1);
+    int err = errno;
+    if (ret < 0 && err == EPIPE && !was_pending) {
+        sigpending(&pending_set);
+        if (sigismember(&pending_set, SIGPIPE) == 1) {
+            int sig;
+            sigwait(&pipe_set, &sig);
+        }
+    }
+    pthread_sigmask(SIG_SETMASK, &old_set, NULL);
+    errno = err;
+    return ret;
+}
+
 MBPipe::MBPipe()
     : fifo_path("")
     , fd(-1)
@@ -163,7 +192,7 @@ int MBPipe::Signal()
         return MBError::NO_RESOURCE;
     }
 
-    if (write(fd, "", 1) < 0) {
+    if (write_signal_byte(fd) < 0) {
         if (!(errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to signal async writer errno: %s",
                 strerror(errno));
-- 
2.43.0


From d99c89eba46bc4fac20f01f9d94c2c6492694230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 34/51] fix: a queue slot is given back before it can be
 claimed again

---
 src/async_writer.cpp | 24 +++++++++++++-----------
 src/shmq_update.cpp  |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index b82fbf1..0184c49 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -170,21 +170,22 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 break;
             }
 
+            if (rval != MBError::SUCCESS) {
+                Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
+                    (int)node_ptr->type, MBError::get_error_str(rval));
+            }
+
             header->writer_index++;
-            node_ptr->num_reader.store(0, std::memory_order_release);
             node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
             node_ptr->in_use.store(false, std::memory_order_release);
+            // The slot can be claimed again from here on.
+            node_ptr->num_reader.store(0, std::memory_order_release);
             mbd.Clear();
             count++;
         } else {
             // done processing
             count = ntasks;
         }
-
-        if (rval != MBError::SUCCESS) {
-            Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
-                (int)node_ptr->type, MBError::get_error_str(rval));
-        }
     }
 
     if (stop_processing)
@@ -329,16 +330,17 @@ void* AsyncWriter::async_writer_thread()
             break;
         }
 
-        header->writer_index++;
-        node_ptr->num_reader.store(0, std::memory_order_release);
-        node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-        node_ptr->in_use.store(false, std::memory_order_release);
-
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
                 (int)node_ptr->type, MBError::get_error_str(rval));
         }
 
+        header->writer_index++;
+        node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
+        node_ptr->in_use.store(false, std::memory_order_release);
+        // The slot can be claimed again from here on.
+        node_ptr->num_reader.store(0, std::memory_order_release);
+
         mbd.Clear();
 
         if (header->rc_flag.load(std::memory_order_consume) == 1) {
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index f6116e3..c120ad1 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -124,7 +124,7 @@ AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
         return nullptr;
     }
 
-    uint16_t nreader = node_ptr->num_reader.fetch_add(1, std::memory_order_release);
+    uint16_t nreader = node_ptr->num_reader.fetch_add(1, std::memory_order_acq_rel);
     if (nreader != 0) {
         // This slot is being processed by another reader.
         err = MBError::TRY_AGAIN;
-- 
2.43.0


From 7bce4829e11c1a37c542ca6e18f8fe980876a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 35/51] fix: the async thread starts when the database has been
 opened completely

---
 src/db.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index e6e1b67..00fe6b9 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -526,11 +526,6 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
     lock.Init(dict->GetShmLockPtr());
     UpdateNumHandlers(config.options, 1);
 
-    if (config.options & CONSTS::ACCESS_MODE_WRITER) {
-        if (config.options & CONSTS::ASYNC_WRITER_MODE)
-            async_writer = AsyncWriter::CreateInstance(this);
-    }
-
     if (!(init_header || update_header)) {
         IndexHeader* header = dict->GetHeaderPtr();
         if (header != NULL && header->async_queue_size != (int)config.queue_size) {
@@ -588,6 +583,10 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
                 }
             }
         }
+
+        // The async thread modifies the database: start it when everything above is done.
+        if ((config.options & CONSTS::ASYNC_WRITER_MODE) && status == MBError::SUCCESS)
+            async_writer = AsyncWriter::CreateInstance(this);
     }
 }
 
-- 
2.43.0


From 7ad8e6775d04ec561469c2ae9f66e73df43c9a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 36/51] fix: no other writer can open a database while its
 files are being recreated

---
 src/db.cpp | 19 ++++++++++++++++---
 src/db.h   |  2 ++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 00fe6b9..04b5089 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -128,6 +128,14 @@ DB::~DB()
 }
 
 int DB::Close()
+{
+    int rval = CloseDict();
+    ReleaseWriter();
+    Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
+    return rval;
+}
+
+int DB::CloseDict()
 {
     int rval = MBError::SUCCESS;
 
@@ -157,6 +165,11 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
+    return rval;
+}
+
+void DB::ReleaseWriter()
+{
     // Only the handle that registered itself as the writer may release the lock.
     if (writer_registered) {
         writer_registered = false;
@@ -164,8 +177,6 @@ int DB::Close()
         std::string lock_file = mb_dir + "_lock";
         ResourcePool::getInstance().RemoveResourceByPath(lock_file);
     }
-    Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
-    return rval;
 }
 
 int DB::UpdateNumHandlers(int mode, int delta)
@@ -768,9 +779,11 @@ void DB::ReInit(MBConfig& config)
 {
     std::cout << "failed to open db with error: " << MBError::get_error_str(status) << "\n";
     std::cout << "erase corrupted DB and retry\n";
-    Close();
+    CloseDict();
     std::string db_dir = std::string(config.mbdir);
+    // No other writer may open the DB before the files have been removed.
     remove_db_files(db_dir);
+    ReleaseWriter();
     status = MBError::NOT_INITIALIZED;
     InitDBEx(config);
 }
diff --git a/src/db.h b/src/db.h
index 767b020..13cf0dd 100644
--- a/src/db.h
+++ b/src/db.h
@@ -237,6 +237,8 @@ private:
     void InitDB(MBConfig& config);
     void InitDBEx(MBConfig& config);
     void ReInit(MBConfig& config);
+    int CloseDict();
+    void ReleaseWriter();
     void PreCheckDB(const MBConfig& config, bool& init_header, bool& update_header);
     void PostDBUpdate(const MBConfig& config, bool init_header, bool update_header);
     bool StartupRebuildRequested(const MBConfig& config, bool init_header) const;
-- 
2.43.0


From b0f0ef5899a654b846d381f7a4a434fe51f8b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 37/51] fix: clearing cached files keeps the registration of an
 open writer

---
 src/resource_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index c2f8233..04b9d91 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -66,7 +66,8 @@ void ResourcePool::RemoveResourceByDB(const std::string& db_path)
     pthread_mutex_lock(&pool_mutex);
 
     for (auto it = file_pool.begin(); it != file_pool.end();) {
-        if (it->first.compare(0, db_path.size(), db_path) == 0)
+        // An entry without a file is the registration of an open writer.
+        if (it->second != nullptr && it->first.compare(0, db_path.size(), db_path) == 0)
             it = file_pool.erase(it);
         else
             it++;
-- 
2.43.0


From aa247d7bca2f6b4a30424bceac621a590c440926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 38/51] fix: a failed memory-only open does not remove the
 files of the database on disk

---
 src/db.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 04b5089..d17a279 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -781,8 +781,10 @@ void DB::ReInit(MBConfig& config)
     std::cout << "erase corrupted DB and retry\n";
     CloseDict();
     std::string db_dir = std::string(config.mbdir);
-    // No other writer may open the DB before the files have been removed.
-    remove_db_files(db_dir);
+    // No other writer may open the DB before the files have been removed. The
+    // files in the directory do not belong to a memory-only DB.
+    if (!(config.options & CONSTS::MEMORY_ONLY_MODE))
+        remove_db_files(db_dir);
     ReleaseWriter();
     status = MBError::NOT_INITIALIZED;
     InitDBEx(config);
-- 
2.43.0


From 3245a07dc26399ade6717b600d6e0e9cb1da0dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 39/51] fix: a backup still queued when the async writer stops
 does not leak its directory name

---
 src/async_writer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 0184c49..3ec7d9c 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -83,6 +83,7 @@ AsyncWriter::~AsyncWriter()
 {
     if (writer_instance == this)
         writer_instance = NULL;
+    free(rc_backup_dir);
 }
 
 int AsyncWriter::StopAsyncThread()
-- 
2.43.0


From 840a6654a9c7285c40cc415b23084f1a7b52c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 40/51] fix: a fifo opened on descriptor 0 is closed

---
 src/mb_pipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index fbfc190..4cc3d1c 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -92,7 +92,7 @@ MBPipe::~MBPipe()
 
 void MBPipe::Close()
 {
-    if (fd > 0)
+    if (fd >= 0)
         close(fd);
     fd = -1;
 }
-- 
2.43.0


From 22fb7c564fd7423252a8cd5702f6599ab1d7a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 41/51] fix: a read error while walking to the place of an
 added key is not taken for the end of the path

---
 src/dict_mem.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 0d5a4cd..2274a19 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -700,9 +700,9 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     // Read node flags and nt-1
     uint8_t node_flag;
     if (ReadData(&node_flag, 1, node_base_off) != 1)
-        return false;
+        throw (int)MBError::READ_ERROR;
     if (ReadData(key_tmp, 1, node_base_off + 1) != 1)
-        return false;
+        throw (int)MBError::READ_ERROR;
     bool sorted = (node_flag & FLAG_NODE_SORTED);
     int nt = key_tmp[0];
     edge_ptr.curr_nt = nt;
@@ -710,7 +710,7 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     // Load edge key first
     const size_t first_char_off = node_base_off + NODE_EDGE_KEY_FIRST;
     if (ReadData(key_tmp, nt, first_char_off) != nt)
-        return false;
+        throw (int)MBError::READ_ERROR;
     int match_idx, less_idx_unused, max_idx_unused;
     select_edge_indices(key_tmp, nt, key[0], sorted, match_idx, less_idx_unused, max_idx_unused);
     if (match_idx < 0)
@@ -721,7 +721,7 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     // Load the new edge
     edge_ptr.offset = edge_offset_of(node_base_off, nt, match_idx);
     if (ReadData(header->excep_buff, EDGE_SIZE, edge_ptr.offset) != EDGE_SIZE)
-        return false;
+        throw (int)MBError::READ_ERROR;
 
     int edge_len_m1 = edge_ptr.len_ptr[0] - 1;
     if (edge_len_m1 <= 0)
@@ -738,7 +738,7 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     if (edge_len_m1 > LOCAL_EDGE_LEN_M1) {
         // Remote string: only read the needed prefix
         if (ReadData(key_tmp, cmp_len, Get5BInteger(edge_ptr.ptr)) != cmp_len)
-            return false;
+            throw (int)MBError::READ_ERROR;
         edge_bytes = key_tmp;
     } else {
         // Local string is stored inline starting at ptr
-- 
2.43.0


From 4d0bd4181ad1a9cb4b56cbd2d64ef5d913be2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 42/51] fix: ReadDataByOffset reports that its buffer could not
 be enlarged

---
 src/dict.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 77e155f..e4c75a7 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1539,7 +1539,9 @@ int Dict::ReadDataByOffset(size_t offset, MBData& data) const
     // store bucket index
     data.bucket_index = hdr[1];
     // resize data buffer using size from header
-    data.Resize(hdr[0]);
+    if (data.Resize(hdr[0]) != MBError::SUCCESS) {
+        return MBError::NO_MEMORY;
+    }
     offset += DATA_HDR_BYTE;
     if (ReadData(data.buff, hdr[0], offset) != hdr[0]) {
         return MBError::READ_ERROR;
-- 
2.43.0


From ebf9c5f04325231910eee8398fffccfb9874d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 43/51] fix: a backup reports a file that could not be closed
 after writing

---
 src/mb_backup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index 11a551d..3824895 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -83,7 +83,8 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
         }
     }
     fclose(fp_read);
-    fclose(fp_write);
+    if (fclose(fp_write) != 0 && rval == MBError::SUCCESS)
+        rval = MBError::WRITE_ERROR;
 
     if (rval != MBError::SUCCESS) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed %s", MBError::get_error_str(rval));
-- 
2.43.0


From 10d9ec94cb3ff598bafc4aaa20502ddbe5f556ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 44/51] fix: the key of a lower bound is complete when its
 index block is not mapped

---
 src/detail/search_engine.cpp | 17 ++++++++++++++---
 src/detail/search_engine.h   |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 623c2f2..3a91981 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -642,7 +642,7 @@ namespace detail {
         return rval;
     }
 
-    void SearchEngine::appendEdgeKey(std::string* key, int edge_key, const EdgePtrs& edge_ptrs) const
+    int SearchEngine::appendEdgeKey(std::string* key, int edge_key, const EdgePtrs& edge_ptrs) const
     {
         key->push_back((char)edge_key);
         int edge_len_m1 = edge_ptrs.len_ptr[0] - 1;
@@ -651,10 +651,17 @@ namespace detail {
             uint8_t* edge_str_buff = dict.mm.GetShmPtr(edge_str_off, edge_len_m1);
             if (edge_str_buff != nullptr) {
                 key->append((const char*)edge_str_buff, edge_len_m1);
+            } else {
+                // Not mapped (e.g., small memcap); fall back to a buffered read.
+                char edge_str[256];
+                if (dict.mm.ReadData(reinterpret_cast<uint8_t*>(edge_str), edge_len_m1, edge_str_off) != edge_len_m1)
+                    return MBError::READ_ERROR;
+                key->append(edge_str, edge_len_m1);
             }
         } else if (edge_len_m1 > 0) {
             key->append(reinterpret_cast<const char*>(edge_ptrs.ptr), edge_len_m1);
         }
+        return MBError::SUCCESS;
     }
 
     int SearchEngine::readLowerBound(EdgePtrs& edge_ptrs, MBData& data, std::string* bound_key, int le_edge_key) const
@@ -668,7 +675,9 @@ namespace detail {
         int max_key = -1;
         while (!(edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
             if (bound_key != nullptr && le_edge_key >= 0) {
-                appendEdgeKey(bound_key, le_edge_key, edge_ptrs);
+                rval = appendEdgeKey(bound_key, le_edge_key, edge_ptrs);
+                if (rval != MBError::SUCCESS)
+                    return rval;
                 le_edge_key = -1;
             }
             max_key = -1;
@@ -679,7 +688,9 @@ namespace detail {
         }
 
         if (bound_key != nullptr && le_edge_key >= 0 && (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-            appendEdgeKey(bound_key, le_edge_key, edge_ptrs);
+            int append_rval = appendEdgeKey(bound_key, le_edge_key, edge_ptrs);
+            if (append_rval != MBError::SUCCESS)
+                return append_rval;
         }
 
         if (rval == MBError::SUCCESS || rval == MBError::NOT_EXIST) {
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index e4b1fd5..523e71e 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -91,7 +91,7 @@ namespace detail {
         // declared once above
 
         // Lower-bound internals
-        void appendEdgeKey(std::string* key, int edge_key, const EdgePtrs& edge_ptrs) const;
+        int appendEdgeKey(std::string* key, int edge_key, const EdgePtrs& edge_ptrs) const;
         int readLowerBound(EdgePtrs& edge_ptrs, MBData& data, std::string* bound_key, int le_edge_key) const;
         int readBoundFromRootEdge(EdgePtrs& edge_ptrs, MBData& data, int root_key, std::string* bound_key) const;
         // Core lower-bound traversal from root-key edge until first resolution point.
-- 
2.43.0


From fffc262db5550bff9f283322a2ecced4d168d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 45/51] fix: the free lists of the data pool have a list for
 every size of value

---
 src/drm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drm_base.h b/src/drm_base.h
index 037926d..529f79e 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -260,7 +260,7 @@ public:
                 if (index) {
                     free_lists = new FreeList(mbdir + "_ibfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
                 } else {
-                    free_lists = new FreeList(mbdir + "_dbfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
+                    free_lists = new FreeList(mbdir + "_dbfl", DATA_BUFFER_ALIGNMENT, NUM_DATA_BUFFER_RESERVE);
                 }
             }
         }
-- 
2.43.0


From 333a02bb6637064c14ab6cf9db007fdae74aff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 46/51] fix: giving up a buffer of the smallest size does not
 search below the first free list

---
 src/free_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_list.cpp b/src/free_list.cpp
index 844760d..26f3248 100644
--- a/src/free_list.cpp
+++ b/src/free_list.cpp
@@ -68,7 +68,7 @@ FreeList::~FreeList()
 int FreeList::ReuseBuffer(size_t buf_index, size_t offset)
 {
     int rval = MBError::BUFFER_LOST;
-    for (size_t i = buf_index - 1; i > 0; i--) {
+    for (size_t i = (buf_index > 0) ? buf_index - 1 : 0; i > 0; i--) {
         if (buffer_free_list[i]->Count() > max_buffer_per_list)
             continue;
 
-- 
2.43.0


From 3ef00c0b18bfe343db3f182bf4000f4f288c7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 47/51] fix: a damaged free list file is not read past the
 lists or past its end

---
 src/free_list.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/free_list.cpp b/src/free_list.cpp
index 26f3248..beea4cd 100644
--- a/src/free_list.cpp
+++ b/src/free_list.cpp
@@ -195,9 +195,15 @@ int FreeList::LoadListFromDisk()
         freelist_f.read((char*)&buf_count, sizeof(int64_t));
         if (freelist_f.eof())
             break;
+        if (buf_index >= max_num_buffer) {
+            Logger::Log(LOG_LEVEL_ERROR, "invalid buffer index %llu in %s", buf_index, list_path.c_str());
+            return MBError::INVALID_SIZE;
+        }
         for (int64_t i = 0; i < buf_count; i++) {
             size_t offset;
             freelist_f.read((char*)&offset, sizeof(size_t));
+            if (!freelist_f) // cut short
+                break;
             buffer_free_list[buf_index]->AddIntToTail(offset);
             count++;
             tot_size += (buf_index + 1) * alignment;
-- 
2.43.0


From 42feb1ff5f93d63db2452a8fc28a6d063a25cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 48/51] fix: a key of 256 bytes is refused, its edge length
 does not fit in one byte

---
 README.md             | 2 +-
 src/mabain_consts.cpp | 2 +-
 src/shmq_update.cpp   | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index ec8a39d..fddb74e 100644
--- a/README.md
+++ b/README.md
@@ -171,7 +171,7 @@ mkdir ./tmp_dir
   concurrently.  
 * Mabain DB handle is not thread-safe. Each thread must have open its own DB
   instance when Using in multi-thread context.
-* The longest key supported is 256 bytes.  
+* The longest key supported is 255 bytes.  
 * The value/data size can not be bigger than 32767 bytes.  
 * Using Mabain on network storage (NAS, SAN, NFS, SMB, etc..) has not been
   tested. Your mileage may vary  
diff --git a/src/mabain_consts.cpp b/src/mabain_consts.cpp
index bf526ac..6752e5d 100644
--- a/src/mabain_consts.cpp
+++ b/src/mabain_consts.cpp
@@ -37,7 +37,7 @@ const int CONSTS::OPTION_JEMALLOC = 0x40;
 const int CONSTS::OPTION_KEY_ONLY = 0x80;
 const int CONSTS::OPTION_PREFIX_CACHE = 0x100;
 
-const int CONSTS::MAX_KEY_LENGHTH = 256;
+const int CONSTS::MAX_KEY_LENGHTH = 255;
 const int CONSTS::MAX_DATA_SIZE = 0x7FFF;
 
 // Limit how many times readers retry when lock-free snapshot reports TRY_AGAIN
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index c120ad1..27f6cc1 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -32,6 +32,9 @@ int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
     if (key_len < 0 || key_len > MB_ASYNC_SHM_KEY_SIZE || data_len < 0 || data_len > MB_ASYNC_SHM_DATA_SIZE) {
         return MBError::OUT_OF_BOUND;
     }
+    // the writer refuses longer keys
+    if (key_len > CONSTS::MAX_KEY_LENGHTH)
+        return MBError::OUT_OF_BOUND;
 
     int err = MBError::SUCCESS;
     AsyncNode* node_ptr = SHMQ_AcquireSlot(err);
-- 
2.43.0


From 7591839a29057efd754e436b70743c65b048a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 49/51] fix: a log message longer than the buffer is cut off,
 not written past it

---
 src/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 4761d7f..6e26731 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -129,7 +129,7 @@ void Logger::Log(int level, const char* format, ...)
     char message[256];
     va_list args;
     va_start(args, format);
-    vsprintf(message, format, args);
+    vsnprintf(message, sizeof(message), format, args);
     if (log_stream != NULL) {
         char buffer[64];
         FillDateTime(buffer, sizeof(buffer));
-- 
2.43.0


From 39d20b1518e3aa80648f621b60b4a19b8dea13b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 50/51] fix: a memory-only DB does not create or map a data
 file for its prefix cache

---
 src/dict.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index e4c75a7..c9a55a2 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -135,8 +135,9 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
         (void)kv_file->PreAlloc(header->m_data_offset);
     }
     // Instantiate the prefix cache only if the DB has an embedded cache region
-    // and the caller requested prefix cache via OPTION_PREFIX_CACHE.
-    if (!(options & CONSTS::ASYNC_WRITER_MODE)) {
+    // and the caller requested prefix cache via OPTION_PREFIX_CACHE. The cache is mapped
+    // from the first data file, which a memory-only DB does not have.
+    if (!(options & CONSTS::ASYNC_WRITER_MODE) && !(options & CONSTS::MEMORY_ONLY_MODE)) {
         bool want_cache = (header->pfxcache_size > 0) && (options & CONSTS::OPTION_PREFIX_CACHE);
         if (want_cache) {
             try {
-- 
2.43.0


From acff5050bf0e1a61d5c68835ffcb3ac300247410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 51/51] fix: a memory-only DB does not delete block files on
 disk when it drops unused blocks

---
 src/rollable_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index e0c935b..9c10462 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -426,7 +426,8 @@ void RollableFile::RemoveUnused(size_t max_size, bool writer_mode)
                 mem_used -= block_size;
             if (writer_mode) {
                 ResourcePool::getInstance().RemoveResourceByPath(files[i]->GetFilePath());
-                unlink(files[i]->GetFilePath().c_str());
+                if (!(mode & CONSTS::MEMORY_ONLY_MODE))
+                    unlink(files[i]->GetFilePath().c_str());
             }
             files[i] = NULL;
         }
-- 
2.43.0

