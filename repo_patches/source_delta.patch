From a7787078a5c21ba5a083c6965c107422c377fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:54 +0000
Subject: [PATCH 01/21] fix: keep the deleted mark of the version an LTX writes
 over

When a long transaction put a new version in front of a deleted one, the
old version lost its absent flag. A read only transaction whose snapshot
lies between the two then read the deleted key as an empty value.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..46f13f3 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -173,7 +173,6 @@ static inline void expose_local_write(
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
                     // prepare tid for old version
-                    pre_tid.set_absent(false);
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From e4e5fb4c06640d3e253e1ef550fda24372fb88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:54 +0000
Subject: [PATCH 02/21] fix: stamp a re-inserted record newer than its
 tombstone

The commit stamp of a short transaction skipped the tombstone it wrote
over. Within one epoch the new version could get the same stamp the
record had before it was deleted. A reader of the old version then passed
its read validation.
---
 src/concurrency_control/interface/short_tx/termination.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..e96cde3 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -399,9 +399,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                     }
                 }
                 // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
-- 
2.43.0


From 3b8834e50e2aec05cbe871d3dc5812d1c318a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:54 +0000
Subject: [PATCH 03/21] fix: do not use an erased write set entry in
 delete_record

Deleting an upsert of the same transaction erased the write set entry and
then read the record pointer from it.
---
 src/concurrency_control/interface/delete.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..04dd03f 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -83,7 +83,7 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         if (!rc) {
             // if this was update
             ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+            register_read_if_ltx(ti, rec_ptr);
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
-- 
2.43.0


From 009860154fa67ef36f52907bd0a7dc85dfaeebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:54 +0000
Subject: [PATCH 04/21] fix: keep upsert from overlapping commit and abort

upsert was the only write operation that did not take the strand lock, so
it could add to the write set while another thread was committing or
aborting the same transaction.
---
 src/concurrency_control/interface/upsert.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..fe4199f 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -159,7 +159,13 @@ Status upsert(Token token, Storage storage, std::string_view const key,
                         << " " << span_printer(blobs_data, blobs_size);
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
-    auto ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    Status ret{};
+    { // for strand
+        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+
+        // upsert_body check warn not begin
+        ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    }
     ti->process_before_finish_step();
     shirakami_log_exit << "upsert, Status: " << ret;
     return ret;
-- 
2.43.0


From 4fb952dab830c9253dcfcf23a1fb112317f7969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:41 +0000
Subject: [PATCH 05/21] fix: release the write preserve table when it has no
 free slot

---
 src/concurrency_control/wp_meta.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 682fb09..65efd0c 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -129,7 +129,10 @@ std::size_t wp_meta::find_min_id(const wp_meta::wped_type& wped) {
 Status wp_meta::register_wp(epoch::epoch_t ep, std::size_t id) {
     wp_lock_.lock();
     std::size_t slot{};
-    if (Status::OK != find_slot(slot)) { return Status::ERR_CC; }
+    if (Status::OK != find_slot(slot)) {
+        wp_lock_.unlock();
+        return Status::ERR_CC;
+    }
     wped_used_.set(slot);
     set_wped(slot, {ep, id});
     wp_lock_.unlock();
-- 
2.43.0


From ad050e91af9a616627a218f710eeda9701c20874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:41 +0000
Subject: [PATCH 06/21] fix: release the write preserve table when there is
 nothing to remove

---
 src/concurrency_control/include/wp_meta.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/include/wp_meta.h b/src/concurrency_control/include/wp_meta.h
index 4b2cf0b..0ddded8 100644
--- a/src/concurrency_control/include/wp_meta.h
+++ b/src/concurrency_control/include/wp_meta.h
@@ -117,7 +117,9 @@ public:
      */
     [[nodiscard]] Status remove_wp(std::size_t const id) {
         wp_lock_.lock();
-        return remove_wp_without_lock(id);
+        auto rc = remove_wp_without_lock(id);
+        if (rc != Status::OK) { wp_lock_.unlock(); }
+        return rc;
     }
 
     void set_wped(std::size_t const pos, wped_elem_type const val) {
-- 
2.43.0


From 9f4d0076c13fd94c7b28899327cb3f71d6a707cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:23 +0000
Subject: [PATCH 07/21] fix: take the sequence map lock while recovering
 sequences

Recovery can run on several threads. Each of them added sequences to the
shared map without a lock, which corrupted the map or lost entries.
---
 src/datastore/limestone/datastore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..45208a1 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -170,6 +170,9 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            // other recovery threads may push at the same time
+            std::lock_guard<std::shared_mutex> lk{
+                    sequence::sequence_map_smtx()};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
-- 
2.43.0


From be34431ed39aa3af76c1195678adcd2e355d7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:21:22 +0000
Subject: [PATCH 08/21] fix: make the waiting resolver's end flag atomic

Shutdown sets the flag while the worker threads poll it, so a plain bool
was a data race.
---
 src/concurrency_control/bg_work/include/bg_commit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/bg_work/include/bg_commit.h b/src/concurrency_control/bg_work/include/bg_commit.h
index 856eb92..f470433 100644
--- a/src/concurrency_control/bg_work/include/bg_commit.h
+++ b/src/concurrency_control/bg_work/include/bg_commit.h
@@ -109,7 +109,7 @@ private:
      * @brief Flag used for signal to start or stop worker thread.
      *
      */
-    static inline bool worker_thread_end_; // NOLINT
+    static inline std::atomic<bool> worker_thread_end_{false}; // NOLINT
 
     /**
      * @brief mutex for cont_wait_tx
-- 
2.43.0


From b8017b29481dee28fd5f3849eb69248296102f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:11 +0000
Subject: [PATCH 09/21] fix: keep what a failed write lock reports before
 aborting

Aborting clears the write set. The commit then read the operation, the key
and the storage from the freed write set entry to fill in the result.
---
 .../interface/short_tx/termination.cpp        | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index e96cde3..d478072 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -387,14 +387,16 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                     tid_word tid{rec_ptr->get_tidw_ref()};
                     if (tid.get_latest() && !tid.get_absent()) {
                         // the record is existing record (not inserting, deleted)
+                        // abort clears the write set
+                        std::string key{rec_ptr->get_key_view()};
+                        auto storage = wso_ptr->get_storage();
                         abort_process();
                         std::unique_lock<std::mutex> lk{
                                 ti->get_mtx_result_info()};
                         ti->get_result_info().set_reason_code(
                                 reason_code::KVS_INSERT);
-                        ti->get_result_info().set_key_storage_name(
-                                rec_ptr->get_key_view(),
-                                wso_ptr->get_storage());
+                        ti->get_result_info().set_key_storage_name(key,
+                                                                   storage);
                         return Status::ERR_KVS;
                     }
                 }
@@ -428,15 +430,18 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
             commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
             ++num_locked;
             if (rec_ptr->get_tidw_ref().get_absent()) {
+                // abort clears the write set
+                std::string key{rec_ptr->get_key_view()};
+                auto storage = wso_ptr->get_storage();
+                auto op = wso_ptr->get_op();
                 abort_process();
-                if (wso_ptr->get_op() == OP_TYPE::UPDATE) {
+                if (op == OP_TYPE::UPDATE) {
                     ti->set_result(reason_code::KVS_UPDATE);
-                } else if (wso_ptr->get_op() == OP_TYPE::DELETE) {
+                } else if (op == OP_TYPE::DELETE) {
                     ti->set_result(reason_code::KVS_DELETE);
                 }
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-                ti->get_result_info().set_key_storage_name(
-                        rec_ptr->get_key_view(), wso_ptr->get_storage());
+                ti->get_result_info().set_key_storage_name(key, storage);
                 return Status::ERR_KVS;
             }
         } else {
-- 
2.43.0


From 020156eb87a820aa07ecdaa00f40d9000b1e885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:19 +0000
Subject: [PATCH 10/21] fix: report a missing storage to reads of a read only
 transaction

---
 src/concurrency_control/interface/read_only_tx/search.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/read_only_tx/search.cpp b/src/concurrency_control/interface/read_only_tx/search.cpp
index 95e93f8..cd53cf6 100644
--- a/src/concurrency_control/interface/read_only_tx/search.cpp
+++ b/src/concurrency_control/interface/read_only_tx/search.cpp
@@ -18,9 +18,8 @@ Status search_key(session* const ti, Storage const storage,
 
     // index access
     Record* rec_ptr{};
-    if (Status::WARN_NOT_FOUND == get<Record>(storage, key, rec_ptr)) {
-        return Status::WARN_NOT_FOUND;
-    }
+    auto rc = get<Record>(storage, key, rec_ptr);
+    if (rc != Status::OK) { return rc; }
 
     return long_tx::version_traverse_and_read(ti, rec_ptr, value, read_value);
 }
-- 
2.43.0


From 8389a2b237da0777a0b9bfc5a9b30b704a276b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:49 +0000
Subject: [PATCH 11/21] fix: refuse an invalid handle when closing an iterator
 based scan

---
 src/concurrency_control/interface/scan/close_scan.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/close_scan.cpp b/src/concurrency_control/interface/scan/close_scan.cpp
index 569ae31..ea14c5b 100644
--- a/src/concurrency_control/interface/scan/close_scan.cpp
+++ b/src/concurrency_control/interface/scan/close_scan.cpp
@@ -28,9 +28,8 @@ static Status close_scan_body(Token const token, ScanHandle const handle) { // N
 static Status close_scan_body_iscan(Token const token, ScanHandle const handle) { // NOLINT
     auto* ti = static_cast<session*>(token);
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
-    auto* sc = static_cast<scan_context*>(handle);
-    if (sc->get_ycontext_ref()) { yakushima::iscan_close(sc->get_ycontext_ref()); }
-    return ti->get_scan_handle().delete_scan_context(sc);
+    // the index side of the scan is closed when the context is destroyed
+    return ti->get_scan_handle().delete_scan_context(static_cast<scan_context*>(handle));
 }
 
 Status close_scan(Token const token, ScanHandle const handle) { // NOLINT
-- 
2.43.0


From 890c4e7a5dba10e1871fb050b6930706e60e32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:49 +0000
Subject: [PATCH 12/21] fix: keep the result of a transaction whose abort is
 refused

---
 .../interface/termination.cpp                    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..d7d1f2a 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -17,6 +17,15 @@ static Status abort_body(Token token) { // NOLINT
     // check whether it already began.
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested.
+         * So user must use check_commit function to check result.
+         */
+        return Status::WARN_ILLEGAL_OPERATION;
+    }
+
     // set result info
     ti->set_result(reason_code::USER_ABORT);
 
@@ -25,13 +34,6 @@ static Status abort_body(Token token) { // NOLINT
         rc = short_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_ILLEGAL_OPERATION;
-        }
         rc = long_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::READ_ONLY) {
-- 
2.43.0


From 33ee830caf6b7ddc0a9ac114328124adda51be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:38 +0000
Subject: [PATCH 13/21] fix: a scan of a long transaction remembers older ones
 committed in its start epoch

Two long transactions can begin in the same epoch. When the older one had
already committed, a scan by the newer one did not note it as overtaken,
because it only looked at transactions that still held a write preserve.
The newer one then missed the older one's writes but was ordered after it.
---
 src/concurrency_control/interface/long_tx/helper.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..1e809f5 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -242,14 +242,7 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From 5d029f1c0da5ad4b3aaf1206fd7374e476e4ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:38 +0000
Subject: [PATCH 14/21] fix: a waiting long transaction announces the ranges it
 scanned and keys it tested

Once commit is requested, newer long transactions look at the announced read
ranges to decide whether to wait. Ranges read by scans, and keys read by
insert, update and delete, were not announced. A newer transaction could then
be ordered before what the waiting one had already read.
---
 src/concurrency_control/include/session.h     | 50 +++++++++++++++++++
 src/concurrency_control/interface/helper.cpp  |  1 +
 .../interface/scan/open_scan.cpp              |  1 +
 3 files changed, 52 insertions(+)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..0e5fd93 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -515,6 +515,56 @@ public:
         }
     }
 
+    void insert_to_ltx_storage_read_set(Storage const st,
+                                        std::string_view const l_key,
+                                        scan_endpoint const l_end,
+                                        std::string_view const r_key,
+                                        scan_endpoint const r_end) {
+        std::lock_guard<std::shared_mutex> lk{get_mtx_ltx_storage_read_set()};
+        auto& range = get_ltx_storage_read_set()
+                              .emplace(st, std::make_tuple(
+                                                   "", scan_endpoint::EXCLUSIVE,
+                                                   "", scan_endpoint::EXCLUSIVE))
+                              .first->second;
+        std::string& now_lkey = std::get<0>(range);
+        scan_endpoint& now_lpoint = std::get<1>(range);
+        std::string& now_rkey = std::get<2>(range);
+        scan_endpoint& now_rpoint = std::get<3>(range);
+
+        // check initialize
+        if (now_lkey.empty() && now_lpoint == scan_endpoint::EXCLUSIVE &&
+            now_rkey.empty() && now_rpoint == scan_endpoint::EXCLUSIVE) {
+            now_lkey = l_key;
+            now_lpoint = l_end;
+            now_rkey = r_key;
+            now_rpoint = r_end;
+            return;
+        }
+
+        // extend left end
+        if (l_end == scan_endpoint::INF) {
+            now_lpoint = scan_endpoint::INF;
+        } else if (now_lpoint != scan_endpoint::INF) {
+            if (l_key < now_lkey) {
+                now_lkey = l_key;
+                now_lpoint = l_end;
+            } else if (l_key == now_lkey && l_end == scan_endpoint::INCLUSIVE) {
+                now_lpoint = l_end;
+            }
+        }
+        // extend right end
+        if (r_end == scan_endpoint::INF) {
+            now_rpoint = scan_endpoint::INF;
+        } else if (now_rpoint != scan_endpoint::INF) {
+            if (now_rkey < r_key) {
+                now_rkey = r_key;
+                now_rpoint = r_end;
+            } else if (r_key == now_rkey && r_end == scan_endpoint::INCLUSIVE) {
+                now_rpoint = r_end;
+            }
+        }
+    }
+
     void push_to_read_set_for_stx(read_set_obj&& elem) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
diff --git a/src/concurrency_control/interface/helper.cpp b/src/concurrency_control/interface/helper.cpp
index e10881f..db140dd 100644
--- a/src/concurrency_control/interface/helper.cpp
+++ b/src/concurrency_control/interface/helper.cpp
@@ -70,6 +70,7 @@ Status check_before_write_ops(session* const ti, Storage const st,
                 return rs;
             }
             // insert and delete with read
+            ti->insert_to_ltx_storage_read_set(st, std::string(key));
             // may need forwarding
             long_tx::wp_verify_and_forwarding(ti, wm, key);
         }
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..175b5f0 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -264,6 +264,7 @@ static Status open_scan_precheck(
          */
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(l_key), l_end, std::string(r_key), r_end));
+        ti->insert_to_ltx_storage_read_set(storage, l_key, l_end, r_key, r_end);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::SHORT) {
         wp::page_set_meta* psm{};
-- 
2.43.0


From f7cfc8c0b546f18017685938c8d87b34197198ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:38 +0000
Subject: [PATCH 15/21] fix: a reverse scan of a long transaction counts its
 right end as read

A scan from right to left has looked at everything up to its right end as soon
as it is opened. Only the left end was noted, so a record inserted above the
first result by an overtaken transaction went unnoticed.
---
 .../interface/scan/open_scan.cpp                 | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 175b5f0..03fbcd6 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -392,7 +392,13 @@ static Status open_scan_body(
 
     // for hit, register left end point info as already read
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
-        long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
+        if (right_to_left) {
+            // right end point is also already read
+            long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end,
+                                             r_key, r_end);
+        } else {
+            long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
+        }
     }
 
     // Cache a pointer to record.
@@ -524,7 +530,13 @@ static Status open_scan_body_iscan(
     // for hit, register left end point info as already read
     // XXX: broken in reverse scan, currentry reverse scan is used only in RTX
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
-        long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
+        if (right_to_left) {
+            // right end point is also already read
+            long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end,
+                                             r_key, r_end);
+        } else {
+            long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
+        }
     }
 
     // Cache a pointer to record.
-- 
2.43.0


From e1ce6ad24473fbf8d7cb5dfeba93cc870d723339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:14:35 +0000
Subject: [PATCH 16/21] fix: update and delete of a missing key count as reads
 of a short transaction

A short transaction that was told WARN_NOT_FOUND by update or delete_record
had seen that the key is absent, but nothing was remembered for validation.
Another transaction could insert the key and both could commit although no
serial order explains it. The absent record or the index node is now
registered, as the lookup does.
---
 src/concurrency_control/interface/delete.cpp  |  7 +++-
 src/concurrency_control/interface/helper.cpp  | 33 +++++++++++++++++++
 .../interface/include/helper.h                | 17 ++++++++++
 src/concurrency_control/interface/update.cpp  | 10 +++++-
 4 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 04dd03f..fead40f 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -137,7 +137,9 @@ static Status delete_record_body(Token token, Storage storage,
 
     // index access to check local write set
     Record* rec_ptr{};
-    rc = get<Record>(storage, key, rec_ptr);
+    std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+            checked_version{};
+    rc = get<Record>(storage, key, rec_ptr, &checked_version);
     if (Status::OK == rc) {
         // check local write
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
@@ -145,6 +147,7 @@ static Status delete_record_body(Token token, Storage storage,
         // check absent
         tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
         if (ctid.get_absent()) {
+            register_absent_if_stx(ti, storage, rec_ptr, ctid);
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
@@ -154,6 +157,8 @@ static Status delete_record_body(Token token, Storage storage,
         return Status::OK;
     }
     if (rc == Status::WARN_NOT_FOUND) {
+        rc = register_miss_if_stx(ti, storage, checked_version);
+        if (rc != Status::OK) { return rc; }
         process_before_return_not_found(ti, storage, key);
         return Status::WARN_NOT_FOUND;
     }
diff --git a/src/concurrency_control/interface/helper.cpp b/src/concurrency_control/interface/helper.cpp
index db140dd..299e1ec 100644
--- a/src/concurrency_control/interface/helper.cpp
+++ b/src/concurrency_control/interface/helper.cpp
@@ -14,6 +14,7 @@
 #include "concurrency_control/include/wp.h"
 #include "concurrency_control/interface/long_tx/include/long_tx.h"
 #include "concurrency_control/interface/read_only_tx/include/read_only_tx.h"
+#include "concurrency_control/interface/short_tx/include/short_tx.h"
 #include "database/include/logging.h"
 #include "index/yakushima/include/interface.h"
 
@@ -92,6 +93,38 @@ Status check_before_write_ops(session* const ti, Storage const st,
     return Status::OK;
 }
 
+void register_absent_if_stx(session* const ti, Storage const st,
+                            Record* const rec_ptr, tid_word const tid) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        ti->push_to_read_set_for_stx({st, rec_ptr, tid});
+    }
+}
+
+Status register_miss_if_stx(
+        session* const ti, Storage const st,
+        std::pair<yakushima::node_version64_body,
+                  yakushima::node_version64*> const checked_version) {
+    if (ti->get_tx_type() != transaction_options::transaction_type::SHORT) {
+        return Status::OK;
+    }
+    // read protection for concurrent occ
+    if (ti->get_node_set().emplace_back(checked_version) == Status::ERR_CC) {
+        short_tx::abort(ti);
+        std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+        ti->get_result_info().set_storage_name(st);
+        ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+        return Status::ERR_CC;
+    }
+    // read protection for low priori ltx
+    wp::page_set_meta* psm{};
+    if (wp::find_page_set_meta(st, psm) != Status::OK) {
+        LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
+        return Status::ERR_FATAL;
+    }
+    ti->push_to_range_read_by_short_set(psm->get_range_read_by_short_ptr());
+    return Status::OK;
+}
+
 Status read_record(Record* const rec_ptr, tid_word& tid, std::string& val,
                    bool read_value) {
     tid_word f_check{};
diff --git a/src/concurrency_control/interface/include/helper.h b/src/concurrency_control/interface/include/helper.h
index 5d7e937..48275d0 100644
--- a/src/concurrency_control/interface/include/helper.h
+++ b/src/concurrency_control/interface/include/helper.h
@@ -44,6 +44,23 @@ check_constraint_key_length(std::string_view key);
     initialized_.store(tf, std::memory_order_release);
 }
 
+/**
+ * @brief For short tx, it registers the observation that @a rec_ptr is absent.
+ */
+extern void register_absent_if_stx(session* ti, Storage st, Record* rec_ptr,
+                                   tid_word tid);
+
+/**
+ * @brief For short tx, it registers the observation that a key is not in the
+ * index.
+ * @return Status::OK success.
+ * @return Status::ERR_CC the node was changed concurrently, so it aborted.
+ */
+extern Status register_miss_if_stx(
+        session* ti, Storage st,
+        std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+                checked_version);
+
 [[maybe_unused]] extern Status try_deleted_to_inserting(Storage st,
                                                         std::string_view key,
                                                         Record* rec_ptr,
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index cb4c6b7..97ef6e1 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -70,7 +70,10 @@ static Status update_body(
 
     // index access to check local write set
     Record* rec_ptr{};
-    if (Status::OK == get<Record>(storage, key, rec_ptr)) {
+    std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+            checked_version{};
+    rc = get<Record>(storage, key, rec_ptr, &checked_version);
+    if (Status::OK == rc) {
         // check local write
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
         if (in_ws != nullptr) {
@@ -85,6 +88,7 @@ static Status update_body(
         // check absent
         tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
         if (ctid.get_absent()) {
+            register_absent_if_stx(ti, storage, rec_ptr, ctid);
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
@@ -94,6 +98,10 @@ static Status update_body(
         register_read_if_ltx(ti, rec_ptr);
         return Status::OK;
     }
+    if (rc == Status::WARN_NOT_FOUND) {
+        rc = register_miss_if_stx(ti, storage, checked_version);
+        if (rc != Status::OK) { return rc; }
+    }
     process_before_return_not_found(ti, storage, key);
     return Status::WARN_NOT_FOUND;
 }
-- 
2.43.0


From 2fed207a9602ad623af32ad21bf8f9c3bcf8d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:22 +0000
Subject: [PATCH 17/21] fix: make scan cursors of short transactions remember
 every index node they pass

A cursor recorded an index node only when the record it pointed to was
read from the table. Nodes passed while the own write was read, or while
next was called without reading, were not verified at commit, so an
insert by another transaction into the scanned range went unnoticed.
---
 include/shirakami/interface.h                 |  1 +
 .../interface/scan/next.cpp                   | 17 ++++++++
 .../interface/scan/open_scan.cpp              | 40 +++++++------------
 3 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/include/shirakami/interface.h b/include/shirakami/interface.h
index 928171e..f68d614 100644
--- a/include/shirakami/interface.h
+++ b/include/shirakami/interface.h
@@ -282,6 +282,7 @@ Status open_scan(Token token, Storage storage, std::string_view l_key,
  * @return Status::WARN_NOT_BEGIN The transaction was not begun.
  * So it can't execute it.
  * @return Status::WARN_SCAN_LIMIT The cursor already reached endpoint of scan.
+ * @return Status::ERR_CC Error about concurrency control.
  */
 Status next(Token token, ScanHandle handle);
 
diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..a46f775 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -22,6 +22,14 @@ namespace shirakami {
 static Status next_check_not_found(session*, Storage, Record*);
 static void check_ltx_scan_range_rp_and_log(session*, Storage, std::string_view, scan_endpoint);
 
+static Status abort_by_phantom(session* ti, Storage st) {
+    short_tx::abort(ti);
+    std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+    ti->get_result_info().set_storage_name(st);
+    ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+    return Status::ERR_CC;
+}
+
 static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
     auto* ti = static_cast<session*>(token);
     auto* sc = static_cast<scan_cache_obj*>(handle);
@@ -55,6 +63,12 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
         auto itr = scan_buf.begin() + scan_index; // NOLINT
         Record* rec_ptr = const_cast<Record*>(std::get<0>(*itr)); // NOLINT
 
+        // the cursor passed the node, so it must be verified at commit.
+        if (ti->get_tx_type() == transaction_options::transaction_type::SHORT &&
+            ti->get_node_set().emplace_back({std::get<1>(*itr), std::get<2>(*itr)}) == Status::ERR_CC) {
+            return abort_by_phantom(ti, st);
+        }
+
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
         if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
@@ -105,6 +119,9 @@ static Status next_body_iscan(Token const token, ScanHandle const handle) { // N
         // check target record
         if (yrc == yakushima::status::WARN_CONCURRENT_OPERATIONS || yrc == yakushima::status::WARN_ABORTED_BY_USER) {
             sc->set_error(Status::ERR_CC);
+            if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+                return abort_by_phantom(ti, st);
+            }
             break;
         }
         if (yrc == yakushima::status::OK_SCAN_END) {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 03fbcd6..229f4b2 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -361,31 +361,21 @@ static Status open_scan_body(
      */
     std::size_t nvec_delta{0};
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
-        if (scan_res.size() < nvec.size()) {
-            auto add_ns = [&ti, &nvec, storage](std::size_t n) {
-                for (std::size_t i = 0; i < n; ++i) {
-                    auto rc = ti->get_node_set().emplace_back(nvec.at(i));
-                    if (rc == Status::ERR_CC) {
-                        short_tx::abort(ti);
-                        std::unique_lock<std::mutex> lk{
-                                ti->get_mtx_result_info()};
-                        ti->get_result_info().set_storage_name(storage);
-                        ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-                        return Status::ERR_CC;
-                    }
-                }
-                return Status::OK;
-            };
-            if (scan_res.size() + 1 == nvec.size()) {
-                nvec_delta = 1;
-                rc = add_ns(1);
-                if (rc == Status::ERR_CC) { return rc; }
-
-
-            } else if (scan_res.size() + 2 == nvec.size()) {
-                nvec_delta = 2;
-                rc = add_ns(2);
-                if (rc == Status::ERR_CC) { return rc; }
+        if (scan_res.size() + 1 == nvec.size()) {
+            nvec_delta = 1;
+        } else if (scan_res.size() + 2 == nvec.size()) {
+            nvec_delta = 2;
+        }
+        // the cursor is moved to the first readable record, so the nodes up to
+        // the record were observed.
+        for (std::size_t i = 0; i < nvec_delta + head_skip_rec_n + 1; ++i) {
+            rc = ti->get_node_set().emplace_back(nvec.at(i));
+            if (rc == Status::ERR_CC) {
+                short_tx::abort(ti);
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(storage);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                return Status::ERR_CC;
             }
         }
     }
-- 
2.43.0


From aa321f1a958a1e2a72c6bcdf4bddda414e60a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:31 +0000
Subject: [PATCH 18/21] fix: consider range readers of later epochs when a long
 transaction is forwarded

range_read_by_long::is_exist compared the epoch of the committed range
read for equality with the forwarded epoch. A range read at a later epoch
must also reject the write, as point reads already do.
---
 src/concurrency_control/read_by.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..7ad472d 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -89,7 +89,7 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            if (ep <= std::get<range_read_by_long::index_epoch>(elem)) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +113,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 7a5bba18aa8d841cce32bb4fd93cf2a124fdb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:41:10 +0000
Subject: [PATCH 19/21] fix: retry a cursor read whose record changed during
 the read

When the stamp of a record changed while a long or read-only transaction
read its latest version through a cursor, the read went on with the next
older version.  The stamp also changes when a short transaction starts or
gives up turning a deleted record into an inserted one.  The latest version
is then still the one to read, so the cursor returned the value from before
the deletion.
---
 .../interface/scan/read_kv_from_scan.cpp         | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..e8d904a 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -144,6 +144,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         version* ver{};
         bool is_latest{false};
         tid_word f_check{};
+    RETRY:
         auto rc{long_tx::version_function_with_optimistic_check(
                 rec_ptr, ti->get_valid_epoch(), ver, is_latest, f_check)};
         if (rc == Status::WARN_NOT_FOUND) {
@@ -185,18 +186,11 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
                 return Status::OK;
             }
             /**
-             * else: fail to do optimistic read latest version. retry version
-             * function.
-             * It may find null version.
+             * else: fail to do optimistic read latest version. retry from the
+             * version function with optimistic check, because the latest
+             * version may still be the version which this tx should read.
              */
-            ver = rec_ptr->get_latest();
-            rc = long_tx::version_function_without_optimistic_check(
-                    ti->get_valid_epoch(), ver);
-            if (rc == Status::WARN_NOT_FOUND) {
-                // version list traversed.
-                read_register_if_ltx(rec_ptr);
-                return rc;
-            }
+            goto RETRY; // NOLINT
         }
 
         if (!ver->get_tid().get_absent()) {
-- 
2.43.0


From ae9f6888618fcd01515a09849bf0aeeefae8ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:22:40 +0000
Subject: [PATCH 20/21] fix: clear the commit callback before calling it

A commit that waited is finished by a background worker, which called the
callback and only then cleared it. A client starting its next transaction
from the callback could have the callback of its next commit cleared, so
that it was never called.
---
 src/concurrency_control/include/session.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 0e5fd93..1909045 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -106,11 +106,12 @@ public:
         // get callback
         auto cb = get_commit_callback();
 
+        // clear callback before calling it, because the next transaction of
+        // this session may set its own as soon as it was called
+        set_commit_callback({});
+
         // call callback if it can
         if (cb) { cb(sc, rc, dm); }
-
-        // clear callback
-        set_commit_callback({});
     }
 
     /**
-- 
2.43.0


From 596a547d3d1071722c2e81bf530690aba4bae85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:39:06 +0000
Subject: [PATCH 21/21] fix: keep the final state of a transaction that ended
 before its epoch

check_tx_state set the state back to WAITING_START while the epoch of a
long or read-only transaction had not come, even if the transaction had
already been aborted or committed. Later checks then reported it as
started.
---
 src/concurrency_control/transaction_state.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..90f9550 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -138,10 +138,9 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
             return Status::ERR_FATAL;
 #endif
         }
-    } else {
-        ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
-        out.set_kind(TxState::StateKind::WAITING_START); // for external
     }
+    // else: its epoch has not come. It is still waiting to start unless it was
+    // already finished, so the state must not be changed.
 
 
     return Status::OK;
-- 
2.43.0

