From 903d931068ae0eb001c083323180107dc92ef825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 01/34] fix: pack null blobs as empty blobs so readers stay in
 step

---
 src/utils/Blob.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..9702bcf 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,15 +112,19 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    // empty blobs still have to be packed, since
+    // the other side always unpacks the length
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
-    dst += len;
+    if (len) {
+        memcpy(dst, ptr, len);
+        dst += len;
+    }
 
     if (include_type) {
         little_endian::encode(dst, type);
-- 
2.43.0


From 1c096f52c5e8d575483d12941858a8138fa7a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 02/34] fix: report items that could not be encoded as failed
 in LevelDB and RocksDB bulk PUT and DELETE

---
 src/datastore/LevelDB.cpp | 8 ++++++--
 src/datastore/RocksDB.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..e6dfb28 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
@@ -419,6 +419,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -428,8 +429,11 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::leveldb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -445,7 +449,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..63e3019 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
@@ -419,6 +419,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -428,8 +429,11 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::rocksdb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -445,7 +449,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From a94c80f73677109796626b6a92ae49069a5f369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 03/34] fix: report bulk operations with items that could not
 be queued as failed

---
 src/hxhim/ops/BDELETE.cpp     | 13 ++++++----
 src/hxhim/ops/BGET.cpp        | 15 ++++++-----
 src/hxhim/ops/BGETOP.cpp      | 17 +++++++-----
 src/hxhim/ops/BHISTOGRAM.cpp  |  7 +++--
 src/hxhim/ops/BPUT.cpp        | 17 +++++++-----
 src/hxhim/ops/single_type.cpp | 49 +++++++++++++++++++++--------------
 6 files changed, 71 insertions(+), 47 deletions(-)

diff --git a/src/hxhim/ops/BDELETE.cpp b/src/hxhim/ops/BDELETE.cpp
index 95f1707..bff2c87 100644
--- a/src/hxhim/ops/BDELETE.cpp
+++ b/src/hxhim/ops/BDELETE.cpp
@@ -28,16 +28,19 @@ int hxhim::BDelete(hxhim_t *hx,
     ::Stats::Chronostamp bdel;
     bdel.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::DeleteImpl(hx,
-                          hx->p->queues.deletes,
-                          ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                          ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]));
+        if (hxhim::DeleteImpl(hx,
+                              hx->p->queues.deletes,
+                              ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                              ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i])) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bdel.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_DELETE].emplace_back(bdel);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGET.cpp b/src/hxhim/ops/BGET.cpp
index 6e991e6..b2ca889 100644
--- a/src/hxhim/ops/BGET.cpp
+++ b/src/hxhim/ops/BGET.cpp
@@ -31,17 +31,20 @@ int hxhim::BGet(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_types[i]);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_types[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGETOP.cpp b/src/hxhim/ops/BGETOP.cpp
index 50c3b9e..68247b9 100644
--- a/src/hxhim/ops/BGETOP.cpp
+++ b/src/hxhim/ops/BGETOP.cpp
@@ -34,18 +34,21 @@ int hxhim::BGetOp(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_types[i],
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_types[i],
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 699f2bd..fea6794 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -35,13 +35,16 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     ::Stats::Chronostamp bhist;
     bhist.start = ::Stats::now();
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::HistogramImpl(hx, hx->p->queues.histograms, rs_ids[i], names[i], name_lens[i]);
+        if (hxhim::HistogramImpl(hx, hx->p->queues.histograms, rs_ids[i], names[i], name_lens[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bhist.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_HISTOGRAM].emplace_back(bhist);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BPUT.cpp b/src/hxhim/ops/BPUT.cpp
index ef3cac2..b062b27 100644
--- a/src/hxhim/ops/BPUT.cpp
+++ b/src/hxhim/ops/BPUT.cpp
@@ -39,13 +39,16 @@ int hxhim::BPut(hxhim_t *hx,
     }
 
     // append these spo triples into the list of unsent PUTs
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_types[i]),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_types[i]),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -55,7 +58,7 @@ int hxhim::BPut(hxhim_t *hx,
 
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..352aea1 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -23,13 +23,16 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_type),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_type),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -42,7 +45,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBPutSingleType(hxhim_t *hx,
@@ -75,19 +78,22 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_type);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_type) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetSingleType(hxhim_t *hx,
@@ -120,20 +126,23 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_type,
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_type,
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetOPSingleType(hxhim_t *hx,
-- 
2.43.0


From 53d95e4354edeecaf0f851b9c4628a39ffca6a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 04/34] fix: check every array and the PUT queue lock in the
 single type bulk operations

---
 src/hxhim/ops/single_type.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 352aea1..5539cc9 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -13,8 +13,8 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu PUTs of type %d", count, object_type);
 
     if (!started(hx)||
-        !subjects   || !subject_lens   ||
-        !predicates || !predicate_lens ||
+        !subjects   || !subject_lens   || !subject_types   ||
+        !predicates || !predicate_lens || !predicate_types ||
         !objects    || !object_lens    ||
         !permutations) {
         return HXHIM_ERROR;
@@ -23,6 +23,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
         if (hxhim::PutImpl(hx,
@@ -37,6 +41,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
+        hx->p->queues.puts.mutex.unlock();
     }
     else {
         hxhim::serial_puts(hx);
@@ -70,8 +75,8 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens) {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types) {
         return HXHIM_ERROR;
     }
 
@@ -117,9 +122,9 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types ||
+        !num_records || !ops)            {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 591e1f7bac05fd4dd18850d36d509ec90acc34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 05/34] fix: give the PUT queue one target per datastore after
 background processing

---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..66bc1e2 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -249,7 +249,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From c832f9de0b201a33c5b39311bfdd56491b54a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:08 +0000
Subject: [PATCH 06/34] fix: lock the stored background PUT results while they
 are collected

---
 src/hxhim/init.cpp      | 3 ++-
 src/hxhim/ops/FLUSH.cpp | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 66bc1e2..816867f 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -262,6 +262,8 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
+
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -270,7 +272,6 @@ static void async_put_thread(hxhim_t *hx) {
                 hx->p->async_puts.results = results;
             }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             hx->p->async_puts.done_check = true;
         }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..fd32079 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -42,9 +42,12 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
         hxhim::wait_for_background_puts(hx, false);
 
         // move internal results to res to give to caller
-        res->Append(hx->p->async_puts.results);
-        destruct(hx->p->async_puts.results);
-        hx->p->async_puts.results = nullptr;
+        {
+            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+            res->Append(hx->p->async_puts.results);
+            destruct(hx->p->async_puts.results);
+            hx->p->async_puts.results = nullptr;
+        }
 
         hx->p->queues.puts.mutex.lock();
     }
-- 
2.43.0


From 573e4527c30f9b49d2e96d303c40a1e59f607e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 07/34] fix: return the results of PUTs processed before a
 flush when there is no background thread

---
 src/hxhim/ops/FLUSH.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index fd32079..5d34a04 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -40,15 +40,18 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         // wait for the background thread to finish
         hxhim::wait_for_background_puts(hx, false);
+    }
 
-        // move internal results to res to give to caller
-        {
-            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
-            res->Append(hx->p->async_puts.results);
-            destruct(hx->p->async_puts.results);
-            hx->p->async_puts.results = nullptr;
-        }
+    // move internal results to res to give to caller
+    // (PUTs processed before this flush, with or without a background thread)
+    {
+        std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+        res->Append(hx->p->async_puts.results);
+        destruct(hx->p->async_puts.results);
+        hx->p->async_puts.results = nullptr;
+    }
 
+    if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.mutex.lock();
     }
 
-- 
2.43.0


From ad42ad99b2cea96c09581e0d3441406ba8bb8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:39 +0000
Subject: [PATCH 08/34] fix: send every request when several datastores are on
 one remote rank

---
 include/hxhim/private/process.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..84d5913 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -53,6 +53,12 @@ hxhim::Results *process(hxhim_t *hx,
                 continue;
             }
 
+            // only one request can be sent to each remote rank at a time
+            // leave the others in their queues until the next round
+            if (remote.find(hx->p->queues.ds_to_rank[ds]) != remote.end()) {
+                continue;
+            }
+
             Request_t *req = queues[ds].front();
             queues[ds].pop_front();
 
-- 
2.43.0


From eced92127bd59c9d256d5cf378f94565f2a082fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:56 +0000
Subject: [PATCH 09/34] fix: reject items whose hash is not the id of a
 datastore

---
 src/hxhim/ops/impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 41c9911..b34f8af 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -76,7 +76,7 @@ Request_t *get_packet(hxhim_t *hx,
                                  predicate.data(), predicate.size());
 
     hash.end = ::Stats::now();
-    if (rs_id < 0) {
+    if ((rs_id < 0) || ((std::size_t) rs_id >= queues.size())) {
         return nullptr;
     }
 
@@ -165,7 +165,7 @@ int hxhim::PutImpl(hxhim_t *hx,
                                      pred->data(), pred->size());
 
         hash.end = ::Stats::now();
-        if (rs_id < 0) {
+        if ((rs_id < 0) || ((std::size_t) rs_id >= puts.size())) {
             return HXHIM_ERROR;
         }
 
-- 
2.43.0


From 6d000b353b4e4f2996d5d08a00e6f0c0d3c7e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 10/34] fix: locate datastores by datastore id instead of range
 server id

---
 src/hxhim/accessors.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 9bc275a..4561210 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -1,4 +1,4 @@
-#include "hxhim/RangeServer.hpp"
+#include "hxhim/Datastore.hpp"
 #include "hxhim/accessors.hpp"
 #include "hxhim/private/accessors.hpp"
 #include "hxhim/private/hxhim.hpp"
@@ -288,10 +288,11 @@ int hxhim::nocheck::GetDatastoreLocation(hxhim_t *hx, const int id, int *rank, i
     }
 
     if (rank) {
-        *rank = RangeServer::get_rank(id,
-                                      hx->p->range_server.client_ratio,
-                                      hx->p->range_server.server_ratio,
-                                      hx->p->range_server.datastores.per_server);
+        *rank = Datastore::get_rank(id,
+                                    hx->p->bootstrap.size,
+                                    hx->p->range_server.client_ratio,
+                                    hx->p->range_server.server_ratio,
+                                    hx->p->range_server.datastores.per_server);
         if (*rank < 0) {
             return HXHIM_ERROR;
         }
-- 
2.43.0


From 3f5974bd7e233ce1a5900bd014fe5dd67159778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 11/34] fix: close the old datastores and use their ids when
 the hash is changed

---
 src/hxhim/hxhim.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index efe31c3..d8f9507 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -310,18 +310,15 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
     MPI_Barrier(hx->p->bootstrap.comm);
 
     // change hashes
+    hx->p->hash.name = name;
     hx->p->hash.func = func;
     hx->p->hash.args = args;
 
-    for(std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) {
+    for(::Datastore::Datastore *ds : hx->p->range_server.datastores.ds) {
         // change datastores
         std::stringstream s;
-        s << name << "-" << Datastore::get_id(hx->p->bootstrap.rank,
-                                              hx->p->bootstrap.size,
-                                              hx->p->range_server.client_ratio,
-                                              hx->p->range_server.server_ratio,
-                                              i);
-        hx->p->range_server.datastores.ds[i]->Open(s.str());
+        s << name << "-" << ds->ID();
+        ds->Change(s.str(), hx->p->histograms.write);
     }
 
     MPI_Barrier(hx->p->bootstrap.comm);
-- 
2.43.0


From 03ce68d4210e8729d30280710e55cc4c1e377137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 12/34] fix: OpenOne opens its datastore instead of
 dereferencing a destroyed configuration

---
 src/hxhim/init.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 816867f..66a98d3 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,13 +182,10 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
-
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
     hx->p->range_server.server_ratio = 1;
+    hx->p->range_server.datastores.per_server = 1;
 
     // ignore configuration hash - everything goes into here
     hx->p->hash.name = "local";
@@ -210,6 +207,7 @@ int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
     hx->p->range_server.id = 0;
     hx->p->range_server.datastores.ds.push_back(ds);
     hx->p->range_server.total_range_servers = 1;
+    hx->p->range_server.datastores.total = 1;
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From d69a50520e3597bc04a047c44aa78b6a4a60ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 13/34] fix: keep the result of a GETOP that returned no
 records

---
 src/hxhim/Results.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..bf0ccb5 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -194,11 +194,11 @@ hxhim::Result::GetOp *hxhim::Result::init(hxhim_t *hx, Message::Response::BGetOp
         prev->next = curr;
     }
 
-    // drop last item (empty)
+    // drop last item (empty), unless there were no records
     if (prev) {
         prev->next = nullptr;
+        destruct(curr);
     }
-    destruct(curr);
 
     return top;
 }
-- 
2.43.0


From 2df20694d832c7e139b062e664914aa73c975116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:21 +0000
Subject: [PATCH 14/34] fix: close sessions that were not completely opened

---
 src/hxhim/destroy.cpp | 5 ++++-
 src/hxhim/hxhim.cpp   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/destroy.cpp b/src/hxhim/destroy.cpp
index 8ee1e21..2f523ad 100644
--- a/src/hxhim/destroy.cpp
+++ b/src/hxhim/destroy.cpp
@@ -40,7 +40,10 @@ int hxhim::destroy::async_puts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         wait_for_background_puts(hx, true);
 
-        hx->p->async_puts.thread.join();
+        // the thread was not started if Open failed early
+        if (hx->p->async_puts.thread.joinable()) {
+            hx->p->async_puts.thread.join();
+        }
     }
 
     // release unproceesed results from asynchronous PUTs
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index d8f9507..c8c2d3c 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -249,7 +249,9 @@ int hxhim::Close(hxhim_t *hx) {
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
 
     // make sure all ranks are ready to stop
-    MPI_Barrier(comm);
+    if (comm != MPI_COMM_NULL) {
+        MPI_Barrier(comm);
+    }
 
     destroy::async_puts(hx); // complete existing processing and prevent new processing
     destroy::hash(hx);       // prevent new work from hashing properly
-- 
2.43.0


From 0eda9229f70450321942e21e46d2c86074f29f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:03 +0000
Subject: [PATCH 15/34] fix: guard the packet statistics shared with the
 background PUT thread

---
 include/hxhim/private/Stats.hpp   | 4 ++++
 include/hxhim/private/process.hpp | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..2d543a2 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -13,6 +14,9 @@ namespace Stats {
 
 // Events sorted by op type
 struct Global {
+    // used and outgoing are updated by the background PUT thread as well
+    std::mutex mutex;
+
     // how long each single operation called by the user took
     std::map<enum hxhim_op_t, std::list<::Stats::Chronostamp> > single_op;
 
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index 84d5913..5d0692e 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -77,8 +77,12 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                // PUTs may be processed in the background at the same time
+                std::lock_guard<std::mutex> stats_lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
-- 
2.43.0


From 608973dff9e8f95b93428b329a6305f96db667a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:19 +0000
Subject: [PATCH 16/34] fix: do not mix up the responses of foreground and
 background requests

---
 include/hxhim/private/hxhim.hpp   | 1 +
 include/hxhim/private/process.hpp | 7 ++++++-
 src/hxhim/private.cpp             | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/hxhim.hpp b/include/hxhim/private/hxhim.hpp
index 8d003a0..6d1a2d4 100644
--- a/include/hxhim/private/hxhim.hpp
+++ b/include/hxhim/private/hxhim.hpp
@@ -113,6 +113,7 @@ typedef struct hxhim_private {
         Transport::Options *config;
         std::set<int> endpointgroup;
         Transport::Transport *transport;
+        std::mutex mutex;                  // one round of requests and responses at a time
     } transport;
 
     struct {
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index 5d0692e..9989801 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -103,7 +103,12 @@ hxhim::Results *process(hxhim_t *hx,
             #endif
 
             // send down transport layer
-            Response_t *response = hx->p->transport.transport->communicate(remote);
+            // the responses of PUTs processed in the background have to stay apart
+            Response_t *response = nullptr;
+            {
+                std::lock_guard<std::mutex> transport_lock(hx->p->transport.mutex);
+                response = hx->p->transport.transport->communicate(remote);
+            }
 
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint remote_end = ::Stats::now();
diff --git a/src/hxhim/private.cpp b/src/hxhim/private.cpp
index c7f592b..bcf21f9 100644
--- a/src/hxhim/private.cpp
+++ b/src/hxhim/private.cpp
@@ -12,7 +12,7 @@ hxhim_private::hxhim_private()
       queues(),
       async_puts(),
       hash(),
-      transport({nullptr, {}, nullptr}),
+      transport(),
       histograms(),
       range_server(),
       stats(),
-- 
2.43.0


From 4ed47ae95037d951d36a0273324fd24fa03e1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 17/34] fix: transform callbacks return hxhim statuses, as
 documented

---
 include/datastore/transform.tpp | 18 +++++++++---------
 src/datastore/datastore.cpp     |  6 ++++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index e446606..34999a5 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -3,7 +3,7 @@
 
 #include <cstring>
 
-#include "datastore/constants.hpp"
+#include "hxhim/constants.h"
 #include "utils/elen.hpp"
 #include "utils/memory.hpp"
 #include "utils/type_traits.hpp"
@@ -23,7 +23,7 @@ int integers(void *src, const size_t,
              void **dst, size_t *dst_size,
              void *extra) {
     if (!src || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -31,7 +31,7 @@ int integers(void *src, const size_t,
     const std::string encoded = elen::encode::integers(* (T *) src, num_extra->neg, num_extra->pos);
     *dst = copy(encoded);
     *dst_size = encoded.size();
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
@@ -39,7 +39,7 @@ int floating_point(void *src, const size_t,
                    void **dst, size_t *dst_size,
                    void *extra) {
     if (!src || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -49,7 +49,7 @@ int floating_point(void *src, const size_t,
                                                              num_extra->neg, num_extra->pos);
     *dst = copy(encoded);
     *dst_size = encoded.size();
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 }
@@ -61,7 +61,7 @@ int integers(void *src, const size_t src_size,
              void **dst, size_t *dst_size,
              void *extra) {
     if (!src || !dst || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -74,7 +74,7 @@ int integers(void *src, const size_t src_size,
 
     * (T *) *dst = elen::decode::integers<T>(std::string((const char *) src, src_size), nullptr,
                                              num_extra->neg, num_extra->pos);
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
@@ -82,7 +82,7 @@ int floating_point(void *src, const size_t src_size,
                    void **dst, size_t *dst_size,
                    void *extra) {
     if (!src || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -95,7 +95,7 @@ int floating_point(void *src, const size_t src_size,
 
     * (T *) *dst = elen::decode::floating_point<T>(std::string((const char *) src, src_size),
                                                    num_extra->neg, num_extra->pos);
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 }
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..777f688 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -390,7 +390,8 @@ int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    // callbacks return HXHIM_SUCCESS or HXHIM_ERROR
+    return (it->second.first(src.data(), src.size(), dst, dst_size, it->second.second) == HXHIM_SUCCESS)?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
@@ -409,7 +410,8 @@ int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    // callbacks return HXHIM_SUCCESS or HXHIM_ERROR
+    return (it->second.first(src.data(), src.size(), dst, dst_size, it->second.second) == HXHIM_SUCCESS)?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 Datastore::Datastore::Stats::Event::Event()
-- 
2.43.0


From b692a8c38990a55fd30d9224acc7fe97532b0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 18/34] fix: MPI endpoint group compared message statuses with
 a transport status

---
 include/transport/backend/MPI/EndpointGroup.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..f2b36e0 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -40,7 +40,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             dsts[pack_count] = msg->dst;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
@@ -312,7 +312,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From 232520ae25eefa47bb8de7d169ec6014248eea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 19/34] fix: steal answers with message statuses

---
 src/message/BDelete.cpp | 2 +-
 src/message/BGetOp.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/BDelete.cpp b/src/message/BDelete.cpp
index 1434a51..f27b6f3 100644
--- a/src/message/BDelete.cpp
+++ b/src/message/BDelete.cpp
@@ -56,7 +56,7 @@ int Message::Response::BDelete::steal(BDelete *from, const std::size_t i) {
         from->statuses[i]);
     from->orig.subjects[i] = nullptr;
     from->orig.predicates[i] = nullptr;
-    return HXHIM_SUCCESS;
+    return MESSAGE_SUCCESS;
 }
 
 int Message::Response::BDelete::cleanup() {
diff --git a/src/message/BGetOp.cpp b/src/message/BGetOp.cpp
index 57adf0e..b5d5f5c 100644
--- a/src/message/BGetOp.cpp
+++ b/src/message/BGetOp.cpp
@@ -140,7 +140,7 @@ int Message::Response::BGetOp::steal(BGetOp *from, const std::size_t i) {
     from->predicates[i] = nullptr;
     from->objects[i]    = nullptr;
 
-    return HXHIM_SUCCESS;
+    return MESSAGE_SUCCESS;
 }
 
 int Message::Response::BGetOp::cleanup() {
-- 
2.43.0


From 8f3a47d0e5f96664af400d423bb511a58920b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:22 +0000
Subject: [PATCH 20/34] fix: MPI range server dereferenced requests and
 responses it did not get, and leaked those it did

---
 src/transport/backend/MPI/RangeServer.cpp | 26 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..5c48125 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -53,21 +53,37 @@ void RangeServer::listener_thread() {
 
         // decode request
         Message::Request::Request *request = nullptr;
-        Message::Unpacker::unpack(&request, req, len);
+        const int unpacked = Message::Unpacker::unpack(&request, req, len);
         dealloc(req);
 
+        if (unpacked != MESSAGE_SUCCESS) {
+            mlog(MPI_ERR, "MPI Range Server could not unpack a request");
+            continue;
+        }
+
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
+
+        if (!response) {
+            mlog(MPI_ERR, "MPI Range Server could not process a request");
+            continue;
+        }
 
         // encode result
         void *res = nullptr;
         len = 0;
-        Message::Packer::pack(response, &res, &len);
+        const int packed = Message::Packer::pack(response, &res, &len);
+        const int dst = response->dst;
+        destruct(response);
+
+        if (packed != MESSAGE_SUCCESS) {
+            mlog(MPI_ERR, "MPI Range Server could not pack a response");
+            continue;
+        }
 
         // send result
-        const int ret = send(response->dst, res, len);
-        dealloc(response);
+        const int ret = send(dst, res, len);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From ba3f46f384eb47f220cdbb14d979035bf892ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:44 +0000
Subject: [PATCH 21/34] fix: Scott's rule asked for a negative number of
 histogram buckets

---
 src/utils/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..cb3dcbd 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -136,7 +136,7 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    return generate_using_bin_count(min, max, (max - min) / h, buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
-- 
2.43.0


From 71b371e57e2493a0baa1ee988bd238118872fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:44 +0000
Subject: [PATCH 22/34] fix: the upper end of a histogram without positive
 values was not one of its values

---
 src/utils/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cb3dcbd..2c22c5b 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -218,7 +218,7 @@ int Histogram::Histogram::add(const double &value) {
             }
 
             // initialize the upper bound
-            buckets_[size_] = std::numeric_limits<double>::min();
+            buckets_[size_] = std::numeric_limits<double>::lowest();
 
             // insert original data
             for(std::size_t i = 0; i < first_n_; i++) {
-- 
2.43.0


From 317b9a7f50404a106ceb072e87394f49b6f185e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 23/34] fix: histograms read from a datastore had no bucket
 generator, and generators were given more values than are cached

---
 include/utils/Histogram.hpp  |  3 +++
 src/datastore/datastores.cpp |  3 +++
 src/hxhim/hxhim.cpp          | 19 +++++++++++--------
 src/utils/Histogram.cpp      | 19 +++++++++++++++++--
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index f778ece..c9b5c16 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -47,6 +47,9 @@ class Histogram {
         bool unpack(const void *buf, const std::size_t size);
         bool unpack(char *&curr, std::size_t &size, std::size_t *used);
 
+        // Set the bucket generator of an unpacked histogram
+        void set_generator(const Config &config);
+
         // removes all datapoints, including the first_n values
         void clear();
 
diff --git a/src/datastore/datastores.cpp b/src/datastore/datastores.cpp
index 126d5a0..9d86e19 100644
--- a/src/datastore/datastores.cpp
+++ b/src/datastore/datastores.cpp
@@ -130,6 +130,9 @@ Datastore::Init(hxhim_t *hx,
                 (existing->find(name) == existing->end())) {   // histogram doesn't exist
                 ds->AddHistogram(name, hist_config);
             }
+            else {                                             // generators are not stored
+                existing->at(name)->set_generator(hist_config);
+            }
         }
     }
 
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index c8c2d3c..b9bb89f 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -389,14 +389,17 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
                    write_histograms,
                    read_histograms?&hx->p->histograms.names:nullptr);
 
-        if (create_missing) {
-            const ::Datastore::Datastore::Histograms *hists = nullptr;
-            ds->GetHistograms(&hists);
-
-            for(std::string const &hist_name : hx->p->histograms.names) {
-                if (hists->find(hist_name) == hists->end()){
-                    ds->AddHistogram(hist_name, hx->p->histograms.config);
-                }
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
+
+        for(std::string const &hist_name : hx->p->histograms.names) {
+            REF(*hists)::const_iterator it = hists->find(hist_name);
+            if (it != hists->end()) {
+                // generators are not stored
+                it->second->set_generator(hx->p->histograms.config);
+            }
+            else if (create_missing) {
+                ds->AddHistogram(hist_name, hx->p->histograms.config);
             }
         }
     }
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 2c22c5b..76ba914 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -212,8 +212,11 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
-                (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
+            // (only first_n values are cached; histograms that were read back
+            // might not have been given a generator)
+            if (!gen_                                                                ||
+                (gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+                (gen_counts()                                      != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
 
@@ -553,6 +556,18 @@ std::ostream &Histogram::Histogram::print(std::ostream &stream, const std::strin
     return stream;
 }
 
+/**
+ * set_generator
+ * Set how buckets are generated, which is not
+ * packed, for a histogram that was unpacked
+ *
+ * @param config the configuration containing the generator
+ */
+void Histogram::Histogram::set_generator(const Config &config) {
+    gen_ = config.generator;
+    extra_ = config.extra_args;
+}
+
 /**
  * gen_counts
  * Allocates memory for the counts and zeros them
-- 
2.43.0


From b42a8fc73ca80e91bcaea572be21369973a74d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:34 +0000
Subject: [PATCH 24/34] fix: GETOP LAST on an empty in memory datastore went
 back from its first element

---
 src/datastore/InMemory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..aee7658 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -257,7 +257,9 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
                 it = db.end();
-                it--;
+                if (it != db.begin()) {
+                    it--;
+                }
 
                 if (it != db.end()) {
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
-- 
2.43.0


From 48f9bb2d734aae0db35f2cc222965a2e88109ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:42 +0000
Subject: [PATCH 25/34] fix: GETOPs of no records wrote into arrays without
 elements

---
 src/datastore/datastore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 777f688..ca951f8 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -453,9 +453,12 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // there is always space for at least one record, since
+    // EQ ignores num_recs, and errors are returned as a record
+    const std::size_t max_recs = std::max(req->num_recs[i], (std::size_t) 1);
+    res->add(alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
              0,
              DATASTORE_UNSET);
 
-- 
2.43.0


From 4c12a740b88a79a97368c18342e669bc43ee4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:51 +0000
Subject: [PATCH 26/34] fix: GETOP EQ and LOWEST answered with records other
 than those asked for

---
 src/datastore/InMemory.cpp | 10 ++++++----
 src/datastore/LevelDB.cpp  |  8 +++++---
 src/datastore/RocksDB.cpp  |  8 +++++---
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index aee7658..87443f5 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -199,7 +199,8 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
                 it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
 
-                if (it != db.end()) {
+                if ((it != db.end()) &&
+                    (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
                 }
@@ -280,11 +281,12 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
 
                 it = db.lower_bound(seek);
 
-                if (it != db.end()) {
+                if ((it != db.end()) &&
+                    (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
@@ -314,7 +316,7 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it--;
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index e6dfb28..d1b2222 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
@@ -319,7 +321,7 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
                 it->Seek(seek);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         it->Valid() &&
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 63e3019..fa634fa 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
@@ -319,7 +321,7 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
                 it->Seek(seek);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         it->Valid() &&
-- 
2.43.0


From 85efa8608d316cf9705a95110be7cd2a5c507197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:13 +0000
Subject: [PATCH 27/34] fix: GETOP HIGHEST started in front of the prefix
 instead of at its end

---
 include/datastore/datastore.hpp |  5 +++++
 src/datastore/InMemory.cpp      | 19 +++++++++++--------
 src/datastore/LevelDB.cpp       | 22 ++++++++++++----------
 src/datastore/RocksDB.cpp       | 22 ++++++++++++----------
 src/datastore/datastore.cpp     | 32 ++++++++++++++++++++++++++++++++
 5 files changed, 72 insertions(+), 28 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..b800990 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,11 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        std::string BGetOp_get_seek_end(const Blob &key,
+                                        std::size_t prefix_len,
+                                        std::size_t predicate_len,
+                                        hxhim_data_t predicate_type);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 87443f5..50bb8af 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -297,28 +297,31 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_seek_end(key, prefix_len, predicate_len,
+                                                             req->predicates[i].data_type());
 
-                // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                // find first key past the prefix
+                it = seek.size()?db.lower_bound(seek):db.end();
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                if (it != db.begin()) {
                     it--;
                 }
                 else {
-                    it = db.rbegin().base();
+                    it = db.end();
                 }
 
-                if (it != db.end()) {
+                if ((it != db.end()) &&
+                    (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
                         (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
+                        if (it == db.begin()) {
+                            break;
+                        }
                         it--;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index d1b2222..d5a2ece 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -336,21 +336,23 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_seek_end(key, prefix_len, predicate_len,
+                                                             req->predicates[i].data_type());
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
-
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
-                    it->Prev();
-                }
-                else {
-                    it->SeekToLast();
+                it->SeekToLast();
+                if (seek.size()) {
+                    it->Seek(seek);
+                    if (it->Valid()) {
+                        it->Prev();
+                    }
+                    else {
+                        it->SeekToLast();
+                    }
                 }
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index fa634fa..b98e686 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -336,21 +336,23 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_seek_end(key, prefix_len, predicate_len,
+                                                             req->predicates[i].data_type());
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
-
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
-                    it->Prev();
-                }
-                else {
-                    it->SeekToLast();
+                it->SeekToLast();
+                if (seek.size()) {
+                    it->Seek(seek);
+                    if (it->Valid()) {
+                        it->Prev();
+                    }
+                    else {
+                        it->SeekToLast();
+                    }
                 }
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index ca951f8..3c85347 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -521,6 +521,38 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+// get the first string that is past all keys with the given prefix
+// if there is no such string, an empty string is returned
+std::string Datastore::Datastore::BGetOp_get_seek_end(const Blob &key,
+                                                      std::size_t prefix_len,
+                                                      std::size_t predicate_len,
+                                                      hxhim_data_t predicate_type) {
+    // does not include the type or length information
+    std::string seek((char *) key.data(), prefix_len);
+
+    if ((predicate_len == 0) &&
+        ((predicate_type == HXHIM_DATA_INT32)   ||
+         (predicate_type == HXHIM_DATA_INT64)   ||
+         (predicate_type == HXHIM_DATA_UINT32)  ||
+         (predicate_type == HXHIM_DATA_UINT64)  ||
+         (predicate_type == HXHIM_DATA_FLOAT)   ||
+         (predicate_type == HXHIM_DATA_DOUBLE))) {
+        // positive values are the last numerical values with the given prefix
+        seek += callbacks->numeric_extra.pos;
+    }
+
+    // increment the last character that can be incremented
+    while (seek.size() && (seek.back() == '\xff')) {
+        seek.pop_back();
+    }
+
+    if (seek.size()) {
+        seek.back()++;
+    }
+
+    return seek;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From bc2f3b4386d5734cf715086761addc0fa5a34e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:35 +0000
Subject: [PATCH 28/34] fix: a refused bootstrap communicator replaced the one
 that had been set

---
 src/hxhim/options.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index f178f62..a47878d 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -18,11 +18,13 @@
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_mpi_bootstrap(hxhim_t *hx, MPI_Comm comm) {
-    if (!hx || !hx->p || hx->p->running) {
+    if (!hx || !hx->p || hx->p->running || (comm == MPI_COMM_NULL)) {
         return HXHIM_ERROR;
     }
 
-    return ((hx->p->bootstrap.comm = comm) == MPI_COMM_NULL)?HXHIM_ERROR:HXHIM_SUCCESS;
+    hx->p->bootstrap.comm = comm;
+
+    return HXHIM_SUCCESS;
 }
 
 /**
-- 
2.43.0


From 7d64e95b5ba784a4bd2a6d50b2833f3a03c723b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:45 +0000
Subject: [PATCH 29/34] fix: setting a transform function again kept the one
 set first

---
 src/hxhim/options.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index a47878d..afc61c1 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -322,8 +322,8 @@ int hxhim_set_transform_function(hxhim_t *hx, const enum hxhim_data_t type,
         return HXHIM_ERROR;
     }
 
-    hx->p->range_server.datastores.transform.encode.emplace(type, std::make_pair(encode, encode_extra));
-    hx->p->range_server.datastores.transform.decode.emplace(type, std::make_pair(decode, decode_extra));
+    hx->p->range_server.datastores.transform.encode[type] = std::make_pair(encode, encode_extra);
+    hx->p->range_server.datastores.transform.decode[type] = std::make_pair(decode, decode_extra);
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From 5a3622b1cb10f999fb01035f23a0fccc8cd39617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 30/34] fix: transform functions set for types that have a
 default were ignored

---
 src/hxhim/init.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 66a98d3..4757202 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -89,10 +89,10 @@ static ::Datastore::Transform::Callbacks *transform(hxhim_t *hx) {
 
     // overwrite existing callbacks with those set in opts
     for(decltype(transform.encode)::value_type const &callback : transform.encode) {
-        callbacks->encode.emplace(callback);
+        callbacks->encode[callback.first] = callback.second;
     }
     for(decltype(transform.decode)::value_type const &callback : transform.decode) {
-        callbacks->decode.emplace(callback);
+        callbacks->decode[callback.first] = callback.second;
     }
 
     return callbacks;
-- 
2.43.0


From 7f1df7a73285e3e1133fb74b01a3cacec6763bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:37 +0000
Subject: [PATCH 31/34] fix: hxhim_set_transport_mpi used the session before
 checking it

---
 src/hxhim/options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index afc61c1..c6f87ad 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -375,6 +375,10 @@ int hxhim_set_transport_null(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_transport_mpi(hxhim_t *hx, const size_t listeners) {
+    if (!hx || !hx->p) {
+        return HXHIM_ERROR;
+    }
+
     Transport::Options *config = construct<Transport::MPI::Options>(hx->p->bootstrap.comm, listeners);
     if (hxhim_set_transport(hx, config) != HXHIM_SUCCESS) {
         destruct(config);
-- 
2.43.0


From ce4f2fcd74ce7d166b183a287ac88bdf4d8352d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 32/34] fix: failing to open a datastore returned the value of
 HXHIM_SUCCESS

---
 include/hxhim/constants.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hxhim/constants.h b/include/hxhim/constants.h
index 724c6bd..927f244 100644
--- a/include/hxhim/constants.h
+++ b/include/hxhim/constants.h
@@ -37,6 +37,8 @@ extern "C"
 #define HXHIM_OPEN_ERROR_PREFIX HXHIM_OPEN_ERROR
 
 enum hxhim_open_t {
+    /* none of the errors may have the value of HXHIM_SUCCESS */
+    HXHIM_OPEN_ERROR_FIRST = HXHIM_ERROR,
     HXHIM_OPEN_ERROR_GEN(HXHIM_OPEN_ERROR_PREFIX, GENERATE_ENUM)
 };
 
-- 
2.43.0


From 2dafb117b5a9ff457fe6a14cc44c4cdda32cb9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 33/34] fix: opening an instance that was not initialized
 dereferenced a null pointer

---
 src/hxhim/hxhim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index b9bb89f..bbb0367 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -95,7 +95,7 @@ int hxhimInit(hxhim_t *hx, MPI_Comm comm) {
  */
 int hxhim::Open(hxhim_t *hx) {
     /** don't restart already running instances */
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
@@ -184,7 +184,7 @@ int hxhimOpen(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 0a7edaa4623d24d76a4356916339dce0a97cf29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 34/34] fix: OpenOne waited on a null communicator when
 bootstrapping failed

---
 src/hxhim/hxhim.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index bbb0367..1b2b698 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -191,8 +191,13 @@ int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
     //Open mlog - stolen from plfs
     mlog_open((char *) "hxhim", 0, hx->p->debug_level, hx->p->debug_level, nullptr, 0, MLOG_LOGPID, 0);
 
-    if ((init::bootstrap     (hx)          != HXHIM_SUCCESS) ||
-        (hx->p->bootstrap.size             != 1)             ||    // Only allow for 1 rank
+    if (init::bootstrap(hx) != HXHIM_SUCCESS) {
+        Close(hx);
+        mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
+        return HXHIM_ERROR;
+    }
+
+    if ((hx->p->bootstrap.size             != 1)             ||    // Only allow for 1 rank
         (init::running       (hx)          != HXHIM_SUCCESS) ||
         (init::one_datastore (hx, db_path) != HXHIM_SUCCESS) ||
         (init::queues        (hx)          != HXHIM_SUCCESS) ||
-- 
2.43.0

