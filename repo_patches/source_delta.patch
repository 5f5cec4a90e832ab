From aa90d754b9c38f6cfac5f694d95e4c93872ec03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 01/57] fix: background PUT thread must keep one queue per
 datastore

---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..66bc1e2 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -249,7 +249,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From a76bbfe30033f24f1a4320c1366157dca0ab5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 02/57] fix: address MPI requests by the rank of their server

The endpoint map was keyed by range server id, but was looked up with
datastore ids when sending and with ranks when receiving.
---
 include/transport/backend/MPI/EndpointGroup.tpp |  2 +-
 src/transport/backend/MPI/Init.cpp              | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..e9fdbd7 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -41,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
         if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
-            dsts[pack_count] = msg->dst;
+            dsts[pack_count] = message.first;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index a5a0420..004d779 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -35,21 +35,17 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
     EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
                                                  hx->p->running);
 
-    // logical
-    int rs_id = 0;
-
-    // create mapping between logical IDs and endpoint ranks
+    // create mapping between destination ranks (the keys
+    // of the request lists) and endpoint ranks
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
         if (hxhim::RangeServer::is_range_server(i, hx->p->bootstrap.size, client_ratio, server_ratio)) {
             if (hx->p->bootstrap.rank != i) { // skip adding the local range server
                 // if the rank was specified as part of the endpoint
                 // group, add the rank to the endpoint group
                 if (endpointgroup.find(i) != endpointgroup.end()) {
-                    eg->AddID(rs_id, i);
+                    eg->AddID(i, i);
                 }
             }
-
-            rs_id++;
         }
     }
 
-- 
2.43.0


From 426b27a7afd7a510eb87c1e59963c6c66b5c8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 03/57] fix: do not drop packets to several datastores of one
 remote server

---
 include/hxhim/private/process.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..c5b2599 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -53,6 +53,12 @@ hxhim::Results *process(hxhim_t *hx,
                 continue;
             }
 
+            // a server only gets one packet per round, so packets for
+            // its other datastores have to wait for the next round
+            if (remote.find(hx->p->queues.ds_to_rank[ds]) != remote.end()) {
+                continue;
+            }
+
             Request_t *req = queues[ds].front();
             queues[ds].pop_front();
 
-- 
2.43.0


From d64c35874c9c94f2278a82e61bfc85295fedd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 04/57] fix: serialize MPI exchanges of foreground and
 background threads

---
 include/transport/backend/MPI/EndpointGroup.hpp | 6 ++++++
 include/transport/backend/MPI/EndpointGroup.tpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 9977d02..7d3dac7 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -2,6 +2,7 @@
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
 #include <atomic>
+#include <mutex>
 #include <unordered_map>
 
 #include <mpi.h>
@@ -65,6 +66,11 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
 
         volatile std::atomic_bool &running;
 
+        /** The foreground and the background PUT thread can both be communicating.
+            The buffers below and the message tags are shared, so only one thread
+            can be waiting on responses at a time */
+        std::mutex mutex;
+
         /** Memory that is only allocated once during the lifetime of EndpointGroup
             and is only used by one function at a time */
         std::size_t *lens; // buffer lengths
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index e9fdbd7..2595c79 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -336,6 +336,8 @@ template<typename Recv_t, typename Send_t, typename>
 Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messages) {
     mlog(MPI_DBG, "Maximum number of messages: %zu", messages.size());
 
+    std::lock_guard<std::mutex> lock(mutex);
+
     // return value here is not useful
     const std::size_t sent = parallel_send(messages);
 
-- 
2.43.0


From f3090dc5e95b6aef59751e8248cfea5359f90ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 05/57] fix: cancel the outstanding receive when a MPI range
 server stops

MPI_Request_free left the receive posted: the first message of the next
session was matched by it and written into memory that no longer existed.
---
 src/transport/backend/MPI/RangeServer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..86d5ea2 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -112,6 +112,8 @@ int RangeServer::recv(void **data, std::size_t *len) {
     if ((MPI_Irecv(*data, *len, MPI_CHAR, status.MPI_SOURCE, TRANSPORT_MPI_DATA_REQUEST_TAG, hx->p->bootstrap.comm, &request) != MPI_SUCCESS) ||
         (Flush(request) != TRANSPORT_SUCCESS)) {
         // mlog(MPI_ERR, "MPI_Range Server errored while getting data of size %zu", *len);
+        dealloc(*data);
+        *data = nullptr;
         return TRANSPORT_ERROR;
     }
 
@@ -172,7 +174,10 @@ int RangeServer::Flush(MPI_Request &req) {
     }
 
     // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, hx->p->running.load());
-    MPI_Request_free(&req);
+    // a pending receive must not be left behind: it would
+    // write into len/data when the next message arrives
+    MPI_Cancel(&req);
+    MPI_Wait(&req, MPI_STATUS_IGNORE);
     return TRANSPORT_ERROR;
 }
 
@@ -198,7 +203,10 @@ int RangeServer::Flush(MPI_Request &req, MPI_Status &status) {
     }
 
     // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, hx->p->running.load());
-    MPI_Request_free(&req);
+    // a pending receive must not be left behind: it would
+    // write into len/data when the next message arrives
+    MPI_Cancel(&req);
+    MPI_Wait(&req, MPI_STATUS_IGNORE);
     return TRANSPORT_ERROR;
 }
 
-- 
2.43.0


From ef87a1161c912dd828c72d1cbfee04b801d6913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:04 +0000
Subject: [PATCH 06/57] fix: do not stop a rank while its peers still need its
 range server

Close set running to false before synchronizing with the other ranks, so the
listeners of a rank that closed early stopped answering, and exchanges of the
background PUT thread were abandoned half way. Closing an instance whose
background thread was never started joined a thread that does not exist, and
one without a communicator called MPI_Barrier on MPI_COMM_NULL.
---
 src/hxhim/destroy.cpp |  2 +-
 src/hxhim/hxhim.cpp   | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/destroy.cpp b/src/hxhim/destroy.cpp
index 8ee1e21..0cdb053 100644
--- a/src/hxhim/destroy.cpp
+++ b/src/hxhim/destroy.cpp
@@ -37,7 +37,7 @@ int hxhim::destroy::running(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::destroy::async_puts(hxhim_t *hx) {
-    if (hx->p->async_puts.enabled) {
+    if (hx->p->async_puts.thread.joinable()) {
         wait_for_background_puts(hx, true);
 
         hx->p->async_puts.thread.join();
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index efe31c3..7ee4b2e 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -241,6 +241,16 @@ int hxhim::Close(hxhim_t *hx) {
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Starting to shutdown HXHIM", rank);
 
+    // complete this rank's background exchanges and then wait for all other
+    // ranks to do the same because once running is false, this rank's range
+    // server will not respond any more
+    if (hx->p->async_puts.thread.joinable()) {
+        wait_for_background_puts(hx, true);
+    }
+    if (comm != MPI_COMM_NULL) {
+        MPI_Barrier(comm);
+    }
+
     mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
     destroy::running(hx);
 
@@ -249,7 +259,9 @@ int hxhim::Close(hxhim_t *hx) {
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
 
     // make sure all ranks are ready to stop
-    MPI_Barrier(comm);
+    if (comm != MPI_COMM_NULL) {
+        MPI_Barrier(comm);
+    }
 
     destroy::async_puts(hx); // complete existing processing and prevent new processing
     destroy::hash(hx);       // prevent new work from hashing properly
-- 
2.43.0


From 17ae1eaf2a349b9b23e465079a4aa273ad95e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 07/57] fix: compare the results of packing messages with
 MESSAGE_SUCCESS

TRANSPORT_SUCCESS is a different value, so the MPI transport dropped every
message it packed and every response it unpacked.
---
 include/transport/backend/MPI/EndpointGroup.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 2595c79..90cde41 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -2,6 +2,7 @@
 #include <vector>
 
 #include "hxhim/constants.h"
+#include "message/constants.hpp"
 #include "transport/backend/MPI/constants.h"
 #include "utils/macros.hpp"
 #include "utils/memory.hpp"
@@ -40,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             dsts[pack_count] = message.first;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
@@ -312,7 +313,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From 6db876967f59656c8c024d2cb4a314b6bca7e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 08/57] fix: hold async_puts.mutex while moving background PUT
 results

The background thread appended its results without the lock while FlushPuts
was taking the list apart, so results were lost or freed twice.
---
 src/hxhim/init.cpp      | 2 +-
 src/hxhim/ops/FLUSH.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 66bc1e2..51711e2 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -262,6 +262,7 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -270,7 +271,6 @@ static void async_put_thread(hxhim_t *hx) {
                 hx->p->async_puts.results = results;
             }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             hx->p->async_puts.done_check = true;
         }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..d620b2e 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -42,6 +42,7 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
         hxhim::wait_for_background_puts(hx, false);
 
         // move internal results to res to give to caller
+        std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
         res->Append(hx->p->async_puts.results);
         destruct(hx->p->async_puts.results);
         hx->p->async_puts.results = nullptr;
-- 
2.43.0


From 01c5ff4b48f006064196a8355944bc994f726e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 09/57] fix: return the results of PUTs that were processed
 serially

serial_puts keeps its results in async_puts.results, but FlushPuts only looked
there when background PUTs were enabled.
---
 src/hxhim/ops/FLUSH.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index d620b2e..f445ec3 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -40,13 +40,17 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         // wait for the background thread to finish
         hxhim::wait_for_background_puts(hx, false);
+    }
 
-        // move internal results to res to give to caller
+    {
+        // move internal results (of background or serial PUTs) to res to give to caller
         std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
         res->Append(hx->p->async_puts.results);
         destruct(hx->p->async_puts.results);
         hx->p->async_puts.results = nullptr;
+    }
 
+    if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.mutex.lock();
     }
 
-- 
2.43.0


From 4256114231ff9e54d06557ae729d98dcd7185cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 10/57] fix: lock the PUT queue in BPutSingleType

The background PUT thread was moving the queue away while it was being filled.
---
 src/hxhim/ops/single_type.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..8b9f5bd 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -23,6 +23,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     for(std::size_t i = 0; i < count; i++) {
         hxhim::PutImpl(hx,
                        hx->p->queues.puts.queue,
@@ -34,6 +38,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
+        hx->p->queues.puts.mutex.unlock();
     }
     else {
         hxhim::serial_puts(hx);
-- 
2.43.0


From 4aa95ae8d3ef14f3a57c7638b3d8316bf51491d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 11/57] fix: BGetOpSingleType refused every valid call

The check of ops was inverted.
---
 src/hxhim/ops/single_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8b9f5bd..fb0bb30 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -118,7 +118,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     if (!started(hx) ||
         !subjects    || !subject_lens   ||
         !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !num_records || !ops)            {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 4d8764a52fec536ec64d6b79cf2dd978f061b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 12/57] fix: lock statistics that are updated by two threads

The background PUT thread and the foreground thread both insert into the used
and outgoing maps.
---
 include/hxhim/private/Stats.hpp   | 6 ++++++
 include/hxhim/private/process.hpp | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..37fa403 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -23,6 +24,11 @@ struct Global {
     // max number of entries per message should never change
     std::map<enum hxhim_op_t, std::list<std::size_t> > used;
 
+    // PUTs can be sent by the background thread while
+    // the foreground thread is sending other operations
+    // (protects used and outgoing)
+    std::mutex mutex;
+
     // how long each transport took
     std::map<enum hxhim_op_t, std::list <::Stats::Chronostamp> > transport;
 
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index c5b2599..c012961 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -77,8 +77,11 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                std::lock_guard<std::mutex> stats_lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
-- 
2.43.0


From 0b3716b436e3ff24d89588228fb0d51d1a0e4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 13/57] fix: encode and decode the smallest signed integers

---
 include/utils/elen.tpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 14b977a..bcad90c 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -42,7 +42,9 @@ template <typename T,
           typename Cond>
 std::string integers(const T value, const char neg, const char pos) {
     if (value < 0) {
-        return unique<T, Cond>(-value, neg, neg, pos);
+        // the magnitude of the smallest value does not fit into T
+        using U = typename std::make_unsigned<T>::type;
+        return unique<U>(static_cast<U>(U(0) - static_cast<U>(value)), neg, neg, pos);
     }
     else if (value > 0) {
         return unique<T, Cond>(value, pos, neg, pos);
@@ -275,13 +277,14 @@ T integers(const std::string &str, std::size_t* prefix_len, const char neg, cons
         *prefix_len = position + len;
     }
 
-    // read the final value
-    T out = next<T, std::true_type>(prefix, str, position, len, neg);
+    // read the final value (the magnitude of the smallest value does not fit into T)
+    using U = typename std::make_unsigned<T>::type;
+    U out = next<U, std::true_type>(prefix, str, position, len, neg);
     if (prefix == neg) {
-        out = -out;
+        out = U(0) - out;
     }
 
-    return out;
+    return static_cast<T>(out);
 }
 
 // Chapter 4 Small Decimals
-- 
2.43.0


From d69461d90d86f273425cca0d8f8ff39d9c34b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 14/57] fix: take responses while requests are still being sent

---
 .../transport/backend/MPI/EndpointGroup.hpp   |  15 ++-
 .../transport/backend/MPI/EndpointGroup.tpp   | 118 +++++++++++-------
 2 files changed, 88 insertions(+), 45 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 7d3dac7..95eba4b 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 #include <mpi.h>
 
@@ -49,9 +50,21 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         Message::Response::BHistogram *communicate(const ReqList<Message::Request::BHistogram> &bhm_list);
 
     private:
+        /** @description Sends that have been started but not completed */
+        struct Sending {
+            std::vector<void *> bufs;
+            std::vector<std::size_t> lens;
+            std::vector<MPI_Request *> size_reqs;
+            std::vector<MPI_Request *> data_reqs;
+            std::size_t size_count = 0;
+            std::size_t data_count = 0;
+        };
+
         /** @escription Functions that perform the actual MPI calls */
         template <typename Send_t, typename = enable_if_t<std::is_base_of<Message::Request::Request, Send_t>::value> >
-        std::size_t parallel_send(const ReqList<Send_t> &messages);                         // send to range server
+        std::size_t parallel_send(const ReqList<Send_t> &messages, Sending &sending);       // send to range server
+
+        void finish_send(Sending &sending);                                                 // complete the sends
 
         template <typename Recv_t, typename = enable_if_t<std::is_base_of<Message::Response::Response, Recv_t>::value> >
         std::size_t parallel_recv(const std::size_t nsrcs, int *srcs, Recv_t ***messages);  // receive from range server
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 90cde41..fa8ddc6 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -11,16 +11,20 @@
 
 /**
  * parallel_send
- * This function packs data and sends it in parallel.
+ * This function packs data and starts sending it in parallel.
+ * The sends have to be completed with finish_send: a range server might not
+ * be able to take a request until responses have been taken from it and from
+ * others, so the caller has to be ready to receive before waiting.
  * Each array is filled so that only the first n elements (from the previous operation) are valid.
  * This function does not error. It only sends as much as possible.
  *
  * @param num_srvs the maximum number of messages there are
  * @tparm messages the array of messages to send
+ * @param sending  the sends that were started
  * @return the number of messages successfully sent
  */
 template <typename Send_t, typename>
-std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &messages) {
+std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &messages, Sending &sending) {
     mlog(MPI_DBG, "Attempting to send %zu messages", messages.size());
 
     if (!messages.size()) {
@@ -30,7 +34,10 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
     // pack the data
     // packs might fail - use pack_count to keep track of successful packs
-    std::vector<void *> bufs(messages.size(), nullptr);
+    std::vector<void *> &bufs = sending.bufs;
+    std::vector<std::size_t> &lens = sending.lens;
+    bufs.resize(messages.size(), nullptr);
+    lens.resize(messages.size(), 0);
     std::size_t pack_count = 0;
     for(REF(messages)::value_type const &message : messages) {
         Send_t *msg = message.second;
@@ -54,8 +61,10 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     mlog(MPI_DBG, "Successfully packed %zu messages", pack_count);
 
     // send sizes and data in parallel
-    std::vector<MPI_Request *> size_reqs(pack_count);
-    std::vector<MPI_Request *> data_reqs(pack_count);
+    std::vector<MPI_Request *> &size_reqs = sending.size_reqs;
+    std::vector<MPI_Request *> &data_reqs = sending.data_reqs;
+    size_reqs.resize(pack_count, nullptr);
+    data_reqs.resize(pack_count, nullptr);
     std::size_t size_count = 0;
     std::size_t data_count = 0;
 
@@ -87,23 +96,40 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
             }
             else {
                 mlog(MPI_ERR, "Errored while sending data of size %zu to server %d", lens[i], dst_it->second);
-                dealloc(data_reqs[i]);
+                dealloc(data_reqs[data_count]);
                 data_reqs[data_count] = nullptr;
             }
         }
         else {
             mlog(MPI_ERR, "Errored while sending size %zu to server %d", lens[i], dst_it->second);
-            dealloc(size_reqs[i]);
+            dealloc(size_reqs[size_count]);
             size_reqs[size_count] = nullptr;
         }
     }
     mlog(MPI_DBG, "Done sending messages asynchronously");
 
+    sending.size_count = size_count;
+    sending.data_count = data_count;
+
+    return data_count;
+}
+
+/**
+ * finish_send
+ * Wait for the messages that were started by parallel_send
+ *
+ * @param sending the sends that were started
+ */
+inline void Transport::MPI::EndpointGroup::finish_send(Sending &sending) {
+    std::vector<void *> &bufs = sending.bufs;
+    std::vector<MPI_Request *> &size_reqs = sending.size_reqs;
+    std::vector<MPI_Request *> &data_reqs = sending.data_reqs;
+    const std::size_t size_count = sending.size_count;
+    const std::size_t data_count = sending.data_count;
+
     mlog(MPI_DBG, "Waiting for messages to complete");
 
     //Wait for messages to complete
-    int rank;
-    MPI_Comm_rank(comm, &rank);
     const std::size_t total_msgs = size_count + data_count;
     std::size_t done = 0;
     while (running && (done != total_msgs)) {
@@ -156,13 +182,11 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         }
     }
 
-    for(std::size_t i = 0; i < pack_count; i++) {
+    for(std::size_t i = 0; i < bufs.size(); i++) {
         dealloc(bufs[i]);
     }
 
     mlog(MPI_DBG, "Messages completed: %zu", data_count);
-
-    return data_count;
 }
 
 /**
@@ -216,6 +240,12 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     // Wait for size messages to complete
     mlog(MPI_DBG, "Waiting for size to be received");
 
+    // data messages are received as soon as their sizes are known, without
+    // waiting for the other servers, which might be waiting on this server
+    std::size_t data_req_count = 0;
+    std::vector<MPI_Request *> data_reqs(size_req_count, nullptr);
+    std::vector<void *> recvbufs(size_req_count, nullptr);
+
     std::size_t done = 0;
     while (running && (done != size_req_count)) {
         for(std::size_t i = 0; i < size_req_count; i++) {
@@ -233,6 +263,20 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
                     dealloc(reqs[i]);
                     reqs[i] = nullptr;
                     done++;
+
+                    // Receive a message from the server
+                    data_reqs[i] = construct<MPI_Request>();
+                    recvbufs[i] = alloc(lens[i]);
+                    if (MPI_Irecv(recvbufs[i], lens[i], MPI_CHAR,
+                                  status.MPI_SOURCE, TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, data_reqs[i]) == MPI_SUCCESS) {
+                        data_req_count++;
+                    }
+                    else {
+                        dealloc(data_reqs[i]);
+                        data_reqs[i] = nullptr;
+                        dealloc(recvbufs[i]);
+                        recvbufs[i] = nullptr;
+                    }
                 }
                 else {
                     // mlog(MPI_DBG, "size[%zu] not completed yet %zu", i, sizeof(lens[i]));
@@ -251,27 +295,6 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
 
     mlog(MPI_DBG, "Received %zu sizes", done);
 
-    // reuse reqs to receive data messages from the servers
-    std::size_t data_req_count = 0;
-    std::vector<void *> recvbufs(size_req_count);
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
-        if (src_it != ranks.end()) {
-            // Receive a message from the servers in the list
-            reqs[data_req_count] = construct<MPI_Request>();
-            recvbufs[data_req_count] = alloc(lens[i]);
-            if (MPI_Irecv(recvbufs[data_req_count], lens[i], MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[data_req_count]) == MPI_SUCCESS) {
-                data_req_count++;
-            }
-            else {
-                dealloc(reqs[data_req_count]);
-                reqs[data_req_count] = nullptr;
-                dealloc(recvbufs[data_req_count]);
-            }
-        }
-    }
-
     mlog(MPI_DBG, "Completed receiving %zu sizes", done);
 
     // Wait for messages to complete
@@ -279,22 +302,22 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
 
     done = 0;
     while (running && (done != data_req_count)) {
-        for(std::size_t i = 0; i < data_req_count; i++) {
-            if (!reqs[i]) {
+        for(std::size_t i = 0; i < size_req_count; i++) {
+            if (!data_reqs[i]) {
                 continue;
             }
 
             int flag = 0;
             MPI_Status status;
 
-            MPI_Test(reqs[i], &flag, &status);
+            MPI_Test(data_reqs[i], &flag, &status);
 
             if (!flag) {
                 continue;
             }
 
-            dealloc(reqs[i]);
-            reqs[i] = nullptr;
+            dealloc(data_reqs[i]);
+            data_reqs[i] = nullptr;
             done++;
         }
     }
@@ -302,17 +325,21 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     mlog(MPI_DBG, "Data received");
 
     // Free any remaining requests
-    for(std::size_t i = 0; i < data_req_count; i++) {
-        if (reqs[i]) {
-            MPI_Request_free(reqs[i]);
-            dealloc(reqs[i]);
+    for(std::size_t i = 0; i < size_req_count; i++) {
+        if (data_reqs[i]) {
+            MPI_Request_free(data_reqs[i]);
+            dealloc(data_reqs[i]);
         }
     }
 
     // unpack the data
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
-    for(std::size_t i = 0; i < data_req_count; i++) {
+    for(std::size_t i = 0; i < size_req_count; i++) {
+        if (!recvbufs[i]) {
+            continue;
+        }
+
         if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
@@ -340,7 +367,8 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
     std::lock_guard<std::mutex> lock(mutex);
 
     // return value here is not useful
-    const std::size_t sent = parallel_send(messages);
+    Sending sending;
+    const std::size_t sent = parallel_send(messages, sending);
 
     mlog(MPI_DBG, "Sent to %zu servers:", sent);
     for(std::size_t i = 0; i < sent; i++) {
@@ -354,6 +382,8 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
     const std::size_t recvd = parallel_recv(sent, srvs, &recv_list);
     mlog(MPI_DBG, "Received from %zu servers", recvd);
 
+    finish_send(sending);
+
     // convert the responses into a list
     Recv_t *head = nullptr;
     Recv_t *tail = nullptr;
-- 
2.43.0


From 9a30ae9f18516e51cd1af546a2eea5f1f3977603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 15/57] fix: GETOP EQ must return exactly the named pair

---
 src/datastore/InMemory.cpp | 2 +-
 src/datastore/LevelDB.cpp  | 6 ++++--
 src/datastore/RocksDB.cpp  | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..8c8ee21 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -197,7 +197,7 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
+                it = db.find((std::string) key);
 
                 if (it != db.end()) {
                     // only 1 response, so j == 0 (num_recs is ignored)
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..f7fe63e 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                const ::leveldb::Slice full((char *) key.data(), key.size());
 
-                if (it->Valid()) {
+                it->Seek(full);
+
+                if (it->Valid() && (it->key() == full)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..30ec37f 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                const ::rocksdb::Slice full((char *) key.data(), key.size());
 
-                if (it->Valid()) {
+                it->Seek(full);
+
+                if (it->Valid() && (it->key() == full)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-- 
2.43.0


From 8f331863a9197986895b7c301fe5eb1c6211f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 16/57] fix: GETOP HIGHEST must start at the end of the prefix

---
 include/datastore/datastore.hpp |  3 +++
 src/datastore/InMemory.cpp      | 20 ++++++++------------
 src/datastore/LevelDB.cpp       |  9 +++++----
 src/datastore/RocksDB.cpp       |  9 +++++----
 src/datastore/datastore.cpp     | 23 +++++++++++++++++++++++
 5 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..95b2fd9 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,9 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        static std::string BGetOp_get_end(const Blob &key,
+                                          std::size_t prefix_len);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 8c8ee21..55706fe 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -293,28 +293,24 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len);
 
                 // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                it = end.size()?db.lower_bound(end):db.end();
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                if (it != db.begin()) {
+                    // go back one since the seek value is guaranteed to be past the last value found
                     it--;
-                }
-                else {
-                    it = db.rbegin().base();
-                }
 
-                if (it != db.end()) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
+                        if (it == db.begin()) {
+                            break;
+                        }
                         it--;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index f7fe63e..faa1375 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -336,14 +336,15 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len);
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                if (end.size()) {
+                    it->Seek(::leveldb::Slice(end.data(), end.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (end.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 30ec37f..9ce8c0f 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -336,14 +336,15 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len);
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                if (end.size()) {
+                    it->Seek(::rocksdb::Slice(end.data(), end.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (end.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..b397d7c 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -516,6 +516,29 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+/**
+ * BGetOp_get_end
+ * Gets the first key after all of the keys with the given prefix
+ *
+ * @param key         the key containing the prefix
+ * @param prefix_len  the length of the prefix
+ * @return the smallest string larger than all keys with the prefix; empty if there is none
+ */
+std::string Datastore::Datastore::BGetOp_get_end(const Blob &key,
+                                                 std::size_t prefix_len) {
+    std::string end((char *) key.data(), prefix_len);
+
+    while (end.size() && (end.back() == '\xff')) {
+        end.pop_back();
+    }
+
+    if (end.size()) {
+        end.back()++;
+    }
+
+    return end;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From 35532360cd50e31a9970d4aaeef50ada13ca895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 17/57] fix: a GETOP that finds nothing is an error with one
 result

---
 src/datastore/InMemory.cpp  | 5 +++--
 src/datastore/LevelDB.cpp   | 5 +++--
 src/datastore/RocksDB.cpp   | 5 +++--
 src/datastore/datastore.cpp | 8 +++++---
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 55706fe..ffd64d3 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -330,11 +330,12 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET and something was found, the operation succeeded
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
         else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index faa1375..5c54f81 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -379,11 +379,12 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET and something was found, the operation succeeded
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
         else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 9ce8c0f..9695798 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -379,11 +379,12 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET and something was found, the operation succeeded
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
         else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index b397d7c..49e2b10 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -451,9 +451,11 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // there is always space for one response, because EQ ignores num_recs, and errors are responses
+    const std::size_t max_recs = req->num_recs[i]?req->num_recs[i]:1;
+    res->add(alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
              0,
              DATASTORE_UNSET);
 
-- 
2.43.0


From 9007da8a9e1fda0241799b2921f77e0cae3e8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 18/57] fix: GETOP LAST on an empty map and reading past the
 end of short keys

---
 src/datastore/InMemory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index ffd64d3..7b1f4a6 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -257,9 +257,9 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
                 it = db.end();
-                it--;
 
-                if (it != db.end()) {
+                if (it != db.begin()) {
+                    it--;
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         if (it == db.begin()) {
@@ -282,7 +282,7 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
-- 
2.43.0


From 70783a75d7474d9778dee4b4ce26661a51c975f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 19/57] fix: GETOP must not return histograms as triples

---
 include/datastore/datastore.hpp | 2 +-
 include/datastore/datastore.tpp | 9 ++++++++-
 src/datastore/InMemory.cpp      | 3 ++-
 src/datastore/LevelDB.cpp       | 3 ++-
 src/datastore/RocksDB.cpp       | 3 ++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 95b2fd9..95f0179 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -167,7 +167,7 @@ class Datastore {
                                          Message::Request::BGetOp *req,
                                          Message::Response::BGetOp *res,
                                          const std::size_t i,
-                                         const std::size_t j,
+                                         std::size_t &j,
                                          Datastore::Datastore::Stats::Event &event);
 
         void BGetOp_error_response(Message::Response::BGetOp *res,
diff --git a/include/datastore/datastore.tpp b/include/datastore/datastore.tpp
index e97c85e..4598853 100644
--- a/include/datastore/datastore.tpp
+++ b/include/datastore/datastore.tpp
@@ -13,7 +13,7 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
                                                 Message::Request::BGetOp *req,
                                                 Message::Response::BGetOp *res,
                                                 const std::size_t i,
-                                                const std::size_t j,
+                                                std::size_t &j,
                                                 Datastore::Datastore::Stats::Event &event) {
     if (res->statuses[i] == DATASTORE_UNSET) {
         // extract the encoded subject and predicate from the key
@@ -23,6 +23,13 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
         key_to_sp(ReferenceBlob((void *) key.data(), key.size(), hxhim_data_t::HXHIM_DATA_BYTE),
                   encoded_subject, encoded_predicate, false);
 
+        // histograms are stored next to the triples, but are not triples
+        if ((encoded_subject.data_type() == hxhim_data_t::HXHIM_DATA_BYTE) &&
+            ((std::string) encoded_subject == HISTOGRAM_SUBJECT)) {
+            j--; // does not count as a result
+            return;
+        }
+
         if (encoded_subject.data_type() != req->subjects[i].data_type()) {
             mlog(DATASTORE_WARN, "GETOP Decoded subject data type (%s) does not match provided data type (%s). Using decoded type.",
                  HXHIM_DATA_STR[encoded_subject.data_type()],
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 7b1f4a6..1b493a4 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -201,7 +201,8 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
 
                 if (it != db.end()) {
                     // only 1 response, so j == 0 (num_recs is ignored)
-                    this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
+                    std::size_t j = 0;
+                    this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                 }
                 else {
                     res->statuses[i] = DATASTORE_ERROR;
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 5c54f81..3b7d4cd 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -248,9 +248,10 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
                 if (it->Valid() && (it->key() == full)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
+                    std::size_t j = 0;
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-                                                        req, res, i, 0, event);
+                                                        req, res, i, j, event);
                 }
                 else {
                     res->statuses[i] = DATASTORE_ERROR;
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 9695798..242d57a 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -248,9 +248,10 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
                 if (it->Valid() && (it->key() == full)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
+                    std::size_t j = 0;
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-                                                        req, res, i, 0, event);
+                                                        req, res, i, j, event);
                 }
                 else {
                     res->statuses[i] = DATASTORE_ERROR;
-- 
2.43.0


From 258b8abfc467cbc168e2f0263c17fde355e687dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 20/57] fix: pack empty blobs, so that a GETOP without a
 predicate can be sent

---
 src/utils/Blob.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..83f00fe 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,14 +112,16 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
+    if (len) {
+        memcpy(dst, ptr, len);
+    }
     dst += len;
 
     if (include_type) {
-- 
2.43.0


From a48d2e4800239f3d9e4eba13d4c52d4c23c81fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 21/57] fix: count the whole operation when checking the
 request size limit

---
 src/hxhim/ops/impl.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 41c9911..dcd65c1 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -59,14 +59,15 @@ Request_t *setup_packet(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue, const
  * @param queue      the queue to push into
  * @param subject    the subject to hash
  * @param predicate  the predicate to hash
- * @param insert     the insert timerstamps - only start is filled
+ * @param extra_size the serialized size of the operation without the subject and predicate
  * @return pointer to a packet with space for a new set of data
  */
 template <typename Request_t,
           typename = enable_if_t <is_child_of <Message::Request::Request, Request_t>::value> >
 Request_t *get_packet(hxhim_t *hx,
                       hxhim::Queues<Request_t> &queues,
-                      const Blob &subject, const Blob &predicate) {
+                      const Blob &subject, const Blob &predicate,
+                      const std::size_t extra_size) {
     ::Stats::Chronostamp hash;
     hash.start = ::Stats::now();
 
@@ -85,7 +86,10 @@ Request_t *get_packet(hxhim_t *hx,
     ::Stats::Chronopoint insert_start = ::Stats::now();
 
     // set up the packet this triple should be placed into
-    Request_t *req = setup_packet(hx, queues[rs_id], subject.pack_size(true) + predicate.pack_size(true));
+    Request_t *req = setup_packet(hx, queues[rs_id],
+                                  subject.pack_size(true) +
+                                  predicate.pack_size(true) +
+                                  extra_size);
     req->timestamps.reqs[req->count].hash = hash;
     req->timestamps.reqs[req->count].insert.start = insert_start;
     return req;
@@ -176,8 +180,8 @@ int hxhim::PutImpl(hxhim_t *hx,
 
         // add the triple to the last packet in the queue
         Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
-                                                   sub->pack_size(true) +
-                                                   pred->pack_size(true) +
+                                                   sub->pack_size(true) + sizeof(sub->data()) +
+                                                   pred->pack_size(true) + sizeof(pred->data()) +
                                                    obj->pack_size(true));
         put->add(*sub, *pred, *obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
@@ -214,7 +218,10 @@ int hxhim::GetImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GET Start");
 
     Message::Request::BGet *get = get_packet(hx, gets,
-                                             subject, predicate);
+                                             subject, predicate,
+                                             sizeof(subject.data()) +
+                                             sizeof(predicate.data()) +
+                                             sizeof(object_type));
     if (!get) {
         return HXHIM_ERROR;
     }
@@ -252,7 +259,10 @@ int hxhim::GetOpImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GETOP Start");
 
     Message::Request::BGetOp *getop = get_packet(hx, getops,
-                                                 subject, predicate);
+                                                 subject, predicate,
+                                                 sizeof(object_type) +
+                                                 sizeof(num_records) +
+                                                 sizeof(op));
     if (!getop) {
         return HXHIM_ERROR;
     }
@@ -284,7 +294,9 @@ int hxhim::DeleteImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "DELETE Start");
 
     Message::Request::BDelete *del = get_packet(hx, dels,
-                                                subject, predicate);
+                                                subject, predicate,
+                                                sizeof(subject.data()) +
+                                                sizeof(predicate.data()));
     if (!del) {
         return HXHIM_ERROR;
     }
-- 
2.43.0


From 800c89d5a978eeab93e39f14819b84b0549a98f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:14 +0000
Subject: [PATCH 22/57] fix: histograms of every datastore can be requested

---
 src/hxhim/ops/BHISTOGRAM.cpp | 2 +-
 src/hxhim/ops/HISTOGRAM.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 699f2bd..fb576ba 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -22,7 +22,7 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     for(std::size_t i = 0; i < count; i++) {
         if ((rs_ids[i] < 0) ||
-            (rs_ids[i] >= (int) hx->p->range_server.total_range_servers)) {
+            (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
             return HXHIM_ERROR;
         }
 
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index de1a19b..1d2141c 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -13,7 +13,7 @@ int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
         (rs_id < 0)  ||
-        (rs_id >= (int) hx->p->range_server.total_range_servers)) {
+        (rs_id >= (int) hx->p->range_server.datastores.total)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From c6dd1e9e021c8757800990e3b88626e6f1b304fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 23/57] fix: ChangeHash must open every datastore of the new
 data set once

---
 src/hxhim/hxhim.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 7ee4b2e..b284fb1 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -322,18 +322,33 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
     MPI_Barrier(hx->p->bootstrap.comm);
 
     // change hashes
+    hx->p->hash.name = name;
     hx->p->hash.func = func;
     hx->p->hash.args = args;
 
-    for(std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) {
-        // change datastores
-        std::stringstream s;
-        s << name << "-" << Datastore::get_id(hx->p->bootstrap.rank,
-                                              hx->p->bootstrap.size,
-                                              hx->p->range_server.client_ratio,
-                                              hx->p->range_server.server_ratio,
-                                              i);
-        hx->p->range_server.datastores.ds[i]->Open(s.str());
+    // change datastores
+    decltype(hx->p->range_server.datastores) *rs_ds = &hx->p->range_server.datastores;
+    rs_ds->basename = name;
+
+    for(REF(rs_ds->ds)::value_type &ds : rs_ds->ds) {
+        const std::string new_path = ::Datastore::generate_name(rs_ds->prefix,
+                                                                rs_ds->basename,
+                                                                ds->ID(),
+                                                                rs_ds->postfix);
+
+        ds->Change(new_path,
+                   hx->p->histograms.write,
+                   hx->p->histograms.read?&hx->p->histograms.names:nullptr);
+
+        // create histograms that were not found
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
+
+        for(std::string const &hist_name : hx->p->histograms.names) {
+            if (hists->find(hist_name) == hists->end()) {
+                ds->AddHistogram(hist_name, hx->p->histograms.config);
+            }
+        }
     }
 
     MPI_Barrier(hx->p->bootstrap.comm);
-- 
2.43.0


From 229c7f10fc65c017cd9604778814255abe2d9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 24/57] fix: Open must fail on all ranks if it fails on one,
 and not return HXHIM_SUCCESS

---
 src/hxhim/hxhim.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index b284fb1..d4915cc 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -85,6 +85,22 @@ int hxhimInit(hxhim_t *hx, MPI_Comm comm) {
     return hxhim::Init(hx, comm);
 }
 
+/**
+ * open_succeeded
+ * Open is a collective operation, so it can
+ * only succeed if it succeeded on all ranks
+ * This also makes every rank wait for all others.
+ *
+ * @param hx   the HXHIM session
+ * @param ok   whether or not this rank was able to open
+ * @return whether or not all ranks were able to open
+ */
+static bool open_succeeded(hxhim_t *hx, const bool ok) {
+    const int mine = ok;
+    int all = 0;
+    return (MPI_Allreduce(&mine, &all, 1, MPI_INT, MPI_MIN, hx->p->bootstrap.comm) == MPI_SUCCESS) && all;
+}
+
 /**
  * Open
  * Start a HXHIM session
@@ -146,7 +162,11 @@ int hxhim::Open(hxhim_t *hx) {
     }
 
     mlog(HXHIM_CLIENT_INFO, "Waiting for everyone to complete initialization");
-    MPI_Barrier(hx->p->bootstrap.comm);
+    if (!open_succeeded(hx, true)) {
+        mlog(HXHIM_CLIENT_ERR, "Another rank failed to initialize HXHIM");
+        Close(hx);
+        return HXHIM_ERROR;
+    }
     mlog(HXHIM_CLIENT_INFO, "Successfully initialized HXHIM on rank %d/%d", hx->p->bootstrap.rank, hx->p->bootstrap.size);
     #if PRINT_TIMESTAMPS
     init.end = ::Stats::now();
@@ -155,12 +175,12 @@ int hxhim::Open(hxhim_t *hx) {
     return rc;
 
   error:
+    mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM (%s)", HXHIM_OPEN_ERROR_STR[rc]);
     if (rc != HXHIM_OPEN_ERROR_BOOTSTRAP) {
-        MPI_Barrier(hx->p->bootstrap.comm);
+        open_succeeded(hx, false);
     }
     Close(hx);
-    mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
-    return rc;
+    return HXHIM_ERROR; // HXHIM_OPEN_ERROR values overlap with HXHIM_SUCCESS
 }
 
 /**
-- 
2.43.0


From 87c946ecab6432f7b06ff481fc90bf0bf30b587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:10 +0000
Subject: [PATCH 25/57] fix: OpenOne must not drop its configuration and must
 set up its only datastore

---
 src/hxhim/init.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 51711e2..d3a358f 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,13 +182,11 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
-
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
     hx->p->range_server.server_ratio = 1;
+    hx->p->range_server.datastores.per_server = 1;
+    hx->p->range_server.datastores.total = 1;
 
     // ignore configuration hash - everything goes into here
     hx->p->hash.name = "local";
-- 
2.43.0


From d98f3bead0d433871fac85ea7eed103face38e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 26/57] fix: do not report success for a PUT or DELETE that
 could not be encoded

---
 src/datastore/LevelDB.cpp | 8 ++++++--
 src/datastore/RocksDB.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 3b7d4cd..1865971 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
@@ -424,6 +424,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -433,8 +434,11 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::leveldb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -450,7 +454,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 242d57a..1bc7dbe 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
@@ -424,6 +424,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -433,8 +434,11 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::rocksdb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -450,7 +454,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From db9d69e1151090a1f43f207b55613812cf35372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:29 +0000
Subject: [PATCH 27/57] fix: answer operations on a datastore that is not open

---
 src/datastore/datastore.cpp | 50 ++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 49e2b10..dfdd34b 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -114,9 +114,51 @@ int Datastore::Datastore::ID() const {
     return id;
 }
 
+/**
+ * unusable
+ * Create the responses to requests for a datastore that is not open.
+ * Every operation has to be responded to, even if nothing can be done.
+ *
+ * @param req  the request
+ * @return a response that contains an error for each operation
+ */
+template <typename Response_t, typename Request_t>
+static Response_t *unusable(Request_t *req) {
+    Response_t *res = construct<Response_t>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
+                 ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
+                 DATASTORE_ERROR);
+    }
+    return res;
+}
+
+static Message::Response::BGet *unusable(Message::Request::BGet *req) {
+    Message::Response::BGet *res = construct<Message::Response::BGet>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
+                 ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
+                 Blob(),
+                 DATASTORE_ERROR);
+    }
+    return res;
+}
+
+static Message::Response::BGetOp *unusable(Message::Request::BGetOp *req) {
+    Message::Response::BGetOp *res = construct<Message::Response::BGetOp>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        Blob *subject   = alloc_array<Blob>(1);
+        Blob *predicate = alloc_array<Blob>(1);
+        *subject   = std::move(req->subjects[i]);
+        *predicate = std::move(req->predicates[i]);
+        res->add(subject, predicate, alloc_array<Blob>(1), 1, DATASTORE_ERROR);
+    }
+    return res;
+}
+
 Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    Message::Response::BPut *res = Usable()?BPutImpl(req):nullptr;
+    Message::Response::BPut *res = Usable()?BPutImpl(req):unusable<Message::Response::BPut>(req);
 
     if (hists.size() && res) {
         // if a predicate is HXHIM_DATA_BYTE and the PUT was successful
@@ -158,17 +200,17 @@ Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *r
 
 Message::Response::BGet *Datastore::Datastore::operate(Message::Request::BGet *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetImpl(req):nullptr;
+    return Usable()?BGetImpl(req):unusable(req);
 }
 
 Message::Response::BGetOp *Datastore::Datastore::operate(Message::Request::BGetOp *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetOpImpl(req):nullptr;
+    return Usable()?BGetOpImpl(req):unusable(req);
 }
 
 Message::Response::BDelete *Datastore::Datastore::operate(Message::Request::BDelete *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BDeleteImpl(req):nullptr;
+    return Usable()?BDeleteImpl(req):unusable<Message::Response::BDelete>(req);
 }
 
 Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::BHistogram *req) {
-- 
2.43.0


From f644055153b17b3941f83d37df157cd92939e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 28/57] fix: release the contents of messages handled by the
 MPI range server

---
 src/transport/backend/MPI/RangeServer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 86d5ea2..649260e 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -55,10 +55,16 @@ void RangeServer::listener_thread() {
         Message::Request::Request *request = nullptr;
         Message::Unpacker::unpack(&request, req, len);
         dealloc(req);
+        if (!request) {
+            continue;
+        }
 
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
+        if (!response) {
+            continue;
+        }
 
         // encode result
         void *res = nullptr;
@@ -67,7 +73,7 @@ void RangeServer::listener_thread() {
 
         // send result
         const int ret = send(response->dst, res, len);
-        dealloc(response);
+        destruct(response);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From 3e6be032fcf6b9a0c9401d341037b9900d3984ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 29/57] fix: bulk operations must report elements that could
 not be queued

---
 src/hxhim/ops/BDELETE.cpp     | 14 ++++++----
 src/hxhim/ops/BGET.cpp        | 16 +++++++----
 src/hxhim/ops/BGETOP.cpp      | 18 +++++++-----
 src/hxhim/ops/BPUT.cpp        | 18 +++++++-----
 src/hxhim/ops/single_type.cpp | 52 +++++++++++++++++++++--------------
 5 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/src/hxhim/ops/BDELETE.cpp b/src/hxhim/ops/BDELETE.cpp
index 95f1707..cb03250 100644
--- a/src/hxhim/ops/BDELETE.cpp
+++ b/src/hxhim/ops/BDELETE.cpp
@@ -28,16 +28,20 @@ int hxhim::BDelete(hxhim_t *hx,
     ::Stats::Chronostamp bdel;
     bdel.start = ::Stats::now();
 
+    // operations that can not be queued do not affect the others
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::DeleteImpl(hx,
-                          hx->p->queues.deletes,
-                          ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                          ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]));
+        if (hxhim::DeleteImpl(hx,
+                              hx->p->queues.deletes,
+                              ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                              ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i])) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bdel.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_DELETE].emplace_back(bdel);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGET.cpp b/src/hxhim/ops/BGET.cpp
index 6e991e6..7dd2c8c 100644
--- a/src/hxhim/ops/BGET.cpp
+++ b/src/hxhim/ops/BGET.cpp
@@ -31,17 +31,21 @@ int hxhim::BGet(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    // operations that can not be queued do not affect the others
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_types[i]);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_types[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGETOP.cpp b/src/hxhim/ops/BGETOP.cpp
index 50c3b9e..9bcb600 100644
--- a/src/hxhim/ops/BGETOP.cpp
+++ b/src/hxhim/ops/BGETOP.cpp
@@ -34,18 +34,22 @@ int hxhim::BGetOp(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    // operations that can not be queued do not affect the others
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_types[i],
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_types[i],
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BPUT.cpp b/src/hxhim/ops/BPUT.cpp
index ef3cac2..218ee51 100644
--- a/src/hxhim/ops/BPUT.cpp
+++ b/src/hxhim/ops/BPUT.cpp
@@ -39,13 +39,17 @@ int hxhim::BPut(hxhim_t *hx,
     }
 
     // append these spo triples into the list of unsent PUTs
+    // operations that can not be queued do not affect the others
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_types[i]),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_types[i]),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -55,7 +59,7 @@ int hxhim::BPut(hxhim_t *hx,
 
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index fb0bb30..0ec9eeb 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -27,13 +27,17 @@ int hxhim::BPutSingleType(hxhim_t *hx,
         hx->p->queues.puts.mutex.lock();
     }
 
+    // operations that can not be queued do not affect the others
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_type),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_type),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -47,7 +51,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBPutSingleType(hxhim_t *hx,
@@ -80,19 +84,23 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    // operations that can not be queued do not affect the others
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_type);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_type) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetSingleType(hxhim_t *hx,
@@ -125,20 +133,24 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    // operations that can not be queued do not affect the others
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_type,
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_type,
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetOPSingleType(hxhim_t *hx,
-- 
2.43.0


From 48f9d3aa725e5b3153a3ef0b136ff3b705fbc288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 30/57] fix: queue either all or none of the permutations of a
 PUT

---
 src/hxhim/ops/impl.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index dcd65c1..170064c 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -1,3 +1,5 @@
+#include <vector>
+
 #include "hxhim/private/hxhim.hpp"
 #include "utils/Blob.hpp"
 #include "utils/Stats.hpp"
@@ -116,6 +118,17 @@ int hxhim::PutImpl(hxhim_t *hx,
                    const hxhim_put_permutation_t permutations) {
     mlog(HXHIM_CLIENT_INFO, "Foreground PUT Start (%p, %p, %p)", subject.data(), predicate.data(), object.data());
 
+    struct Permutation {
+        Blob *sub;
+        Blob *pred;
+        Blob *obj;
+        int rs_id;
+        ::Stats::Chronostamp hash;
+    };
+
+    // find the destinations of all permutations before
+    // queuing, so that either all or none are queued
+    std::vector<Permutation> selected;
     for(std::size_t i = 0; i < HXHIM_PUT_PERMUTATIONS_COUNT; i++) {
         if (!(permutations & HXHIM_PUT_PERMUTATIONS[i])) {
             continue;
@@ -173,20 +186,24 @@ int hxhim::PutImpl(hxhim_t *hx,
             return HXHIM_ERROR;
         }
 
+        selected.push_back({sub, pred, obj, rs_id, hash});
+    }
+
+    for(Permutation const &perm : selected) {
         mlog(HXHIM_CLIENT_DBG, "Foreground PUT Insert SPO into queue");
 
         ::Stats::Chronostamp insert;
         insert.start = ::Stats::now();
 
         // add the triple to the last packet in the queue
-        Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
-                                                   sub->pack_size(true) + sizeof(sub->data()) +
-                                                   pred->pack_size(true) + sizeof(pred->data()) +
-                                                   obj->pack_size(true));
-        put->add(*sub, *pred, *obj);
+        Message::Request::BPut *put = setup_packet(hx, puts[perm.rs_id],
+                                                   perm.sub->pack_size(true) + sizeof(perm.sub->data()) +
+                                                   perm.pred->pack_size(true) + sizeof(perm.pred->data()) +
+                                                   perm.obj->pack_size(true));
+        put->add(*perm.sub, *perm.pred, *perm.obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
 
-        put->timestamps.reqs[put->count - 1].hash = hash;
+        put->timestamps.reqs[put->count - 1].hash = perm.hash;
         put->timestamps.reqs[put->count - 1].insert = insert;
         put->timestamps.reqs[put->count - 1].insert.end = ::Stats::now();
     }
-- 
2.43.0


From ada94eca117af1aab4728d8bb9ba74adcb1c6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 31/57] fix: histograms that have been read need their bucket
 generator

---
 include/datastore/datastore.hpp |  1 +
 include/utils/Histogram.hpp     |  3 +++
 src/datastore/datastore.cpp     | 13 +++++++++++++
 src/datastore/datastores.cpp    |  1 +
 src/hxhim/hxhim.cpp             |  2 ++
 src/utils/Histogram.cpp         | 15 ++++++++++++++-
 6 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 95f0179..10da10b 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -74,6 +74,7 @@ class Datastore {
                          const ::Histogram::Config &config);     // overwrites existing histogram
         int AddHistogram(const std::string &name,
                          ::Histogram::Histogram *new_histogram); // overwrites existing histogram
+        void SetHistogramGenerators(const ::Histogram::Config &config);
         int GetHistogram(const std::string &name, Histogram *h) const;
         int GetHistogram(const std::string &name, ::Histogram::Histogram **h) const;
         int GetHistograms(const Histograms **histograms) const;
diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index f778ece..99a4c93 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -29,6 +29,9 @@ class Histogram {
         Histogram(const Config *config, const std::string &name);
         virtual ~Histogram();
 
+        // Set how buckets are generated (not part of the packed data)
+        void set_generator(const Config &config);
+
         // Add a value to the histogram
         int add(const double &value);
 
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index dfdd34b..54e341d 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -303,6 +303,19 @@ int Datastore::Datastore::AddHistogram(const std::string &name, ::Histogram::His
     return DATASTORE_SUCCESS;
 }
 
+/**
+ * SetHistogramGenerators
+ * Set the bucket generator of all existing histograms. Needed
+ * by histograms that have been read from the underlying datastore.
+ *
+ * @param config    the configuration containing the bucket generator
+ */
+void Datastore::Datastore::SetHistogramGenerators(const ::Histogram::Config &config) {
+    for(REF(hists)::value_type &hist : hists) {
+        hist.second->set_generator(config);
+    }
+}
+
 /**
  * GetHistogram
  * Get the pointer to this datatstore's histogram
diff --git a/src/datastore/datastores.cpp b/src/datastore/datastores.cpp
index 126d5a0..0d5d72b 100644
--- a/src/datastore/datastores.cpp
+++ b/src/datastore/datastores.cpp
@@ -119,6 +119,7 @@ Datastore::Init(hxhim_t *hx,
         // find histograms in the datastore and create them
         if (read_histograms) {
             ds->ReadHistograms(hx->p->histograms.names);
+            ds->SetHistogramGenerators(hist_config);
         }
 
         const Datastore::Datastore::Histograms *existing = nullptr;
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index d4915cc..345ab59 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -359,6 +359,7 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
         ds->Change(new_path,
                    hx->p->histograms.write,
                    hx->p->histograms.read?&hx->p->histograms.names:nullptr);
+        ds->SetHistogramGenerators(hx->p->histograms.config);
 
         // create histograms that were not found
         const ::Datastore::Datastore::Histograms *hists = nullptr;
@@ -436,6 +437,7 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
         ds->Change(new_path,
                    write_histograms,
                    read_histograms?&hx->p->histograms.names:nullptr);
+        ds->SetHistogramGenerators(hx->p->histograms.config);
 
         if (create_missing) {
             const ::Datastore::Datastore::Histograms *hists = nullptr;
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..b71de1a 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -188,6 +188,18 @@ Histogram::Histogram::~Histogram() {
     dealloc_array(cache_);
 }
 
+/**
+ * set_generator
+ * The bucket generator cannot be packed, so histograms that have
+ * been unpacked need to be told how to generate their buckets.
+ *
+ * @param config the configuration containing the bucket generator
+ */
+void Histogram::Histogram::set_generator(const Config &config) {
+    gen_ = config.generator;
+    extra_ = config.extra_args;
+}
+
 /**
  * add
  * If there are not enough values (< limit), adds a value
@@ -212,7 +224,8 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            if (!gen_                                                              ||
+                (gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
-- 
2.43.0


From 377fd9f852bdaed357c9e9ba0d71ea08b8112b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:34 +0000
Subject: [PATCH 32/57] fix: histogram results must not share the histogram
 that is still being updated

---
 src/datastore/datastore.cpp | 24 +++++++++++++++++++++++-
 src/utils/Histogram.cpp     |  7 +++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 54e341d..8c38221 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -213,6 +213,28 @@ Message::Response::BDelete *Datastore::Datastore::operate(Message::Request::BDel
     return Usable()?BDeleteImpl(req):unusable<Message::Response::BDelete>(req);
 }
 
+/**
+ * snapshot
+ * Copy a histogram, so that the copy can be used while
+ * values are still being added to the original.
+ *
+ * @param hist  the histogram to copy
+ * @return the copy
+ */
+static std::shared_ptr<::Histogram::Histogram> snapshot(const ::Histogram::Histogram &hist) {
+    std::shared_ptr<::Histogram::Histogram> copy(construct<::Histogram::Histogram>(),
+                                                 ::Histogram::deleter);
+
+    void *buf = nullptr;
+    std::size_t size = 0;
+    if (hist.pack(&buf, &size)) {
+        copy->unpack(buf, size);
+    }
+    dealloc(buf);
+
+    return copy;
+}
+
 Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::BHistogram *req) {
     /**
      * handle histograms right here because it is datastore agnostic
@@ -235,7 +257,7 @@ Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::B
         clock_gettime(CLOCK_MONOTONIC, &end);
 
         if (it != hists.end()) {
-            res->add(it->second, DATASTORE_SUCCESS);
+            res->add(snapshot(*it->second), DATASTORE_SUCCESS);
             event.size += it->second->pack_size();
         }
         else {
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index b71de1a..378b9a4 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -302,7 +302,8 @@ int Histogram::Histogram::get_cache(std::size_t *first_n,
     }
 
     if (size) {
-        *size = std::min(first_n_, count_);
+        // the cache is not packed once the buckets have been generated
+        *size = cache_?std::min(first_n_, count_):0;
     }
 
     return HISTOGRAM_SUCCESS;
@@ -501,8 +502,10 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     memcpy(&first_n_, curr, sizeof(first_n_));
     curr += sizeof(first_n_);
 
+    dealloc_array(cache_);
+    cache_ = nullptr;
+
     if (count_ < first_n_) {
-        dealloc_array(cache_);
         cache_ = alloc_array<double>(first_n_);
 
         for(std::size_t i = 0; i < count_; i++) {
-- 
2.43.0


From 2610e5a497c2c32a12bed1a590619900d32bf0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:42 +0000
Subject: [PATCH 33/57] fix: bucket generators must always produce a usable
 number of buckets

---
 src/utils/Histogram.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 378b9a4..9abf2ee 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -31,11 +31,19 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     return HISTOGRAM_SUCCESS;
 }
 
-static int generate_using_bin_count(const double &min, const double &max, const std::size_t bin_count, double **buckets, size_t *size) {
+// the formulas for the number of bins are not limited to usable values (zero, negative, infinity, NaN)
+static const double MAX_BIN_COUNT = 1 << 16;
+
+static int generate_using_bin_count(const double &min, const double &max, const double raw_bin_count, double **buckets, size_t *size) {
     if (!buckets || !size) {
         return HISTOGRAM_ERROR;
     }
 
+    std::size_t bin_count = 1;
+    if (raw_bin_count >= 1) {
+        bin_count = (raw_bin_count < MAX_BIN_COUNT)?raw_bin_count:MAX_BIN_COUNT;
+    }
+
     double *bins = alloc_array<double>(bin_count + 1);
 
     // generate the left ends of the buckets
@@ -136,7 +144,7 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    return generate_using_bin_count(min, max, (max - min) / h, buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
-- 
2.43.0


From d7d37ebdb85662c6fb6c8d65e4744cb16da49601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:05 +0000
Subject: [PATCH 34/57] fix: histograms without cached values must not read
 past the cache

---
 src/utils/Histogram.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 9abf2ee..e3d9e2a 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -231,10 +231,14 @@ int Histogram::Histogram::add(const double &value) {
     // insert into the buckets if the limit has been hit
     if (count_ >= first_n_) {
         if (!buckets_) {
+            // nothing is cached if first_n == 0
+            const double *first = first_n_?cache_:&value;
+            const std::size_t n = first_n_?first_n_:1;
+
             // generate the buckets and allocate space for the counts
-            if (!gen_                                                              ||
-                (gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
-                (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
+            if (!gen_                                                            ||
+                (gen_(first, n, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+                (gen_counts()                              != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
 
-- 
2.43.0


From 000f761db6c13fa77a4fd57be28d649ff9855f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:05 +0000
Subject: [PATCH 35/57] fix: Sync must fail if the histograms could not be
 written

---
 src/datastore/datastore.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 8c38221..9a058a2 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -445,10 +445,14 @@ int Datastore::Datastore::GetStats(uint64_t *put_time,
 
 int Datastore::Datastore::Sync(const bool write_histograms) {
     std::lock_guard<std::mutex> lock(mutex);
-    if (write_histograms) {
-        WriteHistograms();
+    if (!Usable()) {
+        return DATASTORE_ERROR;
     }
-    return Usable()?SyncImpl():DATASTORE_ERROR;
+
+    // the datastore is only synced if everything was written
+    const int written = write_histograms?WriteHistograms():DATASTORE_SUCCESS;
+    const int synced = SyncImpl();
+    return (written == DATASTORE_SUCCESS)?synced:written;
 }
 
 int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
-- 
2.43.0


From eb3bd654a419eb4fad0c34b13fa0e3ce92882af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:31 +0000
Subject: [PATCH 36/57] fix: transform functions set by the user must replace
 the default ones

---
 src/hxhim/init.cpp    | 4 ++--
 src/hxhim/options.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index d3a358f..9820c52 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -89,10 +89,10 @@ static ::Datastore::Transform::Callbacks *transform(hxhim_t *hx) {
 
     // overwrite existing callbacks with those set in opts
     for(decltype(transform.encode)::value_type const &callback : transform.encode) {
-        callbacks->encode.emplace(callback);
+        callbacks->encode[callback.first] = callback.second;
     }
     for(decltype(transform.decode)::value_type const &callback : transform.decode) {
-        callbacks->decode.emplace(callback);
+        callbacks->decode[callback.first] = callback.second;
     }
 
     return callbacks;
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index f178f62..3daef6f 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -320,8 +320,8 @@ int hxhim_set_transform_function(hxhim_t *hx, const enum hxhim_data_t type,
         return HXHIM_ERROR;
     }
 
-    hx->p->range_server.datastores.transform.encode.emplace(type, std::make_pair(encode, encode_extra));
-    hx->p->range_server.datastores.transform.decode.emplace(type, std::make_pair(decode, decode_extra));
+    hx->p->range_server.datastores.transform.encode[type] = std::make_pair(encode, encode_extra);
+    hx->p->range_server.datastores.transform.decode[type] = std::make_pair(decode, decode_extra);
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From 3eb1e07213b0a2accbd67a9a109bce8dae4583db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:16 +0000
Subject: [PATCH 37/57] fix: transform functions return HXHIM_SUCCESS, as
 documented

---
 include/datastore/transform.tpp | 18 +++++++++---------
 src/datastore/datastore.cpp     |  6 ++++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index e446606..34999a5 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -3,7 +3,7 @@
 
 #include <cstring>
 
-#include "datastore/constants.hpp"
+#include "hxhim/constants.h"
 #include "utils/elen.hpp"
 #include "utils/memory.hpp"
 #include "utils/type_traits.hpp"
@@ -23,7 +23,7 @@ int integers(void *src, const size_t,
              void **dst, size_t *dst_size,
              void *extra) {
     if (!src || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -31,7 +31,7 @@ int integers(void *src, const size_t,
     const std::string encoded = elen::encode::integers(* (T *) src, num_extra->neg, num_extra->pos);
     *dst = copy(encoded);
     *dst_size = encoded.size();
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
@@ -39,7 +39,7 @@ int floating_point(void *src, const size_t,
                    void **dst, size_t *dst_size,
                    void *extra) {
     if (!src || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -49,7 +49,7 @@ int floating_point(void *src, const size_t,
                                                              num_extra->neg, num_extra->pos);
     *dst = copy(encoded);
     *dst_size = encoded.size();
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 }
@@ -61,7 +61,7 @@ int integers(void *src, const size_t src_size,
              void **dst, size_t *dst_size,
              void *extra) {
     if (!src || !dst || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -74,7 +74,7 @@ int integers(void *src, const size_t src_size,
 
     * (T *) *dst = elen::decode::integers<T>(std::string((const char *) src, src_size), nullptr,
                                              num_extra->neg, num_extra->pos);
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
@@ -82,7 +82,7 @@ int floating_point(void *src, const size_t src_size,
                    void **dst, size_t *dst_size,
                    void *extra) {
     if (!src || !dst || !dst_size || !extra) {
-        return DATASTORE_ERROR;
+        return HXHIM_ERROR;
     }
 
     NumericExtra *num_extra = (NumericExtra *) extra;
@@ -95,7 +95,7 @@ int floating_point(void *src, const size_t src_size,
 
     * (T *) *dst = elen::decode::floating_point<T>(std::string((const char *) src, src_size),
                                                    num_extra->neg, num_extra->pos);
-    return DATASTORE_SUCCESS;
+    return HXHIM_SUCCESS;
 }
 
 }
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 9a058a2..d28841d 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -471,7 +471,8 @@ int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return (it->second.first(src.data(), src.size(), dst, dst_size,
+                             it->second.second) == HXHIM_SUCCESS)?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
@@ -490,7 +491,8 @@ int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return (it->second.first(src.data(), src.size(), dst, dst_size,
+                             it->second.second) == HXHIM_SUCCESS)?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 Datastore::Datastore::Stats::Event::Event()
-- 
2.43.0


From 373c35b911165517a7404617c8cf26d2acd7c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 38/57] fix: a record that could only be decoded in part must
 not be leaked

---
 include/datastore/datastore.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/datastore/datastore.tpp b/include/datastore/datastore.tpp
index 4598853..beb327c 100644
--- a/include/datastore/datastore.tpp
+++ b/include/datastore/datastore.tpp
@@ -69,6 +69,11 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
             event.size += key.size() + value.size();
         }
         else {
+            // some parts might have been decoded
+            dealloc(subject);
+            dealloc(predicate);
+            dealloc(object);
+
             res->statuses[i] = DATASTORE_ERROR;
         }
     }
-- 
2.43.0


From 77844bb994384ad2b99c518aa3b7750642b0adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:31 +0000
Subject: [PATCH 39/57] fix: a range read that hits a storage error must not
 report what it found as success

---
 src/datastore/LevelDB.cpp   |  9 +++++++++
 src/datastore/RocksDB.cpp   |  9 +++++++++
 src/datastore/datastore.cpp | 14 ++++++++++----
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 1865971..c391019 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -370,6 +370,15 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
             else {
                 res->statuses[i] = DATASTORE_ERROR;
             }
+
+            // the iterator skips what it cannot read, so nothing it found can be trusted
+            if (!it->status().ok()) {
+                res->statuses[i] = DATASTORE_ERROR;
+
+                // errors might stay with the iterator
+                delete it;
+                it = db->NewIterator(::leveldb::ReadOptions());
+            }
         }
 
         if (subject != req->subjects[i].data()) {
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 1bc7dbe..bef6dd1 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -370,6 +370,15 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
             else {
                 res->statuses[i] = DATASTORE_ERROR;
             }
+
+            // the iterator skips what it cannot read, so nothing it found can be trusted
+            if (!it->status().ok()) {
+                res->statuses[i] = DATASTORE_ERROR;
+
+                // errors might stay with the iterator
+                delete it;
+                it = db->NewIterator(::rocksdb::ReadOptions());
+            }
         }
 
         if (subject != req->subjects[i].data()) {
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index d28841d..fce5a9e 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -628,10 +628,16 @@ void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
                                                  Datastore::Datastore::Stats::Event &event) {
-    std::size_t &index = res->num_recs[i];
-    res->subjects[i][index]   = std::move(subject);
-    res->predicates[i][index] = std::move(predicate);
-    index++;
+    // records found before the error are not part of the response
+    for(std::size_t j = 0; j < res->num_recs[i]; j++) {
+        res->subjects[i][j].dealloc();
+        res->predicates[i][j].dealloc();
+        res->objects[i][j].dealloc();
+    }
+
+    res->subjects[i][0]   = std::move(subject);
+    res->predicates[i][0] = std::move(predicate);
+    res->num_recs[i] = 1;
 
     event.size += subject.pack_size(true) + predicate.pack_size(true);
 }
-- 
2.43.0


From d2ccd66b0217ce3226344ba0b9191a5414c1a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:55 +0000
Subject: [PATCH 40/57] fix: operations that cannot be delivered must have
 results

---
 include/hxhim/private/process.hpp | 64 ++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index c012961..757510e 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -24,6 +24,41 @@ std::size_t remaining(hxhim::Queues<Request_t> &queues) {
     return count;
 }
 
+/**
+ * failed_operation
+ * Fills in the response to operation i of a request that was not answered
+ *
+ * @param req the request that was not answered
+ * @param res the response to fill
+ * @param i   the index of the operation
+ */
+template <typename Request_t, typename Response_t>
+void failed_operation(Request_t *req, Response_t *res, const std::size_t i) {
+    Blob subject   = ReferenceBlob(req->orig.subjects[i],   req->subjects[i].size(),   req->subjects[i].data_type());
+    Blob predicate = ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type());
+    res->add(subject, predicate, DATASTORE_ERROR);
+}
+
+inline void failed_operation(Message::Request::BGet *req, Message::Response::BGet *res, const std::size_t i) {
+    res->add(ReferenceBlob(req->orig.subjects[i],   req->subjects[i].size(),   req->subjects[i].data_type()),
+             ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
+             RealBlob(nullptr, 0, req->object_types[i]),
+             DATASTORE_ERROR);
+}
+
+inline void failed_operation(Message::Request::BGetOp *req, Message::Response::BGetOp *res, const std::size_t i) {
+    Blob *subject   = alloc_array<Blob>(1);
+    Blob *predicate = alloc_array<Blob>(1);
+    Blob *object    = alloc_array<Blob>(1);
+    subject[0]   = std::move(req->subjects[i]);
+    predicate[0] = std::move(req->predicates[i]);
+    res->add(subject, predicate, object, 1, DATASTORE_ERROR);
+}
+
+inline void failed_operation(Message::Request::BHistogram *, Message::Response::BHistogram *res, const std::size_t) {
+    res->add(nullptr, DATASTORE_ERROR);
+}
+
 template <typename Request_t,
           typename Response_t,
           typename = enable_if_t <is_child_of <Message::Request::Request,   Request_t>::value  &&
@@ -102,7 +137,34 @@ hxhim::Results *process(hxhim_t *hx,
             #endif
 
             // send down transport layer
-            Response_t *response = hx->p->transport.transport->communicate(remote);
+            Response_t *response = nullptr;
+            if (hx->p->transport.transport) {
+                response = hx->p->transport.transport->communicate(remote);
+            }
+
+            // every operation has a result, so requests that were not answered
+            // (e.g. the server is not part of the endpoint group) have failed
+            for(REF(remote)::value_type const &dst : remote) {
+                Request_t *req = dst.second;
+
+                bool answered = false;
+                for(Message::Response::Response *res = response; res && !answered; res = res->next) {
+                    answered = (res->src == req->dst);
+                }
+
+                if (!answered) {
+                    Response_t *failed = construct<Response_t>(req->count);
+                    failed->src = req->dst;
+                    failed->dst = req->src;
+                    failed->steal_timestamps(req, false);
+                    for(std::size_t i = 0; i < req->count; i++) {
+                        failed->timestamps.reqs[i] = std::move(req->timestamps.reqs[i]);
+                        failed_operation(req, failed, i);
+                    }
+                    failed->next = response;
+                    response = failed;
+                }
+            }
 
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint remote_end = ::Stats::now();
-- 
2.43.0


From ce23331dbd54fca5e2748ec36b41deeea858dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 41/57] fix: hxhimBGetOpSingleType was defined under another
 name

---
 src/hxhim/ops/single_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 0ec9eeb..34770a7 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -153,7 +153,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     return rc;
 }
 
-int hxhimBGetOPSingleType(hxhim_t *hx,
+int hxhimBGetOpSingleType(hxhim_t *hx,
                           void **subjects, size_t *subject_lens, enum hxhim_data_t *subject_types,
                           void **predicates, size_t *predicate_lens, enum hxhim_data_t *predicate_types,
                           enum hxhim_data_t object_type,
-- 
2.43.0


From df2a48b98b7592e21616a046ea6590ddbecf91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:30 +0000
Subject: [PATCH 42/57] fix: a configured list of endpoints must not be parsed
 forever

---
 src/hxhim/config.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3b5da67..46dc093 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -235,16 +235,22 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             return true;
         }
         else {
+            std::stringstream ids(endpointgroup->second);
             int id;
-            while (std::stringstream(endpointgroup->second) >> id) {
+            while (ids >> id) {
                 if (hxhim_add_endpoint_to_group(hx, id) != HXHIM_SUCCESS) {
                     // should probably write to mlog and continue instead of returning
                     return false;
                 }
             }
+
+            // the entire list should have been read
+            return ids.eof();
         }
     }
-    return false;
+
+    // do not error if not found
+    return true;
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
-- 
2.43.0


From 84f0af3abaf8c20bf160f0e36ba3bb77d355b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:30 +0000
Subject: [PATCH 43/57] fix: configured strings are cut at the first blank

---
 include/utils/Configuration.hpp | 12 ++++++++++++
 src/utils/Configuration.cpp     | 25 +++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/include/utils/Configuration.hpp b/include/utils/Configuration.hpp
index 99e5626..fd86fcd 100644
--- a/include/utils/Configuration.hpp
+++ b/include/utils/Configuration.hpp
@@ -161,6 +161,18 @@ int get_value(const Config &config, const std::string &config_key, T &v) {
  */
 int get_value(const Config &config, const std::string &config_key, bool &b);
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ * The entire value is used, even if it contains whitespace
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param v          the value of the configuration
+ * @return CONFIG_FOUND if the configuration value was good, CONFIG_NOT_FOUND if the configuration key was not found, or CONFIG_ERROR if the configuration value was empty
+ */
+int get_value(const Config &config, const std::string &config_key, std::string &v);
+
 /**
  * get_from_map
  * Helper function for getting values from a map with the value read from the configuration
diff --git a/src/utils/Configuration.cpp b/src/utils/Configuration.cpp
index 57c469a..3d4e3e0 100644
--- a/src/utils/Configuration.cpp
+++ b/src/utils/Configuration.cpp
@@ -163,3 +163,28 @@ int Config::get_value(const Config &config, const std::string &config_key, bool
 
     return NOT_FOUND;
 }
+
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ * The entire value is used, even if it contains whitespace
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param v          the value of the configuration
+ * @return Config::FOUND if the configuration value was good, Config::NOT_FOUND if the configuration key was not found, or Config::ERROR if the configuration value was empty
+ */
+int Config::get_value(const Config &config, const std::string &config_key, std::string &v) {
+    // find the key
+    Config_it in_config = config.find(config_key);
+    if (in_config != config.end()) {
+        if (in_config->second.empty()) {
+            return ERROR;
+        }
+
+        v = in_config->second;
+        return FOUND;
+    }
+
+    return NOT_FOUND;
+}
-- 
2.43.0


From 6907d701dc38a545a3ad61c5d8d72646bfc2cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:30 +0000
Subject: [PATCH 44/57] fix: incomplete configuration files and single
 environment variables are ignored

---
 include/hxhim/config.hpp | 12 +++++++++---
 src/hxhim/config.cpp     | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 72885d2..ff210ed 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -184,14 +184,19 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(DATASTORE_POSTFIX,             ""),
 #if HXHIM_HAVE_LEVELDB
     std::make_pair(DATASTORE_TYPE,                "LEVELDB"),
-    std::make_pair(LEVELDB_CREATE_IF_MISSING,     "true"),
 #elif HXHIM_HAVE_ROCKSDB
     std::make_pair(DATASTORE_TYPE,                "ROCKSDB"),
-    std::make_pair(ROCKSDB_CREATE_IF_MISSING,     "true"),
 #else
     std::make_pair(DATASTORE_TYPE,                "IN_MEMORY"),
+#endif
+#if HXHIM_HAVE_LEVELDB
+    std::make_pair(LEVELDB_CREATE_IF_MISSING,     "true"),
+#endif
+#if HXHIM_HAVE_ROCKSDB
+    std::make_pair(ROCKSDB_CREATE_IF_MISSING,     "true"),
 #endif
     std::make_pair(TRANSPORT,                     "NULL"),
+    std::make_pair(MPI_LISTENERS,                 "1"),
     std::make_pair(HASH,                          "RANK_MOD_DATASTORES"),
     std::make_pair(TRANSPORT_ENDPOINT_GROUP,      "ALL"),
     std::make_pair(START_ASYNC_PUTS_AT,           "0"),
@@ -199,10 +204,11 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(MAXIMUM_SIZE_PER_REQUEST,      "1048576"),
     std::make_pair(HISTOGRAM_FIRST_N,             "10"),
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
+    std::make_pair(HISTOGRAM_TRACK_PREDICATES,    ""),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
     std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::NEG_SYMBOL, 1)),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::POS_SYMBOL, 1)),
+    std::make_pair(ELEN_POS_SYMBOL,               std::string(1, elen::POS_SYMBOL)),
     std::make_pair(ELEN_ENCODE_FLOAT_PRECISION,   std::to_string(elen::encode::FLOAT_PRECISION)),
     std::make_pair(ELEN_ENCODE_DOUBLE_PRECISION,  std::to_string(elen::encode::DOUBLE_PRECISION)),
 };
diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 46dc093..9954766 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -395,6 +395,20 @@ int process_config_and_fill_options(hxhim_t *hx, Config::Sequence &sequence) {
     return fill_options(hx, config);
 }
 
+/**
+ * DefaultConfig
+ * The hard coded default values as a configuration source
+ */
+class DefaultConfig : public Config::Reader {
+    public:
+        bool process(Config::Config &config) const {
+            for(decltype(hxhim::config::DEFAULT_CONFIG)::value_type const &default_config : hxhim::config::DEFAULT_CONFIG) {
+                config[default_config.first] = default_config.second;
+            }
+            return true;
+        }
+};
+
 /**
  * default_reader
  * This function acts as both the default
@@ -422,6 +436,10 @@ int default_reader(hxhim_t *hx, MPI_Comm comm) {
 
     Config::Sequence sequence;
 
+    // sources do not have to be complete, so start with the default values
+    const DefaultConfig defaults;
+    sequence.add(&defaults);
+
     // try to find the default configuration file first
     Config::File file(hxhim::config::CONFIG_FILE);
     sequence.add(&file);
-- 
2.43.0


From eed98361d2e217ffd459fb6da33a73644127076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:08 +0000
Subject: [PATCH 45/57] fix: stored numbers that cannot be decoded end the
 program

---
 include/datastore/transform.tpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index 34999a5..e9281b4 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -2,6 +2,7 @@
 #define TRANSFORM_TPP
 
 #include <cstring>
+#include <exception>
 
 #include "hxhim/constants.h"
 #include "utils/elen.hpp"
@@ -72,8 +73,16 @@ int integers(void *src, const size_t src_size,
 
     *dst = (T *) alloc(sizeof(T));
 
-    * (T *) *dst = elen::decode::integers<T>(std::string((const char *) src, src_size), nullptr,
-                                             num_extra->neg, num_extra->pos);
+    try {
+        * (T *) *dst = elen::decode::integers<T>(std::string((const char *) src, src_size), nullptr,
+                                                 num_extra->neg, num_extra->pos);
+    }
+    catch (const std::exception &) {
+        // not something that was encoded with these settings
+        dealloc(*dst);
+        *dst = nullptr;
+        return HXHIM_ERROR;
+    }
     return HXHIM_SUCCESS;
 }
 
@@ -93,8 +102,16 @@ int floating_point(void *src, const size_t src_size,
 
     *dst = (T *) alloc(sizeof(T));
 
-    * (T *) *dst = elen::decode::floating_point<T>(std::string((const char *) src, src_size),
-                                                   num_extra->neg, num_extra->pos);
+    try {
+        * (T *) *dst = elen::decode::floating_point<T>(std::string((const char *) src, src_size),
+                                                       num_extra->neg, num_extra->pos);
+    }
+    catch (const std::exception &) {
+        // not something that was encoded with these settings
+        dealloc(*dst);
+        *dst = nullptr;
+        return HXHIM_ERROR;
+    }
     return HXHIM_SUCCESS;
 }
 
-- 
2.43.0


From ab50dd4be74151b40a3149cae760b22301b42992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:07 +0000
Subject: [PATCH 46/57] fix: the location of a datastore was computed with the
 wrong function

GetDatastoreLocation passed the ratios to the overload of
RangeServer::get_rank that takes the size of the world first, and left
out the number of datastores per range server.
---
 src/hxhim/accessors.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 9bc275a..d44af82 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -1,4 +1,4 @@
-#include "hxhim/RangeServer.hpp"
+#include "hxhim/Datastore.hpp"
 #include "hxhim/accessors.hpp"
 #include "hxhim/private/accessors.hpp"
 #include "hxhim/private/hxhim.hpp"
@@ -288,10 +288,10 @@ int hxhim::nocheck::GetDatastoreLocation(hxhim_t *hx, const int id, int *rank, i
     }
 
     if (rank) {
-        *rank = RangeServer::get_rank(id,
-                                      hx->p->range_server.client_ratio,
-                                      hx->p->range_server.server_ratio,
-                                      hx->p->range_server.datastores.per_server);
+        *rank = Datastore::get_rank(id,
+                                    hx->p->range_server.client_ratio,
+                                    hx->p->range_server.server_ratio,
+                                    hx->p->range_server.datastores.per_server);
         if (*rank < 0) {
             return HXHIM_ERROR;
         }
-- 
2.43.0


From d7c2516797a0a3f30e3bf04772ca05cf2ee62670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:07 +0000
Subject: [PATCH 47/57] fix: calls on an instance that is not open must not
 crash

The Flush functions, Open, OpenOne and hxhim_set_transport_mpi used the
instance without checking it, while all other functions return an error.
---
 src/hxhim/hxhim.cpp     |  4 ++--
 src/hxhim/ops/FLUSH.cpp | 24 ++++++++++++++++++++++++
 src/hxhim/options.cpp   |  4 ++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 345ab59..f15c0c9 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -111,7 +111,7 @@ static bool open_succeeded(hxhim_t *hx, const bool ok) {
  */
 int hxhim::Open(hxhim_t *hx) {
     /** don't restart already running instances */
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
@@ -204,7 +204,7 @@ int hxhimOpen(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index f445ec3..cb67f6e 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -31,6 +31,10 @@ hxhim::Results *FlushImpl(hxhim_t *hx,
  * @return results from sending the PUTs
  */
 hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     const int rank = hx->p->bootstrap.rank;
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Flushing PUTs", rank);
@@ -91,6 +95,10 @@ hxhim_results_t *hxhimFlushPuts(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGets(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -121,6 +129,10 @@ hxhim_results_t *hxhimFlushGets(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGetOps(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -151,6 +163,10 @@ hxhim_results_t *hxhimFlushGetOps(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushDeletes(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -181,6 +197,10 @@ hxhim_results_t *hxhimFlushDeletes(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushHistograms(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -214,6 +234,10 @@ hxhim_results_t *hxhimFlushHistograms(hxhim_t *hx) {
  * @return A list of results
  */
 hxhim::Results *hxhim::Flush(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index 3daef6f..62f3f1e 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -373,6 +373,10 @@ int hxhim_set_transport_null(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_transport_mpi(hxhim_t *hx, const size_t listeners) {
+    if (!hx || !hx->p || hx->p->running) {
+        return HXHIM_ERROR;
+    }
+
     Transport::Options *config = construct<Transport::MPI::Options>(hx->p->bootstrap.comm, listeners);
     if (hxhim_set_transport(hx, config) != HXHIM_SUCCESS) {
         destruct(config);
-- 
2.43.0


From d17e174d7ce0db95499906e068bf2b1ff83f6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:32 +0000
Subject: [PATCH 48/57] fix: C result lists must not need an open instance

hxhim_results_init and hxhim_results_destroy used the instance only to
print its rank, and crashed when it was not open (any more).
---
 src/hxhim/Results.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..f920506 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -760,7 +760,7 @@ int hxhim::Results::Timestamps(struct hxhim::Result::Timestamps **timestamps) co
  * @return the pointer to the C structure containing the hxhim::Results
  */
 hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
-    const int rank = hx->p->bootstrap.rank;
+    const int rank = (hx && hx->p)?hx->p->bootstrap.rank:-1;
 
     mlog(HXHIM_CLIENT_DBG, "Rank %d Creating hxhim_results_t using %p", rank, res);
     hxhim_results_t *ret = construct<hxhim_results_t>();
@@ -778,7 +778,7 @@ hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
  */
 void hxhim_results_destroy(hxhim_results_t *res) {
     if (res) {
-        const int rank = res->hx->p->bootstrap.rank;
+        const int rank = (res->hx && res->hx->p)?res->hx->p->bootstrap.rank:-1;
 
         mlog(HXHIM_CLIENT_DBG, "Rank %d Destroying hxhim_results_t %p", rank, res);
         hxhim::Results::Destroy(res->res);
-- 
2.43.0


From 7c46e04920f9a7500591f79d2ff62a56577b7b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:13 +0000
Subject: [PATCH 49/57] fix: hxhim_set_mpi_bootstrap keeps the earlier
 communicator when it is given none

---
 src/hxhim/options.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index 62f3f1e..ec1860e 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -18,11 +18,14 @@
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_mpi_bootstrap(hxhim_t *hx, MPI_Comm comm) {
-    if (!hx || !hx->p || hx->p->running) {
+    if (!hx || !hx->p || hx->p->running ||
+        (comm == MPI_COMM_NULL)) {
         return HXHIM_ERROR;
     }
 
-    return ((hx->p->bootstrap.comm = comm) == MPI_COMM_NULL)?HXHIM_ERROR:HXHIM_SUCCESS;
+    hx->p->bootstrap.comm = comm;
+
+    return HXHIM_SUCCESS;
 }
 
 /**
-- 
2.43.0


From 88e77eb306cec295bcd68c55000d9b4839f45822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 50/57] fix: floating point numbers with an exponent of -9 or 9
 are decoded with their exponent

---
 include/utils/elen.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index bcad90c..f2e9a55 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -411,8 +411,8 @@ T floating_point(const std::string &str, const char neg, const char pos) {
     const std::size_t prefix_count = get_prefix_count(prefix, wo_sign, neg, pos);
     std::size_t position = prefix_count;
 
-    // only decode exponent portion if the exponent is not 0
-    if (wo_sign[position] != '0') {
+    // only decode exponent portion if the exponent is not 0 (a flipped 9 is a '0' too, but comes after a prefix)
+    if (prefix_count) {
         // read the encoded lengths
         position = prefix_count;
         std::size_t len = 1;
-- 
2.43.0


From 3883c15d6fc364560288ecc2d7947c6954a17181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 51/57] fix: infinities and numbers at the ends of the floating
 point ranges survive their encoding

---
 include/utils/elen.tpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index f2e9a55..7547b1d 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -145,7 +145,13 @@ template <typename R, typename Z, typename = enable_if_t<std::is_arithmetic<R>::
                                                          std::is_integral<Z>::value> >
 R frexp10(const R arg, Z *exp) {
     *exp = (arg == 0) ? 0 : (Z)(1 + std::round(std::log10(std::fabs(arg))));
-    return arg * pow(10 , -(*exp));
+
+    const double scale = pow(10 , -(*exp));
+    if (std::isinf(scale)) {
+        // subnormal values need a factor that is larger than any double
+        return arg * 1e300 * pow(10, -(*exp) - 300);
+    }
+    return arg * scale;
 }
 
 // Chapter 6 Floating Pointer Numbers
@@ -157,7 +163,15 @@ std::string floating_point(const T value, const int precision, const char neg, c
     }
 
     int exp = 0;
-    T mantissa = frexp10(value, &exp);
+    T mantissa = 0;
+    if (std::isinf(value)) {
+        // no finite value has this exponent, and it comes after all of theirs
+        exp = std::numeric_limits<int>::max();
+        mantissa = std::copysign(T(0.1), value);
+    }
+    else {
+        mantissa = frexp10(value, &exp);
+    }
 
     std::string out;
     if (value < 0) {
@@ -437,7 +451,22 @@ T floating_point(const std::string &str, const char neg, const char pos) {
         mantissa = small_decimals<T, std::true_type>(sign + wo_sign.substr(position, wo_sign.size() - position), neg, pos);
     }
 
-    return std::pow(10, ((sign == neg)?-1:1) * exp) * mantissa;
+    if (sign == neg) {
+        exp = -exp;
+    }
+
+    if (exp == std::numeric_limits<int>::max()) {
+        return std::copysign(std::numeric_limits<T>::infinity(), mantissa);
+    }
+
+    // the power of 10 can be outside of the range even if the value is not,
+    // and the rounded digits can describe a value that is just above the range
+    const long double out = std::pow(10.0L, exp) * mantissa;
+    if (std::fabs(out) > std::numeric_limits<T>::max()) {
+        return std::copysign(std::numeric_limits<T>::max(), mantissa);
+    }
+
+    return out;
 }
 
 }
-- 
2.43.0


From c884293aac9acaa4bde85a3e11137e4201ad3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 52/57] fix: NaN is refused instead of being stored in a form
 that cannot be decoded

---
 include/datastore/transform.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index e9281b4..2e89fd4 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -1,6 +1,7 @@
 #ifndef TRANSFORM_TPP
 #define TRANSFORM_TPP
 
+#include <cmath>
 #include <cstring>
 #include <exception>
 
@@ -43,6 +44,11 @@ int floating_point(void *src, const size_t,
         return HXHIM_ERROR;
     }
 
+    // cannot be ordered or decoded
+    if (std::isnan(* (T *) src)) {
+        return HXHIM_ERROR;
+    }
+
     NumericExtra *num_extra = (NumericExtra *) extra;
 
     const std::string encoded = elen::encode::floating_point(* (T *) src,
-- 
2.43.0


From 91b651463c475f3880f22c4fdc0e7aae32664e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 53/57] fix: results of local operations carry the times at
 which they were hashed and queued

---
 include/transport/backend/local/RangeServer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/local/RangeServer.hpp b/include/transport/backend/local/RangeServer.hpp
index daf465a..4bf24b2 100644
--- a/include/transport/backend/local/RangeServer.hpp
+++ b/include/transport/backend/local/RangeServer.hpp
@@ -56,8 +56,8 @@ Response_t *range_server(hxhim_t *hx, Request_t *req) {
     // if there were responses, copy them into the output variable
     if (response) {
         for(std::size_t i = 0; i < response->count; i++) {
-            // move timestamps over to response (responses should correspond to requests)
-            response->timestamps.reqs[i] = std::move(req->timestamps.reqs[i]);
+            // move timestamps over to the main response (responses should correspond to requests)
+            res->timestamps.reqs[res->count] = std::move(req->timestamps.reqs[i]);
 
             // move the datastore response to the main response
             res->steal(response, i);
-- 
2.43.0


From 440d0c37073a8e6e50f382aee837c12f83cbc572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 54/57] fix: results of remote operations carry timestamps

---
 .../transport/backend/MPI/EndpointGroup.tpp   | 57 ++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index fa8ddc6..4dfc7eb 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -4,6 +4,7 @@
 #include "hxhim/constants.h"
 #include "message/constants.hpp"
 #include "transport/backend/MPI/constants.h"
+#include "utils/Stats.hpp"
 #include "utils/macros.hpp"
 #include "utils/memory.hpp"
 #include "utils/mlog2.h"
@@ -38,6 +39,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     std::vector<std::size_t> &lens = sending.lens;
     bufs.resize(messages.size(), nullptr);
     lens.resize(messages.size(), 0);
+    std::vector<Send_t *> packed(messages.size(), nullptr);
     std::size_t pack_count = 0;
     for(REF(messages)::value_type const &message : messages) {
         Send_t *msg = message.second;
@@ -48,8 +50,14 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
+        msg->timestamps.transport.start = ::Stats::now();
+        msg->timestamps.transport.pack.start = msg->timestamps.transport.start;
+        const int rc = Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]);
+        msg->timestamps.transport.pack.end = ::Stats::now();
+
+        if (rc == MESSAGE_SUCCESS) {
             dsts[pack_count] = message.first;
+            packed[pack_count] = msg;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
@@ -77,6 +85,8 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
             continue;
         }
 
+        packed[i]->timestamps.transport.send_start = ::Stats::now();
+
         // send size
         size_reqs[size_count] = construct<MPI_Request>();
 
@@ -245,6 +255,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t data_req_count = 0;
     std::vector<MPI_Request *> data_reqs(size_req_count, nullptr);
     std::vector<void *> recvbufs(size_req_count, nullptr);
+    std::vector<::Stats::Chronopoint> recv_ends(size_req_count);
 
     std::size_t done = 0;
     while (running && (done != size_req_count)) {
@@ -316,6 +327,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
                 continue;
             }
 
+            recv_ends[i] = ::Stats::now();
             dealloc(data_reqs[i]);
             data_reqs[i] = nullptr;
             done++;
@@ -340,7 +352,12 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
             continue;
         }
 
+        ::Stats::Chronostamp unpack;
+        unpack.start = ::Stats::now();
         if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
+            unpack.end = ::Stats::now();
+            (*messages)[valid]->timestamps.transport.recv_end = recv_ends[i];
+            (*messages)[valid]->timestamps.transport.unpack = unpack;
             valid++;
         }
 
@@ -351,6 +368,42 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     return valid;
 }
 
+/**
+ * return_timestamps
+ * Complete the timestamps of a response with those of the request it
+ * answers. Timestamps are not sent to the range server.
+ *
+ * @param messages  the requests that were sent
+ * @param res       a response
+ */
+template<typename Recv_t, typename Send_t>
+void return_timestamps(const Transport::ReqList<Send_t> &messages, Recv_t *res) {
+    for(REF(messages)::value_type const &message : messages) {
+        Send_t *req = message.second;
+        if (!req || (req->dst != res->src)) {
+            continue;
+        }
+
+        const ::Stats::Chronopoint recv_end = res->timestamps.transport.recv_end;
+        const ::Stats::Chronostamp unpack = res->timestamps.transport.unpack;
+
+        res->steal_timestamps(req, false);
+        for(std::size_t i = 0; (i < req->count) && (i < res->count); i++) {
+            res->timestamps.reqs[i] = req->timestamps.reqs[i];
+        }
+
+        res->timestamps.transport.recv_end = recv_end;
+        res->timestamps.transport.unpack = unpack;
+
+        // no clean up rpc
+        res->timestamps.transport.cleanup_rpc.start = ::Stats::now();
+        res->timestamps.transport.cleanup_rpc.end = res->timestamps.transport.cleanup_rpc.start;
+
+        res->timestamps.transport.end = ::Stats::now();
+        break;
+    }
+}
+
 /**
  * return_msgs
  * Send Transport::B* messages and waits for their responses.
@@ -391,6 +444,8 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
         Recv_t *brm = dynamic_cast<Recv_t *>(recv_list[i]);
         if (brm) {
             mlog(MPI_DBG, "    Server %d", brm->src);
+            return_timestamps(messages, brm);
+
             //Build the linked list to return
             if (!head) {
                 head = brm;
-- 
2.43.0


From e6d6b9af62fd7e2323caf7128403fa8cbc07ae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 55/57] fix: a single GETOP is counted as a single operation

---
 src/hxhim/ops/GETOP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/ops/GETOP.cpp b/src/hxhim/ops/GETOP.cpp
index 9a695ae..c4cb4e3 100644
--- a/src/hxhim/ops/GETOP.cpp
+++ b/src/hxhim/ops/GETOP.cpp
@@ -27,16 +27,16 @@ int hxhim::GetOp(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
-    ::Stats::Chronostamp bgetop;
-    bgetop.start = ::Stats::now();
+    ::Stats::Chronostamp getop;
+    getop.start = ::Stats::now();
     const int rc = hxhim::GetOpImpl(hx,
                                     hx->p->queues.getops,
                                     ReferenceBlob(subject, subject_len, subject_type),
                                     ReferenceBlob(predicate, predicate_len, predicate_type),
                                     object_type,
                                     num_records, op);
-    bgetop.end = ::Stats::now();
-    hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
+    getop.end = ::Stats::now();
+    hx->p->stats.single_op[hxhim_op_t::HXHIM_GETOP].emplace_back(getop);
     return rc;
 }
 
-- 
2.43.0


From b6800d7af858382669969da4272b6456686b0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:57 +0000
Subject: [PATCH 56/57] fix: bytes returned by GETs are counted

---
 src/datastore/InMemory.cpp | 2 +-
 src/datastore/LevelDB.cpp  | 2 +-
 src/datastore/RocksDB.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 1b493a4..6069b80 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -142,7 +142,7 @@ Message::Response::BGet *Datastore::InMemory::BGetImpl(Message::Request::BGet *r
                     // decode the object
                     if (decode(callbacks, ReferenceBlob((void *) it->second.data(), value_len, object_type),
                                &object, &object_len) == DATASTORE_SUCCESS) {
-                        event.size += res->objects[i].size();
+                        event.size += object_len;
                         status = DATASTORE_SUCCESS;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index c391019..443439f 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -188,7 +188,7 @@ Message::Response::BGet *Datastore::LevelDB::BGetImpl(Message::Request::BGet *re
                 // decode the object
                 if (decode(callbacks, Blob((void *) value.data(), value_len, object_type),
                            &object, &object_len) == DATASTORE_SUCCESS) {
-                    event.size += res->objects[i].size();
+                    event.size += object_len;
                     status = DATASTORE_SUCCESS;
                     mlog(LEVELDB_INFO, "Rank %d LevelDB GET decode success", rank);
                 }
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bef6dd1..a31b332 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -188,7 +188,7 @@ Message::Response::BGet *Datastore::RocksDB::BGetImpl(Message::Request::BGet *re
                 // decode the object
                 if (decode(callbacks, Blob((void *) value.data(), value_len, object_type),
                            &object, &object_len) == DATASTORE_SUCCESS) {
-                    event.size += res->objects[i].size();
+                    event.size += object_len;
                     status = DATASTORE_SUCCESS;
                     mlog(ROCKSDB_INFO, "Rank %d RocksDB GET decode success", rank);
                 }
-- 
2.43.0


From a8ab6c616a7487532d1f2bb73da737fa9fac2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:57 +0000
Subject: [PATCH 57/57] fix: GetPrintBufferContents leaves the stream usable

---
 src/hxhim/accessors.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index d44af82..fbf57b8 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -350,7 +350,8 @@ int hxhim::GetPrintBufferContents(hxhim_t *hx, std::ostream &stream) {
         return HXHIM_ERROR;
     }
 
-    stream << hx->p->print_buffer.rdbuf();
+    // inserting an empty buffer would put the stream into a failed state
+    stream << hx->p->print_buffer.str();
     hx->p->print_buffer.str(std::string());
     hx->p->print_buffer.clear();
     return HXHIM_SUCCESS;
-- 
2.43.0

