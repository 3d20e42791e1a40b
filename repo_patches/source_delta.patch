From 60b931842b7c539c54651c64f82fa26666951d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 01/43] fix: a failed counter read no longer resets the counter

---
 lib/utils/rocksdb_wrapper.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..eea75d7 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -111,8 +111,15 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = 0;
+    } else {
+        /* LCOV_EXCL_START */
+        logger::logger()->error("Unable to read the counter for key="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
+        /* LCOV_EXCL_STOP */
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
@@ -143,8 +150,15 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = default_value;
+    } else {
+        /* LCOV_EXCL_START */
+        logger::logger()->error("Unable to read the counter for key="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
+        /* LCOV_EXCL_STOP */
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
-- 
2.43.0


From c307679c8d61bfdfe91a2275a11cbe900748421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 02/43] fix: awonvm_vector reads refuse the one-past-the-end
 index

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..160c7d6 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -333,7 +333,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -375,7 +375,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -438,7 +438,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     submissions.reserve(requests.size());
 
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
-- 
2.43.0


From 7b6831a763cbff71bf2d392af044d74633c466e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 03/43] fix: moving an awonvm_vector keeps its state and leaves
 no foreign descriptor to close

---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 160c7d6..1933d7a 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -173,9 +173,14 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_io_scheduler(std::move(vec.m_io_scheduler))
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_io_scheduler(std::move(vec.m_io_scheduler)),
+      m_io_warn_flag(vec.m_io_warn_flag)
 {
-    vec.m_fd = 0;
+    // the moved-from object does not own a file anymore
+    vec.m_fd = -1;
+    vec.m_size.store(0);
+    vec.m_is_committed.store(true);
 }
 
 template<typename T, size_t ALIGNMENT>
@@ -188,7 +193,9 @@ awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
             m_io_scheduler->wait_completions();
         }
     }
-    close(m_fd);
+    if (m_fd >= 0) {
+        close(m_fd);
+    }
 }
 
 template<typename T, size_t ALIGNMENT>
-- 
2.43.0


From ff4f7841b0d03265c35b7760fadce5c06c0f9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 04/43] fix: push_back writes an element at the position it
 returns

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 1933d7a..a9a0cbb 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -227,11 +227,9 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    int res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
-- 
2.43.0


From 60482fe5b1f23b285d7ff05003aef37efd9ea47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 05/43] fix: async_push_back refuses a committed vector and
 frees a refused buffer

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index a9a0cbb..2c7f194 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -251,6 +251,11 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
         throw std::runtime_error("No IO Scheduler set");
     }
 
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_use_direct_io && !m_io_warn_flag) {
         std::cerr << "awonvm_vector uses buffered IOs. Calls for async IOs "
                      "will be synchronous.\n";
@@ -284,6 +289,8 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     ret = m_io_scheduler->submit_pwrite(m_fd, buf, sizeof(T), off, buf, cb);
 
     if (ret != 1) {
+        free(buf);
+
         // we should have a specific exception type here to be able to return
         // which position was corrupted
         throw std::runtime_error("Error when submitting the read async IO: "
-- 
2.43.0


From fbff3f11dbda1b6352a2799e02ad06d3a63b3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 06/43] fix: async_gets does not leak read buffers

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 2c7f194..ac54ccf 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -449,19 +449,26 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     std::vector<Scheduler::PReadSumission> submissions;
     submissions.reserve(requests.size());
 
+    // check all the indexes before allocating anything
     for (const auto& req : requests) {
         if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
         }
+    }
 
+    for (const auto& req : requests) {
 
         void* buffer;
         int   ret = posix_memalign(
             (&buffer), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
 
         if (ret != 0 || buffer == nullptr) {
+            for (auto& sub : submissions) {
+                free(sub.buf);
+            }
+
             throw std::runtime_error(
                 "Error when allocating aligned memory: errno "
                 + std::to_string(ret) + "(" + strerror(ret) + ")");
@@ -473,6 +480,8 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
 
             if (res == sizeof(T)) {
                 result.reset(reinterpret_cast<T*>(buf));
+            } else {
+                free(buf); // avoid memory leaks
             }
 
             get_callback(std::move(result));
-- 
2.43.0


From 94c44d035c6f56f28c5a1904b6acdbf456f78694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 07/43] fix: commit() makes asynchronously written elements
 durable

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index ac54ccf..f2ed9ab 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -312,9 +312,8 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
                 new_sched); // this will block until the completion of write
                             // queries and then create a new scheduler for
                             // future async read queries
-        } else {
-            fsync(m_fd);
         }
+        fsync(m_fd);
     }
     m_is_committed = true;
 }
-- 
2.43.0


From a10bf5fdb17c1cf6735b9eec0cb04d5236b69114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 08/43] fix: set_use_direct_access works without an IO
 scheduler

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index f2ed9ab..50b1913 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -323,7 +323,9 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
         // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
+        if (m_io_scheduler) {
+            m_io_scheduler->wait_completions();
+        }
 
         // close the current file descriptor
         close(m_fd);
@@ -333,8 +335,10 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 
 
         // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        if (m_io_scheduler) {
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(new_sched);
+        }
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From a6f7819fb26e3f0e71ae4ef8ada5a2bc3828bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 09/43] fix: io_getevents errors are not added to the completed
 queries count

A negative result (e.g. -EINTR) was added to the number of completed
queries. When it underflows, the notification loop ends before all the
submitted queries completed.
---
 lib/abstractio/linux_aio_scheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..4a40a62 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -84,7 +84,9 @@ void LinuxAIOScheduler::notify_loop()
             req->notify(event.res);
             delete req;
         }
-        m_completed_queries_count += num_events;
+        if (num_events > 0) {
+            m_completed_queries_count += num_events;
+        }
     }
 
     delete[] events;
-- 
2.43.0


From d0f428d8e60f2a02cea0a1d504c46c3999c77cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 10/43] fix: failed AIO submissions are released and partial
 ones reported

When io_submit fails, the requests of the queries that were not accepted
leaked, and the caller was told that none of the queries was accepted
even if the first ones were (and thus will be called back).
---
 lib/abstractio/linux_aio_scheduler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 4a40a62..2d8f8bb 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -154,10 +154,20 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
                 m_cv_submission.wait(lock);
             }
         } else {
+            // these queries will never complete: their callback will not be
+            // called
+            for (size_t i = 0; i < remaining_subs; i++) {
+                delete static_cast<LinuxAIORequest*>(iocbs_head[i]->data);
+            }
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
             perror("io_submit");
-            return -1;
+
+            if (remaining_subs == n_iocbs) {
+                return -1;
+            }
+            // the first queries were accepted
+            return n_iocbs - remaining_subs;
         }
     }
 
-- 
2.43.0


From ef8e57911fe921a8aa19cd740717f225b0b0a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 11/43] fix: AIO submission does not miss the wake-up of a full
 queue

The completion of all the pending queries between io_submit returning
EAGAIN and the wait on the condition variable made the submission wait
forever.
---
 lib/abstractio/linux_aio_scheduler.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 2d8f8bb..e438275 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -6,6 +6,7 @@
 #include "utils/utils.hpp"
 
 #include <cassert>
+#include <chrono>
 #include <climits>
 #include <libaio.h>
 
@@ -149,10 +150,12 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             // wait until the submission queue has some space
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
+            // the queue might have been emptied since io_submit returned: in
+            // this case, no notification will come, and we have to retry
             m_waiting_submissions = true;
-            while (m_waiting_submissions) {
-                m_cv_submission.wait(lock);
-            }
+            m_cv_submission.wait_for(lock,
+                                     std::chrono::milliseconds(10),
+                                     [this] { return !m_waiting_submissions; });
         } else {
             // these queries will never complete: their callback will not be
             // called
-- 
2.43.0


From 2945bf8cb94f63bf533b321fc646d23110236693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 12/43] fix: a partially accepted batch of reads does not free
 buffers in use

submit_preads silently skipped invalid or refused reads, and async_gets
then freed all the buffers, including the ones of the accepted reads.
The accepted reads are now always the first ones of the batch, and only
the buffers of the others are freed.
---
 lib/abstractio/linux_aio_scheduler.cpp             | 14 +++++++++-----
 .../sse/schemes/abstractio/awonvm_vector.hpp       |  5 +++--
 lib/include/sse/schemes/abstractio/scheduler.hpp   |  6 ++++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index e438275..97e22eb 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -219,6 +219,15 @@ int LinuxAIOScheduler::submit_preads(const std::vector<PReadSumission>& subs)
                                       // code conventions
     }
 
+    // check that the arguments are well-formed before submitting anything
+    for (const auto& sub : subs) {
+        int ret = check_args(sub.buf, sub.len, sub.offset);
+
+        if (ret != 0) {
+            return ret;
+        }
+    }
+
     struct iocb** iocbs
         = static_cast<struct iocb**>(calloc(subs.size(), sizeof(struct iocb*)));
     size_t iocbs_count = 0;
@@ -230,11 +239,6 @@ int LinuxAIOScheduler::submit_preads(const std::vector<PReadSumission>& subs)
 
     // fill in all the iocbs needed
     for (const auto& sub : subs) {
-        // check that the arguments are well-formed
-        if (check_args(sub.buf, sub.len, sub.offset) != 0) {
-            continue;
-        }
-
         uint64_t         query_id = m_submitted_queries_count.fetch_add(1);
         LinuxAIORequest* req
             = new LinuxAIORequest(query_id, sub.data, sub.callback);
diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 50b1913..8700369 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -497,8 +497,9 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     int ret = m_io_scheduler->submit_preads(submissions);
 
     if (ret < 0 || static_cast<size_t>(ret) != submissions.size()) {
-        for (auto& sub : submissions) {
-            free(sub.buf);
+        // the first reads might have been accepted: their buffers are in use
+        for (size_t i = (ret < 0) ? 0 : ret; i < submissions.size(); i++) {
+            free(submissions[i].buf);
         }
 
         throw std::runtime_error(
diff --git a/lib/include/sse/schemes/abstractio/scheduler.hpp b/lib/include/sse/schemes/abstractio/scheduler.hpp
index 4bb2915..a90278a 100644
--- a/lib/include/sse/schemes/abstractio/scheduler.hpp
+++ b/lib/include/sse/schemes/abstractio/scheduler.hpp
@@ -102,9 +102,11 @@ int Scheduler::submit_preads(const std::vector<PReadSumission>& subs)
         int err = this->submit_pread(
             read.fd, read.buf, read.len, read.offset, read.data, read.callback);
 
-        if (err == 1) {
-            ret++;
+        if (err != 1) {
+            // the accepted queries are always the first ones
+            break;
         }
+        ret++;
     }
     return ret;
 }
-- 
2.43.0


From 07019cbc97e31d191869f0e21efb7ee4dd6bf4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 13/43] fix: the thread pool scheduler is not destroyed under
 its last query

wait_completions could return (and the scheduler be destroyed) while the
last query still held the lock and was about to notify.
---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..aad0185 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -32,11 +32,10 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // always take the lock: the last query holds it while it uses this object
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock,
+                         [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From f92de5298f663f30ce51119cfd45f217853c9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 14/43] fix: concurrent first queries share a single IO thread
 pool

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index aad0185..8b697c6 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -13,16 +13,13 @@
 namespace sse {
 namespace abstractio {
 
-static ThreadPool* _shared_io_pool = nullptr;
-
 constexpr uint32_t kAIOThreadsCount = 50;
 
 static ThreadPool& get_shared_io_pool()
 {
-    if (_shared_io_pool == nullptr) {
-        _shared_io_pool = new ThreadPool(kAIOThreadsCount);
-    }
-    return *_shared_io_pool;
+    // never destructed; the initialization is thread-safe
+    static ThreadPool* shared_io_pool = new ThreadPool(kAIOThreadsCount);
+    return *shared_io_pool;
 }
 
 ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
-- 
2.43.0


From 34b67090ce7cb3d00fb5ecc32ba74790e0506be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 15/43] fix: an unknown device page size is reported as 0, not
 as garbage

---
 lib/utils/utils.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index 440eac5..7f5e6bb 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -254,7 +254,9 @@ size_t device_page_size(int fd)
     struct statvfs stats;
 
 
-    fstatvfs(fd, &stats);
+    if (fstatvfs(fd, &stats) != 0) {
+        return 0;
+    }
 #if __APPLE__
     return stats.f_frsize;
 #else
@@ -270,8 +272,9 @@ size_t device_page_size(const std::string& path)
     struct statvfs stats;
 
 
-    statvfs(path.c_str(), &stats);
-
+    if (statvfs(path.c_str(), &stats) != 0) {
+        return 0;
+    }
 
     return stats.f_bsize;
 }
-- 
2.43.0


From c60b100dede4aab2c85b23ba5e60d4fc6e985ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 16/43] fix: remove_directory reports a failed traversal

---
 lib/utils/utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index 7f5e6bb..e0dd69b 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -96,7 +96,7 @@ bool remove_directory(const std::string& path)
 
     FTSENT* curr;
 
-    while ((curr = fts_read(ftsp)) != nullptr) {
+    while (errno = 0, (curr = fts_read(ftsp)) != nullptr) {
         switch (curr->fts_info) {
         case FTS_NS:
         case FTS_DNR:
@@ -146,8 +146,16 @@ bool remove_directory(const std::string& path)
         }
     }
 
+    // fts_read also returns null when it fails
+    const int read_errno = errno;
     fts_close(ftsp);
 
+    if (read_errno != 0) {
+        throw std::runtime_error("When deleting directory " + path
+                                 + ": fts_read failed: "
+                                 + strerror(read_errno));
+    }
+
     return true;
 }
 
-- 
2.43.0


From 32ac90049fc95ea3b261d2979ac66f734504b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 17/43] fix: EncodeSeparate pads the list header consistently
 when encoding and decoding

---
 .../schemes/tethys/encoders/encode_separate.hpp  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..f3b0a00 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -106,7 +106,7 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < kListLengthEntriesNumber * sizeof(T)) {
             std::fill(buffer + offset,
-                      buffer + kAdditionalKeyEntriesPerList * sizeof(T),
+                      buffer + kListLengthEntriesNumber * sizeof(T),
                       0x11);
             offset = kListLengthEntriesNumber * sizeof(T); // offset = 8
         }
@@ -121,8 +121,12 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                          * sizeof(T)) {
-            std::fill(
-                buffer + offset, buffer + kListControlValues * sizeof(T), 0x22);
+            std::fill(buffer + offset,
+                      buffer
+                          + (kAdditionalKeyEntriesPerList
+                             + kListLengthEntriesNumber)
+                                * sizeof(T),
+                      0x22);
             offset = (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                      * sizeof(T); // offset = 24
         }
@@ -285,7 +289,8 @@ struct EncodeSeparateDecoder
         while (offset < bucket.size()) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
-            offset += sizeof(list_length);
+            // the encoder pads the length to a multiple of sizeof(T)
+            offset += kListLengthEntriesNumber * sizeof(T);
 
             if (list_length == 0) {
                 // we are at the end of the bucket
@@ -294,7 +299,8 @@ struct EncodeSeparateDecoder
 
             // read the key of the current list
             memcpy(&list_key, bucket.data() + offset, sizeof(list_key));
-            offset += sizeof(list_key);
+            // ... and so does it for the key
+            offset += kAdditionalKeyEntriesPerList * sizeof(T);
 
             if (list_key == key) {
                 // match on the key
-- 
2.43.0


From 7768ff569056e6a562e03a1af8e0a5c334839760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 18/43] fix: EncodeSeparate does not write an end-of-bucket
 marker for empty lists

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index f3b0a00..8bdc809 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -66,6 +66,12 @@ struct EncodeSeparateEncoder
 
         uint64_t original_list_size = infos.list_length - kListControlValues;
 
+        if (original_list_size == 0) {
+            // do not write anything for an empty list: a null length marks the
+            // end of the bucket, and would hide the lists encoded after it
+            return 0;
+        }
+
         // we have to pay attention to the difference between the allocated list
         // size and the values' list size
         uint64_t encoded_list_size
-- 
2.43.0


From 29fd27e401c3f664a80a0c342d7218594a8e9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 19/43] fix: EncodeSeparate never decodes past the end of a
 bucket

---
 .../sse/schemes/tethys/encoders/encode_separate.hpp   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 8bdc809..2857835 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -292,7 +292,11 @@ struct EncodeSeparateDecoder
         Key      list_key;
         uint64_t list_length;
 
-        while (offset < bucket.size()) {
+        constexpr size_t kListHeaderSize
+            = (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
+              * sizeof(T);
+
+        while (offset + kListHeaderSize <= bucket.size()) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
             // the encoder pads the length to a multiple of sizeof(T)
@@ -308,6 +312,11 @@ struct EncodeSeparateDecoder
             // ... and so does it for the key
             offset += kAdditionalKeyEntriesPerList * sizeof(T);
 
+            if (list_length > (bucket.size() - offset) / sizeof(T)) {
+                // the bucket is malformed: do not read past its end
+                break;
+            }
+
             if (list_key == key) {
                 // match on the key
                 results.reserve(results.size() + list_length);
-- 
2.43.0


From 47c0e74d0f419a5805bf717ab536366f83ca1003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 20/43] fix: TethysStore asynchronous queries wait for both
 buckets to be stored

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..11f32fd 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -334,16 +334,19 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
 {
     auto bucket_cb = [this, callback, state](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
-
-        if (completed == 1) {
+        // the two callbacks might run concurrently: each one stores its bucket
+        // before it announces its completion
+        if (state->slot_counter.fetch_add(1) == 0) {
             state->index_0  = index;
             state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
+        } else {
             state->index_1  = index;
             state->bucket_1 = std::move(bucket);
+        }
 
+        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
 
+        if (completed == 2) {
             std::vector<T> stash_res;
 
             auto stash_it = stash.find(state->key);
@@ -388,6 +391,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          slot_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder                  decoder;
 
@@ -421,6 +425,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          slot_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder*                 decoder;
 
-- 
2.43.0


From 6f2291b6d3b42a21743b6f37a3d2d64ccd453b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 21/43] fix: TethysStoreBuilder reports a failed write of the
 stash

---
 lib/include/sse/schemes/tethys/tethys_store_builder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
index 077e00e..a451ed0 100644
--- a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
@@ -301,6 +301,10 @@ void TethysStoreBuilder<PAGE_SIZE,
 
 
         stash_file.close();
+
+        if (!stash_file) {
+            throw std::runtime_error("Unable to write the stash");
+        }
     }
 
     encoder.finish_tethys_encoding();
-- 
2.43.0


From 6cc9385050084fda5d88b5eb6ec96a8bdd240d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 22/43] fix: refuse a Tethys stash that ends in the middle of a
 list

---
 .../sse/schemes/tethys/encoders/encode_encrypt.hpp        | 8 ++++++++
 .../sse/schemes/tethys/encoders/encode_separate.hpp       | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp b/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
index ef4e003..136dd0b 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
@@ -12,6 +12,7 @@
 #include <array>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace tethys {
@@ -207,11 +208,18 @@ public:
         // read the size of the vector
         in.read(reinterpret_cast<char*>(&v_size), sizeof(v_size));
 
+        if (!in) {
+            throw std::runtime_error("Truncated serialized list");
+        }
+
         v.reserve(v_size);
 
         for (size_t i = 0; i < v_size; i++) {
             value_type elt;
             in.read(reinterpret_cast<char*>(&elt), sizeof(elt));
+            if (!in) {
+                throw std::runtime_error("Truncated serialized list");
+            }
             v.push_back(elt);
         }
 
diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 2857835..b782d4b 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -8,6 +8,7 @@
 #include <array>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace tethys {
@@ -361,11 +362,18 @@ struct EncodeSeparateDecoder
         // read the size of the vector
         in.read(reinterpret_cast<char*>(&v_size), sizeof(v_size));
 
+        if (!in) {
+            throw std::runtime_error("Truncated serialized list");
+        }
+
         v.reserve(v_size);
 
         for (size_t i = 0; i < v_size; i++) {
             T elt;
             in.read(reinterpret_cast<char*>(&elt), sizeof(elt));
+            if (!in) {
+                throw std::runtime_error("Truncated serialized list");
+            }
             v.push_back(elt);
         }
 
-- 
2.43.0


From 0e68f4203f43ad1178eb6b7dbd7503486c9d8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 23/43] fix: TethysBuilder reports a block counter that could
 not be stored

---
 lib/include/sse/schemes/tethys/tethys_builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_builder.hpp b/lib/include/sse/schemes/tethys/tethys_builder.hpp
index e3c417d..459c7ca 100644
--- a/lib/include/sse/schemes/tethys/tethys_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_builder.hpp
@@ -14,6 +14,7 @@
 
 #include <array>
 #include <list>
+#include <stdexcept>
 
 namespace sse {
 namespace tethys {
@@ -121,7 +122,10 @@ void GenericTethysBuilder<StoreBuilder>::insert_list(
     // add the block counter to the counter db
     // this represents the number of blocks in the db (hence the +1)
     // counter_db.set(keyword, counter);
-    counter_db.set(keyword, block_counter + 1);
+    if (!counter_db.set(keyword, block_counter + 1)) {
+        throw std::runtime_error("Unable to store the block counter of keyword "
+                                 + keyword);
+    }
 }
 } // namespace details
 
-- 
2.43.0


From dc9ea9809ecd5bf7df1aea047c4bdc0411a72387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 24/43] fix: Sophos server reports an update that could not be
 stored

---
 lib/sophos/sophos_server.cpp        |  5 ++++-
 lib/sophos/sophos_server_runner.cpp | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index 832df6d..ae236dd 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -26,6 +26,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <stdexcept>
 
 namespace sse {
 namespace sophos {
@@ -487,7 +488,9 @@ void SophosServer::insert(const UpdateRequest& req)
                             + utility::hex_string(req.index) + ")");
 
     //    edb_.add(req.token, req.index);
-    edb_.put(req.token, req.index);
+    if (!edb_.put(req.token, req.index)) {
+        throw std::runtime_error("Unable to store the update");
+    }
 }
 } // namespace sophos
 } // namespace sse
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 46b9669..cd8c97b 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -262,7 +262,12 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
 
     logger::logger()->trace("Start updating");
 
-    server_->insert(message_to_request(mes));
+    try {
+        server_->insert(message_to_request(mes));
+    } catch (const std::exception& exc) {
+        logger::logger()->error(exc.what());
+        return grpc::Status(grpc::INTERNAL, exc.what());
+    }
 
     logger::logger()->trace("Update completed");
     return grpc::Status::OK;
@@ -282,15 +287,21 @@ grpc::Status SophosImpl::bulk_insert(
     logger::logger()->trace("Start updating (bulk)...");
 
     sophos::UpdateRequestMessage mes;
+    grpc::Status                 status = grpc::Status::OK;
 
     while (reader->Read(&mes)) {
-        server_->insert(message_to_request(&mes));
+        try {
+            server_->insert(message_to_request(&mes));
+        } catch (const std::exception& exc) {
+            logger::logger()->error(exc.what());
+            status = grpc::Status(grpc::INTERNAL, exc.what());
+        }
     }
 
     logger::logger()->trace("Updating (bulk)... done");
 
 
-    return grpc::Status::OK;
+    return status;
 }
 
 bool SophosImpl::search_asynchronously() const
-- 
2.43.0


From c76ce73b31fb6915553aeecc983c2543dfd41f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 25/43] fix: Diana server reports an update that could not be
 stored

---
 lib/diana/server_runner.cpp                    | 17 ++++++++++++++---
 lib/include/sse/schemes/diana/diana_server.hpp |  6 +++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index fcb6d42..cb2bbba 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -309,7 +309,12 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
 
     logger::logger()->trace("Updating ...");
 
-    server_->insert(message_to_request(mes));
+    try {
+        server_->insert(message_to_request(mes));
+    } catch (const std::exception& exc) {
+        logger::logger()->error(exc.what());
+        return grpc::Status(grpc::INTERNAL, exc.what());
+    }
 
     logger::logger()->trace("Update done");
 
@@ -330,9 +335,15 @@ grpc::Status DianaImpl::bulk_insert(
     logger::logger()->trace("Updating (bulk)...");
 
     UpdateRequestMessage mes;
+    grpc::Status         status = grpc::Status::OK;
 
     while (reader->Read(&mes)) {
-        server_->insert(message_to_request(&mes));
+        try {
+            server_->insert(message_to_request(&mes));
+        } catch (const std::exception& exc) {
+            logger::logger()->error(exc.what());
+            status = grpc::Status(grpc::INTERNAL, exc.what());
+        }
     }
 
     logger::logger()->trace("Updating (bulk)... done");
@@ -340,7 +351,7 @@ grpc::Status DianaImpl::bulk_insert(
 
     flush_server_storage();
 
-    return grpc::Status::OK;
+    return status;
 }
 
 bool DianaImpl::search_asynchronously() const
diff --git a/lib/include/sse/schemes/diana/diana_server.hpp b/lib/include/sse/schemes/diana/diana_server.hpp
index 0fd4f7e..0bb214a 100644
--- a/lib/include/sse/schemes/diana/diana_server.hpp
+++ b/lib/include/sse/schemes/diana/diana_server.hpp
@@ -28,6 +28,8 @@
 
 #include <sse/crypto/prf.hpp>
 
+#include <stdexcept>
+
 namespace sse {
 namespace diana {
 
@@ -319,7 +321,9 @@ void DianaServer<T>::insert(const UpdateRequest<T>& req)
                             + utility::hex_string(req.token) + ", "
                             + utility::hex_string(req.index) + ")");
 
-    edb_.put(req.token, req.index);
+    if (!edb_.put(req.token, req.index)) {
+        throw std::runtime_error("Unable to store the update");
+    }
 }
 
 template<typename T>
-- 
2.43.0


From c0120c7e6c31fc739a9073865a51c826496cbf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 26/43] fix: Sophos searches work with any number of threads

---
 lib/sophos/sophos_server.cpp        | 33 +++++++++++++++++++++++++----
 lib/sophos/sophos_server_runner.cpp |  8 +++++--
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index ae236dd..4ba7074 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -31,11 +31,30 @@
 namespace sse {
 namespace sophos {
 
+namespace {
+
+// Maximum order the public TDP is set up for: a non null value that fits in a
+// byte, whatever the number of hardware threads is.
+uint8_t tdp_pool_size()
+{
+    const unsigned size = 2 * std::thread::hardware_concurrency();
+
+    return static_cast<uint8_t>(std::min(std::max(size, 2U), 255U));
+}
+
+// Number of threads walking the search tokens: at least one, and no more than
+// the order the public TDP can evaluate in one step.
+uint8_t walk_thread_count(unsigned requested)
+{
+    return static_cast<uint8_t>(
+        std::min<unsigned>(std::max(requested, 1U), tdp_pool_size()));
+}
+
+} // namespace
 
 SophosServer::SophosServer(const std::string& db_path,
                            const std::string& tdp_pk)
-    : edb_(db_path),
-      public_tdp_(tdp_pk, 2 * std::thread::hardware_concurrency())
+    : edb_(db_path), public_tdp_(tdp_pk, tdp_pool_size())
 {
 }
 
@@ -207,8 +226,8 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
     std::vector<std::thread> rsa_threads;
 
     // use at least two threads to make the RSA computations
-    unsigned n_rsa_threads
-        = std::max<unsigned>(std::thread::hardware_concurrency(), 2);
+    const uint8_t n_rsa_threads = walk_thread_count(
+        std::max<unsigned>(std::thread::hardware_concurrency(), 2));
 
     for (unsigned t = 0; t < n_rsa_threads; t++) {
         rsa_threads.emplace_back(rsa_job, t, req.add_count, n_rsa_threads);
@@ -226,6 +245,8 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
 std::list<index_type> SophosServer::search_parallel_light(SearchRequest& req,
                                                           uint8_t thread_count)
 {
+    thread_count = walk_thread_count(thread_count);
+
     search_token_type     st = req.token;
     std::list<index_type> results;
     std::mutex            res_mutex;
@@ -317,6 +338,8 @@ void SophosServer::search_parallel_callback(
     uint8_t                         access_thread_count,
     uint8_t                         post_thread_count)
 {
+    rsa_thread_count = walk_thread_count(rsa_thread_count);
+
     search_token_type st = req.token;
 
 
@@ -405,6 +428,8 @@ void SophosServer::search_parallel_light_callback(
     std::function<void(index_type)> post_callback,
     uint8_t                         thread_count)
 {
+    thread_count = walk_thread_count(thread_count);
+
     search_token_type st = req.token;
 
     logger::logger()->debug("Search token: " + utility::hex_string(req.token)
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index cd8c97b..49d22ed 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -29,6 +29,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -226,13 +227,16 @@ grpc::Status SophosImpl::async_search(
     {
         SearchBenchmark bench("Sophos asynchronous search");
 
+        const auto thread_count = static_cast<uint8_t>(
+            std::min(std::thread::hardware_concurrency(), 255U));
+
         if (mes->add_count() >= 40) { // run the search algorithm in parallel
                                       // only if there are more than 2 results
             server_->search_parallel_callback(
-                req, post_callback, std::thread::hardware_concurrency(), 8, 1);
+                req, post_callback, thread_count, 8, 1);
         } else if (mes->add_count() >= 2) {
             server_->search_parallel_light_callback(
-                req, post_callback, std::thread::hardware_concurrency());
+                req, post_callback, thread_count);
         } else {
             server_->search_callback(req, post_callback);
         }
-- 
2.43.0


From ff87cacd4b740bcaad58886add039ffcdb7aba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 27/43] fix: Sophos search request of an unknown keyword is
 initialised

---
 lib/sophos/sophos_client.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/sophos/sophos_client.cpp b/lib/sophos/sophos_client.cpp
index 425b876..f9c41ac 100644
--- a/lib/sophos/sophos_client.cpp
+++ b/lib/sophos/sophos_client.cpp
@@ -84,8 +84,7 @@ SearchRequest SophosClient::search_request(const std::string& keyword) const
 {
     uint32_t      kw_counter;
     bool          found;
-    SearchRequest req;
-    req.add_count = 0;
+    SearchRequest req{};
 
     std::string seed = get_keyword_index(keyword);
 
-- 
2.43.0


From af2659fa08ab12fdeeaa16ee9f6b2b2a805843f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 28/43] fix: the shared logger can be used and replaced from
 any thread

---
 lib/utils/logger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..6ee8d31 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,18 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
+static std::mutex               shared_logger_mutex_;
 
 std::shared_ptr<spdlog::logger> logger()
 {
+    const std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +49,8 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    const std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0


From d34db0759ba8048d7c76b1e3c5903a670f907b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 29/43] fix: logging can be disabled more than once

---
 lib/utils/logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 6ee8d31..af47128 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -54,8 +54,9 @@ void set_logger(const std::shared_ptr<spdlog::logger>& logger)
     if (logger) {
         shared_logger_ = logger;
     } else {
-        shared_logger_
-            = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        // not registered: logging can be disabled several times
+        shared_logger_ = std::make_shared<spdlog::logger>(
+            "null_logger", std::make_shared<spdlog::sinks::null_sink_mt>());
     }
 }
 
-- 
2.43.0


From b82761a9dea00e93a93a6e4281f2f2139c140bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 30/43] fix: the default logger can already have been
 registered by the application

---
 lib/utils/logger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index af47128..5e07311 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -42,7 +42,10 @@ std::shared_ptr<spdlog::logger> logger()
 
     if (!shared_logger_) {
         // initialize the logger
-        shared_logger_ = spdlog::stderr_color_mt("console");
+        shared_logger_ = spdlog::get("console");
+        if (!shared_logger_) {
+            shared_logger_ = spdlog::stderr_color_mt("console");
+        }
     }
     return shared_logger_;
 }
-- 
2.43.0


From e67a39146cc0818d57fc7bac497345a79ace67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 31/43] fix: a benchmark measures the time up to the moment it
 was stopped

---
 lib/utils/logger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 5e07311..e56da91 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -90,15 +90,17 @@ Benchmark::Benchmark(std::string format)
 void Benchmark::stop()
 {
     if (!stopped_) {
-        end_ = std::chrono::high_resolution_clock::now();
+        end_     = std::chrono::high_resolution_clock::now();
+        stopped_ = true;
     }
 }
 
 void Benchmark::stop(size_t count)
 {
     if (!stopped_) {
-        end_   = std::chrono::high_resolution_clock::now();
-        count_ = count;
+        end_     = std::chrono::high_resolution_clock::now();
+        count_   = count;
+        stopped_ = true;
     }
 }
 
-- 
2.43.0


From d50803ed66aac9759a30dbc6261daf978fd2892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 32/43] fix: concatenated iteration skips an empty first
 container

---
 .../sse/schemes/utils/concat_iterator.hpp     | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index f95fd9d..bd25c0b 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -20,10 +20,7 @@ public:
     concat_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_end_of_container_1();
         return *this;
     }
 
@@ -53,6 +50,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_end_of_container_1();
     }
 
     concat_iterator(Container&         c1,
@@ -62,9 +60,18 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_end_of_container_1();
     }
 
 private:
+    void skip_end_of_container_1()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     Container* container_1;
     Container* container_2;
 
@@ -93,10 +100,7 @@ public:
     concat_const_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_end_of_container_1();
         return *this;
     }
 
@@ -126,6 +130,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_end_of_container_1();
     }
 
     concat_const_iterator(const Container&   c1,
@@ -135,9 +140,18 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_end_of_container_1();
     }
 
 private:
+    void skip_end_of_container_1()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     const Container* container_1;
     const Container* container_2;
 
-- 
2.43.0


From cbd21b499bc168676f7f23443f81c680f3a9dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 33/43] fix: positions in different concatenated containers are
 different

---
 lib/include/sse/schemes/utils/concat_iterator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index bd25c0b..c4375f1 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -35,7 +35,8 @@ public:
     }
     bool operator==(const concat_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_iterator& other) const
     {
@@ -115,7 +116,8 @@ public:
     }
     bool operator==(const concat_const_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_const_iterator& other) const
     {
-- 
2.43.0


From a0099d5c68bacb717ae37c378b6128fc45ff5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 34/43] fix: the benchmark file can be changed

---
 lib/utils/logger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index e56da91..f2f9bee 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -73,6 +73,9 @@ std::shared_ptr<spdlog::logger> Benchmark::benchmark_logger_(nullptr);
 
 void Benchmark::set_benchmark_file(const std::string& path)
 {
+    // the name may already be registered, with another file
+    spdlog::drop("benchmark");
+
     benchmark_logger_
         = spdlog::basic_logger_mt<spdlog::async_factory>("benchmark", path);
     benchmark_logger_->set_level(spdlog::level::trace);
-- 
2.43.0


From 9250fc9a37e0bf8e79a6b278f904ecf8520e808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:55 +0000
Subject: [PATCH 35/43] fix: Diana client counts every match of a keyword

The stored counter is the index of the last match, so that Janus numbered
the second deletion of a keyword as the first one.
---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..eb7eb25 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter is the index of the last match
+    return (found) ? kw_counter + 1 : 0;
 }
 
 template<typename T>
-- 
2.43.0


From 9a0cdb8d8b70650b9d3b3e114e601237f6fa00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 36/43] fix: Janus keeps its update counters when the search
 counter is not updated

---
 lib/janus/janus_client.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/janus/janus_client.cpp b/lib/janus/janus_client.cpp
index 4bcacf6..b0eeca2 100644
--- a/lib/janus/janus_client.cpp
+++ b/lib/janus/janus_client.cpp
@@ -115,7 +115,9 @@ SearchRequest JanusClient::search_request(const std::string& keyword)
     // deletions
     if (req.insertion_search_request.add_count > 0
         || req.deletion_search_request.add_count > 0) {
-        search_counter_map_.set(keyword, search_counter + 1);
+        if (!search_counter_map_.set(keyword, search_counter + 1)) {
+            throw std::runtime_error("Unable to update the search counter");
+        }
     }
 
     // cleanup the counter maps
-- 
2.43.0


From 724ac220797584eed874aa2f479e876b90776afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 37/43] fix: Janus reports when the results of a search are not
 cached

---
 lib/janus/janus_server.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/janus/janus_server.cpp b/lib/janus/janus_server.cpp
index 5daad4b..18e28c4 100644
--- a/lib/janus/janus_server.cpp
+++ b/lib/janus/janus_server.cpp
@@ -154,7 +154,9 @@ std::list<index_type> JanusServer::search(SearchRequest& req)
     }
 
     // store results in the cache
-    cached_results_edb_.put(req.keyword_token, cached_res_list);
+    if (!cached_results_edb_.put(req.keyword_token, cached_res_list)) {
+        throw std::runtime_error("Unable to store the search results");
+    }
 
 
     return results;
@@ -288,7 +290,9 @@ void JanusServer::search_parallel(
     new_cache.splice(new_cache.end(), filtered_cache);
 
     // store results in the cache
-    cached_results_edb_.put(req.keyword_token, new_cache);
+    if (!cached_results_edb_.put(req.keyword_token, new_cache)) {
+        throw std::runtime_error("Unable to store the search results");
+    }
 }
 
 
-- 
2.43.0


From 59e597bb315a9fbf21fec62412d9d66f244e616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 38/43] fix: Janus checks the whole size of a cached result
 before reading it

---
 lib/janus/janus_server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/janus/janus_server.cpp b/lib/janus/janus_server.cpp
index 18e28c4..3391266 100644
--- a/lib/janus/janus_server.cpp
+++ b/lib/janus/janus_server.cpp
@@ -32,7 +32,7 @@ struct serialization<janus::JanusServer::cached_result_type>
                      janus::JanusServer::cached_result_type& out)
     {
         if (end < begin + sizeof(janus::index_type)
-                      + sizeof(crypto::punct::kTagSize)) {
+                      + crypto::punct::kTagSize) {
             if (end != begin) {
                 logger::logger()->error("Error when deserializing");
             }
@@ -43,7 +43,7 @@ struct serialization<janus::JanusServer::cached_result_type>
                                 + utility::hex_string(std::string(
                                     begin,
                                     begin + sizeof(janus::index_type)
-                                        + sizeof(crypto::punct::kTagSize))));
+                                        + crypto::punct::kTagSize)));
 
         janus::index_type       ind;
         crypto::punct::tag_type tag;
-- 
2.43.0


From 9fdd27eaaaac17dc8c1ad17bf12e2e8ae7c32332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:32 +0000
Subject: [PATCH 39/43] fix: Pluto: do not return the padding of full blocks as
 results

---
 lib/include/sse/schemes/pluto/pluto_server.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_server.hpp b/lib/include/sse/schemes/pluto/pluto_server.hpp
index ac69fe1..d432a04 100644
--- a/lib/include/sse/schemes/pluto/pluto_server.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_server.hpp
@@ -60,9 +60,12 @@ auto PlutoServer<Params>::search(const SearchRequest& search_request)
         try {
             typename Params::ht_value_type v = hash_table.get(key);
 
-            res.complete_lists.reserve(res.complete_lists.size() + v.size());
-            res.complete_lists.insert(
-                res.complete_lists.end(), v.begin(), v.end());
+            // a block has kPlutoListLength entries, the rest of v is padding
+            res.complete_lists.reserve(res.complete_lists.size()
+                                       + Params::kPlutoListLength);
+            res.complete_lists.insert(res.complete_lists.end(),
+                                      v.begin(),
+                                      v.begin() + Params::kPlutoListLength);
         } catch (const std::out_of_range& e) {
             break;
         }
-- 
2.43.0


From 368648749bdfde00daaca6adbe14735ae22c6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:32 +0000
Subject: [PATCH 40/43] fix: Pluto: no padding blocks without end when there is
 no entry

---
 lib/include/sse/schemes/pluto/pluto_builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_builder.hpp b/lib/include/sse/schemes/pluto/pluto_builder.hpp
index 4475dce..47a04f1 100644
--- a/lib/include/sse/schemes/pluto/pluto_builder.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_builder.hpp
@@ -92,7 +92,8 @@ void PlutoBuilder<Params>::build()
     // for the security of the scheme, because we do not want to leak the
     // number of full blocks, we have to insert a dummy block in the hash
     // table
-    const size_t n_full_blocks = 1 + ((n_elts - 1) / Params::kPlutoListLength);
+    const size_t n_full_blocks
+        = (n_elts + Params::kPlutoListLength - 1) / Params::kPlutoListLength;
 
     typename Params::ht_value_type v = {0x00};
 
-- 
2.43.0


From d8336997449b3a9cbbeb0e7ddcc822e87c3df473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:32 +0000
Subject: [PATCH 41/43] fix: Pluto: a failed read of the store is not the end
 of a list

---
 lib/include/sse/schemes/pluto/rocksdb_store.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/rocksdb_store.hpp b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
index df9a861..a4ff271 100644
--- a/lib/include/sse/schemes/pluto/rocksdb_store.hpp
+++ b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
@@ -76,8 +76,11 @@ std::array<index_type, N> GenericRocksDBStore::get(
 
     if (s.ok()) {
         ::memcpy(content.data(), value.data(), N * sizeof(index_type));
-    } else {
+    } else if (s.IsNotFound()) {
         throw std::out_of_range("Key not found");
+    } else {
+        throw std::runtime_error("Unable to read from the database: "
+                                 + s.ToString());
     }
 
     return content;
-- 
2.43.0


From 1b42d7f080a3aef8d114e0c9c574c1f16cae2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:35 +0000
Subject: [PATCH 42/43] fix: hex_string writes whole elements, not their last
 byte

---
 lib/include/sse/schemes/utils/utils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/utils/utils.hpp b/lib/include/sse/schemes/utils/utils.hpp
index 2e86680..cea63d3 100644
--- a/lib/include/sse/schemes/utils/utils.hpp
+++ b/lib/include/sse/schemes/utils/utils.hpp
@@ -28,6 +28,7 @@
 #include <iomanip>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 namespace sse {
 namespace utility {
@@ -76,9 +77,10 @@ template<typename T, size_t N>
 std::string hex_string(const std::array<T, N>& in)
 {
     std::ostringstream out;
-    for (unsigned char c : in) {
+    for (const T& c : in) {
         out << std::hex << std::setw(2 * sizeof(T)) << std::setfill('0')
-            << static_cast<uint64_t>(c);
+            << static_cast<uint64_t>(
+                   static_cast<typename std::make_unsigned<T>::type>(c));
     }
     return out.str();
 }
-- 
2.43.0


From ce001066266593bb12e4f9618a4aa96043e6025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:55 +0000
Subject: [PATCH 43/43] fix: Diana server: use a number of search threads that
 fits in a byte

---
 lib/diana/server_runner.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index cb2bbba..dd20a62 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -31,6 +31,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -277,8 +278,11 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
         if (mes->add_count() >= 2) { // run the search algorithm in parallel
                                      // only if there are more than 2 results
 
-            server_->search_parallel(
-                req, post_callback, std::thread::hardware_concurrency());
+            // the number of threads must fit in a byte and not be null
+            const auto thread_count = static_cast<uint8_t>(std::min(
+                std::max(std::thread::hardware_concurrency(), 1U), 255U));
+
+            server_->search_parallel(req, post_callback, thread_count);
 
         } else {
             server_->search(req, post_callback);
-- 
2.43.0

