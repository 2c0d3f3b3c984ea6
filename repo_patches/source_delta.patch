From 556ae43729db86f2ccc66d452879c44863c5b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 01/14] fix: do not touch OneShotTimer state after its task was
 fired

FireNow() cleared the running flag after RunTask() returned, which cancelled a
timer restarted by its own task and wrote to freed memory if the task destroyed
the timer.  RunTask() already clears the flag before running the task.
---
 rst/timer/one_shot_timer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index 95c7735..ff696ae 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -54,7 +54,6 @@ void OneShotTimer::Start(std::function<void()>&& task,
 void OneShotTimer::FireNow() {
   RST_DCHECK(IsRunning());
   RunTask(task_id_);
-  is_running_ = false;
 }
 
 void OneShotTimer::RunTask(const uint64_t task_id) {
-- 
2.43.0


From 4a12adde3ad5a68d5ad3e60308211ec6d1d87684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 02/14] fix: allow moving a Value out of the tree it is
 assigned to

Move assignment destroyed the old content before reading the source, and
SetPath() replaced non-object intermediates before reading it, so a source owned
by the destination was used after it had been freed.
---
 rst/value/value.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 712bec5..895c2e4 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -58,11 +58,14 @@ Value::Value(Value&& other) noexcept { MoveConstruct(std::move(other)); }
 Value::~Value() { Cleanup(); }
 
 Value& Value::operator=(Value&& rhs) noexcept {
-  if (type_ == rhs.type_) {
-    MoveAssign(std::move(rhs));
+  // |rhs| can be owned by |*this|, so take it before destroying anything.
+  Value value(std::move(rhs));
+
+  if (type_ == value.type_) {
+    MoveAssign(std::move(value));
   } else {
     Cleanup();
-    MoveConstruct(std::move(rhs));
+    MoveConstruct(std::move(value));
   }
 
   return *this;
@@ -189,7 +192,11 @@ bool Value::RemoveKey(const std::string_view key) {
 NotNull<Value*> Value::SetPath(const std::string_view path, Value&& value) {
   RST_DCHECK(IsObject());
 
-  auto current_path = path;
+  // |path| and |value| can belong to a value that gets replaced below.
+  const std::string path_copy(path);
+  Value new_value(std::move(value));
+
+  std::string_view current_path = path_copy;
   NotNull<Value*> current_object = this;
   for (auto delimiter_position = current_path.find('.');
        delimiter_position != std::string_view::npos;
@@ -206,7 +213,8 @@ NotNull<Value*> Value::SetPath(const std::string_view path, Value&& value) {
     current_path = current_path.substr(delimiter_position + 1);
   }
 
-  return current_object->SetKey(std::string(current_path), std::move(value));
+  return current_object->SetKey(std::string(current_path),
+                                std::move(new_value));
 }
 
 Nullable<const Value*> Value::FindPath(const std::string_view path) const {
-- 
2.43.0


From 2b638a8dbe885916ec4621d930764786d31bbc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 03/14] fix: reject INT64_MIN in Value without undefined
 behaviour

std::abs(INT64_MIN) overflows, and its usual result made the range check pass.
---
 rst/value/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rst/value/value.h b/rst/value/value.h
index c8a219a..d24e2f7 100644
--- a/rst/value/value.h
+++ b/rst/value/value.h
@@ -138,7 +138,7 @@ class Value {
   // Can store |2^53 - 1| at maximum since it's a max safe integer that can be
   // stored in JavaScript.
   explicit Value(int64_t value) : Value(static_cast<double>(value)) {
-    RST_DCHECK(std::abs(value) <= kMaxSafeInteger);
+    RST_DCHECK(value >= -kMaxSafeInteger && value <= kMaxSafeInteger);
   }
 
   explicit Value(double value) : type_(Type::kNumber), number_(value) {
-- 
2.43.0


From dc1f57cb675ae387f11c80911ced7dae37034503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 04/14] fix: notify Barrier waiters under the lock

The notification was sent after unlocking, when a waiter that saw the counter
reach zero could already have returned and destroyed the barrier.
---
 rst/threading/barrier.cc | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/rst/threading/barrier.cc b/rst/threading/barrier.cc
index c008454..1e9faac 100644
--- a/rst/threading/barrier.cc
+++ b/rst/threading/barrier.cc
@@ -43,39 +43,30 @@ Barrier::~Barrier() {
 }
 
 void Barrier::CountDownAndWait() {
-  {
-    std::unique_lock lock(mutex_);
-    RST_DCHECK(counter_ > 0);
+  std::unique_lock lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-    counter_--;
-    while (counter_ != 0)
-      cv_.wait(lock);
-  }
+  counter_--;
+  while (counter_ != 0)
+    cv_.wait(lock);
 
   cv_.notify_one();
 }
 
 void Barrier::CountDown() {
-  size_t counter = 0;
-
-  {
-    std::lock_guard lock(mutex_);
-    RST_DCHECK(counter_ > 0);
-
-    counter = --counter_;
-  }
+  std::lock_guard lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-  if (counter == 0)
+  // Notify under the lock, since a released waiter can destroy the barrier.
+  if (--counter_ == 0)
     cv_.notify_one();
 }
 
 void Barrier::Wait() {
-  {
-    std::unique_lock lock(mutex_);
+  std::unique_lock lock(mutex_);
 
-    while (counter_ != 0)
-      cv_.wait(lock);
-  }
+  while (counter_ != 0)
+    cv_.wait(lock);
 
   cv_.notify_one();
 }
-- 
2.43.0


From 0b21bb619a6e578448f6c0fc6660df5d02f254aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 05/14] fix: remove the temporary file if WriteImportantFile()
 can't write it

The temporary file was only removed when renaming failed; a failed write or
close (e.g. on a full disk) left it next to the destination for ever.
---
 rst/files/file_utils.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rst/files/file_utils.cc b/rst/files/file_utils.cc
index fd32722..d3fc584 100644
--- a/rst/files/file_utils.cc
+++ b/rst/files/file_utils.cc
@@ -35,7 +35,7 @@
 #include <utility>
 
 #include "rst/guid/guid.h"
-#include "rst/status/status_macros.h"
+#include "rst/rtti/rtti.h"
 #include "rst/stl/resize_uninitialized.h"
 #include "rst/strings/str_cat.h"
 
@@ -112,7 +112,13 @@ Status WriteImportantFile(const filesystem::path& filename,
                           const std::string_view data) {
   const filesystem::path temp_filename(
       StrCat({filename.native(), Guid().AsStringView().value(), ".tmp"}));
-  RST_TRY(WriteFile(temp_filename.c_str(), "wxb", data));
+  auto status = WriteFile(temp_filename.c_str(), "wxb", data);
+  if (status.err()) {
+    // If the file couldn't be opened, it isn't ours.
+    if (dyn_cast<FileOpenError>(status.GetError()) == nullptr)
+      (void)Remove(temp_filename);
+    return status;
+  }
 
   if (!Rename(temp_filename, filename)) {
     (void)Remove(temp_filename);
-- 
2.43.0


From 5ed632830ce121a4a7544cd460b01f1370713e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 06/14] fix: do not truncate log messages at a zero byte

%.*s stops at the first zero byte of the message.
---
 rst/logger/file_name_sink.cc |  8 +++-----
 rst/logger/file_ptr_sink.cc  | 10 ++++------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/rst/logger/file_name_sink.cc b/rst/logger/file_name_sink.cc
index 486b287..d674f31 100644
--- a/rst/logger/file_name_sink.cc
+++ b/rst/logger/file_name_sink.cc
@@ -27,7 +27,6 @@
 
 #include "rst/logger/file_name_sink.h"
 
-#include <limits>
 #include <utility>
 
 #include "rst/check/check.h"
@@ -55,10 +54,9 @@ StatusOr<FileNameSink::Ptr> FileNameSink::Create(
 void FileNameSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(log_file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  const auto line = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(line.data(), 1, line.size(), log_file_.get()) ==
+            line.size());
   RST_CHECK(std::fflush(log_file_.get()) == 0);
 }
 
diff --git a/rst/logger/file_ptr_sink.cc b/rst/logger/file_ptr_sink.cc
index 80c5549..ac3284f 100644
--- a/rst/logger/file_ptr_sink.cc
+++ b/rst/logger/file_ptr_sink.cc
@@ -27,9 +27,8 @@
 
 #include "rst/logger/file_ptr_sink.h"
 
-#include <limits>
-
 #include "rst/check/check.h"
+#include "rst/strings/str_cat.h"
 
 namespace rst {
 
@@ -45,10 +44,9 @@ FilePtrSink::~FilePtrSink() = default;
 void FilePtrSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  const auto line = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(line.data(), 1, line.size(), file_.get()) ==
+            line.size());
   RST_CHECK(std::fflush(file_.get()) == 0);
 }
 
-- 
2.43.0


From 5820e89756279e11ab831b8ba0e969b8bd2c9076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 07/14] fix: do not lose a task posted while a pool thread
 expires

A thread whose keep-alive time ran out released the lock before it was removed
from the pool, and did not look at the queue again after its wait timed out, so
a task posted meanwhile could stay in the queue with no thread to run it.
---
 rst/task_runner/thread_pool_task_runner.cc | 59 +++++++++++-----------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 660d320..da97b08 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -54,10 +54,10 @@ ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
 }
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
-  std::function<void()> task;
+  std::unique_lock lock(thread_mutex_);
+  // Executed with the |lock| held, so that there is no gap between the decision
+  // to exit and the removal of the thread.
   RST_DEFER([this]() {
-    std::lock_guard lock(thread_mutex_);
-
     const auto it = thread_id_to_thread_map_.find(std::this_thread::get_id());
     RST_DCHECK(it != thread_id_to_thread_map_.cend());
     it->second.detach();
@@ -66,43 +66,44 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
     thread_cv_.notify_one();
   });
 
+  std::function<void()> task;
   while (true) {
-    auto had_items = false;
-
-    {
-      std::unique_lock lock(thread_mutex_);
-
-      while (tasks_.empty() && !should_exit_) {
-        waiting_threads_num_++;
-        RST_DEFER([this]() { waiting_threads_num_--; });
-
-        if (thread_cv_.wait_for(lock, keep_alive_time_) ==
-            std::cv_status::timeout) {
-          return;
-        }
-      }
-
-      if (should_exit_)
+    while (tasks_.empty() && !should_exit_) {
+      waiting_threads_num_++;
+      RST_DEFER([this]() { waiting_threads_num_--; });
+
+      // A task can be pushed after the timeout but before the lock is taken.
+      if (thread_cv_.wait_for(lock, keep_alive_time_) ==
+              std::cv_status::timeout &&
+          tasks_.empty()) {
         return;
-
-      RST_DCHECK(!tasks_.empty());
-      auto& front = tasks_.front();
-      if (front.iterations == 0) {
-        task = std::move(front.task);
-        tasks_.pop();
-      } else {
-        task = front.task;
-        front.iterations--;
       }
+    }
 
-      had_items = !tasks_.empty();
+    if (should_exit_)
+      return;
+
+    RST_DCHECK(!tasks_.empty());
+    auto& front = tasks_.front();
+    if (front.iterations == 0) {
+      task = std::move(front.task);
+      tasks_.pop();
+    } else {
+      task = front.task;
+      front.iterations--;
     }
 
+    const auto had_items = !tasks_.empty();
+
+    lock.unlock();
+
     if (had_items)
       thread_cv_.notify_one();
 
     task();
     task = nullptr;
+
+    lock.lock();
   }
 }
 
-- 
2.43.0


From 5d751e1faf2717487d324477820cce00b69d2484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 08/14] fix: create enough pool threads for all pending tasks

The number of threads to create was computed only from the tasks of one push
and from the waiting threads, which can be already taken by earlier tasks, so
tasks that wait for each other could block although the limit on the number of
threads was not reached.
---
 rst/task_runner/thread_pool_task_runner.cc | 63 ++++++++++------------
 rst/task_runner/thread_pool_task_runner.h  |  7 ++-
 2 files changed, 33 insertions(+), 37 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index da97b08..ec9e858 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -69,9 +69,6 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
   while (true) {
     while (tasks_.empty() && !should_exit_) {
-      waiting_threads_num_++;
-      RST_DEFER([this]() { waiting_threads_num_--; });
-
       // A task can be pushed after the timeout but before the lock is taken.
       if (thread_cv_.wait_for(lock, keep_alive_time_) ==
               std::cv_status::timeout &&
@@ -93,6 +90,8 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
       front.iterations--;
     }
 
+    pending_tasks_num_--;
+    running_threads_num_++;
     const auto had_items = !tasks_.empty();
 
     lock.unlock();
@@ -104,6 +103,27 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
     task = nullptr;
 
     lock.lock();
+    running_threads_num_--;
+  }
+}
+
+void ThreadPoolTaskRunner::DelayedTaskRunner::CreateThreads() {
+  RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
+  RST_DCHECK(running_threads_num_ <= thread_id_to_thread_map_.size());
+  // Every thread that does not run a task takes one of the pending ones.
+  const auto free_threads_num =
+      thread_id_to_thread_map_.size() - running_threads_num_;
+  auto threads_num_to_create =
+      pending_tasks_num_ - std::min(pending_tasks_num_, free_threads_num);
+  threads_num_to_create =
+      std::min(threads_num_to_create,
+               max_threads_num_ - thread_id_to_thread_map_.size());
+
+  for (size_t i = 0; i < threads_num_to_create; i++) {
+    std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
+    const auto id = t.get_id();
+    const auto [_, success] = thread_id_to_thread_map_.emplace(id, std::move(t));
+    RST_DCHECK(success);
   }
 }
 
@@ -114,26 +134,11 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTasks(
   {
     std::lock_guard lock(thread_mutex_);
 
-    size_t tasks_num = 0;
     for (auto& task : *tasks) {
-      tasks_num += task.iterations + 1;
+      pending_tasks_num_ += task.iterations + 1;
       tasks_.emplace(std::move(task));
     }
-
-    RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
-    const auto max_threads_num_to_create =
-        max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
-
-    for (size_t i = 0; i < threads_num_to_create; i++) {
-      std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
-      const auto id = t.get_id();
-      const auto [_, success] =
-          thread_id_to_thread_map_.emplace(id, std::move(t));
-      RST_DCHECK(success);
-    }
+    CreateThreads();
   }
 
   thread_cv_.notify_one();
@@ -144,23 +149,9 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTask(
   {
     std::lock_guard lock(thread_mutex_);
 
-    const auto tasks_num = task.iterations + 1;
+    pending_tasks_num_ += task.iterations + 1;
     tasks_.emplace(std::move(task));
-
-    RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
-    const auto max_threads_num_to_create =
-        max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
-
-    for (size_t i = 0; i < threads_num_to_create; i++) {
-      std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
-      const auto id = t.get_id();
-      const auto [_, success] =
-          thread_id_to_thread_map_.emplace(id, std::move(t));
-      RST_DCHECK(success);
-    }
+    CreateThreads();
   }
 
   thread_cv_.notify_one();
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 87e6c03..dcc2d62 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -100,6 +100,8 @@ class ThreadPoolTaskRunner : public TaskRunner {
 
    private:
     void WaitAndRunTasks();
+    // Creates as many threads as needed for the pending tasks.
+    void CreateThreads();
 
     std::queue<internal::IterationItem> tasks_;
 
@@ -109,7 +111,10 @@ class ThreadPoolTaskRunner : public TaskRunner {
     std::unordered_map<std::thread::id, std::thread> thread_id_to_thread_map_;
     const size_t max_threads_num_;
     const std::chrono::nanoseconds keep_alive_time_;
-    size_t waiting_threads_num_ = 0;
+    // Number of tasks in |tasks_| including iterations.
+    size_t pending_tasks_num_ = 0;
+    // Number of threads that run a task.
+    size_t running_threads_num_ = 0;
 
     bool should_exit_ = false;
 
-- 
2.43.0


From 294372c51dccbe08356d5643b02681255dcb2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 09/14] fix: keep the service of a thread pool alive until its
 tasks finish

The service runner was destroyed before the running tasks were waited for, so a
task that posted a delayed task during the destruction used freed memory.
---
 rst/task_runner/thread_pool_task_runner.cc | 15 ++++++++++++---
 rst/task_runner/thread_pool_task_runner.h  |  6 ++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index ec9e858..aded350 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -44,7 +44,9 @@ ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
   RST_DCHECK(keep_alive_time.count() > 0);
 }
 
-ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
+ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() = default;
+
+void ThreadPoolTaskRunner::DelayedTaskRunner::Stop() {
   std::unique_lock lock(thread_mutex_);
   should_exit_ = true;
   while (!thread_id_to_thread_map_.empty()) {
@@ -169,7 +171,9 @@ ThreadPoolTaskRunner::ServiceTaskRunner::ServiceTaskRunner(
 {
 }
 
-ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() {
+ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() = default;
+
+void ThreadPoolTaskRunner::ServiceTaskRunner::Stop() {
   {
     std::lock_guard lock(thread_mutex_);
     should_exit_ = true;
@@ -250,7 +254,12 @@ ThreadPoolTaskRunner::ThreadPoolTaskRunner(
     : delayed_task_runner_(max_threads_num, keep_alive_time),
       service_task_runner_(&delayed_task_runner_, std::move(time_function)) {}
 
-ThreadPoolTaskRunner::~ThreadPoolTaskRunner() = default;
+ThreadPoolTaskRunner::~ThreadPoolTaskRunner() {
+  // Running tasks can still post delayed tasks, so both runners need to be alive
+  // until all threads are stopped.
+  service_task_runner_.Stop();
+  delayed_task_runner_.Stop();
+}
 
 void ThreadPoolTaskRunner::PostDelayedTaskWithIterations(
     std::function<void()>&& task, const chrono::nanoseconds delay,
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index dcc2d62..334414a 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -95,6 +95,9 @@ class ThreadPoolTaskRunner : public TaskRunner {
                       std::chrono::nanoseconds keep_alive_time);
     ~DelayedTaskRunner();
 
+    // Waits for the running tasks and stops the threads.
+    void Stop();
+
     void PushTasks(NotNull<std::vector<internal::IterationItem>*> items);
     void PushTask(internal::IterationItem item);
 
@@ -128,6 +131,9 @@ class ThreadPoolTaskRunner : public TaskRunner {
         std::function<std::chrono::nanoseconds()>&& time_function);
     ~ServiceTaskRunner();
 
+    // Stops the service thread.
+    void Stop();
+
     void PushTask(std::function<void()>&& task, std::chrono::nanoseconds delay,
                   size_t iterations);
 
-- 
2.43.0


From 862fcc10effe0296b2baf9627abb9b142729fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 10/14] fix: do not overflow time points of tasks with very
 long delays

A delay or a keep-alive time near the maximum duration overflowed when it was
added to the current time, so such tasks could run at once.
---
 rst/task_runner/item.h                     |  9 +++++++++
 rst/task_runner/polling_task_runner.cc     |  2 +-
 rst/task_runner/thread_pool_task_runner.cc | 15 ++++++++++++---
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/rst/task_runner/item.h b/rst/task_runner/item.h
index 15587ed..2d3d93a 100644
--- a/rst/task_runner/item.h
+++ b/rst/task_runner/item.h
@@ -39,6 +39,15 @@
 namespace rst {
 namespace internal {
 
+// Returns |now| + |delay| or the maximum time point if it is not representable.
+inline std::chrono::nanoseconds GetTimePoint(
+    const std::chrono::nanoseconds now, const std::chrono::nanoseconds delay) {
+  constexpr auto kMax = std::chrono::nanoseconds::max();
+  if (now.count() > 0 && delay > kMax - now)
+    return kMax;
+  return now + delay;
+}
+
 // Used in implementations of TaskRunner interface to maintain an ordered queue
 // of tasks.
 struct Item {
diff --git a/rst/task_runner/polling_task_runner.cc b/rst/task_runner/polling_task_runner.cc
index e74c607..0b4dd04 100644
--- a/rst/task_runner/polling_task_runner.cc
+++ b/rst/task_runner/polling_task_runner.cc
@@ -48,7 +48,7 @@ void PollingTaskRunner::PostDelayedTaskWithIterations(
   RST_DCHECK(delay.count() >= 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetTimePoint(now, delay);
   std::lock_guard lock(mutex_);
   queue_.emplace_back(std::move(task), future_time_point, task_id_++,
                       iterations);
diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index aded350..5dd2081 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -36,10 +36,18 @@
 namespace chrono = std::chrono;
 
 namespace rst {
+namespace {
+
+// A condition variable adds the wait duration to the current time, so this keeps
+// the sum representable.
+constexpr chrono::nanoseconds kMaxWaitDuration = chrono::hours(24) * 365 * 100;
+
+}  // namespace
 
 ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
     const size_t max_threads_num, const chrono::nanoseconds keep_alive_time)
-    : max_threads_num_(max_threads_num), keep_alive_time_(keep_alive_time) {
+    : max_threads_num_(max_threads_num),
+      keep_alive_time_(std::min(keep_alive_time, kMaxWaitDuration)) {
   RST_DCHECK(max_threads_num > 0);
   RST_DCHECK(keep_alive_time.count() > 0);
 }
@@ -197,7 +205,8 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::WaitAndScheduleTasks() {
         const auto& item = delayed_tasks_.front();
         const auto now = time_function_();
         if (now < item.time_point) {
-          const auto wait_duration = item.time_point - now;
+          const auto wait_duration =
+              std::min(item.time_point - now, kMaxWaitDuration);
           thread_cv_.wait_for(lock, wait_duration);
         }
       } else {
@@ -236,7 +245,7 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::PushTask(
   RST_DCHECK(delay.count() > 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetTimePoint(now, delay);
   {
     std::lock_guard lock(thread_mutex_);
     delayed_tasks_.emplace_back(std::move(task), future_time_point, task_id_++,
-- 
2.43.0


From 1862bb1eb4a1c1d012bb78149f686bf197919826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 11/14] fix: do not convert dead pointers in WeakPtr

Converting an expired WeakPtr to a virtual base class used the freed object.
---
 rst/memory/weak_ptr.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rst/memory/weak_ptr.h b/rst/memory/weak_ptr.h
index 2345127..a5fc1f2 100644
--- a/rst/memory/weak_ptr.h
+++ b/rst/memory/weak_ptr.h
@@ -139,21 +139,25 @@ class WeakPtr {
 
   WeakPtr(const WeakPtr&) = default;
 
+  // Conversions don't use a pointer to a dead object since even an implicit
+  // conversion to a virtual base class needs to access the object.
   template <class U>
-  WeakPtr(const WeakPtr<U>& other) : flag_(other.flag_), ptr_(other.ptr_) {}
+  WeakPtr(const WeakPtr<U>& other)
+      : flag_(other.flag_), ptr_(other.GetNullable()) {}
 
   WeakPtr(WeakPtr&&) noexcept = default;
 
   template <class U>
-  WeakPtr(WeakPtr<U>&& other) noexcept
-      : flag_(std::move(other.flag_)), ptr_(other.ptr_) {}
+  WeakPtr(WeakPtr<U>&& other) noexcept : ptr_(other.GetNullable()) {
+    flag_ = std::move(other.flag_);
+  }
 
   WeakPtr& operator=(const WeakPtr&) = default;
 
   template <class U>
   WeakPtr& operator=(const WeakPtr<U>& rhs) {
+    ptr_ = rhs.GetNullable();
     flag_ = rhs.flag_;
-    ptr_ = rhs.ptr_;
     return *this;
   }
 
@@ -161,8 +165,8 @@ class WeakPtr {
 
   template <class U>
   WeakPtr& operator=(WeakPtr<U>&& rhs) noexcept {
+    ptr_ = rhs.GetNullable();
     flag_ = std::move(rhs.flag_);
-    ptr_ = rhs.ptr_;
     return *this;
   }
 
-- 
2.43.0


From bb89abb34f4d4b5605c189d91c9bbb774df063c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 12/14] fix: do not overflow the output of Format() before
 rejecting extra arguments

---
 rst/strings/format.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rst/strings/format.cc b/rst/strings/format.cc
index afc7c85..39a11cc 100644
--- a/rst/strings/format.cc
+++ b/rst/strings/format.cc
@@ -48,8 +48,8 @@ std::string FormatAndReturnString(const NotNull<const char*> not_null_format,
     RST_DCHECK(values != nullptr);
     new_size += values[i].size();
   }
-  RST_DCHECK(new_size >= size * 2);
-  new_size -= size * 2;
+  // Placeholders are not subtracted: with fewer of them than arguments the
+  // format string itself would not fit.
 
   std::string output;
   StringResizeUninitialized(&output, new_size);
-- 
2.43.0


From a9cfba581915e81f8964983c8bd373a87b9acbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 13/14] fix: compare nested values in linear time

Comparing two arrays or objects compared each pair of elements in both
directions, so the time doubled with every nesting level and comparing two
equal values nested some forty levels deep practically never returned.
---
 rst/value/value.cc | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 895c2e4..9ef7399 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -327,6 +327,43 @@ bool operator==(const Value& lhs, const Value& rhs) {
   return false;
 }
 
+namespace {
+
+// Returns a negative, zero or positive number. Visits every element only once,
+// since comparing each of them in both directions takes exponential time for
+// nested arrays and objects.
+int Compare(const Value& lhs, const Value& rhs) {
+  if (lhs.type() == rhs.type() && lhs.IsArray()) {
+    const auto& l = lhs.GetArray();
+    const auto& r = rhs.GetArray();
+    auto i = l.cbegin();
+    auto j = r.cbegin();
+    for (; i != l.cend() && j != r.cend(); ++i, ++j) {
+      if (const auto result = Compare(*i, *j); result != 0)
+        return result;
+    }
+    return static_cast<int>(i != l.cend()) - static_cast<int>(j != r.cend());
+  }
+
+  if (lhs.type() == rhs.type() && lhs.IsObject()) {
+    const auto& l = lhs.GetObject();
+    const auto& r = rhs.GetObject();
+    auto i = l.cbegin();
+    auto j = r.cbegin();
+    for (; i != l.cend() && j != r.cend(); ++i, ++j) {
+      if (const auto result = i->first.compare(j->first); result != 0)
+        return result;
+      if (const auto result = Compare(i->second, j->second); result != 0)
+        return result;
+    }
+    return static_cast<int>(i != l.cend()) - static_cast<int>(j != r.cend());
+  }
+
+  return static_cast<int>(rhs < lhs) - static_cast<int>(lhs < rhs);
+}
+
+}  // namespace
+
 bool operator<(const Value& lhs, const Value& rhs) {
   if (lhs.type_ != rhs.type_)
     return lhs.type_ < rhs.type_;
@@ -346,10 +383,10 @@ bool operator<(const Value& lhs, const Value& rhs) {
       return lhs.get_string() < rhs.get_string();
     }
     case Value::Type::kArray: {
-      return lhs.get_array() < rhs.get_array();
+      return Compare(lhs, rhs) < 0;
     }
     case Value::Type::kObject: {
-      return lhs.get_object() < rhs.get_object();
+      return Compare(lhs, rhs) < 0;
     }
   }
 
-- 
2.43.0


From 3e5762ec2a137ec576ca24c159802c918c6d5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 14/14] fix: branch hints follow conditions that are not
 representable as long

---
 rst/macros/optimization.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rst/macros/optimization.h b/rst/macros/optimization.h
index 6e71525..44f266d 100644
--- a/rst/macros/optimization.h
+++ b/rst/macros/optimization.h
@@ -67,7 +67,8 @@
 #define RST_LIKELY_EQ(x, val) (static_cast<void>(val), x)
 #endif  // defined(__GNUC__) || defined(__clang__)
 
-#define RST_LIKELY(x) RST_LIKELY_EQ(x, 1)
-#define RST_UNLIKELY(x) RST_LIKELY_EQ(x, 0)
+// Conditions are compared as bool, since an integer type narrows them.
+#define RST_LIKELY(x) RST_LIKELY_EQ(!!(x), 1)
+#define RST_UNLIKELY(x) RST_LIKELY_EQ(!!(x), 0)
 
 #endif  // RST_MACROS_OPTIMIZATION_H_
-- 
2.43.0

