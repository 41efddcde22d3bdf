From bef9c09d83e22f4f4b78bf9c3d9d80cdf5ec9f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 01/45] fix: dynamic engine waits for every dispatched element
 before run() returns

---
 .../GDynamicEngine/GDynamicEngine.cpp         | 89 ++++++++-----------
 .../_GEngine/GDynamicEngine/GDynamicEngine.h  | 17 +++-
 2 files changed, 50 insertions(+), 56 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index 5bf8a5b..a3d2182 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -54,11 +54,12 @@ CVoid GDynamicEngine::commonRunAll() {
      * 2. 在element执行完成之后，进行裂变，直到所有的element执行完成
      * 3. 等待异步执行结束
      */
-    finished_end_size_.store(0, std::memory_order_release);
+    retain(1);    // 派发的过程中，当前线程也持有一份计数，避免提前结束
     for (auto* element : front_element_arr_) {
         process(element, element == front_element_arr_.back());
     }
 
+    release();
     fatWait();
 }
 
@@ -130,8 +131,10 @@ CVoid GDynamicEngine::process(GElementPtr element, const CBool affinity) {
         // 如果 affinity=true，表示用当前的线程，执行这个逻辑。以便增加亲和性
         innerExec(element);
     } else {
+        in_flight_num_.fetch_add(1, std::memory_order_relaxed);
         thread_pool_->execute([this, element] {
-            this->innerExec(element); }, element->binding_index_);
+            this->innerExec(element);
+            this->release(); }, element->binding_index_);
     }
 }
 
@@ -142,12 +145,9 @@ CVoid GDynamicEngine::innerExec(GElementPtr element) {
     if (likely(curStatus.isNotErr())) {
         afterElementRun(element);
     } else {
-        // 遇到异常情况，结束整体逻辑
-        {
-            CGRAPH_LOCK_GUARD lk(status_lock_);
-            cur_status_ += curStatus;
-        }
-        locker_.cv_.notify_one();
+        // 遇到异常情况，不再触发后续逻辑。等到正在执行的element全部结束之后，结束整体逻辑
+        CGRAPH_LOCK_GUARD lk(status_lock_);
+        cur_status_ += curStatus;
     }
 }
 
@@ -184,20 +184,12 @@ CVoid GDynamicEngine::afterElementRun(GElementPtr element) {
             }
             break;
         case internal::GElementShape::TAIL:
-            {
-                const auto curEndSize = finished_end_size_.fetch_add(1, std::memory_order_acq_rel) + 1;
-                if (curEndSize == total_end_size_) {
-                    CGRAPH_LOCK_GUARD lock(locker_.mtx_);
-                    locker_.cv_.notify_one();
-                }
-            }
             break;
         default:
             {
                 CGRAPH_LOCK_GUARD lk(status_lock_);
                 cur_status_.setErrorInfo("element shape type error");
             }
-            locker_.cv_.notify_one();
             break;
     }
 }
@@ -205,29 +197,39 @@ CVoid GDynamicEngine::afterElementRun(GElementPtr element) {
 
 CVoid GDynamicEngine::fatWait() {
     const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
-    for (CInt i = 0; i < epoch; i++) {
+    for (CInt i = 0; i < epoch && !finished_.load(std::memory_order_acquire); i++) {
         // 对于 pipeline 运行耗时很短的情况，在 进入 cv.wait() 之前，轮询等到一会
-        // 如果遇到 isErr() 的情况，还是走进入 mutex 的逻辑
-        if (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) {
-            return;
-        }
         CGRAPH_YIELD();
     }
 
+    /**
+     * 无论是正常结束，还是出现异常，均需等待所有已经派发的element执行结束。
+     * 且必须在持有锁的情况下离开，确保最后一个执行的线程，不会再使用当前engine的信息
+     */
     CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
     locker_.cv_.wait(lock, [this] {
-        /**
-         * 遇到以下条件之一，结束执行：
-         * 1，执行结束
-         * 2，状态异常
-         */
-        return (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) || cur_status_.isErr();
+        return finished_.load(std::memory_order_acquire);
     });
 }
 
 
+CVoid GDynamicEngine::retain(const CSize size) {
+    finished_.store(false, std::memory_order_release);
+    in_flight_num_.store(size, std::memory_order_release);
+}
+
+
+CVoid GDynamicEngine::release() {
+    if (1 == in_flight_num_.fetch_sub(1, std::memory_order_acq_rel)) {
+        CGRAPH_LOCK_GUARD lock(locker_.mtx_);
+        finished_.store(true, std::memory_order_release);
+        locker_.cv_.notify_one();
+    }
+}
+
+
 CVoid GDynamicEngine::parallelRunAll() {
-    parallel_run_num_ = 0;
+    retain(total_end_size_);
     const CIndex& totalSize = static_cast<CIndex>(parallel_element_matrix_.size());
     for (CIndex i = 0; i < totalSize; i++) {
         auto& curArr = parallel_element_matrix_[i];
@@ -250,41 +252,20 @@ CVoid GDynamicEngine::parallelRunAll() {
         (void)thread_pool_->wakeupAllThread();
     }
 
-    const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
-    for (CInt i = 0; i < epoch; i++) {
-        if (parallel_run_num_ >= total_end_size_) {
-            return;
-        }
-        CGRAPH_YIELD();
-    }
-
-    {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.wait(lock, [this] {
-            return (parallel_run_num_ >= total_end_size_ || cur_status_.isErr());
-        });
-    }
+    fatWait();
 }
 
 
 CVoid GDynamicEngine::parallelRunOne(GElementPtr element) {
-    if (unlikely(cur_status_.isErr())) {
-        return;
-    }
-
-    const auto& status = element->fatProcessor(CFunctionType::RUN);
-    if (unlikely(status.isErr())) {
-        {
+    if (likely(cur_status_.isNotErr())) {
+        const auto& status = element->fatProcessor(CFunctionType::RUN);
+        if (unlikely(status.isErr())) {
             CGRAPH_LOCK_GUARD lk(status_lock_);
             cur_status_ += status;
         }
     }
 
-    const auto finishedSize = parallel_run_num_.fetch_add(1, std::memory_order_release) + 1;
-    if (finishedSize >= total_end_size_ || cur_status_.isErr()) {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.notify_one();
-    }
+    release();    // 无论是否执行，都需要释放对应的计数
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index 92dd02d..3f62cab 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -78,6 +78,19 @@ protected:
     */
     CVoid fatWait();
 
+    /**
+     * 开始执行前，设置需要等待的任务个数
+     * @param size
+     * @return
+     */
+    CVoid retain(CSize size);
+
+    /**
+     * 单个任务（及其触发的逻辑）结束。全部结束时，通知等待的线程
+     * @return
+     */
+    CVoid release();
+
     /**
      * 并发的执行所有的element
      * @return
@@ -107,9 +120,9 @@ private:
     GElementPtrArr total_element_arr_ {};                                                // pipeline中所有的元素信息集合
     GElementPtrArr front_element_arr_ {};                                                // 没有依赖的元素信息
     CSize total_end_size_ = 0;                                                           // 图结束节点数量
-    std::atomic<CSize> finished_end_size_ {0};                                        // 执行结束节点数量
+    std::atomic<CSize> in_flight_num_ {0};                                            // 已经派发、且尚未结束的任务数量
+    std::atomic<CBool> finished_ {true};                                              // 本次执行是否已经全部结束
     CStatus cur_status_ {};                                                              // 当前全局的状态信息
-    std::atomic<CSize> parallel_run_num_ {0};                                         // 纯并行时，执行的个数信息
     GElementPtrMat2D parallel_element_matrix_ {};                                        // 纯并行时，记录分解后的数据
     internal::GEngineDagType dag_type_ = { internal::GEngineDagType::COMMON };           // 当前元素的排布形式
 
-- 
2.43.0


From ee4b9b862adabe7b5aa372a08e51cda805ef7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 02/45] fix: crash status raised by topo/static engine no
 longer escapes pipeline run

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 39f97ed..8b88bd9 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -69,7 +69,12 @@ CStatus GPipeline::run() {
     status += param_manager_->setup();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status = element_manager_->run();
+    try {
+        status = element_manager_->run();
+    } catch (const CException& ex) {
+        // 部分引擎会将 element 的崩溃信息，以异常的形式抛出。这里统一转成返回值，确保后续的复原流程正常执行
+        status = CStatus(internal::STATUS_CRASH, ex.what());
+    }
     status += repository_.reset();    // 等异步的逻辑执行，并且获取异步执行的结果信息
     status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束
     param_manager_->resetWithStatus(status);
-- 
2.43.0


From 506eb678a09de7b0b7a8f7d5184fa4f3ae62426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 03/45] fix: status passed to CGRAPH_THROW_EXCEPTION_BY_STATUS
 is evaluated once

---
 src/CBasic/CFuncType.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CBasic/CFuncType.h b/src/CBasic/CFuncType.h
index 9a8cad6..6d30376 100644
--- a/src/CBasic/CFuncType.h
+++ b/src/CBasic/CFuncType.h
@@ -74,8 +74,11 @@ enum class CFunctionType {
 
 /** 在异常状态的情况下，抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_STATUS(status)                        \
-    if (unlikely((status).isErr())) {                                   \
-        CGRAPH_THROW_EXCEPTION((status).getInfo()); }                   \
+    {                                                                   \
+        const auto& throwStatus = (status);                             \
+        if (unlikely(throwStatus.isErr())) {                            \
+            CGRAPH_THROW_EXCEPTION(throwStatus.getInfo()); }            \
+    }                                                                   \
 
 /** 根据条件判断是否抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_CONDITION(cond, info)                 \
-- 
2.43.0


From 7225afbe90057e97e12491b01ebc77532baa57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 04/45] fix: parallel multi condition evaluates every match
 before starting elements

---
 .../GraphElement/GGroup/GCondition/GMultiCondition.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
index 3c32bbd..868e7d8 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
+++ b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
@@ -62,12 +62,16 @@ CStatus GMultiCondition<type>::serialRun() {
 template<GMultiConditionType type>
 CStatus GMultiCondition<type>::parallelRun() {
     CGRAPH_FUNCTION_BEGIN
-    std::vector<std::future<CStatus> > futures;
+    // 先判断所有的条件信息，再统一执行。防止 isMatch() 中出现异常的时候，仍有 element 在执行
+    GElementPtrArr matched;
     for (auto* cur : this->children_) {
-        if (!cur->isMatch()) {
-            continue;    // 不满足条件，则不执行
+        if (cur->isMatch()) {
+            matched.emplace_back(cur);
         }
+    }
 
+    std::vector<std::future<CStatus> > futures;
+    for (auto* cur : matched) {
         futures.emplace_back(std::move(this->thread_pool_->commit([cur] {
             return cur->fatProcessor(CFunctionType::RUN);
         }, cur->binding_index_)));
-- 
2.43.0


From 974cc9d971e5087ef32fea0cb46c401fa45833ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 05/45] fix: mutable group does not execute when its structure
 is rejected

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 34a49bb..0fadc57 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -180,6 +180,8 @@ CStatus GElementManager::process(const GSortedGElementPtrSet& elements) {
 
     // 主要是给 mutable 使用
     status += engine_->setup(elements);
+    CGRAPH_FUNCTION_CHECK_STATUS    // 结构解析失败，则不可以按照之前的结构继续执行
+
     status += run();
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From 6906df51c7bbe2862efa5dcc286ddfa1af27d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 06/45] fix: makeSerial rejects a chain whose elements are
 bound to different threads

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 0fadc57..20b32d0 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -147,6 +147,7 @@ CBool GElementManager::checkSerializable() {
      * 2. 当前element，不超过1个前驱或者后继
      * 3. 有且仅有一个起点，一个终点
      * 4. 有超时逻辑
+     * 5. 前后element，绑定的线程信息一致
      */
     int frontSize = 0, tailSize = 0;
     for (auto& cur : manager_elements_) {
@@ -157,6 +158,10 @@ CBool GElementManager::checkSerializable() {
             return false;
         }
 
+        if (!cur->run_before_.empty() && cur->binding_index_ != cur->run_before_.front()->binding_index_) {
+            return false;    // 前后绑定信息不一致的情况，需要切换线程执行
+        }
+
         if (cur->dependence_.empty()) {
             frontSize++;
         }
-- 
2.43.0


From a1ba6ae9582c3193b7863e5d7c4ea9c5153af369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 07/45] fix: parameter lookup is safe while another element
 creates a parameter

---
 src/GraphCtrl/GraphParam/GParamManager.cpp | 1 +
 src/GraphCtrl/GraphParam/GParamManager.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphParam/GParamManager.cpp b/src/GraphCtrl/GraphParam/GParamManager.cpp
index 51442d8..4cc087f 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.cpp
+++ b/src/GraphCtrl/GraphParam/GParamManager.cpp
@@ -114,6 +114,7 @@ CStatus GParamManager::__create_4py(GParamPtr param, const std::string& key) {
 
 
 GParamPtr GParamManager::__get_4py(const std::string& key) {
+    CGRAPH_LOCK_GUARD lock(this->mutex_);
     const auto& iter = params_map_.find(key);
     if (iter == params_map_.end()) {
         return nullptr;
diff --git a/src/GraphCtrl/GraphParam/GParamManager.inl b/src/GraphCtrl/GraphParam/GParamManager.inl
index 09b2026..caefd86 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.inl
+++ b/src/GraphCtrl/GraphParam/GParamManager.inl
@@ -39,6 +39,7 @@ CStatus GParamManager::create(const std::string& key, CBool backtrace) {
 template<typename T,
         c_enable_if_t<std::is_base_of<GParam, T>::value, int>>
 T* GParamManager::get(const std::string& key) {
+    CGRAPH_LOCK_GUARD lock(this->mutex_);    // 可能有其他的element，正在创建或删除参数
     const auto& iter = params_map_.find(key);
     if (iter == params_map_.end()) {
         return nullptr;
-- 
2.43.0


From 8dca30aafb7895ac2d3f4bdadc87bf2cec38c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 08/45] fix: stage releases every waiter of a round exactly
 once

---
 src/GraphCtrl/GraphStage/GStage.cpp | 7 +++++--
 src/GraphCtrl/GraphStage/GStage.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphStage/GStage.cpp b/src/GraphCtrl/GraphStage/GStage.cpp
index d0d2197..6b0427b 100644
--- a/src/GraphCtrl/GraphStage/GStage.cpp
+++ b/src/GraphCtrl/GraphStage/GStage.cpp
@@ -37,12 +37,15 @@ CVoid GStage::waiting() {
         // 如果超过了 threshold，则打开全部
         launch(param_);
         cur_value_ = 0;
+        round_++;
         locker_.cv_.notify_all();
         return;
     }
 
-    locker_.cv_.wait(lk, [this] {
-        return 0 == cur_value_ || cur_value_ >= threshold_;
+    // 以轮次来判断是否放行，防止有线程提前进入下一轮，导致本轮的线程无法被唤醒
+    const auto curRound = round_;
+    locker_.cv_.wait(lk, [this, curRound] {
+        return curRound != round_;
     });
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStage.h b/src/GraphCtrl/GraphStage/GStage.h
index fdc26db..3bc00d9 100644
--- a/src/GraphCtrl/GraphStage/GStage.h
+++ b/src/GraphCtrl/GraphStage/GStage.h
@@ -61,6 +61,7 @@ private:
 private:
     CInt threshold_ { 0 };                // 阈值信息
     CInt cur_value_ { 0 };                // 当前值
+    CSize round_ { 0 };                   // 当前轮次，每次打开的时候累加
     GStageParamPtr param_ { nullptr };    // 参数信息
     UCvMutex locker_;
 
-- 
2.43.0


From 538afa4d91e782ae09241252876b03e7fdf115ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 09/45] fix: stage releases the waiting threads when its launch
 function throws

---
 src/GraphCtrl/GraphStage/GStage.cpp | 19 +++++++++++++++----
 src/GraphCtrl/GraphStage/GStage.h   |  6 ++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphStage/GStage.cpp b/src/GraphCtrl/GraphStage/GStage.cpp
index 6b0427b..503a536 100644
--- a/src/GraphCtrl/GraphStage/GStage.cpp
+++ b/src/GraphCtrl/GraphStage/GStage.cpp
@@ -30,15 +30,26 @@ GStagePtr GStage::setThreshold(CInt threshold) {
 }
 
 
+CVoid GStage::open() {
+    cur_value_ = 0;
+    round_++;
+    locker_.cv_.notify_all();
+}
+
+
 CVoid GStage::waiting() {
     CGRAPH_UNIQUE_LOCK lk(locker_.mtx_);
     cur_value_++;
     if (cur_value_ >= threshold_) {
         // 如果超过了 threshold，则打开全部
-        launch(param_);
-        cur_value_ = 0;
-        round_++;
-        locker_.cv_.notify_all();
+        try {
+            launch(param_);
+        } catch (...) {
+            // launch 异常的时候，也需要放行本轮等待的线程
+            open();
+            throw;
+        }
+        open();
         return;
     }
 
diff --git a/src/GraphCtrl/GraphStage/GStage.h b/src/GraphCtrl/GraphStage/GStage.h
index 3bc00d9..5aa2650 100644
--- a/src/GraphCtrl/GraphStage/GStage.h
+++ b/src/GraphCtrl/GraphStage/GStage.h
@@ -54,6 +54,12 @@ private:
      */
     CVoid waiting();
 
+    /**
+     * 放行本轮等待的所有线程，调用前需要加锁
+     * @return
+     */
+    CVoid open();
+
     CGRAPH_DECLARE_GPARAM_MANAGER_WRAPPER_WITH_MEMBER
 
     CGRAPH_NO_ALLOWED_COPY(GStage)
-- 
2.43.0


From c539e4efbf20f3174678028e331cc29b8984eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 10/45] fix: timer stop does not get lost and wait for a full
 interval

---
 src/UtilsCtrl/Timer/UTimer.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/UtilsCtrl/Timer/UTimer.h b/src/UtilsCtrl/Timer/UTimer.h
index f85c715..4bf7816 100644
--- a/src/UtilsCtrl/Timer/UTimer.h
+++ b/src/UtilsCtrl/Timer/UTimer.h
@@ -45,8 +45,9 @@ public:
         future_ = std::async(std::launch::async, [this, task, modify]() {
              while (!is_stop_) {
                  CGRAPH_UNIQUE_LOCK lk(mutex_);
-                 auto result = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_));
-                 if (std::cv_status::timeout == result && !is_stop_) {
+                 const bool isStop = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_),
+                                                  [this] { return is_stop_.load(); });
+                 if (!isStop) {
                      CMSec start = CGRAPH_GET_CURRENT_MS();
                      task();
                      CMSec ms = modify();
@@ -75,8 +76,12 @@ public:
      * 关闭定时器
      */
     CVoid stop() {
-        if (is_stop_.exchange(true)) {
-            return;
+        {
+            // 加锁修改，确保不会在定时器判断状态和进入等待之间，丢失通知
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            if (is_stop_.exchange(true)) {
+                return;
+            }
         }
 
         cv_.notify_one();
-- 
2.43.0


From b3e45ff5efc8dcfecc63532d53fd4416d0e70c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 11/45] fix: pipeline destroy waits for asynchronous events
 before its thread pool is destroyed

---
 src/GraphCtrl/GraphEvent/GEventManager.cpp | 8 ++++++++
 src/GraphCtrl/GraphEvent/GEventManager.h   | 6 ++++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp  | 9 ++++++++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphEvent/GEventManager.cpp b/src/GraphCtrl/GraphEvent/GEventManager.cpp
index 032f9fa..7eda495 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.cpp
+++ b/src/GraphCtrl/GraphEvent/GEventManager.cpp
@@ -90,6 +90,14 @@ CStatus GEventManager::reset() {
 }
 
 
+CVoid GEventManager::asyncWait() {
+    for (auto& iter : events_map_) {
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
+    }
+}
+
+
 CStatus GEventManager::__create_4py(GEventPtr event, const std::string& key) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(event)
diff --git a/src/GraphCtrl/GraphEvent/GEventManager.h b/src/GraphCtrl/GraphEvent/GEventManager.h
index cffa85b..b05480f 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.h
+++ b/src/GraphCtrl/GraphEvent/GEventManager.h
@@ -66,6 +66,12 @@ protected:
 
     CStatus reset() final;
 
+    /**
+     * 等待所有需要等待的异步事件执行结束
+     * @return
+     */
+    CVoid asyncWait();
+
     CGRAPH_NO_ALLOWED_COPY(GEventManager)
 
 private:
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 8b88bd9..dd74d97 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -88,6 +88,13 @@ CStatus GPipeline::destroy() {
     CGRAPH_ASSERT_INIT(true)
     CGRAPH_ASSERT_NOT_NULL(element_manager_, param_manager_, daemon_manager_, event_manager_, stage_manager_)
 
+    /**
+     * 先停止所有的daemon，并且等待所有需要等待的异步event执行结束。
+     * 这两者均依赖线程池，需要在线程池析构之前完成
+     */
+    const CStatus daemonStatus = daemon_manager_->destroy();
+    event_manager_->asyncWait();
+
     /**
      * 需要先将线程池相关内容析构，然后再做destroy。
      * 否则的话，在错误status累积的情况下，在windows平台上，会产生崩溃
@@ -97,7 +104,7 @@ CStatus GPipeline::destroy() {
     CGRAPH_FUNCTION_CHECK_STATUS
 
     status += event_manager_->destroy();
-    status += daemon_manager_->destroy();
+    status += daemonStatus;
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
-- 
2.43.0


From 31b169365aecb3552440348e21068f8381f5b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 12/45] fix: cancel, suspend and resume take effect on all
 elements at once and lose no execution

---
 src/GraphCtrl/GraphElement/GElement.cpp       | 24 ++++++++++++++++---
 src/GraphCtrl/GraphElement/GElement.h         |  7 ++++++
 .../GraphElement/GElementRepository.cpp       | 21 ++++++++--------
 .../GraphElement/GElementRepository.h         |  6 ++++-
 4 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index cb35007..7dcabc4 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -239,7 +239,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                     is_prepared_ = true;
                 }
 
-                for (CSize i = 0; i < this->loop_ && status.isOK() && GElementState::NORMAL == this->getCurState(); i++) {
+                for (CSize i = 0; i < this->loop_ && status.isOK() && this->isRunnable(); i++) {
                     /** 执行带切面的run方法 */
                     status += doAspect(internal::GAspectType::BEGIN_RUN);
                     CGRAPH_FUNCTION_CHECK_STATUS
@@ -439,17 +439,28 @@ CVoid GElement::dumpPerfInfo(std::ostream& oss) const {
 
 
 CVoid GElement::checkSuspend() {
-    if (GElementState::SUSPEND != cur_state_.load(std::memory_order_acquire)) {
+    if (GElementState::SUSPEND != getCurState()) {
         return;
     }
 
     std::unique_lock<std::mutex> lk(suspend_locker_.mtx_);
     this->suspend_locker_.cv_.wait(lk, [this] {
-        return GElementState::SUSPEND != cur_state_.load(std::memory_order_acquire);
+        return GElementState::SUSPEND != getCurState();
     });
 }
 
 
+CBool GElement::isRunnable() {
+    // 如果在开始执行之前，就已经被暂停，则等待恢复之后再执行，而不是跳过执行
+    auto state = getCurState();
+    while (GElementState::SUSPEND == state) {
+        checkSuspend();
+        state = getCurState();
+    }
+    return GElementState::NORMAL == state;
+}
+
+
 CBool GElement::isGGroup() const {
     // 按位与 GROUP有值，表示是 GROUP的逻辑
     return (static_cast<long>(element_type_) & static_cast<long>(GElementType::GROUP)) > 0;
@@ -472,6 +483,13 @@ GElementState GElement::getCurState() const {
      * 否则就是当前的状态
      */
     auto state = this->isTimeout() ? GElementState::TIMEOUT : cur_state_.load(std::memory_order_acquire);
+    if (GElementState::NORMAL == state && nullptr != global_state_) {
+        /**
+         * 整体状态先于各个 element 的状态被修改。
+         * 确保不会出现前驱已经被取消，后继却还在执行的情况
+         */
+        state = global_state_->load(std::memory_order_acquire);
+    }
     return state;
 }
 
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 1741d1a..dd4d30f 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -387,6 +387,12 @@ private:
      */
     CVoid checkSuspend();
 
+    /**
+     * 判断当前是否可以执行。如果处于 suspend 状态，则等待恢复之后再判断
+     * @return
+     */
+    CBool isRunnable();
+
     /**
      * 判断当前元素，是否可以线性执行。默认返回true
      * @return
@@ -444,6 +450,7 @@ private:
     CBool is_init_ { false };                                                 // 判断是否init
     GElementType element_type_ { GElementType::ELEMENT };                     // 用于区分element 内部类型
     std::atomic<GElementState> cur_state_ { GElementState::NORMAL };       // 当前执行状态
+    const std::atomic<GElementState>* global_state_ { nullptr };              // 所属pipeline的整体执行状态
     internal::GElementShape shape_ { internal::GElementShape::NORMAL };       // 元素位置类型
 
     /** 配置相关信息 */
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 40fc749..7ca814f 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -61,18 +61,23 @@ CStatus GElementRepository::reset() {
 
 CStatus GElementRepository::pushAllState(const GElementState& state) {
     CGRAPH_FUNCTION_BEGIN
-    if (cur_state_ == state) {
+    CGRAPH_LOCK_GUARD lock(state_lock_);
+    if (cur_state_.load(std::memory_order_acquire) == state) {
         return status;    // 避免重复赋值
     }
 
+    cur_state_.store(state, std::memory_order_release);    // 记录当前的状态信息
     for (auto& cur : elements_) {
-        cur->cur_state_.store(state, std::memory_order_release);
+        {
+            // 加锁修改，防止 element 在判断状态和进入等待之间，丢失通知
+            CGRAPH_LOCK_GUARD suspendLock(cur->suspend_locker_.mtx_);
+            cur->cur_state_.store(state, std::memory_order_release);
+        }
         if (GElementState::SUSPEND != state) {
             // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
-            cur->suspend_locker_.cv_.notify_one();
+            cur->suspend_locker_.cv_.notify_all();
         }
     }
-    cur_state_ = state;    // 记录当前的状态信息
     CGRAPH_FUNCTION_END
 }
 
@@ -103,12 +108,7 @@ CVoid GElementRepository::fetch(GElementPtr element) {
 
 
 CBool GElementRepository::isCancelState() const {
-    /**
-     * 因为每次执行的时候，都需要判断一下这个状态是否为 cancel
-     * 且理论上不会出现多线程问题
-     * 故这一层的 cur_state_ 就不设置为atomic类型的了
-     */
-    return GElementState::CANCEL == cur_state_;
+    return GElementState::CANCEL == cur_state_.load(std::memory_order_acquire);
 }
 
 
@@ -125,6 +125,7 @@ CStatus GElementRepository::init() {
         status = element->checkSuitable();
         CGRAPH_FUNCTION_CHECK_STATUS
         element->updateAspectInfo();
+        element->global_state_ = &cur_state_;
 
         if (element->isAsync()) {
             async_elements_.emplace(element);
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 1b6cf17..7152f18 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -9,6 +9,9 @@
 #ifndef CGRAPH_GELEMENTREPOSITORY_H
 #define CGRAPH_GELEMENTREPOSITORY_H
 
+#include <atomic>
+#include <mutex>
+
 #include "GElementObject.h"
 #include "GElement.h"
 #include "GElementManager.h"
@@ -89,7 +92,8 @@ private:
 
 private:
     GElementPtrSet elements_ {};                                    // 用于记录所有的element信息
-    GElementState cur_state_ { GElementState::NORMAL };             // 当前状态信息
+    std::atomic<GElementState> cur_state_ { GElementState::NORMAL };    // 当前状态信息
+    std::mutex state_lock_;                                         // 确保多线程切换状态的时候，各element的状态保持一致
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
 
     friend class GPipeline;
-- 
2.43.0


From 2eccc09c6e83c4b7f5ac9e4dad1bfdfe0e782052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 13/45] fix: cancel between two rounds of process() is not
 overwritten

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 14 +++++++++++++-
 src/GraphCtrl/GraphPipeline/GPipeline.h   |  6 ++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index dd74d97..aab8130 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -66,6 +66,15 @@ CStatus GPipeline::run() {
      * 6. 将所有的 GParam 复原
      */
     status += repository_.setup();
+    CGRAPH_FUNCTION_CHECK_STATUS
+
+    status = innerRun();
+    CGRAPH_FUNCTION_END
+}
+
+
+CStatus GPipeline::innerRun() {
+    CGRAPH_FUNCTION_BEGIN
     status += param_manager_->setup();
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -127,8 +136,11 @@ CStatus GPipeline::process(CSize runTimes) {
          * 1. 执行轮数（runTimes）没有结束
          * 2. 执行结果正常
          * 3. 没有进入取消状态
+         *
+         * init 的时候，已经将所有 GElement 的状态设定为 NORMAL。
+         * 这里不再重复设定，防止在两轮执行之间的取消操作，被覆盖掉
          */
-        status += run();
+        status += innerRun();
     }
 
     status += destroy();
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index 494b9c2..e54932d 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -426,6 +426,12 @@ private:
      */
     CStatus initEnv();
 
+    /**
+     * 执行一次pipeline的逻辑，不修改 GElement 的状态信息
+     * @return
+     */
+    CStatus innerRun();
+
     /**
      * 内部真实一个 element 信息
      * @param element
-- 
2.43.0


From 45c98bc08ff77c37a0e03e3401ab62e170d7fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 14/45] fix: a task put into the shared queue of the thread
 pool wakes a sleeping thread

---
 .../ThreadPool/Thread/UThreadPrimary.h        | 19 +++++++++++++++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      |  9 +++++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.h        |  6 ++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.inl      |  2 ++
 4 files changed, 36 insertions(+)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h
index d7bc5f3..8f9c53c 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h
@@ -132,6 +132,25 @@ protected:
     }
 
 
+    /**
+     * 如果当前线程在休眠，则唤醒当前线程
+     * @return
+     */
+    CBool wakeup() {
+        {
+            // 加锁判断，防止在线程准备进入休眠的时候，丢失通知
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            if (is_running_.load(std::memory_order_relaxed)) {
+                return false;
+            }
+            is_running_ = true;
+            cur_empty_epoch_ = 0;
+        }
+        cv_.notify_one();
+        return true;
+    }
+
+
     /**
      * 依次push到队列里。如果失败，则yield，然后重新push
      * @param task
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 3233d75..53d7d09 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -272,6 +272,15 @@ CVoid UThreadPool::monitor() {
 }
 
 
+CVoid UThreadPool::wakeupOneThread() {
+    for (auto* pt : primary_threads_) {
+        if (pt->wakeup()) {
+            break;
+        }
+    }
+}
+
+
 CSize UThreadPool::wakeupAllThread() {
     CSize size = 0;
     if (wakeup_mutex_.try_lock()) {
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 801f49a..7e4f6b8 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -177,6 +177,12 @@ public:
      */
     CStatus releaseSecondaryThread(CInt size);
 
+    /**
+     * 通知一个休眠中的主线程开启，用于执行 pool 通用任务队列中的任务
+     * @return
+     */
+    CVoid wakeupOneThread();
+
     /**
      * 通知所有thread 开启
      * @return
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 850b6f8..b83ceb6 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -67,6 +67,7 @@ CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
         (void)wakeupAllThread();
     } else {
         task_queue_.push(std::forward<FunctionType>(task));
+        wakeupOneThread();
     }
 }
 
@@ -78,6 +79,7 @@ CVoid UThreadPool::executeWithTid(FunctionType&& task, CIndex tid, CBool enable,
     } else {
         // 如果超出主线程的范围，则默认写入 pool 通用的任务队列中
         task_queue_.push(std::forward<FunctionType>(task));
+        wakeupOneThread();
     }
 }
 
-- 
2.43.0


From cf579c8f3d6604f5a426668c74dbb4b04bc8fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 15/45] fix: late result of an asynchronous element is handled
 once, by every waiter and only in its run

A late exception of a HOLD_BY_PIPELINE element escaped GPipeline::run, two
fences waiting for the same element used one std::future concurrently, and a
result which nobody fetched was reported by the next run.
---
 src/GraphCtrl/GraphElement/GElement.cpp           | 9 ++++++---
 src/GraphCtrl/GraphElement/GElement.h             | 2 +-
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 9 ++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 7dcabc4..82c2c80 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -560,7 +560,9 @@ CStatus GElement::asyncRun() {
 
     const auto& futStatus = async_result_.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
-        status = getAsyncResult();
+        // 按时执行结束的，当场就获取了结果信息。后续不需要再次获取
+        const auto result = std::move(async_result_);
+        status = result.get();
     } else {
         doAspect(internal::GAspectType::ENTER_TIMEOUT);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION( GElementTimeoutStrategy::AS_ERROR == timeout_strategy_,    \
@@ -574,8 +576,9 @@ CStatus GElement::asyncRun() {
 
 CStatus GElement::getAsyncResult() {
     CGRAPH_FUNCTION_BEGIN
-    if (async_result_.valid()) {
-        status = async_result_.get();    // 这里的get和valid方法，都是线程安全的
+    const auto result = async_result_;    // 可能有多个 fence 同时等待，每个等待者通过各自的副本来获取
+    if (result.valid()) {
+        status = result.get();
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index dd4d30f..51156ce 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -476,7 +476,7 @@ private:
     std::vector<GElement *> children_ {};                                     // 子节点，适用于group类型
 
     /** 异步执行相关信息 */
-    std::future<CStatus> async_result_;                                       // 用于记录当前节点的异步执行情况
+    std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
     friend class GNode;
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 7ca814f..f15409c 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -46,8 +46,15 @@ CStatus GElementRepository::reset() {
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
-            status += cur->getAsyncResult();
+            try {
+                status += cur->getAsyncResult();
+            } catch (const CException& ex) {
+                // 超时之后才出现的崩溃信息，在这里也需要被处理
+                (void)cur->doAspect(internal::GAspectType::ENTER_CRASHED);
+                status += cur->crashed(ex);
+            }
         }
+        cur->async_result_ = std::shared_future<CStatus>();    // 确保不会将这一轮的结果，带到下一轮
 
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
         if (cur->isTimeout()) {
-- 
2.43.0


From eea7ba774d01e2d1a40113bae48d5ff142bbabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 16/45] fix: quorum group waits for its remaining elements
 before the run returns, and counts every trigger from zero

The elements which were still running after GSome had been triggered kept
using the counters, the status and the futures of the group: an error of such
an element was lost or raced with the end of the run, the next trigger (in a
looped group, or in the next run) counted them in, and all elements, finished
or not, were skipped by the next trigger of the same run.
---
 .../GraphElement/GElementRepository.cpp       | 12 ++++
 .../GraphElement/GElementRepository.h         |  2 +
 .../GraphElement/GGroup/GSome/GSome.cpp       | 62 ++++++++++++++-----
 .../GraphElement/GGroup/GSome/GSome.h         | 10 +++
 4 files changed, 72 insertions(+), 14 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index f15409c..876d68f 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -43,6 +43,11 @@ CStatus GElementRepository::setup() {
 
 CStatus GElementRepository::reset() {
     CGRAPH_FUNCTION_BEGIN
+    for (auto& cur : some_elements_) {
+        // 由外层到内层，依次等待被触发之后，还在继续执行的逻辑
+        status += dynamic_cast<GSome *>(cur)->waitAsync();
+    }
+
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
@@ -121,6 +126,7 @@ CBool GElementRepository::isCancelState() const {
 
 CStatus GElementRepository::init() {
     CGRAPH_FUNCTION_BEGIN
+    some_elements_.clear();
     async_elements_.clear();    // 每次记得清空这里。因为每次init之后，都可能不一样
     for (auto& element : elements_) {
         /**
@@ -137,7 +143,13 @@ CStatus GElementRepository::init() {
         if (element->isAsync()) {
             async_elements_.emplace(element);
         }
+        if (GElementType::SOME == element->element_type_) {
+            some_elements_.emplace_back(element);
+        }
     }
+    std::sort(some_elements_.begin(), some_elements_.end(), [](GElementPtr a, GElementPtr b) {
+        return a->getDeepPath(false).size() < b->getDeepPath(false).size();
+    });
 
     // 每次初始化之后，所有的状态，都可以恢复了
     status = pushAllState(GElementState::NORMAL);
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 7152f18..11be9fe 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -96,6 +96,8 @@ private:
     std::mutex state_lock_;                                         // 确保多线程切换状态的时候，各element的状态保持一致
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
 
+    GElementPtrArr some_elements_ {};                               // 所有的 GSome 信息，在触发之后，其中的逻辑可能还在执行
+
     friend class GPipeline;
     friend class GPerf;
     friend class GStorage;
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
index a39d284..8e37fea 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
@@ -40,10 +40,28 @@ CStatus GSome::addElementEx(GElementPtr element) {
 CStatus GSome::run()  {
     CGRAPH_FUNCTION_BEGIN
 
-    wait_num_ = static_cast<CInt>(getWaitNum());
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(wait_num_ > children_.size(),
+    const CSize waitNum = getWaitNum();
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(waitNum > children_.size(),
         "num is bigger than elements size.");
-    cur_status_.reset();
+
+    // 在同一轮执行过程中，可能被多次执行（比如，外部的 group 被循环）。这里需要确认上一次派发的逻辑，都已经执行结束
+    status = waitAsync();
+    CGRAPH_FUNCTION_CHECK_STATUS
+
+    {
+        CGRAPH_LOCK_GUARD lock(lock_);
+        wait_num_ = static_cast<CInt>(waitNum);
+        left_num_ = children_.size();
+        finished_.assign(children_.size(), false);
+        cur_status_.reset();
+    }
+    for (auto* element : children_) {
+        auto state = GElementState::TIMEOUT;
+        if (!element->async_result_.valid()) {
+            // 恢复上一次触发之后，才被设置为超时的 element。本身就执行超时的，在这一轮中，不再执行
+            element->cur_state_.compare_exchange_strong(state, GElementState::NORMAL);
+        }
+    }
 
     /**
      * 1. 并发的执行，其中的所有逻辑信息
@@ -51,16 +69,19 @@ CStatus GSome::run()  {
      * 3. 将所有未执行完的element 设置为timeout
      * 4. 赋返回值
      */
-    for (auto* element : children_) {
-        thread_pool_->execute([this, element] {
-            {
-                const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
-                CGRAPH_UNIQUE_LOCK lock(lock_);
+    for (CSize i = 0; i < children_.size(); i++) {
+        auto* element = children_[i];
+        thread_pool_->execute([this, element, i] {
+            const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
+            CGRAPH_LOCK_GUARD lock(lock_);
+            if (wait_num_ > 0 || GElementTimeoutStrategy::HOLD_BY_PIPELINE == element->timeout_strategy_) {
+                // 触发之后的执行结果，仅考虑需要被 pipeline 等待的 element
                 cur_status_ += curStatus;
-                if (--wait_num_ <= 0 || cur_status_.isErr()) {
-                    cv_.notify_one();
-                }
             }
+            finished_[i] = true;
+            --wait_num_;
+            --left_num_;
+            cv_.notify_all();
         }, binding_index_);
     }
 
@@ -69,9 +90,9 @@ CStatus GSome::run()  {
         return wait_num_ <= 0 || cur_status_.isErr();
     });
 
-    for (auto* element : children_) {
-        if (!element->done_) {
-            element->cur_state_.store(GElementState::TIMEOUT, std::memory_order_release);
+    for (CSize i = 0; i < children_.size(); i++) {
+        if (!finished_[i]) {
+            children_[i]->cur_state_.store(GElementState::TIMEOUT, std::memory_order_release);
         }
     }
     status = cur_status_;
@@ -79,6 +100,19 @@ CStatus GSome::run()  {
 }
 
 
+CStatus GSome::waitAsync() {
+    CGRAPH_FUNCTION_BEGIN
+    CGRAPH_UNIQUE_LOCK lock(lock_);
+    cv_.wait(lock, [this] {
+        return 0 == left_num_;
+    });
+
+    status = cur_status_;
+    cur_status_.reset();
+    CGRAPH_FUNCTION_END
+}
+
+
 CBool GSome::isSerializable() const {
     return false;    // 情况较为复杂，默认不可以
 }
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
index f8c8b0b..4791886 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
@@ -42,14 +42,24 @@ protected:
 
     CStatus addElementEx(GElementPtr element) override;
 
+private:
+    /**
+     * 等待所有已经派发的 element 执行结束，并且返回其中的执行结果
+     * @return
+     */
+    CStatus waitAsync();
+
 private:
     CInt wait_num_ {0};                        // 还剩的触发结束的个数
+    CSize left_num_ {0};                       // 已经派发，还未执行结束的个数
+    std::vector<CBool> finished_ {};           // 记录各个 element 是否执行结束
     CStatus cur_status_ ;                      // 记录异步时刻的当前状态信息
 
     std::mutex lock_;
     std::condition_variable cv_;
 
     friend class GPipeline;
+    friend class GElementRepository;
     friend class GDynamicEngine;
     friend class CAllocator;
     friend class GStorageFactory;
-- 
2.43.0


From ec08f9f2c3fcd1e6275ba580cecd6acf1e7f3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 17/45] fix: an element which can not time out does not occupy
 a second thread of the pool

Every element of GSome gets a timeout of CGRAPH_MAX_BLOCK_TTL by default: a
group with as many elements as the pool has threads blocked all of them, each
waiting for a task that no thread was left to execute.
---
 src/GraphCtrl/GraphElement/GElement.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 82c2c80..32a5c2b 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -554,9 +554,18 @@ CStatus GElement::asyncRun() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!isAsync(), "[" + name_ + "] cannot async run.")
 
-    async_result_ = thread_pool_->commit([this] {
-        return run();
-    }, CGRAPH_POOL_TASK_STRATEGY);
+    if (CGRAPH_MAX_BLOCK_TTL == timeout_) {
+        // 不会超时的情况，直接在当前线程执行。如果还占用当前线程去等待另外一个线程，会导致线程数不足的时候，无法执行
+        std::packaged_task<CStatus()> task([this] {
+            return run();
+        });
+        async_result_ = task.get_future();
+        task();
+    } else {
+        async_result_ = thread_pool_->commit([this] {
+            return run();
+        }, CGRAPH_POOL_TASK_STRATEGY);
+    }
 
     const auto& futStatus = async_result_.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
-- 
2.43.0


From ee1f8637b6454ebda2dde3852e4632a8b96cdc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 18/45] fix: quorum group asks for its trigger number after the
 previous trigger is finished

---
 src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
index 8e37fea..0f952e1 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
@@ -40,14 +40,14 @@ CStatus GSome::addElementEx(GElementPtr element) {
 CStatus GSome::run()  {
     CGRAPH_FUNCTION_BEGIN
 
-    const CSize waitNum = getWaitNum();
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(waitNum > children_.size(),
-        "num is bigger than elements size.");
-
     // 在同一轮执行过程中，可能被多次执行（比如，外部的 group 被循环）。这里需要确认上一次派发的逻辑，都已经执行结束
     status = waitAsync();
     CGRAPH_FUNCTION_CHECK_STATUS
 
+    const CSize waitNum = getWaitNum();
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(waitNum > children_.size(),
+        "num is bigger than elements size.");
+
     {
         CGRAPH_LOCK_GUARD lock(lock_);
         wait_num_ = static_cast<CInt>(waitNum);
-- 
2.43.0


From 50561c0b642653263b469b47a4650e47a05d8f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 19/45] fix: commitWithTid can be used

It called execute() with the arguments of executeWithTid(), so that no call of
it compiled.
---
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index b83ceb6..370c68e 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -29,10 +29,10 @@ template<typename FunctionType>
 auto UThreadPool::commitWithTid(const FunctionType& func, CIndex tid, CBool enable, CBool lockable)
 -> std::future<decltype(std::declval<FunctionType>()())> {
     using ResultType = decltype(std::declval<FunctionType>()());
-    std::packaged_task<ResultType()> task(std::move(func));
+    std::packaged_task<ResultType()> task(func);
     std::future<ResultType> result(task.get_future());
 
-    execute(std::move(task), tid, enable, lockable);
+    executeWithTid(std::move(task), tid, enable, lockable);
     return result;
 }
 
-- 
2.43.0


From 177eb43547052816cd7d1c3f979133294a52f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 20/45] fix: priority queue of the thread pool is ordered by
 priority, not by address

---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 552f4f5..36c6944 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -10,6 +10,7 @@
 #define CGRAPH_UATOMICPRIORITYQUEUE_H
 
 #include <queue>
+#include <vector>
 
 #include "UQueueObject.h"
 
@@ -86,7 +87,14 @@ public:
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
-    std::priority_queue<std::unique_ptr<T> > priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
+    /** 比较的是任务本身的优先级，而不是指针的大小 */
+    struct Later {
+        CBool operator()(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) const {
+            return *a > *b;
+        }
+    };
+
+    std::priority_queue<std::unique_ptr<T>, std::vector<std::unique_ptr<T> >, Later> priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
 };
 
 CGRAPH_NAMESPACE_END
-- 
2.43.0


From e868787ce515071d7713799976ca9e77f7abe2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 21/45] fix: secondary threads are counted, listed and removed
 under their lock, without waiting for a running task

---
 .../ThreadPool/Thread/UThreadSecondary.h      |  2 +
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      | 51 +++++++++++++------
 src/UtilsCtrl/ThreadPool/UThreadPool.h        |  6 +++
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index 4648234..8dc8113 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -61,6 +61,7 @@ protected:
         CGRAPH_ASSERT_INIT(true)
 
         loopProcess();
+        finished_ = true;
         CGRAPH_FUNCTION_END
     }
 
@@ -119,6 +120,7 @@ protected:
 
 private:
     CSec cur_ttl_ { 0 };                                                      // 当前最大生存周期
+    std::atomic<CBool> finished_ { false };                                // 是否已经退出执行循环
 
     friend class UThreadPool;
 };
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 53d7d09..198c7d7 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -6,6 +6,8 @@
 @Desc: 
 ***************************/
 
+#include <algorithm>
+
 #include "UThreadPool.h"
 
 CGRAPH_NAMESPACE_BEGIN
@@ -188,19 +190,21 @@ CStatus UThreadPool::releaseSecondaryThread(CInt size) {
 
     // 先将所有已经结束的，给删掉
     CGRAPH_LOCK_GUARD lock(st_mutex_);
-    for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-        !(*iter)->done_ ? secondary_threads_.erase(iter++) : iter++;
-    }
+    eraseFinishedSecondaryThread();
 
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > static_cast<CInt>(secondary_threads_.size())),    \
+    const auto left = static_cast<CInt>(std::count_if(secondary_threads_.begin(), secondary_threads_.end(),
+                                        [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; }));
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > left),    \
                                             "cannot release [" + std::to_string(size) + "] secondary thread,"    \
-                                            + "only [" + std::to_string(secondary_threads_.size()) + "] left.")
+                                            + "only [" + std::to_string(left) + "] left.")
 
-    // 再标记几个需要删除的信息
+    // 再标记几个需要删除的信息。被标记的线程，会在执行完当前任务后退出
     for (auto iter = secondary_threads_.begin();
-         iter != secondary_threads_.end() && size-- > 0; ) {
-        (*iter)->done_ = false;
-        ++iter;
+         iter != secondary_threads_.end() && size > 0; ++iter) {
+        if ((*iter)->done_) {
+            (*iter)->done_ = false;
+            size--;
+        }
     }
     CGRAPH_FUNCTION_END
 }
@@ -227,10 +231,12 @@ CIndex UThreadPool::dispatch(const CIndex origIndex) {
 CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
+    eraseFinishedSecondaryThread();
+    // 需要在锁内计算，避免并发创建的时候，超过设定max值
     const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
-    CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (int i = 0; i < realSize; i++) {
         auto ptr = CGRAPH_MAKE_UNIQUE_COBJECT(UThreadSecondary)
         ptr->setThreadPoolInfo(&task_queue_, &priority_task_queue_, &config_);
@@ -264,14 +270,24 @@ CVoid UThreadPool::monitor() {
         }
 
         CGRAPH_LOCK_GUARD lock(st_mutex_);
-        // 判断 secondary 线程是否需要退出
-        for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-            (*iter)->freeze() ? secondary_threads_.erase(iter++) : iter++;
+        // 判断 secondary 线程是否需要退出。需要退出的线程，先做标记，等到真正结束之后再删除
+        eraseFinishedSecondaryThread();
+        for (auto& st : secondary_threads_) {
+            if (st->freeze()) {
+                st->done_ = false;
+            }
         }
     }
 }
 
 
+CVoid UThreadPool::eraseFinishedSecondaryThread() {
+    for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
+        (*iter)->finished_ ? secondary_threads_.erase(iter++) : iter++;
+    }
+}
+
+
 CVoid UThreadPool::wakeupOneThread() {
     for (auto* pt : primary_threads_) {
         if (pt->wakeup()) {
@@ -290,9 +306,12 @@ CSize UThreadPool::wakeupAllThread() {
             }
         }
 
-        for (const auto& st : secondary_threads_) {
-            if (st->wakeup()) {
-                ++size;
+        {
+            CGRAPH_LOCK_GUARD lock(st_mutex_);
+            for (const auto& st : secondary_threads_) {
+                if (st->wakeup()) {
+                    ++size;
+                }
             }
         }
         wakeup_mutex_.unlock();
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 7e4f6b8..2394b82 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -203,6 +203,12 @@ protected:
      */
     CVoid monitor();
 
+    /**
+     * 删除已经执行结束的辅助线程，需要在 st_mutex_ 锁内调用
+     * 仅删除已经退出执行循环的线程，不会等待正在执行的任务，避免任务中也需要操作辅助线程时，发生死锁
+     */
+    CVoid eraseFinishedSecondaryThread();
+
     CGRAPH_NO_ALLOWED_COPY(UThreadPool)
 
 private:
-- 
2.43.0


From 039056025833abb91ee9458adc4d7aefdc8c0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 22/45] fix: a priority or long time task is executed when no
 secondary thread can serve it

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 44 ++++++++++++++++++++++--
 src/UtilsCtrl/ThreadPool/UThreadPool.h   | 26 ++++++++++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.inl |  8 ++---
 3 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 198c7d7..848d494 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -192,8 +192,7 @@ CStatus UThreadPool::releaseSecondaryThread(CInt size) {
     CGRAPH_LOCK_GUARD lock(st_mutex_);
     eraseFinishedSecondaryThread();
 
-    const auto left = static_cast<CInt>(std::count_if(secondary_threads_.begin(), secondary_threads_.end(),
-                                        [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; }));
+    const auto left = getAliveSecondaryThreadNum();
     CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > left),    \
                                             "cannot release [" + std::to_string(size) + "] secondary thread,"    \
                                             + "only [" + std::to_string(left) + "] left.")
@@ -206,6 +205,7 @@ CStatus UThreadPool::releaseSecondaryThread(CInt size) {
             size--;
         }
     }
+    transferPriorityTask();
     CGRAPH_FUNCTION_END
 }
 
@@ -229,9 +229,14 @@ CIndex UThreadPool::dispatch(const CIndex origIndex) {
 
 
 CStatus UThreadPool::createSecondaryThread(const CInt size) {
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
+    return addSecondaryThread(size);
+}
+
+
+CStatus UThreadPool::addSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
-    CGRAPH_LOCK_GUARD lock(st_mutex_);
     eraseFinishedSecondaryThread();
     // 需要在锁内计算，避免并发创建的时候，超过设定max值
     const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
@@ -277,10 +282,43 @@ CVoid UThreadPool::monitor() {
                 st->done_ = false;
             }
         }
+        transferPriorityTask();
     }
 }
 
 
+CVoid UThreadPool::pushPriorityTask(UTask&& task, const CInt priority) {
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
+    if (0 == getAliveSecondaryThreadNum()) {
+        (void)addSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
+    }
+
+    priority_task_queue_.push(std::move(task), priority);
+    transferPriorityTask();
+}
+
+
+CVoid UThreadPool::transferPriorityTask() {
+    if (getAliveSecondaryThreadNum() > 0) {
+        return;
+    }
+
+    while (!priority_task_queue_.empty()) {
+        UTask task;
+        if (priority_task_queue_.tryPop(task)) {
+            task_queue_.push(std::move(task));
+            wakeupOneThread();
+        }
+    }
+}
+
+
+CInt UThreadPool::getAliveSecondaryThreadNum() const {
+    return static_cast<CInt>(std::count_if(secondary_threads_.begin(), secondary_threads_.end(),
+                             [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; }));
+}
+
+
 CVoid UThreadPool::eraseFinishedSecondaryThread() {
     for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
         (*iter)->finished_ ? secondary_threads_.erase(iter++) : iter++;
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 2394b82..aab9ef7 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -203,6 +203,32 @@ protected:
      */
     CVoid monitor();
 
+    /**
+     * 写入优先级任务。如果没有可用的辅助线程，则开启一个
+     * 如果无法开启（已达到线程数上限），则写入通用任务队列中，由主线程执行
+     * @param task
+     * @param priority
+     */
+    CVoid pushPriorityTask(UTask&& task, CInt priority);
+
+    /**
+     * 没有可用的辅助线程的时候，将优先级任务交给主线程执行，需要在 st_mutex_ 锁内调用
+     */
+    CVoid transferPriorityTask();
+
+    /**
+     * 生成辅助线程，需要在 st_mutex_ 锁内调用
+     * @param size
+     * @return
+     */
+    CStatus addSecondaryThread(CInt size);
+
+    /**
+     * 获取可用的辅助线程个数，需要在 st_mutex_ 锁内调用
+     * @return
+     */
+    CInt getAliveSecondaryThreadNum() const;
+
     /**
      * 删除已经执行结束的辅助线程，需要在 st_mutex_ 锁内调用
      * 仅删除已经退出执行循环的线程，不会等待正在执行的任务，避免任务中也需要操作辅助线程时，发生死锁
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 370c68e..4d80a27 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -45,11 +45,7 @@ auto UThreadPool::commitWithPriority(const FunctionType& func, int priority)
     std::packaged_task<ResultType()> task(func);
     std::future<ResultType> result(task.get_future());
 
-    if (secondary_threads_.empty()) {
-        createSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
-    }
-
-    priority_task_queue_.push(std::move(task), priority);
+    pushPriorityTask(std::move(task), priority);
     return result;
 }
 
@@ -61,7 +57,7 @@ CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
     if (likely(realIndex >= 0 && realIndex < config_.default_thread_size_)) {
         primary_threads_[realIndex]->pushTask(std::forward<FunctionType>(task));
     } else if (CGRAPH_LONG_TIME_TASK_STRATEGY == realIndex) {
-        priority_task_queue_.push(std::forward<FunctionType>(task), CGRAPH_LONG_TIME_TASK_STRATEGY);
+        pushPriorityTask(std::forward<FunctionType>(task), CGRAPH_LONG_TIME_TASK_STRATEGY);
     } else if (CGRAPH_TRIGGER_ALL_THREAD_STRATEGY == realIndex) {
         task_queue_.push(std::forward<FunctionType>(task));
         (void)wakeupAllThread();
-- 
2.43.0


From e769f612eb382656706a00da0f845e13a6e18849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 23/45] fix: destroy of the thread pool stops the monitor, ends
 secondary threads first and drops the queued tasks

---
 .../ThreadPool/Queue/UAtomicPriorityQueue.h   | 12 ++++
 src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h | 12 ++++
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      | 59 +++++++++++--------
 src/UtilsCtrl/ThreadPool/UThreadPool.h        |  1 +
 4 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 36c6944..29f76f2 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -84,6 +84,18 @@ public:
         return priority_queue_.empty();
     }
 
+    /**
+     * 清空队列中的内容
+     * @return
+     */
+    CVoid clear() {
+        decltype(priority_queue_) garbage {};    // 在锁外析构
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            garbage.swap(priority_queue_);
+        }
+    }
+
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h
index bd06e1a..7ad0cc6 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h
@@ -165,6 +165,18 @@ public:
         queue_ = {};
     }
 
+    /**
+     * 清空队列中的内容
+     * @return
+     */
+    CVoid clear() {
+        decltype(queue_) garbage {};    // 在锁外析构
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            garbage.swap(queue_);
+        }
+    }
+
     CGRAPH_NO_ALLOWED_COPY(UAtomicQueue)
 
 private:
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 848d494..07bce0c 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -23,11 +23,6 @@ UThreadPool::UThreadPool(const CBool autoInit, const UThreadPoolConfig& config)
 
 
 UThreadPool::~UThreadPool() {
-    this->config_.monitor_enable_ = false;    // 在析构的时候，才释放监控线程。先释放监控线程，再释放其他的线程
-    if (monitor_thread_.joinable()) {
-        monitor_thread_.join();
-    }
-
     destroy();
 }
 
@@ -52,10 +47,6 @@ CStatus UThreadPool::init() {
         CGRAPH_FUNCTION_END
     }
 
-    if (config_.monitor_enable_) {
-        // 默认不开启监控线程
-        monitor_thread_ = std::thread(&UThreadPool::monitor, this);
-    }
     thread_record_map_.clear();
     thread_record_map_[std::hash<std::thread::id>{}(std::this_thread::get_id())] = CGRAPH_MAIN_THREAD_ID;
     task_queue_.setup();
@@ -87,6 +78,11 @@ CStatus UThreadPool::init() {
     CGRAPH_FUNCTION_CHECK_STATUS
 
     is_init_ = true;
+    if (config_.monitor_enable_) {
+        // 默认不开启监控线程
+        monitor_running_ = true;
+        monitor_thread_ = std::thread(&UThreadPool::monitor, this);
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -146,6 +142,12 @@ CStatus UThreadPool::destroy() {
         CGRAPH_FUNCTION_END
     }
 
+    // 先释放监控线程，再释放其他的线程
+    monitor_running_ = false;
+    if (monitor_thread_.joinable()) {
+        monitor_thread_.join();
+    }
+
     // primary 线程是普通指针，需要delete
     for (const auto& pt : primary_threads_) {
         CGRAPH_ASSERT_NOT_NULL(pt);
@@ -153,9 +155,26 @@ CStatus UThreadPool::destroy() {
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
+    // secondary 线程是智能指针，不需要delete。执行中的任务，可能还会继续创建 secondary 线程，故需要循环处理
+    task_queue_.reset();
+    while (true) {
+        std::list<std::unique_ptr<UThreadSecondary>> threads;
+        {
+            CGRAPH_LOCK_GUARD lock(st_mutex_);
+            threads.swap(secondary_threads_);
+        }
+        if (threads.empty()) {
+            break;
+        }
+        for (auto &st : threads) {
+            status += st->destroy();
+        }
+    }
+
     /**
      * 这里之所以 destroy和 delete分开两个循环执行，
-     * 是因为当前线程被delete后，还可能存在未被delete的主线程，来steal当前线程的任务
+     * 是因为当前线程被delete后，还可能存在未被delete的主线程，来steal当前线程的任务，
+     * 或者存在未结束的辅助线程，向当前线程写入任务
      * 在windows环境下，可能出现问题。
      * destroy 和 delete 分开之后，不会出现此问题。
      * 感谢 Ryan大佬(https://github.com/ryanhuang) 提供的帮助
@@ -164,15 +183,10 @@ CStatus UThreadPool::destroy() {
         CGRAPH_DELETE_PTR(pt)
     }
     primary_threads_.clear();
-
-    // secondary 线程是智能指针，不需要delete
-    task_queue_.reset();
-    for (auto &st : secondary_threads_) {
-        CGRAPH_ASSERT_NOT_NULL(st.get());
-        status += st->destroy();
-    }
+    // 丢弃没有执行的任务，确保等待这些任务的 future 可以返回
+    task_queue_.clear();
+    priority_task_queue_.clear();
     CGRAPH_FUNCTION_CHECK_STATUS
-    secondary_threads_.clear();
     thread_record_map_.clear();
     is_init_ = false;
 
@@ -254,14 +268,9 @@ CStatus UThreadPool::addSecondaryThread(const CInt size) {
 
 
 CVoid UThreadPool::monitor() {
-    while (config_.monitor_enable_) {
-        while (config_.monitor_enable_ && !is_init_) {
-            // 如果没有init，则一直处于空跑状态
-            CGRAPH_SLEEP_SECOND(1)
-        }
-
+    while (monitor_running_) {
         auto span = config_.monitor_span_;
-        while (config_.monitor_enable_ && is_init_ && span--) {
+        while (monitor_running_ && span--) {
             CGRAPH_SLEEP_SECOND(1)    // 保证可以快速退出
         }
 
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index aab9ef7..b0260cb 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -246,6 +246,7 @@ private:
     std::list<std::unique_ptr<UThreadSecondary>> secondary_threads_;                // 用于记录所有的辅助线程
     UThreadPoolConfig config_;                                                      // 线程池设置值
     std::thread monitor_thread_;                                                    // 监控线程
+    std::atomic<CBool> monitor_running_ { false };                               // 监控线程是否需要继续执行
     std::map<CSize, int> thread_record_map_;                                        // 线程记录的信息
     std::mutex st_mutex_;                                                           // 辅助线程发生变动的时候，加的mutex信息
     std::mutex wakeup_mutex_;                                                       // 防止wakeupAllThread并发重入
-- 
2.43.0


From 24acf48ecc4a1e41c4349852d90eeca97611aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 24/45] fix: message topics and connections are looked up under
 their lock, and detached or dropped connections are forgotten

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 120 ++++++++++---------
 1 file changed, 66 insertions(+), 54 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 733a1dc..1a5c8c0 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -41,13 +41,12 @@ public:
         auto result = send_recv_message_map_.find(innerTopic);
         if (result != send_recv_message_map_.end()) {
             // 如果类型和size完全匹配的话，则直接返回创建成功。否则返回错误
-            auto curTopic = result->second;
+            const auto& curTopic = result->second;
             status = (typeid(*curTopic).name() == typeid(GMessage<TImpl>).name() && curTopic->getCapacity() == size)
                      ? CStatus() : CStatus("create topic [" + topic + "] duplicate");
         } else {
             // 创建一个 topic信息
-            auto message = CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size);
-            send_recv_message_map_.insert(std::pair<const std::string&, GMessagePtr<T> >(innerTopic, GMessagePtr<T>(message)));
+            send_recv_message_map_[innerTopic] = makeMessage<TImpl>(size);
         }
 
         CGRAPH_FUNCTION_END
@@ -67,7 +66,6 @@ public:
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        CGRAPH_DELETE_PTR(result->second);
         send_recv_message_map_.erase(result);
 
         CGRAPH_FUNCTION_END
@@ -87,15 +85,12 @@ public:
                            std::shared_ptr<TImpl>& value,
                            CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
-        const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
+        const auto& holder = findTopic(topic);
+        if (!holder) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        auto message = (GMessagePtr<TImpl>)(result->second);
-        CGRAPH_ASSERT_NOT_NULL(message);
-
+        auto message = (GMessagePtr<TImpl>)(holder.get());
         status = message->recv(value, timeout);
         CGRAPH_FUNCTION_END
     }
@@ -114,15 +109,11 @@ public:
                            const std::shared_ptr<TImpl>& value,
                            GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
-        const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
+        const auto& message = findTopic(topic);
+        if (!message) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        auto message = static_cast<GMessagePtr<T> >(result->second);
-        CGRAPH_ASSERT_NOT_NULL(message);
-
         message->send(value, strategy);
         CGRAPH_FUNCTION_END
     }
@@ -141,19 +132,10 @@ public:
 
         CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
         CIndex connId = (++cur_conn_id_);
-        auto message = CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size, connId);
-        auto result = pub_sub_message_map_.find(innerTopic);
-        if (result != pub_sub_message_map_.end()) {
-            // 如果之前有的话，则在后面添加一个
-            auto& messageSet = result->second;
-            messageSet.insert((GMessagePtr<T>)message);
-        } else {
-            // 如果是这个topic第一次被绑定，则创建一个对应的set信息
-            std::set<GMessagePtr<T>> messageSet {};
-            messageSet.insert((GMessagePtr<T>)message);
-            pub_sub_message_map_[innerTopic] = messageSet;
-        }
-        conn_message_map_[connId] = (GMessagePtr<T>)message;
+        const auto& message = makeMessage<TImpl>(size, connId);
+        // 如果是这个topic第一次被绑定，则创建一个对应的set信息。否则在后面添加一个
+        pub_sub_message_map_[innerTopic].insert(message);
+        conn_message_map_[connId] = message;
         return connId;
     }
 
@@ -175,9 +157,9 @@ public:
         }
 
         auto& messageSet = result->second;
-        for (auto* msg : messageSet) {
-            if (connId == msg->getConnId()) {
-                CGRAPH_DELETE_PTR(msg);
+        for (auto iter = messageSet.begin(); iter != messageSet.end(); ++iter) {
+            if (connId == (*iter)->getConnId()) {
+                messageSet.erase(iter);    // 从订阅信息中删除，避免后续继续发送
                 conn_message_map_.erase(connId);
                 break;
             }
@@ -201,13 +183,18 @@ public:
                           GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         auto innerTopic = internal::PUB_SUB_PREFIX + topic;
-        auto result = pub_sub_message_map_.find(innerTopic);
-        if (result == pub_sub_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        std::set<MessageHolder> messageSet {};
+        {
+            // 仅在查询的时候加锁，发送的过程可能会等待
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = pub_sub_message_map_.find(innerTopic);
+            if (result == pub_sub_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            messageSet = result->second;
         }
 
-        auto& messageSet = result->second;
-        for (auto msg : messageSet) {
+        for (const auto& msg : messageSet) {
             msg->send(value, strategy);    // 给所有订阅的信息，一次发送消息
         }
         CGRAPH_FUNCTION_END
@@ -225,11 +212,17 @@ public:
             c_enable_if_t<std::is_base_of<T, TImpl>::value, int> = 0>
     CStatus subTopicValue(CIndex connId, std::shared_ptr<TImpl>& value, CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
-        if (conn_message_map_.end() == conn_message_map_.find(connId)) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+        MessageHolder holder {};
+        {
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = conn_message_map_.find(connId);
+            if (conn_message_map_.end() == result) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+            }
+            holder = result->second;
         }
 
-        auto message = (GMessagePtr<TImpl>)(conn_message_map_[connId]);
+        auto message = (GMessagePtr<TImpl>)(holder.get());
         status = message->recv(value, timeout);
         CGRAPH_FUNCTION_END
     }
@@ -249,10 +242,10 @@ public:
         }
 
         auto& messageSet = result->second;
-        for (auto* msg : messageSet) {
-            CGRAPH_DELETE_PTR(msg)
+        for (const auto& msg : messageSet) {
+            conn_message_map_.erase(msg->getConnId());
         }
-        pub_sub_message_map_.erase(innerTopic);
+        pub_sub_message_map_.erase(result);
         CGRAPH_FUNCTION_END
     }
 
@@ -264,19 +257,11 @@ public:
         CGRAPH_FUNCTION_BEGIN
         {
             CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
-            for (auto& cur : send_recv_message_map_) {
-                CGRAPH_DELETE_PTR(cur.second)
-            }
             send_recv_message_map_.clear();
         }
 
         {
             CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
-            for (auto& cur : pub_sub_message_map_) {
-                for (auto* iter : cur.second) {
-                    CGRAPH_DELETE_PTR(iter);
-                }
-            }
             pub_sub_message_map_.clear();
             conn_message_map_.clear();
             cur_conn_id_ = 0;
@@ -304,9 +289,36 @@ protected:
     }
 
 private:
-    std::unordered_map<std::string, GMessagePtr<T>> send_recv_message_map_;    // 记录 topic 和 message queue 信息
-    std::unordered_map<std::string, std::set<GMessagePtr<T>>> pub_sub_message_map_;    // 记录 pub和sub的 message 的信息
-    std::unordered_map<CIndex, GMessagePtr<T>> conn_message_map_;    // 用于根据 index反推message信息
+    using MessageHolder = std::shared_ptr<GMessage<T>>;    // 收发消息的过程中，持有对应信息，避免被并发删除
+
+    /**
+     * 创建 message 信息
+     * @tparam TImpl
+     * @param size
+     * @param connId
+     * @return
+     */
+    template<typename TImpl>
+    static MessageHolder makeMessage(CUInt size, CIndex connId = 0) {
+        std::shared_ptr<GMessage<TImpl>> message(CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size, connId));
+        return MessageHolder(message, (GMessagePtr<T>)(message.get()));
+    }
+
+    /**
+     * 查询 SendRecv 模式的 topic 信息
+     * @param topic
+     * @return
+     */
+    MessageHolder findTopic(const std::string& topic) {
+        CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
+        auto result = send_recv_message_map_.find(internal::SEND_RECV_PREFIX + topic);
+        return result != send_recv_message_map_.end() ? result->second : nullptr;
+    }
+
+private:
+    std::unordered_map<std::string, MessageHolder> send_recv_message_map_;    // 记录 topic 和 message queue 信息
+    std::unordered_map<std::string, std::set<MessageHolder>> pub_sub_message_map_;    // 记录 pub和sub的 message 的信息
+    std::unordered_map<CIndex, MessageHolder> conn_message_map_;    // 用于根据 index反推message信息
     CIndex cur_conn_id_ = 0;    // 记录当前的conn信息
 
     std::mutex pub_sub_mutex_;
-- 
2.43.0


From 2c0d0fa6c6b21609535a6d80d1cf0c03dfaedfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 25/45] fix: a ring buffer of capacity one can hold a message

---
 .../ThreadPool/Queue/UAtomicRingBufferQueue.h | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index f191afc..b5da0db 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -25,7 +25,7 @@ public:
         head_ = 0;
         tail_ = 0;
         capacity_ = capacity;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(slots());
     }
 
     ~UAtomicRingBufferQueue() override {
@@ -40,7 +40,7 @@ public:
      */
     UAtomicRingBufferQueue* setCapacity(const CUInt size) {
         capacity_ = size;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(slots());
         return this;
     }
 
@@ -69,7 +69,7 @@ public:
                         push_cv_.wait(lk, [this] { return !isFull(); });
                         break;
                     case URingBufferPushStrategy::REPLACE:
-                        head_ = (head_ + 1) % capacity_;
+                        head_ = (head_ + 1) % slots();
                         break;
                     case URingBufferPushStrategy::DROP:
                         return;    // 直接返回，不写入即可
@@ -77,7 +77,7 @@ public:
             }
 
             ring_buffer_queue_[tail_] = value;
-            tail_ = (tail_ + 1) % capacity_;
+            tail_ = (tail_ + 1) % slots();
         }
         pop_cv_.notify_one();
     }
@@ -102,7 +102,7 @@ public:
             }
 
             value = std::move(ring_buffer_queue_[head_]);
-            head_ = (head_ + 1) % capacity_;
+            head_ = (head_ + 1) % slots();
         }
         push_cv_.notify_one();
         CGRAPH_FUNCTION_END
@@ -127,7 +127,7 @@ protected:
      */
     CBool isFull() const {
         // 空出来一个位置，这个时候不让 tail写入
-        return head_ == (tail_ + 1) % capacity_;
+        return head_ == (tail_ + 1) % slots();
     }
 
     /**
@@ -138,6 +138,14 @@ protected:
         return head_ == tail_;
     }
 
+    /**
+     * 实际的位置数量。因为需要空出来一个位置，故比容量多一个
+     * @return
+     */
+    CUInt slots() const {
+        return capacity_ + 1;
+    }
+
     CGRAPH_NO_ALLOWED_COPY(UAtomicRingBufferQueue)
 
 private:
-- 
2.43.0


From 44c08ab8f736e1c7f7ed3310e606741be8cce91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 26/45] fix: a ring buffer can be used after it was cleared

---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index b5da0db..94dccba 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -114,7 +114,8 @@ public:
      */
     CStatus clear() {
         CGRAPH_FUNCTION_BEGIN
-        ring_buffer_queue_.resize(0);
+        // 释放所有数据，但是保留位置，确保清空之后可以继续使用
+        ring_buffer_queue_.assign(slots(), nullptr);
         head_ = 0;
         tail_ = 0;
         CGRAPH_FUNCTION_END
-- 
2.43.0


From 238ca2cfb3a8f1e9f96db288255bcb51e8829a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 27/45] fix: the lock free ring buffer can be used

---
 .../ThreadPool/Queue/ULockFreeRingBufferQueue.h      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
index a5efc7a..225bfc9 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
@@ -11,6 +11,7 @@
 
 #include <atomic>
 #include <memory>
+#include <vector>
 
 #include "UQueueObject.h"
 
@@ -22,7 +23,7 @@ public:
     explicit ULockFreeRingBufferQueue() {
         head_ = 0;
         tail_ = 0;
-        ring_buffer_.resize(CAPACITY);
+        ring_buffer_.resize(SLOTS);
     }
 
     ~ULockFreeRingBufferQueue() override {
@@ -35,14 +36,14 @@ public:
      */
     CVoid push(T&& value) {
         int curTail = tail_.load(std::memory_order_relaxed);
-        const int nextTail = (curTail + 1) % CAPACITY;
+        const int nextTail = (curTail + 1) % SLOTS;
 
         while (nextTail == head_.load(std::memory_order_acquire)) {
             // 队列已满，等待其他线程出队
             CGRAPH_YIELD();
         }
 
-        ring_buffer_[curTail] = std::move(value);
+        ring_buffer_[curTail] = c_make_unique<T>(std::move(value));
         tail_.store(nextTail, std::memory_order_release);
     }
 
@@ -58,15 +59,16 @@ public:
             return false;
         }
 
-        value = std::move(ring_buffer_[curHead]);
+        value = std::move(*ring_buffer_[curHead]);
 
-        const int nextHead = (curHead + 1) % CAPACITY;
+        const int nextHead = (curHead + 1) % SLOTS;
         head_.store(nextHead, std::memory_order_release);
         return true;
     }
 
 
 private:
+    static const CInt SLOTS = CAPACITY + 1;                   // 需要空出来一个位置，故比容量多一个
     std::atomic<CInt> head_{};                                // 开始元素（较早写入的）的位置
     std::atomic<CInt> tail_{};                                // 尾部的位置
     std::vector<std::unique_ptr<T> > ring_buffer_ {};         // 环形队列
-- 
2.43.0


From 99e8255f597e212da21ae27d7988111d6c22319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 28/45] fix: wait of the semaphore waits for a signal

---
 src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
index 5247a9a..ff0a607 100644
--- a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
+++ b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
@@ -24,9 +24,7 @@ public:
     CVoid signal() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
         cnt_++;
-        if (cnt_ <= 0) {
-            cv_.notify_one();
-        }
+        cv_.notify_one();
     }
 
     /**
@@ -34,10 +32,10 @@ public:
      */
     CVoid wait() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
-        cnt_--;
         cv_.wait(lk, [this] {
-            return cnt_ < 0;
+            return cnt_ > 0;
         });
+        cnt_--;
     }
 
 private:
-- 
2.43.0


From 3642e20c6ca8f240059774b62d358d50a2e5acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 29/45] fix: a pool without threads executes tasks on the
 calling thread

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 5 +++++
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 07bce0c..15bccc2 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -297,6 +297,11 @@ CVoid UThreadPool::monitor() {
 
 
 CVoid UThreadPool::pushPriorityTask(UTask&& task, const CInt priority) {
+    if (0 == config_.max_thread_size_) {
+        task();
+        return;
+    }
+
     CGRAPH_LOCK_GUARD lock(st_mutex_);
     if (0 == getAliveSecondaryThreadNum()) {
         (void)addSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 4d80a27..efa4aae 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -52,6 +52,11 @@ auto UThreadPool::commitWithPriority(const FunctionType& func, int priority)
 
 template<typename FunctionType>
 CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
+    if (0 == config_.max_thread_size_) {
+        task();    // 没有任何线程的情况（例如，设定了 makeSerial），直接在当前线程执行
+        return;
+    }
+
     const CIndex realIndex = dispatch(index);
 
     if (likely(realIndex >= 0 && realIndex < config_.default_thread_size_)) {
@@ -70,7 +75,9 @@ CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
 
 template<typename FunctionType>
 CVoid UThreadPool::executeWithTid(FunctionType&& task, CIndex tid, CBool enable, CBool lockable) {
-    if (likely(tid >= 0 && tid < config_.default_thread_size_)) {
+    if (0 == config_.max_thread_size_) {
+        task();
+    } else if (likely(tid >= 0 && tid < config_.default_thread_size_)) {
         primary_threads_[tid]->pushTask(std::forward<FunctionType>(task), enable, lockable);
     } else {
         // 如果超出主线程的范围，则默认写入 pool 通用的任务队列中
-- 
2.43.0


From f85eb16458e8116f0184941e2dba10a90d91fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 30/45] fix: a singleton is initialised once and destroyed by
 its last user

---
 .../GAdapter/GSingleton/GSingleton.h          |  5 ++-
 .../GAdapter/GSingleton/GSingleton.inl        | 33 +++++++++++--------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h
index ae08b3a..7f8789d 100644
--- a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h
+++ b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h
@@ -9,6 +9,8 @@
 #ifndef CGRAPH_GSINGLETON_H
 #define CGRAPH_GSINGLETON_H
 
+#include <mutex>
+
 #include "../GAdapter.h"
 
 CGRAPH_NAMESPACE_BEGIN
@@ -39,7 +41,8 @@ private:
 
 private:
     static USingleton<T> s_singleton_;                    // 单例
-    static std::atomic<CBool> s_is_init_;                 // 标志是否被初始化过
+    static CSize s_init_times_;                           // 被初始化，且尚未被销毁的次数
+    static std::mutex s_init_lock_;                       // 控制初始化和销毁的互斥量
 
     friend class GPipeline;
 };
diff --git a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
index 7e46fdf..011e79f 100644
--- a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
+++ b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
@@ -17,7 +17,11 @@ template <typename T>
 USingleton<T> GSingleton<T>::s_singleton_;
 
 template <typename T>
-std::atomic<CBool> GSingleton<T>::s_is_init_(false);
+CSize GSingleton<T>::s_init_times_ = 0;
+
+
+template <typename T>
+std::mutex GSingleton<T>::s_init_lock_;
 
 
 template <typename T>
@@ -30,16 +34,15 @@ GSingleton<T>::GSingleton() {
 template <typename T>
 CStatus GSingleton<T>::init() {
     CGRAPH_FUNCTION_BEGIN
-    /* 确保仅 GSingletonNode 类型内容，init一次 */
-    if (s_is_init_) {
-        CGRAPH_FUNCTION_END
+    /* 确保仅 GSingletonNode 类型内容，init一次。可能有多个 pipeline 同时进行 */
+    CGRAPH_LOCK_GUARD lock(s_init_lock_);
+    if (0 == s_init_times_) {
+        /* 因为采取的是饥汉模式，不需要判断ptr是否为空了 */
+        auto element = dynamic_cast<T *>(s_singleton_.get());
+        status = element->init();
     }
-
-    /* 因为采取的是饥汉模式，不需要判断ptr是否为空了 */
-    auto element = dynamic_cast<T *>(s_singleton_.get());
-    status = element->init();
     if (status.isOK()) {
-        s_is_init_ = true;
+        s_init_times_++;
     }
 
     CGRAPH_FUNCTION_END
@@ -59,14 +62,18 @@ CStatus GSingleton<T>::run() {
 template <typename T>
 CStatus GSingleton<T>::destroy() {
     CGRAPH_FUNCTION_BEGIN
-    if (!s_is_init_) {
+    CGRAPH_LOCK_GUARD lock(s_init_lock_);
+    if (0 == s_init_times_) {
         CGRAPH_FUNCTION_END
     }
 
-    auto element = dynamic_cast<T *>(s_singleton_.get());
-    status = element->destroy();
+    /* 还有其他地方在使用的情况下，不可以被 destroy */
+    if (1 == s_init_times_) {
+        auto element = dynamic_cast<T *>(s_singleton_.get());
+        status = element->destroy();
+    }
     if (status.isOK()) {
-        s_is_init_ = false;
+        s_init_times_--;
     }
 
     CGRAPH_FUNCTION_END
-- 
2.43.0


From e18e15e4fda8326833e158d3b6867fcb4d23db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 31/45] fix: destroy waits for the work of elements which timed
 out

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 13 +++++++++++++
 src/GraphCtrl/GraphElement/GElementRepository.h   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 876d68f..9df51ae 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -48,6 +48,9 @@ CStatus GElementRepository::reset() {
         status += dynamic_cast<GSome *>(cur)->waitAsync();
     }
 
+    unfinished_results_.remove_if([](const std::shared_future<CStatus>& result) {
+        return std::future_status::ready == result.wait_for(std::chrono::milliseconds(0));
+    });
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
@@ -59,6 +62,11 @@ CStatus GElementRepository::reset() {
                 status += cur->crashed(ex);
             }
         }
+        if (cur->async_result_.valid()
+            && std::future_status::ready != cur->async_result_.wait_for(std::chrono::milliseconds(0))) {
+            // 超时之后，不需要在本轮等待的，记录下来。确保销毁的时候，不会还在执行
+            unfinished_results_.emplace_back(cur->async_result_);
+        }
         cur->async_result_ = std::shared_future<CStatus>();    // 确保不会将这一轮的结果，带到下一轮
 
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
@@ -159,6 +167,11 @@ CStatus GElementRepository::init() {
 
 CStatus GElementRepository::destroy() {
     CGRAPH_FUNCTION_BEGIN
+    for (const auto& result : unfinished_results_) {
+        result.wait();    // 线程池可能是共享的，需要等待超时的逻辑执行结束之后，才可以释放 element
+    }
+    unfinished_results_.clear();
+
     /**
      * destroy的时候，恢复create的状态，确保再次轮训的时候正常
      * 理论上，cancel状态仅会出现在极短的时间段之内，
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 11be9fe..ff914b1 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -10,6 +10,8 @@
 #define CGRAPH_GELEMENTREPOSITORY_H
 
 #include <atomic>
+#include <future>
+#include <list>
 #include <mutex>
 
 #include "GElementObject.h"
@@ -96,6 +98,7 @@ private:
     std::mutex state_lock_;                                         // 确保多线程切换状态的时候，各element的状态保持一致
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
 
+    std::list<std::shared_future<CStatus>> unfinished_results_ {};  // 超时之后，不需要在本轮等待，但还没有执行结束的结果信息
     GElementPtrArr some_elements_ {};                               // 所有的 GSome 信息，在触发之后，其中的逻辑可能还在执行
 
     friend class GPipeline;
-- 
2.43.0


From 987135500e9f2a71db483f75ebe3ecff84bbddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 32/45] fix: a failed profiling run leaves the pipeline as it
 was

---
 src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp | 21 ++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
index d670a1a..131fa1d 100644
--- a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
@@ -20,18 +20,19 @@ CStatus GPerf::perf(GPipelinePtr pipeline, std::ostream& oss) {
     status = inject(pipeline);
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status = pipeline->process();
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = markLongestPath(pipeline);
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = pipeline->dump(oss);
-    CGRAPH_FUNCTION_CHECK_STATUS
+    try {
+        status = pipeline->process();
+    } catch (const CException& ex) {
+        status = CStatus(internal::STATUS_CRASH, ex.what());
+    }
 
-    status = recover(pipeline);
-    CGRAPH_FUNCTION_CHECK_STATUS
+    if (!status.isErr()) {
+        status += markLongestPath(pipeline);
+        status += pipeline->dump(oss);
+    }
 
+    // 无论执行结果如何，均需要恢复 pipeline 的信息
+    status += recover(pipeline);
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 9028eba07a2eb7082abbb34e0b3729d9484f1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 33/45] fix: a failed init or destroy leaves the pipeline
 uninitialised

---
 .../GAdapter/GSingleton/GSingleton.inl        |  4 +--
 .../GraphElement/GElementManager.cpp          | 13 ++++++--
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp  | 13 ++++++--
 .../GraphElement/GGroup/GRegion/GRegion.cpp   |  2 --
 src/GraphCtrl/GraphPipeline/GPipeline.cpp     | 32 +++++++++++++------
 5 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
index 011e79f..72a1a48 100644
--- a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
+++ b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
@@ -72,9 +72,7 @@ CStatus GSingleton<T>::destroy() {
         auto element = dynamic_cast<T *>(s_singleton_.get());
         status = element->destroy();
     }
-    if (status.isOK()) {
-        s_init_times_--;
-    }
+    s_init_times_--;
 
     CGRAPH_FUNCTION_END
 }
diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 20b32d0..93b3629 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -32,9 +32,13 @@ CStatus GElementManager::init() {
 
     for (GElementPtr element : manager_elements_) {
         status = element->fatProcessor(CFunctionType::INIT);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (status.isErr()) {
+            (void)destroy();    // 初始化失败，需要将已经初始化完成的内容恢复
+            break;
+        }
         element->is_init_ = true;
     }
+    CGRAPH_FUNCTION_CHECK_STATUS
 
     CGRAPH_FUNCTION_END
 }
@@ -44,8 +48,11 @@ CStatus GElementManager::destroy() {
     CGRAPH_FUNCTION_BEGIN
 
     for (GElementPtr element : manager_elements_) {
-        status = element->fatProcessor(CFunctionType::DESTROY);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (!element->is_init_) {
+            continue;
+        }
+        // 单个 element 的异常，不可以影响其他 element 的 destroy 流程
+        status += element->fatProcessor(CFunctionType::DESTROY);
         element->is_init_ = false;
     }
 
diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index a4deac3..f894dc2 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -19,7 +19,17 @@ CStatus GGroup::init() {
 
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
-        status += element->fatProcessor(CFunctionType::INIT);
+    }
+
+    for (CSize i = 0; i < children_.size() && status.isOK(); i++) {
+        status = children_[i]->fatProcessor(CFunctionType::INIT);
+        if (status.isErr()) {
+            // 初始化失败，需要将已经初始化完成的内容恢复
+            while (i > 0) {
+                (void)children_[--i]->fatProcessor(CFunctionType::DESTROY);
+            }
+            break;
+        }
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -35,7 +45,6 @@ CStatus GGroup::destroy() {
         CGRAPH_ASSERT_NOT_NULL(element)
         status += element->fatProcessor(CFunctionType::DESTROY);
     }
-    CGRAPH_FUNCTION_CHECK_STATUS
 
     is_init_ = false;
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
index 32a4a30..1181c9a 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
@@ -40,8 +40,6 @@ CStatus GRegion::init() {
 CStatus GRegion::destroy() {
     CGRAPH_FUNCTION_BEGIN
     status = manager_->destroy();
-    CGRAPH_FUNCTION_CHECK_STATUS
-
     is_init_ = false;
     CGRAPH_FUNCTION_END
 }
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index aab8130..b937c0d 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -38,14 +38,28 @@ CStatus GPipeline::init() {
     CGRAPH_ASSERT_INIT(false)    // 必须是非初始化的状态下，才可以初始化。反之同理
     CGRAPH_ASSERT_NOT_NULL(element_manager_, param_manager_, daemon_manager_, event_manager_, stage_manager_)
 
-    status += initEnv();
-    CGRAPH_FUNCTION_CHECK_STATUS
+    try {
+        status += initEnv();
+        if (status.isOK()) {
+            status += param_manager_->init();
+            status += event_manager_->init();
+            status += element_manager_->init();
+            status += stage_manager_->init();
+        }
+        if (status.isOK()) {
+            status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
+        }
+    } catch (const CException& ex) {
+        status = CStatus(internal::STATUS_CRASH, ex.what());
+    }
 
-    status += param_manager_->init();
-    status += event_manager_->init();
-    status += element_manager_->init();
-    status += stage_manager_->init();
-    status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
+    if (status.isErr()) {
+        // 初始化失败，恢复到未初始化的状态
+        (void)daemon_manager_->destroy();
+        event_manager_->asyncWait();
+        (void)element_manager_->destroy();
+        (void)schedule_.destroy();
+    }
     CGRAPH_FUNCTION_CHECK_STATUS
 
     is_init_ = true;
@@ -110,16 +124,14 @@ CStatus GPipeline::destroy() {
      */
     status += repository_.destroy();
     status += schedule_.destroy();
-    CGRAPH_FUNCTION_CHECK_STATUS
 
     status += event_manager_->destroy();
     status += daemonStatus;
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
-    CGRAPH_FUNCTION_CHECK_STATUS
 
-    is_init_ = false;
+    is_init_ = false;    // 无论结果如何，资源均已经释放
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 60bb1f4d7212842821aeaa1251b7e7001a896817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 34/45] fix: a failing thread creation is reported as an error

---
 src/GraphCtrl/GraphDaemon/GDaemon.cpp         | 17 +++++--
 .../GraphPipeline/_GSchedule/GSchedule.cpp    |  3 +-
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      | 49 ++++++++++++-------
 src/UtilsCtrl/Timer/UTimer.h                  |  4 +-
 4 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/GraphCtrl/GraphDaemon/GDaemon.cpp b/src/GraphCtrl/GraphDaemon/GDaemon.cpp
index 5441368..aa95fa6 100644
--- a/src/GraphCtrl/GraphDaemon/GDaemon.cpp
+++ b/src/GraphCtrl/GraphDaemon/GDaemon.cpp
@@ -6,17 +6,24 @@
 @Desc: 
 ***************************/
 
+#include <system_error>
+
 #include "GDaemon.h"
 
 CGRAPH_NAMESPACE_BEGIN
 
 CStatus GDaemon::init() {
     CGRAPH_FUNCTION_BEGIN
-    timer_.start(interval_, [this] {
-        daemonTask(param_);
-    }, [this] {
-        return modify(param_);
-    });
+    try {
+        timer_.start(interval_, [this] {
+            daemonTask(param_);
+        }, [this] {
+            return modify(param_);
+        });
+    } catch (const std::system_error& ex) {
+        timer_.stop();
+        status = CStatus("start daemon failed, " + std::string(ex.what()));    // 系统无法创建线程
+    }
     CGRAPH_FUNCTION_END
 }
 
diff --git a/src/GraphCtrl/GraphPipeline/_GSchedule/GSchedule.cpp b/src/GraphCtrl/GraphPipeline/_GSchedule/GSchedule.cpp
index 3d21be6..9421721 100644
--- a/src/GraphCtrl/GraphPipeline/_GSchedule/GSchedule.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GSchedule/GSchedule.cpp
@@ -19,7 +19,8 @@ CStatus GSchedule::init() {
          * 如果是 shared 的数据，则不做任何操作
          */
         CGRAPH_DELETE_PTR(unique_tp_)
-        unique_tp_ = CAllocator::safeMallocTemplateCObject<UThreadPool>(true, config_);
+        unique_tp_ = CAllocator::safeMallocTemplateCObject<UThreadPool>(false, config_);
+        status = unique_tp_->init();
     } else if (internal::GScheduleType::SHARED == type_) {
         CGRAPH_ASSERT_NOT_NULL(shared_tp_)
         // 首先，要确定外部传入的线程池，已经初始化过了
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 15bccc2..ebf92fd 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -7,6 +7,7 @@
 ***************************/
 
 #include <algorithm>
+#include <system_error>
 
 #include "UThreadPool.h"
 
@@ -63,25 +64,30 @@ CStatus UThreadPool::init() {
      * 避免在个别的平台上，可能出现 thread竞争访问其他线程、并且导致异常的情况
      * 参考： https://github.com/ChunelFeng/CGraph/issues/309
      */
-    for (int i = 0; i < config_.default_thread_size_; i++) {
-        status += primary_threads_[i]->init();
-        thread_record_map_[std::hash<std::thread::id>{}(primary_threads_[i]->thread_.get_id())] = i;
-    }
-    CGRAPH_FUNCTION_CHECK_STATUS
+    try {
+        for (int i = 0; i < config_.default_thread_size_; i++) {
+            status += primary_threads_[i]->init();
+            thread_record_map_[std::hash<std::thread::id>{}(primary_threads_[i]->thread_.get_id())] = i;
+        }
 
-    /**
-     * 策略更新：
-     * 初始化的时候，也可以创建n个辅助线程。目的是为了配合仅使用 pool中 priority_queue 的场景
-     * 一般情况下，建议为0。
-     */
-    status = createSecondaryThread(config_.secondary_thread_size_);
-    CGRAPH_FUNCTION_CHECK_STATUS
+        /**
+         * 策略更新：
+         * 初始化的时候，也可以创建n个辅助线程。目的是为了配合仅使用 pool中 priority_queue 的场景
+         * 一般情况下，建议为0。
+         */
+        status += createSecondaryThread(config_.secondary_thread_size_);
+        if (config_.monitor_enable_) {
+            // 默认不开启监控线程
+            monitor_running_ = true;
+            monitor_thread_ = std::thread(&UThreadPool::monitor, this);
+        }
+    } catch (const std::system_error& ex) {
+        status = CStatus("create thread failed, " + std::string(ex.what()));    // 系统无法创建线程
+    }
 
     is_init_ = true;
-    if (config_.monitor_enable_) {
-        // 默认不开启监控线程
-        monitor_running_ = true;
-        monitor_thread_ = std::thread(&UThreadPool::monitor, this);
+    if (status.isErr()) {
+        (void)destroy();    // 将已经创建的线程释放，恢复到未初始化的状态
     }
     CGRAPH_FUNCTION_END
 }
@@ -151,7 +157,9 @@ CStatus UThreadPool::destroy() {
     // primary 线程是普通指针，需要delete
     for (const auto& pt : primary_threads_) {
         CGRAPH_ASSERT_NOT_NULL(pt);
-        status += pt->destroy();
+        if (pt->is_init_) {
+            status += pt->destroy();
+        }
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -259,7 +267,12 @@ CStatus UThreadPool::addSecondaryThread(const CInt size) {
     for (int i = 0; i < realSize; i++) {
         auto ptr = CGRAPH_MAKE_UNIQUE_COBJECT(UThreadSecondary)
         ptr->setThreadPoolInfo(&task_queue_, &priority_task_queue_, &config_);
-        status += ptr->init();
+        try {
+            status += ptr->init();
+        } catch (const std::system_error& ex) {
+            status += CStatus("create secondary thread failed, " + std::string(ex.what()));
+            break;
+        }
         secondary_threads_.emplace_back(std::move(ptr));
     }
 
diff --git a/src/UtilsCtrl/Timer/UTimer.h b/src/UtilsCtrl/Timer/UTimer.h
index 4bf7816..9c91851 100644
--- a/src/UtilsCtrl/Timer/UTimer.h
+++ b/src/UtilsCtrl/Timer/UTimer.h
@@ -85,7 +85,9 @@ public:
         }
 
         cv_.notify_one();
-        future_.wait();
+        if (future_.valid()) {
+            future_.wait();
+        }
     }
 
 private:
-- 
2.43.0


From e3350f89971edc11c778f534488c8b8dbeccd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 35/45] fix: removing an initialised pipeline stops its daemons
 and threads first

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index b937c0d..4342725 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -24,6 +24,14 @@ GPipeline::GPipeline() {
 
 
 GPipeline::~GPipeline() {
+    if (is_init_) {
+        // 没有 destroy 就直接释放的情况，需要先停止所有的异步逻辑，才可以释放对应的内容
+        (void)daemon_manager_->destroy();
+        event_manager_->asyncWait();
+        (void)repository_.destroy();
+        (void)schedule_.destroy();
+    }
+
     // 结束的时候，会自动释放所有的element信息
     CGRAPH_DELETE_PTR(daemon_manager_)
     CGRAPH_DELETE_PTR(element_manager_)
-- 
2.43.0


From 1e9b05adf015d67a9f23be86c5583cc1410e3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 36/45] fix: a saved pipeline with parameters can be loaded

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp     | 7 +++++--
 src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index edc8813..4a1de65 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -39,7 +39,8 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(_GStageStorage,
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GParamStorage,
     UREFL_DECLARE_FIELD(_GParamStorage, key_, 1),
-    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2)
+    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2),
+    UREFL_DECLARE_FIELD(_GParamStorage, backtrace_, 3)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPassedParamStorage,
@@ -85,7 +86,9 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(UThreadPoolConfig,
     UREFL_DECLARE_FIELD(UThreadPoolConfig, secondary_thread_priority_, 16),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, bind_cpu_enable_, 17),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, batch_task_enable_, 18),
-    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19)
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, pipeline_wait_busy_epoch_, 20),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, deliver_running_primary_thread_enable_, 21)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPipelineStorage,
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
index 75d6e02..74a92c8 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
@@ -67,6 +67,7 @@ struct _GParamStorage : public _GStorageBasic {
     explicit _GParamStorage(const std::string& key, CBool backtrace, const std::string& clz) {
         key_ = key;
         backtrace_ = backtrace;
+        clz_name_ = clz;
     }
 
     std::string key_ {};
-- 
2.43.0


From 989ba4d414dd8baf157eecd6e6a2dc4d515af45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 37/45] fix: loading a damaged file reports an error

---
 .../GraphPipeline/_GStroage/GStorage.cpp          | 15 +++++++++++----
 src/UtilsCtrl/Reflection/UReflectionSession.h     | 10 ++++++++++
 src/UtilsCtrl/Reflection/UReflectionType.h        |  1 +
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 4a1de65..8bff2fb 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -144,9 +144,13 @@ CStatus GStorage::load(GPipelinePtr pipeline, const std::string& path) {
     CGRAPH_ASSERT_NOT_NULL(buffer)
     memset(buffer, 0, size);
 
-    status = ifd.read(buffer, size)
-            ? loadBuffer(pipeline, buffer, size)
-            : CStatus("Failed to read file: " + path);
+    try {
+        status = ifd.read(buffer, size)
+                ? loadBuffer(pipeline, buffer, size)
+                : CStatus("Failed to read file: " + path);
+    } catch (const CException& ex) {
+        status = CStatus("Failed to load file: " + path + ", " + ex.what());    // 文件内容损坏的情况
+    }
 
     ifd.close();
     CGRAPH_DELETE_PTR_ARRAY(buffer)
@@ -257,6 +261,7 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
         auto element = dynamic_cast<GElementPtr>(GStorageFactory::createByType(cur.clz_name_));
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!element,
                                                 cur.name_ + " element do not register, please check")
+        pipeline->repository_.insert(element);    // 统一由 repository 负责释放
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(element->element_type_ != cur.element_type_,
                                                 cur.name_ + " check type failed when load");
         status = cur.recover(element);
@@ -272,6 +277,7 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
             pipeline->innerRegister(element, {}, cur.name_, cur.loop_);
         } else {
             element->belong_ = eleCache[cur.belong_session_];
+            CGRAPH_ASSERT_NOT_NULL(element->belong_)
         }
 
         status += loadAspect(element, cur.aspect_storages_);
@@ -295,8 +301,9 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
             GGroupPtr group = dynamic_cast<GGroupPtr>(eleCache[cur.session_]);
             CGRAPH_ASSERT_NOT_NULL(group)
             for (const auto& child : cur.children_) {
-                group->addElement(eleCache[child.session_]);
+                status += group->addElement(eleCache[child.session_]);
             }
+            CGRAPH_FUNCTION_CHECK_STATUS
         }
     }
 
diff --git a/src/UtilsCtrl/Reflection/UReflectionSession.h b/src/UtilsCtrl/Reflection/UReflectionSession.h
index d92f7d2..e2c8568 100644
--- a/src/UtilsCtrl/Reflection/UReflectionSession.h
+++ b/src/UtilsCtrl/Reflection/UReflectionSession.h
@@ -24,6 +24,7 @@ public:
     template<class T>
     void getValueAndOffset(T &value) {
         constexpr size_t len = sizeof(T);
+        checkLeft(len);
         memcpy(&value, data_ + offset_, len);
         offset_ += len;
     }
@@ -34,6 +35,7 @@ public:
     }
 
     void getStringAndOffset(std::string &value, const size_t len) {
+        checkLeft(len);
         value.assign((CCharPtr)(data_ + offset_), len);
         offset_ += len;
     }
@@ -45,6 +47,14 @@ public:
         offset_ += len;
     }
 
+    /**
+     * 确认剩余的数据，可以满足读取需求
+     * @param len
+     */
+    void checkLeft(const size_t len) const {
+        CGRAPH_THROW_EXCEPTION_BY_CONDITION(len > len_ - offset_, "reflection data is damaged")
+    }
+
     void addLen(const size_t len) {
         len_ += len;
     }
diff --git a/src/UtilsCtrl/Reflection/UReflectionType.h b/src/UtilsCtrl/Reflection/UReflectionType.h
index 7d80763..5edcf4b 100644
--- a/src/UtilsCtrl/Reflection/UReflectionType.h
+++ b/src/UtilsCtrl/Reflection/UReflectionType.h
@@ -185,6 +185,7 @@ void reflRead(UReflSession &session, T &value) {
 
         size_t size = 0;
         session.getValueAndOffset(size);
+        session.checkLeft(size);
         UReflSession subSess(session.getCurrentPos(), size);
         while (!subSess.isEmpty()) {
             auto elem = container_element_t<T>{};
-- 
2.43.0


From 5aaef88853a02729ecb386478c3e7a5e26b6a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 38/45] fix: elements are initialised in the order of their
 levels

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 93b3629..69044b5 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -27,6 +27,9 @@ CStatus GElementManager::init() {
         CGRAPH_ASSERT_NOT_NULL(element)
     }
 
+    // 添加之后，level 信息可能被修改过，故需要按照最新的 level 重新排序
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
+
     status = initEngine();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From e98dbf8818d3c81446289b539dbf8beb1cc473ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 39/45] fix: a failing init, run or destroy of a pipeline in a
 manager leaves the manager usable

---
 .../GraphPipeline/GPipelineManager.cpp        | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index d4f7a6b..b88d9e5 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -20,8 +20,25 @@ CStatus GPipelineManager::init() {
         CGRAPH_RETURN_ERROR_STATUS("used list status error")
     }
 
+    GPipelinePtrList inited;
     for (auto pipeline : free_list_) {
-        status += pipeline->init();
+        CStatus cur;
+        try {
+            cur = pipeline->init();
+        } catch (const CException& ex) {
+            cur = CStatus(internal::STATUS_CRASH, ex.what());
+        }
+        status += cur;
+        if (cur.isOK()) {
+            inited.emplace_back(pipeline);
+        }
+    }
+
+    if (status.isErr()) {
+        // 如果有 pipeline 初始化失败，则释放本次已经初始化的 pipeline，确保之后可以再次 init
+        for (auto pipeline : inited) {
+            (void)pipeline->destroy();
+        }
     }
     CGRAPH_FUNCTION_CHECK_STATUS
     is_init_ = true;
@@ -41,7 +58,11 @@ CStatus GPipelineManager::run() {
      * 这里执行，是外部线程执行的。获取的status就是这个pipeline run的结果
      * 无论如何，执行完成之后，都要将pipeline返回到 free_list 中去
      */
-    status = pipeline->run();
+    try {
+        status = pipeline->run();
+    } catch (const CException& ex) {
+        status = CStatus(internal::STATUS_CRASH, ex.what());    // 异常的情况下，也需要归还 pipeline
+    }
     status += release(pipeline);
 
     CGRAPH_FUNCTION_END
@@ -58,9 +79,8 @@ CStatus GPipelineManager::destroy() {
     for (auto pipeline : free_list_) {
         status += pipeline->destroy();
     }
-    CGRAPH_FUNCTION_CHECK_STATUS
 
-    is_init_ = false;
+    is_init_ = false;    // 无论 pipeline 是否释放成功，均已不可再执行
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 0cd5c6decaced5bd7172ba92b652fedcc470ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 40/45] fix: elements inside a group that timed out are waited
 for and keep their results until they finished

---
 .../GraphElement/GElementRepository.cpp       | 28 +++++++++++++++++--
 .../GraphElement/GElementRepository.h         |  2 +-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 9df51ae..d71b998 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -51,7 +51,16 @@ CStatus GElementRepository::reset() {
     unfinished_results_.remove_if([](const std::shared_future<CStatus>& result) {
         return std::future_status::ready == result.wait_for(std::chrono::milliseconds(0));
     });
+
+    GElementPtrSet unfinishedElements;
     for (auto& cur : async_elements_) {
+        const auto& path = cur->getDeepPath(false);
+        if (std::any_of(path.begin(), path.end(), [cur, &unfinishedElements](GElementPtr element) {
+            return element != cur && unfinishedElements.find(element) != unfinishedElements.end();
+        })) {
+            continue;    // 外层的 group 超时之后，还在继续执行。内层的 element 可能还在使用自己的执行结果，销毁的时候再统一等待
+        }
+
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
             try {
@@ -66,9 +75,13 @@ CStatus GElementRepository::reset() {
             && std::future_status::ready != cur->async_result_.wait_for(std::chrono::milliseconds(0))) {
             // 超时之后，不需要在本轮等待的，记录下来。确保销毁的时候，不会还在执行
             unfinished_results_.emplace_back(cur->async_result_);
+            unfinishedElements.insert(cur);
         }
         cur->async_result_ = std::shared_future<CStatus>();    // 确保不会将这一轮的结果，带到下一轮
+    }
 
+    for (auto& cur : async_elements_) {
+        // 等到所有的逻辑都结束之后再写回，内层的 element 才可以一直感知到外层的超时
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
         if (cur->isTimeout()) {
             cur->cur_state_.store(GElementState::NORMAL, std::memory_order_release);
@@ -149,15 +162,17 @@ CStatus GElementRepository::init() {
         element->global_state_ = &cur_state_;
 
         if (element->isAsync()) {
-            async_elements_.emplace(element);
+            async_elements_.emplace_back(element);
         }
         if (GElementType::SOME == element->element_type_) {
             some_elements_.emplace_back(element);
         }
     }
-    std::sort(some_elements_.begin(), some_elements_.end(), [](GElementPtr a, GElementPtr b) {
+    const auto& outerFirst = [](GElementPtr a, GElementPtr b) {
         return a->getDeepPath(false).size() < b->getDeepPath(false).size();
-    });
+    };
+    std::sort(some_elements_.begin(), some_elements_.end(), outerFirst);
+    std::sort(async_elements_.begin(), async_elements_.end(), outerFirst);
 
     // 每次初始化之后，所有的状态，都可以恢复了
     status = pushAllState(GElementState::NORMAL);
@@ -171,6 +186,13 @@ CStatus GElementRepository::destroy() {
         result.wait();    // 线程池可能是共享的，需要等待超时的逻辑执行结束之后，才可以释放 element
     }
     unfinished_results_.clear();
+    for (auto& cur : async_elements_) {
+        // 外层执行结束之后，内层超时的逻辑，可能还没有执行结束
+        if (cur->async_result_.valid()) {
+            cur->async_result_.wait();
+            cur->async_result_ = std::shared_future<CStatus>();
+        }
+    }
 
     /**
      * destroy的时候，恢复create的状态，确保再次轮训的时候正常
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index ff914b1..9eaee03 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -96,7 +96,7 @@ private:
     GElementPtrSet elements_ {};                                    // 用于记录所有的element信息
     std::atomic<GElementState> cur_state_ { GElementState::NORMAL };    // 当前状态信息
     std::mutex state_lock_;                                         // 确保多线程切换状态的时候，各element的状态保持一致
-    GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
+    GElementPtrArr async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
 
     std::list<std::shared_future<CStatus>> unfinished_results_ {};  // 超时之后，不需要在本轮等待，但还没有执行结束的结果信息
     GElementPtrArr some_elements_ {};                               // 所有的 GSome 信息，在触发之后，其中的逻辑可能还在执行
-- 
2.43.0


From 5878e6686ca7e66a6fd0abff5d845f1bf7c4e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 41/45] fix: an auxiliary thread that has not started yet is
 not taken for an idle one

---
 src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index 8dc8113..fd3470c 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -29,6 +29,7 @@ protected:
 
         cur_ttl_ = config_->secondary_thread_ttl_;
         is_init_ = true;
+        is_running_ = true;    // 尚未真正开始执行的线程，不可以被监控线程当作空闲线程释放
         thread_ = std::thread(&UThreadSecondary::run, this);
         setSchedParam();
         CGRAPH_FUNCTION_END
-- 
2.43.0


From 94ec446de32e305f1eb1f4472e0acd81a49dba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 42/45] fix: the parameters used by an element or event are
 recorded by key and under a lock

---
 src/GraphCtrl/GraphParam/GParamManagerWrapper.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
index 6e1a69f..2de4f67 100644
--- a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
+++ b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
@@ -9,6 +9,8 @@
 #ifndef CGRAPH_GPARAMMANAGERWRAPPER_H
 #define CGRAPH_GPARAMMANAGERWRAPPER_H
 
+#include <mutex>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -44,7 +46,10 @@ CGRAPH_NAMESPACE_BEGIN
         CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(param_manager_)                              \
         auto param = param_manager_->get<TGParam>(key);                                 \
         if (nullptr != param) {                                                         \
-            concerned_params_.insert(param);                                            \
+            {                                                                           \
+                CGRAPH_LOCK_GUARD lock(concerned_lock_);                                \
+                concerned_params_.insert(key);                                          \
+            }                                                                           \
             param->addBacktrace(name_.empty() ? session_ : name_);                      \
         }                                                                               \
         return param;                                                                   \
@@ -90,11 +95,8 @@ CGRAPH_NAMESPACE_BEGIN
      * @return
      */                                                                                 \
     std::vector<std::string> getConcernedGParamKeys() const {                           \
-        std::vector<std::string> keys;                                                  \
-        for (auto param : concerned_params_) {                                          \
-            keys.emplace_back(param->getKey());                                         \
-        }                                                                               \
-        return keys;                                                                    \
+        CGRAPH_LOCK_GUARD lock(concerned_lock_);                                        \
+        return { concerned_params_.begin(), concerned_params_.end() };                  \
     }                                                                                   \
                                                                                         \
 public:                                                                                 \
@@ -134,7 +136,8 @@ private:
         return this;                                                                    \
     }                                                                                   \
                                                                                         \
-    GParamPtrSet concerned_params_;    /* 记录链路上使用过GParam信息 */                    \
+    std::set<std::string> concerned_params_;    /* 记录链路上使用过GParam信息，仅记录 key，param 可能会被删除 */  \
+    mutable std::mutex concerned_lock_;         /* 同一个 event 可能被并发触发 */             \
                                                                                         \
 protected:                                                                              \
                                                                                         \
-- 
2.43.0


From 19c02a320da978e19f50f7cef79f649b045b1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 43/45] fix: suspending, resuming or cancelling a run does not
 revive elements that have timed out

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index d71b998..c9cd16a 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -104,7 +104,11 @@ CStatus GElementRepository::pushAllState(const GElementState& state) {
         {
             // 加锁修改，防止 element 在判断状态和进入等待之间，丢失通知
             CGRAPH_LOCK_GUARD suspendLock(cur->suspend_locker_.mtx_);
-            cur->cur_state_.store(state, std::memory_order_release);
+            auto curState = cur->cur_state_.load(std::memory_order_acquire);
+            while (GElementState::TIMEOUT != curState
+                   && !cur->cur_state_.compare_exchange_weak(curState, state)) {
+                // 已经超时的 element，在本轮执行结束之前，一直是超时的状态
+            }
         }
         if (GElementState::SUSPEND != state) {
             // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
-- 
2.43.0


From 7e7a08e0422fb8ff73f3cb4320da269f34e1b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 44/45] fix: the next run and destroy() wait for the work of
 timed-out groups and quorum groups of earlier runs

---
 .../GraphElement/GElementRepository.cpp       | 35 +++++++++++++------
 .../GraphElement/GElementRepository.h         |  8 +++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp     |  1 +
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index c9cd16a..3d24665 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -92,6 +92,26 @@ CStatus GElementRepository::reset() {
 }
 
 
+CVoid GElementRepository::waitUnfinished() {
+    for (const auto& result : unfinished_results_) {
+        result.wait();
+    }
+    unfinished_results_.clear();
+    for (auto& cur : late_elements_) {
+        // 外层执行结束之后，内层超时（或触发）之后的逻辑，可能还没有执行结束
+        if (cur->async_result_.valid()) {
+            cur->async_result_.wait();
+            cur->async_result_ = std::shared_future<CStatus>();
+        }
+        if (GElementType::SOME == cur->element_type_) {
+            (void)dynamic_cast<GSome *>(cur)->waitAsync();
+        }
+        auto state = GElementState::TIMEOUT;
+        cur->cur_state_.compare_exchange_strong(state, GElementState::NORMAL);
+    }
+}
+
+
 CStatus GElementRepository::pushAllState(const GElementState& state) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_LOCK_GUARD lock(state_lock_);
@@ -177,6 +197,9 @@ CStatus GElementRepository::init() {
     };
     std::sort(some_elements_.begin(), some_elements_.end(), outerFirst);
     std::sort(async_elements_.begin(), async_elements_.end(), outerFirst);
+    late_elements_ = async_elements_;
+    late_elements_.insert(late_elements_.end(), some_elements_.begin(), some_elements_.end());
+    std::sort(late_elements_.begin(), late_elements_.end(), outerFirst);
 
     // 每次初始化之后，所有的状态，都可以恢复了
     status = pushAllState(GElementState::NORMAL);
@@ -186,17 +209,7 @@ CStatus GElementRepository::init() {
 
 CStatus GElementRepository::destroy() {
     CGRAPH_FUNCTION_BEGIN
-    for (const auto& result : unfinished_results_) {
-        result.wait();    // 线程池可能是共享的，需要等待超时的逻辑执行结束之后，才可以释放 element
-    }
-    unfinished_results_.clear();
-    for (auto& cur : async_elements_) {
-        // 外层执行结束之后，内层超时的逻辑，可能还没有执行结束
-        if (cur->async_result_.valid()) {
-            cur->async_result_.wait();
-            cur->async_result_ = std::shared_future<CStatus>();
-        }
-    }
+    waitUnfinished();    // 线程池可能是共享的，需要等待超时的逻辑执行结束之后，才可以释放 element
 
     /**
      * destroy的时候，恢复create的状态，确保再次轮训的时候正常
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 9eaee03..bfb80b5 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -56,6 +56,12 @@ private:
      */
     CStatus reset();
 
+    /**
+     * 等待之前轮次中，超时之后还在继续执行的逻辑执行结束
+     * @return
+     */
+    CVoid waitUnfinished();
+
     /**
      * 设置所有内部的element状态
      * @param state
@@ -101,6 +107,8 @@ private:
     std::list<std::shared_future<CStatus>> unfinished_results_ {};  // 超时之后，不需要在本轮等待，但还没有执行结束的结果信息
     GElementPtrArr some_elements_ {};                               // 所有的 GSome 信息，在触发之后，其中的逻辑可能还在执行
 
+    GElementPtrArr late_elements_ {};                               // run 结束之后，其中的逻辑还可能在执行的信息（由外层到内层）
+
     friend class GPipeline;
     friend class GPerf;
     friend class GStorage;
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 4342725..d4c9244 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -97,6 +97,7 @@ CStatus GPipeline::run() {
 
 CStatus GPipeline::innerRun() {
     CGRAPH_FUNCTION_BEGIN
+    repository_.waitUnfinished();    // 确保同一个 element，不会和自己上一轮超时的逻辑，同时执行
     status += param_manager_->setup();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From 85cb65e9ebaa0f5f7d6c726f55b4fbbb00b7973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 45/45] fix: a node inside a group can spawn tasks

---
 src/GraphCtrl/GraphElement/GNode/GNode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GNode/GNode.cpp b/src/GraphCtrl/GraphElement/GNode/GNode.cpp
index 5a79880..2dfa16a 100644
--- a/src/GraphCtrl/GraphElement/GNode/GNode.cpp
+++ b/src/GraphCtrl/GraphElement/GNode/GNode.cpp
@@ -24,7 +24,9 @@ GNodePtr GNode::setType(const GNodeType& type) {
 
 CStatus GNode::spawn(const UTaskGroup& tasks, CMSec ttl) {
     CGRAPH_FUNCTION_BEGIN
-    CGRAPH_ASSERT_INIT(true)
+    // 写入 group 中的 node，以最外层的 element 的初始化状态为准
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!getDeepPath(false).front()->is_init_,    \
+                                            "init status is not suitable")
     CGRAPH_ASSERT_NOT_NULL(thread_pool_)
 
     status = thread_pool_->submit(tasks, ttl);
-- 
2.43.0

