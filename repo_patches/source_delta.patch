From eb714bd5e50c20a305f2f8200e7cead6765bcd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 01/27] fix: flush sinks directly in the pool worker when a
 message reaches the flush level

The worker enqueued a flush request into its own queue and waited for it,
which blocks a single worker for ever (or fails once the pool is going away).
---
 include/async_logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..88a8202 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -80,7 +80,7 @@ private:
         }
 
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From bae12a99c06e29e1964ddd966cdad7dfcb850d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 02/27] fix: keep the content of a queued message on self copy
 assignment

---
 base/log_msg_buf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e1d4b93..0cc77de 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -29,6 +29,7 @@ public:
     }
 
     log_msg_buf& operator=(const log_msg_buf &other) {
+        if (this == &other) return *this;
         log_msg::operator=(other);
         buf_.clear();
         buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
-- 
2.43.0


From de45ecd3999928d04da0963bc0b9e40d559f21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 03/27] fix: stop at the end of a pattern with an incomplete
 last flag

---
 sinks/formatters/pattern_formatter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..5b0d1b2 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -62,6 +62,9 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
             if (it != end) {
                 append_flag_formatter_(*it, sp_info);
             }
+            else {
+                break;  // '%' 之后没有格式字符，it 已到末尾，不能再自增
+            }
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From c6bd6b602a5a8ec57334573d3604a41f419141ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 04/27] fix: do not let a long width specification overflow

---
 sinks/formatters/pattern_formatter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 5b0d1b2..24c5fec 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -106,7 +106,10 @@ spaces_info pattern_formatter::analyse_spaces_info_(std::string::const_iterator&
     size_t fill_len = static_cast<size_t>(*it) - '0';
     ++it;
     while (it != end && std::isdigit(static_cast<unsigned char>(*it))) {
-        fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        // 超过 MAX_SPACES_LEN 后不再累加，避免溢出
+        if (fill_len < MAX_SPACES_LEN) {
+            fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        }
         ++it;
     }
 
-- 
2.43.0


From ea6830078b609cf7fb0271a8e2a0c20e704c3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 05/27] fix: use the three-letter name of September

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..477f4c6 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -71,7 +71,7 @@ static const std::array<const char *, 7> weekday_name{
     {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"} };
 
 static const std::array<const char *, 12> month_name{
-    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"}};
+    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}};
 
 // 格式化星期几
 class a_formatter final : public flag_formatter {
-- 
2.43.0


From 7c82d974f42d1cba081bf50d88e95d1680712c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 06/27] fix: size of an invalid circular_queue is 0

---
 base/circular_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/circular_queue.h b/base/circular_queue.h
index 1b00eff..eaa4e90 100755
--- a/base/circular_queue.h
+++ b/base/circular_queue.h
@@ -35,7 +35,7 @@ public:
         return *this;
     }
 
-    size_t size() const { return (tail_ - head_ + max_size_) % max_size_; }
+    size_t size() const { return (max_size_ > 0) ? (tail_ - head_ + max_size_) % max_size_ : 0; }
 
     size_t vec_size() const { return max_size_; }
 
-- 
2.43.0


From 6a79177477038e010a0969aecd3f2cd9969e5f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 07/27] fix: disabling backtrace that was never enabled is a
 no-op

---
 include/logger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 107174b..de25a0a 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -189,7 +189,11 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() {
+        if (tracer_ != nullptr) {
+            tracer_->disable();
+        }
+    }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
-- 
2.43.0


From 8d686dcd75148493f8f2e654ff2d49c604ee1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 08/27] fix: evaluate the colour terminal test instead of
 converting the lambda to true

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index a664aa1..f05be53 100755
--- a/base/os.h
+++ b/base/os.h
@@ -116,7 +116,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From 6f01f2f92eb14312955b1be2fb08566477959a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 09/27] fix: no lost wakeup when a periodic_function is
 destroyed

---
 base/periodic_function.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..52636e3 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,10 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 7bac928cae755e874db04ffb156dcc55d211d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 10/27] fix: swap exchanges the pattern too and learnlog::swap
 is defined

---
 src/logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..74f33fe 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     std::swap(log_level_, other.log_level_);
     std::swap(flush_level_, other.flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
@@ -73,4 +74,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 10bffd60e48f2cde0d2f44a5c307f6e380020ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 11/27] fix: print an empty field for a location without file
 or function name

---
 sinks/formatters/flag_formatter.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 477f4c6..1828dfe 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -361,6 +361,11 @@ public:
 
 // 消息位置相关
 
+// 消息位置中的文件名、函数名可能缺失（nullptr），视为空字符串
+inline fmt_string_view loc_str_view(const char* str) {
+    return (str != nullptr) ? fmt_string_view{str} : fmt_string_view{};
+}
+
 // 格式化 log_msg.loc，包括代码文件名、行号
 class source_loc_formatter final : public flag_formatter {
 public:
@@ -373,11 +378,12 @@ public:
             return;
         }
 
-        size_t text_len = std::char_traits<char>::length(msg.loc.filename) +
+        fmt_string_view filename = loc_str_view(msg.loc.filename);
+        size_t text_len = filename.size() +
                             base::fmt_base::count_unsigned_digits(msg.loc.line) + 1;
 
         filler f(text_len, spaces_info_, dest_buf);
-        base::fmt_base::append_string_view(msg.loc.filename, dest_buf);
+        base::fmt_base::append_string_view(filename, dest_buf);
         dest_buf.push_back(':');
         base::fmt_base::append_int(msg.loc.line, dest_buf);
     }
@@ -394,9 +400,9 @@ public:
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-        size_t text_len = std::char_traits<char>::length(msg.loc.filename);
-        filler f(text_len, spaces_info_, dest_buf);
-        f.fill_msg(msg.loc.filename);
+        fmt_string_view filename = loc_str_view(msg.loc.filename);
+        filler f(filename.size(), spaces_info_, dest_buf);
+        f.fill_msg(filename);
     }
 };
 
@@ -428,9 +434,9 @@ public:
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-        size_t text_len = std::char_traits<char>::length(msg.loc.funcname);
-        filler f(text_len, spaces_info_, dest_buf);
-        f.fill_msg(msg.loc.funcname);
+        fmt_string_view funcname = loc_str_view(msg.loc.funcname);
+        filler f(funcname.size(), spaces_info_, dest_buf);
+        f.fill_msg(funcname);
     }
 };
 
@@ -492,7 +498,7 @@ public:
         // 如果 msg.loc 非空，以 "[filename:line]" 的形式加入 dest_buf
         if(!msg.loc.empty()) {
             dest_buf.push_back('[');
-            base::fmt_base::append_string_view(msg.loc.filename, dest_buf);
+            base::fmt_base::append_string_view(loc_str_view(msg.loc.filename), dest_buf);
             dest_buf.push_back(':');
             base::fmt_base::fill_uint(msg.loc.line, 5, dest_buf);
             dest_buf.push_back(']');
-- 
2.43.0


From b63b3de06c358d474148dd71bde20ca688dd6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 12/27] fix: create missing directories of absolute paths

---
 base/os.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index f05be53..4807e9e 100755
--- a/base/os.h
+++ b/base/os.h
@@ -206,7 +206,8 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        // 以分隔符开头的绝对路径，第一段为空，不需要创建
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From 1c8db1aadf72e823bf78116a6d5d8862f921c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 13/27] fix: never keep a file stream whose fclose failed

---
 base/file_base.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..5ff58cd 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,15 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        // 无论 fclose 成功与否，文件流都不能再使用
+        FILE* fp = *fpp;
+        *fpp = nullptr;
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
-- 
2.43.0


From 19fd07e3f1cc0ed7ffe83b9260ab30f1217ddd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 14/27] fix: report I/O errors in file sink destructors instead
 of terminating

---
 sinks/basic_file_sink.h   | 7 +++++--
 sinks/rolling_file_sink.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..f562cb9 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,11 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        // 析构函数不能抛出异常
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, filename_); }
+        LEARNLOG_CATCH
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..2b23f01 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -41,8 +41,11 @@ public:
     }
 
     ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+        // 析构函数不能抛出异常
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, get_rolling_filename(file_index_)); }
+        LEARNLOG_CATCH
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From 3e7e8c36f446fdcca1e6977008adef7e7f16f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 15/27] fix: a rolling sink retries after a failed roll instead
 of failing forever

---
 base/file_base.h          | 2 ++
 sinks/rolling_file_sink.h | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/file_base.h b/base/file_base.h
index 5ff58cd..9056e45 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -62,6 +62,8 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
 
 // 刷新文件流缓冲区
 inline void flush(FILE* fp, const filename_t& fname) {
+    if (fp == nullptr) return;
+
     if (::fflush(fp) != 0) {
         source_loc loc{__FILE__, __LINE__, __func__};
         std::string fname_str(fname.begin(), fname.end());
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index 2b23f01..61e3fde 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -93,7 +93,11 @@ private:
     void output_(const base::log_msg &msg) override {
         fmt_memory_buf buf;
         basic_sink<Mutex>::formatter_->format(msg, buf);
-        if (cur_file_size_ + buf.size() > max_file_size_) {
+        if (file_ == nullptr) {     // 上一次滚动文件失败，重新尝试
+            roll_file_();
+            cur_file_size_ = 0;
+        }
+        else if (cur_file_size_ + buf.size() > max_file_size_) {
             flush_();
             if (base::file_base::size(file_, get_rolling_filename(file_index_)) > 0) {
                 roll_file_();
-- 
2.43.0


From 66a140cabb6b4e4317721a87ff2e8aef22f97aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 16/27] fix: new loggers use the global formatter

---
 base/registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..a700c0d 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,9 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
+    // set_pattern() 会替换 formatter，全局 formatter 应最后设置
+    new_logger->set_pattern(global_pattern_);
     new_logger->set_formatter(global_formatter_->clone());
-    std::string pattern = global_pattern_;
-    new_logger->set_pattern(pattern);
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
-- 
2.43.0


From 4f1db4833f71d3cd61e954e64bba47fd140f2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 17/27] fix: a global pattern is set atomically and recorded in
 every registered logger

---
 base/registry.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index a700c0d..3140e38 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -60,13 +60,12 @@ void registry::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void registry::set_global_pattern(std::string pattern) {
-    {
-        std::lock_guard<std::mutex> lock(loggers_mutex_);
-        global_pattern_ = pattern;
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    global_formatter_ = learnlog::make_unique<sinks::pattern_formatter>(pattern);
+    global_pattern_ = std::move(pattern);
+    for (auto &l : loggers_) {
+        l.second->set_pattern(global_pattern_);
     }
-    auto new_pattern_formatter = 
-        learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
-    set_global_formatter(std::move(new_pattern_formatter));
 }
 
 void registry::set_global_formatter(formatter_uni_ptr new_formatter) {
-- 
2.43.0


From 6e75f519995e9e3bdfae1bb7f3cf56e62566d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 18/27] fix: a custom flag takes effect at once, as it does in
 a clone

---
 sinks/formatters/pattern_formatter.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sinks/formatters/pattern_formatter.h b/sinks/formatters/pattern_formatter.h
index 4cb8c00..7e61edc 100755
--- a/sinks/formatters/pattern_formatter.h
+++ b/sinks/formatters/pattern_formatter.h
@@ -35,6 +35,7 @@ public:
     template <typename T, typename... Args>
     void add_custom_flag(char flag, Args &&...args) {
         custom_flags_[flag] = learnlog::make_unique<T>(std::forward<Args>(args)...); 
+        analyse_pattern_(pattern_);     // 立即生效，与 clone() 得到的格式化器保持一致
     }
 
 private: 
-- 
2.43.0


From fa031f915e77c279a39bd26b979746a70ca17dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 19/27] fix: order accesses to a shared producer token with its
 lock

---
 base/lockfree_concurrent_thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..c2013c9 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -19,13 +19,14 @@ struct atomic_token {
     void enqueue_lock() {
         bool expected = false;
         while (!enqueuing_.compare_exchange_weak(expected, true,
+                                             std::memory_order_acquire,
                                              std::memory_order_relaxed)) {
             expected = false;
         }
     }
 
     void release() {
-        enqueuing_.store(false, std::memory_order_relaxed);
+        enqueuing_.store(false, std::memory_order_release);
     }
 };
 
-- 
2.43.0


From 06f0149d9eaa6b926c00732e7481c1637d0c261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 20/27] fix: a producer thread uses the token of the pool it
 logs through

---
 base/lockfree_concurrent_thread_pool.cpp |  2 ++
 base/lockfree_concurrent_thread_pool.h   | 33 +++++++++++++++---------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..d0556b5 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -5,4 +5,6 @@ using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
     thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
+    thread_local atomic_token* lockfree_concurrent_thread_pool::producer_token_ = nullptr;
+    thread_local size_t lockfree_concurrent_thread_pool::producer_pool_id_ = 0;
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index c2013c9..8b82af2 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -174,16 +174,14 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
-            size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-            {
-                std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
-            }
-            producer_sema_.signal();
+        // 同一线程可能先后（或同时）使用多个线程池，以不重复的 pool_id_ 区分，
+        // 避免使用其它（可能已析构的）线程池的 token
+        if (producer_pool_id_ == pool_id_) {
+            token = producer_token_;
         }
-        token = token_;
-#else
+        else
+#endif
+        {
         size_t tid = os::thread_id();
         {
             std::lock_guard<std::mutex> lock(p_mutex_);
@@ -200,6 +198,10 @@ private:
                 token = producer_atomic_tokens_[tid];
             }
         }
+        }
+#ifdef LEARNLOG_USE_TLS
+        producer_token_ = token;
+        producer_pool_id_ = pool_id_;
 #endif
         token->enqueue_lock();
         while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
@@ -231,11 +233,18 @@ private:
 
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
-#ifdef LEARNLOG_USE_TLS
-    static thread_local atomic_token* token_;
-#else
     std::mutex p_mutex_;
     std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
+#ifdef LEARNLOG_USE_TLS
+    static size_t next_pool_id_() {
+        static std::atomic<size_t> id{0};
+        return id.fetch_add(1, std::memory_order_relaxed) + 1;
+    }
+    const size_t pool_id_{next_pool_id_()};
+    static thread_local atomic_token* token_;           // 工作线程消费的 token
+    static thread_local atomic_token* producer_token_;  // 生产者线程最近使用的 token
+    static thread_local size_t producer_pool_id_;       // producer_token_ 所属的线程池
+#else
     std::mutex c_mutex_;
     std::unordered_map<size_t, atomic_token*> consumer_atomic_tokens_;
 #endif
-- 
2.43.0


From 6bd56fc862b02c02dc261f7aa5988b7ec4c76c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 21/27] fix: lockfree_thread_pool no longer spins forever when
 other producers hold all free blocks

---
 base/lockfree_thread_pool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index f5e890f..56bc47a 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -10,7 +10,7 @@ namespace base {
 
 // 使用无锁阻塞队列 BlockingConcurrentQueue 的线程池，处理 async_msg，
 // 循环尝试 q.try_enqueue() 入队，阻塞等待 q.wait_dequeue() 出队，
-// 队列的总占用空间不变，初始化后不再额外申请内存
+// 队列的总占用空间不变，初始化后不再额外申请内存（除非空闲块已被其它生产者占满）
 
 class lockfree_thread_pool final: public thread_pool {
 public:
@@ -105,8 +105,12 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
-        while (!msg_q_.try_enqueue(std::move(amsg)))
-            continue;
+        while (!msg_q_.try_enqueue(std::move(amsg))) {
+            // 空闲块可能全部被其它生产者占用（但未写满），此时即使队列未满 try_enqueue() 也会失败，
+            // 需要额外申请一块内存，否则会一直循环
+            if (msg_q_.size_approx() < msg_q_size_ && msg_q_.enqueue(std::move(amsg)))
+                break;
+        }
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
-- 
2.43.0


From ec575bf249c25010c126835e7349c8e230da1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 22/27] fix: lockfree_thread_pool destructor waits for messages
 to be dequeued, not only claimed

---
 base/lockfree_thread_pool.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index 56bc47a..075b676 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -84,7 +84,9 @@ public:
     }
 
     ~lockfree_thread_pool() override {
-        while (current_msg_count() != 0) {
+        // 等待所有消息真正出队，current_msg_count() 在消费者取得消息之前就已减少，
+        // 若据此提前放入 terminate，消费者可能先取得 terminate 而丢失消息
+        while (pending_cnt_.load(std::memory_order_acquire) != 0) {
             // os::sleep_for_ms(1);
         }
         for (size_t i = 0; i < threads_num_; i++) {
@@ -105,6 +107,7 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
+        pending_cnt_.fetch_add(1, std::memory_order_relaxed);
         while (!msg_q_.try_enqueue(std::move(amsg))) {
             // 空闲块可能全部被其它生产者占用（但未写满），此时即使队列未满 try_enqueue() 也会失败，
             // 需要额外申请一块内存，否则会一直循环
@@ -125,6 +128,7 @@ private:
         }
         msg_q_.wait_dequeue(*token, amsg);
 #endif
+        pending_cnt_.fetch_sub(1, std::memory_order_release);
     }
 
 #ifdef LEARNLOG_USE_TLS
@@ -134,6 +138,7 @@ private:
     std::unordered_map<size_t, c_token_uni_ptr> tokens_;
 #endif
 
+    std::atomic<size_t> pending_cnt_{0};    // 已入队（或正在入队）但尚未出队的消息数
     moodycamel::BlockingConcurrentQueue<async_msg> msg_q_;
 };
 
-- 
2.43.0


From 74e4828956192c62998f038ec83e6094092c1d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 23/27] fix: the levels of a logger can be changed while other
 threads log through it

log_level_ and flush_level_ were plain enums read by every logging thread and
written by set_log_level(), set_flush_level() and their global counterparts:
a data race. Keep them in a copyable atomic.
---
 include/logger.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/logger.h b/include/logger.h
index de25a0a..c263578 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -10,6 +10,21 @@
 
 namespace learnlog {
 
+// 可复制的原子日志级别，允许在其他线程记录日志的同时修改级别
+class atomic_level {
+public:
+    atomic_level(level::level_enum level) : level_(level) {}
+    atomic_level(const atomic_level& other) : level_(other.level_.load(std::memory_order_relaxed)) {}
+    atomic_level& operator=(const atomic_level& other) {
+        level_.store(other.level_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+        return *this;
+    }
+    operator level::level_enum() const { return level_.load(std::memory_order_relaxed); }
+
+private:
+    std::atomic<level::level_enum> level_;
+};
+
 // 所有 logger 的基类，
 // 用户的调用指令最先经由 logger 处理，logger 根据用户传入的各式参数生成消息结构体 log_msg，
 // 如果消息等级达到或高于允许被记录的等级，log_msg 会被交给 sink 处理，
@@ -208,8 +223,8 @@ protected:
     std::string name_;
     std::vector<sink_shr_ptr> sinks_;
     std::shared_ptr<base::backtracer> tracer_;
-    level::level_enum log_level_ = level::info;
-    level::level_enum flush_level_ = level::off;
+    atomic_level log_level_{level::info};
+    atomic_level flush_level_{level::off};
     std::string pattern_ = "%+";
     bool is_async_ = false;  
 
-- 
2.43.0


From dcc8a50a678dd2a3917a78442b0689eaba0e7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 24/27] fix: async factories of different pools or sinks
 exclude each other

The mutex was a static local of the factory template, one for each pool and
sink type. Two factories could therefore replace each other's pool between
choosing it and registering the logger, and a registered logger was left on a
dead pool.
---
 include/async_factory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/async_factory.h b/include/async_factory.h
index b1ac68e..586262c 100644
--- a/include/async_factory.h
+++ b/include/async_factory.h
@@ -11,12 +11,17 @@
 
 namespace learnlog {
 
+// 所有异步工厂函数共用的互斥锁，不同线程池、不同 sink 的工厂函数也不会同时替换线程池
+inline std::mutex& async_factory_mutex() {
+    static std::mutex mutex;
+    return mutex;
+}
+
 template <typename Threadpool>
 struct async_factory_template {
     template <typename Sink, typename... SinkArgs>
     static async_logger_shr_ptr create(std::string logger_name, SinkArgs &&...args) {
-        static std::mutex async_factory_mutex_;
-        std::lock_guard<std::mutex> lock(async_factory_mutex_);
+        std::lock_guard<std::mutex> lock(async_factory_mutex());
         auto tp = base::registry::instance().get_thread_pool();
         if (tp == nullptr) {
             auto tp_new = std::make_shared<Threadpool>();
-- 
2.43.0


From 1b7d4fb7131671228b77798feaffed176461a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 25/27] fix: a refused bulk enqueue with a producer token left
 blocks without index slots behind, so that items were later lost or destroyed
 twice

---
 base/concurrentqueue/concurrentqueue.h | 58 +++++++++++++++++++-------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index 23e8a63..71a3546 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -1796,11 +1796,12 @@ private:
 				if ((this->headIndex.load(std::memory_order_relaxed) & static_cast<index_t>(BLOCK_SIZE - 1)) != 0) {
 					// The head's not on a block boundary, meaning a block somewhere is partially dequeued
 					// (or the head block is the tail block and was fully dequeued, but the head/tail are still not on a boundary)
-					size_t i = (pr_blockIndexFront - pr_blockIndexSlotsUsed) & (pr_blockIndexSize - 1);
-					while (details::circular_less_than<index_t>(pr_blockIndexEntries[i].base + BLOCK_SIZE, this->headIndex.load(std::memory_order_relaxed))) {
-						i = (i + 1) & (pr_blockIndexSize - 1);
-					}
-					assert(details::circular_less_than<index_t>(pr_blockIndexEntries[i].base, this->headIndex.load(std::memory_order_relaxed)));
+					// (counted back from the newest entry: a bulk enqueue that was refused may have overwritten entries of empty blocks)
+					auto newestIndex = (pr_blockIndexFront - 1) & (pr_blockIndexSize - 1);
+					auto headBase = this->headIndex.load(std::memory_order_relaxed) & ~static_cast<index_t>(BLOCK_SIZE - 1);
+					auto offset = static_cast<size_t>((pr_blockIndexEntries[newestIndex].base - headBase) / static_cast<index_t>(BLOCK_SIZE));
+					size_t i = (newestIndex - offset) & (pr_blockIndexSize - 1);
+					assert(pr_blockIndexEntries[i].base == headBase);
 					halfDequeuedBlock = pr_blockIndexEntries[i].block;
 				}
 				
@@ -2063,6 +2064,7 @@ private:
 			auto originalBlockIndexSlotsUsed = pr_blockIndexSlotsUsed;
 			
 			Block* firstAllocatedBlock = nullptr;
+			size_t indexEntriesAdded = 0;
 			
 			// Figure out how many blocks we'll need to allocate, and do so
 			size_t blockBaseDiff = ((startTailIndex + count - 1) & ~static_cast<index_t>(BLOCK_SIZE - 1)) - ((startTailIndex - 1) & ~static_cast<index_t>(BLOCK_SIZE - 1));
@@ -2080,8 +2082,11 @@ private:
 					entry.base = currentTailIndex;
 					entry.block = this->tailBlock;
 					pr_blockIndexFront = (pr_blockIndexFront + 1) & (pr_blockIndexSize - 1);
+					++indexEntriesAdded;
 				}
 				
+				auto lastOwnBlock = this->tailBlock;
+				
 				// Now allocate as many blocks as necessary from the block pool
 				while (blockBaseDiff > 0) {
 					blockBaseDiff -= static_cast<index_t>(BLOCK_SIZE);
@@ -2092,17 +2097,13 @@ private:
 					bool full = !details::circular_less_than<index_t>(head, currentTailIndex + BLOCK_SIZE) || (MAX_SUBQUEUE_SIZE != details::const_numeric_max<size_t>::value && (MAX_SUBQUEUE_SIZE == 0 || MAX_SUBQUEUE_SIZE - BLOCK_SIZE < currentTailIndex - head));
 					if (pr_blockIndexRaw == nullptr || pr_blockIndexSlotsUsed == pr_blockIndexSize || full) {
 						MOODYCAMEL_CONSTEXPR_IF (allocMode == CannotAlloc) {
-							// Failed to allocate, undo changes (but keep injected blocks)
-							pr_blockIndexFront = originalBlockIndexFront;
-							pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-							this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
+							// Failed to allocate, undo changes
+							undo_block_allocations(startBlock, lastOwnBlock, indexEntriesAdded, originalBlockIndexSlotsUsed);
 							return false;
 						}
 						else if (full || !new_block_index(originalBlockIndexSlotsUsed)) {
-							// Failed to allocate, undo changes (but keep injected blocks)
-							pr_blockIndexFront = originalBlockIndexFront;
-							pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-							this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
+							// Failed to allocate, undo changes
+							undo_block_allocations(startBlock, lastOwnBlock, indexEntriesAdded, originalBlockIndexSlotsUsed);
 							return false;
 						}
 						
@@ -2115,9 +2116,7 @@ private:
 					// Insert a new block in the circular linked list
 					auto newBlock = this->parent->ConcurrentQueue::template requisition_block<allocMode>();
 					if (newBlock == nullptr) {
-						pr_blockIndexFront = originalBlockIndexFront;
-						pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
-						this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
+						undo_block_allocations(startBlock, lastOwnBlock, indexEntriesAdded, originalBlockIndexSlotsUsed);
 						return false;
 					}
 					
@@ -2141,6 +2140,7 @@ private:
 					entry.base = currentTailIndex;
 					entry.block = this->tailBlock;
 					pr_blockIndexFront = (pr_blockIndexFront + 1) & (pr_blockIndexSize - 1);
+					++indexEntriesAdded;
 				}
 				
 				// Excellent, all allocations succeeded. Reset each block's emptiness before we fill them up, and
@@ -2353,6 +2353,32 @@ private:
 		};
 		
 		
+		// Takes back the block allocations of a bulk enqueue that cannot go through. The blocks that were
+		// injected after lastOwnBlock lose their slots in the block index, so they must leave the list too.
+		void undo_block_allocations(Block* startBlock, Block* lastOwnBlock, size_t indexEntriesAdded, size_t originalBlockIndexSlotsUsed)
+		{
+			pr_blockIndexFront = (pr_blockIndexFront - indexEntriesAdded) & (pr_blockIndexSize - 1);
+			pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
+			if (this->tailBlock != lastOwnBlock) {
+				auto lastInjectedBlock = this->tailBlock;
+				auto afterInjected = lastInjectedBlock->next;
+				auto block = lastOwnBlock == nullptr ? afterInjected : lastOwnBlock->next;
+				if (lastOwnBlock != nullptr) {
+					lastOwnBlock->next = afterInjected;
+				}
+				while (true) {
+					auto nextBlock = block->next;
+					bool last = block == lastInjectedBlock;
+					this->parent->add_block_to_free_list(block);
+					if (last) {
+						break;
+					}
+					block = nextBlock;
+				}
+			}
+			this->tailBlock = startBlock;
+		}
+		
 		bool new_block_index(size_t numberOfFilledSlotsToExpose)
 		{
 			auto prevBlockSizeMask = pr_blockIndexSize - 1;
-- 
2.43.0


From e1ea76b86f65541f71ebd39e1a7a07cef6a2b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 26/27] fix: stop periodic flushing before the pool when the
 registry is destroyed at exit

---
 base/registry.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/registry.h b/base/registry.h
index c6aab11..c95fa78 100644
--- a/base/registry.h
+++ b/base/registry.h
@@ -78,11 +78,12 @@ private:
     logger_shr_ptr default_logger_;
     std::unordered_map<std::string, logger_shr_ptr > loggers_;
 
-    std::mutex flusher_mutex_;
-    std::unique_ptr<periodic_function> global_flusher_;
-
     std::mutex thread_mutex_;
     thread_pool_shr_ptr thread_pool_;
+
+    // 声明在 thread_pool_ 之后，析构时先停止定时 flush，否则会 flush 线程池已析构的 logger
+    std::mutex flusher_mutex_;
+    std::unique_ptr<periodic_function> global_flusher_;
 };
 
 }   // namespace base
-- 
2.43.0


From d45425e48bb39a718c6130ff36ceab7a7544a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 27/27] fix: reporting an error no longer asserts that the wall
 clock has advanced

---
 base/exception.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/exception.h b/base/exception.h
index d209299..a06fcb7 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -32,7 +32,6 @@ inline void handle_excpt(const std::string& msg) {
     tp lr_time = last_report_time.load(std::memory_order_acquire);
     tp now = sys_clock::now();
     size_t cnt = report_cnt.fetch_add(1, std::memory_order_relaxed);
-    assert( now - lr_time > std::chrono::nanoseconds(1) );
     (void)lr_time;
     // if(now - lr_time < std::chrono::seconds(1)){ return; }
     last_report_time.store(now, std::memory_order_release);
-- 
2.43.0

