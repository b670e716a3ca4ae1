From 4cb54a3fe79fddf08a63b6e4378c2d60c94fe750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:02 +0000
Subject: [PATCH 01/24] fix: hold the control lock while set_command_path and
 set_log_level_style sync

Both functions posted to the control sink under control_mutex_ but then called
control_.sync() without it, so two threads calling logger functions at the same
time wrote to the single-producer control queue concurrently.
---
 src/logger.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 386fdce..25b48d5 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -43,7 +43,10 @@ void xtr::logger::register_sink(sink& s, std::string name) noexcept
 XTR_FUNC
 void xtr::logger::set_command_path(std::string path) noexcept
 {
-    post(
+    // control_ may only be used by one thread at a time, so the lock must be
+    // held until sync has returned.
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [s = std::move(path)](detail::consumer& c, auto&) mutable
         {
             c.set_command_path(std::move(s));
@@ -54,7 +57,8 @@ void xtr::logger::set_command_path(std::string path) noexcept
 XTR_FUNC
 void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
 {
-    post(
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [=](detail::consumer& c, auto&)
         {
             c.buf.lstyle = level_style;
-- 
2.43.0


From b1a72b4e20df2b8492d4b050d6c9dfa8536625e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:44 +0000
Subject: [PATCH 02/24] fix: sanitize std::string arguments that are moved into
 the log record

---
 include/xtr/detail/string_ref.hpp   | 29 +++++++++++++++++++++++++++++
 include/xtr/detail/string_table.hpp | 12 +++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_ref.hpp b/include/xtr/detail/string_ref.hpp
index 5a76114..7da3a4c 100644
--- a/include/xtr/detail/string_ref.hpp
+++ b/include/xtr/detail/string_ref.hpp
@@ -25,6 +25,7 @@
 
 #include <fmt/core.h>
 
+#include <iterator>
 #include <string>
 #include <string_view>
 
@@ -66,6 +67,19 @@ namespace xtr::detail
 
         std::string_view str;
     };
+
+    // For strings that were moved into the log record
+    template<>
+    struct string_ref<std::string>
+    {
+        explicit string_ref(const std::string& s)
+        :
+            str(s)
+        {
+        }
+
+        const std::string& str;
+    };
 }
 
 namespace fmt
@@ -107,6 +121,21 @@ namespace fmt
             return pos;
         }
     };
+
+    template<>
+    struct formatter<xtr::detail::string_ref<std::string>> :
+        formatter<std::string_view>
+    {
+        template<typename FormatContext>
+        auto format(const xtr::detail::string_ref<std::string> ref, FormatContext &ctx) const
+        {
+            std::string str;
+            auto pos = std::back_inserter(str);
+            for (const char c : ref.str)
+                xtr::detail::sanitize_char_to(pos, c);
+            return formatter<std::string_view>::format(str, ctx);
+        }
+    };
 }
 
 #endif
diff --git a/include/xtr/detail/string_table.hpp b/include/xtr/detail/string_table.hpp
index e2a7ebd..37f6a1f 100644
--- a/include/xtr/detail/string_table.hpp
+++ b/include/xtr/detail/string_table.hpp
@@ -55,12 +55,22 @@ namespace xtr::detail
     };
 
     template<typename T>
-    requires (!std::same_as<std::remove_cvref_t<T>, string_table_entry>)
+    requires
+        (!std::same_as<std::remove_cvref_t<T>, string_table_entry> &&
+         !std::same_as<std::remove_cvref_t<T>, std::string>)
     T&& transform_string_table_entry(const std::byte*, T&& value)
     {
         return std::forward<T>(value);
     }
 
+    // Strings that were moved into the log record are not in the string table
+    inline string_ref<std::string> transform_string_table_entry(
+        const std::byte*,
+        const std::string& str)
+    {
+        return string_ref<std::string>(str);
+    }
+
     inline string_ref<std::string_view> transform_string_table_entry(
         std::byte*& pos,
         string_table_entry entry)
-- 
2.43.0


From de3d684b54965f5629fdf37db6936ce8e7da1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:04 +0000
Subject: [PATCH 03/24] fix: flush the log after the last records of a sink
 that was closed are written

---
 src/consumer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index eaa00fb..94856cb 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -98,6 +98,7 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
+            flush_count = sinks_.size();
             continue;
         }
 
-- 
2.43.0


From 97f879ced4feff0beabf14c9baf46e018f484d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:39 +0000
Subject: [PATCH 04/24] fix: report messages dropped by a sink that is then
 closed

---
 include/xtr/detail/consumer.hpp |  1 +
 src/consumer.cpp                | 36 ++++++++++++++++++++-------------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index e2bda1d..5447545 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -57,6 +57,7 @@ private:
         sink* p;
         std::string name;
         std::size_t dropped_count = 0;
+        std::size_t unreported_count = 0;
     };
 
 public:
diff --git a/src/consumer.cpp b/src/consumer.cpp
index 94856cb..5a8f751 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -75,6 +75,10 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             ts_stale = false;
         }
 
+        // The dropped count is read before processing records because the sink
+        // may not be accessed after a record that closes it is processed.
+        sinks_[n].unreported_count += sinks_[n]->buf_.dropped_count();
+
         // span.end is capped to the end of the first mapping to guarantee that
         // data is only read from the same address that it was written to (the
         // sink always begins log records in the first mapping, so we do not
@@ -93,21 +97,15 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             pos = fptr(buf, pos, *this, ts, sinks_[n].name);
         } while (pos < end);
 
-        if (destroy)
+        if (!destroy)
         {
-            using std::swap;
-            swap(sinks_[n], sinks_.back()); // possible self-swap, ok
-            sinks_.pop_back();
-            flush_count = sinks_.size();
-            continue;
+            sinks_[n]->buf_.reduce_readable(
+                sink::ring_buffer::size_type(pos - span.begin()));
+            sinks_[n].unreported_count += sinks_[n]->buf_.dropped_count();
         }
 
-        sinks_[n]->buf_.reduce_readable(
-            sink::ring_buffer::size_type(pos - span.begin()));
-
-        std::size_t n_dropped;
-        if (sinks_[n]->buf_.read_span().empty() &&
-            (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
+        if (sinks_[n].unreported_count > 0 &&
+            (destroy || sinks_[n]->buf_.read_span().empty()))
         {
             detail::print(
                 buf,
@@ -115,8 +113,18 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
                 log_level_t::warning,
                 ts,
                 sinks_[n].name,
-                n_dropped);
-            sinks_[n].dropped_count += n_dropped;
+                sinks_[n].unreported_count);
+            sinks_[n].dropped_count += sinks_[n].unreported_count;
+            sinks_[n].unreported_count = 0;
+        }
+
+        if (destroy)
+        {
+            using std::swap;
+            swap(sinks_[n], sinks_.back()); // possible self-swap, ok
+            sinks_.pop_back();
+            flush_count = sinks_.size();
+            continue;
         }
 
         // flushing may be late/early if sinks is modified, doesn't matter
-- 
2.43.0


From 2f94ca6f6248bb1ad1b8a1481bffb302c7266942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:30 +0000
Subject: [PATCH 05/24] fix: synchronise the TSC with the wall clock on first
 use within a minute of reset

---
 src/tsc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 1565473..9398eb3 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -159,8 +159,8 @@ std::timespec xtr::detail::tsc::to_timespec(tsc ts)
     static const std::uint64_t one_minute_ticks = 60 * get_tsc_hz();
     static const double tsc_multiplier = 1e9 / double(get_tsc_hz());
 
-    // Sync up TSC and wall clocks every minute
-    if (ts.ticks > last_tsc.ticks + one_minute_ticks)
+    // Sync up TSC and wall clocks on first use, then every minute
+    if (last_epoch_nanos == 0 || ts.ticks > last_tsc.ticks + one_minute_ticks)
     {
         last_tsc = tsc::now();
         std::timespec temp;
-- 
2.43.0


From 555993a2977844ab7c861cd1d91926f9bdf15845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:49 +0000
Subject: [PATCH 06/24] fix: submit outstanding io_uring entries before waiting
 for a completion

---
 src/io_uring_fd_storage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 32b1f41..d078efb 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -242,6 +242,12 @@ void xtr::io_uring_fd_storage::wait_for_one_cqe()
     int errnum;
 
 retry:
+    // SQEs may not have been submitted, either due to batching or because an
+    // earlier submission was incomplete, in which case waiting for a CQE could
+    // block forever.
+    if (::io_uring_sq_ready(&ring_) > 0)
+        io_uring_submit_func_(&ring_);
+
 #if XTR_IO_URING_POLL
     while ((errnum = io_uring_peek_cqe_func_(&ring_, &cqe)) == -EAGAIN)
         ;
-- 
2.43.0


From db2113ed4d7cf6f6094dc911156b2daa48d1a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:47 +0000
Subject: [PATCH 07/24] fix: begin io_uring writes at the current file position

---
 src/io_uring_fd_storage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index d078efb..84e6f60 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -31,6 +31,8 @@
 #include <cstring>
 #include <limits>
 
+#include <unistd.h>
+
 XTR_FUNC
 xtr::io_uring_fd_storage::io_uring_fd_storage(
     int fd,
@@ -76,6 +78,10 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
     }
 
     allocate_buffers(queue_size);
+
+    // Begin writing at the current position in the file
+    if (const ::off_t pos = ::lseek(fd_.get(), 0, SEEK_CUR); pos > 0)
+        offset_ = std::size_t(pos);
 }
 
 XTR_FUNC
-- 
2.43.0


From 5997fffcafc2473273b366994bc1b63586661856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:00 +0000
Subject: [PATCH 08/24] fix: keep the reopen path when falling back to
 posix_fd_storage

---
 src/fd_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index b6e4520..271f996 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -69,7 +69,7 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
     {
         try
         {
-            return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));
+            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From b786d57e8120c1744f67c731f502ba3f9db03793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:14 +0000
Subject: [PATCH 09/24] fix: close the file descriptor opened by
 make_fd_storage after it is duplicated

---
 src/fd_storage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index 271f996..c51ce80 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -23,6 +23,7 @@
 #include "xtr/io/io_uring_fd_storage.hpp"
 #include "xtr/io/posix_fd_storage.hpp"
 
+#include "xtr/detail/file_descriptor.hpp"
 #include "xtr/detail/retry.hpp"
 #include "xtr/detail/throw.hpp"
 
@@ -39,17 +40,18 @@
 XTR_FUNC
 xtr::storage_interface_ptr xtr::make_fd_storage(const char* path)
 {
-    const int fd =
+    const detail::file_descriptor fd(
         XTR_TEMP_FAILURE_RETRY(
             ::open(
                 path,
                 O_CREAT|O_APPEND|O_WRONLY,
-                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));
+                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH)));
 
-    if (fd == -1)
+    if (!fd)
         detail::throw_system_error_fmt(errno, "Failed to open `%s'", path);
 
-    return make_fd_storage(fd, path);
+    // The storage object duplicates the file descriptor
+    return make_fd_storage(fd.get(), path);
 }
 
 XTR_FUNC
-- 
2.43.0


From 85f4548c84ca91da5604f3f7ed7d5b8e011a43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:28 +0000
Subject: [PATCH 10/24] fix: release the io_uring if registering buffers fails

---
 src/io_uring_fd_storage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 84e6f60..850ae79 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -214,6 +214,7 @@ void xtr::io_uring_fd_storage::allocate_buffers(std::size_t queue_size)
     if (const int errnum =
         ::io_uring_register_buffers(&ring_, &iov[0], unsigned(iov.size())))
     {
+        ::io_uring_queue_exit(&ring_);
         detail::throw_system_error_fmt(
             -errnum,
             "xtr::io_uring_fd_storage::allocate_buffers: "
-- 
2.43.0


From 42145c3af3dc531bfca18905ab0bf651e74757b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:42 +0000
Subject: [PATCH 11/24] fix: complete pending io_uring writes before reopening
 the log file

---
 src/io_uring_fd_storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 850ae79..5a77dd0 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -174,6 +174,11 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // As write events might be in-flight, closing the file descriptor must
     // be queued up behind any pending writes. IOSQE_IO_DRAIN is used to
     // ensure that all previous writes complete before closing.
+    // Writes that are incomplete are resubmitted, which must be done before
+    // the file descriptor is replaced.
+    while (pending_cqe_count_ > 0)
+        wait_for_one_cqe();
+
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
     sqe->flags |= IOSQE_IO_DRAIN;
-- 
2.43.0


From 9116d68da6998721a0cd8163786f9c9d056575d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:50 +0000
Subject: [PATCH 12/24] fix: do not submit a buffer twice if allocating the
 next buffer fails

---
 src/buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer.cpp b/src/buffer.cpp
index 021c71a..db78085 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -114,7 +114,11 @@ XTR_FUNC
 void xtr::detail::buffer::next_buffer()
 {
     if (pos_ != begin_) [[likely]] // if not the first call to push_back
+    {
         storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
+        // The buffer must not be submitted again if allocate_buffer throws
+        pos_ = begin_ = end_ = nullptr;
+    }
     const std::span<char> s = storage_->allocate_buffer();
     begin_ = s.data();
     end_ = begin_ + s.size();
-- 
2.43.0


From 2f9b15a46ec4f5032858afb8a12550d7196a5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:27 +0000
Subject: [PATCH 13/24] fix: do not write part of a buffer twice when retrying
 a failed write

---
 include/xtr/io/posix_fd_storage.hpp |  1 +
 src/posix_fd_storage.cpp            | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xtr/io/posix_fd_storage.hpp b/include/xtr/io/posix_fd_storage.hpp
index 98a0512..af3f1b2 100644
--- a/include/xtr/io/posix_fd_storage.hpp
+++ b/include/xtr/io/posix_fd_storage.hpp
@@ -74,6 +74,7 @@ public:
 private:
     std::unique_ptr<char[]> buf_;
     std::size_t buffer_capacity_;
+    std::size_t nwritten_ = 0;
 };
 
 #endif
diff --git a/src/posix_fd_storage.cpp b/src/posix_fd_storage.cpp
index 052c86e..d755cf4 100644
--- a/src/posix_fd_storage.cpp
+++ b/src/posix_fd_storage.cpp
@@ -49,10 +49,13 @@ std::span<char> xtr::posix_fd_storage::allocate_buffer()
 XTR_FUNC
 void xtr::posix_fd_storage::submit_buffer(char* buf, std::size_t size)
 {
-    while (size > 0)
+    // If a previous attempt to submit this buffer failed then part of the
+    // buffer may already have been written.
+    while (nwritten_ < size)
     {
         const ::ssize_t nwritten =
-            XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size));
+            XTR_TEMP_FAILURE_RETRY(
+                ::write(fd_.get(), buf + nwritten_, size - nwritten_));
         if (nwritten == -1)
         {
             detail::throw_system_error_fmt(
@@ -60,7 +63,7 @@ void xtr::posix_fd_storage::submit_buffer(char* buf, std::size_t size)
                 "xtr::posix_fd_storage::submit_buffer: write failed");
             return;
         }
-        size -= std::size_t(nwritten);
-        buf += std::size_t(nwritten);
+        nwritten_ += std::size_t(nwritten);
     }
+    nwritten_ = 0;
 }
-- 
2.43.0


From f7bd43eb2e56ce92ca6708d5c4888f6054a8a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:13 +0000
Subject: [PATCH 14/24] fix: make the default log level of a logger atomic

---
 include/xtr/logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index b72b054..c594f9f 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -31,6 +31,7 @@
 #include "log_level.hpp"
 #include "sink.hpp"
 
+#include <atomic>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
@@ -354,7 +355,7 @@ private:
     jthread consumer_;
     sink control_;
     std::mutex control_mutex_;
-    log_level_t default_log_level_ = log_level_t::info;
+    std::atomic<log_level_t> default_log_level_ = log_level_t::info;
 
     friend sink;
 };
-- 
2.43.0


From 7a4003462482b2d13019eea4c1b14321ce043943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:36 +0000
Subject: [PATCH 15/24] fix: do not tear a line when an error occurs while it
 is appended

---
 include/xtr/detail/buffer.hpp |  8 +++++---
 src/buffer.cpp                | 23 ++++++++++++++---------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/xtr/detail/buffer.hpp b/include/xtr/detail/buffer.hpp
index f7d0625..41cd6e0 100644
--- a/include/xtr/detail/buffer.hpp
+++ b/include/xtr/detail/buffer.hpp
@@ -47,9 +47,6 @@ public:
 
     ~buffer();
 
-    template<typename InputIterator>
-    void append(InputIterator first, InputIterator last);
-
     void flush() noexcept;
 
     storage_interface& storage() noexcept
@@ -63,9 +60,14 @@ public:
     log_level_style_t lstyle;
 
 private:
+    void append_pending();
     void next_buffer();
 
     storage_interface_ptr storage_;
+    // The line being appended. If an error occurs while appending then the
+    // rest of the line is retained, so that the line is not torn.
+    std::string pending_;
+    std::size_t npending_ = 0; // Number of bytes of pending_ already appended
     char* pos_ = nullptr;
     char* begin_ = nullptr;
     char* end_ = nullptr;
diff --git a/src/buffer.cpp b/src/buffer.cpp
index db78085..a0dd867 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -49,6 +49,7 @@ void xtr::detail::buffer::flush() noexcept
     try
     {
 #endif
+        append_pending();
         if (pos_ != begin_)
         {
             storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
@@ -71,22 +72,25 @@ void xtr::detail::buffer::flush() noexcept
 #endif
 }
 
-template<typename InputIterator>
-void xtr::detail::buffer::append(InputIterator first, InputIterator last)
+XTR_FUNC
+void xtr::detail::buffer::append_pending()
 {
-    while (first != last)
+    while (npending_ != pending_.size())
     {
         if (pos_ == end_) [[unlikely]]
             next_buffer();
 
-        const auto n = std::min(last - first, end_ - pos_);
+        const auto n =
+            std::min(pending_.size() - npending_, std::size_t(end_ - pos_));
 
-        // Safe as the input iterator is contiguous
-        std::memcpy(pos_, &*first, std::size_t(n));
+        std::memcpy(pos_, pending_.data() + npending_, n);
 
         pos_ += n;
-        first += n;
+        npending_ += n;
     }
+
+    pending_.clear();
+    npending_ = 0;
 }
 
 // This class could support zero-copy I/O, with fmt writing directly into it
@@ -106,8 +110,9 @@ void xtr::detail::buffer::append(InputIterator first, InputIterator last)
 XTR_FUNC
 void xtr::detail::buffer::append_line()
 {
-    append(line.begin(), line.end());
-    line.clear();
+    append_pending(); // in case a previous line could not be appended in full
+    pending_.swap(line);
+    append_pending();
 }
 
 XTR_FUNC
-- 
2.43.0


From 6a3cb9b4b1d77793d7ccb47fe8374805a7e314c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:01 +0000
Subject: [PATCH 16/24] fix: do not mistake the completion of a close for that
 of a write

---
 src/io_uring_fd_storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 5a77dd0..247ec27 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -181,6 +181,8 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
 
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
+    // The data must be set as io_uring_prep_close does not clear it
+    ::io_uring_sqe_set_data(sqe, nullptr);
     sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
-- 
2.43.0


From 59fe667956c838479655e60e381c0d855f7a099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 17/24] fix: reject negative levels in set-level requests

---
 src/consumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 5a8f751..1af0ccc 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -226,7 +226,7 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
 {
     sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\0';
 
-    if (sl.level > xtr::log_level_t::debug)
+    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
     {
         cmds_->send_error(fd, "Invalid level");
         return;
-- 
2.43.0


From d4031790a2aa3b5333332a1a37dbf0233c4319ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:42 +0000
Subject: [PATCH 18/24] fix: include every sink in commands while the logger is
 destructing

---
 include/xtr/detail/consumer.hpp |  4 ++++
 src/consumer.cpp                | 12 ++++--------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index 5447545..d15e3bd 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -67,6 +67,7 @@ public:
     consumer(buffer&& bf, sink* control, std::string command_path)
     :
         buf(std::move(bf)),
+        control_(control),
         sinks_({{control, "control", 0}})
     {
         set_command_path(std::move(command_path));
@@ -88,6 +89,9 @@ private:
     void set_level_handler(int fd, detail::set_level&);
     void reopen_handler(int fd, detail::reopen&);
 
+    // The control sink, which is hidden from commands. Note that it is not at
+    // a fixed position in sinks_ and is removed when the logger is destructing.
+    const sink* control_;
     std::vector<sink_handle> sinks_;
     std::unique_ptr<
         detail::command_dispatcher,
diff --git a/src/consumer.cpp b/src/consumer.cpp
index 1af0ccc..e2ce2f4 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -202,11 +202,9 @@ void xtr::detail::consumer::status_handler(int fd, detail::status& st)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         detail::frame<detail::sink_info> sif;
@@ -244,11 +242,9 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         s->set_level(sl.level);
-- 
2.43.0


From c7677ab49f0f23658a772dd9f9c3c2c2fe020ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:44 +0000
Subject: [PATCH 19/24] fix: round times before the epoch of a clock down to a
 second

---
 include/xtr/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index c594f9f..10d49df 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -345,7 +345,7 @@ private:
                 const auto now = clock_.now();
                 auto sec = time_point_cast<seconds>(now);
                 if (sec > now)
-                    sec - seconds{1};
+                    sec -= seconds{1};
                 return std::timespec{
                     .tv_sec=sec.time_since_epoch().count(),
                     .tv_nsec=duration_cast<nanoseconds>(now - sec).count()};
-- 
2.43.0


From f17391f328938c9a275f13002afed94bf3a2ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:22 +0000
Subject: [PATCH 20/24] fix: do not unmap the mirror mapping twice when mremap
 fails

---
 src/mirrored_memory_mapping.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mirrored_memory_mapping.cpp b/src/mirrored_memory_mapping.cpp
index 70c05f0..a7c843c 100644
--- a/src/mirrored_memory_mapping.cpp
+++ b/src/mirrored_memory_mapping.cpp
@@ -139,8 +139,10 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
 
         if (!m_)
         {
+            const int errnum = errno;
+            mirror.release(); // mirror is within reserve, do not unmap it twice
             throw_system_error(
-                errno,
+                errnum,
                 "xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping: "
                 "mremap failed");
         }
@@ -180,10 +182,14 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         fd,
         offset);
 
+    // mirror is within reserve, so if creating m_ fails then it is unmapped
+    // along with reserve. Otherwise it will be recreated in
+    // ~mirrored_memory_mapping.
+    mirror.release();
+
     m_ = memory_mapping(reserve.get(), length, prot, flags, fd, offset);
 
     reserve.release(); // mapping was destroyed when m_ was created
-    mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
 }
 
 XTR_FUNC
-- 
2.43.0


From 10811f2bc62f40b8fdff4d2ff5323d478f4e7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:02 +0000
Subject: [PATCH 21/24] fix: xtrctl fails if the connection is closed before a
 reply is received

---
 src/xtrctl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 0149c2b..89a1408 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -238,6 +238,7 @@ int main(int argc, char* argv[])
 
     std::vector<xtrd::sink_info> infos;
     xtrd::frame_buf buf;
+    bool success = false;
 
     while (const ::ssize_t nbytes = xtrd::command_recv(fd.get(), buf))
     {
@@ -253,6 +254,7 @@ int main(int argc, char* argv[])
             infos.push_back(*frame_cast<xtrd::sink_info>(&buf, std::size_t(nbytes)));
             break;
         case xtrd::success::frame_id:
+            success = true;
             std::cout << "Success\n";
             break;
         case xtrd::error::frame_id:
@@ -262,6 +264,11 @@ int main(int argc, char* argv[])
         }
     }
 
+    // Unlike the status command, where there may be no matching sinks, other
+    // commands are always replied to.
+    if (!status && !success)
+        errx("Error: Connection closed before a reply was received");
+
     std::sort(
         infos.begin(),
         infos.end(),
-- 
2.43.0


From e91c98a8020cf936f428f04f1be25f54c873a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:40 +0000
Subject: [PATCH 22/24] fix: do not terminate if a log error cannot be reported
 to stderr

---
 include/xtr/detail/print.hpp | 19 +++++++++++++------
 src/buffer.cpp               | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/xtr/detail/print.hpp b/include/xtr/detail/print.hpp
index 6713e4b..a82c44d 100644
--- a/include/xtr/detail/print.hpp
+++ b/include/xtr/detail/print.hpp
@@ -64,12 +64,19 @@ namespace xtr::detail
         catch (const std::exception& e)
         {
             using namespace std::literals::string_view_literals;
-            fmt::print(
-                stderr,
-                "{}{}: Error writing log: {}\n"sv,
-                buf.lstyle(log_level_t::error),
-                ts,
-                e.what());
+            try
+            {
+                fmt::print(
+                    stderr,
+                    "{}{}: Error writing log: {}\n"sv,
+                    buf.lstyle(log_level_t::error),
+                    ts,
+                    e.what());
+            }
+            catch (const std::exception&)
+            {
+                // stderr is not writable either
+            }
             buf.line.clear();
         }
 #endif
diff --git a/src/buffer.cpp b/src/buffer.cpp
index a0dd867..2d2ad55 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -62,12 +62,19 @@ void xtr::detail::buffer::flush() noexcept
     catch (const std::exception& e)
     {
         using namespace std::literals::string_view_literals;
-        fmt::print(
-            stderr,
-            "{}{}: Error flushing log: {}\n"sv,
-            lstyle(log_level_t::error),
-            detail::get_time<XTR_CLOCK_WALL>(),
-            e.what());
+        try
+        {
+            fmt::print(
+                stderr,
+                "{}{}: Error flushing log: {}\n"sv,
+                lstyle(log_level_t::error),
+                detail::get_time<XTR_CLOCK_WALL>(),
+                e.what());
+        }
+        catch (const std::exception&)
+        {
+            // stderr is not writable either
+        }
     }
 #endif
 }
-- 
2.43.0


From 6ab705f89c5c8e2f4006b7e828e01ca82601db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:55 +0000
Subject: [PATCH 23/24] fix: submit all io_uring writes when flushing, after a
 partial submission

---
 src/io_uring_fd_storage.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 247ec27..eb34424 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -117,8 +117,16 @@ xtr::io_uring_fd_storage::~io_uring_fd_storage()
 XTR_FUNC
 void xtr::io_uring_fd_storage::flush()
 {
-    // SQEs may have been prepared but not submitted, due to batching
-    io_uring_submit_func_(&ring_);
+    // SQEs may have been prepared but not submitted, due to batching. The
+    // kernel may also submit only some of them, nothing else would submit the
+    // remainder if no more buffers are written.
+    unsigned nready;
+    int nsubmitted;
+    do
+    {
+        nready = ::io_uring_sq_ready(&ring_);
+        nsubmitted = io_uring_submit_func_(&ring_);
+    } while (nsubmitted > 0 && unsigned(nsubmitted) < nready);
 }
 
 XTR_FUNC
-- 
2.43.0


From d54b2d6d6ed23987e8fbd6a8d20b7c5f46d97b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:39 +0000
Subject: [PATCH 24/24] fix: allow statements with both a string and an
 over-aligned argument

---
 include/xtr/sink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index 66e88fd..f768b91 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -285,7 +285,7 @@ void xtr::sink::post_with_str_table(Args&&... args)
 
     auto func_pos = s.begin() + sizeof(fptr_t);
     if constexpr (alignof(lambda_t) > alignof(fptr_t))
-        func_pos = align<alignof(lambda_t)>(func_pos);
+        func_pos = detail::align<alignof(lambda_t)>(func_pos);
 
     static_assert(alignof(char) == 1);
     const auto str_pos = func_pos + sizeof(lambda_t);
-- 
2.43.0

