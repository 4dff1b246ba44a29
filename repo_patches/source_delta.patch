From da433e001a13a5eb54f58917a444805fca9a4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 01/91] fix: pass the mode argument through the open wrappers

open, open64 and openat handed a va_list to the libc call instead of the
mode, so files were created with arbitrary permission bits. openat also
lacked the label parameter of its first argument.
---
 .../src/taint_sources/taint_sources.cpp       | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index fba8458..b99dd91 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,13 +47,18 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
-static int impl_open(const char *path, int oflags, dfsan_label path_label,
-                     dfsan_label flag_label, dfsan_label *va_labels,
-                     dfsan_label *ret_label, ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = open(path, oflags, args);
-  va_end(args);
+// Returns the `mode` argument of an open-style call. It is only present if the
+// call can create a file.
+static mode_t open_mode(int oflags, va_list args) {
+  if ((oflags & O_CREAT) || (oflags & O_TMPFILE) == O_TMPFILE) {
+    return va_arg(args, mode_t);
+  }
+  return 0;
+}
+
+static int impl_open(const char *path, int oflags, mode_t mode,
+                     dfsan_label *ret_label) {
+  int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
@@ -159,24 +164,33 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
                            dfsan_label flag_label, dfsan_label *va_labels,
                            dfsan_label *ret_label, ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
-                             dfsan_label path_label, dfsan_label flag_label,
-                             dfsan_label *va_labels, dfsan_label *ret_label,
-                             ...) {
+                             dfsan_label dirfd_label, dfsan_label path_label,
+                             dfsan_label flag_label, dfsan_label *va_labels,
+                             dfsan_label *ret_label, ...) {
   va_list args;
   va_start(args, ret_label);
-  int fd = openat(dirfd, path, oflags, args);
+  mode_t mode = open_mode(oflags, args);
   va_end(args);
+  int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
-- 
2.43.0


From 07539ab1921d3c2139cac9a3cb59501598c9fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 02/91] fix: record every character written by putc, fputc and
 _putc

The written character is returned as an unsigned char, so comparing it
with the argument dropped characters passed as negative or wide values.
_putc recorded nothing at all.
---
 polytracker/src/taint_sources/taint_sources.cpp | 6 ------
 polytracker/src/taint_sources/write_taints.cpp  | 7 ++++++-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index b99dd91..b75ac87 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -391,12 +391,6 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   return ret;
 }
 
-EXT_C_FUNC int __dfsw__putc(int __c, FILE *__fp, dfsan_label c_label,
-                            dfsan_label fp_label, dfsan_label *ret_label) {
-  *ret_label = 0;
-  return putc(__c, __fp);
-}
-
 EXT_C_FUNC int __dfsw_pthread_cond_broadcast(pthread_cond_t *cond,
                                              dfsan_label cond_label,
                                              dfsan_label *ret_label) {
diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 575cdb9..60a5162 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -81,7 +81,7 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
-  if (ret == ch) {
+  if (ret != EOF) {
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
@@ -94,6 +94,11 @@ EXT_C_FUNC int __dfsw_fputc(int ch, FILE *stream, dfsan_label ch_label,
   return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
 }
 
+EXT_C_FUNC int __dfsw__putc(int ch, FILE *stream, dfsan_label ch_label,
+                            dfsan_label stream_label, dfsan_label *ret_label) {
+  return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
+}
+
 // Socket functions
 EXT_C_FUNC ssize_t __dfsw_send(int socket, void *buffer, size_t length,
                                int flags, dfsan_label socket_label,
-- 
2.43.0


From 6918a08229b4dc7bc7b2c57bd2a87f6d020d8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 03/91] fix: mark labels affecting control flow when they are
 queued

A label was only marked when taken off the queue, so a shared label was
queued once per path leading to it: exponential time and memory on
diamond shaped graphs.
---
 polytracker/include/taintdag/labels.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 66fcb5b..a4a16d2 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -119,20 +119,16 @@ struct Labels : public FixedSizeAlloc<storage_t> {
     using labelq = utils::LabelDeq<32>;
 
     // Do a check on label to see if it shoudld be added to the q.
-    // - If it affects control flow, ignore it. Already processed.
+    // - If it affects control flow, ignore it. Already processed (or queued).
     // - If it is source taint, just mark it as affecting cf.
-    // - else add for further processing
+    // - else mark it and add for further processing
     auto add_to_q = [this](label_t label) -> bool {
       auto encoded = begin()[label];
       if (check_affects_control_flow(encoded))
         return false;
 
-      if (is_source_taint(encoded)) {
-        set_affects_control_flow(label);
-        return false;
-      }
-
-      return true;
+      set_affects_control_flow(label);
+      return !is_source_taint(encoded);
     };
 
     // Early out
@@ -171,7 +167,6 @@ struct Labels : public FixedSizeAlloc<storage_t> {
       auto l = q.pop_front();
       auto encoded = begin()[l];
 
-      set_affects_control_flow(l);
       std::visit(visitor, decode(encoded));
     }
   }
-- 
2.43.0


From ffc2d2a83b0481723fad2ae1a58fed41f1329a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 04/91] fix: key the function mapping by the stored name

The map kept views of the caller's memory, so a name in memory that is
later reused or unmapped made lookups return a wrong or new index.
---
 polytracker/src/taintdag/fnmapping.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taintdag/fnmapping.cpp b/polytracker/src/taintdag/fnmapping.cpp
index 8ce76a2..06e7a2c 100644
--- a/polytracker/src/taintdag/fnmapping.cpp
+++ b/polytracker/src/taintdag/fnmapping.cpp
@@ -39,7 +39,10 @@ std::optional<index_t> Functions::add_mapping(std::string_view name) {
     return {};
   }
   // Return index of `Function` in `Functions`
-  return mappings[name] = index(maybe_ctx->t);
+  // NOTE: The key has to refer to the stored string, `name` is owned by the
+  // caller and might not outlive this call.
+  return mappings[string_table.from_offset(name_offset)] =
+             index(maybe_ctx->t);
 }
 
 } // namespace taintdag
\ No newline at end of file
-- 
2.43.0


From 79919829a2e83f44c44334429dce732309e065cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 05/91] fix: stop when source labels do not fit

create_source_labels dereferenced an empty optional when the label
section was exhausted.
---
 polytracker/include/taintdag/labels.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index a4a16d2..b778171 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -41,7 +41,9 @@ struct Labels : public FixedSizeAlloc<storage_t> {
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
         });
-    // TODO(hbrodin): Check valid return
+    if (!maybe_range) {
+      error_exit("Failed to construct ", length, " source labels.");
+    }
     auto first = index(*maybe_range->begin());
     auto last = first + length - 1;
     return {first, last};
-- 
2.43.0


From 0e772be581ccc070c7f443bddf5b30f693b58082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:27 +0000
Subject: [PATCH 06/91] fix: do not count an untouched bucket as used in
 set_range

A range ending on a bucket boundary reported one bucket too many, past
the end of the section when the last bucket was set.
---
 polytracker/include/taintdag/bitmap_section.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index c024d89..3b3e5d3 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -116,6 +116,7 @@ public:
       error_exit("Trying to set bit beyond capacity.");
 
     auto current_bucket = bucket_index(bit_begin);
+    const auto last_bucket = bucket_index(bit_begin + n - 1);
     const auto bucket_bit_start = bit_begin % bits_per_bucket;
 
     // If bit_begin is not aligned to the bucket size, this will
@@ -154,7 +155,7 @@ public:
       set_bits(bucket(current_bucket), mask_post);
     }
     // NOTE(hbrodin): See the comment in set about potential inconsistency.
-    update_buckets_used(current_bucket);
+    update_buckets_used(last_bucket);
   }
 
   // Returns wheter the bit designated by bitno is set or not.
-- 
2.43.0


From 93faf2fdcfbff73452cbccfcd74f3c18023acb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:27 +0000
Subject: [PATCH 07/91] fix: taint the whole line read by fgets

The length was taken from the string, so bytes following a null
character in the line were left untainted.
---
 polytracker/src/taint_sources/taint_sources.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index b75ac87..070cfbd 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -313,8 +313,15 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
   auto offset = Offset::from_file(fd);
   char *ret = fgets(str, count, fd);
   auto length = Length::from_returned_string(ret);
+  // The line can contain null characters. If the position in the file is known
+  // it tells how much was read.
+  if (ret && offset.valid()) {
+    if (auto end = Offset::from_file(fd); end.valid()) {
+      length = Length::from_returned_size(*end.value() - *offset.value());
+    }
+  }
   taint_source_buffer(fileno(fd), str, offset, length, *ret_label);
-  if (length.valid()) {
+  if (ret) {
     *ret_label = str_label;
   }
   return ret;
-- 
2.43.0


From adeda42273376e8ba72b0b25e3c0b49b5afd389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:27 +0000
Subject: [PATCH 08/91] fix: bound the labels copied by realloc and handle its
 failure

new_size labels were read from the old block and, when realloc failed,
written to the shadow of the null page, which ended the program.
---
 polytracker/src/taint_sources/memory_taints.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/taint_sources/memory_taints.cpp b/polytracker/src/taint_sources/memory_taints.cpp
index 5372eef..53cea7a 100644
--- a/polytracker/src/taint_sources/memory_taints.cpp
+++ b/polytracker/src/taint_sources/memory_taints.cpp
@@ -1,4 +1,7 @@
 #include "polytracker/taint_sources.h"
+#include <algorithm>
+#include <iterator>
+#include <malloc.h>
 #include <vector>
 
 EXT_C_FUNC void *__dfsw_malloc(size_t size, dfsan_label size_label,
@@ -12,25 +15,21 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
                                 dfsan_label ptr_label, dfsan_label size_label,
                                 dfsan_label *ret_label) {
 
-  // TODO (hbrodin): This is incorrect. There is not new_size bytes available
-  // (typically) but for now, lets just hope that the user of returned memory
-  // clears it (no undefined read). This might actually cause a read oob if at
-  // the end of shadow memory... Need to track all allocation sizes to only copy
-  // the amount of memory avail in the old allocation.
-  //
   // Make a copy of shadow memory/labels, in case we do actually move it
   // This could be a lot faster if we used the shadow_for function and did a
   // straight copy...
   std::vector<dfsan_label> shadow;
   auto oldptr = reinterpret_cast<char *>(ptr);
   if (oldptr != nullptr && new_size > 0) {
-    shadow.reserve(new_size);
-    std::transform(oldptr, oldptr + new_size, std::back_inserter(shadow),
+    // Only what fits in both the old and the new block is preserved
+    auto copy_size = std::min(new_size, malloc_usable_size(ptr));
+    shadow.reserve(copy_size);
+    std::transform(oldptr, oldptr + copy_size, std::back_inserter(shadow),
                    [](char &v) { return dfsan_read_label(&v, sizeof(v)); });
   }
 
   void *new_mem = realloc(ptr, new_size);
-  if (new_mem != oldptr) {
+  if (new_mem != nullptr && new_mem != oldptr) {
     for (size_t i = 0; i < shadow.size(); i++) {
       dfsan_set_label(shadow[i], reinterpret_cast<char *>(new_mem) + i,
                       sizeof(char));
-- 
2.43.0


From 402f2c76ceceb030a6e1369520fdef7a92a66c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:27 +0000
Subject: [PATCH 09/91] fix: propagate the labels of the appended bytes in
 strcat

The label of the src pointer was assigned instead, starting one byte
before the appended data (before the buffer for an empty dest).
---
 polytracker/src/taint_sources/string_taints.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/string_taints.cpp b/polytracker/src/taint_sources/string_taints.cpp
index 7965a84..7e6a577 100644
--- a/polytracker/src/taint_sources/string_taints.cpp
+++ b/polytracker/src/taint_sources/string_taints.cpp
@@ -3,9 +3,14 @@
 // __dfsw_strcat
 EXT_C_FUNC char *__dfsw_strcat(char *dest, char *src, dfsan_label dest_label,
                                dfsan_label src_label, dfsan_label *ret_label) {
-  int curr_offset = strlen(dest) - 1;
+  size_t dest_len = strlen(dest);
+  size_t src_len = strlen(src);
   char *ret_val = strcat(dest, src);
-  dfsan_set_label(src_label, dest + curr_offset, strlen(dest) - curr_offset);
+  // Each appended byte (including the terminator) keeps the label it has in src
+  for (size_t i = 0; i <= src_len; i++) {
+    dfsan_set_label(dfsan_read_label(src + i, sizeof(char)),
+                    dest + dest_len + i, sizeof(char));
+  }
   *ret_label = dest_label;
   return ret_val;
 }
-- 
2.43.0


From fec463fefdfebaaddceca062b0c1084e03d195a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:27 +0000
Subject: [PATCH 10/91] fix: only taint the bytes of a mapping that come from
 the file

Mappings were tainted past the end of the file, and anonymous mappings
(descriptor -1) were attributed to a command line argument.
---
 polytracker/src/taint_sources/taint_sources.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 070cfbd..3d2aede 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -379,8 +379,16 @@ EXT_C_FUNC void *__dfsw_mmap(void *start, size_t length, int prot, int flags,
                              dfsan_label offset_label, dfsan_label *ret_label) {
   auto offs = Offset::from_off_t(offset);
   void *ret = mmap(start, length, prot, flags, fd, offset);
-  if (ret != MAP_FAILED) {
-    get_polytracker_tdag().source_taint(fd, ret, offs, length);
+  if (ret != MAP_FAILED && !(flags & MAP_ANONYMOUS)) {
+    // Only the part of the mapping that is backed by the file is input
+    struct stat st;
+    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
+      size_t available = st.st_size > offset ? st.st_size - offset : 0;
+      length = std::min(length, available);
+    }
+    if (length > 0) {
+      get_polytracker_tdag().source_taint(fd, ret, offs, length);
+    }
   }
 
   *ret_label = 0;
-- 
2.43.0


From c352275215164613800ce13acf9f7c7c8cc394b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 11/91] fix: forget a descriptor when it is closed

A closed descriptor kept referring to its source. When the number was
reused by something that is not tracked (pipe, socketpair, dup, an open
after the source table is full) its data was attributed to the old file.
---
 polytracker/include/taintdag/taint_source.h     | 17 ++++++++++++++++-
 polytracker/src/taint_sources/taint_sources.cpp | 10 ++++------
 polytracker/src/taintdag/polytracker.cpp        |  3 +--
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index c55eec0..34ced92 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <array>
+#include <atomic>
 #include <limits>
 #include <optional>
 
@@ -86,11 +88,21 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   std::optional<index_t> mapping_idx(int fd) const {
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
-      return index(*ptr);
+      auto idx = index(*ptr);
+      if (!closed_[idx].load(std::memory_order_relaxed)) {
+        return idx;
+      }
     }
     return {};
   }
 
+  // The source represented by fd, if any, is no longer available through fd.
+  void close_fd(int fd) {
+    if (auto idx = mapping_idx(fd)) {
+      closed_[*idx].store(true, std::memory_order_relaxed);
+    }
+  }
+
   // TODO(hbrodin): idx is currently not checked to be within bounds.
   SourceEntry get(index_t idx) { return *(begin() + idx); }
 
@@ -106,6 +118,9 @@ private:
   }
 
   StringTable &st_;
+
+  // Sources which file descriptor has been closed (and might be reused).
+  std::array<std::atomic<bool>, max_source_index + 1> closed_{};
 };
 
 } // namespace taintdag
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 3d2aede..1c24358 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -214,22 +214,20 @@ EXT_C_FUNC FILE *__dfsw_fopen(const char *filename, const char *mode,
 
 EXT_C_FUNC int __dfsw_close(int fd, dfsan_label fd_label,
                             dfsan_label *ret_label) {
+  // NOTE: As soon as fd is closed another thread might reuse it.
+  get_polytracker_tdag().close_file(fd);
   int ret = close(fd);
 
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fd);
-
   *ret_label = 0;
   return ret;
 }
 
 EXT_C_FUNC int __dfsw_fclose(FILE *fd, dfsan_label fd_label,
                              dfsan_label *ret_label) {
-  int fno = fileno(fd);
+  // NOTE: As soon as fd is closed another thread might reuse it.
+  get_polytracker_tdag().close_file(fileno(fd));
   int ret = fclose(fd);
 
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fno);
   *ret_label = 0;
   return ret;
 }
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 65b683a..2790049 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -41,8 +41,7 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
 }
 
 void PolyTracker::close_file(int fd) {
-  // TODO (hbrodin): Noop for now.
-  (void)fd;
+  output_file_.section<Sources>().close_fd(fd);
 }
 
 taint_range_t PolyTracker::create_source_taint(source_index_t src,
-- 
2.43.0


From 0eed2d89fa2ed27cd52a255a60452cc9a5ddaf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 12/91] fix: do not terminate the program when a peer has
 disconnected

accept on a connection that was reset in the meantime succeeds, but
getpeername then fails, which ended the tracked program.
---
 polytracker/src/taint_sources/taint_sources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 1c24358..e860ae4 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -447,10 +447,12 @@ static std::optional<std::string> connect_name(int socket) {
   if (local_addr.sin_family != AF_INET)
     return {};
 
+  // Fails if the peer has already disconnected, in which case there is nothing
+  // to read from it.
   if (int ret = getpeername(socket, reinterpret_cast<sockaddr *>(&remote_addr),
                             &remote_len);
       ret != 0) {
-    taintdag::error_exit("Failed to get peername for socket ", socket);
+    return {};
   }
 
   if (!inet_ntop(AF_INET, &(local_addr.sin_addr), local_str,
-- 
2.43.0


From 6a10a92501d4d1ff7a3bd4a1460b26112e8fa18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 13/91] fix: clear the labels of data read from untracked
 descriptors

A buffer overwritten by a read from an untracked descriptor kept the
labels of its previous contents.
---
 polytracker/src/taint_sources/taint_sources.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index e860ae4..f2bc772 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -81,11 +81,15 @@ static FILE *impl_fopen(const char *filename, const char *mode,
 }
 
 // Wrapper method for tainting a buffer, from source `fd` at `offset` having
-// `length`. If length is invalid nothing happpens.
+// `length`. If length is invalid nothing happpens. If `fd` is not a taint source
+// the data read is not tainted.
 static void taint_source_buffer(int fd, void *buff, Offset offset,
                                 Length length, dfsan_label &ret_label) {
   if (length.valid()) {
-    get_polytracker_tdag().source_taint(fd, buff, offset, *length.value());
+    if (!get_polytracker_tdag().source_taint(fd, buff, offset,
+                                             *length.value())) {
+      dfsan_set_label(0, buff, *length.value());
+    }
   }
 
   ret_label = 0;
-- 
2.43.0


From 1bc898ceafe5dbbcc1da7d587806aa7d7b719631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 14/91] fix: record the real offset of appended output

The offset was sampled before the write. For files opened for appending
the data ends up at the end of the file regardless.
---
 .../src/taint_sources/write_taints.cpp        | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 60a5162..846d14c 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -39,6 +39,14 @@ void impl_taint_sink(int fd, util::Offset offset, util::Length length,
   }
 }
 
+// Offset where a write of `length` bytes, that ended at `end`, started
+util::Offset write_start(util::Offset end, ssize_t length) {
+  if (end.valid()) {
+    return util::Offset::from_off_t(*end.value() - length);
+  }
+  return end;
+}
+
 // Implementation wrapper for write/send-style functions
 //
 // `ret_label` is the return value label, will be cleared
@@ -49,9 +57,13 @@ void impl_taint_sink(int fd, util::Offset offset, util::Length length,
 template <typename F, typename... Args>
 ssize_t impl_write_send(dfsan_label &ret_label, int fd, void *buffer,
                         F &&write_func, Args... write_func_args) {
-  auto offset = util::Offset::from_fd(fd);
   auto retval = write_func(write_func_args...);
-  impl_taint_sink(fd, offset, util::Length::from_returned_size(retval), buffer);
+  if (retval > 0) {
+    // The offset is only known for certain afterwards, e.g. if appending.
+    auto offset = write_start(util::Offset::from_fd(fd), retval);
+    impl_taint_sink(fd, offset, util::Length::from_returned_size(retval),
+                    buffer);
+  }
   ret_label = 0;
   return retval;
 }
@@ -72,6 +84,9 @@ EXT_C_FUNC size_t __dfsw_fwrite(void *buf, size_t size, size_t count,
   auto offset = util::Offset::from_file(stream);
   auto write_count = fwrite(buf, size, count, stream);
   auto length = util::Length::from_returned_size_count(size, write_count);
+  if (length.valid() && write_count == count) {
+    offset = write_start(util::Offset::from_file(stream), *length.value());
+  }
   impl_taint_sink(fileno(stream), offset, length, buf);
   *ret_label = 0;
   return write_count;
@@ -79,9 +94,9 @@ EXT_C_FUNC size_t __dfsw_fwrite(void *buf, size_t size, size_t count,
 
 EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
-  auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
   if (ret != EOF) {
+    auto offset = write_start(util::Offset::from_file(stream), sizeof(char));
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From 8187e3c8605894e72332e88bb557f9e34ff06ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:29 +0000
Subject: [PATCH 15/91] fix: do not advance the stream offset when peeking at a
 socket

recv and recvfrom with MSG_PEEK counted the data as consumed, shifting
the offsets of everything received afterwards. With MSG_TRUNC labels
were also assigned past the end of the buffer.
---
 polytracker/include/taintdag/polytracker.h    |  4 +++
 .../src/taint_sources/taint_sources.cpp       | 33 +++++++++++++++----
 polytracker/src/taintdag/polytracker.cpp      |  8 +++++
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/polytracker/include/taintdag/polytracker.h b/polytracker/include/taintdag/polytracker.h
index 751f6d1..64ed013 100644
--- a/polytracker/include/taintdag/polytracker.h
+++ b/polytracker/include/taintdag/polytracker.h
@@ -45,6 +45,10 @@ public:
   std::optional<taint_range_t> source_taint(int fd, util::Offset offset,
                                             size_t length);
 
+  // Offset of the next read from the stream fd, e.g. when peeking at the data.
+  // Invalid if the fd is not tracked.
+  util::Offset stream_read_offset(int fd);
+
   // Create a new taint source (not a file) and assigns taint labels
   // A new taint source named 'name' is created
   // Memory in 'dst' is assigned source taint labels referring to source 'name'
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index f2bc772..94f8272 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -133,11 +133,11 @@ static ssize_t impl_offset_read_functions(dfsan_label &ret_label, Offset offset,
   return retval;
 }
 
-// Implements taint source functions for read/recv-style functions
+// Implements taint source functions for read-style functions
 // `ret_label` is the label of the return value (will be set to zero)
 // `fd` the file descriptor reading from
 // `buffer` the buffer that will be tainted
-// `read_function` is the actual read function (e.g. `read` or `recv`)
+// `read_function` is the actual read function (e.g. `read`)
 // `read_function_args` are the arguments being passed to `read_function`
 template <typename F, typename... Args>
 static ssize_t impl_read_recv_functions(dfsan_label &ret_label, int fd,
@@ -148,6 +148,25 @@ static ssize_t impl_read_recv_functions(dfsan_label &ret_label, int fd,
   return impl_offset_read_functions(ret_label, offset, ret, fd, buffer);
 }
 
+// Implements taint source functions for recv-style functions
+// `ret_label` is the label of the return value (will be set to zero)
+// `retval` return value of recv-like function
+// `fd` the socket received from
+// `buffer` the buffer that will be tainted, having space for `size` bytes
+// `flags` are the flags the data was received with
+static ssize_t impl_recv_functions(dfsan_label &ret_label, ssize_t retval,
+                                   int fd, void *buffer, size_t size,
+                                   int flags) {
+  // Data that is only peeked at will be read again, from the same offset.
+  auto offset = (flags & MSG_PEEK)
+                    ? get_polytracker_tdag().stream_read_offset(fd)
+                    : Offset{};
+  // The value returned can be larger than the buffer, if MSG_TRUNC is used.
+  auto received = std::min(retval, static_cast<ssize_t>(size));
+  impl_offset_read_functions(ret_label, offset, received, fd, buffer);
+  return retval;
+}
+
 // Implementation for the `fread`-style functions
 // `ret_label` is the label for the return value. It will be assigned the source
 // label (if any), unless EOF is reached. `file` is the file stream to read from
@@ -532,8 +551,8 @@ EXT_C_FUNC ssize_t __dfsw_recv(int socket, void *buff, size_t length, int flags,
                                dfsan_label length_label,
                                dfsan_label flags_label,
                                dfsan_label *ret_label) {
-  return impl_read_recv_functions(*ret_label, socket, buff, recv, socket, buff,
-                                  length, flags);
+  auto ret = recv(socket, buff, length, flags);
+  return impl_recv_functions(*ret_label, ret, socket, buff, length, flags);
 }
 
 EXT_C_FUNC ssize_t __dfsw_recvfrom(
@@ -542,6 +561,6 @@ EXT_C_FUNC ssize_t __dfsw_recvfrom(
     dfsan_label buffer_label, dfsan_label length_label, dfsan_label flags_label,
     dfsan_label address_label, dfsan_label address_len_label,
     dfsan_label *ret_label) {
-  return impl_read_recv_functions(*ret_label, socket, buffer, recvfrom, socket,
-                                  buffer, length, flags, address, address_len);
-}
\ No newline at end of file
+  auto ret = recvfrom(socket, buffer, length, flags, address, address_len);
+  return impl_recv_functions(*ret_label, ret, socket, buffer, length, flags);
+}
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 2790049..7df2923 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -106,6 +106,14 @@ PolyTracker::source_taint(int fd, util::Offset offset, size_t length) {
   return {};
 }
 
+util::Offset PolyTracker::stream_read_offset(int fd) {
+  if (auto source_index = output_file_.section<Sources>().mapping_idx(fd)) {
+    return util::Offset::from_off_t(
+        stream_read_offsets_.increase(*source_index, 0));
+  }
+  return {};
+}
+
 // Introduce source taint to a named memory location
 //
 // Allows a memory region (dst) to be considered a taint source. A new source
-- 
2.43.0


From 1e15e8361d6e0fbcae962a0999694c7e47c3616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:29 +0000
Subject: [PATCH 16/91] fix: compare bytes as unsigned in the memcmp and strcmp
 families

The sign of the result was wrong if the first differing bytes are not
both ASCII.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fb001ba..6892135 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -209,7 +209,7 @@ static int dfsan_memcmp_bcmp(const void *s1, const void *s2, size_t n,
   for (size_t i = 0; i != n; ++i) {
     if (cs1[i] != cs2[i]) {
       *bytes_read = i + 1;
-      return cs1[i] - cs2[i];
+      return (unsigned char)cs1[i] - (unsigned char)cs2[i];
     }
   }
   *bytes_read = n;
@@ -305,7 +305,7 @@ static int dfsan_strncmp(const char *s1, const char *s2, size_t n,
   for (size_t i = 0;; ++i) {
     if (s1[i] != s2[i] || s1[i] == 0 || s2[i] == 0 || (n > 0 && i == n - 1)) {
       *bytes_read = i + 1;
-      return s1[i] - s2[i];
+      return (unsigned char)s1[i] - (unsigned char)s2[i];
     }
   }
 }
@@ -348,8 +348,8 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfso_strcmp(
 static int dfsan_strncasecmp(const char *s1, const char *s2, size_t n,
                              size_t *bytes_read) {
   for (size_t i = 0;; ++i) {
-    char s1_lower = tolower(s1[i]);
-    char s2_lower = tolower(s2[i]);
+    unsigned char s1_lower = tolower((unsigned char)s1[i]);
+    unsigned char s2_lower = tolower((unsigned char)s2[i]);
 
     if (s1_lower != s2_lower || s1[i] == 0 || s2[i] == 0 ||
         (n > 0 && i == n - 1)) {
-- 
2.43.0


From fb420fc74480a876facb3b8c7abdec2be4f3b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:29 +0000
Subject: [PATCH 17/91] fix: convert the character strchr searches for to char

Non-ASCII characters passed as unsigned char values were never found.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 6892135..599b337 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -120,12 +120,13 @@ static char *dfsan_strchr_with_label(const char *s, int c, size_t *bytes_read,
                                      dfsan_label s_label, dfsan_label c_label,
                                      dfsan_label *ret_label) {
   char *match_pos = nullptr;
+  const char ch = (char)c;
   for (size_t i = 0;; ++i) {
-    if (s[i] == c || s[i] == 0) {
+    if (s[i] == ch || s[i] == 0) {
       // If s[i] is the \0 at the end of the string, and \0 is not the
       // character we are searching for, then return null.
       *bytes_read = i + 1;
-      match_pos = s[i] == 0 && c != 0 ? nullptr : const_cast<char *>(s + i);
+      match_pos = s[i] == 0 && ch != 0 ? nullptr : const_cast<char *>(s + i);
       break;
     }
   }
-- 
2.43.0


From a2897c20a04c7dd69e5b3b4ac5c1f0644d1f963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:29 +0000
Subject: [PATCH 18/91] fix: do not read past n bytes of the source in strncpy

The source does not have to be terminated if it has n characters.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 599b337..352b2db 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -652,7 +652,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strncpy(char *s1, const char *s2, size_t n, dfsan_label s1_label,
                dfsan_label s2_label, dfsan_label n_label,
                dfsan_label *ret_label) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy(s1, s2, len+1);
     dfsan_memset(s1+len+1, 0, 0, n-len-1);
@@ -669,7 +669,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strncpy(
     dfsan_label s2_label, dfsan_label n_label, dfsan_label *ret_label,
     dfsan_origin s1_origin, dfsan_origin s2_origin, dfsan_origin n_origin,
     dfsan_origin *ret_origin) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy_with_origin(s1, s2, len + 1);
     dfsan_memset_with_origin(s1 + len + 1, 0, 0, 0, n - len - 1);
-- 
2.43.0


From c3177c309a95236065293bb525685db8a5de2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:29 +0000
Subject: [PATCH 19/91] fix: compute the number of bytes written by a truncated
 format

If the output did not fit, the labels of the bytes written were left
unset or labels were set past the end of the buffer.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 352b2db..15a5bbc 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2218,7 +2218,7 @@ struct Formatter {
     // A return value of {v,}snprintf of size or more means that the output was
     // truncated.
     if (num_written >= num_avail) {
-      num_written -= num_avail;
+      num_written = num_avail - 1;
     }
 
     return num_written;
-- 
2.43.0


From 26013da21f79a17cfe193c6b7aa958ef2ba294ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:29 +0000
Subject: [PATCH 20/91] fix: terminate the output of an empty format and size
 %n correctly

snprintf with an empty format left the buffer untouched, and %n cleared
the labels of the bytes following its argument.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 15a5bbc..bf4efda 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2251,6 +2251,11 @@ static int format_buffer(char *str, size_t size, const char *fmt,
                          va_list ap) {
   Formatter formatter(str, fmt, size);
 
+  // The output is terminated even if there is nothing to format.
+  if (!*fmt && size > 0) {
+    *str = '\0';
+  }
+
   while (*formatter.fmt_cur) {
     formatter.fmt_start = formatter.fmt_cur;
     formatter.width = -1;
@@ -2382,7 +2387,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           va_labels++;
           if (va_origins)
             va_origins++;
-          dfsan_set_label(0, ptr, sizeof(ptr));
+          dfsan_set_label(0, ptr, sizeof(*ptr));
           end_fmt = true;
           break;
         }
-- 
2.43.0


From 5386da62bec6103529934018296772238e9173e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:29 +0000
Subject: [PATCH 21/91] fix: do not set labels of null pointers in calloc,
 select, nanosleep

A failed calloc, a select without timeout and an interrupted nanosleep
without remainder ended the program.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index bf4efda..8ed6d31 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -466,7 +466,8 @@ SANITIZER_INTERFACE_ATTRIBUTE void *__dfsw_calloc(size_t nmemb, size_t size,
                                                   dfsan_label size_label,
                                                   dfsan_label *ret_label) {
   void *p = calloc(nmemb, size);
-  dfsan_set_label(0, p, nmemb * size);
+  if (p)
+    dfsan_set_label(0, p, nmemb * size);
   *ret_label = 0;
   return p;
 }
@@ -1524,7 +1525,9 @@ int __dfsw_select(int nfds, fd_set *readfds, fd_set *writefds,
   if (exceptfds) {
     dfsan_set_label(0, exceptfds, sizeof(fd_set));
   }
-  dfsan_set_label(0, timeout, sizeof(struct timeval));
+  if (timeout) {
+    dfsan_set_label(0, timeout, sizeof(struct timeval));
+  }
   *ret_label = 0;
   return ret;
 }
@@ -1912,7 +1915,7 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfsw_nanosleep(const struct timespec *req,
                                                    dfsan_label *ret_label) {
   int ret = nanosleep(req, rem);
   *ret_label = 0;
-  if (ret == -1) {
+  if (ret == -1 && rem) {
     // Interrupted by a signal, rem is filled with the remaining time.
     dfsan_set_label(0, rem, sizeof(struct timespec));
   }
-- 
2.43.0


From d22e4985360e21e19e334258afb76dd33353cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:27 +0000
Subject: [PATCH 22/91] fix: accept negative and multiple '*' arguments in
 formats

---
 .../src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 8ed6d31..f2e6d92 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2171,7 +2171,7 @@ typedef int dfsan_label_va;
 struct Formatter {
   Formatter(char *str_, const char *fmt_, size_t size_)
       : str(str_), str_off(0), size(size_), fmt_start(fmt_), fmt_cur(fmt_),
-        width(-1) {}
+        num_stars(0) {}
 
   int format() {
     char *tmp_fmt = build_format_string();
@@ -2185,9 +2185,12 @@ struct Formatter {
   template <typename T> int format(T arg) {
     char *tmp_fmt = build_format_string();
     int retval;
-    if (width >= 0) {
+    if (num_stars > 1) {
       retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
-                        tmp_fmt, width, arg);
+                        tmp_fmt, stars[0], stars[1], arg);
+    } else if (num_stars == 1) {
+      retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
+                        tmp_fmt, stars[0], arg);
     } else {
       retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
                         tmp_fmt, arg);
@@ -2232,7 +2235,9 @@ struct Formatter {
   size_t size;
   const char *fmt_start;
   const char *fmt_cur;
-  int width;
+  // Field width and precision given as arguments ('*') of the directive.
+  int stars[2];
+  int num_stars;
 };
 
 // Formats the input and propagates the input labels to the output. The output
@@ -2261,7 +2266,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
 
   while (*formatter.fmt_cur) {
     formatter.fmt_start = formatter.fmt_cur;
-    formatter.width = -1;
+    formatter.num_stars = 0;
     int retval = 0;
 
     if (*formatter.fmt_cur != '%') {
@@ -2403,7 +2408,8 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
 
         case '*':
-          formatter.width = va_arg(ap, int);
+          if (formatter.num_stars < 2)
+            formatter.stars[formatter.num_stars++] = va_arg(ap, int);
           va_labels++;
           if (va_origins)
             va_origins++;
-- 
2.43.0


From 2705c96edae83b0a249adc6fdb1b22b4f4fe3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 23/91] fix: do not taint the padding of a formatted string

---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 43 ++++++++++++++++---
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index f2e6d92..0c61755 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2230,6 +2230,31 @@ struct Formatter {
     return num_written;
   }
 
+  // Finds where, in the 'retval' bytes formatted from a '%s' directive, the
+  // bytes of 'arg' are. The rest is padding.
+  size_t locate_string_arg(const char *arg, int retval, size_t *arg_off) {
+    bool left = false;
+    int precision = -1; // Negative if there is no limit
+    int star = 0;
+    for (const char *p = fmt_start; p != fmt_cur; ++p) {
+      if (*p == '-') {
+        left = true;
+      } else if (*p == '.') {
+        precision = atoi(p + 1);
+      } else if (*p == '*') {
+        if (p[-1] == '.')
+          precision = stars[star++];
+        else
+          left |= stars[star++] < 0;
+      }
+    }
+    size_t arg_len = 0;
+    if (arg)
+      arg_len = precision >= 0 ? strnlen(arg, precision) : strlen(arg);
+    *arg_off = left ? 0 : retval - arg_len;
+    return arg_len;
+  }
+
   char *str;
   size_t str_off;
   size_t size;
@@ -2364,15 +2389,23 @@ static int format_buffer(char *str, size_t size, const char *fmt,
         case 's': {
           char *arg = va_arg(ap, char *);
           retval = formatter.format(arg);
+          size_t num_written = formatter.num_written_bytes(retval);
+          // Padding is not tainted, only the bytes copied from arg are.
+          size_t arg_off = 0;
+          size_t arg_len = 0;
+          if (retval >= 0)
+            arg_len = formatter.locate_string_arg(arg, retval, &arg_off);
+          dfsan_set_label(0, formatter.str_cur(), num_written);
+          arg_len = arg_off < num_written ? Min(arg_len, num_written - arg_off)
+                                          : 0;
           if (va_origins) {
             va_origins++;
-            dfsan_mem_origin_transfer(formatter.str_cur(), arg,
-                                      formatter.num_written_bytes(retval));
+            dfsan_mem_origin_transfer(formatter.str_cur() + arg_off, arg,
+                                      arg_len);
           }
           va_labels++;
-          internal_memcpy(shadow_for(formatter.str_cur()), shadow_for(arg),
-                          sizeof(dfsan_label) *
-                              formatter.num_written_bytes(retval));
+          internal_memcpy(shadow_for(formatter.str_cur() + arg_off),
+                          shadow_for(arg), sizeof(dfsan_label) * arg_len);
           end_fmt = true;
           break;
         }
-- 
2.43.0


From 94dc72283acd4fd81c3bbe6a96e1727ba934dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:24 +0000
Subject: [PATCH 24/91] fix: do not pass an object size that wraps to snprintf
 from sprintf

Since glibc 2.37 snprintf(str, SIZE_MAX, ...) drops the last character, so
every tracked sprintf lost the end of each piece it formatted. C05.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 0c61755..2d10538 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2477,7 +2477,7 @@ int __dfsw_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_label *ret_label, ...) {
   va_list ap;
   va_start(ap, ret_label);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, nullptr,
+  int ret = format_buffer(str, INT32_MAX, format, va_labels, ret_label, nullptr,
                           nullptr, ap);
   va_end(ap);
   return ret;
@@ -2491,7 +2491,7 @@ int __dfso_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_origin *ret_origin, ...) {
   va_list ap;
   va_start(ap, ret_origin);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, va_origins,
+  int ret = format_buffer(str, INT32_MAX, format, va_labels, ret_label, va_origins,
                           ret_origin, ap);
   va_end(ap);
   return ret;
-- 
2.43.0


From 1c5d8ce035a7e2b7d328bd0e46efcda14f2747bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:20 +0000
Subject: [PATCH 25/91] fix: convert the fill value of internal_memset to a
 byte

A tracked memset of an aligned block with a value outside 0..255 (a
sign-extended char, say) wrote wrong bytes. C05.
---
 .../src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp b/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
index 4bc04b4..97de12f 100644
--- a/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
+++ b/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
@@ -77,7 +77,7 @@ void *internal_memset(void* s, int c, uptr n) {
   if ((reinterpret_cast<uptr>(s) % 16) == 0 && (n % 16) == 0) {
     u64 *p = reinterpret_cast<u64*>(s);
     u64 *e = p + n / 8;
-    u64 v = c;
+    u64 v = static_cast<u8>(c);
     v |= v << 8;
     v |= v << 16;
     v |= v << 32;
-- 
2.43.0


From 612610293bb0ceae459ddd38378fd726937a0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 26/91] fix: read names that are not valid UTF-8

---
 polytracker/taint_dag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 744e576..a84bd0b 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -110,6 +110,7 @@ class TDStringSection:
         return str(
             self.section[offset + sizeof(c_uint16) : offset + sizeof(c_uint16) + n],
             "utf-8",
+            "surrogateescape",
         )
 
 
-- 
2.43.0


From fa17ab86a3016dfa1842a1db66c0131776a4a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 27/91] fix: keep the longer marker when merging sources of one
 name

---
 polytracker/mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/mapping.py b/polytracker/mapping.py
index 845015b..0a80149 100644
--- a/polytracker/mapping.py
+++ b/polytracker/mapping.py
@@ -3,6 +3,7 @@ This module maps input byte offsets to output byte offsets
 """
 
 from collections import defaultdict
+from itertools import zip_longest
 from pathlib import Path
 from typing import Dict, Iterator, List, Optional, Set, Tuple
 from tqdm import tqdm
@@ -143,7 +144,9 @@ class InputOutputMapping:
         for k, v in markers.items():
             fname = self.tdfile.fd_headers[k][0]
             if fname in merged:
-                merged[fname] = bytes(a | b for (a, b) in zip(merged[fname], v))
+                merged[fname] = bytes(
+                    a | b for (a, b) in zip_longest(merged[fname], v, fillvalue=0)
+                )
             else:
                 merged[fname] = bytes(v)
 
-- 
2.43.0


From 5c1d979ac0661477c0500c3e55a6efacd01a6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 28/91] fix: read control flow logs that leave a function never
 entered

---
 polytracker/taint_dag.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index a84bd0b..23fe9f7 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -243,9 +243,10 @@ class TDControlFlowLogSection:
                     function_id, callstack
                 )
 
-                # TODO(hbrodin): If the callstack doesn't contain function_id at all, this will break.
+                # NOTE: The callstack is empty if it doesn't contain function_id at all.
                 yield TDLeaveFunctionEvent(callstack[:])
-                callstack.pop()
+                if callstack:
+                    callstack.pop()
             else:
                 # Align call stack, if needed
                 yield from TDControlFlowLogSection._align_callstack(
-- 
2.43.0


From 1626ccf6ad825b284149a1303ae05b4cd1e6a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 29/91] fix: advance past each match in Taints.find

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a1eb6f6..387b0bb 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -304,6 +304,7 @@ class Taints:
                 offset = content.find(byte_sequence, offset)
                 if offset >= 0:
                     yield region[offset : offset + len(byte_sequence)]
+                    offset += 1
                 else:
                     break
 
-- 
2.43.0


From 900123beb6e9fa0e35728fdbfe55c391da6a53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 30/91] fix: compare with the previous source in
 Taints.to_regions

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 387b0bb..699ae10 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -273,6 +273,7 @@ class Taints:
                 if region is not None:
                     yield region
                 region = None
+            last_input = offset.source
             last_offset = offset
             if region is None:
                 region = TaintedRegion(
-- 
2.43.0


From 0ca9db362d90729b83b92f654c5beabc584594de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 31/91] fix: clamp slices of tainted regions

---
 polytracker/tracing.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 699ae10..3183b68 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -104,13 +104,8 @@ class TaintedRegion:
         if isinstance(index_or_slice, slice):
             if index_or_slice.step is not None and index_or_slice.step != 1:
                 raise ValueError("TaintedRegion only supports slices with step == 1")
-            start = index_or_slice.start
-            if start < 0:
-                start = max(self.length + start, 0)
-            stop = index_or_slice.stop
-            if stop < 0:
-                stop = self.length + stop
-            if start >= stop or start >= self.length or stop <= 0:
+            start, stop, _ = index_or_slice.indices(self.length)
+            if start >= stop:
                 return TaintedRegion(source=self.source, offset=self.offset, length=0)
             return TaintedRegion(
                 source=self.source, offset=self.offset + start, length=stop - start
-- 
2.43.0


From 2bad93916194ed3725b2e100fbec7dd4f2792c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 32/91] fix: return an integer from TaintOutput.__hash__

---
 polytracker/tracing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 3183b68..f28e9d5 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -753,7 +753,7 @@ class TaintOutput:
         return hasattr(other, "offset") and self.offset < other.offset
 
     def __hash__(self):
-        return {self.offset, self.label}
+        return hash(self.offset)
 
     def __eq__(self, other):
         return isinstance(other, TaintOutput) and self.offset == other.offset
-- 
2.43.0


From 101f752c9f2ecb5a65c7136c5b7eb8f82bd25c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 33/91] fix: walk the nodes passed to ProgramTrace.taints

---
 polytracker/tracing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index f28e9d5..c913670 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1138,9 +1138,6 @@ class ProgramTrace(ABC):
         while stack:
             node = stack.pop()
 
-            if node in seen:
-                continue
-
             p1 = node.parent_one
             p2 = node.parent_two
 
-- 
2.43.0


From d19dcaa69690216f832fc6562fc36b37b654da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 34/91] fix: skip unused bytes when looking for out of order
 reads

---
 polytracker/tracing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index c913670..bbd29be 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1106,7 +1106,9 @@ class ProgramTrace(ABC):
             for previous_offset, (previous, first_used) in enumerate(
                 zip(first_usages, first_usages[1:])
             )
-            if previous > first_used  # type: ignore
+            if previous is not None
+            and first_used is not None
+            and previous > first_used
         ]
         return InputProperties(
             unused_byte_offsets=unused_bytes,
-- 
2.43.0


From d711cada39b1c9fdde87ddc061246d5121d8f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 35/91] fix: advance to the next event in next_function_entry

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index bbd29be..bad3353 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1198,6 +1198,7 @@ class ProgramTrace(ABC):
         while next_event is not None:
             if isinstance(next_event, FunctionEntry):
                 return next_event
+            next_event = next_event.next_control_flow_event
         return None
 
     @property
-- 
2.43.0


From 756eedc4839722f4908bb16cf1649510f69b34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 36/91] fix: return all descendants of a node

---
 polytracker/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 0f8586a..5c49c80 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -122,7 +122,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
         return ret
 
     def descendants(self, node: N) -> FrozenSet[N]:
-        return frozenset(nx.dfs_successors(self, node).keys())
+        return frozenset(nx.descendants(self, node))
 
     @property
     def dominator_forest(self) -> "DAG[N]":
-- 
2.43.0


From 663a3fc8babe027a1a2f22cce0fff7d32ef27254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 37/91] fix: compare nodes by value in DiGraph.ancestors

---
 polytracker/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 5c49c80..330103f 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -67,7 +67,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
                 for _, x in sorted(
                     (d, n)
                     for n, d in nx.shortest_path_length(self, target=node).items()
-                    if n is not node
+                    if n != node
                 )
             )
         )
-- 
2.43.0


From 95d0c71c5975fc08617e43cda49d72b057355077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 38/91] fix: refresh an entry of the cache when it is stored
 again

---
 polytracker/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index 4667f27..dbd9de8 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -74,6 +74,7 @@ class LRUCache(Generic[R, V], MutableMapping):
 
     def __setitem__(self, k: R, v: V) -> None:
         self._items[k] = v
+        self._items.move_to_end(k, last=True)
         while self.max_size is not None and len(self._items) > self.max_size:
             self._items.popitem(last=False)
 
-- 
2.43.0


From 1c1fa2c21f8d930c6c9b83764df2dfcab0e6780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:29 +0000
Subject: [PATCH 39/91] fix: construct the results of OrderedSet operators from
 their items

---
 polytracker/cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index dbd9de8..e9d2bbb 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -30,6 +30,11 @@ class OrderedSet(Generic[R], AbstractMutableSet):  # type: ignore
         for i in items:
             self._items[i] = i
 
+    @classmethod
+    def _from_iterable(cls, it):
+        # the default of collections.abc.Set passes the iterable as one argument
+        return cls(*it)
+
     def add(self, item: R):
         self._items[item] = item
 
-- 
2.43.0


From 708aa6daa0172f299bd060e5a9cc85e9b775d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 40/91] fix: fix: iterate over a copy of the waiting states
 when completing

---
 polytracker/grammars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 54ff31c..1be679f 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -807,9 +807,10 @@ class EarleyParser:
         self.states[completed.index].already_completed[completed.production.name][
             completed
         ].add(k)
-        for state in self.states[completed.index].waiting_for[
-            completed.production.name
-        ]:
+        # completing a state can add to the set of waiting states
+        for state in list(
+            self.states[completed.index].waiting_for[completed.production.name]
+        ):
             self.states[k].complete_state(state, completed)
 
 
-- 
2.43.0


From d0f6430dd779ecfd299c88beef886698d3b1a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 41/91] fix: fix: accept only matches that start at the first
 byte

---
 polytracker/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 1be679f..56e10c2 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -706,7 +706,11 @@ class EarleyParser:
 
     @property
     def end_states(self) -> Iterator[EarleyState]:
-        return (s for s in self.states[-1] if s.finished and s.production == self.start)
+        return (
+            s
+            for s in self.states[-1]
+            if s.finished and s.index == 0 and s.production == self.start
+        )
 
     def parse(self) -> Iterator[ParseTree[ParseTreeValue]]:
         if not self.parsed:
-- 
2.43.0


From 444af5b7ddf56b44bbb0a1b8e9977b3a91929dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 42/91] fix: fix: size the chart by the encoded sentence

---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 56e10c2..bf5e085 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -699,7 +699,7 @@ class EarleyParser:
         else:
             self.start = start
         self.states: List[EarleyQueue] = [
-            EarleyQueue(self) for _ in range(len(sentence) + 1)
+            EarleyQueue(self) for _ in range(len(self.sentence) + 1)
         ]
         self.parsed: bool = False
         self.start_states: FrozenSet[Prediction] = frozenset()
-- 
2.43.0


From fa215fc53d97b3a7a35b0756e7e7445d42ed1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 43/91] fix: fix: distinguish productions with equal rules by
 their names

---
 polytracker/grammars.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index bf5e085..090290c 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -374,10 +374,14 @@ class Production:
         return len(self.rules)
 
     def __eq__(self, other):
-        return isinstance(other, Production) and self.rules == other.rules
+        return (
+            isinstance(other, Production)
+            and self.name == other.name
+            and self.rules == other.rules
+        )
 
     def __hash__(self):
-        return hash(frozenset(self.rules))
+        return hash(self.name)
 
     def __str__(self):
         rules = " | ".join(map(str, self.rules))
-- 
2.43.0


From 3b77b87cb82482431f47b84bf007aa3dbcea4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 44/91] fix: fix: complete the empty production instead of the
 one that uses it

---
 polytracker/grammars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 090290c..2f274f9 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -534,6 +534,10 @@ class EmptyProduction(EarleyState):
         super().__init__(prediction, parsed, expected, index)
         self._production: Production = production
 
+    @property
+    def production(self) -> Production:
+        return self._production
+
     __hash__ = EarleyState.__hash__  # type: ignore
 
     __ne__ = EarleyState.__ne__  # type: ignore
-- 
2.43.0


From 8fb4cc76a9bb79ffd3075c97b6a6cc09b4c4dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 45/91] fix: fix: keep rules that become empty when a
 production is removed

---
 polytracker/grammars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 2f274f9..e64ec5b 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -320,8 +320,7 @@ class Production:
         new_rules = []
         for rule in self.rules:
             rule.remove_sub_production(name)
-            if rule:
-                new_rules.append(rule)
+            new_rules.append(rule)
         self.rules = set(new_rules)
         self.grammar.used_by[name].remove(self.name)
 
-- 
2.43.0


From aca844a76e1967a597b4d63dc027854d2f17ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 46/91] fix: fix: decide whether a sentence matches without
 building a parse tree

---
 polytracker/grammars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index e64ec5b..e353bfb 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -983,9 +983,9 @@ class Match:
 
     def __bool__(self):
         if self._is_match is None:
-            return self.parse_tree is not None
-        else:
-            return self._is_match
+            self.parser.parse()
+            self._is_match = any(True for _ in self.parser.end_states)
+        return self._is_match
 
     def __iter__(self) -> Iterator[ParseTree[ParseTreeValue]]:
         return self.parser.parse_trees()
-- 
2.43.0


From 4cf785f2617eb02bbe3ecd9ecc80a003a12c0a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 47/91] fix: add the productions, not their names, to the
 dependency graph

---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index e353bfb..50a150b 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -1014,7 +1014,7 @@ class Grammar:
 
     def dependency_graph(self) -> DiGraph[Production]:
         graph: DiGraph[Production] = DiGraph()
-        for prod in self.productions:
+        for prod in self.productions.values():
             graph.add_node(prod)
         for prod_name, used_by_names in self.used_by.items():
             if prod_name not in self:
-- 
2.43.0


From fb00ce0f60cec834ab03cfddc130a3576190f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:31 +0000
Subject: [PATCH 48/91] fix: notice terminals that a rule gains when a
 production is inlined

---
 polytracker/grammars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 50a150b..8d19bcd 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -102,6 +102,7 @@ class Rule:
                 new_seq.append(s)
         if modified:
             self.sequence = Rule.combine_terminals(new_seq)
+            self.has_terminals = any(isinstance(t, Terminal) for t in self.sequence)
         return modified
 
     def __hash__(self):
-- 
2.43.0


From 790048c1e35eb7bf8a79ed613529bbb2654c1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:33 +0000
Subject: [PATCH 49/91] fix: label parse tree nodes with the production they
 derive from

---
 polytracker/grammars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 8d19bcd..159c4a7 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -859,6 +859,9 @@ class _Node:
             )
         elif isinstance(self.state, ScannedTerminal):
             self.tree = MutableParseTree(self.state.terminal)
+        elif isinstance(self.state, Completion):
+            # this node stands for the completed production, not for the one using it
+            self.tree = MutableParseTree(next(iter(self.state.completed_by)).production)
         else:
             self.tree = MutableParseTree(self.state.production)
 
-- 
2.43.0


From e6739bb9be54a93e65c1662f59e850fe9781fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 50/91] fix: keep the output file mapped while the program
 exits

---
 polytracker/include/taintdag/outputfile.h  | 6 +++++-
 polytracker/include/taintdag/polytracker.h | 3 +++
 polytracker/src/polytracker/main.cpp       | 6 ++++--
 polytracker/src/taintdag/polytracker.cpp   | 2 ++
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 752bba1..7318be9 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -116,7 +116,11 @@ public:
     }
   }
 
-  ~OutputFile() {
+  ~OutputFile() { finalize(); }
+
+  // Completes the file header. The sections can still be used afterwards, but
+  // what is added to them is not accounted for until finalize is called again.
+  void finalize() {
     // Update the memory actually used by each section
     // TODO(hbrodin): Consider other implementation strategies.
     size_t _[] = {
diff --git a/polytracker/include/taintdag/polytracker.h b/polytracker/include/taintdag/polytracker.h
index 64ed013..00167fb 100644
--- a/polytracker/include/taintdag/polytracker.h
+++ b/polytracker/include/taintdag/polytracker.h
@@ -79,6 +79,9 @@ public:
   // Same as before, but use same label for all data
   void taint_sink(int fd, util::Offset offset, label_t label, size_t length);
 
+  // Complete the output file. Other threads might still use this instance.
+  void finalize();
+
   // Log function entry
   Functions::index_t function_entry(std::string_view name);
   // Log function exit
diff --git a/polytracker/src/polytracker/main.cpp b/polytracker/src/polytracker/main.cpp
index 9f09540..62c7afc 100644
--- a/polytracker/src/polytracker/main.cpp
+++ b/polytracker/src/polytracker/main.cpp
@@ -102,8 +102,10 @@ void polytracker_end() {
   if (int f = fileno(stderr); f >= 0) {
     get_polytracker_tdag().close_file(f);
   }
-  // Explicitly destroy the PolyTracker instance to flush mapping to disk
-  get_polytracker_tdag().~PolyTracker();
+  // Complete the output file. The PolyTracker instance is not destroyed, other
+  // threads and handlers that run later might still use it. The mapping is
+  // flushed to disk when the process ends.
+  get_polytracker_tdag().finalize();
 }
 
 void polytracker_print_settings() {
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 7df2923..758c5b1 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -194,6 +194,8 @@ void PolyTracker::leave_function(uint32_t function_id) {
   output_file_.section<ControlFlowLog>().leave_function(function_id);
 }
 
+void PolyTracker::finalize() { output_file_.finalize(); }
+
 Functions::index_t PolyTracker::function_entry(std::string_view name) {
   auto &functions{output_file_.section<Functions>()};
   auto maybe_index{functions.add_mapping(name)};
-- 
2.43.0


From 9d1da4172be2d251217dd3d562e37e8610b44d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 51/91] fix: return the condition of a branch taken before
 initialization

---
 polytracker/src/polytracker/polytracker.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index 56064e3..f51d848 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -76,10 +76,7 @@ extern "C" void __polytracker_taint_argv(int argc, char *argv[]) {
 extern "C" uint64_t __dfsw___polytracker_log_tainted_control_flow(
     uint64_t conditional, uint32_t functionid, dfsan_label conditional_label,
     dfsan_label function_label, dfsan_label *ret_label) {
-  if (!polytracker_is_initialized()) {
-    return 0;
-  }
-  if (conditional_label > 0) {
+  if (polytracker_is_initialized() && conditional_label > 0) {
     get_polytracker_tdag().log_tainted_control_flow(conditional_label,
                                                     functionid);
   }
-- 
2.43.0


From a9c1bb78b1367a8809fdcfeb2e515757b18f9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:44 +0000
Subject: [PATCH 52/91] fix: record the size of the file that was opened

---
 polytracker/src/taintdag/polytracker.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 758c5b1..006fac8 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -17,6 +17,8 @@
 #include "taintdag/fnmapping.h"
 #include "taintdag/fntrace.h"
 
+#include <sys/stat.h>
+
 namespace taintdag {
 
 PolyTracker::PolyTracker(std::filesystem::path const &outputfile)
@@ -28,10 +30,12 @@ label_t PolyTracker::union_labels(label_t l1, label_t l2) {
 
 void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
   // Try to determine the file size. If unknown, just mark it as unknown.
-  std::error_code ec;
-  uint64_t size = std::filesystem::file_size(path, ec);
-  if (ec) {
-    size = SourceEntry::InvalidSize;
+  // NOTE: path is not enough to find the file. It could be relative to another
+  // directory (openat).
+  uint64_t size = SourceEntry::InvalidSize;
+  struct stat st;
+  if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
+    size = st.st_size;
   }
 
   // TODO (hbrodin): If we decide to separate sources and sinks, extend this
-- 
2.43.0


From bb93f6ac28eaa58bc6d098a27660b5d4d8ef79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:44 +0000
Subject: [PATCH 53/91] fix: accept positions beyond the largest offset of a
 label

---
 polytracker/include/taintdag/labels.h | 10 ++++++++++
 polytracker/src/taintdag/util.cpp     |  7 -------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index b778171..10274cb 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -37,6 +37,16 @@ struct Labels : public FixedSizeAlloc<storage_t> {
   // length labels in size.
   taint_range_t create_source_labels(source_index_t src, source_offset_t offset,
                                      size_t length) {
+    if (length > 0 &&
+        (offset > max_source_offset ||
+         length - 1 > static_cast<size_t>(max_source_offset - offset))) {
+      // If this path is reached an offset that is larger than can be recorded
+      // in the TDAG structure is encountered. There is not much to do but bail
+      // out.
+      error_exit("Offset ", offset, " and length ", length,
+                 " exceed the maximum offset that can be handled:",
+                 max_source_offset);
+    }
     auto maybe_range =
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
diff --git a/polytracker/src/taintdag/util.cpp b/polytracker/src/taintdag/util.cpp
index 0ed8f97..4972df6 100644
--- a/polytracker/src/taintdag/util.cpp
+++ b/polytracker/src/taintdag/util.cpp
@@ -70,13 +70,6 @@ Offset Offset::from_file(FILE *file) {
 Offset Offset::from_off_t(off_t offset_value) {
   if (offset_value < 0) {
     return Offset{};
-  } else if (offset_value > max_source_offset) {
-    // If this path is reached an offset that is larger than can be recorded
-    // in the TDAG structure is encounteed. There is not much to do but bail
-    // out.
-    error_exit("Offset ", offset_value,
-               " is larger than maximum offset that can be handled:",
-               max_source_offset);
   }
   return Offset(offset_value);
 }
-- 
2.43.0


From 37c793531e60d9446cb6aed8d243ae796a4410f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:17 +0000
Subject: [PATCH 54/91] fix: taint lines with null characters read from streams

---
 .../src/taint_sources/taint_sources.cpp       | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 94f8272..16823ca 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -9,9 +9,11 @@
 #include <algorithm>
 #include <arpa/inet.h>
 #include <assert.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <iostream>
 #include <mutex>
+#include <optional>
 #include <pthread.h>
 #include <sanitizer/dfsan_interface.h>
 #include <stdarg.h>
@@ -182,6 +184,25 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
   return ret;
 }
 
+// Reads up to and including the next newline, but at most `max` characters,
+// from `file` to `str` and terminates it. Returns the number of characters read
+// or nothing where fgets would return null.
+static std::optional<size_t> read_line(char *str, size_t max, FILE *file) {
+  size_t length = 0;
+  int c = 0;
+  flockfile(file);
+  while (length < max && c != '\n' && (c = getc_unlocked(file)) != EOF) {
+    str[length++] = static_cast<char>(c);
+  }
+  bool failed = c == EOF && !feof_unlocked(file) && errno != EAGAIN;
+  funlockfile(file);
+  if (length == 0 || failed) {
+    return {};
+  }
+  str[length] = 0;
+  return length;
+}
+
 } // namespace
 
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
@@ -332,14 +353,21 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
                               dfsan_label str_label, dfsan_label count_label,
                               dfsan_label fd_label, dfsan_label *ret_label) {
   auto offset = Offset::from_file(fd);
-  char *ret = fgets(str, count, fd);
-  auto length = Length::from_returned_string(ret);
+  char *ret = nullptr;
+  Length length;
   // The line can contain null characters. If the position in the file is known
   // it tells how much was read.
-  if (ret && offset.valid()) {
-    if (auto end = Offset::from_file(fd); end.valid()) {
-      length = Length::from_returned_size(*end.value() - *offset.value());
+  if (offset.valid() || count <= 1) {
+    ret = fgets(str, count, fd);
+    length = Length::from_returned_string(ret);
+    if (ret && offset.valid()) {
+      if (auto end = Offset::from_file(fd); end.valid()) {
+        length = Length::from_returned_size(*end.value() - *offset.value());
+      }
     }
+  } else if (auto size = read_line(str, count - 1, fd)) {
+    ret = str;
+    length = Length::from_returned_size(*size);
   }
   taint_source_buffer(fileno(fd), str, offset, length, *ret_label);
   if (ret) {
-- 
2.43.0


From febde373d52f500064bc7f09f05c67927011249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:17 +0000
Subject: [PATCH 55/91] fix: let gets read a whole line

---
 .../src/taint_sources/taint_sources.cpp       | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 16823ca..7e66d8e 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -376,23 +376,34 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
   return ret;
 }
 
-// TODO (hbrodin): Should this be removed? The call to fgets doesn't seem right,
-// especially then length is sizeof char*, typically eight. In general it is
-// unbounded and the gets-function is deprecated.
+// TODO (hbrodin): Should this be removed? In general it is unbounded and the
+// gets-function is deprecated.
 EXT_C_FUNC char *__dfsw_gets(char *str, dfsan_label str_label,
                              dfsan_label *ret_label) {
   auto offset = Offset::from_file(stdin);
-  char *ret = fgets(str, sizeof str, stdin);
+  *ret_label = 0;
 
-  if (ret) {
-    size_t len = strlen(ret);
-    get_polytracker_tdag().source_taint(fileno(stdin), str, offset, len);
-    *ret_label = str_label;
-  } else {
-    *ret_label = 0;
+  size_t length = 0;
+  int c;
+  flockfile(stdin);
+  while ((c = getc_unlocked(stdin)) != EOF && c != '\n') {
+    str[length++] = static_cast<char>(c);
   }
-
-  return ret;
+  bool newline = c == '\n';
+  bool failed = !newline && (length == 0 || !feof_unlocked(stdin));
+  funlockfile(stdin);
+  if (failed) {
+    return nullptr;
+  }
+  str[length] = 0;
+  taint_source_buffer(fileno(stdin), str, offset,
+                      Length::from_returned_size(length), *ret_label);
+  // The newline is consumed, but not stored.
+  if (newline && !offset.valid()) {
+    get_polytracker_tdag().source_taint(fileno(stdin), offset, sizeof(char));
+  }
+  *ret_label = str_label;
+  return str;
 }
 
 EXT_C_FUNC ssize_t __dfsw_getdelim(char **lineptr, size_t *n, int delim,
-- 
2.43.0


From 2f2effd0f6055285964a0e16f464c22fd73c29f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 56/91] fix: align sections of the output file upwards

---
 polytracker/include/taintdag/outputfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 7318be9..05f4080 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -146,7 +146,8 @@ private:
   template <typename T> std::span<uint8_t> do_allocation() {
     constexpr auto idx = util::TypeIndex<T, std::tuple<Sections...>>::index;
     constexpr auto align = T::align_of;
-    auto begin = alloc_ptr_ + (reinterpret_cast<uintptr_t>(alloc_ptr_) % align);
+    auto misalignment = reinterpret_cast<uintptr_t>(alloc_ptr_) % align;
+    auto begin = alloc_ptr_ + (align - misalignment) % align;
     auto end = alloc_ptr_ = begin + T::allocation_size;
     file_header_->sections[idx].offset = begin - mapped_memory_.begin;
     return {begin, end};
-- 
2.43.0


From 0cde1a25fcb52b483a656ab3114902e68a8a62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:29 +0000
Subject: [PATCH 57/91] fix: bit ranges whose end wraps around are beyond
 capacity

---
 polytracker/include/taintdag/bitmap_section.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index 3b3e5d3..b0847b2 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -112,7 +112,7 @@ public:
       return;
     if (bit_begin >= BitCapacity)
       error_exit("Trying to set bit beyond capacity.");
-    if (bit_begin + n > BitCapacity)
+    if (n > BitCapacity - bit_begin)
       error_exit("Trying to set bit beyond capacity.");
 
     auto current_bucket = bucket_index(bit_begin);
-- 
2.43.0


From ba483a292649b40357ac66c70daee6e5754a6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:47 +0000
Subject: [PATCH 58/91] fix: mark labels as affecting control flow atomically

---
 polytracker/include/taintdag/labels.h | 29 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 10274cb..8cadf7f 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -60,7 +60,7 @@ struct Labels : public FixedSizeAlloc<storage_t> {
   }
 
   Taint read_label(label_t lbl) const {
-    return decode(*std::next(begin(), lbl));
+    return decode(load(*std::next(begin(), lbl)));
   }
 
   // Create a taint union
@@ -114,7 +114,9 @@ struct Labels : public FixedSizeAlloc<storage_t> {
 
     // Check if the encoded taint is already stored, if so reuse that label
     auto it = std::find_if(
-        b, e, [encoded](storage_t s) { return equal_ignore_cf(s, encoded); });
+        b, e, [encoded](storage_t const &s) {
+          return equal_ignore_cf(load(s), encoded);
+        });
     if (it != e) {
       return index(*it);
     }
@@ -135,7 +137,7 @@ struct Labels : public FixedSizeAlloc<storage_t> {
     // - If it is source taint, just mark it as affecting cf.
     // - else mark it and add for further processing
     auto add_to_q = [this](label_t label) -> bool {
-      auto encoded = begin()[label];
+      auto encoded = load(begin()[label]);
       if (check_affects_control_flow(encoded))
         return false;
 
@@ -177,21 +179,26 @@ struct Labels : public FixedSizeAlloc<storage_t> {
 
     while (!q.empty()) {
       auto l = q.pop_front();
-      auto encoded = begin()[l];
+      auto encoded = load(begin()[l]);
 
       std::visit(visitor, decode(encoded));
     }
   }
 
 private:
-  // TODO(hbrodin): This relies on the fact that we know that storage is aligned
-  // uint64_t memory that can atomically be replaced. This implementation could
-  // be modified to instead use a separate section of bits to mark it as
-  // affecting control flow (using atomics). Or any other solution, that is more
-  // correct.
+  // The affects control flow marker of a label can be set by any thread at any
+  // time, access to stored labels needs to be atomic. There is no ordering
+  // requirement. Once a label is available to a thread the remaining bits of it
+  // never change.
+  // NOTE: std::atomic_ref would be the better choice, but it is not available
+  // in the libc++ version used.
+  static storage_t load(storage_t const &s) {
+    return __atomic_load_n(&s, __ATOMIC_RELAXED);
+  }
+
   inline void set_affects_control_flow(label_t label) {
-    auto p = begin() + label;
-    *const_cast<storage_t *>(p) = add_affects_control_flow(*p);
+    auto p = const_cast<storage_t *>(begin() + label);
+    __atomic_fetch_or(p, add_affects_control_flow(0), __ATOMIC_RELAXED);
   }
 };
 } // namespace taintdag
-- 
2.43.0


From 80030f1d5976b5c4e6ff8510c365ebd682c0308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 59/91] fix: a failed munmap keeps the labels of the memory

---
 polytracker/src/taint_sources/taint_sources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 7e66d8e..6c841fb 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -461,7 +461,9 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   fprintf(stderr, "### munmap, addr %p, length %zu \n", addr, length);
 #endif
   int ret = munmap(addr, length);
-  dfsan_set_label(0, addr, length);
+  if (ret == 0) {
+    dfsan_set_label(0, addr, length);
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From 8f281dec15d54207b8b9f224bd13e45a055058a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:49 +0000
Subject: [PATCH 60/91] fix: nanosleep keeps the labels of memory it did not
 fill

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 2d10538..910fb3f 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -15,6 +15,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <dlfcn.h>
+#include <errno.h>
 #include <link.h>
 #include <poll.h>
 #include <pthread.h>
@@ -1915,7 +1916,7 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfsw_nanosleep(const struct timespec *req,
                                                    dfsan_label *ret_label) {
   int ret = nanosleep(req, rem);
   *ret_label = 0;
-  if (ret == -1 && rem) {
+  if (ret == -1 && errno == EINTR && rem) {
     // Interrupted by a signal, rem is filled with the remaining time.
     dfsan_set_label(0, rem, sizeof(struct timespec));
   }
-- 
2.43.0


From 4bbf5946ecad5bc70ed4b5e0a8c98066f9f6f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:49 +0000
Subject: [PATCH 61/91] fix: getpwuid_r removes the labels of all strings it
 returns

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 910fb3f..a4f4bac 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1437,9 +1437,14 @@ int __dfsw_getpwuid_r(id_t uid, struct passwd *pwd,
   // Store the data in pwd, the strings referenced from pwd in buf, and the
   // address of pwd in *result.  On failure, NULL is stored in *result.
   int ret = getpwuid_r(uid, pwd, buf, buflen, result);
-  if (ret == 0) {
+  if (ret == 0 && *result) {
     dfsan_set_label(0, pwd, sizeof(struct passwd));
-    dfsan_set_label(0, buf, strlen(buf) + 1);
+    char *strs[] = {pwd->pw_name, pwd->pw_passwd, pwd->pw_gecos, pwd->pw_dir,
+                    pwd->pw_shell};
+    for (char *str : strs) {
+      if (str >= buf && str < buf + buflen)
+        dfsan_set_label(0, str, strlen(str) + 1);
+    }
   }
   *ret_label = 0;
   dfsan_set_label(0, result, sizeof(struct passwd*));
-- 
2.43.0


From a72757eeebfd9be3ece890dc2da16646c2bb06ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:49 +0000
Subject: [PATCH 62/91] fix: do not run past the buffers of truncated messages
 and names

---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index a4f4bac..27ade5b 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1935,12 +1935,15 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfso_nanosleep(
   return __dfsw_nanosleep(req, rem, req_label, rem_label, ret_label);
 }
 
-static void clear_msghdr_labels(size_t bytes_written, struct msghdr *msg) {
+// name_size is the size of msg_name before the call. The name and the message
+// can be longer than what was stored (MSG_TRUNC).
+static void clear_msghdr_labels(size_t bytes_written, struct msghdr *msg,
+                                socklen_t name_size) {
   dfsan_set_label(0, msg, sizeof(*msg));
-  dfsan_set_label(0, msg->msg_name, msg->msg_namelen);
+  dfsan_set_label(0, msg->msg_name,
+                  name_size < msg->msg_namelen ? name_size : msg->msg_namelen);
   dfsan_set_label(0, msg->msg_control, msg->msg_controllen);
-  for (size_t i = 0; bytes_written > 0; ++i) {
-    assert(i < msg->msg_iovlen);
+  for (size_t i = 0; bytes_written > 0 && i < msg->msg_iovlen; ++i) {
     struct iovec *iov = &msg->msg_iov[i];
     size_t iov_written =
         bytes_written < iov->iov_len ? bytes_written : iov->iov_len;
@@ -1954,10 +1957,16 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfsw_recvmmsg(
     struct timespec *timeout, dfsan_label sockfd_label,
     dfsan_label msgvec_label, dfsan_label vlen_label, dfsan_label flags_label,
     dfsan_label timeout_label, dfsan_label *ret_label) {
+  // The kernel handles at most UIO_MAXIOV messages.
+  socklen_t name_sizes[1024];
+  if (vlen > sizeof(name_sizes) / sizeof(name_sizes[0]))
+    vlen = sizeof(name_sizes) / sizeof(name_sizes[0]);
+  for (unsigned int i = 0; i < vlen; ++i)
+    name_sizes[i] = msgvec[i].msg_hdr.msg_namelen;
   int ret = recvmmsg(sockfd, msgvec, vlen, flags, timeout);
   for (int i = 0; i < ret; ++i) {
     dfsan_set_label(0, &msgvec[i].msg_len, sizeof(msgvec[i].msg_len));
-    clear_msghdr_labels(msgvec[i].msg_len, &msgvec[i].msg_hdr);
+    clear_msghdr_labels(msgvec[i].msg_len, &msgvec[i].msg_hdr, name_sizes[i]);
   }
   *ret_label = 0;
   return ret;
@@ -1979,9 +1988,10 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfso_recvmmsg(
 SANITIZER_INTERFACE_ATTRIBUTE ssize_t __dfsw_recvmsg(
     int sockfd, struct msghdr *msg, int flags, dfsan_label sockfd_label,
     dfsan_label msg_label, dfsan_label flags_label, dfsan_label *ret_label) {
+  socklen_t name_size = msg->msg_namelen;
   ssize_t ret = recvmsg(sockfd, msg, flags);
   if (ret >= 0)
-    clear_msghdr_labels(ret, msg);
+    clear_msghdr_labels(ret, msg, name_size);
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From 5b3c67a988237b8bd5f65469ed57fa95f2b21fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:05 +0000
Subject: [PATCH 63/91] fix: use taints(), get_taints() does not exist

---
 polytracker/diffing.py        | 4 ++--
 polytracker/parsing.py        | 2 +-
 polytracker/visualizations.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/polytracker/diffing.py b/polytracker/diffing.py
index 48c1371..5c397de 100644
--- a/polytracker/diffing.py
+++ b/polytracker/diffing.py
@@ -186,7 +186,7 @@ class TraceDiff:
                 unit=" functions",
                 leave=False,
             ):
-                for region in func.get_taints().regions():
+                for region in func.taints().regions():
                     self._first_intervals[region.source].add(
                         Interval(region.offset, region.offset + region.length)
                     )
@@ -199,7 +199,7 @@ class TraceDiff:
                 unit=" functions",
                 leave=False,
             ):
-                for region in func.get_taints().regions():
+                for region in func.taints().regions():
                     self._second_intervals[region.source].add(
                         Interval(region.offset, region.offset + region.length)
                     )
diff --git a/polytracker/parsing.py b/polytracker/parsing.py
index d6c86b5..eb21bb1 100644
--- a/polytracker/parsing.py
+++ b/polytracker/parsing.py
@@ -287,7 +287,7 @@ def trace_to_tree(
                 child_node = node_type(bb)
                 node.children.append(child_node)
                 if include_terminals:
-                    for token in bb.get_taints().regions():
+                    for token in bb.taints().regions():
                         node.children.append(node_type(Terminal(token.value)))
                 func = bb.called_function
                 if func is not None:
diff --git a/polytracker/visualizations.py b/polytracker/visualizations.py
index c9dc8f3..82038d4 100644
--- a/polytracker/visualizations.py
+++ b/polytracker/visualizations.py
@@ -59,7 +59,7 @@ def temporal_animation(
         else:
             enhancer = ImageEnhance.Brightness(images[-1])
             image = enhancer.enhance(1.1)
-        for offset in access.get_taints():
+        for offset in access.taints():
             row = offset.offset // width
             col = offset.offset % width
             image.putpixel((col, row), 0)
-- 
2.43.0


From ea0a4ee143578b169f5917dd11c67a99780a1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:05 +0000
Subject: [PATCH 64/91] fix: keep the part of a region that only one trace
 touched

---
 polytracker/diffing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/diffing.py b/polytracker/diffing.py
index 5c397de..54bcb9a 100644
--- a/polytracker/diffing.py
+++ b/polytracker/diffing.py
@@ -217,7 +217,7 @@ class TraceDiff:
                     unit=" intervals",
                     leave=False,
                 ):
-                    self._bytes_only_in_first[source].remove_overlap(
+                    self._bytes_only_in_first[source].chop(
                         interval.begin, interval.end
                     )
                 self._bytes_only_in_second[source] = self._second_intervals[
@@ -229,7 +229,7 @@ class TraceDiff:
                     unit=" intervals",
                     leave=False,
                 ):
-                    self._bytes_only_in_second[source].remove_overlap(
+                    self._bytes_only_in_second[source].chop(
                         interval.begin, interval.end
                     )
                 assert (
-- 
2.43.0


From f5ecaf5f4f313627ace032d4ca969f488855b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:05 +0000
Subject: [PATCH 65/91] fix: compare the bytes of functions, not the identity
 of collections

---
 polytracker/diffing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/diffing.py b/polytracker/diffing.py
index 54bcb9a..f1a053b 100644
--- a/polytracker/diffing.py
+++ b/polytracker/diffing.py
@@ -110,7 +110,7 @@ class ControlFlowDiff:
         for a1, a2 in zip(ancestors1, ancestors2):
             if a1.name != a2.name:
                 continue
-            if a1.taints() != a2.taints():
+            if a1.taints().diff(a2.taints()):
                 self._first_function_with_different_control_flow = a1.name
                 break
 
-- 
2.43.0


From b0c7b5d8146d05a2f87dcb35e32b6a0b7a3546a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:05 +0000
Subject: [PATCH 66/91] fix: list the diffed trace's bytes when it has any

---
 polytracker/diffing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/diffing.py b/polytracker/diffing.py
index f1a053b..cdb2040 100644
--- a/polytracker/diffing.py
+++ b/polytracker/diffing.py
@@ -410,7 +410,7 @@ class TraceDiff:
                                     function_diff.regions_only_in_first,
                                     indent="\t\t\t",
                                 )
-                            if function_diff.bytes_only_in_first:
+                            if function_diff.bytes_only_in_second:
                                 status.write(
                                     "\t\tHere are the bytes that affected control flow only in the differed "
                                     "trace:\n"
-- 
2.43.0


From c56960613a23f56534d8e88870cd4b5d68ddc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:05 +0000
Subject: [PATCH 67/91] fix: traces that touch different bytes differ

---
 polytracker/diffing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/diffing.py b/polytracker/diffing.py
index cdb2040..3fd276c 100644
--- a/polytracker/diffing.py
+++ b/polytracker/diffing.py
@@ -296,7 +296,11 @@ class TraceDiff:
             )
 
     def __bool__(self):
-        return bool(self.functions_only_in_first) or bool(self.functions_only_in_second)
+        return (
+            bool(self.functions_only_in_first)
+            or bool(self.functions_only_in_second)
+            or any(diff for _, diff in self.functions_in_both)
+        )
 
     def __str__(self):
         status = StringIO()
-- 
2.43.0


From 0186112f6dbf6c0a22de54bfab1e281c5f8999de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:05 +0000
Subject: [PATCH 68/91] fix: nodes that neither dominate nor are dominated
 belong to the dominator forest

---
 polytracker/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 330103f..320684e 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -129,6 +129,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
         if self._dominator_forest is not None:
             return self._dominator_forest
         self._dominator_forest = DAG()
+        self._dominator_forest.add_nodes_from(self.nodes)
         for root in self.roots:
             for node, dominated_by in nx.immediate_dominators(self, root).items():
                 if node != dominated_by:
-- 
2.43.0


From 1f324cbd5b0f26d4056a530fcf6bec48cf2608fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:23 +0000
Subject: [PATCH 69/91] fix: build trees of a type that can be instantiated by
 default

---
 polytracker/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/parsing.py b/polytracker/parsing.py
index eb21bb1..0a4440b 100644
--- a/polytracker/parsing.py
+++ b/polytracker/parsing.py
@@ -254,7 +254,7 @@ N = TypeVar("N", bound=ParseTree[Union[Start, TraceEvent, Terminal]])
 
 def trace_to_tree(
     trace: ProgramTrace,
-    node_type: Type[N] = ParseTree[Union[Start, TraceEvent, Terminal]],  # type: ignore
+    node_type: Type[N] = MutableParseTree[Union[Start, TraceEvent, Terminal]],  # type: ignore
     include_terminals: bool = True,
 ) -> N:
     if trace.entrypoint is None:
-- 
2.43.0


From 8dbecd63dac8ba19299f3ec85f9d6995608855f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 70/91] fix: signal returns the program's own handler also
 after sigaction with SA_SIGINFO

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 27ade5b..b20bd65 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1732,7 +1732,7 @@ static sighandler_t dfsan_signal(int signum, sighandler_t handler,
 
   sighandler_t ret = signal(signum, handler);
 
-  if (ret == SignalHandler)
+  if (ret == SignalHandler || ret == (sighandler_t)SignalAction)
     ret = (sighandler_t)old_cb;
 
   *ret_label = 0;
-- 
2.43.0


From dc18d12631d17b3e4519b31ba14c2fbbbf103276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:04 +0000
Subject: [PATCH 71/91] fix: %n with a length modifier writes an object of that
 size

---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index b20bd65..8f5cb06 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2439,12 +2439,27 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
 
         case 'n': {
-          int *ptr = va_arg(ap, int *);
-          *ptr = (int)formatter.str_off;
+          void *ptr = va_arg(ap, void *);
+          size_t ptr_size = sizeof(int);
+          switch (*(formatter.fmt_cur - 1)) {
+          case 'h':
+            ptr_size = *(formatter.fmt_cur - 2) == 'h' ? sizeof(char)
+                                                       : sizeof(short);
+            break;
+          case 'l':
+          case 'q':
+          case 'j':
+          case 'z':
+          case 't':
+            ptr_size = sizeof(long);
+            break;
+          }
+          // Little endian: the low bytes are the value in the smaller types.
+          internal_memcpy(ptr, &formatter.str_off, ptr_size);
           va_labels++;
           if (va_origins)
             va_origins++;
-          dfsan_set_label(0, ptr, sizeof(*ptr));
+          dfsan_set_label(0, ptr, ptr_size);
           end_fmt = true;
           break;
         }
-- 
2.43.0


From b74ef4ce3cbd58bf74789ce9516583003856f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 72/91] fix: snprintf understands %m and does not read past the
 end of the format

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 8f5cb06..56ae4bf 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2464,6 +2464,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
         }
 
+        case 'm': // Message for errno, takes no argument
         case '%':
           retval = formatter.format();
           dfsan_set_label(0, formatter.str_cur(),
@@ -2489,7 +2490,8 @@ static int format_buffer(char *str, size_t size, const char *fmt,
       return retval;
     }
 
-    formatter.fmt_cur++;
+    if (*formatter.fmt_cur)
+      formatter.fmt_cur++;
     formatter.str_off += retval;
   }
 
-- 
2.43.0


From 3aef89f1262ddffe91caf6d151f9961e01cfd95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 73/91] fix: snprintf sets the label of its result also when it
 fails

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 56ae4bf..bac839f 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2300,6 +2300,10 @@ static int format_buffer(char *str, size_t size, const char *fmt,
                          va_list ap) {
   Formatter formatter(str, fmt, size);
 
+  *ret_label = 0;
+  if (ret_origin)
+    *ret_origin = 0;
+
   // The output is terminated even if there is nothing to format.
   if (!*fmt && size > 0) {
     *str = '\0';
@@ -2495,10 +2499,6 @@ static int format_buffer(char *str, size_t size, const char *fmt,
     formatter.str_off += retval;
   }
 
-  *ret_label = 0;
-  if (ret_origin)
-    *ret_origin = 0;
-
   // Number of bytes written in total.
   return formatter.str_off;
 }
-- 
2.43.0


From 7849afb88da1e2f7231d4970737d783c358ff8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:17 +0000
Subject: [PATCH 74/91] fix: a grammar taken from a trace names the block a
 call returns to once

---
 polytracker/grammars.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 159c4a7..962f105 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -1317,7 +1317,9 @@ def trace_to_grammar(trace: ProgramTrace) -> Grammar:
                         if ret is not None:
                             returning_to = ret.returning_to
                             if returning_to is not None:
-                                sub_productions.append(f"<{returning_to!s}>")
+                                # the block returned to follows, below, as the next one
+                                if returning_to != next_bb:
+                                    sub_productions.append(f"<{returning_to!s}>")
                             else:
                                 # TODO: Print warning
                                 pass
-- 
2.43.0


From 1dd2ff0b08634a7b68ca3cc0cd0fa169896eb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:17 +0000
Subject: [PATCH 75/91] fix: a grammar can be taken from a trace in which a
 function uses input in some calls only

---
 polytracker/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 962f105..44ea195 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -1278,7 +1278,11 @@ def trace_to_grammar(trace: ProgramTrace) -> Grammar:
 
             if not func.touched_taint:
                 # do not expand the function if it didn't touch taint
-                _ = Production(grammar, prod_name)
+                # (other calls to it may, so the production may exist)
+                if prod_name in grammar:
+                    grammar[prod_name].add(Rule(grammar))
+                else:
+                    _ = Production(grammar, prod_name, Rule(grammar))
                 t.write(
                     f"skipping {func.function.demangled_name} because it didn't touch taint"
                 )
-- 
2.43.0


From 2f25a9ef1a8586a790caf2f2a5db2effc43f4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:56 +0000
Subject: [PATCH 76/91] fix: simplifying a grammar keeps its start production

---
 polytracker/grammars.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 44ea195..5f59acd 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -1120,7 +1120,7 @@ class Grammar:
             ):
                 # remove any rules in the production that just recursively call the same production
                 prod.remove_recursive_rules()
-                if prod.removable and len(prod.rules) == 1:
+                if prod.removable and prod is not self.start and len(prod.rules) == 1:
                     # this production has a single rule, so replace all uses with that rule
                     for user in list(prod.used_by):
                         user.replace_sub_production(prod.name, prod.first_rule())  # type: ignore
@@ -1136,7 +1136,11 @@ class Grammar:
                 leave=False,
                 unit_divisor=1,
             ):
-                if prod.removable and not prod.can_produce_terminal:
+                if (
+                    prod.removable
+                    and prod is not self.start
+                    and not prod.can_produce_terminal
+                ):
                     removed = self.remove(prod)
                     assert removed
                     # print(f"removed {prod} because it was empty")
-- 
2.43.0


From 46b64d635ef20eb72689ddc0be7dc826d5c42dd4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:39:25 +0000
Subject: [PATCH 77/91] fix: clauses of more than 25 variables named them with
 characters Datalog does not allow

---
 polytracker/datalog.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/polytracker/datalog.py b/polytracker/datalog.py
index 717cb85..e8a2100 100644
--- a/polytracker/datalog.py
+++ b/polytracker/datalog.py
@@ -28,6 +28,13 @@ def get_valid_datalog_name(name):
     return f"GEN_{re.sub('[^a-zA-Z0-9]', datalog_repl_match, name)}"
 
 
+# Names the variables of a clause: a, b, ..., z, z1, z2, ...
+def get_variable_name(term: int) -> str:
+    if term > ord("z"):
+        return f"z{term - ord('z')}"
+    return chr(term)
+
+
 class DatalogTrueFactDecl:
     """
     This is a fact that will always be true. This is our datalog equivalent of epislon productions
@@ -141,19 +148,27 @@ class DatalogRuleList:
             # If its a string, its a production rule
             if isinstance(term, str):
                 if term == TRUE_FACT_NAME:
-                    self.rules.append(DatalogTrueFact(chr(start_term)))
+                    self.rules.append(DatalogTrueFact(get_variable_name(start_term)))
                     start_term += 1
                     continue
 
                 self.rules.append(
-                    DatalogRule(term, chr(start_term), chr(start_term + 1))
+                    DatalogRule(
+                        term,
+                        get_variable_name(start_term),
+                        get_variable_name(start_term + 1),
+                    )
                 )
                 start_term += 1
             # If its a terminal, we must make sure the name matches that of the fact.
             elif isinstance(term, Terminal):
                 for val in term.terminal:
                     self.rules.append(
-                        DatalogRule(str(val), chr(start_term), chr(start_term + 1))
+                        DatalogRule(
+                            str(val),
+                            get_variable_name(start_term),
+                            get_variable_name(start_term + 1),
+                        )
                     )
                     start_term += 1
             else:
-- 
2.43.0


From 325f29f286e632061cdda215707f246e7cae8377 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:39:25 +0000
Subject: [PATCH 78/91] fix: the exit status of a command with extensions was
 lost

---
 polytracker/plugins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/plugins.py b/polytracker/plugins.py
index 95f4062..3ace9fe 100644
--- a/polytracker/plugins.py
+++ b/polytracker/plugins.py
@@ -216,10 +216,11 @@ class AbstractCommand(Plugin):
             return Plugin.__getattribute__(self, item)
 
     def _run(self, args: Namespace):
-        Plugin.__getattribute__(self, "run")(args)
+        retval = Plugin.__getattribute__(self, "run")(args)
         # Fixme: Do extensions really need to be run every time?
         for extension in self.extensions:
             extension.run(self, args)
+        return retval
 
     @abstractmethod
     def run(self, args: Namespace):
-- 
2.43.0


From 39cf0fda546d897ba65bdea7fb79cc99054339f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:39:36 +0000
Subject: [PATCH 79/91] fix: the REPL rejected statements other than
 assignments and ran blocks after their first line

---
 polytracker/repl.py | 51 +++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/polytracker/repl.py b/polytracker/repl.py
index 37c86f4..624ad41 100644
--- a/polytracker/repl.py
+++ b/polytracker/repl.py
@@ -1,6 +1,7 @@
 import ast
 import inspect
 import traceback
+from codeop import compile_command
 from datetime import datetime
 from io import StringIO
 from typing import Any, Callable, Dict, Iterable, List, Optional, Set
@@ -279,42 +280,23 @@ class PolyTrackerREPL:
         self.multi_line = False
 
         try:
-            while True:
-                try:
-                    parsed = ast.parse(command)
-                    is_assignment = any(
-                        isinstance(node, ast.Assign)
-                        or isinstance(node, ast.AnnAssign)
-                        or isinstance(node, ast.AugAssign)
-                        for node in ast.walk(parsed)
-                    )
-                    break
-                except IndentationError as e:
-                    if e.msg.startswith("expected an indented block"):
-                        self.multi_line = True
-                    else:
-                        raise e
-                except SyntaxError as e:
-                    if e.msg.startswith("unexpected EOF"):
-                        self.multi_line = True
-                    else:
-                        raise e
-                if self.multi_line:
-                    next_line = self.session.prompt(
-                        continued_prompt,
-                        complete_while_typing=True,
-                        auto_suggest=AutoSuggestFromHistory(),
-                        completer=PolyTrackerCompleter(self),
-                        key_bindings=bindings,
-                    )
-                    if len(next_line) == 0:
-                        is_assignment = True
-                        break
-                    command = f"{command}\n{next_line}"
+            while compile_command(command) is None:
+                # the statement is not complete yet
+                self.multi_line = True
+                next_line = self.session.prompt(
+                    continued_prompt,
+                    complete_while_typing=True,
+                    auto_suggest=AutoSuggestFromHistory(),
+                    completer=PolyTrackerCompleter(self),
+                    key_bindings=bindings,
+                )
+                command = f"{command}\n{next_line}"
+            body = ast.parse(command).body
+            is_expression = len(body) == 1 and isinstance(body[0], ast.Expr)
 
             if command in self.commands:
                 self.commands[command].run_bare()
-            elif is_assignment or self.multi_line:
+            elif not is_expression:
                 exec(command, self.state)
             else:
                 func_call = command[: command.find("(")].strip()
@@ -328,7 +310,8 @@ class PolyTrackerREPL:
                         "saving the result to a variable?"
                     ):
                         return
-                result = eval(command, self.state)
+                expression = ast.Expression(body[0].value)  # type: ignore
+                result = eval(compile(expression, "<input>", "eval"), self.state)
                 if (
                     hasattr(result, "__name__")
                     and result.__name__ == command
-- 
2.43.0


From b6371ac5e71afd40c53d05845b338e776ed500c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:43:21 +0000
Subject: [PATCH 80/91] fix: iterating a FunctionInfo raised TypeError, and it
 took sources for one byte too short

---
 polytracker/cfg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/polytracker/cfg.py b/polytracker/cfg.py
index e6545f7..2c9120c 100644
--- a/polytracker/cfg.py
+++ b/polytracker/cfg.py
@@ -50,8 +50,8 @@ class FunctionInfo:
         elif os.path.exists(source):
             return os.stat(source).st_size
         else:
-            # find the largest byte this trace touched
-            return max(self.input_bytes[source])
+            # find the end of the largest byte this trace touched
+            return max(self.input_bytes[source], default=-1) + 1
 
     def taint_source_sizes(self) -> Dict[str, int]:
         return {source: self.source_size(source) for source in self.taint_sources}
@@ -95,8 +95,8 @@ class FunctionInfo:
     def __getitem__(self, input_source_name: str) -> List[int]:
         return self.input_bytes[input_source_name]
 
-    def __iter__(self) -> Iterable[str]:
-        return self.taint_sources
+    def __iter__(self) -> Iterator[str]:
+        return iter(self.taint_sources)
 
     def items(self) -> ItemsView[str, List[int]]:
         return self.input_bytes.items()
-- 
2.43.0


From 5e36a3544cf83237d38d2f2d2ebaafcb2a7cf0ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:56:31 +0000
Subject: [PATCH 81/91] fix: environment values with quotes reached the
 container with backslashes added

---
 polytracker/containerization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polytracker/containerization.py b/polytracker/containerization.py
index 02aaf09..f6e3991 100644
--- a/polytracker/containerization.py
+++ b/polytracker/containerization.py
@@ -211,8 +211,7 @@ class DockerContainer:
         if env is not None:
             for k, v in env.items():
                 cmd_args.append("-e")
-                escaped_value = v.replace('"', '\\"')
-                cmd_args.append(f"{k}={escaped_value}")
+                cmd_args.append(f"{k}={v}")
 
         cmd_args.append(self.name)
 
-- 
2.43.0


From 1794bf3ceb72b90dc8ac1ac23b60eead5b38e62c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:20:18 +0000
Subject: [PATCH 82/91] fix: batch cavity detection stored rows its own readers
 could not use: other names, and ends one too far

---
 build_in_docker/file_cavity_detection.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/build_in_docker/file_cavity_detection.py b/build_in_docker/file_cavity_detection.py
index 39164a6..3c5160b 100644
--- a/build_in_docker/file_cavity_detection.py
+++ b/build_in_docker/file_cavity_detection.py
@@ -317,6 +317,20 @@ def tdag_dropper(dst_tdag: Path, drop_tdag: bool):
             dst_tdag.unlink()
 
 
+def cavity_rows(output: str) -> str:
+    """
+    Converts the output of the cavities command to rows of filename,cavityfirst,cavitylast
+
+    The command prints path,begin,end where path is the path in the container and end is the
+    offset following the cavity.
+    """
+    rows = ""
+    for line in output.splitlines():
+        path, begin, end = line.rsplit(",", 2)
+        rows += f"{Path(path).name},{begin},{int(end) - 1}\n"
+    return rows
+
+
 def file_cavity_detection(
     file: Path, output_dir: Path, timeout: int, tool: Tool, drop_tdag: bool
 ) -> str:
@@ -384,7 +398,7 @@ def file_cavity_detection(
             return f"{filename},-4,-4\n"
         else:
             print(f"Finished {filename} successfully.")
-            return return_str
+            return cavity_rows(return_str)
 
 
 def path_iterator(paths: Iterable[Path]) -> Generator[Path, None, None]:
-- 
2.43.0


From 75adb950ae28f9055a5679ce4b9209d3dace301b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:20:18 +0000
Subject: [PATCH 83/91] fix: files whose cavity detection failed were mutated
 in bytes that are no cavities

---
 build_in_docker/mutate_cavities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/build_in_docker/mutate_cavities.py b/build_in_docker/mutate_cavities.py
index bc2d624..a7c26b5 100755
--- a/build_in_docker/mutate_cavities.py
+++ b/build_in_docker/mutate_cavities.py
@@ -52,9 +52,11 @@ def iter_cavities(
     """Iterate all cavities in filename, as recordedd in cavities_file. Generates a (first, last) tuple for each cavity"""
     with open(cavities_file, "r") as f:
         rdr = csv.reader(f)
-        yield from map(
+        cavities = map(
             lambda x: (int(x[1]), int(x[2])), filter(lambda x: x[0] == filename, rdr)
         )
+        # Negative offsets indicate that cavity detection failed
+        yield from filter(lambda x: x[0] >= 0, cavities)
 
 
 def iter_cavity_offsets(
-- 
2.43.0


From fe7f2841839cf08e4e8b3a907203a4aff293039f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:20:18 +0000
Subject: [PATCH 84/91] fix: verification ended at the first mutation for which
 the tool wrote no output

---
 build_in_docker/verify_cavities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build_in_docker/verify_cavities.py b/build_in_docker/verify_cavities.py
index c66bdf5..ae144a9 100644
--- a/build_in_docker/verify_cavities.py
+++ b/build_in_docker/verify_cavities.py
@@ -176,8 +176,8 @@ def verify_in_container(inputfile: Path, tool: Tool):
                             c["checksum_eq"] += 1
                         else:
                             c["checksum_diff"] += 1
+                        mutated_ouput.unlink()
                     mutated_input.unlink()
-                    mutated_ouput.unlink()
                 t = time()
                 if t - lastprint > 30:
                     rate = c["count"] / (t - start)
-- 
2.43.0


From b268049c17181f062dacf2cb8c66f60a0ef1ee46 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:20:18 +0000
Subject: [PATCH 85/91] fix: verification results could not be stored on
 another file system than temporary files

---
 build_in_docker/verify_cavities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build_in_docker/verify_cavities.py b/build_in_docker/verify_cavities.py
index ae144a9..219581d 100644
--- a/build_in_docker/verify_cavities.py
+++ b/build_in_docker/verify_cavities.py
@@ -228,7 +228,7 @@ def start_in_container(
 
         json_path = Path(datadir) / STATSJSON
         json_dst = resultsdir / f"{inputfile.stem}-verification.json"
-        json_path.rename(json_dst)
+        shutil.move(str(json_path), str(json_dst))
     print(f"Completed {inputfile}")
 
 
-- 
2.43.0


From a730dad2dde8184dd93581786779fe4238bad441 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:20:59 +0000
Subject: [PATCH 86/91] fix: names of files were read as shell code when
 processed in a container

---
 build_in_docker/file_cavity_detection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/build_in_docker/file_cavity_detection.py b/build_in_docker/file_cavity_detection.py
index 3c5160b..405acec 100644
--- a/build_in_docker/file_cavity_detection.py
+++ b/build_in_docker/file_cavity_detection.py
@@ -8,6 +8,7 @@ from argparse import ArgumentParser
 from contextlib import contextmanager
 from os import mkdir, rename
 from pathlib import Path
+from shlex import quote
 from shutil import rmtree
 from time import time
 from typing import Any, Dict, Generator, Iterable, List, Type, Union
@@ -194,7 +195,7 @@ class MuTool(Tool):
         return ".ps"
 
     def _cmd(self, binary: Path, input: Path, output: Path):
-        return f"{str(binary)} draw -o {str(output)} {input}"
+        return f"{str(binary)} draw -o {quote(str(output))} {quote(str(input))}"
 
     def command_instrumented(
         self, container_input_path: Path, container_output_path: Path
@@ -229,7 +230,7 @@ class OpenJPEG(Tool):
         return ".bmp"
 
     def _cmd(self, binary: Path, input: Path, output: Path):
-        return f"{str(binary)} -OutFor bmp -o {str(output)} -i {input}"
+        return f"{str(binary)} -OutFor bmp -o {quote(str(output))} -i {quote(str(input))}"
 
     def command_instrumented(
         self, container_input_path: Path, container_output_path: Path
@@ -266,7 +267,7 @@ class LibJPEG(Tool):
         return ".bmp"
 
     def _cmd(self, binary: Path, input: Path, output: Path):
-        return f"{str(binary)} -bmp -outfile {str(output)} {input}"
+        return f"{str(binary)} -bmp -outfile {quote(str(output))} {quote(str(input))}"
 
     def command_instrumented(
         self, container_input_path: Path, container_output_path: Path
-- 
2.43.0


From 6f00bca07f209d4a78759f7bbcf66c296fb949fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:30 +0000
Subject: [PATCH 87/91] fix: calls of library functions did not reach their
 wrappers

---
 polytracker/custom_abi/dfsan_abilist.txt | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/polytracker/custom_abi/dfsan_abilist.txt b/polytracker/custom_abi/dfsan_abilist.txt
index ff1afb5..aa2f7e4 100644
--- a/polytracker/custom_abi/dfsan_abilist.txt
+++ b/polytracker/custom_abi/dfsan_abilist.txt
@@ -438,6 +438,7 @@ fun:_IO_ftrylockfile=uninstrumented
 fun:_IO_funlockfile=uninstrumented
 fun:_IO_fwrite=uninstrumented
 fun:_IO_getc=uninstrumented
+fun:_IO_getc=custom
 fun:_IO_getline=uninstrumented
 fun:_IO_getline_info=uninstrumented
 fun:_IO_gets=uninstrumented
@@ -1077,6 +1078,7 @@ fun:__get_cpu_features=uninstrumented
 fun:__getauxval=uninstrumented
 fun:__getcwd_chk=uninstrumented
 fun:__getdelim=uninstrumented
+fun:__getdelim=custom
 fun:__getdomainname_chk=uninstrumented
 fun:__getf2=uninstrumented
 fun:__getgroups_chk=uninstrumented
@@ -1644,6 +1646,7 @@ fun:_dl_deallocate_tls=uninstrumented
 fun:_dl_debug_state=uninstrumented
 fun:_dl_find_dso_for_object=uninstrumented
 fun:_dl_get_tls_static_info=uninstrumented
+fun:_dl_get_tls_static_info=custom
 fun:_dl_make_stack_executable=uninstrumented
 fun:_dl_mcount=uninstrumented
 fun:_dl_mcount_wrapper=uninstrumented
@@ -2010,6 +2013,7 @@ fun:epoll_create1=uninstrumented
 fun:epoll_ctl=uninstrumented
 fun:epoll_pwait=uninstrumented
 fun:epoll_wait=uninstrumented
+fun:epoll_wait=custom
 fun:erand48=uninstrumented
 fun:erand48_r=uninstrumented
 fun:erf=uninstrumented
@@ -2110,6 +2114,7 @@ fun:ffsll=uninstrumented
 fun:fgetc=uninstrumented
 fun:fgetc=custom
 fun:fgetc_unlocked=uninstrumented
+fun:fgetc_unlocked=custom
 fun:fgetgrent=uninstrumented
 fun:fgetgrent_r=uninstrumented
 fun:fgetpos=uninstrumented
@@ -2161,6 +2166,7 @@ fun:fopen64=custom
 
 fun:fopencookie=uninstrumented
 fun:fork=uninstrumented
+fun:fork=custom
 fun:forkpty=uninstrumented
 fun:fpathconf=uninstrumented
 fun:fprintf=uninstrumented
@@ -2264,6 +2270,7 @@ fun:getcwd=uninstrumented
 fun:getdate=uninstrumented
 fun:getdate_r=uninstrumented
 fun:getdelim=uninstrumented
+fun:getdelim=custom
 fun:getdirentries=uninstrumented
 fun:getdirentries64=uninstrumented
 fun:getdomainname=uninstrumented
@@ -2319,6 +2326,7 @@ fun:getopt_long_only=uninstrumented
 fun:getpagesize=uninstrumented
 fun:getpass=uninstrumented
 fun:getpeername=uninstrumented
+fun:getpeername=custom
 fun:getpgid=uninstrumented
 fun:getpgrp=uninstrumented
 fun:getpid=uninstrumented
@@ -2353,6 +2361,7 @@ fun:getrpcent_r=uninstrumented
 fun:getrpcport=uninstrumented
 fun:getrusage=uninstrumented
 fun:gets=uninstrumented
+fun:gets=custom
 fun:getsecretkey=uninstrumented
 fun:getservbyname=uninstrumented
 fun:getservbyname_r=uninstrumented
@@ -2366,7 +2375,9 @@ fun:getsgnam=uninstrumented
 fun:getsgnam_r=uninstrumented
 fun:getsid=uninstrumented
 fun:getsockname=uninstrumented
+fun:getsockname=custom
 fun:getsockopt=uninstrumented
+fun:getsockopt=custom
 fun:getsourcefilter=uninstrumented
 fun:getspent=uninstrumented
 fun:getspent_r=uninstrumented
@@ -2690,6 +2701,7 @@ fun:memcpy=uninstrumented
 fun:memfrob=uninstrumented
 fun:memmem=uninstrumented
 fun:memmove=uninstrumented
+fun:memmove=custom
 fun:mempcpy=uninstrumented
 fun:memrchr=uninstrumented
 fun:memset=uninstrumented
@@ -2874,6 +2886,7 @@ fun:open_by_handle_at=uninstrumented
 fun:open_memstream=uninstrumented
 fun:open_wmemstream=uninstrumented
 fun:openat=uninstrumented
+fun:openat=custom
 fun:openat64=uninstrumented
 fun:opendir=uninstrumented
 fun:openlog=uninstrumented
@@ -3003,6 +3016,7 @@ fun:pthread_getname_np=uninstrumented
 fun:pthread_getschedparam=uninstrumented
 fun:pthread_getspecific=uninstrumented
 fun:pthread_join=uninstrumented
+fun:pthread_join=custom
 fun:pthread_key_create=uninstrumented
 fun:pthread_key_delete=uninstrumented
 fun:pthread_kill=uninstrumented
@@ -3145,7 +3159,9 @@ fun:recv=custom
 fun:recvfrom=uninstrumented
 fun:recvfrom=custom
 fun:recvmmsg=uninstrumented
+fun:recvmmsg=custom
 fun:recvmsg=uninstrumented
+fun:recvmsg=custom
 fun:regcomp=uninstrumented
 fun:regerror=uninstrumented
 fun:regexec=uninstrumented
@@ -3316,6 +3332,7 @@ fun:shutdown=uninstrumented
 fun:sigaction=uninstrumented
 fun:sigaddset=uninstrumented
 fun:sigaltstack=uninstrumented
+fun:sigaltstack=custom
 fun:sigandset=uninstrumented
 fun:sigblock=uninstrumented
 fun:sigdelset=uninstrumented
@@ -3329,6 +3346,7 @@ fun:sigisemptyset=uninstrumented
 fun:sigismember=uninstrumented
 fun:siglongjmp=uninstrumented
 fun:signal=uninstrumented
+fun:signal=custom
 fun:signalfd=uninstrumented
 fun:significand=uninstrumented
 fun:significandf=uninstrumented
@@ -3417,7 +3435,7 @@ fun:strncpy=uninstrumented
 fun:strndup=uninstrumented
 fun:strnlen=uninstrumented
 fun:strpbrk=uninstrumented
-fun:strpbrk=functional
+fun:strpbrk=custom
 fun:strptime=uninstrumented
 fun:strptime_l=uninstrumented
 fun:strrchr=uninstrumented
-- 
2.43.0


From 9ff00e258dc164925d3309b41a4fabdd4dc71e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:30 +0000
Subject: [PATCH 88/91] fix: programs that call _IO_putc could not be linked

---
 polytracker/src/taint_sources/write_taints.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 846d14c..bd708fd 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -109,6 +109,12 @@ EXT_C_FUNC int __dfsw_fputc(int ch, FILE *stream, dfsan_label ch_label,
   return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
 }
 
+EXT_C_FUNC int __dfsw__IO_putc(int ch, FILE *stream, dfsan_label ch_label,
+                               dfsan_label stream_label,
+                               dfsan_label *ret_label) {
+  return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
+}
+
 EXT_C_FUNC int __dfsw__putc(int ch, FILE *stream, dfsan_label ch_label,
                             dfsan_label stream_label, dfsan_label *ret_label) {
   return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
-- 
2.43.0


From d311f30adf3d0b9d4b5e6d96e3f60075e74ad00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:30 +0000
Subject: [PATCH 89/91] fix: results of some character and number functions
 lost their taint

---
 polytracker/custom_abi/dfsan_abilist.txt | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polytracker/custom_abi/dfsan_abilist.txt b/polytracker/custom_abi/dfsan_abilist.txt
index aa2f7e4..cca21fd 100644
--- a/polytracker/custom_abi/dfsan_abilist.txt
+++ b/polytracker/custom_abi/dfsan_abilist.txt
@@ -2511,14 +2511,17 @@ fun:isascii=uninstrumented
 fun:isastream=uninstrumented
 fun:isatty=uninstrumented
 fun:isblank=uninstrumented
+fun:isblank=functional
 fun:isblank_l=uninstrumented
 fun:iscntrl=uninstrumented
+fun:iscntrl=functional
 fun:iscntrl_l=uninstrumented
 fun:isctype=uninstrumented
 fun:isdigit=uninstrumented
 fun:isdigit_l=uninstrumented
 fun:isfdtype=uninstrumented
 fun:isgraph=uninstrumented
+fun:isgraph=functional
 fun:isgraph_l=uninstrumented
 fun:isinf=uninstrumented
 fun:isinfd128=uninstrumented
@@ -2527,6 +2530,7 @@ fun:isinfd64=uninstrumented
 fun:isinff=uninstrumented
 fun:isinfl=uninstrumented
 fun:islower=uninstrumented
+fun:islower=functional
 fun:islower_l=uninstrumented
 fun:isnan=uninstrumented
 fun:isnanf=uninstrumented
@@ -2538,6 +2542,7 @@ fun:ispunct_l=uninstrumented
 fun:isspace=uninstrumented
 fun:isspace_l=uninstrumented
 fun:isupper=uninstrumented
+fun:isupper=functional
 fun:isupper_l=uninstrumented
 fun:iswalnum=uninstrumented
 fun:iswalnum_l=uninstrumented
@@ -2592,6 +2597,7 @@ fun:killpg=uninstrumented
 fun:klogctl=uninstrumented
 fun:l64a=uninstrumented
 fun:labs=uninstrumented
+fun:labs=functional
 fun:lchmod=uninstrumented
 fun:lchown=uninstrumented
 fun:lckpwdf=uninstrumented
@@ -2616,6 +2622,7 @@ fun:lio_listio64=uninstrumented
 fun:listen=uninstrumented
 fun:listxattr=uninstrumented
 fun:llabs=uninstrumented
+fun:llabs=functional
 fun:lldiv=uninstrumented
 fun:llistxattr=uninstrumented
 fun:llrint=uninstrumented
-- 
2.43.0


From 7ac2f6ddfc7b7fb771bd781519cb13be149865f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:39 +0000
Subject: [PATCH 90/91] fix: help of functions whose documentation is not valid
 markup was not shown

---
 polytracker/repl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polytracker/repl.py b/polytracker/repl.py
index 624ad41..0f9434f 100644
--- a/polytracker/repl.py
+++ b/polytracker/repl.py
@@ -155,7 +155,7 @@ def print_function_help(func, func_name: Optional[str] = None):
     func_signature = f"{func_name}{sig!s}"
     print_formatted_text(PygmentsTokens(lex(func_signature, lexer=PythonLexer())))
     if func.__doc__ is not None:
-        print_formatted_text(HTML(f"<b>{func.__doc__}</b>"))
+        print_formatted_text(HTML("<b>{}</b>").format(func.__doc__))
 
 
 class PolyTrackerREPL:
@@ -334,8 +334,8 @@ class PolyTrackerREPL:
             dots = "." * (longest_command - len(name) + 1)
             first_docstring_line = command.help.split("\n")[0]
             print_formatted_text(
-                HTML(
-                    f'<b fg="ansiblue">{name}</b>{dots}<i> {first_docstring_line} </i>'
+                HTML('<b fg="ansiblue">{}</b>{}<i> {} </i>').format(
+                    name, dots, first_docstring_line
                 )
             )
 
-- 
2.43.0


From bee83cfc0286f9373ddcbda273605288ce050318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:28 +0000
Subject: [PATCH 91/91] fix: list functions of 100000 bytes and more, and none
 for their name

readelf prints wide sizes past their column, so large functions were left
out of the lists. In libcxx_tracklist a defined function whose name contains
UND was taken for an undefined one.
---
 polytracker/scripts/build_lib.py        | 12 ++++++++----
 polytracker/scripts/create_stublist.py  | 12 ++++++++----
 polytracker/scripts/libcxx_tracklist.py | 22 ++++++++++++++++------
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/polytracker/scripts/build_lib.py b/polytracker/scripts/build_lib.py
index fab94ba..96508b4 100644
--- a/polytracker/scripts/build_lib.py
+++ b/polytracker/scripts/build_lib.py
@@ -27,12 +27,16 @@ def defined_function_list(object):
     if readelf_proc.returncode != 0:
         raise subprocess.CalledProcessError(readelf_proc.returncode, "readelf")
     for line in readelf:
+        # NOTE The columns are not at fixed positions, e.g. large sizes are wider.
+        # Num: Value Size Type Bind Vis Ndx Name
+        fields = line.split()
         if (
-            (line[31:35] == "FUNC" or line[31:36] == "IFUNC")
-            and line[39:44] != "LOCAL"
-            and line[55:58] != "UND"
+            len(fields) >= 8
+            and fields[3] in ("FUNC", "IFUNC")
+            and fields[4] != "LOCAL"
+            and fields[6] != "UND"
         ):
-            function_name = line[59:].split("@")[0]
+            function_name = fields[7].split("@")[0]
             functions.append(function_name)
     return functions
 
diff --git a/polytracker/scripts/create_stublist.py b/polytracker/scripts/create_stublist.py
index c26c883..88e89d3 100644
--- a/polytracker/scripts/create_stublist.py
+++ b/polytracker/scripts/create_stublist.py
@@ -28,12 +28,16 @@ def defined_function_list(object):
         raise subprocess.CalledProcessError(readelf_proc.returncode, "readelf")
     # NOTE For something like the ABI if you are stubbing it out you might want locally defined functions
     for line in readelf:
+        # NOTE The columns are not at fixed positions, e.g. large sizes are wider.
+        # Num: Value Size Type Bind Vis Ndx Name
+        fields = line.split()
         if (
-            (line[31:35] == "FUNC" or line[31:36] == "IFUNC")
-            and line[39:44] != "LOCAL"
-            and line[55:58] != "UND"
+            len(fields) >= 8
+            and fields[3] in ("FUNC", "IFUNC")
+            and fields[4] != "LOCAL"
+            and fields[6] != "UND"
         ):
-            function_name = line[59:].split("@")[0]
+            function_name = fields[7].split("@")[0]
             functions.append(function_name)
     return functions
 
diff --git a/polytracker/scripts/libcxx_tracklist.py b/polytracker/scripts/libcxx_tracklist.py
index 04bfbd7..3d1eeca 100644
--- a/polytracker/scripts/libcxx_tracklist.py
+++ b/polytracker/scripts/libcxx_tracklist.py
@@ -12,12 +12,16 @@ def defined_function_list(object):
         raise subprocess.CalledProcessError(readelf_proc.returncode, "readelf")
     # NOTE For something like the ABI if you are stubbing it out you might want locally defined functions
     for line in readelf:
+        # NOTE The columns are not at fixed positions, e.g. large sizes are wider.
+        # Num: Value Size Type Bind Vis Ndx Name
+        fields = line.split()
         if (
-            (line[31:35] == "FUNC" or line[31:36] == "IFUNC")
-            and line[39:44] != "LOCAL"
-            and line[55:58] != "UND"
+            len(fields) >= 8
+            and fields[3] in ("FUNC", "IFUNC")
+            and fields[4] != "LOCAL"
+            and fields[6] != "UND"
         ):
-            function_name = line[59:].split("@")[0]
+            function_name = fields[7].split("@")[0]
             functions.append(function_name)
     return functions
 
@@ -32,8 +36,14 @@ def undefined_function_list(object):
         raise subprocess.CalledProcessError(readelf_proc.returncode, "readelf")
     # NOTE For something like the ABI if you are stubbing it out you might want locally defined functions
     for line in readelf:
-        if (line[31:35] == "FUNC" or line[31:36] == "IFUNC") and "UND" in line:
-            function_name = line[59:].split("@")[0]
+        # Num: Value Size Type Bind Vis Ndx Name
+        fields = line.split()
+        if (
+            len(fields) >= 8
+            and fields[3] in ("FUNC", "IFUNC")
+            and fields[6] == "UND"
+        ):
+            function_name = fields[7].split("@")[0]
             functions.append(function_name)
     return functions
 
-- 
2.43.0

