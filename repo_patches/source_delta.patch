From f635d99a92c4432058e6aff26b2d653e3d247ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:56 +0000
Subject: [PATCH 01/25] fix: carry on after short and interrupted transfers

read() and write() may transfer fewer bytes than asked for or be
interrupted by a signal. The file read loop overwrote the start of the
array after a short read, writes stopped after a short write, and an
interrupted standard input read returned SIZE_MAX bytes.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  2 ++
 .../cmp/io/impl/unix_like/unix_like_uin.hpp   |  2 ++
 .../cmp/io/impl/unix_like/unix_like_uout.hpp  |  2 ++
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 35 ++++++++++++++-----
 .../cmp/io/impl/unix_like/unix_like_uin.cpp   |  9 ++++-
 .../cmp/io/impl/unix_like/unix_like_uout.cpp  | 21 ++++++++---
 6 files changed, 57 insertions(+), 14 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 8d33fea..b8650e2 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -4,6 +4,8 @@
 #ifndef CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 
+#include <cerrno>
+
 #include <fcntl.h>
 #include <unistd.h>
 
diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
index e12cb49..dd011fe 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
@@ -4,6 +4,8 @@
 #ifndef CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 
+#include <cerrno>
+
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
index d0ee464..7f7dd3b 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
@@ -4,6 +4,8 @@
 #ifndef CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 
+#include <cerrno>
+
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index e2d66de..b5439b1 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -224,15 +224,19 @@ noexcept
 {
     ssize_t bytes_read_last;
     ssize_t bytes_read_total{0};
-    while (true) {
-        bytes_read_last = ::read(m_file_descriptor, data, byte_count);
+    while (bytes_read_total < byte_count) {
+        bytes_read_last = ::read(
+            m_file_descriptor,
+            data + bytes_read_total,
+            byte_count - bytes_read_total
+        );
+        if (bytes_read_last == -1 && errno == EINTR) {
+            continue;
+        }
         if (bytes_read_last == -1 || bytes_read_last == 0) {
             break;
         }
         bytes_read_total += bytes_read_last;
-        if (bytes_read_total == byte_count) {
-            break;
-        }
     }
 
     return bytes_read_total;
@@ -245,11 +249,24 @@ file::write_block (
 )
 noexcept
 {
-    ssize_t native_bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (native_bytes_written == -1) {
-        return 0;
+    ssize_t bytes_written_last;
+    ssize_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        bytes_written_last = ::write(
+            m_file_descriptor,
+            data + bytes_written_total,
+            byte_count - bytes_written_total
+        );
+        if (bytes_written_last == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written_last == -1 || bytes_written_last == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written_last;
     }
-    return native_bytes_written;
+
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 10e8db6..9485acb 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -36,7 +36,14 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    return ::read(STDIN_FILENO, data, byte_count);
+    ssize_t bytes_read;
+    do {
+        bytes_read = ::read(STDIN_FILENO, data, byte_count);
+    } while (bytes_read == -1 && errno == EINTR);
+    if (bytes_read == -1) {
+        return 0;
+    }
+    return bytes_read;
 } // function -----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::stdin_stream
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index e7143e7..b7c559c 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -36,11 +36,24 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    ssize_t bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (bytes_written == -1) {
-        return 0;
+    ssize_t bytes_written_last;
+    std::size_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        bytes_written_last = ::write(
+            m_file_descriptor,
+            data + bytes_written_total,
+            byte_count - bytes_written_total
+        );
+        if (bytes_written_last == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written_last == -1 || bytes_written_last == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written_last;
     }
-    return bytes_written;
+
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 #if CMP_CONFIG_HEADER_ONLY == false
-- 
2.43.0


From 1de033d200f140db7081cefe14410c77e3a4d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:26 +0000
Subject: [PATCH 02/25] fix: read past the buffer from the right place

A read larger than the buffer ignored what the buffer already held, a
container resource skipped bytes scaled by its element size, and a
resource that delivers its data in pieces ended a read early.
---
 api/src/cmp/io/impl/ctr_essence.ipp           |   7 +-
 .../cmp/io/impl/unix_like/unix_like_file.cpp  |  11 +-
 api/src/cmp/io/input_resource.cpp             | 138 ++++++++----------
 3 files changed, 70 insertions(+), 86 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index a823097..e2f18d6 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -119,8 +119,9 @@ ctr_essence<Container>::read_raw (
 
     const auto& content_ref{*get_const_content_ptr()};
 
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        resource.go_forward(m_last_fill_amount);
+    if (m_last_fill_amount > 0) {
+        m_position += m_last_fill_amount;
+        m_last_fill_amount = 0;
     }
 
     /*
@@ -163,7 +164,7 @@ ctr_essence<Container>::read_raw (
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        resource.go_back(static_cast<std::int64_t>(byte_count));
+        m_position -= byte_count;
         m_last_fill_amount = byte_count;
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index b5439b1..5814415 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -138,8 +138,9 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+    if (m_last_fill_amount > 0) {
+        ::lseek(m_file_descriptor, m_last_fill_amount, SEEK_CUR);
+        m_last_fill_amount = 0;
     }
 
     std::size_t total_result;
@@ -172,7 +173,11 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        ::lseek(
+            m_file_descriptor,
+            -static_cast<position_type>(total_result),
+            SEEK_CUR
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index d1bdd87..e99990a 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -30,7 +30,21 @@ input_resource::read (
     if (m_buffer.get_capacity() > 0) {
         return read_buffered(data, byte_count);
     } else {
-        return read_raw(data, byte_count, read_request::lean_retrieval);
+        std::size_t bytes_read{0};
+        while (bytes_read < byte_count) {
+            std::size_t bytes_retrieved{
+                read_raw(
+                    data + bytes_read,
+                    byte_count - bytes_read,
+                    read_request::lean_retrieval
+                )
+            };
+            if (bytes_retrieved == 0) {
+                break;
+            }
+            bytes_read += bytes_retrieved;
+        }
+        return bytes_read;
     }
 } // function -----------------------------------------------------------------
 
@@ -67,102 +81,66 @@ input_resource::read_buffered (
     std::byte* data,
     std::size_t byte_count
 ) {
-    if (m_buffer.is_read_dirty()) {
-        fill();
-    }
+    std::size_t bytes_read{0};
 
     /*
-        We check whether the buffer has all the data we want
-        to read. If it doesn't, we need to read whatever the
-        buffer has and then go to the resource for the rest.
+        A resource may give us fewer bytes than we asked for even
+        though there are more to come, so we keep going until we
+        have everything we want or until there's nothing left.
     */
-    if (m_buffer.get_position() + byte_count > m_buffer.get_size()) {
+    while (bytes_read < byte_count) {
         /*
-            Here we know that the buffer doesn't
-            have all the data we want, but may
-            potentially have some of it.
+            We check whether there's any bytes in the buffer that
+            we can read. If there aren't, we need to go to the
+            resource.
         */
-
-        std::size_t bytes_read{0};
-
-        /*
-            This 'difference' variable tells how many bytes
-            we need to read from the buffer before going to
-            the resource.
-        */
-        std::size_t difference{
-            m_buffer.get_size() - m_buffer.get_position()
-        };
-
-        /*
-            Here we check if there's any bytes in the buffer
-            that we can read before going to the resource.
-        */
-        if (difference > 0) {
-            /*
-                Here we read all the data we can from the buffer.
-            */
-            bytes_read += m_buffer.read(data, difference);
-
+        if (
+            m_buffer.is_read_dirty()
+                || m_buffer.get_position() == m_buffer.get_size()
+        ) {
             /*
-                We keep track of the number of bytes that we want
-                to read next by subtracting the number of bytes
-                we got from the buffer from the number of bytes
-                we want to read in total.
+                If the number of bytes left to read is greater
+                than what would fit in the buffer then we don't
+                even bother filling up the buffer and just read
+                all the remaining data directly.
             */
-            byte_count -= bytes_read;
-        }
+            if (byte_count - bytes_read > m_buffer.get_capacity()) {
+                std::size_t bytes_retrieved{
+                    read_raw(
+                        data + bytes_read,
+                        byte_count - bytes_read,
+                        read_request::lean_retrieval
+                    )
+                };
+                m_buffer.set_read_dirty(true);
+                m_buffer.set_size(0);
+                if (bytes_retrieved == 0) {
+                    break;
+                }
+                bytes_read += bytes_retrieved;
+                continue;
+            }
 
-        /*
-            If the number of bytes left to read is greater
-            than what would fit in the buffer then we don't
-            even bother filling up the buffer and just read
-            all the remaining data directly.
-        */
-        if (byte_count > m_buffer.get_capacity()) {
-            bytes_read += read_raw(
-                data + bytes_read,
-                byte_count,
-                read_request::lean_retrieval
-            );
-            return bytes_read;
-        } else {
             /*
                 We now try to fill up the buffer
                 by reading data from the resource.
             */
-            std::size_t bytes_filled{fill()};
-
-            std::size_t last_byte_count;
-            if (bytes_filled < byte_count) {
-                /*
-                    We weren't able to load as many bytes into the buffer
-                    as we wanted to, so we remember to just read all the
-                    bytes we can from the buffer.
-                */
-                last_byte_count = bytes_filled;
-            } else {
-                /*
-                    We were able to load at least as many bytes into
-                    the buffer as we wanted to, so we remember to just
-                    read the bytes we want from the buffer.
-                */
-                last_byte_count = byte_count;
+            if (fill() == 0) {
+                break;
             }
-            /*
-                We now go ahead and read the final bytes.
-            */
-            bytes_read += m_buffer.read(data + bytes_read, last_byte_count);
-
-            return bytes_read;
         }
-    } else {
+
         /*
-            The buffer had all the data we wanted to
-            begin with, so we just read from the buffer.
+            Here we know that the buffer has at least some of the
+            data we want, so we read all we can from the buffer.
         */
-        return m_buffer.read(data, byte_count);
+        bytes_read += m_buffer.read(
+            data + bytes_read,
+            byte_count - bytes_read
+        );
     }
+
+    return bytes_read;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 41c28a3b1806e7e3b8702390fc4c4b146f619799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:52 +0000
Subject: [PATCH 03/25] fix: keep data the resource did not take when flushing

Flushing dropped whatever the resource refused or took only partly, so
data that had been accepted was lost on a full disk or an I/O error.
---
 api/src/cmp/io/output_resource.cpp          | 29 +++++++++++++++++++--
 api/src/cmp/io/seekable_io_resource.ipp     |  7 +++++
 api/src/cmp/io/seekable_output_resource.ipp |  7 +++++
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/output_resource.cpp b/api/src/cmp/io/output_resource.cpp
index a7ffd24..52a2010 100644
--- a/api/src/cmp/io/output_resource.cpp
+++ b/api/src/cmp/io/output_resource.cpp
@@ -34,8 +34,25 @@ void
 output_resource::flush ()
 {
     if (m_buffer.is_write_dirty()) {
-        write_raw(m_buffer.get_data_ptr(), m_buffer.get_position());
-        m_buffer.set_write_dirty(false);
+        const std::size_t bytes_pending{m_buffer.get_position()};
+        const std::size_t bytes_written{
+            write_raw(m_buffer.get_data_ptr(), bytes_pending)
+        };
+        if (bytes_written < bytes_pending) {
+            /*
+                The resource didn't take everything, so we keep
+                the rest of the data at the start of the buffer
+                until it can be written.
+            */
+            std::memmove(
+                m_buffer.get_data_ptr(),
+                m_buffer.get_data_ptr() + bytes_written,
+                bytes_pending - bytes_written
+            );
+            m_buffer.set_position(bytes_pending - bytes_written);
+        } else {
+            m_buffer.set_write_dirty(false);
+        }
     }
 } // function -----------------------------------------------------------------
 
@@ -54,6 +71,14 @@ output_resource::write_buffered (
     if (m_buffer.get_position() + byte_count > m_buffer.get_capacity()) {
         this->flush();
 
+        /*
+            If some data is still waiting to be written then the
+            new data cannot be accepted, as it must not overtake it.
+        */
+        if (m_buffer.is_write_dirty()) {
+            return 0;
+        }
+
         /*
             If the number of bytes to write is greater than
             what would fit in the buffer then we don't even
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7799a9b..e6a95a2 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -34,6 +34,13 @@ seekable_io_resource<Position>::set_position (
 noexcept
 {
     this->flush();
+    if (transfer_resource::m_buffer.is_write_dirty()) {
+        /*
+            The data waiting to be written belongs at the
+            current position, so we have to stay there.
+        */
+        return;
+    }
     this->set_position_raw(new_position, pr);
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_output_resource.ipp b/api/src/cmp/io/seekable_output_resource.ipp
index ec11e90..70db5a3 100644
--- a/api/src/cmp/io/seekable_output_resource.ipp
+++ b/api/src/cmp/io/seekable_output_resource.ipp
@@ -34,6 +34,13 @@ seekable_output_resource<Position>::set_position (
 noexcept
 {
     this->flush();
+    if (transfer_resource::m_buffer.is_write_dirty()) {
+        /*
+            The data waiting to be written belongs at the
+            current position, so we have to stay there.
+        */
+        return;
+    }
     this->set_position_raw(new_position, pr);
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From c49f9c165d7af63b7fc20deae620dd299091e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:24 +0000
Subject: [PATCH 04/25] fix: seek relative to where the resource appears to be

Seeking relative to the current position ignored the buffer, go_back()
and go_forward() bypassed it altogether, container resources counted
backwards from the end, and a container position could become negative.
---
 api/include/cmp/io/impl/ctr_essence.hpp        |  3 ++-
 api/src/cmp/io/impl/ctr_essence.ipp            | 18 +++++++++++++-----
 .../cmp/io/impl/unix_like/unix_like_file.cpp   | 15 ++++++++++++++-
 .../cmp/io/opaque_container_input_resource.ipp |  3 ++-
 .../cmp/io/opaque_container_io_resource.ipp    |  3 ++-
 .../io/opaque_container_output_resource.ipp    |  3 ++-
 api/src/cmp/io/seekable_transfer_resource.ipp  |  4 ++--
 .../transparent_container_input_resource.ipp   |  3 ++-
 .../io/transparent_container_io_resource.ipp   |  3 ++-
 .../transparent_container_output_resource.ipp  |  3 ++-
 10 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 2d8b6f1..d4f005a 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -61,7 +61,8 @@ protected:
     void
     set_position_raw (
         std::int64_t new_position,
-        position_reference pr
+        position_reference pr,
+        const io_buffer& buffer
     )
     noexcept;
 
diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index e2f18d6..c753fda 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -84,24 +84,32 @@ template <
 void
 ctr_essence<Container>::set_position_raw (
     std::int64_t new_position,
-    position_reference pr
+    position_reference pr,
+    const io_buffer& buffer
 )
 noexcept
 {
     using element_type = typename Container::value_type;
 
+    const std::int64_t offset{
+        new_position * static_cast<std::int64_t>(sizeof (element_type))
+    };
+
     switch (pr) {
         case position_reference::begin:
-            m_position = new_position * sizeof (element_type);
+            m_position = offset;
             break;
         case position_reference::current:
-            m_position += new_position * sizeof (element_type);
+            m_position = get_position(buffer) + offset;
             break;
         case position_reference::end:
-            m_position = (std::size(*get_const_content_ptr()) - new_position)
-                * sizeof (element_type);
+            m_position = std::size(*get_const_content_ptr())
+                * sizeof (element_type) + offset;
             break;
     }
+    if (m_position < 0) {
+        m_position = 0;
+    }
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 5814415..1b572a8 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -119,13 +119,26 @@ noexcept
             break;
         case position_reference::current:
             unix_like_position_reference = SEEK_CUR;
+            new_position += m_buffer.get_position();
             break;
         case position_reference::end:
             unix_like_position_reference = SEEK_END;
             break;
     }
 
-    ::lseek(m_file_descriptor, new_position, unix_like_position_reference);
+    if (
+        ::lseek(
+            m_file_descriptor,
+            new_position,
+            unix_like_position_reference
+        ) == -1
+    ) {
+        /*
+            There's nothing before the beginning of
+            the file, so that's as far back as we go.
+        */
+        ::lseek(m_file_descriptor, 0, SEEK_SET);
+    }
 
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 34189b7..aa5ab52 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -102,7 +102,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index d6c6e7c..42ca590 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -126,7 +126,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_output_resource.ipp b/api/src/cmp/io/opaque_container_output_resource.ipp
index aecbe92..9841553 100644
--- a/api/src/cmp/io/opaque_container_output_resource.ipp
+++ b/api/src/cmp/io/opaque_container_output_resource.ipp
@@ -112,7 +112,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/seekable_transfer_resource.ipp b/api/src/cmp/io/seekable_transfer_resource.ipp
index c29053d..7f6b85e 100644
--- a/api/src/cmp/io/seekable_transfer_resource.ipp
+++ b/api/src/cmp/io/seekable_transfer_resource.ipp
@@ -30,7 +30,7 @@ seekable_transfer_resource<Position>::go_back (
 )
 noexcept
 {
-    set_position_raw(-count, position_reference::current);
+    set_position(-count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 template <
@@ -42,7 +42,7 @@ seekable_transfer_resource<Position>::go_forward (
 )
 noexcept
 {
-    set_position_raw(count, position_reference::current);
+    set_position(count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/transparent_container_input_resource.ipp b/api/src/cmp/io/transparent_container_input_resource.ipp
index 78dad08..1b67ebb 100644
--- a/api/src/cmp/io/transparent_container_input_resource.ipp
+++ b/api/src/cmp/io/transparent_container_input_resource.ipp
@@ -71,7 +71,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_io_resource.ipp b/api/src/cmp/io/transparent_container_io_resource.ipp
index 2576e8d..ffc8d9b 100644
--- a/api/src/cmp/io/transparent_container_io_resource.ipp
+++ b/api/src/cmp/io/transparent_container_io_resource.ipp
@@ -88,7 +88,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_output_resource.ipp b/api/src/cmp/io/transparent_container_output_resource.ipp
index 91ef435..384b2ee 100644
--- a/api/src/cmp/io/transparent_container_output_resource.ipp
+++ b/api/src/cmp/io/transparent_container_output_resource.ipp
@@ -81,7 +81,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 17307fcaf5cb97ece48cce895a38b7d3e0bbb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:03 +0000
Subject: [PATCH 05/25] fix: let reads and writes be mixed on one resource

Reading with data waiting to be written, or writing with data read
ahead, mixed the two up in the shared buffer, so that data was lost,
written to the wrong place or read as something else.
---
 api/include/cmp/io/seekable_io_resource.hpp | 45 +++++++++++++++++++++
 api/src/cmp/io/file.cpp                     |  4 +-
 api/src/cmp/io/seekable_io_resource.ipp     | 42 +++++++++++++++++++
 3 files changed, 89 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/seekable_io_resource.hpp b/api/include/cmp/io/seekable_io_resource.hpp
index b8a8d5f..7462695 100644
--- a/api/include/cmp/io/seekable_io_resource.hpp
+++ b/api/include/cmp/io/seekable_io_resource.hpp
@@ -136,6 +136,51 @@ public:
         position_reference pr
     )
     noexcept override;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes from
+            <#this/> seekable I/O resource and places them in the
+            provided <#parameter>data</#parameter> array. Data that
+            is waiting to be written is flushed first.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read from
+                <#this/> seekable I/O resource.
+    */
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes from
+            the <#parameter>data</#parameter> array to <#this/>
+            seekable I/O resource. Data that was read ahead is
+            discarded first.
+
+        Parameters:
+            data:
+                The array of bytes that will be written
+                to <#this/> seekable I/O resource.
+            byte_count:
+                The number of bytes to write to
+                <#this/> seekable I/O resource.
+    */
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 4f3abd6..27c8efc 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -58,7 +58,7 @@ basic_file::read (
     switch (m_access_mode) {
         case read_only:
         case read_and_write: {
-            return input_resource::read(data, byte_count);
+            return seekable_io_resource::read(data, byte_count);
         }
         case write_only:
             throw invalid_access_mode{};
@@ -75,7 +75,7 @@ basic_file::write (
             throw invalid_access_mode{};
         case write_only:
         case read_and_write: {
-            return output_resource::write(data, byte_count);
+            return seekable_io_resource::write(data, byte_count);
         }
     }
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index e6a95a2..b016128 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -45,4 +45,46 @@ noexcept
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    /*
+        The buffer either holds data that was read ahead or data
+        that is waiting to be written, but never both. So we have
+        to get rid of the latter before we can read anything.
+    */
+    if (transfer_resource::m_buffer.is_write_dirty()) {
+        this->flush();
+        if (transfer_resource::m_buffer.is_write_dirty()) {
+            return 0;
+        }
+    }
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    /*
+        If the buffer holds data that was read ahead, we discard
+        it and go to where the next read would have taken place.
+    */
+    if (!transfer_resource::m_buffer.is_read_dirty()) {
+        this->set_position(0, position_reference::current);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From aaae61c9cd897dc7e78295fac7a977ddd645269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:39 +0000
Subject: [PATCH 06/25] fix: keep container resources inside their container

Overwriting near the end grew the container too far, writing a partial
element or after seeking past the end wrote outside of it, and reading
past the end read outside of it. The end was missed when past it.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index c753fda..feba020 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -62,7 +62,7 @@ const noexcept
 {
     using element_type = typename Container::value_type;
 
-    return get_position(buffer) ==
+    return static_cast<std::size_t>(get_position(buffer)) >=
         std::size(*get_const_content_ptr()) * sizeof (element_type);
 } // function -----------------------------------------------------------------
 
@@ -149,7 +149,12 @@ ctr_essence<Container>::read_raw (
             there are bytes available. So we adjust the number of bytes
             to read such that we only read until the end of the content.
         */
-        byte_count = content_size - m_position;
+        byte_count = static_cast<std::size_t>(m_position) < content_size
+            ? content_size - m_position
+            : 0;
+    }
+    if (byte_count == 0) {
+        return 0;
     }
 
     /*
@@ -191,6 +196,10 @@ ctr_essence<Container>::write_raw (
 
     auto& content_ref{*get_content_ptr()};
 
+    if (byte_count == 0) {
+        return 0;
+    }
+
     /*
         We compute the number of bytes stored in the content.
     */
@@ -208,8 +217,8 @@ ctr_essence<Container>::write_raw (
             than there are bytes available. So we just make room.
         */
         content_ref.resize(
-            std::size(content_ref)
-                + (byte_count / sizeof (element_type))
+            (m_position + byte_count + sizeof (element_type) - 1)
+                / sizeof (element_type)
         );
     }
 
-- 
2.43.0


From 83377c01354de5bed523776b9778f3a65cd52f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 07/25] fix: forget buffered data when a file is closed

A reopened file object served data read ahead from the earlier file and
wrote data the earlier file had refused into the new one.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  5 +++++
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 21 ++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index b8650e2..3100847 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -127,6 +127,11 @@ private:
 
     // Private Functions ------------------------------------------------------
 
+    CMP_CONDITIONAL_INLINE
+    void
+    reset_buffer ()
+    noexcept;
+
     CMP_CONDITIONAL_INLINE
     ssize_t
     read_block (
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 1b572a8..4df131e 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -61,9 +61,7 @@ file::open (
 )
 noexcept
 {
-    if (is_open()) {
-        close();
-    }
+    close();
     std::error_code ec;
     if (
         if_file_not_there == if_not_there::fail
@@ -96,8 +94,11 @@ file::close ()
 noexcept
 {
     this->flush();
-    ::close(m_file_descriptor);
-    m_file_descriptor = -1;
+    if (is_open()) {
+        ::close(m_file_descriptor);
+        m_file_descriptor = -1;
+    }
+    reset_buffer();
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
@@ -233,6 +234,16 @@ noexcept
 
 // Private Functions ----------------------------------------------------------
 
+void
+file::reset_buffer ()
+noexcept
+{
+    m_buffer.set_write_dirty(false);
+    m_buffer.set_read_dirty(true);
+    m_buffer.set_size(0);
+    m_last_fill_amount = 0;
+} // function -----------------------------------------------------------------
+
 ssize_t
 file::read_block (
     std::byte* data,
-- 
2.43.0


From 173ef98a00517c2e4648344cd32d15951fa96da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:39 +0000
Subject: [PATCH 08/25] fix: ask the open file whether its end was reached

The end-of-file query looked up the path given to the constructor. It
answered for the wrong file after open(), terminated the program when
the path was gone, and missed positions past the end.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp       |  6 ++++++
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp   | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 3100847..5ff7af7 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -7,6 +7,7 @@
 #include <cerrno>
 
 #include <fcntl.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
@@ -71,6 +72,11 @@ public:
     is_open ()
     const noexcept override;
 
+    CMP_CONDITIONAL_INLINE
+    bool
+    is_at_end ()
+    const noexcept override;
+
     CMP_CONDITIONAL_INLINE
     std::int64_t
     get_position ()
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 4df131e..21d2d25 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -44,6 +44,19 @@ const noexcept
     return m_file_descriptor != -1;
 } // function -----------------------------------------------------------------
 
+bool
+file::is_at_end ()
+const noexcept
+{
+    /*
+        We ask for the size of the file that is actually open, because
+        by now its path may have come to refer to a different file.
+    */
+    struct stat status;
+    return ::fstat(m_file_descriptor, &status) == -1
+        || get_position() >= status.st_size;
+} // function -----------------------------------------------------------------
+
 std::int64_t
 file::get_position ()
 const noexcept
@@ -85,6 +98,7 @@ noexcept
         flags |= O_CREAT;
     }
     m_file_descriptor = ::open(file_path.string().c_str(), flags, 0777);
+    m_file_path = file_path;
     m_access_mode = mode;
     return is_open();
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 3bb7a32d7da44988b43efcd2ce3033fb300ea1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:50 +0000
Subject: [PATCH 09/25] fix: transfer ownership when a file is moved

Both objects kept the descriptor after a move, so that it was closed
twice; the descriptor and the buffered data of the object assigned to
were lost.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  5 ++-
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 40 +++++++++++++++++++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 5ff7af7..33c5c8d 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -5,6 +5,7 @@
 #define CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 
 #include <cerrno>
+#include <utility>
 
 #include <fcntl.h>
 #include <sys/stat.h>
@@ -56,14 +57,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 21d2d25..dc7f4e2 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -35,6 +35,46 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{std::move(other)}
+    , seekable_transfer_resource<std::int64_t>{std::move(other)}
+    , seekable_input_resource<std::int64_t>{std::move(other)}
+    , seekable_output_resource<std::int64_t>{std::move(other)}
+    , basic_file{std::move(other)}
+    , m_file_descriptor{std::exchange(other.m_file_descriptor, -1)}
+{
+    other.reset_buffer();
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+
+        /*
+            The buffer is part of a virtual base class, so we
+            have to make sure that it's moved only once.
+        */
+        input_resource::operator=(std::move(other));
+
+        m_file_path = std::move(other.m_file_path);
+        m_access_mode = other.m_access_mode;
+        m_last_fill_amount = other.m_last_fill_amount;
+        m_file_descriptor = std::exchange(other.m_file_descriptor, -1);
+        other.reset_buffer();
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
-- 
2.43.0


From b2abc626dbacf94673f61816326ca46ff09f4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:10 +0000
Subject: [PATCH 10/25] fix: invert the endianness of binary input once

Both the input stream and the extraction operator inverted the bytes, so
that every data input stream read native data whatever its endianness.
The default endianness stays what it has been in effect: native.
A short read inverted bytes that were never read.
---
 api/include/cmp/io/data_input_stream.hpp | 2 +-
 api/src/cmp/io/data_input_stream.ipp     | 9 ---------
 api/src/cmp/io/input_stream.ipp          | 2 +-
 3 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/api/include/cmp/io/data_input_stream.hpp b/api/include/cmp/io/data_input_stream.hpp
index ee3f6e6..7d636ac 100644
--- a/api/include/cmp/io/data_input_stream.hpp
+++ b/api/include/cmp/io/data_input_stream.hpp
@@ -47,7 +47,7 @@ public:
     explicit
     data_input_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/src/cmp/io/data_input_stream.ipp b/api/src/cmp/io/data_input_stream.ipp
index 8a1d73a..f5d7357 100644
--- a/api/src/cmp/io/data_input_stream.ipp
+++ b/api/src/cmp/io/data_input_stream.ipp
@@ -54,15 +54,6 @@ operator >> (
         throw read_past_end{};
     }
 
-    /*
-        Then we check whether the endianness of the stream matches
-        the endianness of the system. If it doesn't, we invert the
-        endianness of the data that we just read.
-    */
-    if (stream.get_endianness() != std::endian::native) {
-        invert_endianness(data, byte_count);
-    }
-
     /*
         At this point we have an array of raw bytes that represent the data
         read from the stream, in the correct endianness for this system to
diff --git a/api/src/cmp/io/input_stream.ipp b/api/src/cmp/io/input_stream.ipp
index 6d4e953..e9a2069 100644
--- a/api/src/cmp/io/input_stream.ipp
+++ b/api/src/cmp/io/input_stream.ipp
@@ -88,7 +88,7 @@ input_stream<InputResource>::read (
 ) {
     std::size_t bytes_read{m_resource.read(data, byte_count)};
     if (m_endianness != std::endian::native) {
-        invert_endianness(data, byte_count);
+        invert_endianness(data, bytes_read);
     }
     return bytes_read;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 6d1ad75bca7276b20a94ccb2609e5686b9f754c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:19 +0000
Subject: [PATCH 11/25] fix: keep all bits of the first character when there is
 no BOM

---
 api/src/cmp/io/text_input_stream.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 59a74da..556925d 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -322,11 +322,11 @@ text_input_stream<InputResource>::read_utf16_bom ()
         char16_t code_unit;
         if (this->get_endianness() == std::endian::big) {
             code_unit
-                = static_cast<int>(first_byte << 8)
+                = (static_cast<int>(first_byte) << 8)
                     | static_cast<int>(second_byte);
         } else {
             code_unit
-                = static_cast<int>(second_byte << 8)
+                = (static_cast<int>(second_byte) << 8)
                     | static_cast<int>(first_byte);
         }
         char32_t result;
@@ -380,15 +380,15 @@ text_input_stream<InputResource>::read_utf32_bom ()
         char32_t result;
         if (this->get_endianness() == std::endian::big) {
             result
-                = static_cast<int>(first_byte << 24)
-                    | static_cast<int>(second_byte << 16)
-                    | static_cast<int>(third_byte << 8)
+                = (static_cast<int>(first_byte) << 24)
+                    | (static_cast<int>(second_byte) << 16)
+                    | (static_cast<int>(third_byte) << 8)
                     | static_cast<int>(fourth_byte);
         } else {
             result
-                = static_cast<int>(fourth_byte << 24)
-                    | static_cast<int>(third_byte << 16)
-                    | static_cast<int>(second_byte << 8)
+                = (static_cast<int>(fourth_byte) << 24)
+                    | (static_cast<int>(third_byte) << 16)
+                    | (static_cast<int>(second_byte) << 8)
                     | static_cast<int>(first_byte);
         }
         return result;
-- 
2.43.0


From 6000a4a341c83ebe027da2fffa567044d1d2534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:31 +0000
Subject: [PATCH 12/25] fix: accept supplementary code points that end in D800
 to DFFF

---
 api/include/cmp/unicode/examiners.hpp | 2 +-
 api/src/cmp/unicode/examiners.ipp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/unicode/examiners.hpp b/api/include/cmp/unicode/examiners.hpp
index 3ac5726..69d15ba 100644
--- a/api/include/cmp/unicode/examiners.hpp
+++ b/api/include/cmp/unicode/examiners.hpp
@@ -125,7 +125,7 @@ noexcept;
 constexpr
 bool
 is_surrogate (
-    char16_t code_unit
+    char32_t code_unit
 )
 noexcept;
 
diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index c42d066..94776e8 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -74,7 +74,7 @@ noexcept
 constexpr
 bool
 is_surrogate (
-    char16_t code_unit
+    char32_t code_unit
 )
 noexcept
 {
-- 
2.43.0


From 63c4a34bbaaf2da49aca207db51ee6a873f4d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 13/25] fix: reject ill-formed UTF-8 sequences when reading
 text

Overlong sequences, encoded surrogates and values past the last code
point were read as if they were text.
---
 api/src/cmp/io/text_input_stream.ipp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 556925d..5979f59 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -181,6 +181,20 @@ text_input_stream<InputResource>::finish_utf8_sequence (
     int sequence_length,
     char32_t initial_code_point_value
 ) {
+    /*
+        This is the smallest code point that
+        needs a sequence of the given length.
+    */
+    const char32_t minimum_value{
+        sequence_length == 4
+            ? char32_t{0x10000}
+            : sequence_length == 3
+                ? char32_t{0x800}
+                : sequence_length == 2
+                    ? char32_t{0x80}
+                    : char32_t{0}
+    };
+
     char8_t code_unit;
     char32_t result{initial_code_point_value};
     while (--sequence_length > 0) {
@@ -193,6 +207,9 @@ text_input_stream<InputResource>::finish_utf8_sequence (
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    if (result < minimum_value || !is_code_point_valid(result)) {
+        throw invalid_unicode_encoding{};
+    }
     return result;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From ef0e61b6e1a3d1184de024d76d4490390cbc30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:27 +0000
Subject: [PATCH 14/25] fix: format the smallest value of every integer type

Its magnitude does not fit in the type, so the digits came out wrong.
---
 api/include/cmp/unicode/formatters.hpp |  1 +
 api/src/cmp/unicode/formatters.ipp     | 17 +++++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d1e18c0..d593be7 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -5,6 +5,7 @@
 #define CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 
 #include <cmath>
+#include <cstdint>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a862e72..bcde8c4 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -33,22 +33,27 @@ number_formatter::format_integer (
     } else if (format.get_sign_status() == sign_status::always_show) {
         sign_character = '+';
     }
-    if constexpr (std::is_signed_v<Input>) {
-        input = std::abs(input);
+    /*
+        The magnitude of the smallest value of a signed
+        type doesn't fit in that type, so we need a wider one.
+    */
+    std::uintmax_t magnitude{static_cast<std::uintmax_t>(input)};
+    if (input < 0) {
+        magnitude = 0 - magnitude;
     }
-    while (input != 0) {
-        char character{static_cast<char>(input % format_radix)};
+    while (magnitude != 0) {
+        char character{static_cast<char>(magnitude % format_radix)};
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
         prepend_code_point(output, character);
-        input /= format_radix;
+        magnitude /= format_radix;
         ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
-            if (input != 0) {
+            if (magnitude != 0) {
                 switch (format.get_thousands_separator()) {
                     case thousands_separator::comma:
                         prepend_code_point(output, ',');
-- 
2.43.0


From a0730247c7444042380332811524d6415b85c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:40 +0000
Subject: [PATCH 15/25] fix: step over both halves of a surrogate pair (C09)

Iterating UTF-16 text by code point moved on by a single code unit, so
that the trailing surrogate was taken for the next code point and valid
text was rejected.
---
 api/src/cmp/unicode/by_code_point.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index c5c11d9..cb76982 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -862,14 +862,14 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
     std::u16string_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -1452,14 +1452,14 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
     std::wstring_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
-- 
2.43.0


From 5dcaa9506d8e8dadba481abc400b69a75a551cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 16/25] fix: let closed windows be opened again (C18)

A closed window kept the handle of the destroyed toolkit window, so it
could not be opened again and later calls used the destroyed window. The
close handler may also change the list of windows while it is iterated.
---
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 48 +++++++++++++------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 40899f3..43df5db 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -267,22 +267,38 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == window_handle) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return FALSE;
-            } else {
-                return TRUE;
-            }
+    auto is_association_of_window{
+        [window_handle] (const auto& element) {
+            return element.first == window_handle;
         }
+    };
+    auto association_iterator{
+        std::find_if(
+            std::begin(window_associations),
+            std::end(window_associations),
+            is_association_of_window
+        )
+    };
+    if (association_iterator == std::end(window_associations)) {
+        return FALSE;
+    }
+    close_event ev{true};
+    association_iterator->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return TRUE;
+    }
+    // The handler may have opened, closed or moved windows.
+    association_iterator = std::find_if(
+        std::begin(window_associations),
+        std::end(window_associations),
+        is_association_of_window
+    );
+    if (association_iterator != std::end(window_associations)) {
+        association_iterator->second
+            ->grab_native_handle().gtk_application_window = NULL;
+        window_associations.erase(association_iterator);
     }
+    return FALSE;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
@@ -488,6 +504,10 @@ window::hide ()
 void
 window::close ()
 {
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
+
     gtk_window_close(GTK_WINDOW(m_native_handle.gtk_application_window));
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From c6b6e20e924440cd992e9acd4e6db3886f1f0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:41 +0000
Subject: [PATCH 17/25] fix: close windows that were never shown (C18)

---
 api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 43df5db..5525431 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -508,6 +508,8 @@ window::close ()
         return;
     }
 
+    // GTK ignores requests to close a window that was never realized.
+    gtk_widget_realize(m_native_handle.gtk_application_window);
     gtk_window_close(GTK_WINDOW(m_native_handle.gtk_application_window));
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 6aed60be293d47c4daa06fed667b4501110b20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:50 +0000
Subject: [PATCH 18/25] fix: let updates open, close and move windows (C20)

The list of windows was iterated while updates could change it.
---
 .../impl/gtk/gtk_desktop_gui_application.cpp  | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
index 8c73ba9..2afa62d 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
@@ -1,6 +1,8 @@
 // Copyright (C) 2023 Daniel T. McGinnis
 // SPDX-License-Identifier: BSL-1.0
 
+#include <algorithm>
+
 #include <cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp>
 
 namespace cmp {
@@ -88,11 +90,24 @@ desktop_gui_application::run ()
         if (g_main_context_pending(context)) {
             g_main_context_dispatch(context);
         } else {
+            // Updates may open, close and move windows.
+            auto& window_associations{m_native_handle.window_associations};
             for (
-                auto& current_association
-                    : m_native_handle.window_associations
+                const auto& current_association
+                    : std::vector{window_associations}
             ) {
-                impl::update_window(current_association.second);
+                auto association_iterator{
+                    std::find_if(
+                        std::begin(window_associations),
+                        std::end(window_associations),
+                        [&current_association] (const auto& element) {
+                            return element.first == current_association.first;
+                        }
+                    )
+                };
+                if (association_iterator != std::end(window_associations)) {
+                    impl::update_window(association_iterator->second);
+                }
             }
         }
     }
-- 
2.43.0


From 893d1201a52d0ea966d1bcbd9a94eb6ea6df7aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:15 +0000
Subject: [PATCH 19/25] fix: destroy the window with the object that represents
 it (C17, C20)

A window object that was destroyed or overwritten while its window was
open left the window behind, with events and updates going to the object
that was gone.
---
 .../cmp/desktop_gui/impl/gtk/gtk_window.hpp   |  7 ++++--
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 25 +++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
index f5c4e57..398a7ca 100755
--- a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
+++ b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
@@ -28,8 +28,7 @@ public:
         window_mode initial_mode
     );
 
-    ~window ()
-    = default;
+    ~window ();
 
     // Copy Operations --------------------------------------------------------
 
@@ -142,6 +141,10 @@ private:
 
     // Private Functions ------------------------------------------------------
 
+    void
+    destroy ()
+    noexcept;
+
     void
     fix_association ()
     noexcept;
diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 5525431..eae0d31 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -317,6 +317,11 @@ window::window (
     open(initial_width, initial_height, initial_title, initial_mode);
 } // function -----------------------------------------------------------------
 
+window::~window ()
+{
+    destroy();
+} // function -----------------------------------------------------------------
+
 // Move Operations ------------------------------------------------------------
 
 window::window (
@@ -342,6 +347,7 @@ noexcept
 {
     if (this != &other) {
         close();
+        destroy();
 
         m_native_handle = other.m_native_handle;
         m_start_time = other.m_start_time;
@@ -545,6 +551,25 @@ window::handle_close_event (
 
 // Private Functions ----------------------------------------------------------
 
+void
+window::destroy ()
+noexcept
+{
+    auto gtk_application_window{m_native_handle.gtk_application_window};
+    if (gtk_application_window == NULL) {
+        return;
+    }
+
+    m_native_handle.gtk_application_window = NULL;
+    std::erase_if(
+        dgui_app()->grab_native_handle().window_associations,
+        [gtk_application_window] (const auto& element) {
+            return element.first == gtk_application_window;
+        }
+    );
+    gtk_window_destroy(GTK_WINDOW(gtk_application_window));
+} // function -----------------------------------------------------------------
+
 void
 window::fix_association ()
 noexcept
-- 
2.43.0


From 894d47e631155bf8da18378c5da9c2a2767617d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:21 +0000
Subject: [PATCH 20/25] fix: keep the sign of negative numbers with a fraction
 (C21)

The integral part of -1.5 was formatted as -2 and the fraction of a
parsed -1.5 was added to -1.
---
 api/src/cmp/unicode/formatters.ipp | 9 +++++++--
 api/src/cmp/unicode/parsers.ipp    | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index bcde8c4..b994336 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -90,17 +90,22 @@ number_formatter::format_floating_point (
     };
     Output output{
         number_formatter::format_integer<Output>(
-            static_cast<long long>(std::floor(input)),
+            static_cast<long long>(std::trunc(input)),
             equivalent_format
         )
     };
-    if (input < 0) {
+    const bool is_negative{input < 0};
+    if (is_negative) {
         input = -input;
     }
     Input fractional_part{input - std::floor(input)};
     if (fractional_part == 0) {
         return output;
     }
+    if (is_negative && input < 1) {
+        // The integral part is zero, so it didn't receive a sign.
+        prepend_code_point(output, '-');
+    }
     Output fractional_part_string;
     unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 7c04653..2fadc6a 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -152,6 +152,10 @@ number_parser::parse_floating_point (
                 parse_integer<long long>(integral_part, equivalent_format)
             )
         };
+        // The places after the radix point have the sign of the whole number.
+        const bool negate{
+            !integral_part.empty() && integral_part.front() == '-'
+        };
         ++radix_character_iterator;
         if (radix_character_iterator == u32_input.cend()) {
             if (format.get_radix_place_limit() == radix_place_limit::none) {
@@ -183,7 +187,7 @@ number_parser::parse_floating_point (
                     root,
                     format_radix,
                     output,
-                    current_digit,
+                    negate ? -current_digit : current_digit,
                     digits_counted
                 );
             }
-- 
2.43.0


From 096ffb055f8aedbc3fee9cb4b5c4d701a3c6bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:21 +0000
Subject: [PATCH 21/25] fix: end the digits of a fraction in an odd radix (C21)

A fraction has no finite representation in an odd radix, so formatting
one without a limit on the number of places never ended.
---
 api/include/cmp/unicode/formatters.hpp |  1 +
 api/src/cmp/unicode/formatters.ipp     | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d593be7..be917fe 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -6,6 +6,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index b994336..27d678a 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -109,7 +109,21 @@ number_formatter::format_floating_point (
     Output fractional_part_string;
     unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
+    Input place_value{1};
     while (fractional_part != 0) {
+        if (
+            format.get_radix() % 2 != 0
+                && format.get_radix_place_limit() == radix_place_limit::none
+                && place_value
+                    <= input * std::numeric_limits<Input>::epsilon()
+        ) {
+            /*
+                In an odd radix the digits would never end, so we
+                stop when further ones wouldn't be significant.
+            */
+            break;
+        }
+        place_value /= format.get_radix();
         fractional_part *= format.get_radix();
         char character{static_cast<char>(std::floor(fractional_part))};
         fractional_part -= std::floor(fractional_part);
-- 
2.43.0


From 3589b924739fd76f9fa4f709237ef0053e6212bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:16 +0000
Subject: [PATCH 22/25] fix: refuse signs and separators in the wrong place of
 a number (C22)

---
 api/src/cmp/unicode/parsers.ipp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 2fadc6a..fda8f26 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -51,6 +51,10 @@ number_parser::parse_integer (
 
     for (; bcp_iterator != bcp_range.crend(); ++bcp_iterator) {
         current_character = *bcp_iterator;
+        if (sign_found && !is_sign_character(current_character)) {
+            // Nothing comes before the sign of a number.
+            report_non_digit_character();
+        }
         if (
             digits_counted == 3
                 && format_thousands_separator != thousands_separator::none
@@ -72,6 +76,10 @@ number_parser::parse_integer (
             );
             continue;
         }
+        if (digits_counted == 0 && is_sign_character(current_character)) {
+            // Digits come before a thousands separator.
+            report_non_digit_character();
+        }
         if (
             check_for_sign(
                 current_character,
@@ -93,6 +101,9 @@ number_parser::parse_integer (
             digits_counted
         );
     }
+    if (digits_counted == 0 && !sign_found) {
+        report_non_digit_character();
+    }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
             output = -output;
-- 
2.43.0


From e140192dbd7f97a725698f70c887e3ffb28d9a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 23/25] fix: give copied buffers the capacity of the original

Assigning a buffer kept the spare capacity of the target's array, which
then was taken for room that can be read and written (C02).
---
 api/src/cmp/io/io_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/io/io_buffer.cpp b/api/src/cmp/io/io_buffer.cpp
index 74dc0f4..62d37c6 100644
--- a/api/src/cmp/io/io_buffer.cpp
+++ b/api/src/cmp/io/io_buffer.cpp
@@ -27,7 +27,7 @@ std::size_t
 io_buffer::get_capacity ()
 const noexcept
 {
-    return m_data.capacity();
+    return m_data.size();
 } // function -----------------------------------------------------------------
 
 std::size_t
-- 
2.43.0


From c5af365e8ef9f6350513a986135c4c1aa80d83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 24/25] fix: move the buffer of a resource only once

The buffer is part of a virtual base class, and the defaulted move
assignments moved it once per path that leads there: all but the first
move replaced it by an empty one (C02).
---
 .../cmp/io/opaque_container_io_resource.hpp   |  2 +-
 .../cmp/io/seekable_input_resource.hpp        |  2 +-
 api/include/cmp/io/seekable_io_resource.hpp   |  2 +-
 .../cmp/io/seekable_output_resource.hpp       |  2 +-
 .../io/transparent_container_io_resource.hpp  |  2 +-
 .../cmp/io/opaque_container_io_resource.ipp   | 23 +++++++++++++++++++
 api/src/cmp/io/seekable_input_resource.ipp    | 21 +++++++++++++++++
 api/src/cmp/io/seekable_io_resource.ipp       | 21 +++++++++++++++++
 api/src/cmp/io/seekable_output_resource.ipp   | 21 +++++++++++++++++
 .../io/transparent_container_io_resource.ipp  | 22 ++++++++++++++++++
 10 files changed, 113 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/io/opaque_container_io_resource.hpp b/api/include/cmp/io/opaque_container_io_resource.hpp
index 4c9ede5..bc2228f 100644
--- a/api/include/cmp/io/opaque_container_io_resource.hpp
+++ b/api/include/cmp/io/opaque_container_io_resource.hpp
@@ -170,7 +170,7 @@ public:
     operator = (
         opaque_container_io_resource&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/seekable_input_resource.hpp b/api/include/cmp/io/seekable_input_resource.hpp
index c3d8c59..4178b6e 100644
--- a/api/include/cmp/io/seekable_input_resource.hpp
+++ b/api/include/cmp/io/seekable_input_resource.hpp
@@ -117,7 +117,7 @@ public:
     operator = (
         seekable_input_resource&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/seekable_io_resource.hpp b/api/include/cmp/io/seekable_io_resource.hpp
index 7462695..ea2b053 100644
--- a/api/include/cmp/io/seekable_io_resource.hpp
+++ b/api/include/cmp/io/seekable_io_resource.hpp
@@ -116,7 +116,7 @@ public:
     operator = (
         seekable_io_resource&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/seekable_output_resource.hpp b/api/include/cmp/io/seekable_output_resource.hpp
index 07d1eb0..b0a1b73 100644
--- a/api/include/cmp/io/seekable_output_resource.hpp
+++ b/api/include/cmp/io/seekable_output_resource.hpp
@@ -117,7 +117,7 @@ public:
     operator = (
         seekable_output_resource&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/transparent_container_io_resource.hpp b/api/include/cmp/io/transparent_container_io_resource.hpp
index d4a43aa..4d7143f 100644
--- a/api/include/cmp/io/transparent_container_io_resource.hpp
+++ b/api/include/cmp/io/transparent_container_io_resource.hpp
@@ -134,7 +134,7 @@ public:
     operator = (
         transparent_container_io_resource&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index 42ca590..3a77f0e 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -57,6 +57,29 @@ opaque_container_io_resource<Container>::opaque_container_io_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+template <
+    typename Container
+>
+opaque_container_io_resource<Container>&
+opaque_container_io_resource<Container>::operator = (
+    opaque_container_io_resource&& other
+)
+noexcept
+{
+    if (this != &other) {
+        /*
+            The buffer is part of a virtual base class, so we
+            have to make sure that it's moved only once.
+        */
+        seekable_io_resource<std::int64_t>::operator=(std::move(other));
+        essence_type::operator=(std::move(other));
+        m_content = std::move(other.m_content);
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 template <
diff --git a/api/src/cmp/io/seekable_input_resource.ipp b/api/src/cmp/io/seekable_input_resource.ipp
index 25b359c..46c223e 100644
--- a/api/src/cmp/io/seekable_input_resource.ipp
+++ b/api/src/cmp/io/seekable_input_resource.ipp
@@ -21,6 +21,27 @@ seekable_input_resource<Position>::seekable_input_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+template <
+    typename Position
+>
+seekable_input_resource<Position>&
+seekable_input_resource<Position>::operator = (
+    seekable_input_resource&& other
+)
+noexcept
+{
+    if (this != &other) {
+        /*
+            The buffer is part of a virtual base class, so we
+            have to make sure that it's moved only once.
+        */
+        input_resource::operator=(std::move(other));
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 template <
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index b016128..b9b0f8e 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -21,6 +21,27 @@ seekable_io_resource<Position>::seekable_io_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+template <
+    typename Position
+>
+seekable_io_resource<Position>&
+seekable_io_resource<Position>::operator = (
+    seekable_io_resource&& other
+)
+noexcept
+{
+    if (this != &other) {
+        /*
+            The buffer is part of a virtual base class, so we
+            have to make sure that it's moved only once.
+        */
+        seekable_input_resource<Position>::operator=(std::move(other));
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 template <
diff --git a/api/src/cmp/io/seekable_output_resource.ipp b/api/src/cmp/io/seekable_output_resource.ipp
index 70db5a3..f3db7fe 100644
--- a/api/src/cmp/io/seekable_output_resource.ipp
+++ b/api/src/cmp/io/seekable_output_resource.ipp
@@ -21,6 +21,27 @@ seekable_output_resource<Position>::seekable_output_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+template <
+    typename Position
+>
+seekable_output_resource<Position>&
+seekable_output_resource<Position>::operator = (
+    seekable_output_resource&& other
+)
+noexcept
+{
+    if (this != &other) {
+        /*
+            The buffer is part of a virtual base class, so we
+            have to make sure that it's moved only once.
+        */
+        output_resource::operator=(std::move(other));
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 template <
diff --git a/api/src/cmp/io/transparent_container_io_resource.ipp b/api/src/cmp/io/transparent_container_io_resource.ipp
index ffc8d9b..332fe8d 100644
--- a/api/src/cmp/io/transparent_container_io_resource.ipp
+++ b/api/src/cmp/io/transparent_container_io_resource.ipp
@@ -32,6 +32,28 @@ transparent_container_io_resource<Container>
 {
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+template <
+    typename Container
+>
+transparent_container_io_resource<Container>&
+transparent_container_io_resource<Container>::operator = (
+    transparent_container_io_resource&& other
+)
+noexcept
+{
+    if (this != &other) {
+        /*
+            The buffer is part of a virtual base class, so we
+            have to make sure that it's moved only once.
+        */
+        seekable_io_resource<std::int64_t>::operator=(std::move(other));
+        essence_type::operator=(std::move(other));
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 template <
-- 
2.43.0


From 67b2392ed7161a3a40735ad7f9b7bd1c82543ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:07 +0000
Subject: [PATCH 25/25] fix: let copies of opaque container resources use their
 own content

A copied or moved opaque container resource went on reading and writing
the container of the original (C02).
---
 api/include/cmp/io/impl/ctr_essence.hpp       |  2 ++
 .../io/opaque_container_input_resource.hpp    |  8 ++++++++
 .../cmp/io/opaque_container_io_resource.hpp   |  8 ++++++++
 .../io/opaque_container_output_resource.hpp   |  8 ++++++++
 .../io/opaque_container_input_resource.ipp    | 20 +++++++++++++++++++
 .../cmp/io/opaque_container_io_resource.ipp   | 20 +++++++++++++++++++
 .../io/opaque_container_output_resource.ipp   | 20 +++++++++++++++++++
 7 files changed, 86 insertions(+)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index d4f005a..672bef0 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -38,10 +38,12 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    virtual
     Container*
     get_content_ptr ()
     noexcept;
 
+    virtual
     const Container*
     get_const_content_ptr ()
     const noexcept;
diff --git a/api/include/cmp/io/opaque_container_input_resource.hpp b/api/include/cmp/io/opaque_container_input_resource.hpp
index be71bc8..983a9f4 100644
--- a/api/include/cmp/io/opaque_container_input_resource.hpp
+++ b/api/include/cmp/io/opaque_container_input_resource.hpp
@@ -205,6 +205,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_io_resource.hpp b/api/include/cmp/io/opaque_container_io_resource.hpp
index bc2228f..b0f7544 100644
--- a/api/include/cmp/io/opaque_container_io_resource.hpp
+++ b/api/include/cmp/io/opaque_container_io_resource.hpp
@@ -235,6 +235,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_output_resource.hpp b/api/include/cmp/io/opaque_container_output_resource.hpp
index c31d4c1..96baefb 100644
--- a/api/include/cmp/io/opaque_container_output_resource.hpp
+++ b/api/include/cmp/io/opaque_container_output_resource.hpp
@@ -213,6 +213,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index aa5ab52..d1824a5 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -90,6 +90,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_input_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_input_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index 3a77f0e..e00acc7 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -137,6 +137,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_io_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_io_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_output_resource.ipp b/api/src/cmp/io/opaque_container_output_resource.ipp
index 9841553..8b54e0c 100644
--- a/api/src/cmp/io/opaque_container_output_resource.ipp
+++ b/api/src/cmp/io/opaque_container_output_resource.ipp
@@ -100,6 +100,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_output_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_output_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
-- 
2.43.0

