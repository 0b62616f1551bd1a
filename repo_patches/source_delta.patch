From 7a999dbf33093b60715d5be5c659790a5d63fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 01/41] fix: Stop starting a build when its page cannot be
 allocated

mpack_builder_build() ignored a failed mpack_builder_add_page() and placed the
new build past the end of the current page.
---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..c6bc019 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1593,6 +1593,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From 22b1b9ab13579d656dfbb1016fce35455d3d3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 02/41] fix: Find nested builds on a following page when
 resolving a builder

If a page is abandoned for lack of minimum buffer space right after a build and
the next thing written is another build, that build is at the start of the next
page although the rest of the page could have held it (when a build is smaller
than the minimum buffer size, e.g. on 32-bit). The resolver stopped there,
dropping the data and leaking the pages.
---
 src/mpack/mpack-writer.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index c6bc019..ce80f51 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1736,24 +1736,20 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
             offset = sizeof(mpack_builder_page_t);
         }
 
-        // now see if we can find another build.
+        // now see if we can find another build. it may be on a following page
+        // even if it would have fit in this one: a page is also abandoned when
+        // it doesn't have the minimum buffer space left after a build.
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
-            mpack_log("not enough room in this page for another build\n");
+        while (page != NULL && offset + sizeof(mpack_build_t) > page->bytes_used) {
+            mpack_log("no more builds in this page\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
             page = next_page;
-            if (page == NULL) {
-                mpack_log("no more pages\n");
-                // there are no more pages. we're done.
-                break;
-            }
             offset = mpack_builder_align_build(sizeof(mpack_builder_page_t));
         }
-        if (offset + sizeof(mpack_build_t) > page->bytes_used) {
-            // there is no more data. we're done.
-            mpack_log("no more data\n");
-            mpack_builder_free_page(writer, page);
+        if (page == NULL) {
+            mpack_log("no more pages\n");
+            // there are no more pages. we're done.
             break;
         }
 
-- 
2.43.0


From 2cca17b9b147f7519a2d04900fee4dc471b82b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 03/41] fix: Close sized containers inside builders in
 mpack_finish_type()

Unlike mpack_finish_array() and mpack_finish_map() it did not tell the builder
that the nested array or map is finished, so completing the build failed.
---
 src/mpack/mpack-writer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d842a3f..d365583 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1081,6 +1081,8 @@ MPACK_INLINE void mpack_finish_ext(mpack_writer_t* writer) {
  */
 MPACK_INLINE void mpack_finish_type(mpack_writer_t* writer, mpack_type_t type) {
     mpack_writer_track_pop(writer, type);
+    if (type == mpack_type_array || type == mpack_type_map)
+        mpack_builder_compound_pop(writer);
 }
 
 /**
-- 
2.43.0


From dc673037b3fa854a3f6e134adacf9909b03a76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 04/41] fix: Don't start a build when tracking it failed

An error flagged by write tracking (such as failing to grow the tracking stack)
was ignored, so the builder started in an error state.
---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index ce80f51..ebd0270 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1574,6 +1574,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0


From 1418a727d5357273d8b5a702ba2f1bfb2f5d14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 05/41] fix: Clean up a file writer before reporting a failed
 close

The file was closed again (and the buffer leaked or freed twice) if the error
handler destroyed the writer or jumped out and it was destroyed afterwards.
---
 src/mpack/mpack-writer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index ebd0270..9c0e424 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -317,13 +317,17 @@ static void mpack_file_writer_teardown(mpack_writer_t* writer) {
 static void mpack_file_writer_teardown_close(mpack_writer_t* writer) {
     FILE* file = (FILE*)writer->context;
 
+    // The error handler may destroy the writer or jump out of this function,
+    // so everything must be cleaned up before an error is flagged.
+    mpack_file_writer_teardown(writer);
+
     if (file) {
         int ret = fclose(file);
-        if (ret != 0)
+        if (ret != 0) {
+            writer->teardown = NULL;
             mpack_writer_flag_error(writer, mpack_error_io);
+        }
     }
-
-    mpack_file_writer_teardown(writer);
 }
 
 void mpack_writer_init_stdfile(mpack_writer_t* writer, FILE* file, bool close_when_done) {
-- 
2.43.0


From bc3fbe1edf216640be81871219792c771073a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 06/41] fix: Forget the freed buffer when a growable writer
 fails to shrink

The buffer was freed again if the error handler destroyed the writer or jumped
out and it was destroyed afterwards.
---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 9c0e424..cbba6e2 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -254,6 +254,8 @@ static void mpack_growable_writer_teardown(mpack_writer_t* writer) {
             char* buffer = (char*)mpack_realloc(writer->buffer, used, size);
             if (!buffer) {
                 MPACK_FREE(writer->buffer);
+                writer->buffer = NULL;
+                writer->context = NULL;
                 mpack_writer_flag_error(writer, mpack_error_memory);
                 return;
             }
-- 
2.43.0


From f93847bafdaf08a84471a4ddd6071a9a296ee0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 07/41] fix: Ignore sized containers inside builders after an
 error

Writes are ignored after an error, but starting or finishing a nested array or
map still changed the builder, failing an assertion when an ignored start left
no container to finish.
---
 src/mpack/mpack-writer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d365583..5023d5f 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -710,7 +710,7 @@ MPACK_INLINE void mpack_builder_compound_push(mpack_writer_t* writer) {
 
     #if MPACK_BUILDER
     mpack_build_t* build = writer->builder.current_build;
-    if (build != NULL) {
+    if (build != NULL && writer->error == mpack_ok) {
         ++build->nested_compound_elements;
     }
     #endif
@@ -721,7 +721,7 @@ MPACK_INLINE void mpack_builder_compound_pop(mpack_writer_t* writer) {
 
     #if MPACK_BUILDER
     mpack_build_t* build = writer->builder.current_build;
-    if (build != NULL) {
+    if (build != NULL && writer->error == mpack_ok) {
         mpack_assert(build->nested_compound_elements > 0);
         --build->nested_compound_elements;
     }
-- 
2.43.0


From e48a5ce0d81b1c78be48e99164a04436955a16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 08/41] fix: Don't double a growable buffer on every
 flush_message()

Each mpack_writer_flush_message() on a growable writer doubled its buffer even
if it was nearly empty, so memory grew exponentially with the number of
messages.
---
 src/mpack/mpack-writer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index cbba6e2..f4b91c9 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -197,6 +197,10 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
         // otherwise leave the data in the buffer and just grow
         writer->position = writer->buffer + count;
         count = 0;
+
+        // there may be enough space already if we're being flushed explicitly
+        if (mpack_writer_buffer_left(writer) >= MPACK_WRITER_MINIMUM_BUFFER_SIZE)
+            return;
     }
 
     size_t used = mpack_writer_buffer_used(writer);
-- 
2.43.0


From d246276c2fea6572fbed043866d225520bc0fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 09/41] fix: Don't write to the buffer of a writer destroyed by
 its error handler

It is documented to be safe to destroy a writer in its error handler. If the
handler returned instead of jumping, the rest of a write with several parts (such
as mpack_write_bin()) could still be written to the buffer freed by the teardown,
or touch a freed builder page.
---
 src/mpack/mpack-writer.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f4b91c9..2d46a37 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -577,11 +577,13 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
         writer->position = builder->stash_position;
         writer->end = builder->stash_end;
 
-        // Note: It's not necessary to clean up the current_build or other
-        // pointers at this point because we're guaranteed to be in an error
-        // state already so a user error callback can't longjmp out. This
-        // destroy function will complete no matter what so it doesn't matter
-        // what junk is left in the writer.
+        // Note: It's not necessary to clean up the other pointers at this
+        // point because we're guaranteed to be in an error state already so a
+        // user error callback can't longjmp out. This destroy function will
+        // complete no matter what so it doesn't matter what junk is left in
+        // the writer. We do need to forget the open build though since we may
+        // have been called from an error callback in the middle of a write.
+        builder->current_build = NULL;
     }
     #endif
 
@@ -596,6 +598,14 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
         writer->teardown = NULL;
     }
 
+    // If we were called from an error callback in the middle of a write, the
+    // rest of that write must not touch the buffer anymore.
+    if (writer->error != mpack_ok) {
+        writer->buffer = NULL;
+        writer->position = NULL;
+        writer->end = NULL;
+    }
+
     return writer->error;
 }
 
-- 
2.43.0


From 13f4dffb70e131cd3da466076d110127aebc297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 10/41] fix: Fail when skipping past the end of a file

fseek() succeeds past the end of a file, so truncated data was accepted when its
last bytes were skipped or discarded. A skip that does not fit a long now uses
the fill function.
---
 src/mpack/mpack-reader.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..7490f25 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -110,10 +110,14 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
 
     // We call ftell() to test whether the stream is seekable
     // without causing a file error.
-    if (ftell(file) >= 0) {
-        mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+    if (count - 1 <= (size_t)LONG_MAX && ftell(file) >= 0) {
+        // It is not an error to seek past the end of a file. We seek to the
+        // last byte to skip and read it to make sure it exists.
+        mpack_log("seeking forward %i bytes\n", (int)(count - 1));
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            mpack_reader_skip_using_fill(reader, 1);
             return;
+        }
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From f6d24b6c84fa08f04c6ff69d20b6b10b1709039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 11/41] fix: Clean up a file reader before reporting a failed
 close

The error handler can jump out or destroy the reader, which leaked its buffer or
closed the file and freed the buffer twice.
---
 src/mpack/mpack-reader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 7490f25..933a984 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -142,13 +142,15 @@ static void mpack_file_reader_teardown(mpack_reader_t* reader) {
 static void mpack_file_reader_teardown_close(mpack_reader_t* reader) {
     FILE* file = (FILE*)reader->context;
 
+    // Clean up first: flagging an error can call an error handler that jumps
+    // out or destroys the reader again.
+    mpack_file_reader_teardown(reader);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_reader_flag_error(reader, mpack_error_io);
     }
-
-    mpack_file_reader_teardown(reader);
 }
 
 void mpack_reader_init_stdfile(mpack_reader_t* reader, FILE* file, bool close_when_done) {
-- 
2.43.0


From 2f56bae256eebcce5eecb949e5f90e71ea42cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 12/41] fix: Return an empty string when reading a cstr fails

mpack_read_cstr() left partial data in the buffer if the read failed, and
anything at all if the error handler jumped out.
---
 src/mpack/mpack-reader.c | 44 +++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 933a984..1e9600c 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -459,23 +459,46 @@ void mpack_read_utf8(mpack_reader_t* reader, char* p, size_t byte_count) {
         mpack_reader_flag_error(reader, mpack_error_type);
 }
 
+// Reads native bytes with error callback disabled. This allows MPack reader functions
+// to clean up, e.g. to free a buffer they read native data into, in case of a
+// non-local jump (longjmp, throw) out of an error handler. The caller must call
+// the error callback if an error was flagged.
+static void mpack_read_native_noerrorfn(mpack_reader_t* reader, char* p, size_t count) {
+    mpack_assert(reader->error == mpack_ok, "cannot call if an error is already flagged!");
+    mpack_reader_error_t error_fn = reader->error_fn;
+    reader->error_fn = NULL;
+    mpack_read_native(reader, p, count);
+    reader->error_fn = error_fn;
+}
+
 static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t buffer_size, size_t byte_count) {
     mpack_assert(buf != NULL, "destination for read of %i bytes is NULL", (int)byte_count);
     mpack_assert(buffer_size >= 1, "buffer size is zero; you must have room for at least a null-terminator");
 
-    if (mpack_reader_error(reader)) {
-        buf[0] = 0;
+    // the buffer must contain an empty string if an error occurs, even if the
+    // error handler jumps out.
+    buf[0] = 0;
+
+    if (mpack_reader_error(reader))
         return;
-    }
 
     if (byte_count > buffer_size - 1) {
         mpack_reader_flag_error(reader, mpack_error_too_big);
+        return;
+    }
+
+    if (mpack_reader_track_str_bytes_all(reader, byte_count) != mpack_ok)
+        return;
+
+    mpack_read_native_noerrorfn(reader, buf, byte_count);
+
+    if (mpack_reader_error(reader) != mpack_ok) {
         buf[0] = 0;
+        if (reader->error_fn)
+            reader->error_fn(reader, mpack_reader_error(reader));
         return;
     }
 
-    mpack_reader_track_str_bytes_all(reader, byte_count);
-    mpack_read_native(reader, buf, byte_count);
     buf[byte_count] = 0;
 }
 
@@ -500,17 +523,6 @@ void mpack_read_utf8_cstr(mpack_reader_t* reader, char* buf, size_t buffer_size,
 }
 
 #ifdef MPACK_MALLOC
-// Reads native bytes with error callback disabled. This allows MPack reader functions
-// to hold an allocated buffer and read native data into it without leaking it in
-// case of a non-local jump (longjmp, throw) out of an error handler.
-static void mpack_read_native_noerrorfn(mpack_reader_t* reader, char* p, size_t count) {
-    mpack_assert(reader->error == mpack_ok, "cannot call if an error is already flagged!");
-    mpack_reader_error_t error_fn = reader->error_fn;
-    reader->error_fn = NULL;
-    mpack_read_native(reader, p, count);
-    reader->error_fn = error_fn;
-}
-
 char* mpack_read_bytes_alloc_impl(mpack_reader_t* reader, size_t count, bool null_terminated) {
 
     // track the bytes first in case it jumps
-- 
2.43.0


From 481bdd4aa4720fbb59fe52623b8a7842b28d1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 13/41] fix: Stop skipping when the error handler destroyed the
 reader

A destroyed file reader has a buffer size of zero, so the skip went on with no
fill function.
---
 src/mpack/mpack-reader.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 1e9600c..59c512e 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -425,20 +425,17 @@ MPACK_NOINLINE static void mpack_reader_skip_using_fill(mpack_reader_t* reader,
     // fill and discard multiples of the buffer size
     while (count > reader->size) {
         mpack_log("filling and discarding buffer of %i bytes\n", (int)reader->size);
-        if (mpack_fill_range(reader, reader->buffer, reader->size, reader->size) < reader->size) {
-            mpack_reader_flag_error(reader, mpack_error_io);
+        mpack_fill_range(reader, reader->buffer, reader->size, reader->size);
+        if (mpack_reader_error(reader) != mpack_ok)
             return;
-        }
         count -= reader->size;
     }
 
     // fill the buffer as much as possible
     reader->data = reader->buffer;
     size_t read = mpack_fill_range(reader, reader->buffer, count, reader->size);
-    if (read < count) {
-        mpack_reader_flag_error(reader, mpack_error_io);
+    if (mpack_reader_error(reader) != mpack_ok)
         return;
-    }
     reader->end = reader->data + read;
     mpack_log("filled %i bytes into buffer; discarding %i bytes\n", (int)read, (int)count);
     reader->data += count;
-- 
2.43.0


From 90f4f2a298cd46b54e4d75b7a53a48bfc09a57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 14/41] fix: Don't recurse in mpack_discard()

Discarding deeply nested untrusted data overflowed the stack.
---
 src/mpack/mpack-reader.c | 88 +++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 59c512e..51fc015 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1004,46 +1004,58 @@ mpack_tag_t mpack_peek_tag(mpack_reader_t* reader) {
 }
 
 void mpack_discard(mpack_reader_t* reader) {
-    mpack_tag_t var = mpack_read_tag(reader);
-    if (mpack_reader_error(reader))
-        return;
-    switch (var.type) {
-        case mpack_type_str:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_str(reader);
-            break;
-        case mpack_type_bin:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_bin(reader);
-            break;
-        #if MPACK_EXTENSIONS
-        case mpack_type_ext:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_ext(reader);
-            break;
-        #endif
-        case mpack_type_array: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_array(reader);
-            break;
+
+    // We count the elements left to discard rather than recursing into compound
+    // elements. The data may be nested much deeper than the stack allows.
+    uint64_t left = 1;
+
+    #if MPACK_READ_TRACKING
+    size_t depth = reader->track.count;
+    #endif
+
+    do {
+        mpack_tag_t var = mpack_read_tag(reader);
+        if (mpack_reader_error(reader))
+            return;
+        --left;
+
+        switch (var.type) {
+            case mpack_type_str:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_str(reader);
+                break;
+            case mpack_type_bin:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_bin(reader);
+                break;
+            #if MPACK_EXTENSIONS
+            case mpack_type_ext:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_ext(reader);
+                break;
+            #endif
+            case mpack_type_array:
+                left += var.v.n;
+                break;
+            case mpack_type_map:
+                left += (uint64_t)var.v.n * 2;
+                break;
+            default:
+                break;
         }
-        case mpack_type_map: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_map(reader);
-            break;
+        if (mpack_reader_error(reader))
+            return;
+
+        // close any arrays and maps that are now complete
+        #if MPACK_READ_TRACKING
+        while (reader->track.count > depth) {
+            mpack_track_element_t* element = &reader->track.elements[reader->track.count - 1];
+            if (element->left != 0 || element->key_needs_value)
+                break;
+            mpack_done_type(reader, element->type);
         }
-        default:
-            break;
-    }
+        #endif
+    } while (left > 0);
 }
 
 #if MPACK_EXTENSIONS
-- 
2.43.0


From f379886fb1a4d40f314ae2a8e5a1cef4277fdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 15/41] fix: Count the nodes of a container once when tree
 parsing resumes

When the bytes of a container's children had not arrived yet, its children
were counted against the node limit again on every attempt to parse it.
---
 src/mpack/mpack-node.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..f50e883 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -282,9 +282,9 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         total *= 2;
     }
 
-    // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    // Make sure we are under our total node limit
+    if (tree->max_nodes != SIZE_MAX &&
+            (tree->node_count > tree->max_nodes || total > tree->max_nodes - tree->node_count)) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -294,6 +294,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
 
+    // Count the nodes only now. If more data was needed above, this
+    // node will be parsed again.
+    tree->node_count += total;
+
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
         node->value.children = parser->nodes;
-- 
2.43.0


From 019ab10a1790e9b4deee30fef9711cab2023e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 16/41] fix: Do not count buffered bytes twice against the
 tree's size limit

The bytes to reserve include bytes that are already in the buffer, so messages
within the limit were rejected depending on how they arrived. This also avoids
overflows in these calculations.
---
 src/mpack/mpack-node.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index f50e883..ebd8488 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -89,14 +89,6 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
             "there are already enough bytes! call mpack_tree_ensure() instead.");
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
-    // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
-    // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
-        mpack_tree_flag_error(tree, mpack_error_too_big);
-        return false;
-    }
-
     // we'll need a read function to fetch more data. if there's
     // no read function, the data should contain an entire message
     // (or messages), so we flag it as invalid.
@@ -106,13 +98,25 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
         return false;
     }
 
+    // if the necessary bytes would put us over the maximum tree
+    // size, fail right away. some of them may already be buffered.
+    size_t needed = bytes - tree->parser.possible_nodes_left;
+    if (tree->data_length > tree->max_size || needed > tree->max_size - tree->data_length) {
+        mpack_tree_flag_error(tree, mpack_error_too_big);
+        return false;
+    }
+
     // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    if (tree->data_length + needed > tree->buffer_capacity) {
 
-        // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < tree->data_length + needed) {
+            if (new_capacity > SIZE_MAX / 2) {
+                new_capacity = SIZE_MAX;
+                break;
+            }
             new_capacity *= 2;
+        }
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
 
-- 
2.43.0


From e22401ce493f35cd679eb946d6f1e180e65eb58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 17/41] fix: Call the tree's error handler when allocating the
 first page fails

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index ebd8488..2635e52 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -915,7 +915,7 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From 555de84eb53fb7d066aa6b9edda06f780b9a41bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 18/41] fix: Return zero from mpack_tree_size() after a parse
 error as documented

---
 src/mpack/mpack-node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 2635e52..83de685 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1242,6 +1242,11 @@ void mpack_tree_flag_error(mpack_tree_t* tree, mpack_error_t error) {
     if (tree->error == mpack_ok) {
         mpack_log("tree %p setting error %i: %s\n", (void*)tree, (int)error, mpack_error_to_string(error));
         tree->error = error;
+
+        // The size of a message that failed to parse is not known.
+        if (tree->parser.state == mpack_tree_parse_state_in_progress)
+            tree->size = 0;
+
         if (tree->error_fn)
             tree->error_fn(tree, error);
     }
-- 
2.43.0


From da0d902afbf4c6503cb10e8681edd9a97435a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 19/41] fix: Enforce the tree's message size limit on data
 already in memory

The limit set by mpack_tree_set_limits() was only checked when more data had to
be read.
---
 src/mpack/mpack-node.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 83de685..dd300a3 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -200,6 +200,16 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
 
     tree->parser.current_node_reserved += extra_bytes;
 
+    // Make sure the message is within the size limit, even if its data has
+    // already arrived. (possible_nodes_left does not include the bytes of
+    // previous nodes or those reserved for their children.)
+    size_t used = tree->data_length - tree->parser.possible_nodes_left;
+    if (tree->max_size != SIZE_MAX &&
+            (used > tree->max_size || tree->parser.current_node_reserved > tree->max_size - used)) {
+        mpack_tree_flag_error(tree, mpack_error_too_big);
+        return false;
+    }
+
     // Note that possible_nodes_left already accounts for reserved bytes for
     // children of previous compound nodes. So even if there are hundreds of
     // bytes left in the buffer, we might need to read anyway.
-- 
2.43.0


From d6a6ba8edb24f24442c3aecb5ceeab5562e2dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 20/41] fix: Check for overflow in the size of a tree page on
 32-bit platforms

---
 src/mpack/mpack-node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index dd300a3..48308aa 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -340,7 +340,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         mpack_tree_page_t* page;
 
         if (total > MPACK_NODES_PER_PAGE || parser->nodes_left > MPACK_NODES_PER_PAGE / 8) {
-            // TODO: this should check for overflow
+            if (total - 1 > (SIZE_MAX - sizeof(mpack_tree_page_t)) / sizeof(mpack_node_data_t)) {
+                mpack_tree_flag_error(tree, mpack_error_memory);
+                return false;
+            }
             page = (mpack_tree_page_t*)MPACK_MALLOC(
                     sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
             if (page == NULL) {
-- 
2.43.0


From 8bc0a48b821f1db71984b37985f9b80f39bd73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 21/41] fix: Do not report a memory error for
 mpack_node_data_alloc() of empty data

malloc() may return NULL for a size of zero.
---
 src/mpack/mpack-node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 48308aa..efcaa48 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1667,7 +1667,8 @@ char* mpack_node_data_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len);
+    // malloc() is allowed to return NULL for a size of zero.
+    char* ret = (char*) MPACK_MALLOC(node.data->len == 0 ? 1 : (size_t)node.data->len);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 5c1291bd39abb05005228c77358cb7c9e7a390bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 22/41] fix: Do not overflow the size to allocate for a copy of
 a 4 GB string

The length was incremented as a 32-bit integer, so a string of UINT32_MAX bytes
was copied to an allocation of zero bytes.
---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index efcaa48..c9e3c57 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1704,7 +1704,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1741,7 +1741,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 44b38ebedd17e4756bfb7ede2eeb950bdf90298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 23/41] fix: Match non-ASCII bytes in mpack_expect_str_match()

---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..ba3ec75 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -698,7 +698,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From a9c624f95b4f7efd89802e2c56c4884165852609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 24/41] fix: Return false from mpack_expect_bool() on error as
 documented

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index ba3ec75..992ec90 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -326,8 +326,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 41fff0e2c5d8456d5082dd72d82cc38b326fdcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 25/41] fix: Reject NaN in mpack_expect_float_range() and
 mpack_expect_double_range()

---
 src/mpack/mpack-expect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 992ec90..519dc7f 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -275,8 +275,8 @@ uint64_t mpack_expect_raw_double(mpack_reader_t* reader) {
     if (mpack_reader_error(reader) != mpack_ok)                         \
         return min_value;                                               \
                                                                         \
-    /* make sure it fits */                                             \
-    if (val < min_value || val > max_value) {                           \
+    /* make sure it fits (a NaN does not) */                            \
+    if (!(val >= min_value && val <= max_value)) {                      \
         mpack_reader_flag_error(reader, mpack_error_type);              \
         return min_value;                                               \
     }                                                                   \
-- 
2.43.0


From 106a533204e33b32e91ea329b8cfc5f7ba26bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 26/41] fix: Flag mpack_error_type for a timestamp in
 mpack_expect_ext() as documented

---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 519dc7f..8bb35d9 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -589,7 +589,7 @@ void mpack_expect_bin_size_buf(mpack_reader_t* reader, char* buf, uint32_t size)
 #if MPACK_EXTENSIONS
 uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type) {
     mpack_tag_t var = mpack_read_tag(reader);
-    if (var.type == mpack_type_ext) {
+    if (var.type == mpack_type_ext && mpack_tag_ext_exttype(&var) != MPACK_EXTTYPE_TIMESTAMP) {
         *type = mpack_tag_ext_exttype(&var);
         return mpack_tag_ext_length(&var);
     }
-- 
2.43.0


From 66c879e6b30936320d9bed27d6f8624d125bb2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 27/41] fix: Zero the ext type when mpack_expect_ext_max()
 fails as documented

---
 src/mpack/mpack-expect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-expect.h b/src/mpack/mpack-expect.h
index 02a1abc..4de568c 100644
--- a/src/mpack/mpack-expect.h
+++ b/src/mpack/mpack-expect.h
@@ -1228,6 +1228,7 @@ uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type);
 MPACK_INLINE uint32_t mpack_expect_ext_max(mpack_reader_t* reader, int8_t* type, uint32_t maxsize) {
     uint32_t length = mpack_expect_ext(reader, type);
     if (length > maxsize) {
+        *type = 0;
         mpack_reader_flag_error(reader, mpack_error_type);
         return 0;
     }
-- 
2.43.0


From 5dbbc3f4de427bf37d77465823d449d2b7eeae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 28/41] fix: Keep the ext type when mpack_expect_ext_alloc()
 reads an empty ext

---
 src/mpack/mpack-expect.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 8bb35d9..e4b9b93 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -761,11 +761,10 @@ char* mpack_expect_ext_alloc(mpack_reader_t* reader, int8_t* type, size_t maxsiz
     char* data = mpack_read_bytes_alloc(reader, length);
     mpack_done_ext(reader);
 
-    if (data) {
+    if (data)
         *size = length;
-    } else {
+    else if (mpack_reader_error(reader) != mpack_ok)
         *type = 0;
-    }
     return data;
 }
 #endif
-- 
2.43.0


From bed904a69288e2fae2775f9efe06ee21f5383201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 29/41] fix: Don't track a string in mpack_expect_str() when
 reading its tag failed

---
 src/mpack/mpack-expect.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index e4b9b93..0e85321 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -515,7 +515,10 @@ uint32_t mpack_expect_str(mpack_reader_t* reader) {
     }
 
     #if MPACK_READ_TRACKING
-    mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count));
+    if (mpack_reader_error(reader) != mpack_ok)
+        return 0;
+    if (mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count)) != mpack_ok)
+        return 0;
     #endif
     return count;
     #endif
-- 
2.43.0


From 83e62d7638d0320d25e7f3f23a1fde7da033f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 30/41] fix: Check for overflow of the array size in
 mpack_expect_array_alloc()

---
 src/mpack/mpack-expect.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 0e85321..6ff1d72 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -476,6 +476,12 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
+    // make sure the size of the array doesn't overflow (on 32-bit platforms)
+    if (count > SIZE_MAX / element_size) {
+        mpack_reader_flag_error(reader, mpack_error_memory);
+        return NULL;
+    }
+
     void* p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
-- 
2.43.0


From 936d3fb4acc5ed03324cde42c9b2a90c5e4b1972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 31/41] fix: Keep the context for the error handler when a
 growable writer fails to shrink

The context was cleared before the error was flagged (by an earlier fix), so the
error handler could not find its data.
---
 src/mpack/mpack-writer.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 2d46a37..fed8397 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -259,7 +259,6 @@ static void mpack_growable_writer_teardown(mpack_writer_t* writer) {
             if (!buffer) {
                 MPACK_FREE(writer->buffer);
                 writer->buffer = NULL;
-                writer->context = NULL;
                 mpack_writer_flag_error(writer, mpack_error_memory);
                 return;
             }
-- 
2.43.0


From 9d175e56250e7b75ce614924132495250c35bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 32/41] fix: Do not skip bytes after read tracking has flagged
 an error

---
 src/mpack/mpack-reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 51fc015..559cb5c 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -403,7 +403,8 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
         return;
     mpack_log("skip requested for %i bytes\n", (int)count);
 
-    mpack_reader_track_bytes(reader, count);
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
 
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
-- 
2.43.0


From 0e23d79395e2e58e52a5ba23c5b5727b27aaf6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 33/41] fix: Finish closing an incomplete builder before
 calling the error handler in mpack_writer_destroy()

---
 src/mpack/mpack-writer.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index fed8397..aef35e5 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -549,15 +549,6 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
     if (builder->current_build != NULL) {
         // A builder is open!
 
-        // Flag an error, if there's not already an error. You can only skip
-        // closing any open compound types if a write error occurred. If there
-        // wasn't already an error, it's a bug, which will assert in debug.
-        if (mpack_writer_error(writer) == mpack_ok) {
-            mpack_break("writer cannot be destroyed with an incomplete builder unless "
-                    "an error was flagged!");
-            mpack_writer_flag_error(writer, mpack_error_bug);
-        }
-
         // Free any remaining builder pages
         mpack_builder_page_t* page = builder->pages;
         #if MPACK_BUILDER_INTERNAL_STORAGE
@@ -576,13 +567,22 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
         writer->position = builder->stash_position;
         writer->end = builder->stash_end;
 
-        // Note: It's not necessary to clean up the other pointers at this
-        // point because we're guaranteed to be in an error state already so a
-        // user error callback can't longjmp out. This destroy function will
-        // complete no matter what so it doesn't matter what junk is left in
-        // the writer. We do need to forget the open build though since we may
-        // have been called from an error callback in the middle of a write.
+        // Note: It's not necessary to clean up the other pointers. The writer
+        // is in an error state below so it doesn't matter what junk is left in
+        // it. We do need to forget the open build though since we may have
+        // been called from an error callback in the middle of a write.
         builder->current_build = NULL;
+
+        // Flag an error, if there's not already an error. You can only skip
+        // closing any open compound types if a write error occurred. If there
+        // wasn't already an error, it's a bug, which will assert in debug.
+        // (This must be last since the user error callback can destroy the
+        // writer or longjmp out.)
+        if (mpack_writer_error(writer) == mpack_ok) {
+            mpack_break("writer cannot be destroyed with an incomplete builder unless "
+                    "an error was flagged!");
+            mpack_writer_flag_error(writer, mpack_error_bug);
+        }
     }
     #endif
 
-- 
2.43.0


From 7a318c5632352ddc636ce0ca8d361dfdd58e6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 34/41] fix: Do not assert when printing a node of a tree in an
 error state

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index c9e3c57..25c936f 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1321,7 +1321,7 @@ mpack_tag_t mpack_node_tag(mpack_node_t node) {
 static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, size_t depth) {
     mpack_node_data_t* data = node.data;
     size_t i,j;
-    switch (data->type) {
+    switch (mpack_node_type(node)) {
         case mpack_type_str:
             {
                 mpack_print_append_cstr(print, "\"");
-- 
2.43.0


From 1cc76961dcce0f3d737e483671fd5a3d9f97bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 35/41] fix: Do not cut off large doubles when printing

---
 src/mpack/mpack-node.c   | 2 +-
 src/mpack/mpack-reader.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 25c936f..db4e255 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1384,7 +1384,7 @@ static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, si
                     prefix_length = mpack_node_data_len(node);
                 }
 
-                char buf[256];
+                char buf[320]; // a double can print as up to 317 characters
                 mpack_tag_t tag = mpack_node_tag(node);
                 mpack_tag_debug_pseudo_json(tag, buf, sizeof(buf), prefix, prefix_length);
                 mpack_print_append_cstr(print, buf);
diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 559cb5c..8c4fd80 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1215,7 +1215,7 @@ static void mpack_print_element(mpack_reader_t* reader, mpack_print_t* print, si
             break;
     }
 
-    char buf[256];
+    char buf[320]; // a double can print as up to 317 characters
     mpack_tag_debug_pseudo_json(val, buf, sizeof(buf), buffer, count);
     mpack_print_append_cstr(print, buf);
 }
-- 
2.43.0


From 398f74b52c4579f7af415159bca7f5496661e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 36/41] fix: Compile the C++ write overloads without float or
 double support

---
 src/mpack/mpack-writer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index 5023d5f..0be57d4 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1220,13 +1220,17 @@ MPACK_INLINE void mpack_write(mpack_writer_t* writer, bool value) {
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, float value) {
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, double value) {
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, char *value) {
     mpack_write_cstr_or_nil(writer, value);
@@ -1283,15 +1287,19 @@ MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, bool v
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, float value) {
     mpack_write_cstr(writer, key);
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, double value) {
     mpack_write_cstr(writer, key);
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, char *value) {
     mpack_write_cstr(writer, key);
-- 
2.43.0


From 8a9426f2f4f1f05b2276c80cf5f5f478b528556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 37/41] fix: Shorten a double of 2^128 or more to infinity, not
 NaN

---
 src/mpack/mpack-common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-common.h b/src/mpack/mpack-common.h
index 3e77e07..308c53d 100644
--- a/src/mpack/mpack-common.h
+++ b/src/mpack/mpack-common.h
@@ -1035,7 +1035,7 @@ MPACK_INLINE float mpack_shorten_raw_double_to_float(uint64_t d) {
             // we don't currently handle subnormal numbers. just set it to zero.
             f_exponent = 0;
             f_significand = 0;
-        } else if (MPACK_UNLIKELY(fix_bias > 0xff)) {
+        } else if (MPACK_UNLIKELY(fix_bias >= 0xff)) {
             // exponent is too large; saturate to infinity
             f_exponent = 0xff;
             f_significand = 0;
-- 
2.43.0


From 9c30b05d604a8143b3ba2fd29c1237d7d4c8d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 38/41] fix: Flag truncated data in mpack_tree_try_parse()
 without an allocator

---
 src/mpack/mpack-node.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index db4e255..1f36c9c 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -219,6 +219,9 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
     #ifdef MPACK_MALLOC
     return mpack_tree_reserve_fill(tree);
     #else
+    // There are no streams without an allocator. The data should contain an
+    // entire message, so we flag it as invalid.
+    mpack_tree_flag_error(tree, mpack_error_invalid);
     return false;
     #endif
 }
-- 
2.43.0


From 4eae03fd1d0196c2355d6988795fbd4575dc1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:09 +0000
Subject: [PATCH 39/41] fix: Close the file in mpack_tree_init_stdfile() if the
 maximum size is invalid

---
 src/mpack/mpack-node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 1f36c9c..c8234d9 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1215,8 +1215,11 @@ static void mpack_tree_init_stdfile_noclose(mpack_tree_t* tree, FILE* stdfile, s
 }
 
 void mpack_tree_init_stdfile(mpack_tree_t* tree, FILE* stdfile, size_t max_bytes, bool close_when_done) {
-    if (!mpack_tree_file_check_max_bytes(tree, max_bytes))
+    if (!mpack_tree_file_check_max_bytes(tree, max_bytes)) {
+        if (close_when_done)
+            fclose(stdfile);
         return;
+    }
 
     mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
 
-- 
2.43.0


From 72c851d08b4af358cea90c7ec6ad3c0e23f44358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 40/41] fix: Don't loop forever growing a writer beyond half
 the address space

The doubling of the buffer size wrapped around to zero on 32-bit platforms
when more than 2 GB were needed.
---
 src/mpack/mpack-writer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index aef35e5..f1c1dc1 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -214,10 +214,14 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
     // grow to fit the data
-    // TODO: this really needs to correctly test for overflow
-    size_t new_size = size * 2;
-    while (new_size < used + count)
+    size_t new_size = size;
+    do {
+        if (new_size > SIZE_MAX / 2) {
+            mpack_writer_flag_error(writer, mpack_error_memory);
+            return;
+        }
         new_size *= 2;
+    } while (new_size < used + count);
 
     mpack_log("flush growing buffer size from %i to %i\n", (int)size, (int)new_size);
 
-- 
2.43.0


From f9a20afb32531098b921b33a5f5d692ef16cfab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 41/41] fix: Flag mpack_error_bug when a writer is destroyed
 with unclosed elements in tracking mode

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f1c1dc1..c37256f 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -545,7 +545,7 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_writer_flag_if_error(writer, mpack_track_destroy(&writer->track, writer->error != mpack_ok));
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0

