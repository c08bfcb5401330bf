From f31eac87d033df3bd0db2812d7bf24e44c90b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 01/25] fix: call the error handler when allocating the first
 node page fails

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..a957255 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -907,7 +907,7 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From 98f13072d561144b8abdb2403ca02dab1bdaf000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 02/25] fix: do not skip data after a tracking error in
 mpack_skip_bytes

---
 src/mpack/mpack-reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..779f614 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -397,7 +397,8 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
         return;
     mpack_log("skip requested for %i bytes\n", (int)count);
 
-    mpack_reader_track_bytes(reader, count);
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
 
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
-- 
2.43.0


From bb1934e984760202790b902d0dee56be47ebfae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 03/25] fix: close the file in mpack_tree_init_stdfile() when
 max_bytes is invalid

---
 src/mpack/mpack-node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index a957255..2034b53 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1191,8 +1191,11 @@ static void mpack_tree_init_stdfile_noclose(mpack_tree_t* tree, FILE* stdfile, s
 }
 
 void mpack_tree_init_stdfile(mpack_tree_t* tree, FILE* stdfile, size_t max_bytes, bool close_when_done) {
-    if (!mpack_tree_file_check_max_bytes(tree, max_bytes))
+    if (!mpack_tree_file_check_max_bytes(tree, max_bytes)) {
+        if (close_when_done)
+            fclose(stdfile);
         return;
+    }
 
     mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
 
-- 
2.43.0


From 4c73f32743af21cadb2d27d53714149dbb8af9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 04/25] fix: return false from mpack_expect_bool() when the
 type does not match

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..3739d1a 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -326,8 +326,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 2464b248b13d9e9fca400a2bc7c62fc4ca0cdd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 05/25] fix: return zero from mpack_expect_str() when the read
 tracker fails

---
 src/mpack/mpack-expect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 3739d1a..c22fe17 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -515,7 +515,8 @@ uint32_t mpack_expect_str(mpack_reader_t* reader) {
     }
 
     #if MPACK_READ_TRACKING
-    mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count));
+    if (mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count)) != mpack_ok)
+        return 0;
     #endif
     return count;
     #endif
-- 
2.43.0


From bc40fb2c5454adc3946f9829d6efea7e54b28a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 06/25] fix: leave an empty string in the buffer when
 mpack_read_cstr() runs out of data

---
 src/mpack/mpack-reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 779f614..ef79f2b 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -471,7 +471,7 @@ static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t
 
     mpack_reader_track_str_bytes_all(reader, byte_count);
     mpack_read_native(reader, buf, byte_count);
-    buf[byte_count] = 0;
+    buf[(mpack_reader_error(reader) == mpack_ok) ? byte_count : 0] = 0;
 }
 
 void mpack_read_cstr(mpack_reader_t* reader, char* buf, size_t buffer_size, size_t byte_count) {
-- 
2.43.0


From 066429c020eb980b340a3d992aa956bf9709135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 07/25] fix: zero the ext type when mpack_expect_ext_max()
 finds the object too long

---
 src/mpack/mpack-expect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-expect.h b/src/mpack/mpack-expect.h
index 02a1abc..4de568c 100644
--- a/src/mpack/mpack-expect.h
+++ b/src/mpack/mpack-expect.h
@@ -1228,6 +1228,7 @@ uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type);
 MPACK_INLINE uint32_t mpack_expect_ext_max(mpack_reader_t* reader, int8_t* type, uint32_t maxsize) {
     uint32_t length = mpack_expect_ext(reader, type);
     if (length > maxsize) {
+        *type = 0;
         mpack_reader_flag_error(reader, mpack_error_type);
         return 0;
     }
-- 
2.43.0


From 3b64938c4c891402e746002cd5a2a5036167b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 08/25] fix: allocate enough for a C-string of 2^32-1 bytes in
 mpack_node_cstr_alloc() and mpack_node_utf8_cstr_alloc()

The terminator was added to the length in 32 bits, so the longest possible
string got an allocation of zero bytes.
---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 2034b53..b5ac2bc 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1680,7 +1680,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1717,7 +1717,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From fedd5dda1d3816e7d6d76948bf582be27eaeda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 09/25] fix: don't lose nested builds when the end of a builder
 page was discarded

mpack_builder_build() discards the rest of a page with less than the minimum
buffer size left. On 32-bit platforms a build fits in this space, so
mpack_builder_resolve() took the page for the last one: builds in the pages
after it were dropped from the message and their pages leaked.
---
 src/mpack/mpack-writer.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..2547939 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1734,24 +1734,20 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
             offset = sizeof(mpack_builder_page_t);
         }
 
-        // now see if we can find another build.
+        // now see if we can find another build. there isn't one in this page if
+        // no more of it was used; in this case the builder may have discarded
+        // the rest of it, and the next build (if any) starts the next page.
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
-            mpack_log("not enough room in this page for another build\n");
+        while (page != NULL && offset + sizeof(mpack_build_t) > page->bytes_used) {
+            mpack_log("no other build in this page\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
             page = next_page;
-            if (page == NULL) {
-                mpack_log("no more pages\n");
-                // there are no more pages. we're done.
-                break;
-            }
             offset = mpack_builder_align_build(sizeof(mpack_builder_page_t));
         }
-        if (offset + sizeof(mpack_build_t) > page->bytes_used) {
-            // there is no more data. we're done.
-            mpack_log("no more data\n");
-            mpack_builder_free_page(writer, page);
+        if (page == NULL) {
+            mpack_log("no more pages\n");
+            // there are no more pages. we're done.
             break;
         }
 
-- 
2.43.0


From 09772a0c2780d28d1493e3b222844cf6f4b8be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 10/25] fix: stop in mpack_builder_build() when allocating a
 page for the build fails

The new build was placed past the end of the full page, overflowing it.
---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 2547939..012abc6 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1593,6 +1593,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From 94d0b2b6188dc5f7eae29854206dc597488671f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 11/25] fix: don't lose the children of maps of 2^31 or more
 pairs in the size of a tree

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index b5ac2bc..d32eab7 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -773,7 +773,7 @@ static bool mpack_tree_parse_node(mpack_tree_t* tree, mpack_node_data_t* node) {
     if (node->type == mpack_type_array)
         node_size -= node->len;
     else if (node->type == mpack_type_map)
-        node_size -= node->len * 2;
+        node_size -= (size_t)node->len * 2;
     tree->size += node_size;
 
     mpack_log("parsed a node of type %s of %i bytes and "
-- 
2.43.0


From 37aa0efc6459df628f30073ab2c9265417bb01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 12/25] fix: don't count the children of a node again when
 parsing it is resumed

---
 src/mpack/mpack-node.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index d32eab7..86fee8f 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -283,8 +283,8 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     }
 
     // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    size_t node_count = tree->node_count + total;
+    if (node_count > tree->max_nodes) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -294,6 +294,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
 
+    // Count the nodes only now. If there wasn't enough data, this node will be
+    // parsed again (and its children counted) when there is.
+    tree->node_count = node_count;
+
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
         node->value.children = parser->nodes;
-- 
2.43.0


From ab7d7d8e433540f151d2dc7fdd431a0d7ceca43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:47 +0000
Subject: [PATCH 13/25] fix: report unclosed elements from
 mpack_writer_destroy() as an error

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 012abc6..927473c 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -532,7 +532,7 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_writer_flag_if_error(writer, mpack_track_destroy(&writer->track, writer->error != mpack_ok));
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0


From 74748f478c21cc82af5cc9c47b4ca15f64faead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:21 +0000
Subject: [PATCH 14/25] fix: don't skip past the end of a file without an error

---
 src/mpack/mpack-reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index ef79f2b..ae260bb 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -111,9 +111,13 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
     // We call ftell() to test whether the stream is seekable
     // without causing a file error.
     if (ftell(file) >= 0) {
+        // A file can be seeked past its end without error, so we leave the
+        // last byte to be read in order to find out if the data is there.
         mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            mpack_reader_skip_using_fill(reader, 1);
             return;
+        }
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From 6b17e1e5b02ab80aaf14fe77be2d20c68cf2847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 15/25] fix: don't seek backwards when skipping 2 GB or more on
 32-bit platforms

---
 src/mpack/mpack-reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index ae260bb..e1e528c 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -109,8 +109,9 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
     FILE* file = (FILE*)reader->context;
 
     // We call ftell() to test whether the stream is seekable
-    // without causing a file error.
-    if (ftell(file) >= 0) {
+    // without causing a file error. fseek() can't skip more than
+    // LONG_MAX bytes at once.
+    if (count <= (size_t)LONG_MAX && ftell(file) >= 0) {
         // A file can be seeked past its end without error, so we leave the
         // last byte to be read in order to find out if the data is there.
         mpack_log("seeking forward %i bytes\n", (int)count);
-- 
2.43.0


From 0c21b4a87d470f783db736879947698000bc71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 16/25] fix: count the data already in the buffer once when
 checking the maximum size of a message

---
 src/mpack/mpack-node.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 86fee8f..c78656f 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -89,10 +89,11 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
             "there are already enough bytes! call mpack_tree_ensure() instead.");
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
-    // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
-    // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
+    // some of the necessary bytes may already be in the buffer. if the ones
+    // that are missing would put us over the maximum tree size, fail right
+    // away.
+    size_t missing = bytes - tree->parser.possible_nodes_left;
+    if (tree->data_length > tree->max_size || missing > tree->max_size - tree->data_length) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -107,13 +108,13 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     }
 
     // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    size_t needed = tree->data_length + missing;
+    if (needed > tree->buffer_capacity) {
 
-        // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < needed && new_capacity <= tree->max_size / 2)
             new_capacity *= 2;
-        if (new_capacity > tree->max_size)
+        if (new_capacity < needed || new_capacity > tree->max_size)
             new_capacity = tree->max_size;
 
         mpack_log("expanding buffer from %i to %i\n", (int)tree->buffer_capacity, (int)new_capacity);
-- 
2.43.0


From 1c24b238c44297125d04a99aa447bbc8a0a8012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 17/25] fix: check for overflow when allocating a page for the
 children of a node

---
 src/mpack/mpack-node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index c78656f..8ca6faf 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -327,7 +327,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         mpack_tree_page_t* page;
 
         if (total > MPACK_NODES_PER_PAGE || parser->nodes_left > MPACK_NODES_PER_PAGE / 8) {
-            // TODO: this should check for overflow
+            if (total > (SIZE_MAX - sizeof(mpack_tree_page_t)) / sizeof(mpack_node_data_t)) {
+                mpack_tree_flag_error(tree, mpack_error_too_big);
+                return false;
+            }
             page = (mpack_tree_page_t*)MPACK_MALLOC(
                     sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
             if (page == NULL) {
-- 
2.43.0


From 3a15ff0c60d14533b65e84b1003bbc10f798709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:36 +0000
Subject: [PATCH 18/25] fix: check for overflow in the size of the array in
 mpack_expect_array_alloc()

---
 src/mpack/mpack-expect.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index c22fe17..be4d126 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -476,6 +476,12 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
+    // make sure the size of the array can be represented
+    if (element_size > 0 && count > SIZE_MAX / element_size) {
+        mpack_reader_flag_error(reader, mpack_error_too_big);
+        return NULL;
+    }
+
     void* p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
-- 
2.43.0


From 252b63dec2ff64d1792167d917ed51d46d211f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 19/25] fix: don't loop forever when a growable writer can't
 grow enough on a 32-bit platform

---
 src/mpack/mpack-writer.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 927473c..81e5914 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -209,11 +209,19 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
             "extra flush for %i but there is %i space left in the buffer! (%i/%i)",
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
-    // grow to fit the data
-    // TODO: this really needs to correctly test for overflow
+    // grow to fit the data, as long as the size can be represented
+    if (size > SIZE_MAX / 2 || count > SIZE_MAX - used) {
+        mpack_writer_flag_error(writer, mpack_error_memory);
+        return;
+    }
     size_t new_size = size * 2;
-    while (new_size < used + count)
+    while (new_size < used + count) {
+        if (new_size > SIZE_MAX / 2) {
+            new_size = used + count;
+            break;
+        }
         new_size *= 2;
+    }
 
     mpack_log("flush growing buffer size from %i to %i\n", (int)size, (int)new_size);
 
-- 
2.43.0


From f8b8dee5c04a778f865166e5520a8891e6e27828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:52 +0000
Subject: [PATCH 20/25] fix: flag an error when a built map or array has 2^32
 or more elements

---
 src/mpack/mpack-writer.c | 11 +++++++----
 src/mpack/mpack-writer.h |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 81e5914..f7fc3f5 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -78,14 +78,17 @@ static inline void mpack_writer_track_element(mpack_writer_t* writer) {
         // We only track this write if it's not nested within another non-build
         // map or array.
         if (build->nested_compound_elements == 0) {
-            if (build->type != mpack_type_map) {
+            if (build->type == mpack_type_map && !build->key_needs_value) {
+                build->key_needs_value = true;
+            } else if (build->count == MPACK_UINT32_MAX) {
+                // the header can't represent this many elements
+                mpack_writer_flag_error(writer, mpack_error_too_big);
+            } else if (build->type != mpack_type_map) {
                 ++build->count;
                 mpack_log("adding element to build %p, now %" PRIu32 " elements\n", (void*)build, build->count);
-            } else if (build->key_needs_value) {
+            } else {
                 build->key_needs_value = false;
                 ++build->count;
-            } else {
-                build->key_needs_value = true;
             }
         }
     }
diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d842a3f..c29de56 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -711,7 +711,10 @@ MPACK_INLINE void mpack_builder_compound_push(mpack_writer_t* writer) {
     #if MPACK_BUILDER
     mpack_build_t* build = writer->builder.current_build;
     if (build != NULL) {
-        ++build->nested_compound_elements;
+        if (build->nested_compound_elements == MPACK_UINT32_MAX)
+            mpack_writer_flag_error(writer, mpack_error_too_big);
+        else
+            ++build->nested_compound_elements;
     }
     #endif
 }
-- 
2.43.0


From 4f97b455189ff5c4d3c4345680c31709c6e43fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:19 +0000
Subject: [PATCH 21/25] fix: don't wrap the node count when checking the node
 limit on 32-bit platforms

---
 src/mpack/mpack-node.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8ca6faf..708c836 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -283,8 +283,11 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         total *= 2;
     }
 
-    // Make sure we are under our total node limit (TODO can this overflow?)
-    size_t node_count = tree->node_count + total;
+    // Make sure we are under our total node limit (on 32-bit platforms the
+    // node count can overflow)
+    size_t node_count = SIZE_MAX;
+    if (total <= SIZE_MAX - tree->node_count)
+        node_count = tree->node_count + total;
     if (node_count > tree->max_nodes) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
-- 
2.43.0


From c0a2725eec382464d0477af82d6f304f25a445fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:17 +0000
Subject: [PATCH 22/25] fix: match bytes above 127 in mpack_expect_str_match()

---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index be4d126..b76be69 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -707,7 +707,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From 45c6e1c96c09780f16a98f0f3044bc20778f18a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:55 +0000
Subject: [PATCH 23/25] fix: do not buffer beyond a tree size limit that was
 lowered

After mpack_tree_set_limits() lowers the maximum message size below the
capacity of the buffer, the read function was still asked to fill all of the
buffer, so messages larger than the maximum were buffered and accepted.
---
 src/mpack/mpack-node.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 708c836..a2c742a 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -136,9 +136,11 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     }
 
     // request as much data as possible, looping until we have
-    // all the data we need
+    // all the data we need. the buffer may be larger than the maximum size if
+    // the limit was lowered, so we make sure not to exceed it.
+    size_t capacity = (tree->buffer_capacity < tree->max_size) ? tree->buffer_capacity : tree->max_size;
     do {
-        size_t read = tree->read_fn(tree, tree->buffer + tree->data_length, tree->buffer_capacity - tree->data_length);
+        size_t read = tree->read_fn(tree, tree->buffer + tree->data_length, capacity - tree->data_length);
 
         // If the fill function encounters an error, it should flag an error on
         // the tree.
-- 
2.43.0


From 9a97d72491c8c37f810955bd5f6eef901871f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:55 +0000
Subject: [PATCH 24/25] fix: print a string node as nil when the tree is in an
 error state

In debug mode this hit the assertion of mpack_node_data_unchecked(). All
other nodes are already printed as nil.
---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index a2c742a..07a69bf 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1311,7 +1311,7 @@ mpack_tag_t mpack_node_tag(mpack_node_t node) {
 static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, size_t depth) {
     mpack_node_data_t* data = node.data;
     size_t i,j;
-    switch (data->type) {
+    switch (mpack_node_type(node)) {
         case mpack_type_str:
             {
                 mpack_print_append_cstr(print, "\"");
-- 
2.43.0


From 59dd8f5e050acfd3133c8153bb35143bf423ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:55 +0000
Subject: [PATCH 25/25] fix: stop a build when tracking it fails

If the tracker could not allocate, mpack_build_array() and mpack_build_map()
carried on in the error state and hit an assertion in debug mode.
---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f7fc3f5..1f98184 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1585,6 +1585,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0

