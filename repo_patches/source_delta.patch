From 002b123237169f4a90dde82f738853c159f4b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 01/21] fix: do not truncate the size of values longer than 255
 bytes

urkel_node_save() took the value size as a uint8_t: a value of 300 bytes
was recorded on disk as 44 bytes, and read back truncated.
---
 src/nodes.c | 2 +-
 src/nodes.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index 149db46..c428df7 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -201,7 +201,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   urkel_leaf_t *leaf = &node->u.leaf;
 
   CHECK(node->type == URKEL_NODE_LEAF);
diff --git a/src/nodes.h b/src/nodes.h
index 3e4a1b3..0f84491 100644
--- a/src/nodes.h
+++ b/src/nodes.h
@@ -111,7 +111,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out);
-- 
2.43.0


From 577ae7f4ce97721b623798e308866b8b7ed4e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 02/21] fix: do not clear an uninitialized node when a root is
 not found

urkel_inject() of an unknown root inspected (and possibly freed through)
an uninitialized stack node.
---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 24af568..04fb423 100644
--- a/src/store.c
+++ b/src/store.c
@@ -868,7 +868,8 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  urkel_node_clear(&root);
+  if (ret)
+    urkel_node_clear(&root);
 
   return ret;
 }
-- 
2.43.0


From d5895d6e7d85b75aedff3655c1976e0122dccc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 03/21] fix: free the tree when the store cannot be opened

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index f0ec649..c7c638b 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -586,6 +586,7 @@ urkel_open(const char *prefix) {
   tree->store = urkel_store_open(prefix);
 
   if (tree->store == NULL) {
+    free(tree);
     urkel_errno = URKEL_EBADOPEN;
     return NULL;
   }
-- 
2.43.0


From 29cc1f19a27795c5abe0c050c617d5623d8a111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 04/21] fix: release the nodes of a proof that fails to parse

A malformed proof leaked every node which was parsed before the error.
---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index c7c638b..3266ad3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -788,6 +788,7 @@ urkel_verify(int *exists,
   }
 
   if (!urkel_proof_read(&proof, proof_raw, proof_len)) {
+    urkel_proof_clear(&proof);
     urkel_errno = URKEL_EINVAL;
     return 0;
   }
-- 
2.43.0


From 1b4316d2e9b79da1dfe4b2b253f03f0ebf1d75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 05/21] fix: take the transaction lock before the tree lock
 when proving

urkel_tx_prove() upgraded the transaction lock while holding the tree
lock, and could deadlock with a concurrent commit of the transaction.
---
 src/tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 3266ad3..22b0bcd 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1030,7 +1030,6 @@ urkel_tx_prove(tree_tx_t *tx,
   int write_lock, ret;
 
   urkel_rwlock_rdlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
 
   write_lock = (tx->root->type != URKEL_NODE_NULL
              && tx->root->type != URKEL_NODE_HASH);
@@ -1041,6 +1040,8 @@ urkel_tx_prove(tree_tx_t *tx,
     urkel_rwlock_wrlock(tx->lock);
   }
 
+  urkel_rwlock_rdlock(tx->tree->lock);
+
   urkel_proof_init(&proof);
 
   ret = urkel_tree_prove(tx->tree, &proof, tx->root, key, 0);
-- 
2.43.0


From d796569bd64a98d8d160a23e6ba6a04024b865a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 06/21] fix: keep the transaction root valid when a commit
 fails

A failed commit destroyed the tree of the transaction but left it pointing
to the freed root: destroying or reusing the transaction was a double free.
---
 src/tree.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 22b0bcd..9d98d1a 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -553,25 +553,26 @@ urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
   }
 }
 
-static urkel_node_t *
-urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
-  urkel_node_t *root = urkel_tree_write(tree, node);
+static int
+urkel_tree_commit(tree_db_t *tree, urkel_node_t **node) {
+  urkel_node_t *root = urkel_tree_write(tree, *node);
 
   if (root == NULL) {
-    urkel_node_destroy(node, 1);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
+  /* The original node was consumed. */
+  *node = root;
+
   if (!urkel_store_commit(tree->store, root)) {
-    urkel_node_destroy(root, 0);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
   memcpy(tree->hash, root->hash, URKEL_HASH_SIZE);
 
-  return root;
+  return 1;
 }
 
 /*
@@ -1070,20 +1071,17 @@ urkel_tx_prove(tree_tx_t *tx,
 
 int
 urkel_tx_commit(tree_tx_t *tx) {
-  urkel_node_t *root;
+  int ret;
 
   urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_wrlock(tx->tree->lock);
 
-  root = urkel_tree_commit(tx->tree, tx->root);
-
-  if (root != NULL)
-    tx->root = root;
+  ret = urkel_tree_commit(tx->tree, &tx->root);
 
   urkel_rwlock_wrunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 
-  return root != NULL;
+  return ret;
 }
 
 /*
-- 
2.43.0


From 08929024bfb43303b6d23a99fc83d92ca930be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 07/21] fix: clear a transaction to the injected root

urkel_tx_clear() reset the transaction to the last committed root even
after urkel_inject(), unlike urkel_tx_create().
---
 src/tree.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 9d98d1a..22086c7 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -885,14 +885,26 @@ urkel_tx_destroy(tree_tx_t *tx) {
 
 void
 urkel_tx_clear(tree_tx_t *tx) {
+  tree_db_t *tree = tx->tree;
+  urkel_node_t *root;
+
   urkel_rwlock_wrlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tree->lock);
 
-  urkel_node_destroy(tx->root, 1);
+  if (tree->revert)
+    root = urkel_store_get_history(tree->store, tree->hash);
+  else
+    root = urkel_store_get_root(tree->store);
 
-  tx->root = urkel_store_get_root(tx->tree->store);
+  if (root != NULL) {
+    urkel_node_destroy(tx->root, 1);
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
+    tx->root = root;
+  } else {
+    urkel_errno = URKEL_ENOTFOUND;
+  }
+
+  urkel_rwlock_wrunlock(tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 }
 
-- 
2.43.0


From 89c6992f981c04383140d41f79d628c3095ee6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 08/21] fix: take the database lock before inspecting the
 database

The key and the file index were read (or the key was created) before the
lock was held: two processes opening the same database could end up with
different keys, or recover with a stale file index.
---
 src/store.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/store.c b/src/store.c
index 04fb423..dd6ca11 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1074,19 +1074,15 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_init_meta(store))
-    return 0;
-
-  if (!urkel_store_find_index(store, &index))
-    return 0;
-
   if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_recover_state(store,
-                                 &store->state,
-                                 &store->last_meta,
-                                 &index)) {
+  if (!urkel_store_init_meta(store)
+      || !urkel_store_find_index(store, &index)
+      || !urkel_store_recover_state(store,
+                                    &store->state,
+                                    &store->last_meta,
+                                    &index)) {
     urkel_fs_close_lock(store->lock_fd);
     return 0;
   }
-- 
2.43.0


From 1941cecd599d28c5ac7cd19605957e35b94a44fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 09/21] fix: account for the path separator in the maximum
 prefix length

A separator and a 10 digit file name follow the prefix. A prefix of 1014
bytes overflowed the path buffers by one byte.
---
 src/store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index dd6ca11..45cd21b 100644
--- a/src/store.c
+++ b/src/store.c
@@ -900,7 +900,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 
   len = strlen(path);
 
-  if (len + 10 > URKEL_PATH_MAX) {
+  if (len + 11 > URKEL_PATH_MAX) {
     free(path);
     return 0;
   }
@@ -1161,7 +1161,7 @@ urkel_store_destroy(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
@@ -1224,7 +1224,7 @@ urkel_store__corrupt(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
-- 
2.43.0


From a378b97f1e3f75b83112cff9f1af188872b49bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 10/21] fix: do not delete a data file which could not be read

Recovery treated a failure to open or read a file (e.g. EMFILE, EIO) as
the absence of a commit, and unlinked the file along with its commits.
---
 src/store.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index 45cd21b..9201073 100644
--- a/src/store.c
+++ b/src/store.c
@@ -984,13 +984,13 @@ urkel_store_find_meta(const data_store_t *store,
                       const char *path,
                       unsigned char *slab) {
   urkel_stat_t st;
-  int ret = 0;
+  int ret = -1;
   int fd;
 
   fd = urkel_fs_open(path, URKEL_O_RDWR | URKEL_O_RANDOM, 0);
 
   if (fd == -1)
-    return 0;
+    return -1;
 
   if (!urkel_fs_fstat(fd, &st))
     goto done;
@@ -1021,6 +1021,8 @@ urkel_store_find_meta(const data_store_t *store,
     }
   }
 
+  /* The entire file was searched. */
+  ret = 0;
 done:
   urkel_fs_close(fd);
   return ret;
@@ -1040,9 +1042,16 @@ urkel_store_recover_state(const data_store_t *store,
   urkel_meta_init(meta);
 
   while (*index >= 1) {
+    int found;
+
     urkel_store_path_index(store, path, *index);
 
-    if (urkel_store_find_meta(store, meta, &off, path, slab)) {
+    found = urkel_store_find_meta(store, meta, &off, path, slab);
+
+    if (found < 0)
+      goto fail;
+
+    if (found) {
       *state = *meta;
       state->meta_ptr.index = *index;
       state->meta_ptr.pos = off;
-- 
2.43.0


From 3cc236e340d41cead1fd8bf35bbed49a47846128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 11/21] fix: keep meta roots aligned when the padding rolls
 over

If the padding did not fit in the current file it was written at the
start of the next one, and the meta root which followed it was unaligned:
recovery only looks at aligned offsets, and lost the commit.
---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 9201073..654b009 100644
--- a/src/store.c
+++ b/src/store.c
@@ -761,7 +761,8 @@ urkel_store_write_meta(data_store_t *store,
 
   urkel_node_to_hash(root, &state->root_node);
 
-  if (slab->file_pos % META_SIZE) {
+  /* The padding may itself roll over to a new file. */
+  while (slab->file_pos % META_SIZE) {
     size_t size = META_SIZE - (slab->file_pos % META_SIZE);
 
     urkel_slab_write(slab, padding, size);
-- 
2.43.0


From 1e9071e784d5acfc3351c6404e1e5548fb5466ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 12/21] fix: make the iterator stack large enough for committed
 trees

A committed tree needs two stack entries per level: iterating over a tree
deeper than 128 levels aborted the process.
---
 src/tree.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 22086c7..dba03e8 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -15,6 +15,13 @@
 #include "store.h"
 #include "util.h"
 
+/*
+ * Defines
+ */
+
+/* Every level may hold a hash node as well as its resolved node. */
+#define URKEL_ITER_DEPTH (2 * (URKEL_KEY_BITS + 1))
+
 /*
  * Structs
  */
@@ -45,7 +52,7 @@ typedef struct urkel_iter_s {
   urkel_mutex_t *lock;
   urkel_node_t *root;
   urkel_node_t *node;
-  urkel_state_t stack[URKEL_KEY_BITS];
+  urkel_state_t stack[URKEL_ITER_DEPTH];
   size_t stack_len;
   int done;
   int transient;
@@ -1151,7 +1158,7 @@ urkel_iter_push(tree_iter_t *iter,
                 int resolved) {
   urkel_state_t *state;
 
-  CHECK(iter->stack_len < URKEL_KEY_BITS);
+  CHECK(iter->stack_len < URKEL_ITER_DEPTH);
 
   state = &iter->stack[iter->stack_len++];
 
-- 
2.43.0


From d22472bd71a22a4eff91b45242a642ba0130a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 13/21] fix: allow concurrent readers to open the same file

Two readers which both missed the file map aborted the process when the
second of them inserted its file.
---
 src/store.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/store.c b/src/store.c
index 654b009..c708e0f 100644
--- a/src/store.c
+++ b/src/store.c
@@ -258,8 +258,10 @@ fail:
   return file;
 }
 
-static void
+static urkel_file_t *
 urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
+  urkel_file_t *item;
+
   urkel_rwlock_wrlock(fm->lock);
 
   if (file->index >= fm->len) {
@@ -273,12 +275,22 @@ urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
       fm->items[fm->len++] = NULL;
   }
 
-  CHECK(!fm->items[file->index]);
+  item = fm->items[file->index];
 
-  fm->items[file->index] = file;
-  fm->size += 1;
+  if (item == NULL) {
+    fm->items[file->index] = file;
+    fm->size += 1;
+  }
 
   urkel_rwlock_wrunlock(fm->lock);
+
+  /* Another reader may have opened the file in the meantime. */
+  if (item != NULL) {
+    urkel_file_close(file);
+    return item;
+  }
+
+  return file;
 }
 
 static urkel_file_t *
@@ -485,9 +497,7 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
     urkel_store_evict(store);
   }
 
-  urkel_filemap_insert(&store->files, file);
-
-  return file;
+  return urkel_filemap_insert(&store->files, file);
 }
 
 static void
-- 
2.43.0


From df116719d46908c2d263d5a477796609889d1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/21] fix: remove the lock file while the lock is held

The lock file was removed after the lock was released: it could be removed
from under a process which had just acquired it, and a third process could
then lock a new file and open the database as well.
---
 src/io.c    | 10 ++++++++++
 src/store.c |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0741548..8776b0a 100644
--- a/src/io.c
+++ b/src/io.c
@@ -56,6 +56,7 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode) {
   int flags = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
   int fd = urkel_fs_open(name, flags, mode);
+  urkel_stat_t st, cur;
 
   if (fd == -1)
     return -1;
@@ -65,6 +66,15 @@ urkel_fs_open_lock(const char *name, uint32_t mode) {
     return -1;
   }
 
+  /* The previous owner may have removed the file. */
+  if (!urkel_fs_fstat(fd, &st)
+      || !urkel_fs_stat(name, &cur)
+      || st.st_dev != cur.st_dev
+      || st.st_ino != cur.st_ino) {
+    urkel_fs_close_lock(fd);
+    return -1;
+  }
+
   return fd;
 }
 
diff --git a/src/store.c b/src/store.c
index c708e0f..0ad6fda 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1142,8 +1142,8 @@ urkel_store_clear(data_store_t *store) {
   urkel_filemap_clear(&store->files);
   urkel_cache_clear(&store->cache);
   urkel_rng_clear(&store->rng);
-  urkel_fs_close_lock(store->lock_fd);
   urkel_fs_unlink(path);
+  urkel_fs_close_lock(store->lock_fd);
 
   memset(store, 0, sizeof(*store));
 }
@@ -1216,8 +1216,8 @@ fail:
   if (fd != -1) {
     memcpy(path + path_len, "lock", 5);
 
-    urkel_fs_close_lock(fd);
     urkel_fs_unlink(path);
+    urkel_fs_close_lock(fd);
   }
 
   if (ret)
-- 
2.43.0


From 3da2b00da91a8c6ea6e630627e46d5cc0df69797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 15/21] fix: reject oversized prefixes when reading nodes

A corrupt prefix size aborted the process instead of being reported.
---
 src/nodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes.c b/src/nodes.c
index c428df7..f59a25b 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -648,6 +648,9 @@ urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {
           len -= 1;
         }
 
+        if (size > URKEL_KEY_BITS)
+          return 0;
+
         bytes = (size + 7) / 8;
 
         if (len < bytes)
-- 
2.43.0


From 327e40494a61b388c52290cdde0b0da64c46bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 16/21] fix: do not duplicate data when a write is retried

A partial write, or a mapping failure after a complete write, was reported
as an error while the data remained in the file: a later commit appended
it once more, and every offset recorded since then was wrong.
---
 src/io_posix.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index fd06cb7..7bf2ee5 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1165,8 +1165,11 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   }
 #endif
 
-  if (!urkel_fs_write(file->fd, src, len))
+  if (!urkel_fs_write(file->fd, src, len)) {
+    /* Remove whatever was written: a retry must land on the same offset. */
+    urkel_fs_ftruncate(file->fd, file->size);
     return 0;
+  }
 
   file->size += len;
 
@@ -1174,10 +1177,9 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   if (file->mapped) {
     void *base = mmap(NULL, file->size, PROT_READ, MAP_SHARED, file->fd, 0);
 
-    if (base == MAP_FAILED)
-      return 0;
-
-    file->base = base;
+    /* The data is written: fall back to pread(2). */
+    if (base != MAP_FAILED)
+      file->base = base;
   }
 #endif
 
-- 
2.43.0


From bcfec5b3910a030e34fe27eb88eb4dfa6580a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 17/21] fix: report corrupt trees which are deeper than the key

The key was read out of bounds, or the process was aborted, when the
prefixes of a corrupt tree added up to 256 bits or more.
---
 src/tree.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index dba03e8..5697ac1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -108,6 +108,11 @@ urkel_tree_get(tree_db_t *tree,
 
       depth += prefix->size;
 
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return 0;
+      }
+
       bit = urkel_get_bit(key, depth);
       node = urkel_node_get(node, bit);
 
@@ -180,6 +185,11 @@ urkel_tree_insert(tree_db_t *tree,
 
       depth += bits;
 
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       bit = urkel_get_bit(key, depth);
 
       if (bits != prefix->size) {
@@ -242,6 +252,11 @@ urkel_tree_insert(tree_db_t *tree,
 
       depth += prefix.size;
 
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       leaf = urkel_node_create_leaf(key, value, size);
       bit = urkel_get_bit(key, depth);
 
@@ -299,6 +314,11 @@ urkel_tree_remove(tree_db_t *tree,
 
       depth += prefix->size;
 
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       bit = urkel_get_bit(key, depth);
       x = urkel_node_get(node, bit ^ 0);
       y = urkel_node_get(node, bit ^ 1);
@@ -422,6 +442,11 @@ urkel_tree_prove(tree_db_t *tree,
 
       depth += prefix->size;
 
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return 0;
+      }
+
       bit = urkel_get_bit(key, depth);
       x = urkel_node_get(node, bit ^ 0);
       y = urkel_node_get(node, bit ^ 1);
@@ -1223,6 +1248,11 @@ urkel_iter_seek(tree_iter_t *iter) {
         if (parent->child >= 1)
           return 1;
 
+        if (depth + ni->prefix.size >= URKEL_KEY_BITS) {
+          urkel_errno = URKEL_ECORRUPTION;
+          return 0;
+        }
+
         parent->child += 1;
 
         if (parent->child)
-- 
2.43.0


From 5a8b2d213fa772b2b92d30c913dee384e870866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 18/21] fix: report an unreadable sibling when removing a key

Removing a key aborted the process if the sibling of the removed leaf
could not be read. Keep the leaf until its sibling has been resolved, so
that the transaction is left as it was on failure.
---
 src/tree.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 5697ac1..4151c22 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -334,7 +334,11 @@ urkel_tree_remove(tree_db_t *tree,
         if (side->type == URKEL_NODE_HASH) {
           side = urkel_store_resolve(tree->store, side);
 
-          CHECK(side != NULL);
+          if (side == NULL) {
+            urkel_node_destroy(z, 0);
+            urkel_errno = URKEL_ECORRUPTION;
+            return NULL;
+          }
 
           resolved = 1;
         }
@@ -343,6 +347,15 @@ urkel_tree_remove(tree_db_t *tree,
           urkel_internal_t *si = &side->u.internal;
           urkel_bits_t pre;
 
+          if (prefix->size + si->prefix.size + 1 > URKEL_KEY_BITS) {
+            if (resolved)
+              urkel_node_destroy(side, 1);
+
+            urkel_node_destroy(z, 0);
+            urkel_errno = URKEL_ECORRUPTION;
+            return NULL;
+          }
+
           urkel_bits_join(&pre, prefix, &si->prefix, bit ^ 1);
 
           out = urkel_node_create_internal(&pre, si->left, si->right, 0);
@@ -353,6 +366,7 @@ urkel_tree_remove(tree_db_t *tree,
         }
 
         urkel_node_destroy(node, 0);
+        urkel_node_destroy(x, 0);
 
         if (resolved)
           urkel_node_destroy(y, 0);
@@ -376,8 +390,7 @@ urkel_tree_remove(tree_db_t *tree,
         return NULL;
       }
 
-      urkel_node_destroy(node, 0);
-
+      /* The caller destroys the leaf once nothing can fail. */
       return urkel_node_create_null();
     }
 
@@ -392,7 +405,7 @@ urkel_tree_remove(tree_db_t *tree,
 
       ret = urkel_tree_remove(tree, rn, key, depth);
 
-      if (ret != NULL)
+      if (ret != NULL && ret->type != URKEL_NODE_NULL)
         urkel_node_destroy(node, 0);
       else
         urkel_node_destroy(rn, 1);
@@ -1057,8 +1070,13 @@ urkel_tx_remove(tree_tx_t *tx, const unsigned char *key) {
 
   root = urkel_tree_remove(tx->tree, tx->root, key, 0);
 
-  if (root != NULL)
+  if (root != NULL) {
+    /* The last leaf was removed. */
+    if (root->type == URKEL_NODE_NULL)
+      urkel_node_destroy(tx->root, 1);
+
     tx->root = root;
+  }
 
   urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
-- 
2.43.0


From 09bc66f2f4cdf25af0c1bdc9503d73aaa20b42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 19/21] fix: create the database key atomically

A process which was killed between creating and writing the key file left
a database which could never be opened again.
---
 src/store.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/store.c b/src/store.c
index 0ad6fda..07a2fae 100644
--- a/src/store.c
+++ b/src/store.c
@@ -931,6 +931,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 static int
 urkel_store_init_meta(data_store_t *store) {
   char path[URKEL_PATH_MAX + 1];
+  char temp[URKEL_PATH_MAX + 1];
 
   urkel_store_path(store, path, "meta");
 
@@ -939,7 +940,13 @@ urkel_store_init_meta(data_store_t *store) {
 
   urkel_random_bytes(store->key, URKEL_HASH_SIZE);
 
-  return urkel_fs_write_file(path, 0640, store->key, URKEL_HASH_SIZE);
+  /* The key must either be complete or not exist at all. */
+  urkel_store_path(store, temp, "meta.tmp");
+
+  if (!urkel_fs_write_file(temp, 0640, store->key, URKEL_HASH_SIZE))
+    return 0;
+
+  return urkel_fs_rename(temp, path);
 }
 
 static int
@@ -1201,7 +1208,9 @@ urkel_store_destroy(const char *prefix) {
   for (i = 0; i < count; i++) {
     const char *name = list[i]->d_name;
 
-    if (urkel_parse_u32(NULL, name) || strcmp(name, "meta") == 0) {
+    if (urkel_parse_u32(NULL, name)
+        || strcmp(name, "meta") == 0
+        || strcmp(name, "meta.tmp") == 0) {
       memcpy(path + path_len, name, strlen(name) + 1);
       urkel_fs_unlink(path);
     }
-- 
2.43.0


From 474a2418ab98b87beb282db094682d157aac1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 20/21] build: accept line comments (URKEL_LINE_COMMENTS)

---
 CMakeLists.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 3f7cf37..610d4b0 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -59,6 +59,7 @@ endif()
 
 option(URKEL_ENABLE_COVERAGE "Enable coverage" OFF)
 option(URKEL_ENABLE_DEBUG "Enable debug build" OFF)
+option(URKEL_LINE_COMMENTS "Accept line comments in the sources" ON)
 
 if(URKEL_WASM)
   set(URKEL_INITIAL_MEMORY "16777216" CACHE STRING "WASM initial memory")
@@ -78,7 +79,7 @@ set(urkel_cflags)
 set(urkel_ldflags)
 
 set(CMAKE_C_STANDARD_REQUIRED ON)
-set(CMAKE_C_EXTENSIONS OFF)
+set(CMAKE_C_EXTENSIONS ${URKEL_LINE_COMMENTS})
 set(CMAKE_C_STANDARD 90)
 
 if(NOT URKEL_WASM)
-- 
2.43.0


From 15bccfe9a38ea33448768823c7e2894bf1ebee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 21/21] fix: keep the directory list when it cannot be grown

---
 src/io_posix.c | 16 ++++++++++++----
 src/io_win.c   |  8 ++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index 7bf2ee5..82e6d8e 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -646,11 +646,15 @@ urkel_fs_scandir(const char *name, urkel_dirent_t ***out, size_t *count) {
       goto fail;
 
     if (i == size) {
+      urkel_dirent_t **items;
+
       size = (size * 3) / 2;
-      list = realloc(list, size * sizeof(urkel_dirent_t *));
+      items = realloc(list, size * sizeof(urkel_dirent_t *));
 
-      if (list == NULL)
+      if (items == NULL)
         goto fail;
+
+      list = items;
     }
 
     item->d_ino = entry.d_ino;
@@ -768,11 +772,15 @@ fail:
       goto fail;
 
     if (i == size) {
+      urkel_dirent_t **items;
+
       size = (size * 3) / 2;
-      list = realloc(list, size * sizeof(urkel_dirent_t *));
+      items = realloc(list, size * sizeof(urkel_dirent_t *));
 
-      if (list == NULL)
+      if (items == NULL)
         goto fail;
+
+      list = items;
     }
 
     item->d_ino = entry->d_ino;
diff --git a/src/io_win.c b/src/io_win.c
index a6dae62..f6236ca 100644
--- a/src/io_win.c
+++ b/src/io_win.c
@@ -418,11 +418,15 @@ urkel_fs_scandir(const char *name, urkel_dirent_t ***out, size_t *count) {
       goto fail;
 
     if (i == size) {
+      urkel_dirent_t **items;
+
       size = (size * 3) / 2;
-      list = realloc(list, size * sizeof(urkel_dirent_t *));
+      items = realloc(list, size * sizeof(urkel_dirent_t *));
 
-      if (list == NULL)
+      if (items == NULL)
         goto fail;
+
+      list = items;
     }
 
     item->d_ino = 0;
-- 
2.43.0

