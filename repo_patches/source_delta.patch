From ae4ad02ef9e99040f866efca5cc921b2913c1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 01/22] fix: never hand out a descriptor number occupied by a
 renumbered descriptor

---
 stable-fs/src/runtime/fd.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..bcc097a 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -82,12 +82,19 @@ impl FdTable {
 
     // Open a new file descriptor.
     pub fn open(&mut self, entry: FdEntry) -> Fd {
-        let fd = match self.free_fds.pop() {
-            Some(fd) => fd,
-            None => {
-                let fd = self.next_fd;
-                self.next_fd += 1;
-                fd
+        let fd = loop {
+            let fd = match self.free_fds.pop() {
+                Some(fd) => fd,
+                None => {
+                    let fd = self.next_fd;
+                    self.next_fd += 1;
+                    fd
+                }
+            };
+
+            // the number can be occupied already by a renumbered descriptor
+            if !self.table.contains_key(&fd) {
+                break fd;
             }
         };
 
-- 
2.43.0


From d2fea5a3a37e5a9d5b02ce3b6df2897191eaef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 02/22] fix: renumber rejects a closed source and the root
 descriptor as destination

---
 stable-fs/src/runtime/fd.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index bcc097a..b2a2742 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -106,10 +106,19 @@ impl FdTable {
     // Copy a file descriptor to a new number, the source descriptor is closed in the process.
     // If the destination descriptor is busy, it is closed in the process.
     pub fn renumber(&mut self, src: Fd, dst: Fd) -> Result<(), Error> {
+        if !self.table.contains_key(&src) {
+            return Err(Error::BadFileDescriptor);
+        }
+
         if src == dst {
             return Ok(());
         }
 
+        // the root descriptor always stays open and cannot be replaced
+        if dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         // cannot do renumbering between a file and a folder
         let src_entry: Option<&FdEntry> = self.table.get(&src);
         let dst_entry: Option<&FdEntry> = self.table.get(&dst);
-- 
2.43.0


From 311ccee44866b72b5c38e25074007685be8c1b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 03/22] fix: refuse a directory hard link before anything is
 changed

---
 stable-fs/src/runtime/structure_helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..dde333c 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -122,6 +122,11 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
@@ -161,11 +166,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From b3d680c0713e2c12863f516aaf2d5ba3a90458c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 04/22] fix: release the storage of a file replaced by rename
 or hard link

---
 stable-fs/src/runtime/structure_helpers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index dde333c..5013129 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -148,7 +148,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (removed_node, removed_metadata) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -157,6 +157,11 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            // the last link is gone, release the storage of the replaced entry
+            if removed_metadata.link_count == 0 {
+                storage.rm_file(removed_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
-- 
2.43.0


From a451d00eb489518f202072579ce3a0d91cb47c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 05/22] fix: refuse to rename a mounted file before the new
 link is created

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 5013129..44922c6 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -127,6 +127,11 @@ pub fn create_hard_link(
         return Err(Error::OperationNotPermitted);
     }
 
+    // a mounted file cannot be unlinked from its old name, refuse before the new name is created
+    if is_renaming && storage.is_mounted(src_node) {
+        return Err(Error::TextFileBusy);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
-- 
2.43.0


From 547655797b729e29fdef0e53237c545efd7ba988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 06/22] fix: rename or hard link onto the same file must not
 lose its entry

---
 stable-fs/src/fs.rs                        | 19 +++++++++++++++++++
 stable-fs/src/runtime/structure_helpers.rs |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..9b7ba3f 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -871,6 +871,25 @@ impl FileSystem {
         let src_dir = self.get_dir(old_fd)?;
         let dst_dir = self.get_dir(new_fd)?;
 
+        let src_node = find_node(
+            src_dir.node,
+            old_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        )?;
+
+        let dst_node = find_node(
+            dst_dir.node,
+            new_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        );
+
+        // renaming a file onto itself (or another link of the same file) changes nothing
+        if dst_node == Ok(src_node) {
+            return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 44922c6..08351e7 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -134,6 +134,8 @@ pub fn create_hard_link(
 
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
+        // both names refer to the same file already, there is nothing to do
+        Ok(dst_node) if dst_node == src_node => return Ok(()),
         Ok(dst_node) => {
             let dst_meta = storage.get_metadata(dst_node)?;
 
-- 
2.43.0


From c192e13c0256dbe1adb8f6ae70adf45919e316cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 07/22] fix: reject an invalid name before a part of the path
 is created

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 08351e7..84bc9a6 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -253,6 +253,11 @@ pub fn create_path(
 ) -> Result<(Node, String), Error> {
     let (parts, _must_be_dir) = get_path_parts(path)?;
 
+    // all names must be valid before anything is created
+    for part in &parts {
+        FileName::new(part.as_bytes())?;
+    }
+
     let mut parent_node = parent_node;
     let mut cur_node = parent_node;
 
-- 
2.43.0


From 73aa46252ea0c570b3c8b4985bdebcdbaa121012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 08/22] fix: a path that leads to the starting directory cannot
 be removed, renamed or linked

---
 stable-fs/src/runtime/structure_helpers.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 84bc9a6..1e2ca84 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -120,6 +120,12 @@ pub fn create_hard_link(
 ) -> Result<(), Error> {
     // Get the node and metadata, the node must exist in the source folder.
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
+
+    // the source path leads to the starting directory itself, there is no entry to link
+    if get_path_parts(src_path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
     let mut metadata = storage.get_metadata(src_node)?;
 
     // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
@@ -409,6 +415,11 @@ pub fn rm_dir_entry(
 ) -> Result<(Node, Metadata), Error> {
     let find_result = find_node_with_index(parent_dir_node, path, storage)?;
 
+    // the path leads to the starting directory itself, there is no entry to remove
+    if get_path_parts(path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
     let removed_dir_entry_node = find_result.node;
 
     // remove node from name cache
-- 
2.43.0


From 5fd22ab8f83c8a59a4492f84ecab0f73303a9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 09/22] fix: a folder cannot be renamed into itself or its
 subfolder

---
 stable-fs/src/runtime/structure_helpers.rs | 46 ++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 1e2ca84..6b10edf 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,6 +106,45 @@ pub fn find_node(
     }
 }
 
+// Check if the path (starting from a given folder) leads into the folder `folder_node`, or one of its subfolders.
+fn leads_into_folder(
+    parent_dir_node: Node,
+    path: &str,
+    folder_node: Node,
+    storage: &dyn Storage,
+) -> Result<bool, Error> {
+    // the starting folder itself can be located inside
+    let mut nodes = vec![folder_node];
+
+    while let Some(node) = nodes.pop() {
+        if node == parent_dir_node {
+            return Ok(true);
+        }
+
+        storage.with_direntries(node, Some(0), &mut |_index, entry| {
+            nodes.push(entry.node);
+            true
+        });
+    }
+
+    // otherwise, the path has to go through the folder
+    let mut node = parent_dir_node;
+
+    for part in get_path_parts(path)?.0 {
+        match find_entry_index(node, part.as_bytes(), storage) {
+            Ok(index) => node = storage.get_direntry(node, index)?.node,
+            Err(Error::NoSuchFileOrDirectory) => break,
+            Err(err) => return Err(err),
+        }
+
+        if node == folder_node {
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
 // Create a hard link to an existing node
 #[allow(clippy::too_many_arguments)]
 pub fn create_hard_link(
@@ -133,6 +172,13 @@ pub fn create_hard_link(
         return Err(Error::OperationNotPermitted);
     }
 
+    // a folder cannot be moved into itself
+    if metadata.file_type == FileType::Directory
+        && leads_into_folder(parent_dir_node, new_path, src_node, storage)?
+    {
+        return Err(Error::InvalidArgument);
+    }
+
     // a mounted file cannot be unlinked from its old name, refuse before the new name is created
     if is_renaming && storage.is_mounted(src_node) {
         return Err(Error::TextFileBusy);
-- 
2.43.0


From 8f1af7a24a78109bd25536da7afaf91c8638718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 10/22] fix: shrinking a file to a chunk boundary must keep the
 last retained chunk

---
 stable-fs/src/storage/stable.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..12ab752 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -644,9 +644,13 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -677,8 +681,14 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
         }
 
-- 
2.43.0


From 8ba9075c467080131b35ae3366f22094397ba088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 11/22] fix: a write whose end overflows the file offset is too
 large

---
 stable-fs/src/storage/stable.rs    | 9 +++++----
 stable-fs/src/storage/transient.rs | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 12ab752..49f38aa 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -919,7 +919,11 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
 
-        if offset + buf.len() as FileSize > max_size {
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
+
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
@@ -928,8 +932,6 @@ impl<M: Memory> Storage for StableStorage<M> {
 
             buf.len() as FileSize
         } else {
-            let end = offset + buf.len() as FileSize;
-
             let use_v2 = self.use_v2(&metadata, node);
 
             if use_v2 {
@@ -954,7 +956,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         };
 
-        let end = offset + buf.len() as FileSize;
         if end > metadata.size {
             metadata.size = end;
             self.put_metadata(node, &metadata)?;
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..81b1f03 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -456,7 +456,9 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
 
         if let Some(max_size) = metadata.maximum_size_allowed
             && end > max_size
-- 
2.43.0


From c3a306c94a592e6405804ce10c2a7b5622e9f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 12/22] fix: a file cannot grow above the maximum size
 supported by the file system

---
 stable-fs/src/storage/stable.rs    |  8 ++++----
 stable-fs/src/storage/transient.rs | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 49f38aa..9a6614b 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -608,9 +608,9 @@ impl<M: Memory> StableStorage<M> {
             }
         }
 
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
@@ -923,7 +923,7 @@ impl<M: Memory> Storage for StableStorage<M> {
             .checked_add(buf.len() as FileSize)
             .ok_or(Error::FileTooLarge)?;
 
-        if end > max_size {
+        if end > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 81b1f03..50229ec 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -18,7 +18,7 @@ use crate::{
 
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
-    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX, MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -105,9 +105,9 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
@@ -460,9 +460,9 @@ impl Storage for TransientStorage {
             .checked_add(buf.len() as FileSize)
             .ok_or(Error::FileTooLarge)?;
 
-        if let Some(max_size) = metadata.maximum_size_allowed
-            && end > max_size
-        {
+        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+
+        if end > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
-- 
2.43.0


From d20db1965aa8487300a1346ed79ae8981ad653bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 13/22] fix: a mount refused because of the file size limit
 leaves the node unmounted

---
 stable-fs/src/storage/stable.rs    | 7 +++++--
 stable-fs/src/storage/transient.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 9a6614b..d19f1bc 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1022,8 +1022,11 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         file_meta.size = new_size;
 
-        // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        // update mounted metadata, the node is not mounted, if its new metadata is not valid
+        if let Err(err) = self.put_metadata(node, &file_meta) {
+            self.active_mounts.remove(&node);
+            return Err(err);
+        }
 
         Ok(())
     }
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 50229ec..e94c800 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -357,8 +357,11 @@ impl Storage for TransientStorage {
 
         file_meta.size = new_size;
 
-        // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        // update mounted metadata, the node is not mounted, if its new metadata is not valid
+        if let Err(err) = self.put_metadata(node, &file_meta) {
+            self.active_mounts.remove(&node);
+            return Err(err);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 8d21b4f52d28d9894608e73fa1b1388684ae3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 14/22] fix: a mounted memory stays mounted, when storing it
 into the host file fails

---
 stable-fs/src/storage/stable.rs    | 70 +++++++++++++++++-------------
 stable-fs/src/storage/transient.rs | 66 +++++++++++++++-------------
 2 files changed, 76 insertions(+), 60 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index d19f1bc..30f2176 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1051,32 +1051,37 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
-        let meta = self.get_metadata(node)?;
-        let file_size = meta.size;
+        let result = (|| {
+            let meta = self.get_metadata(node)?;
+            let file_size = meta.size;
 
-        // grow memory if needed
-        grow_memory(memory.as_ref(), file_size);
+            // grow memory if needed
+            grow_memory(memory.as_ref(), file_size);
 
-        let mut remainder = file_size;
+            let mut remainder = file_size;
 
-        let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
+            let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
 
-        let mut offset = 0;
+            let mut offset = 0;
 
-        while remainder > 0 {
-            let to_read = remainder.min(buf.len() as FileSize);
+            while remainder > 0 {
+                let to_read = remainder.min(buf.len() as FileSize);
 
-            self.read(node, offset, &mut buf[..to_read as usize])?;
+                self.read(node, offset, &mut buf[..to_read as usize])?;
 
-            memory.write(offset, &buf[..to_read as usize]);
+                memory.write(offset, &buf[..to_read as usize]);
 
-            offset += to_read;
-            remainder -= to_read;
-        }
+                offset += to_read;
+                remainder -= to_read;
+            }
 
+            Ok(meta)
+        })();
+
+        // the memory is mounted again, even if its initialization has failed
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
-        self.put_metadata(node, &meta)?;
+        self.put_metadata(node, &result?)?;
 
         Ok(())
     }
@@ -1089,34 +1094,37 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
-        // grow memory if needed
-        grow_memory(memory.as_ref(), file_size);
+        let result = (|| {
+            // grow memory if needed
+            grow_memory(memory.as_ref(), file_size);
 
-        let mut remainder = file_size;
+            let mut remainder = file_size;
 
-        let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
+            let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
 
-        let mut offset = 0;
+            let mut offset = 0;
 
-        while remainder > 0 {
-            let to_read = remainder.min(buf.len() as FileSize);
+            while remainder > 0 {
+                let to_read = remainder.min(buf.len() as FileSize);
 
-            // grow memory also for reading
-            grow_memory(memory.as_ref(), offset + to_read);
+                // grow memory also for reading
+                grow_memory(memory.as_ref(), offset + to_read);
 
-            memory.read(offset, &mut buf[..to_read as usize]);
+                memory.read(offset, &mut buf[..to_read as usize]);
 
-            self.write(node, offset, &buf[..to_read as usize])?;
+                self.write(node, offset, &buf[..to_read as usize])?;
 
-            offset += to_read;
-            remainder -= to_read;
-        }
+                offset += to_read;
+                remainder -= to_read;
+            }
 
-        self.put_metadata(node, &meta)?;
+            self.put_metadata(node, &meta)
+        })();
 
+        // the memory is mounted again, even if storing has failed
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
-        Ok(())
+        result
     }
 
     fn set_chunk_size(&mut self, chunk_size: ChunkSize) -> Result<(), Error> {
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index e94c800..2a0d70e 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -386,32 +386,37 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
-        let meta = self.get_metadata(node)?;
-        let file_size = meta.size;
+        let result = (|| {
+            let meta = self.get_metadata(node)?;
+            let file_size = meta.size;
 
-        // grow memory if needed
-        grow_memory(memory.as_ref(), file_size);
+            // grow memory if needed
+            grow_memory(memory.as_ref(), file_size);
 
-        let mut remainder = file_size;
+            let mut remainder = file_size;
 
-        let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
+            let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
 
-        let mut offset = 0;
+            let mut offset = 0;
 
-        while remainder > 0 {
-            let to_read = remainder.min(buf.len() as FileSize);
+            while remainder > 0 {
+                let to_read = remainder.min(buf.len() as FileSize);
 
-            self.read(node, offset, &mut buf[..to_read as usize])?;
+                self.read(node, offset, &mut buf[..to_read as usize])?;
 
-            memory.write(offset, &buf[..to_read as usize]);
+                memory.write(offset, &buf[..to_read as usize]);
 
-            offset += to_read;
-            remainder -= to_read;
-        }
+                offset += to_read;
+                remainder -= to_read;
+            }
+
+            Ok(meta)
+        })();
 
+        // the memory is mounted again, even if its initialization has failed
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
-        self.put_metadata(node, &meta)?;
+        self.put_metadata(node, &result?)?;
 
         Ok(())
     }
@@ -424,31 +429,34 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
-        // grow memory if needed
-        grow_memory(memory.as_ref(), file_size);
+        let result = (|| {
+            // grow memory if needed
+            grow_memory(memory.as_ref(), file_size);
 
-        let mut remainder = file_size;
+            let mut remainder = file_size;
 
-        let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
+            let mut buf = [0u8; WASM_PAGE_SIZE_IN_BYTES as usize];
 
-        let mut offset = 0;
+            let mut offset = 0;
 
-        while remainder > 0 {
-            let to_read = remainder.min(buf.len() as FileSize);
+            while remainder > 0 {
+                let to_read = remainder.min(buf.len() as FileSize);
 
-            memory.read(offset, &mut buf[..to_read as usize]);
+                memory.read(offset, &mut buf[..to_read as usize]);
 
-            self.write(node, offset, &buf[..to_read as usize])?;
+                self.write(node, offset, &buf[..to_read as usize])?;
 
-            offset += to_read;
-            remainder -= to_read;
-        }
+                offset += to_read;
+                remainder -= to_read;
+            }
 
-        self.put_metadata(node, &meta)?;
+            self.put_metadata(node, &meta)
+        })();
 
+        // the memory is mounted again, even if storing has failed
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
-        Ok(())
+        result
     }
 
     fn write(&mut self, node: Node, offset: FileSize, buf: &[u8]) -> Result<FileSize, Error> {
-- 
2.43.0


From 8395cb979c4b26096252d6dfdd5ddb5d99005523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 15/22] fix: a repeated mount must not restore an outdated link
 count

---
 stable-fs/src/storage/stable.rs    | 3 +++
 stable-fs/src/storage/transient.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 30f2176..786ce59 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1012,7 +1012,10 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            // the links could have changed since the previous mount
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 2a0d70e..e959c7d 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -347,7 +347,10 @@ impl Storage for TransientStorage {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            // the links could have changed since the previous mount
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
-- 
2.43.0


From 5839c703a26d6d0edcbdd149e296bcf6932db660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 16/22] fix: the link count of a mounted file cannot change, it
 would be lost on unmount

---
 stable-fs/src/runtime/structure_helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 6b10edf..898d9f4 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -179,8 +179,8 @@ pub fn create_hard_link(
         return Err(Error::InvalidArgument);
     }
 
-    // a mounted file cannot be unlinked from its old name, refuse before the new name is created
-    if is_renaming && storage.is_mounted(src_node) {
+    // the links of a mounted file cannot change, refuse before the new name is created
+    if storage.is_mounted(src_node) {
         return Err(Error::TextFileBusy);
     }
 
-- 
2.43.0


From 664e5a7be4d358f01a8e181470d2e41b47fc9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 17/22] fix: shrinking a transient file discards exactly the
 data above the new size

---
 stable-fs/src/storage/transient.rs | 80 +++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index e959c7d..35af534 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -101,6 +101,47 @@ impl TransientStorage {
         }
     }
 
+    // Delete file chunks above the new file size.
+    fn delete_chunks(&mut self, node: Node, new_size: FileSize) {
+        if self.is_mounted(node) {
+            // for the mounted node we only update file size in the metadata (no need to delete chunks)
+            return;
+        }
+
+        let chunk_size = FILE_CHUNK_SIZE_V1;
+
+        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
+
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
+
+        // delete v1 chunks
+        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
+        for (k, _v) in self.filechunk.range(range) {
+            chunks.push((k.0, k.1));
+        }
+
+        for (nd, idx) in chunks.into_iter() {
+            assert!(nd == node);
+            self.filechunk.remove(&(node, idx));
+        }
+
+        // fill with zeros the last chunk memory above the file size
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
+            self.write_filechunk(
+                node,
+                first_deletable_index - 1,
+                offset,
+                &ZEROES[0..(chunk_size - offset as usize)],
+            );
+        }
+    }
+
     fn validate_metadata_update(
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
@@ -162,14 +203,22 @@ impl Storage for TransientStorage {
             &mut self.metadata
         };
 
+        let mut is_shrinking = false;
+
         if let Some(existing) = meta_storage.get(&node) {
             Self::validate_metadata_update(Some(existing), metadata)?;
+            is_shrinking = metadata.size < existing.size;
         } else {
             Self::validate_metadata_update(None, metadata)?;
         }
 
         meta_storage.insert(node, metadata.clone());
 
+        // if the size was reduced, we need to delete the file chunks above the file size
+        if is_shrinking {
+            self.delete_chunks(node, metadata.size);
+        }
+
         Ok(())
     }
 
@@ -280,36 +329,11 @@ impl Storage for TransientStorage {
     }
 
     fn resize_file(&mut self, node: Node, new_size: FileSize) -> Result<(), Error> {
-        let chunk_size = FILE_CHUNK_SIZE_V1;
-
-        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
-
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
-
-        // delete v1 chunks
-        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
-        for (k, _v) in self.filechunk.range(range) {
-            chunks.push((k.0, k.1));
-        }
+        let mut meta = self.get_metadata(node)?;
 
-        for (nd, idx) in chunks.into_iter() {
-            assert!(nd == node);
-            self.filechunk.remove(&(node, idx));
-        }
+        meta.size = new_size;
 
-        // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
-
-            self.write_filechunk(
-                node,
-                first_deletable_index - 1,
-                offset,
-                &ZEROES[0..(chunk_size - offset as usize)],
-            );
-        }
-
-        Ok(())
+        self.put_metadata(node, &meta)
     }
 
     fn rm_file(&mut self, node: Node) -> Result<(), Error> {
-- 
2.43.0


From 8d05987c11106f6f20fe703347b734421f4a9a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 18/22] fix: the transient storage does not allow to change the
 type of a file

---
 stable-fs/src/storage/transient.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 35af534..1e99c35 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -152,6 +152,13 @@ impl TransientStorage {
             return Err(Error::FileTooLarge);
         }
 
+        // do not allow changing file type
+        if let Some(old_meta) = old_meta
+            && old_meta.file_type != new_meta.file_type
+        {
+            return Err(Error::FunctionNotSupported);
+        }
+
         if let Some(old_meta) = old_meta
             && old_meta.node != new_meta.node
         {
-- 
2.43.0


From ffad1e28474449f2a97345aabb59198f58c03134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 19/22] fix: reading and writing close to the maximum file size

---
 stable-fs/src/storage/chunk_iterator.rs | 4 +++-
 stable-fs/src/storage/ptr_cache.rs      | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..a3f3d85 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -2,6 +2,7 @@ use crate::storage::FileSize;
 use crate::storage::Node;
 use crate::storage::types::FileChunkIndex;
 use crate::storage::types::FileChunkPtr;
+use crate::storage::types::MAX_FILE_CHUNK_COUNT;
 use ic_stable_structures;
 use ic_stable_structures::BTreeMap;
 use ic_stable_structures::Memory;
@@ -28,7 +29,8 @@ impl<'a, M: Memory> ChunkV2Iterator<'a, M> {
         v2_chunk_ptr: &'a mut BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) -> Self {
         let cur_index = (offset / chunk_size) as FileChunkIndex;
-        let last_index_excluded = (last_address / chunk_size + 1) as FileChunkIndex;
+        let last_index_excluded =
+            (last_address / chunk_size + 1).min(MAX_FILE_CHUNK_COUNT as FileSize) as FileChunkIndex;
 
         Self {
             node,
diff --git a/stable-fs/src/storage/ptr_cache.rs b/stable-fs/src/storage/ptr_cache.rs
index 87660d8..f768e72 100644
--- a/stable-fs/src/storage/ptr_cache.rs
+++ b/stable-fs/src/storage/ptr_cache.rs
@@ -48,8 +48,8 @@ impl PtrCache {
         to_index: FileChunkIndex,
         v2_chunk_ptr: &BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) {
-        let to_index = to_index.min(from_index + MAX_CACHE_CHUNKS);
-        let to_index = to_index.max(from_index + MIN_CACHE_CHUNKS);
+        let to_index = to_index.min(from_index.saturating_add(MAX_CACHE_CHUNKS));
+        let to_index = to_index.max(from_index.saturating_add(MIN_CACHE_CHUNKS));
         let to_index = to_index.min(MAX_FILE_CHUNK_COUNT);
 
         if from_index >= to_index {
-- 
2.43.0


From a11c9879f19a4ae26502504288930e8f2fa1e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 20/22] fix: seek must not overflow the cursor position

---
 stable-fs/src/runtime/file.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..8cf84ba 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -50,21 +50,24 @@ impl File {
                 delta as FileSize
             }
             Whence::CUR => {
-                let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
-                } else {
-                    0
-                };
+                let back = if delta < 0 { delta.unsigned_abs() } else { 0 };
                 let fwd = if delta >= 0 { delta as FileSize } else { 0 };
 
                 if self.cursor < back {
                     // seeking before zero position
                     return Err(Error::InvalidArgument);
                 }
-                self.cursor + fwd - back
+
+                self.cursor
+                    .checked_add(fwd)
+                    .ok_or(Error::InvalidArgument)?
+                    - back
             }
             Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
+                if delta > 0 {
+                    return Err(Error::InvalidSeek);
+                }
+                let back: FileSize = delta.unsigned_abs();
                 if back > size {
                     return Err(Error::InvalidSeek);
                 }
-- 
2.43.0


From cd524009821767a81f5a62a7eb891681a78d87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 21/22] fix: removing a transient file always deletes all of
 its chunks

---
 stable-fs/src/storage/transient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 1e99c35..c57ae1b 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -348,7 +348,7 @@ impl Storage for TransientStorage {
             return Err(Error::DeviceOrResourceBusy);
         }
 
-        self.resize_file(node, 0)?;
+        self.delete_chunks(node, 0);
 
         // remove metadata
         self.mounted_meta.remove(&node);
-- 
2.43.0


From d59148470874b6da33385bcb2e6e06e4d48bf052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 22/22] fix: a directory listing resumed at a special entry
 continues with the regular entries

---
 stable-fs/src/storage/stable.rs    | 11 +++++++----
 stable-fs/src/storage/transient.rs | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 786ce59..a7fc92a 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -843,10 +843,13 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let max_index = MAX_FILE_ENTRY_INDEX;
 
-        for en in self
-            .direntry
-            .range((node, initial_index)..(node, max_index))
-        {
+        // the special entries are followed by the first of the regular ones
+        let first_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index.min(max_index),
+        };
+
+        for en in self.direntry.range((node, first_index)..(node, max_index)) {
             let (_node, index) = *en.key();
             let entry = en.value();
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index c57ae1b..2bee1ff 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -613,10 +613,13 @@ impl Storage for TransientStorage {
 
         let max_index = MAX_FILE_ENTRY_INDEX;
 
-        for ((_node, index), entry) in self
-            .direntry
-            .range((node, initial_index)..(node, max_index))
-        {
+        // the special entries are followed by the first of the regular ones
+        let first_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index.min(max_index),
+        };
+
+        for ((_node, index), entry) in self.direntry.range((node, first_index)..(node, max_index)) {
             if !f(index, entry) {
                 return;
             }
-- 
2.43.0

