From f87bbd842398e6fe65ca3f239208ef4aaee5cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 01/29] fix: treat unwritten extents as holes

An extent with ee_len greater than 32768 is an unwritten (preallocated)
extent of ee_len - 32768 blocks whose contents must read as zero. It was
treated as an initialized extent of ee_len blocks, which returned stale
data of the device and misplaced all later blocks of the file.
---
 src/iters/extents.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..5873528 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -39,6 +39,10 @@ struct NodeHeader {
     depth: u16,
 }
 
+/// Maximum number of blocks in an initialized extent. Larger values in
+/// the `ee_len` field indicate an unwritten extent.
+const MAX_INITIALIZED_EXTENT_LEN: u16 = 32768;
+
 /// Returns `(n + 1) * ENTRY_SIZE_IN_BYTES`.
 ///
 /// The maximum value this returns is 786432.
@@ -213,6 +217,14 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
+            // An extent with a length greater than 32768 is an unwritten
+            // (preallocated) extent. Its blocks have not been initialized, so
+            // they must read as zero. Skip the extent so that its blocks are
+            // treated as a hole.
+            if ee_len > MAX_INITIALIZED_EXTENT_LEN {
+                return Ok(None);
+            }
+
             let start_block =
                 u64_from_hilo(u32::from(ee_start_hi), ee_start_low);
 
-- 
2.43.0


From 36a9be15a512b00228d9a69bcc6e4124942ab9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 02/29] fix: treat null indirect block pointers as holes

A zero pointer to an indirect, double indirect or triple indirect block
means that all blocks below it are holes. Reading such a file failed with
a corruption error because block zero was read as an indirect block.
---
 src/iters/file_blocks/block_map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..fed5553 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -191,7 +191,12 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        // If the index of the indirect block is zero, all of the blocks
+        // under it are holes. Leave `block` filled with zeros in that case,
+        // so that the iterator yields a hole for each of those blocks.
+        if block_index != 0 {
+            fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From 778c071a2070fcf0d101182d5dea4945bed5c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 03/29] fix: bound the work of File::seek_to and report its
 errors

Seeking far past the end of a file iterated over every block up to the
new position, which for a large position never finishes. Errors of the
block iterator were dropped while seeking, after which reads either
panicked or returned data of the wrong block.
---
 src/file.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..a9ba46e 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -207,16 +207,21 @@ impl File {
     /// Seeking past the end of the file is allowed.
     pub fn seek_to(&mut self, position: u64) -> Result<(), Ext4Error> {
         // Reset iteration.
-        self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
-        self.block_index = None;
+        let mut file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
 
         // Advance the block iterator by the number of whole blocks in
-        // `position`.
-        let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
-        for _ in 0..num_blocks {
-            self.file_blocks.next();
+        // `position`. If `position` is not within the file this isn't
+        // needed, since no block will be read.
+        if position < self.inode.metadata.size_in_bytes {
+            let num_blocks =
+                position / self.fs.0.superblock.block_size.to_nz_u64();
+            for _ in 0..num_blocks {
+                file_blocks.next().transpose()?;
+            }
         }
 
+        self.file_blocks = file_blocks;
+        self.block_index = None;
         self.position = position;
 
         Ok(())
-- 
2.43.0


From ebee3243ce7b60953607095b107c32a5642c5ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 04/29] fix: do not panic in File::read_bytes after a block
 iterator error

The block iterator yields nothing after it has returned an error, and it
also ends early if the size of a file with a block map is larger than
what the map can address. Reading panicked in both cases. Return an error
for the latter, and let a read after an I/O error start over.
---
 src/file.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index a9ba46e..4ef92e5 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -35,6 +35,9 @@ pub struct File {
     /// If `None`, either the next block needs to be fetched from the
     /// `file_blocks` iterator, or the end of the file has been reached.
     block_index: Option<FsBlockIndex>,
+
+    /// Whether the `file_blocks` iterator has ended with an error.
+    file_blocks_failed: bool,
 }
 
 impl File {
@@ -65,6 +68,7 @@ impl File {
             file_blocks: FileBlocks::new(fs.clone(), &inode)?,
             inode,
             block_index: None,
+            file_blocks_failed: false,
         })
     }
 
@@ -126,10 +130,23 @@ impl File {
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            // After an error the iterator does not yield any more blocks,
+            // so it has to be recreated to try again.
+            if self.file_blocks_failed {
+                self.seek_to(self.position)?;
+            }
+
+            let block_index = match self.file_blocks.next() {
+                Some(Ok(block_index)) => block_index,
+                Some(Err(err)) => {
+                    self.file_blocks_failed = true;
+                    return Err(err);
+                }
+                // Already checked that the position is not at the end of
+                // the file, so the size of the file exceeds the number of
+                // blocks that can be mapped.
+                None => return Err(CorruptKind::TooManyBlocksInFile.into()),
+            };
 
             self.block_index = Some(block_index);
 
@@ -221,6 +238,7 @@ impl File {
         }
 
         self.file_blocks = file_blocks;
+        self.file_blocks_failed = false;
         self.block_index = None;
         self.position = position;
 
-- 
2.43.0


From 42a7af5562b76ecfabb8c63579ee4a8cbdf82cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 05/29] fix: do not panic on an htree node whose count exceeds
 the block

---
 src/dir_block.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..3816f80 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -68,7 +68,7 @@ impl DirBlock<'_> {
         let actual_checksum = if block_type == DirBlockType::Leaf {
             self.calc_leaf_checksum(block)
         } else {
-            self.calc_internal_checksum(block, block_type)
+            self.calc_internal_checksum(block, block_type)?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -105,7 +105,7 @@ impl DirBlock<'_> {
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Result<Checksum, Ext4Error> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -130,12 +130,18 @@ impl DirBlock<'_> {
             .checked_add(usize::from(count).checked_mul(8).unwrap())
             .unwrap();
 
+        // The `count` field has not been verified yet, the entries might
+        // not fit in the block.
+        let entries = block
+            .get(..num_bytes)
+            .ok_or(CorruptKind::DirBlockChecksum(self.dir_inode))?;
+
         let mut checksum = self.checksum_base.clone();
-        checksum.update(&block[..num_bytes]);
+        checksum.update(entries);
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Ok(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From d0923ec654e064e69932c9650b0dfd4e419b6ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 06/29] fix: decode the record length of directory entries
 filling a 64KiB block

---
 src/dir_block.rs |  7 +++++--
 src/dir_entry.rs | 19 +++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index 3816f80..ac1bad1 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -9,6 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
+use crate::dir_entry::DirEntry;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::InodeIndex;
 use crate::util::{read_u16le, read_u32le};
@@ -157,8 +158,10 @@ impl DirBlock<'_> {
 
         // Other internal nodes are identified by the first record
         // having a length equal to the whole block.
-        let first_rec_len = read_u16le(block, 4);
-        if first_rec_len == self.fs.0.superblock.block_size {
+        let block_size = self.fs.0.superblock.block_size;
+        let first_rec_len =
+            DirEntry::decode_rec_len(read_u16le(block, 4), block_size);
+        if first_rec_len == block_size.to_usize() {
             DirBlockType::Internal
         } else {
             DirBlockType::Leaf
diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 36db391..6dd0fef 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -7,6 +7,7 @@
 // except according to those terms.
 
 use crate::Ext4;
+use crate::block_size::BlockSize;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::file_type::FileType;
 use crate::format::{BytesDisplay, format_bytes_debug};
@@ -221,6 +222,18 @@ pub struct DirEntry {
 }
 
 impl DirEntry {
+    /// Get the actual record length from the on-disk `rec_len` field.
+    ///
+    /// A record that fills a whole 64KiB block has a length that doesn't
+    /// fit in the field, it is stored as either `0xffff` or zero.
+    pub(crate) fn decode_rec_len(rec_len: u16, block_size: BlockSize) -> usize {
+        if block_size == 65_536 && (rec_len == 0xffff || rec_len == 0) {
+            block_size.to_usize()
+        } else {
+            usize::from(rec_len)
+        }
+    }
+
     /// Read a `DirEntry` from a byte slice.
     ///
     /// If no error occurs, this returns `(Option<DirEntry>, usize)`.
@@ -256,8 +269,10 @@ impl DirEntry {
         let points_to_inode = read_u32le(bytes, 0);
 
         // Get the full size of the entry.
-        let rec_len = read_u16le(bytes, 4);
-        let rec_len = usize::from(rec_len);
+        let rec_len = Self::decode_rec_len(
+            read_u16le(bytes, 4),
+            fs.0.superblock.block_size,
+        );
 
         // Check that the rec_len is somewhat reasonable. Too small a
         // value could indicate the wrong data is being read. And
-- 
2.43.0


From f44e1086f8ce353a58c5bd4c8cfdb0b0915ae9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 07/29] fix: honour the unsigned directory hash flag and the
 reserved hash value

---
 src/dir_entry_hash.rs | 83 ++++++++++++++++++++++++++++++++++++++-----
 src/dir_htree.rs      |  6 +++-
 src/lib.rs            |  6 ++++
 3 files changed, 86 insertions(+), 9 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 96710f5..f3236e2 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -34,9 +34,43 @@
 
 use crate::dir_entry::DirEntryName;
 use crate::error::{Ext4Error, IncompatibleKind};
+use crate::util::read_u32le;
 use core::mem;
 use core::num::Wrapping;
 
+/// Signedness of the bytes of a name that is hashed.
+///
+/// This is the signedness of `char` on the system that created the
+/// filesystem. It makes a difference for non-ASCII names.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub(crate) enum CharSign {
+    /// Bytes are sign-extended.
+    Signed,
+
+    /// Bytes are zero-extended.
+    Unsigned,
+}
+
+impl CharSign {
+    /// Get the signedness from the raw superblock data.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the length of `bytes` is less than
+    /// [`Superblock::SIZE_IN_BYTES_ON_DISK`].
+    ///
+    /// [`Superblock::SIZE_IN_BYTES_ON_DISK`]: crate::superblock::Superblock::SIZE_IN_BYTES_ON_DISK
+    pub(crate) fn from_superblock_bytes(bytes: &[u8]) -> Self {
+        let s_flags = read_u32le(bytes, 0x160);
+        let unsigned_directory_hash = 0x2;
+        if s_flags & unsigned_directory_hash != 0 {
+            Self::Unsigned
+        } else {
+            Self::Signed
+        }
+    }
+}
+
 /// Directory entry hashing algorithm.
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub(crate) enum HashAlg {
@@ -62,15 +96,27 @@ impl HashAlg {
         }
     }
 
+    /// Hash `name` using the specified algorithm, with the bytes of the
+    /// name treated as signed.
+    ///
+    /// See [`Self::hash_with_char_sign`].
+    #[cfg(test)]
+    pub(crate) fn hash(&self, name: DirEntryName<'_>, seed: &[u32; 4]) -> u32 {
+        self.hash_with_char_sign(name, seed, CharSign::Signed)
+    }
+
     /// Hash `name` using the specified algorithm.
     ///
     /// The `seed` value comes from the `s_hash_seed` field of the
     /// superblock. If the `seed` is all zeroes, it's replaced with a
     /// standard default seed.
-    pub(crate) fn hash(
+    ///
+    /// The `char_sign` comes from the `s_flags` field of the superblock.
+    pub(crate) fn hash_with_char_sign(
         &self,
         name: DirEntryName<'_>,
         mut seed: &[u32; 4],
+        char_sign: CharSign,
     ) -> u32 {
         // Replace all-zero seed with a standard default seed.
         if seed == &[0; 4] {
@@ -90,7 +136,8 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<8>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp =
+                        create_hash_block_with_char_sign(chunk, char_sign);
                     md4_half(&mut state, &inp);
                 }
 
@@ -101,7 +148,8 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<4>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp =
+                        create_hash_block_with_char_sign(chunk, char_sign);
                     tea(&mut state, &inp);
                 }
 
@@ -109,8 +157,14 @@ impl HashAlg {
             }
         };
 
-        // Finalize the hash.
-        hash & !1
+        // Finalize the hash. The largest value is reserved as an
+        // end-of-file marker, so the next smaller one is used instead.
+        let hash = hash & !1;
+        if hash == 0xffff_fffe {
+            0xffff_fffc
+        } else {
+            hash
+        }
     }
 }
 
@@ -213,8 +267,18 @@ fn sign_extend_byte_to_u32(byte: u8) -> u32 {
     sbyte as u32
 }
 
+/// Create the 32-byte block of data that will be hashed, with the bytes
+/// treated as signed.
+#[cfg(test)]
+fn create_hash_block<const N: usize>(src: &[u8]) -> HashBlock<N> {
+    create_hash_block_with_char_sign(src, CharSign::Signed)
+}
+
 /// Create the 32-byte block of data that will be hashed.
-fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
+fn create_hash_block_with_char_sign<const N: usize>(
+    mut src: &[u8],
+    char_sign: CharSign,
+) -> HashBlock<N> {
     let mut dst = [Wu32::default(); N];
 
     // Get padding value. If `src` is smaller than the block size (4 * N
@@ -228,8 +292,11 @@ fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
         // Process up to four bytes of `src`.
         for _ in 0..4 {
             if let Some(src_byte) = src.first() {
-                // Sign extend the byte into a `u32`.
-                let src_u32 = sign_extend_byte_to_u32(*src_byte);
+                // Extend the byte into a `u32`.
+                let src_u32 = match char_sign {
+                    CharSign::Signed => sign_extend_byte_to_u32(*src_byte),
+                    CharSign::Unsigned => u32::from(*src_byte),
+                };
                 elem = src_u32.wrapping_add(elem << 8);
 
                 src = &src[1..];
diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..d51b3f8 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -307,7 +307,11 @@ fn find_leaf_node(
     // Get the node structure from the root block.
     let root_node = InternalNode::from_root_block(block, inode.index)?;
 
-    let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
+    let hash = hash_alg.hash_with_char_sign(
+        name,
+        &fs.0.superblock.htree_hash_seed,
+        fs.0.htree_hash_char_sign,
+    );
     let mut child_block_relative = root_node
         .lookup_block_by_hash(hash)
         .ok_or(CorruptKind::DirEntry(inode.index))?;
diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..ddf1f99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -148,6 +148,7 @@ use block_group::BlockGroupDescriptor;
 use block_index::FsBlockIndex;
 use core::cell::RefCell;
 use core::fmt::{self, Debug, Formatter};
+use dir_entry_hash::CharSign;
 use error::CorruptKind;
 use features::ReadOnlyCompatibleFeatures;
 use inode::{Inode, InodeIndex};
@@ -171,6 +172,10 @@ pub use uuid::Uuid;
 
 struct Ext4Inner {
     superblock: Superblock,
+
+    /// Signedness of name bytes for directory hashes.
+    htree_hash_char_sign: CharSign,
+
     block_group_descriptors: Vec<BlockGroupDescriptor>,
     journal: Journal,
     block_cache: RefCell<BlockCache>,
@@ -221,6 +226,7 @@ impl Ext4 {
             )?,
             reader: RefCell::new(reader),
             superblock,
+            htree_hash_char_sign: CharSign::from_superblock_bytes(&data),
             // Initialize with an empty journal, because loading the
             // journal requires a valid `Ext4` object.
             journal: Journal::empty(),
-- 
2.43.0


From 525c7f3b53834ce050bb27a870d8607a6d312e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 08/29] fix: follow hash collisions into the next htree block

---
 src/dir_htree.rs | 209 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 135 insertions(+), 74 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index d51b3f8..8eed5a1 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -18,6 +18,7 @@ use crate::iters::extents::Extents;
 use crate::iters::file_blocks::FileBlocks;
 use crate::path::PathBuf;
 use crate::util::{read_u16le, read_u32le, usize_from_u32};
+use alloc::collections::BTreeSet;
 use alloc::rc::Rc;
 use alloc::vec;
 
@@ -152,12 +153,19 @@ impl<'a> InternalNode<'a> {
         self.entries.len() / Self::ENTRY_SIZE
     }
 
-    /// Perform a binary search to find the child block index for the
-    /// `lookup_hash`.
+    /// Find the child block index for the `lookup_hash`.
+    #[cfg(test)]
     fn lookup_block_by_hash(
         &self,
         lookup_hash: DirHash,
     ) -> Option<FileBlockIndex> {
+        let index = self.lookup_index_by_hash(lookup_hash)?;
+        Some(self.get_entry(index).1)
+    }
+
+    /// Perform a binary search to find the index of the entry for the
+    /// `lookup_hash`.
+    fn lookup_index_by_hash(&self, lookup_hash: DirHash) -> Option<usize> {
         // Left/right entry index.
         let mut left = 0;
         let mut right = self.num_entries().checked_sub(1)?;
@@ -172,8 +180,7 @@ impl<'a> InternalNode<'a> {
             }
         }
 
-        let index = left.checked_sub(1)?;
-        Some(self.get_entry(index).1)
+        left.checked_sub(1)
     }
 }
 
@@ -285,16 +292,124 @@ fn block_from_file_block(
     }
 }
 
-/// Traverse the htree to find the leaf node that might contain `name`.
+/// Search for a name in an htree.
+struct HtreeSearch<'a> {
+    fs: &'a Ext4,
+    inode: &'a Inode,
+    name: DirEntryName<'a>,
+    hash: DirHash,
+
+    /// Blocks that have been searched already. In a valid tree there's
+    /// only one path to each block.
+    visited: BTreeSet<FileBlockIndex>,
+}
+
+impl HtreeSearch<'_> {
+    /// Search the children of an internal `node`. The children are
+    /// leaves if `levels` is zero, otherwise they are internal nodes
+    /// with one level less below them.
+    fn search_children(
+        &mut self,
+        node: &InternalNode<'_>,
+        levels: u8,
+    ) -> Result<Option<DirEntry>, Ext4Error> {
+        let first = node
+            .lookup_index_by_hash(self.hash)
+            .ok_or(CorruptKind::DirEntry(self.inode.index))?;
+
+        let mut block = vec![0; self.fs.0.superblock.block_size.to_usize()];
+
+        for index in first..node.num_entries() {
+            let (child_hash, child_block) = node.get_entry(index);
+
+            // Names with the same hash can be spread over more than one
+            // block. The low bit isn't part of the hash, it marks the
+            // blocks that continue the previous one.
+            if index != first && child_hash & !1 != self.hash {
+                break;
+            }
+
+            self.read_block(child_block, &mut block)?;
+
+            let entry = if let Some(levels) = levels.checked_sub(1) {
+                let child = InternalNode::from_non_root_block(
+                    &block,
+                    self.inode.index,
+                )?;
+                self.search_children(&child, levels)?
+            } else {
+                self.search_leaf(&block)?
+            };
+            if entry.is_some() {
+                return Ok(entry);
+            }
+        }
+
+        Ok(None)
+    }
+
+    /// Read a directory block. The index is relative to the file.
+    fn read_block(
+        &mut self,
+        block_within_file: FileBlockIndex,
+        block: &mut [u8],
+    ) -> Result<(), Ext4Error> {
+        if !self.visited.insert(block_within_file) {
+            return Err(CorruptKind::DirEntry(self.inode.index).into());
+        }
+
+        let block_index =
+            block_from_file_block(self.fs, self.inode, block_within_file)?;
+        let dir_block = DirBlock {
+            fs: self.fs,
+            dir_inode: self.inode.index,
+            block_index,
+            is_first: false,
+            has_htree: true,
+            checksum_base: self.inode.checksum_base.clone(),
+        };
+        dir_block.read(block)
+    }
+
+    /// Do a linear search through a leaf block for the right entry.
+    fn search_leaf(&self, block: &[u8]) -> Result<Option<DirEntry>, Ext4Error> {
+        // The entry's `path()` method will not be called, so the value of
+        // the base path does not matter.
+        let path = Rc::new(PathBuf::empty());
+
+        let mut offset_within_block = 0;
+        while offset_within_block < block.len() {
+            let (dir_entry, entry_size) = DirEntry::from_bytes(
+                self.fs.clone(),
+                &block[offset_within_block..],
+                self.inode.index,
+                path.clone(),
+            )?;
+            offset_within_block = offset_within_block
+                .checked_add(entry_size.get())
+                .ok_or(CorruptKind::DirEntry(self.inode.index))?;
+            let Some(dir_entry) = dir_entry else {
+                continue;
+            };
+
+            if dir_entry.file_name() == self.name {
+                return Ok(Some(dir_entry));
+            }
+        }
+
+        Ok(None)
+    }
+}
+
+/// Traverse the htree to find the entry for `name`.
 ///
-/// On success, `block` will contain the leaf node's directory block
-/// data.
-fn find_leaf_node(
+/// `block` is the raw block data of the root node.
+fn find_entry(
     fs: &Ext4,
     inode: &Inode,
     name: DirEntryName<'_>,
-    block: &mut [u8],
-) -> Result<(), Ext4Error> {
+    block: &[u8],
+) -> Result<Option<DirEntry>, Ext4Error> {
     // Read the htree's hash type from the root block.
     let hash_alg = HashAlg::from_u8(block[0x1c])?;
 
@@ -312,41 +427,15 @@ fn find_leaf_node(
         &fs.0.superblock.htree_hash_seed,
         fs.0.htree_hash_char_sign,
     );
-    let mut child_block_relative = root_node
-        .lookup_block_by_hash(hash)
-        .ok_or(CorruptKind::DirEntry(inode.index))?;
-
-    // Descend through the tree one level at a time. The first iteration
-    // of the loop goes from the root node to a child. The last
-    // iteration (which may also be the first iteration) will read the
-    // leaf node data into `block`.
-    for level in 0..=depth {
-        // Get the absolute block index and read the block's data.
-        let block_index =
-            block_from_file_block(fs, inode, child_block_relative)?;
-        let dir_block = DirBlock {
-            fs,
-            dir_inode: inode.index,
-            block_index,
-            is_first: false,
-            has_htree: true,
-            checksum_base: inode.checksum_base.clone(),
-        };
-        dir_block.read(block)?;
-
-        // If the block is an internal node, find the next child
-        // block. Otherwise, we've reached a leaf node and there's
-        // nothing more to do.
-        if level != depth {
-            let inner_node =
-                InternalNode::from_non_root_block(block, inode.index)?;
-            child_block_relative = inner_node
-                .lookup_block_by_hash(hash)
-                .ok_or(CorruptKind::DirEntry(inode.index))?;
-        }
-    }
 
-    Ok(())
+    let mut search = HtreeSearch {
+        fs,
+        inode,
+        name,
+        hash,
+        visited: BTreeSet::new(),
+    };
+    search.search_children(&root_node, depth)
 }
 
 /// Find a directory entry via a directory htree. The htree is a tree of
@@ -377,36 +466,8 @@ pub(crate) fn get_dir_entry_via_htree(
         return Ok(entry);
     }
 
-    // Find the leaf node that might contain the entry. This will update
-    // `block` to contain the leaf node's block data.
-    find_leaf_node(fs, inode, name, &mut block)?;
-
-    // The entry's `path()` method will not be called, so the value of
-    // the base path does not matter.
-    let path = Rc::new(PathBuf::empty());
-
-    // Do a linear search through the leaf block for the right entry.
-    let mut offset_within_block = 0;
-    while offset_within_block < block.len() {
-        let (dir_entry, entry_size) = DirEntry::from_bytes(
-            fs.clone(),
-            &block[offset_within_block..],
-            inode.index,
-            path.clone(),
-        )?;
-        offset_within_block = offset_within_block
-            .checked_add(entry_size.get())
-            .ok_or(CorruptKind::DirEntry(inode.index))?;
-        let Some(dir_entry) = dir_entry else {
-            continue;
-        };
-
-        if dir_entry.file_name() == name {
-            return Ok(dir_entry);
-        }
-    }
-
-    Err(Ext4Error::NotFound)
+    // Find the entry in the leaf nodes that might contain it.
+    find_entry(fs, inode, name, &block)?.ok_or(Ext4Error::NotFound)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 712cf3e1bee9b67e8f5ee876a2ad2f800292ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 09/29] fix: allow paths with more than 1000 components

---
 src/resolve.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..2394575 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -55,7 +55,7 @@ pub(crate) enum FollowSymlinks {
 ///
 /// # Panics
 ///
-/// This function panics if path resolution takes over 1000
+/// This function panics if path resolution takes over 100,000
 /// iterations. This should never occur in practice due to other
 /// restrictions, this is just a hedge against unforeseen bugs.
 pub(crate) fn resolve_path(
@@ -72,8 +72,10 @@ pub(crate) fn resolve_path(
     const MAX_PATH_LEN: usize = 4096;
     // Maximum number of iterations. This limit should never be reached
     // in practice, this is just to guard against unknown bugs that
-    // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
+    // could cause an infinite loop. Each iteration handles one component,
+    // and both the initial path and the path after each symlink contain
+    // at most `MAX_PATH_LEN / 2` components.
+    const MAX_ITERATIONS: usize = 100_000;
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
-- 
2.43.0


From 28791cab7c1620bebd6f25761b6e4a825ba72cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 10/29] fix: do not return ciphertext of encrypted files and
 symlinks

Encrypted files and symlinks can be hard-linked into unencrypted
directories. Reading them returned the ciphertext as if it was the
contents; return Ext4Error::Encrypted instead, as for directories.
---
 src/file.rs  | 7 ++++++-
 src/inode.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 4ef92e5..ebbec6d 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -9,7 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::error::{CorruptKind, Ext4Error};
-use crate::inode::Inode;
+use crate::inode::{Inode, InodeFlags};
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
 use crate::path::Path;
@@ -62,6 +62,11 @@ impl File {
         fs: &Ext4,
         inode: Inode,
     ) -> Result<Self, Ext4Error> {
+        // The file's data blocks contain ciphertext.
+        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         Ok(Self {
             fs: fs.clone(),
             position: 0,
diff --git a/src/inode.rs b/src/inode.rs
index 15ad801..c936ecf 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -32,7 +32,8 @@ bitflags! {
         /// File is immutable.
         const IMMUTABLE = 0x10;
 
-        /// Directory is encrypted.
+        /// Directory is encrypted. Also set on encrypted regular files
+        /// and symlinks.
         const DIRECTORY_ENCRYPTED = 0x800;
 
         /// Directory has hashed indexes.
@@ -267,6 +268,11 @@ impl Inode {
             return Err(Ext4Error::NotASymlink);
         }
 
+        // The stored target is ciphertext.
+        if self.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         // An empty symlink target is not allowed.
         if self.metadata.size_in_bytes == 0 {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
-- 
2.43.0


From f44749b3f3e20647da54c28fa413fab622f3cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 11/29] fix: apply journal revocations to earlier transactions

A revocation cancels the replay of the block in its own transaction and
in all earlier ones. Only the own transaction was handled, so a block
that was logged, committed, and revoked by a later transaction was
presented with its stale journaled contents.
---
 src/journal/block_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..9773f63 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -81,7 +81,7 @@ struct BlockMapLoader<'a> {
     /// Revoked blocks in the current transaction. When a commit block
     /// is reached, any keys in `uncommitted_block_map` that are in this
     /// revoked list will be deleted instead of committing them to
-    /// `block_map`.
+    /// `block_map`. They are also removed from `block_map` itself.
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
@@ -235,6 +235,8 @@ impl<'a> BlockMapLoader<'a> {
             // Don't check the `remove` return value, as a revoked block
             // wasn't necessarily reused later in the transaction.
             self.uncommitted_block_map.remove(block_index);
+            // A revocation also applies to all earlier transactions.
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From 6f5d246a06d128e301c6595ef8c4da3d76dc8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 12/29] fix: treat a journal with a start block of zero as
 empty

---
 src/journal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 6fe4346..56eff17 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -48,6 +48,10 @@ impl Journal {
 
         let journal_inode = Inode::read(fs, journal_inode)?;
         let superblock = JournalSuperblock::load(fs, &journal_inode)?;
+        // A start block of zero means that the journal is empty.
+        if superblock.start_block == 0 {
+            return Ok(Self::empty());
+        }
         let block_map = load_block_map(fs, &superblock, &journal_inode)?;
 
         Ok(Self { block_map })
-- 
2.43.0


From 5d1063e5612e52792c052af6521ec9bdaec80faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 13/29] fix: let the journal sequence number wrap around

Transaction IDs are allowed to wrap. The transaction with the maximum
ID was applied, but any later one was dropped.
---
 src/error.rs             | 6 ------
 src/journal/block_map.rs | 6 ++----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index b5efa63..8f32de1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -263,9 +263,6 @@ pub(crate) enum CorruptKind {
     /// Journal revocation block has an invalid table size.
     JournalRevocationBlockInvalidTableSize(usize),
 
-    /// Journal sequence number overflowed.
-    JournalSequenceOverflow,
-
     /// Journal has a truncated descriptor block. Either it is missing a
     /// tag with the `LAST_TAG` flag set, or the final tag does have
     /// that flag set but there are not enough bytes to read the full
@@ -448,9 +445,6 @@ impl Display for CorruptKind {
                     "journal revocation block table size is invalid: {size}"
                 )
             }
-            Self::JournalSequenceOverflow => {
-                write!(f, "journal sequence number overflowed")
-            }
             Self::JournalDescriptorBlockTruncated => {
                 write!(f, "journal descriptor block is truncated")
             }
diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 9773f63..b5a8126 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -244,10 +244,8 @@ impl<'a> BlockMapLoader<'a> {
         self.block_map.extend(self.uncommitted_block_map.iter());
         self.uncommitted_block_map.clear();
 
-        self.sequence = self
-            .sequence
-            .checked_add(1)
-            .ok_or(CorruptKind::JournalSequenceOverflow)?;
+        // Sequence numbers wrap around.
+        self.sequence = self.sequence.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0


From f2ea5a245da13e8871b66a484c1ec10fd1a4cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 14/29] fix: the size field of a journal revocation block
 includes its header

---
 src/journal/block_map.rs        |  4 ++--
 src/journal/revocation_block.rs | 29 ++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index b5a8126..504c2dd 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -18,7 +18,7 @@ use crate::journal::descriptor_block::{
     DescriptorBlockTagIter, validate_descriptor_block_checksum,
 };
 use crate::journal::revocation_block::{
-    read_revocation_block_table, validate_revocation_block_checksum,
+    read_revocation_block, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::JournalSuperblock;
 use crate::util::usize_from_u32;
@@ -218,7 +218,7 @@ impl<'a> BlockMapLoader<'a> {
 
     fn process_revocation_block(&mut self) -> Result<(), Ext4Error> {
         validate_revocation_block_checksum(self.superblock, &self.block)?;
-        read_revocation_block_table(&self.block, &mut self.revoked_blocks)
+        read_revocation_block(&self.block, &mut self.revoked_blocks)
     }
 
     /// Process a commit block.
diff --git a/src/journal/revocation_block.rs b/src/journal/revocation_block.rs
index 23454cc..855be74 100644
--- a/src/journal/revocation_block.rs
+++ b/src/journal/revocation_block.rs
@@ -40,7 +40,34 @@ pub(super) fn validate_revocation_block_checksum(
 /// Read the revoked block indices from a revocation block.
 ///
 /// The entries are appended to the end of `table`.
-pub(super) fn read_revocation_block_table(
+///
+/// On disk, the size field of a revocation block is the number of bytes
+/// used in the whole block, so it includes the block header and the
+/// size field itself.
+pub(super) fn read_revocation_block(
+    block: &[u8],
+    table: &mut Vec<FsBlockIndex>,
+) -> Result<(), Ext4Error> {
+    const SIZE_FIELD_END: usize = JournalBlockHeader::SIZE + size_of::<u32>();
+
+    let num_bytes = usize_from_u32(read_u32be(block, JournalBlockHeader::SIZE));
+    let table_size = num_bytes.checked_sub(SIZE_FIELD_END).ok_or(
+        CorruptKind::JournalRevocationBlockInvalidTableSize(num_bytes),
+    )?;
+    // OK to unwrap: not larger than `num_bytes`, which came from a `u32`.
+    let table_size = u32::try_from(table_size).unwrap();
+
+    let mut block = block.to_vec();
+    block[JournalBlockHeader::SIZE..SIZE_FIELD_END]
+        .copy_from_slice(&table_size.to_be_bytes());
+    read_revocation_block_table(&block, table)
+}
+
+/// Read the revoked block indices from a revocation block in which the
+/// size field holds the size in bytes of the table alone.
+///
+/// The entries are appended to the end of `table`.
+fn read_revocation_block_table(
     block: &[u8],
     table: &mut Vec<FsBlockIndex>,
 ) -> Result<(), Ext4Error> {
-- 
2.43.0


From 58abc171107525d1736c64e232f2bfd07b81244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 15/29] fix: read the journal as a circular log

---
 src/journal/block_map.rs  | 40 +++++++++++++++++++++++++++++----------
 src/journal/superblock.rs | 34 +++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 504c2dd..4fd2458 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -21,11 +21,11 @@ use crate::journal::revocation_block::{
     read_revocation_block, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::JournalSuperblock;
-use crate::util::usize_from_u32;
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
+use core::iter::{Chain, Take};
+use core::ops::Range;
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -62,6 +62,25 @@ pub(super) fn load_block_map(
     Ok(loader.block_map)
 }
 
+/// Get an iterator over the block indices of a range of journal blocks.
+///
+/// An error is returned if any of the blocks that precede the range are
+/// not mapped.
+fn journal_blocks(
+    fs: &Ext4,
+    journal_inode: &Inode,
+    range: Range<u32>,
+) -> Result<Take<FileBlocks>, Ext4Error> {
+    let mut blocks = FileBlocks::new(fs.clone(), journal_inode)?;
+    for _ in 0..range.start {
+        // There are no holes in a journal.
+        if blocks.next().ok_or(CorruptKind::JournalSize)?? == 0 {
+            return Err(CorruptKind::JournalSize.into());
+        }
+    }
+    Ok(blocks.take(range.len()))
+}
+
 /// Private struct to help create a `BlockMap` from the journal. This is
 /// essentially an iterator, although it does not implement the actual
 /// iterator trait.
@@ -84,9 +103,10 @@ struct BlockMapLoader<'a> {
     /// `block_map`. They are also removed from `block_map` itself.
     revoked_blocks: Vec<FsBlockIndex>,
 
-    /// Iterator over blocks in the journal inode. At construction, the
-    /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    /// Iterator over blocks in the journal inode. It goes from the
+    /// journal start block to the end of the log, and then from the
+    /// start of the log up to the journal start block.
+    journal_block_iter: Chain<Take<FileBlocks>, Take<FileBlocks>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -119,12 +139,12 @@ impl<'a> BlockMapLoader<'a> {
         superblock: &'a JournalSuperblock,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
-        // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
-
-        // Skip forward to the start block.
+        // The log is circular.
+        let log = superblock.load_log_range(fs, journal_inode)?;
+        let start = superblock.start_block;
         let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+            journal_blocks(fs, journal_inode, start..log.end)?
+                .chain(journal_blocks(fs, journal_inode, log.start..start)?);
 
         Ok(Self {
             fs,
diff --git a/src/journal/superblock.rs b/src/journal/superblock.rs
index 9037e63..303d02a 100644
--- a/src/journal/superblock.rs
+++ b/src/journal/superblock.rs
@@ -16,6 +16,7 @@ use crate::util::read_u32be;
 use crate::uuid::Uuid;
 use alloc::vec;
 use bitflags::bitflags;
+use core::ops::Range;
 
 /// Size in bytes of the journal superblock. (Note that the underlying
 /// block size may be larger, but only the first 1024 bytes are used.)
@@ -25,6 +26,8 @@ const CHECKSUM_TYPE_CRC32C: u8 = 4;
 
 // Field offsets within the superblock.
 const SUPERBLOCK_BLOCKSIZE_OFFSET: usize = 0xc;
+const SUPERBLOCK_NUM_BLOCKS_OFFSET: usize = 0x10;
+const SUPERBLOCK_FIRST_BLOCK_OFFSET: usize = 0x14;
 const SUPERBLOCK_SEQUENCE_OFFSET: usize = 0x18;
 const SUPERBLOCK_START_OFFSET: usize = 0x1c;
 const SUPERBLOCK_FEATURE_INCOMPAT_OFFSET: usize = 0x28;
@@ -59,6 +62,37 @@ pub(super) struct JournalSuperblock {
 }
 
 impl JournalSuperblock {
+    /// Get the range of journal blocks that hold the log. The log is
+    /// circular: the block after the end of the range is the one at its
+    /// start.
+    ///
+    /// As with `start_block`, the indices are relative to the journal
+    /// superblock.
+    ///
+    /// An error is returned if:
+    /// * The superblock cannot be read from the filesystem.
+    /// * The start block is not within the range.
+    pub(super) fn load_log_range(
+        &self,
+        fs: &Ext4,
+        journal_inode: &Inode,
+    ) -> Result<Range<u32>, Ext4Error> {
+        let block_index = FileBlocks::new(fs.clone(), journal_inode)?
+            .next()
+            .ok_or(CorruptKind::JournalSize)??;
+        let mut block = vec![0; SUPERBLOCK_SIZE];
+        fs.read_from_block(block_index, 0, &mut block)?;
+
+        let s_maxlen = read_u32be(&block, SUPERBLOCK_NUM_BLOCKS_OFFSET);
+        let s_first = read_u32be(&block, SUPERBLOCK_FIRST_BLOCK_OFFSET);
+
+        let range = s_first..s_maxlen;
+        if s_first == 0 || !range.contains(&self.start_block) {
+            return Err(CorruptKind::JournalSize.into());
+        }
+        Ok(range)
+    }
+
     /// Load the journal superblock from the filesystem.
     ///
     /// An error is returned if:
-- 
2.43.0


From 92f98e9a1a956219d4006992a76dc41c51fe53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 16/29] fix: use the journaled superblock and block group
 descriptors

---
 src/block_group.rs | 12 +++++++-----
 src/journal.rs     |  5 +++++
 src/lib.rs         | 49 +++++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..9e2b388 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -6,7 +6,6 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
-use crate::Ext4Read;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
@@ -18,6 +17,9 @@ use alloc::vec::Vec;
 
 pub(crate) type BlockGroupIndex = u32;
 
+/// Function that fills a buffer with the data at an absolute byte offset.
+type ReadFn<'a> = dyn FnMut(u64, &mut [u8]) -> Result<(), Ext4Error> + 'a;
+
 #[derive(Debug)]
 pub(crate) struct BlockGroupDescriptor {
     pub(crate) inode_table_first_block: FsBlockIndex,
@@ -76,7 +78,7 @@ impl BlockGroupDescriptor {
     /// Read a block group descriptor.
     fn read(
         sb: &Superblock,
-        reader: &mut dyn Ext4Read,
+        read: &mut ReadFn<'_>,
         bgd_index: BlockGroupIndex,
     ) -> Result<Self, Ext4Error> {
         // Allocate a byte vec to read the raw data into.
@@ -86,7 +88,7 @@ impl BlockGroupDescriptor {
 
         let start = Self::get_start_byte(sb, bgd_index)
             .ok_or(CorruptKind::BlockGroupDescriptor(bgd_index))?;
-        reader.read(start, &mut data).map_err(Ext4Error::Io)?;
+        read(start, &mut data)?;
 
         let block_group_descriptor = Self::from_bytes(sb, &data);
 
@@ -128,13 +130,13 @@ impl BlockGroupDescriptor {
     /// Read all block group descriptors.
     pub(crate) fn read_all(
         sb: &Superblock,
-        reader: &mut dyn Ext4Read,
+        read: &mut ReadFn<'_>,
     ) -> Result<Vec<Self>, Ext4Error> {
         let mut block_group_descriptors =
             Vec::with_capacity(usize_from_u32(sb.num_block_groups));
 
         for bgd_index in 0..sb.num_block_groups {
-            let bgd = Self::read(sb, reader, bgd_index)?;
+            let bgd = Self::read(sb, read, bgd_index)?;
             block_group_descriptors.push(bgd);
         }
 
diff --git a/src/journal.rs b/src/journal.rs
index 56eff17..75902ce 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -57,6 +57,11 @@ impl Journal {
         Ok(Self { block_map })
     }
 
+    /// True if the journal does not replace any blocks.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.block_map.is_empty()
+    }
+
     /// Map from an absolute block index to a block in the journal.
     ///
     /// If the journal does not contain a replacement for the input
diff --git a/src/lib.rs b/src/lib.rs
index ddf1f99..e7fb44b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -222,7 +222,9 @@ impl Ext4 {
         let mut fs = Self(Rc::new(Ext4Inner {
             block_group_descriptors: BlockGroupDescriptor::read_all(
                 &superblock,
-                &mut *reader,
+                &mut |start_byte, dst| {
+                    reader.read(start_byte, dst).map_err(Ext4Error::Io)
+                },
             )?,
             reader: RefCell::new(reader),
             superblock,
@@ -237,9 +239,54 @@ impl Ext4 {
         let journal = Journal::load(&fs)?;
         Rc::get_mut(&mut fs.0).unwrap().journal = journal;
 
+        if !fs.0.journal.is_empty() {
+            fs.reload_journaled()?;
+        }
+
         Ok(fs)
     }
 
+    /// Reload the superblock and the block group descriptors. The
+    /// journal may contain newer versions of them.
+    fn reload_journaled(&mut self) -> Result<(), Ext4Error> {
+        let block_size = self.0.superblock.block_size;
+        let mut data = vec![0; Superblock::SIZE_IN_BYTES_ON_DISK];
+        if block_size == 1024 {
+            self.read_from_block(1, 0, &mut data)?;
+        } else {
+            self.read_from_block(0, 1024, &mut data)?;
+        }
+
+        let superblock = Superblock::from_bytes(&data)?;
+        if superblock.block_size != block_size {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
+        let block_cache = BlockCache::new(block_size, superblock.blocks_count)?;
+
+        let inner = Rc::get_mut(&mut self.0).unwrap();
+        inner.superblock = superblock.clone();
+        inner.htree_hash_char_sign = CharSign::from_superblock_bytes(&data);
+        inner.block_cache = RefCell::new(block_cache);
+
+        let block_group_descriptors = BlockGroupDescriptor::read_all(
+            &superblock,
+            &mut |start_byte, dst| {
+                let (block_index, offset_within_block) = (
+                    start_byte / block_size.to_nz_u64(),
+                    start_byte % block_size.to_nz_u64(),
+                );
+                // OK to unwrap: the offset is less than the block size.
+                let offset_within_block =
+                    u32::try_from(offset_within_block).unwrap();
+                self.read_from_block(block_index, offset_within_block, dst)
+            },
+        )?;
+        Rc::get_mut(&mut self.0).unwrap().block_group_descriptors =
+            block_group_descriptors;
+
+        Ok(())
+    }
+
     /// Load an `Ext4` filesystem from the given `path`.
     ///
     /// This reads and validates the superblock and block group
-- 
2.43.0


From ab119454b7ab6de1bfe6ac3a585a639fe79b3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 17/29] fix: do not take empty block cache entries for block 0

---
 src/block_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block_cache.rs b/src/block_cache.rs
index c1b6b2f..38da9a6 100644
--- a/src/block_cache.rs
+++ b/src/block_cache.rs
@@ -103,7 +103,8 @@ impl BlockCache {
 
         let entries = vec![
             CacheEntry {
-                block_index: 0,
+                // Not a valid block, so that empty entries never match.
+                block_index: FsBlockIndex::MAX,
                 data: vec![0; opts.block_size.to_usize()].into_boxed_slice(),
             };
             opts.num_entries
-- 
2.43.0


From 762022f032b0ea038ce3b2476909df5e12ea594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 18/29] fix: accept inodes without the upper half of the
 checksum

---
 src/inode.rs | 60 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index c936ecf..d2f383b 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -138,18 +138,6 @@ impl Inode {
             .into());
         }
 
-        // If metadata checksums are enabled, the inode must be big
-        // enough to include the checksum fields.
-        if ext4.has_metadata_checksums()
-            && data.len() < (Self::I_CHECKSUM_HI_OFFSET + 2)
-        {
-            return Err(CorruptKind::InodeTruncated {
-                inode: index,
-                size: data.len(),
-            }
-            .into());
-        }
-
         let i_mode = read_u16le(data, 0x0);
         let i_uid = read_u16le(data, 0x2);
         let i_size_lo = read_u32le(data, 0x4);
@@ -165,7 +153,11 @@ impl Inode {
         {
             (
                 read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET),
-                read_u16le(data, Self::I_CHECKSUM_HI_OFFSET),
+                if Self::has_checksum_hi(data) {
+                    read_u16le(data, Self::I_CHECKSUM_HI_OFFSET)
+                } else {
+                    0
+                },
             )
         } else {
             // If metadata checksums aren't enabled then these values
@@ -213,6 +205,20 @@ impl Inode {
         ))
     }
 
+    /// Whether the inode has the upper half of the checksum field. If
+    /// not, only the lower 16 bits of the checksum are stored.
+    ///
+    /// The field is past the original 128 bytes of the inode, so it's
+    /// present only if `i_extra_isize` says so.
+    fn has_checksum_hi(data: &[u8]) -> bool {
+        const I_EXTRA_ISIZE_OFFSET: usize = 0x80;
+
+        data.len() >= Self::I_CHECKSUM_HI_OFFSET + 2
+            && I_EXTRA_ISIZE_OFFSET
+                + usize::from(read_u16le(data, I_EXTRA_ISIZE_OFFSET))
+                >= Self::I_CHECKSUM_HI_OFFSET + 2
+    }
+
     /// Read an inode.
     pub(crate) fn read(
         ext4: &Ext4,
@@ -239,19 +245,27 @@ impl Inode {
             // Zero'd field.
             checksum.update_u16_le(0);
 
-            // Up to the i_checksum_hi field.
-            checksum.update(
-                &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
-                    ..Self::I_CHECKSUM_HI_OFFSET],
-            );
+            let actual_checksum = if Self::has_checksum_hi(&data) {
+                // Up to the i_checksum_hi field.
+                checksum.update(
+                    &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
+                        ..Self::I_CHECKSUM_HI_OFFSET],
+                );
 
-            // Zero'd field.
-            checksum.update_u16_le(0);
+                // Zero'd field.
+                checksum.update_u16_le(0);
+
+                // Rest of the inode.
+                checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
 
-            // Rest of the inode.
-            checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+                checksum.finalize()
+            } else {
+                // Rest of the inode.
+                checksum.update(&data[Self::L_I_CHECKSUM_LO_OFFSET + 2..]);
 
-            let actual_checksum = checksum.finalize();
+                // Only the lower 16 bits are stored.
+                checksum.finalize() & 0xffff
+            };
             if actual_checksum != expected_checksum {
                 return Err(CorruptKind::InodeChecksum(inode.index).into());
             }
-- 
2.43.0


From 881d514d5e8498d8cf85e17dfb908fdb37e13aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 19/29] fix: reject block sizes larger than 64KiB

---
 src/superblock.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..6eddb17 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -80,6 +80,12 @@ impl Superblock {
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
             .ok_or(CorruptKind::InvalidBlockSize)?;
 
+        // The largest block size that ext4 supports is 64KiB.
+        const MAX_BLOCK_SIZE: u32 = 65_536;
+        if block_size.to_u32() > MAX_BLOCK_SIZE {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
+
         if s_magic != 0xef53 {
             return Err(CorruptKind::SuperblockMagic.into());
         }
-- 
2.43.0


From 3dce3457bccb224e8ce83b088ed8e047e48b6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 20/29] fix: reject inode sizes smaller than 128 bytes when
 loading

---
 src/superblock.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index 6eddb17..462548b 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -129,6 +129,11 @@ impl Superblock {
             return Err(CorruptKind::InodeSize.into());
         }
 
+        // Inodes must be at least 128 bytes.
+        if s_inode_size < 128 {
+            return Err(CorruptKind::InodeSize.into());
+        }
+
         let journal_inode = if compatible_features
             .contains(CompatibleFeatures::HAS_JOURNAL)
             && incompatible_features.contains(IncompatibleFeatures::RECOVERY)
-- 
2.43.0


From 9751f6eeb99764153c3cd0ce417ba06daf214128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 21/29] fix: reject 64bit block group descriptors smaller than
 64 bytes

---
 src/block_group.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/block_group.rs b/src/block_group.rs
index 9e2b388..3ccba34 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -84,6 +84,15 @@ impl BlockGroupDescriptor {
         // Allocate a byte vec to read the raw data into.
         let block_group_descriptor_size =
             usize::from(sb.block_group_descriptor_size);
+        // The size is stored in the superblock if the `IS_64BIT` feature
+        // is set. In that case it must be at least 64 bytes.
+        if sb
+            .incompatible_features
+            .contains(IncompatibleFeatures::IS_64BIT)
+            && block_group_descriptor_size < 64
+        {
+            return Err(CorruptKind::BlockGroupDescriptor(bgd_index).into());
+        }
         let mut data = vec![0; block_group_descriptor_size];
 
         let start = Self::get_start_byte(sb, bgd_index)
-- 
2.43.0


From 344e17b860246ffe8122fd4889091ad80405e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 22/29] fix: do not allocate for block groups that do not exist

---
 src/block_group.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 3ccba34..ba1fcef 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -11,7 +11,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -141,8 +141,9 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         read: &mut ReadFn<'_>,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // Do not allocate based on `num_block_groups` up front, it may be
+        // far more than what the data contains.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, read, bgd_index)?;
-- 
2.43.0


From 5bc492351263333426262d97b3537b732bf283b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 23/29] fix: reject extent nodes of the wrong depth

---
 src/iters/extents.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 5873528..74630cc 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -246,6 +246,12 @@ impl Extents {
             let child_header =
                 NodeHeader::from_bytes(&child_header, self.inode)?;
 
+            // The depth must decrease by one at each level, otherwise
+            // the tree could contain a cycle.
+            if child_header.depth.checked_add(1) != Some(item.depth) {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
             // The checksum is written in the four bytes directly after
             // the node.
             let checksum_offset = child_header.checksum_offset();
-- 
2.43.0


From 32dd2638c630979d69d7fb2acf4d4b213156c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 24/29] fix: return an error for files that do not fit in
 memory

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e7fb44b..1d2f3a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -421,12 +421,15 @@ impl Ext4 {
     /// Holes are filled with zero.
     ///
     /// Fails with `FileTooLarge` if the size of the file is too large
-    /// to fit in a [`usize`].
+    /// to fit in a [`usize`], or if there is not enough memory for it.
     fn read_inode_file(&self, inode: &Inode) -> Result<Vec<u8>, Ext4Error> {
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
+        dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
         let mut file = File::open_inode(self, inode.clone())?;
-- 
2.43.0


From 5a747b0e320365e6e44411325a169409835df3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 25/29] fix: reject symlink targets that are too long to be a
 path

---
 src/inode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/inode.rs b/src/inode.rs
index d2f383b..b9d0f79 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -292,6 +292,13 @@ impl Inode {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
         }
 
+        // Paths are limited to 4096 bytes. Check the size here so that
+        // no more than that is read.
+        const MAX_SYMLINK_LEN: u64 = 4096;
+        if self.metadata.size_in_bytes > MAX_SYMLINK_LEN {
+            return Err(CorruptKind::SymlinkTarget(self.index).into());
+        }
+
         // Symlink targets of up to 59 bytes are stored inline. Longer
         // targets are stored as regular file data.
         const MAX_INLINE_SYMLINK_LEN: u64 = 59;
-- 
2.43.0


From b1c9a7ae5f9670c6e4cec69e289013c46668e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 26/29] fix: reject extents that are not in order

---
 src/iters/extents.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 74630cc..b94b9c3 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -159,6 +159,10 @@ pub(crate) struct Extents {
     to_visit: Vec<ToVisitItem>,
     checksum_base: Checksum,
     is_done: bool,
+
+    /// First block within the file that is past the end of the previous
+    /// extent.
+    next_block: u64,
 }
 
 impl Extents {
@@ -172,6 +176,7 @@ impl Extents {
             )?],
             checksum_base: inode.checksum_base.clone(),
             is_done: false,
+            next_block: 0,
         })
     }
 
@@ -217,6 +222,17 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
+            // Extents are not empty, and they are in order without
+            // overlapping each other.
+            let len = match ee_len.checked_sub(MAX_INITIALIZED_EXTENT_LEN) {
+                Some(unwritten_len) if unwritten_len != 0 => unwritten_len,
+                _ => ee_len,
+            };
+            if len == 0 || u64::from(ee_block) < self.next_block {
+                return Err(CorruptKind::ExtentBlock(self.inode).into());
+            }
+            self.next_block = u64::from(ee_block).saturating_add(len.into());
+
             // An extent with a length greater than 32768 is an unwritten
             // (preallocated) extent. Its blocks have not been initialized, so
             // they must read as zero. Skip the extent so that its blocks are
@@ -246,6 +262,17 @@ impl Extents {
             let child_header =
                 NodeHeader::from_bytes(&child_header, self.inode)?;
 
+            // Nodes other than the root are not empty. (An empty leaf is
+            // harmless though, so allow it as long as the index entries
+            // are in order.)
+            if child_header.num_entries == 0 {
+                let ei_block = u64::from(read_u32le(entry, 0));
+                if child_header.depth > 0 || ei_block < self.next_block {
+                    return Err(CorruptKind::ExtentBlock(self.inode).into());
+                }
+                self.next_block = ei_block.saturating_add(1);
+            }
+
             // The depth must decrease by one at each level, otherwise
             // the tree could contain a cycle.
             if child_header.depth.checked_add(1) != Some(item.depth) {
-- 
2.43.0


From 38e723780cd4d6e3b231a67c6a76804f5d5d31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 27/29] fix: reject directories larger than the filesystem

---
 src/dir.rs            |  3 ++-
 src/iters/read_dir.rs | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 6fbdc24..f273c19 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -11,7 +11,7 @@ use crate::dir_entry::DirEntryName;
 use crate::dir_htree::get_dir_entry_via_htree;
 use crate::error::Ext4Error;
 use crate::inode::{Inode, InodeFlags};
-use crate::iters::read_dir::ReadDir;
+use crate::iters::read_dir::{ReadDir, check_dir_size};
 use crate::path::PathBuf;
 
 /// Search a directory inode for an entry with the given `name`. If
@@ -29,6 +29,7 @@ pub(crate) fn get_dir_entry_inode_by_name(
     }
 
     if dir_inode.flags.contains(InodeFlags::DIRECTORY_HTREE) {
+        check_dir_size(fs, dir_inode)?;
         let entry = get_dir_entry_via_htree(fs, dir_inode, name)?;
         return Inode::read(fs, entry.inode);
     }
diff --git a/src/iters/read_dir.rs b/src/iters/read_dir.rs
index 9f299f0..0cdb22f 100644
--- a/src/iters/read_dir.rs
+++ b/src/iters/read_dir.rs
@@ -64,6 +64,22 @@ pub struct ReadDir {
     inode: InodeIndex,
 }
 
+/// Check that a directory is not larger than the filesystem that contains
+/// it.
+///
+/// Searching a directory can require visiting each of its blocks, so this
+/// puts a limit on how long that takes for a corrupt directory.
+pub(crate) fn check_dir_size(
+    fs: &Ext4,
+    inode: &Inode,
+) -> Result<(), Ext4Error> {
+    let num_blocks = u64::from(inode.file_size_in_blocks());
+    if num_blocks > fs.0.superblock.blocks_count {
+        return Err(CorruptKind::DirEntry(inode.index).into());
+    }
+    Ok(())
+}
+
 impl ReadDir {
     pub(crate) fn new(
         fs: Ext4,
@@ -76,6 +92,8 @@ impl ReadDir {
             return Err(Ext4Error::Encrypted);
         }
 
+        check_dir_size(&fs, inode)?;
+
         Ok(Self {
             fs: fs.clone(),
             path: Rc::new(path),
-- 
2.43.0


From 1038c9e1c598158a9a89dc823e58be2111376119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 28/29] fix: reject journals larger than the filesystem

---
 src/journal/superblock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/journal/superblock.rs b/src/journal/superblock.rs
index 303d02a..8f88c89 100644
--- a/src/journal/superblock.rs
+++ b/src/journal/superblock.rs
@@ -72,6 +72,7 @@ impl JournalSuperblock {
     /// An error is returned if:
     /// * The superblock cannot be read from the filesystem.
     /// * The start block is not within the range.
+    /// * The journal is larger than the filesystem.
     pub(super) fn load_log_range(
         &self,
         fs: &Ext4,
@@ -90,6 +91,9 @@ impl JournalSuperblock {
         if s_first == 0 || !range.contains(&self.start_block) {
             return Err(CorruptKind::JournalSize.into());
         }
+        if u64::from(s_maxlen) > fs.0.superblock.blocks_count {
+            return Err(CorruptKind::JournalSize.into());
+        }
         Ok(range)
     }
 
-- 
2.43.0


From 0973db6af85142146bcd92626d3e178ad0c30ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 29/29] fix: reject directory records that extend past their
 block

A record whose length points past the end of the block hides all of the
entries behind it, and a name longer than its record overlaps the next
entry. Report both as corruption instead of listing what is left.
---
 src/dir_entry.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 6dd0fef..35dee70 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -290,6 +290,10 @@ impl DirEntry {
         // entries. Return early since the rest of the fields won't be
         // valid.
         let Some(points_to_inode) = InodeIndex::new(points_to_inode) else {
+            // The record must not extend past the end of the block.
+            if rec_len.get() > bytes.len() {
+                return Err(CorruptKind::DirEntry(inode).into());
+            }
             return Ok((None, rec_len));
         };
 
@@ -308,6 +312,17 @@ impl DirEntry {
             .get(NAME_OFFSET..name_end)
             .ok_or(CorruptKind::DirEntryNameTooLarge(inode, name_len))?;
 
+        // The name must not extend past the end of the record, and the
+        // record must not extend past the end of the block.
+        if name_end > rec_len.get() {
+            return Err(
+                CorruptKind::DirEntryNameTooLarge(inode, name_len).into()
+            );
+        }
+        if rec_len.get() > bytes.len() {
+            return Err(CorruptKind::DirEntry(inode).into());
+        }
+
         // Note: this value is only valid if `FILE_TYPE_IN_DIR_ENTRY` is
         // in the incompatible features set. That requirement is checked
         // when reading the superblock.
-- 
2.43.0

