From f5d13a196b5ea49677a9b4dac8eec9135d96ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 01/17] fix: convert version 0.90 device size and chunk size to
 sectors

---
 src/md/superblock/version_0/superblock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index dbab112..d8e8102 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -126,11 +126,13 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn sectors_per_device(&self) -> SectorCount<u64> {
-        self.sectors_per_device.into()
+        // Version 0.90 records the device size in KiB.
+        SectorCount(u64::from(self.sectors_per_device) * 2)
     }
 
     fn chunk_size(&self) -> SectorCount<u32> {
-        self.chunk_size
+        // Version 0.90 records the chunk size in bytes.
+        SectorCount(self.chunk_size.0 / 512)
     }
 
     fn raid_device_count(&self) -> DeviceCount {
-- 
2.43.0


From b3dd5a64fd8f5f9c7d49597c3fe77a99d332bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 02/17] fix: report a version 0.90 reshape only where the
 superblock records one

---
 src/md/superblock/version_0/superblock.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index d8e8102..e2d8ab2 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -140,7 +140,16 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(self.reshape_status.clone())
+        // The reshape fields are only meaningful from minor version 91 on,
+        // where the new chunk size is recorded in bytes.
+        if self.minor_version < 91 {
+            return None;
+        }
+        let status = self.reshape_status.clone();
+        Some(ReshapeStatus {
+            new_chunk_size: SectorCount(status.new_chunk_size.0 / 512),
+            ..status
+        })
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From a449d5b3805f6b5b77e402a7902cda47c77874b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 03/17] fix: accept the highest regular device role in version
 0.90 superblocks

---
 src/md/superblock/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/superblock/role.rs b/src/md/superblock/role.rs
index 57223cf..ca87173 100644
--- a/src/md/superblock/role.rs
+++ b/src/md/superblock/role.rs
@@ -16,7 +16,7 @@ impl MdDeviceRole {
     }
 
     pub fn is_valid(&self) -> bool {
-        !(Self::MAX_POSITION..Self::JOURNAL).contains(&self.0)
+        !self.is_invalid()
     }
 
     pub fn device_number(&self) -> Option<DeviceNumber> {
-- 
2.43.0


From aacf4a3981119a3d627a50824a68bf4e9a7affff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 04/17] fix: read member sectors relative to the data offset of
 the member

---
 src/md/array.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index a93a272..cdd435a 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -158,10 +158,16 @@ where
                     .ok_or(io::ErrorKind::InvalidInput)?
                     .as_ref()
                     .try_clone()?;
+                let data_offset = device
+                    .superblock
+                    .as_option()
+                    .ok_or(io::ErrorKind::InvalidData)?
+                    .data_offset();
                 let mut reader = BlockDeviceReader::new(device);
                 reader.seek(SeekFrom::Start(
-                    u64::from(sector_number)
-                        .checked_mul(512)
+                    u64::from(data_offset)
+                        .checked_add(u64::from(sector_number))
+                        .and_then(|sector_number| sector_number.checked_mul(512))
                         .ok_or(io::ErrorKind::InvalidInput)?,
                 ))?;
                 reader.read_exact(&mut buf[..512])?;
-- 
2.43.0


From affaaec859d51c32dc8de4563d647c1f382aad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 05/17] fix: do not panic when a buffer longer than a sector is
 given to MdArray::read_block

---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index cdd435a..8a1b01b 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -174,7 +174,7 @@ where
                 Ok(512)
             },
         )?;
-        buf.copy_from_slice(&block);
+        buf[..512].copy_from_slice(&block);
         Ok(512)
     }
 
-- 
2.43.0


From b926e40908be43e9a8b4fe1e03198a6ed61abde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 06/17] fix: do not panic when opening an ext4 filesystem with
 absurd group geometry

---
 src/ext4/fs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3b5321f..35ecfd4 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,8 +30,6 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
         let group_size = usize::from(superblock.group_descriptor_size());
 
         if blocks_per_group == 0
@@ -46,11 +44,15 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
+        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
+            .or(Err(io::ErrorKind::Unsupported))?;
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
-            group_descriptors_block_number * superblock.block_size_bytes(),
+            group_descriptors_block_number
+                .checked_mul(superblock.block_size_bytes())
+                .ok_or(io::ErrorKind::InvalidData)?,
         ))?;
-        let mut group_descriptors = Vec::with_capacity(group_count);
+        let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
-- 
2.43.0


From 45bce4866f29c43ad2f344ff5390b6ba09e50408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 07/17] fix: bound the extra fields of an ext4 inode by its
 buffer

---
 src/ext4/inode/inode.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index d5b5887..ab8f95b 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -55,15 +55,16 @@ impl Inode {
         buffer: impl AsRef<[u8]>,
     ) -> Self {
         let storage = {
-            let source_length = layout::extra_isize::OFFSET
-                + (if buffer.as_ref().len()
+            let source_length = (layout::extra_isize::OFFSET
+                + if buffer.as_ref().len()
                     > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
                 {
                     usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
                 } else {
                     0
                 })
-                .clamp(0, layout::SIZE.unwrap());
+            .min(layout::SIZE.unwrap())
+            .min(buffer.as_ref().len());
 
             let mut storage = [0u8; layout::SIZE.unwrap()];
             storage[..source_length].copy_from_slice(&buffer.as_ref()[..source_length]);
@@ -79,7 +80,7 @@ impl Inode {
                     superblock.checksum_seed(),
                     u32::from(inode_number).to_le_bytes(),
                 ),
-                &buffer.as_ref()[layout::generation::OFFSET..][..layout::generation::SIZE.unwrap()],
+                &storage[layout::generation::OFFSET..][..layout::generation::SIZE.unwrap()],
             ))
         } else {
             None
-- 
2.43.0


From 188728df186d35e286f791b90592595188d31b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 08/17] fix: look for the checksum of an extent block after its
 last possible entry

---
 src/ext4/extent/tree.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 30198e2..3d1b34b 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -206,14 +206,19 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             return false;
         }
 
-        let entries_size = self.entries_size();
+        if self.entry_count() > self.max_entries() {
+            return false;
+        }
+
+        // The tail follows the space for the maximum number of entries.
+        let max_entries_size = self.max_entries() * index::layout::SIZE.unwrap();
 
         let tail_size = match self.checksum_seed {
             Some(_) => tail::layout::SIZE.unwrap(),
             None => 0,
         };
 
-        if self.view().entries_and_tail().as_ref().len() < entries_size + tail_size {
+        if self.view().entries_and_tail().as_ref().len() < max_entries_size + tail_size {
             return false;
         }
 
@@ -222,10 +227,10 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             Some(checksum_seed) => {
                 let expected_checksum = ext4_crc32c(
                     checksum_seed,
-                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + entries_size],
+                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + max_entries_size],
                 );
 
-                tail::layout::View::new(&self.view().entries_and_tail()[entries_size..])
+                tail::layout::View::new(&self.view().entries_and_tail()[max_entries_size..])
                     .checksum()
                     .read()
                     == expected_checksum
-- 
2.43.0


From 6bf3faf77800b371267caf3a8b88f782c435979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 09/17] fix: validate extent trees before following them

---
 src/ext4/extent/tree.rs | 7 +++++++
 src/ext4/file.rs        | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 3d1b34b..ab4b841 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -54,6 +54,13 @@ impl<S: AsRef<[u8]>> ExtentTree<S> {
         }
     }
 
+    pub fn depth(&self) -> u16 {
+        match self {
+            ExtentTree::Branch(branch) => branch.0.depth(),
+            ExtentTree::Leaf(leaf) => leaf.0.depth(),
+        }
+    }
+
     pub fn to_owned(&self) -> ExtentTree<Vec<u8>> {
         match self {
             ExtentTree::Branch(branch) => ExtentTree::Branch(branch.to_owned()),
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 952b390..2b57590 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -61,6 +61,10 @@ where
             .ok_or(io::ErrorKind::Unsupported)?
             .to_owned();
 
+        if !tree.valid() {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+
         Ok(Self {
             fs,
             inode,
@@ -94,6 +98,7 @@ where
                 }
                 Some(ReadStackEntry::Tree { tree, pos }) => {
                     if pos < tree.entry_count() {
+                        let depth = tree.depth();
                         match tree {
                             ExtentTree::Branch(branch) => {
                                 let index = branch.subtree_index_at(pos).unwrap();
@@ -103,6 +108,9 @@ where
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
+                                if !subtree.valid() || subtree.depth() != depth - 1 {
+                                    return Err(io::ErrorKind::InvalidData.into());
+                                }
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Branch(branch),
                                     pos: pos + 1,
-- 
2.43.0


From f9d9378218a088f50a127ba1f3a27b22d1610229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 10/17] fix: decode the longest initialized extent

---
 src/ext4/extent/extent.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ext4/extent/extent.rs b/src/ext4/extent/extent.rs
index 9eda2d8..e8e61c4 100644
--- a/src/ext4/extent/extent.rs
+++ b/src/ext4/extent/extent.rs
@@ -21,11 +21,16 @@ impl<S: AsRef<[u8]>> Extent<S> {
     }
 
     pub fn initialized(&self) -> bool {
-        self.0.length().read() & 0x8000 != 0x8000
+        self.0.length().read() <= 0x8000
     }
 
     pub fn length(&self) -> BlockCount<u16> {
-        BlockCount(self.0.length().read() & 0x7fff)
+        let length = self.0.length().read();
+        BlockCount(if length <= 0x8000 {
+            length
+        } else {
+            length - 0x8000
+        })
     }
 
     pub fn first_fs_block_number(&self) -> FsBlockNumber {
-- 
2.43.0


From 0015bfa11deb5fe9bda9789dcdd7568c93dbdcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 11/17] fix: read unwritten extents as zeros

---
 src/ext4/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 2b57590..75958ec 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -143,8 +143,12 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        self.fs
-                            .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        if extent.initialized() {
+                            self.fs
+                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        } else {
+                            buf[..self.fs.block_size()].fill(0);
+                        }
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
-- 
2.43.0


From 2bd1373864e16370315c8f9027a20e828970f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 12/17] fix: read a single block from ext4 when the buffer is
 longer

---
 src/ext4/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 35ecfd4..e0dc1ef 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -123,7 +123,8 @@ where
                     .checked_mul(self.superblock.block_size_bytes())
                     .ok_or(io::ErrorKind::InvalidInput)?,
             ))?;
-            self.device.read_exact(buf)?;
+            let block_size = self.block_size();
+            self.device.read_exact(&mut buf[..block_size])?;
             Ok(())
         }
     }
-- 
2.43.0


From 9c5e24be27f7d86d9370bd1146526825e5636848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 13/17] fix: end directory entry names at their recorded length

---
 src/ext4/directory/dir_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 2c293e4..c673860 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -31,7 +31,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
-        Ext4String::from_null_terminated_bytes(self.view().into_name().into_slice())
+        let name_length = usize::from(self.view().name_length().read());
+        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
-- 
2.43.0


From a51009298ba2ffb2440c4767caf6fb59423676c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 14/17] fix: do not panic when reading beyond the end of an
 in-memory device

---
 src/block_device/in_memory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block_device/in_memory.rs b/src/block_device/in_memory.rs
index d4bac11..7333d23 100644
--- a/src/block_device/in_memory.rs
+++ b/src/block_device/in_memory.rs
@@ -41,8 +41,14 @@ impl BlockDevice for InMemoryBlockDevice {
                     .ok_or(io::ErrorKind::InvalidInput)?,
             )
             .or(Err(io::Error::from(io::ErrorKind::InvalidInput)))?;
-            buf.copy_from_slice(&self.mem[offset..][..usize::from(self.block_size)]);
-            Ok(usize::from(self.block_size))
+            let block_size = usize::from(self.block_size);
+            let block = self
+                .mem
+                .get(offset..)
+                .and_then(|rest| rest.get(..block_size))
+                .ok_or(io::ErrorKind::UnexpectedEof)?;
+            buf[..block_size].copy_from_slice(block);
+            Ok(block_size)
         }
     }
 
-- 
2.43.0


From 5902ef54407a9989d5ebeb3c6d328f9ffdd07149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 15/17] fix: order and hash ext4 strings by their bytes,
 consistently with their equality

---
 src/ext4/string.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index 63788d7..d84527f 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -73,15 +73,13 @@ impl<S: AsRef<[u8]>> PartialOrd for Ext4String<S> {
 
 impl<S: AsRef<[u8]>> Ord for Ext4String<S> {
     fn cmp(&self, other: &Self) -> Ordering {
-        let left = self.to_str_lossy();
-        let right = other.to_str_lossy();
-        left.cmp(&right)
+        self.0.as_ref().cmp(other.0.as_ref())
     }
 }
 
 impl<S: AsRef<[u8]>> Hash for Ext4String<S> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_str_lossy().hash(state)
+        self.0.as_ref().hash(state)
     }
 }
 
-- 
2.43.0


From ab51191b8daaa63e1691d1c6f2cdbc095f1aedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 16/17] fix: recognise the writeback journal mode among the
 default mount options of ext4

---
 src/ext4/superblock/mount_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext4/superblock/mount_options.rs b/src/ext4/superblock/mount_options.rs
index 8a6a689..145ca95 100644
--- a/src/ext4/superblock/mount_options.rs
+++ b/src/ext4/superblock/mount_options.rs
@@ -11,7 +11,7 @@ bitflags! {
         const DISABLE_16_BIT_USER_IDS = 0x10;
         const COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL = 0x20;
         const FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA = 0x40;
-        const DATA_ORDERING_NOT_PRESERVED = 0x80;
+        const DATA_ORDERING_NOT_PRESERVED = 0x60;
         const DISABLE_WRITE_FLUSHES = 0x100;
         const TRACK_METADATA_BLOCKS = 0x200;
         const ENABLE_DISCARD = 0x400;
-- 
2.43.0


From b51c014537d5f2780c12fc94cbbdc950e0f3d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 17/17] fix: use 32-byte ext4 group descriptors without the
 64-bit feature

---
 src/ext4/fs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index e0dc1ef..da3ce20 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,7 +30,15 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_size = usize::from(superblock.group_descriptor_size());
+        // The superblock records the size of group descriptors only for 64-bit filesystems.
+        let group_size = if superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::IS_64_BIT)
+        {
+            usize::from(superblock.group_descriptor_size())
+        } else {
+            32
+        };
 
         if blocks_per_group == 0
             || group_size == 0
-- 
2.43.0

