From dd0fe8963ab9eddbab058b524123225e559eb9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:21 +0000
Subject: [PATCH 01/39] fix: flag multi-sector files as compressed so their
 offset table is read

A file larger than one sector is always written with a sector offset
table, but the compressed flag was only set when some sector shrank.
Readers then returned the offset table and checksums as file content.
---
 mopaq/src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..89f7e8f 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -987,6 +987,11 @@ impl ArchiveBuilder {
             // Multi-sector file
             let sector_count = file_data.len().div_ceil(*sector_size);
 
+            // A sector offset table always precedes the data, and only files
+            // flagged as compressed have one. Sectors that did not shrink are
+            // recognised by their stored size.
+            flags |= BlockEntry::FLAG_COMPRESS;
+
             // Set CRC flag early if enabled (needed for encryption key calculation)
             if self.generate_crcs {
                 flags |= BlockEntry::FLAG_SECTOR_CRC;
@@ -1031,7 +1036,6 @@ impl ArchiveBuilder {
                     let compressed = compress(sector_bytes, *compression)?;
                     if compressed != *sector_bytes {
                         // Compression was beneficial and the data now includes the method byte
-                        flags |= BlockEntry::FLAG_COMPRESS;
                         compressed
                     } else {
                         // Compression not beneficial, returned original data
-- 
2.43.0


From 8b631d24de19e8ef423a6bdd680d7e485e15488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 02/39] fix: require compression to save the method byte as
 well

A sector whose compressed form plus method byte is as long as the
original was stored with a method byte but is read back as raw data.
---
 mopaq/src/compression/compress.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..c38de60 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -13,9 +13,10 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
     // Check if compression actually reduces size
     let compressed = compress_internal(data, method)?;
 
-    // MPQ format requires that compression saves at least 2 bytes
-    // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    // The stored form is the method byte followed by the compressed data, and
+    // readers recognise it by being smaller than the original, so compression
+    // has to save at least 2 bytes. If it doesn't, we return the original data
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From 4a3715f6cb93582be4aaf76c6f0f148b20ae54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 03/39] fix: do not encode a run of 127 zeros as the sparse end
 marker

0x80 | 0x7F is 0xFF, which ends the stream: everything after such a run
was lost and replaced by zeros.
---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..4240674 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -58,8 +58,9 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         let mut zero_count = pos - zero_start;
         if zero_count > 0 {
             // Encode runs of zeros
+            // (0x80 | 0x7F would be the end marker, so 0x7E is the longest run)
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From 9f6d04a9ef12344955e490f11aac9f9dbc7daaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:58 +0000
Subject: [PATCH 04/39] fix: do not allocate sizes an archive declares before
 the data is read

Table, sector and file sizes come from the archive. A header of a few
bytes could request allocations of many gigabytes.
---
 mopaq/src/archive.rs       | 16 ++++++----------
 mopaq/src/tables/bet.rs    | 12 +++++-------
 mopaq/src/tables/block.rs  | 16 ++++++++--------
 mopaq/src/tables/common.rs | 13 +++++++++++++
 mopaq/src/tables/hash.rs   |  7 +++----
 mopaq/src/tables/het.rs    |  5 ++---
 mopaq/src/tables/mod.rs    |  1 +
 7 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..b391117 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -14,7 +14,7 @@ use crate::{
     crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
-    tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
+    tables::{read_bytes, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
     Error, Result,
 };
 use std::fs::File;
@@ -541,8 +541,7 @@ impl Archive {
                 // Read raw table data
                 self.reader
                     .seek(SeekFrom::Start(self.archive_offset + offset))?;
-                let mut table_data = vec![0u8; size as usize];
-                self.reader.read_exact(&mut table_data)?;
+                let table_data = read_bytes(&mut self.reader, size)?;
 
                 // Calculate MD5
                 let mut hasher = Md5::new();
@@ -1252,8 +1251,7 @@ impl Archive {
 
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
-            let mut data = vec![0u8; file_info.compressed_size as usize];
-            self.reader.read_exact(&mut data)?;
+            let mut data = read_bytes(&mut self.reader, file_info.compressed_size)?;
 
             // Decrypt if needed
             if file_info.is_encrypted() {
@@ -1349,8 +1347,7 @@ impl Archive {
         // Read sector offset table
         self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
         let offset_table_size = (sector_count + 1) * 4;
-        let mut offset_data = vec![0u8; offset_table_size];
-        self.reader.read_exact(&mut offset_data)?;
+        let mut offset_data = read_bytes(&mut self.reader, offset_table_size as u64)?;
 
         // Decrypt sector offset table if needed
         if file_info.is_encrypted() {
@@ -1411,7 +1408,7 @@ impl Archive {
         }
 
         // Read and decompress each sector
-        let mut decompressed_data = Vec::with_capacity(file_info.file_size as usize);
+        let mut decompressed_data = Vec::new();
 
         for i in 0..sector_count {
             let sector_start = sector_offsets[i] as u64;
@@ -1435,8 +1432,7 @@ impl Archive {
                 .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
 
             // Read sector data
-            let mut sector_data = vec![0u8; sector_size_compressed];
-            self.reader.read_exact(&mut sector_data)?;
+            let mut sector_data = read_bytes(&mut self.reader, sector_size_compressed as u64)?;
 
             if i == 0 {
                 log::debug!(
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..b384edf 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,6 +1,6 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -76,8 +76,7 @@ impl BetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -164,7 +163,7 @@ impl BetTable {
         let mut cursor = std::io::Cursor::new(&table_data[data_start..]);
 
         // Read file flags
-        let mut file_flags = Vec::with_capacity(header.flag_count as usize);
+        let mut file_flags = Vec::new();
         for _ in 0..header.flag_count {
             file_flags.push(cursor.read_u32_le()?);
         }
@@ -172,12 +171,11 @@ impl BetTable {
         // Calculate sizes
         let file_table_size =
             (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
-        let mut file_table = vec![0u8; file_table_size];
-        cursor.read_exact(&mut file_table)?;
+        let file_table = read_bytes(&mut cursor, file_table_size as u64)?;
 
         // Read BET hashes
         let hash_count = header.bet_hash_array_size / 8; // Each hash is 8 bytes
-        let mut bet_hashes = Vec::with_capacity(hash_count as usize);
+        let mut bet_hashes = Vec::new();
         for _ in 0..hash_count {
             bet_hashes.push(cursor.read_u64_le()?);
         }
diff --git a/mopaq/src/tables/block.rs b/mopaq/src/tables/block.rs
index 4cf8183..9d78ac2 100644
--- a/mopaq/src/tables/block.rs
+++ b/mopaq/src/tables/block.rs
@@ -1,6 +1,6 @@
 //! Block table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -113,9 +113,8 @@ impl BlockTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(block table)", hash_type::FILE_KEY);
@@ -207,10 +206,11 @@ impl HiBlockTable {
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
         reader.seek(SeekFrom::Start(offset))?;
 
-        let mut entries = Vec::with_capacity(size as usize);
-        for _ in 0..size {
-            entries.push(reader.read_u16_le()?);
-        }
+        let raw_data = read_bytes(reader, size as u64 * 2)?;
+        let entries = raw_data
+            .chunks_exact(2)
+            .map(|chunk| u16::from_le_bytes([chunk[0], chunk[1]]))
+            .collect();
 
         Ok(Self { entries })
     }
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index ffa5809..3c9d248 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -26,6 +26,19 @@ pub(crate) trait ReadLittleEndian: Read {
 
 impl<R: Read> ReadLittleEndian for R {}
 
+/// Read exactly `size` bytes, allocating only as much as the reader delivers
+///
+/// Sizes come from the archive and may be arbitrarily wrong, so the buffer must
+/// not be allocated before the data is known to be there.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, size: u64) -> Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.by_ref().take(size).read_to_end(&mut data)?;
+    if data.len() as u64 != size {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Helper function to decrypt table data
 pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
     use crate::crypto::decrypt_block;
diff --git a/mopaq/src/tables/hash.rs b/mopaq/src/tables/hash.rs
index 43800a8..b9847e4 100644
--- a/mopaq/src/tables/hash.rs
+++ b/mopaq/src/tables/hash.rs
@@ -1,6 +1,6 @@
 //! Hash table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -99,9 +99,8 @@ impl HashTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(hash table)", hash_type::FILE_KEY);
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 731a0dc..49572b6 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,6 +1,6 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -66,8 +66,7 @@ impl HetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
diff --git a/mopaq/src/tables/mod.rs b/mopaq/src/tables/mod.rs
index ac8ae00..3406318 100644
--- a/mopaq/src/tables/mod.rs
+++ b/mopaq/src/tables/mod.rs
@@ -13,3 +13,4 @@ pub use hash::{HashEntry, HashTable};
 pub use het::{HetHeader, HetTable};
 
 // Re-export common utilities if needed
+pub(crate) use common::read_bytes;
-- 
2.43.0


From 01554ac524d2a0e11cea98e9d009c51ee038f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:48 +0000
Subject: [PATCH 05/39] fix: avoid arithmetic overflow on positions and sizes
 from the archive

Header fields, sector exponents and HET parameters are unchecked input;
wrapping, dividing by zero or indexing an empty buffer panicked.
---
 mopaq/src/archive.rs          | 38 ++++++++++++++++++++++-------------
 mopaq/src/crypto/signature.rs |  6 +++---
 mopaq/src/header.rs           |  2 +-
 mopaq/src/lib.rs              |  3 ++-
 mopaq/src/tables/het.rs       | 11 +++++++---
 5 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index b391117..25b5454 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -373,7 +373,7 @@ impl Archive {
 
                         match HetTable::read(
                             &mut self.reader,
-                            self.archive_offset + het_pos,
+                            self.archive_offset.saturating_add(het_pos),
                             het_size,
                             key,
                         ) {
@@ -429,7 +429,7 @@ impl Archive {
 
                         match BetTable::read(
                             &mut self.reader,
-                            self.archive_offset + bet_pos,
+                            self.archive_offset.saturating_add(bet_pos),
                             bet_size,
                             key,
                         ) {
@@ -482,7 +482,7 @@ impl Archive {
         // Load hi-block table if present (v2+)
         if let Some(hi_block_pos) = self.header.hi_block_table_pos {
             if hi_block_pos != 0 {
-                let hi_block_offset = self.archive_offset + hi_block_pos;
+                let hi_block_offset = self.archive_offset.saturating_add(hi_block_pos);
                 self.hi_block_table = Some(HiBlockTable::read(
                     &mut self.reader,
                     hi_block_offset,
@@ -540,7 +540,7 @@ impl Archive {
 
                 // Read raw table data
                 self.reader
-                    .seek(SeekFrom::Start(self.archive_offset + offset))?;
+                    .seek(SeekFrom::Start(self.archive_offset.saturating_add(offset)))?;
                 let table_data = read_bytes(&mut self.reader, size)?;
 
                 // Calculate MD5
@@ -881,7 +881,7 @@ impl Archive {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
                             block_index: file_index as usize,
-                            file_pos: self.archive_offset + bet_info.file_pos,
+                            file_pos: self.archive_offset.saturating_add(bet_info.file_pos),
                             compressed_size: bet_info.compressed_size,
                             file_size: bet_info.file_size,
                             flags: bet_info.flags,
@@ -1278,6 +1278,9 @@ impl Archive {
 
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
+                    if data.is_empty() {
+                        return Err(Error::compression("Empty compressed data"));
+                    }
                     // We need to decompress first to check CRC
                     let compression_type = data[0];
                     let compressed_data = &data[1..];
@@ -1424,12 +1427,13 @@ impl Archive {
             let sector_size_compressed = (sector_end - sector_start) as usize;
 
             // Calculate expected decompressed size for this sector
-            let remaining = file_info.file_size as usize - decompressed_data.len();
+            let remaining = (file_info.file_size as usize).saturating_sub(decompressed_data.len());
             let expected_size = remaining.min(sector_size);
 
             // Seek to sector data - offsets are absolute from file position
-            self.reader
-                .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
+            self.reader.seek(SeekFrom::Start(
+                file_info.file_pos.saturating_add(sector_start),
+            ))?;
 
             // Read sector data
             let mut sector_data = read_bytes(&mut self.reader, sector_size_compressed as u64)?;
@@ -1531,7 +1535,11 @@ impl Archive {
                                 "Attempting to decompress attributes file with method 0x{:02X}",
                                 data[0]
                             );
-                            match compression::decompress(&data[1..], data[0], block_count * 100) {
+                            match compression::decompress(
+                                &data[1..],
+                                data[0],
+                                block_count.saturating_mul(100),
+                            ) {
                                 Ok(decompressed) => {
                                     log::info!("Successfully decompressed attributes file");
                                     data = decompressed;
@@ -1592,11 +1600,11 @@ impl Archive {
                 bet_pos - het_pos
             } else {
                 // Calculate from hash table position
-                self.header.get_hash_table_pos() - het_pos
+                self.header.get_hash_table_pos().saturating_sub(het_pos)
             }
         } else {
             // Calculate from hash table position
-            self.header.get_hash_table_pos() - het_pos
+            self.header.get_hash_table_pos().saturating_sub(het_pos)
         };
 
         log::debug!(
@@ -1614,7 +1622,7 @@ impl Archive {
         log::debug!("Determining BET table size from file structure");
 
         // Calculate the actual size based on what comes after BET table (usually hash table)
-        let actual_size = self.header.get_hash_table_pos() - bet_pos;
+        let actual_size = self.header.get_hash_table_pos().saturating_sub(bet_pos);
 
         log::debug!(
             "BET table position: 0x{:X}, calculated size: {} bytes",
@@ -1697,10 +1705,12 @@ impl Archive {
         let file_size = self.reader.get_ref().metadata()?.len();
 
         // Calculate expected archive end position
-        let archive_end = self.archive_offset + self.header.get_archive_size();
+        let archive_end = self
+            .archive_offset
+            .saturating_add(self.header.get_archive_size());
 
         // Check if there's enough space for a strong signature after the archive
-        if file_size < archive_end + STRONG_SIGNATURE_SIZE as u64 {
+        if file_size < archive_end.saturating_add(STRONG_SIGNATURE_SIZE as u64) {
             log::debug!("File too small for strong signature");
             return Ok(SignatureStatus::None);
         }
diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..dd51803 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -71,9 +71,9 @@ impl SignatureInfo {
         Self {
             begin_mpq_data: archive_start,
             begin_exclude: signature_file_pos,
-            end_exclude: signature_file_pos + signature_file_size,
-            end_mpq_data: archive_start + archive_size,
-            end_of_file: archive_start + archive_size, // For weak signatures, no data after archive
+            end_exclude: signature_file_pos.saturating_add(signature_file_size),
+            end_mpq_data: archive_start.saturating_add(archive_size),
+            end_of_file: archive_start.saturating_add(archive_size), // For weak signatures, no data after archive
             signature: signature_data,
             signature_size,
             signature_types: 1, // SIGNATURE_TYPE_WEAK = 1
diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index c4dac24..d783100 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -271,7 +271,7 @@ impl MpqHeader {
 
     /// Calculate the sector size from block size
     pub fn sector_size(&self) -> usize {
-        512 << self.block_size
+        crate::calculate_sector_size(self.block_size)
     }
 }
 
diff --git a/mopaq/src/lib.rs b/mopaq/src/lib.rs
index 4ae9b8c..e2e6ab8 100644
--- a/mopaq/src/lib.rs
+++ b/mopaq/src/lib.rs
@@ -97,7 +97,8 @@ pub mod signatures {
 /// Block size calculation
 #[inline]
 pub fn calculate_sector_size(block_size_shift: u16) -> usize {
-    512 << block_size_shift
+    // Larger exponents do not occur in practice and would overflow
+    512 << block_size_shift.min(22)
 }
 
 /// Check if a value is a power of two
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 49572b6..1f6a484 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -239,8 +239,10 @@ impl HetTable {
         };
 
         // Calculate hash table index
-        let hash_table_entries = self.header.hash_table_size * 8 / self.header.hash_entry_size;
-        let hash_index = (hash & (hash_table_entries as u64 - 1)) as usize;
+        let hash_table_entries = (self.header.hash_table_size as u64 * 8)
+            .checked_div(self.header.hash_entry_size as u64)
+            .filter(|&entries| entries > 0)?;
+        let hash_index = (hash & (hash_table_entries - 1)) as usize;
 
         // Read hash entry
         let hash_entry = self.read_hash_entry(hash_index)?;
@@ -251,7 +253,10 @@ impl HetTable {
         }
 
         // Extract file index from hash entry
-        let file_index = (hash_entry >> self.header.hash_entry_size) & index_mask;
+        let file_index = hash_entry
+            .checked_shr(self.header.hash_entry_size)
+            .unwrap_or(0)
+            & index_mask;
 
         // Verify file index is valid
         if file_index >= self.header.max_file_count as u64 {
-- 
2.43.0


From b6e438ef1a8359ce3c8bff3a47c5d018e8d461f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:31 +0000
Subject: [PATCH 06/39] fix: read and write BET entries wider than 64 bits

File position, sizes and flag index together exceed 64 bits as soon as
an archive holds files of a few megabytes: building overflowed a shift or
stored truncated fields, and the last entries of every table could not be
read because eight bytes were required after each.
---
 mopaq/src/builder.rs    | 90 ++++++++++++++++++++---------------------
 mopaq/src/tables/bet.rs | 64 +++++++++++------------------
 2 files changed, 68 insertions(+), 86 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 89f7e8f..444e618 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1541,52 +1541,34 @@ impl ArchiveBuilder {
         value: u64,
         bit_size: u32,
     ) -> Result<()> {
-        let bit_offset = index * bit_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
-
-        // Calculate how many bytes we actually need
-        let bits_needed = bit_shift + bit_size as usize;
-        let bytes_needed = bits_needed.div_ceil(8);
+        self.write_bits(data, index * bit_size as usize, value, bit_size)
+    }
 
-        if byte_offset + bytes_needed > data.len() {
+    /// Write the low `bit_size` bits of a value at a bit position of a byte array
+    fn write_bits(
+        &self,
+        data: &mut [u8],
+        bit_offset: usize,
+        value: u64,
+        bit_size: u32,
+    ) -> Result<()> {
+        if bit_size > 64 || bit_offset + bit_size as usize > data.len() * 8 {
             log::error!(
-                "Bit entry out of bounds: index={}, bit_size={}, bit_offset={}, byte_offset={}, bytes_needed={}, data.len()={}",
-                index,
+                "Bit entry out of bounds: bit_size={}, bit_offset={}, data.len()={}",
                 bit_size,
                 bit_offset,
-                byte_offset,
-                bytes_needed,
                 data.len()
             );
             return Err(Error::invalid_format("Bit entry out of bounds"));
         }
 
-        // Read existing bits (limit to 8 bytes for u64)
-        let mut existing = 0u64;
-        let max_bytes = bytes_needed.min(8);
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                existing |= (data[byte_offset + i] as u64) << (i * 8);
-            }
-        }
-
-        // Clear the bits we're about to write
-        let value_mask = if bit_size >= 64 {
-            u64::MAX
-        } else {
-            (1u64 << bit_size) - 1
-        };
-        let mask = value_mask << bit_shift;
-        existing &= !mask;
-
-        // Write the new value
-        existing |= (value & value_mask) << bit_shift;
-
-        // Write back (limit to 8 bytes for u64)
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                data[byte_offset + i] = (existing >> (i * 8)) as u8;
+        for i in 0..bit_size as usize {
+            let bit = bit_offset + i;
+            let mask = 1u8 << (bit % 8);
+            if (value >> i) & 1 != 0 {
+                data[bit / 8] |= mask;
+            } else {
+                data[bit / 8] &= !mask;
             }
         }
 
@@ -1754,14 +1736,32 @@ impl ArchiveBuilder {
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
                 // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
-
-                // Write to file table
-                self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
+                let entry_offset = i * table_entry_size as usize;
+                for (bit_index, value, bit_count) in [
+                    (
+                        bit_index_file_pos,
+                        entry.file_pos as u64,
+                        bit_count_file_pos,
+                    ),
+                    (
+                        bit_index_file_size,
+                        entry.file_size as u64,
+                        bit_count_file_size,
+                    ),
+                    (
+                        bit_index_cmp_size,
+                        entry.compressed_size as u64,
+                        bit_count_cmp_size,
+                    ),
+                    (
+                        bit_index_flag_index,
+                        *flag_index as u64,
+                        bit_count_flag_index,
+                    ),
+                ] {
+                    let bit_offset = entry_offset + bit_index as usize;
+                    self.write_bits(&mut file_table, bit_offset, value, bit_count)?;
+                }
 
                 // Generate BET hash (Jenkins hash of filename)
                 let hash = jenkins_hash(&pending_file.archive_name);
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index b384edf..d620d92 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -169,6 +169,9 @@ impl BetTable {
         }
 
         // Calculate sizes
+        if header.table_entry_size == 0 && header.file_count > 0 {
+            return Err(Error::invalid_format("BET table entries have no size"));
+        }
         let file_table_size =
             (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
         let file_table = read_bytes(&mut cursor, file_table_size as u64)?;
@@ -224,30 +227,27 @@ impl BetTable {
             return None;
         }
 
-        // Read bit-packed entry
-        let entry_bits = self.read_table_entry(index as usize)?;
-
         // Extract fields
-        let file_pos = self.extract_bits(
-            entry_bits,
+        let entry_offset = index as usize * self.header.table_entry_size as usize;
+        let field = |bit_index: u32, bit_count: u32| {
+            self.read_bits(entry_offset + bit_index as usize, bit_count)
+        };
+        let file_pos = field(
             self.header.bit_index_file_pos,
             self.header.bit_count_file_pos,
-        );
-        let file_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let file_size = field(
             self.header.bit_index_file_size,
             self.header.bit_count_file_size,
-        );
-        let cmp_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let cmp_size = field(
             self.header.bit_index_cmp_size,
             self.header.bit_count_cmp_size,
-        );
-        let flag_index = self.extract_bits(
-            entry_bits,
+        )?;
+        let flag_index = field(
             self.header.bit_index_flag_index,
             self.header.bit_count_flag_index,
-        ) as u32;
+        )? as u32;
 
         // Get flags
         let flags = if flag_index < self.header.flag_count {
@@ -264,37 +264,19 @@ impl BetTable {
         })
     }
 
-    /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.table_entry_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
-
-        if byte_offset + 8 > self.file_table.len() {
+    /// Read a field of up to 64 bits from the bit-packed file table
+    fn read_bits(&self, bit_offset: usize, bit_count: u32) -> Option<u64> {
+        if bit_count > 64 || bit_offset + bit_count as usize > self.file_table.len() * 8 {
             return None;
         }
 
-        // Read enough bytes to get the full entry
         let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
-
-        for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
+        for i in 0..bit_count as usize {
+            let bit = bit_offset + i;
+            let set = (self.file_table[bit / 8] >> (bit % 8)) & 1;
+            value |= (set as u64) << i;
         }
-
-        // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
-        Some(entry)
-    }
-
-    /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+        Some(value)
     }
 }
 
-- 
2.43.0


From de21aaaaf0f0267c878dff807d4cfa79dea25895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:03 +0000
Subject: [PATCH 07/39] fix: check the full name hash before accepting a HET
 table match

A HET entry keeps only a few bits of the name hash, so unrelated names
matched and were answered with the file at index 0.
---
 mopaq/src/archive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 25b5454..1365026 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
+    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{read_bytes, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -875,7 +875,13 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                // The HET entry holds only a few bits of the name hash; the full
+                // hash in the BET table decides whether it is the right file
+                let name_hash = jenkins_hash(filename);
+                if let Some(file_index) = het
+                    .find_file(filename)
+                    .filter(|&index| bet.bet_hashes.get(index as usize) == Some(&name_hash))
+                {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
-- 
2.43.0


From 87a3d425d0965c95e612b93d05022aa8a4c91c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:14 +0000
Subject: [PATCH 08/39] fix: write compressed HET/BET tables so that they can
 be read back

The compression type byte was written twice (or in front of data that did
not shrink) and the HET size did not cover the whole table, so compressed
tables never loaded.
---
 mopaq/src/builder.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 444e618..6a3aa6c 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1504,7 +1504,7 @@ impl ArchiveBuilder {
 
         // Calculate sizes
         let het_header_size = std::mem::size_of::<HetHeader>();
-        let data_size = het_header_size as u32 + hash_table_size + file_indices_size as u32;
+        let data_size = het_header_size as u32 + actual_hash_table_size + file_indices_size as u32;
         let table_size = 12 + data_size; // Extended header (12 bytes) + data
 
         // Update header with final size
@@ -1613,11 +1613,9 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // The result carries the compression type byte, or is the unchanged
+            // data when compression did not help
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
@@ -1856,11 +1854,9 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // The result carries the compression type byte, or is the unchanged
+            // data when compression did not help
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
-- 
2.43.0


From 11ca698b6a12fa54da28acf078a1b1c4bc461dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:24 +0000
Subject: [PATCH 09/39] fix: leave trailing bytes of HET/BET tables unencrypted

Table decryption works on whole DWORDs, as the format defines it; the
writer also scrambled the last one to three bytes, corrupting the last
name hash or the end of a compressed table.
---
 mopaq/src/builder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 6a3aa6c..70051a3 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1621,7 +1621,9 @@ impl ArchiveBuilder {
         // Encrypt the data portion (after extended header)
         if encrypt {
             let key = hash_string("(hash table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            // (whole DWORDs only, trailing bytes stay as they are)
+            let encrypted_len = processed_data.len() / 4 * 4;
+            self.encrypt_data(&mut processed_data[..encrypted_len], key);
         }
 
         // Combine extended header with processed data
@@ -1862,7 +1864,9 @@ impl ArchiveBuilder {
         // Encrypt the data portion (after extended header)
         if encrypt {
             let key = hash_string("(block table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            // (whole DWORDs only, trailing bytes stay as they are)
+            let encrypted_len = processed_data.len() / 4 * 4;
+            self.encrypt_data(&mut processed_data[..encrypted_len], key);
         }
 
         // Combine extended header with processed data
-- 
2.43.0


From 463649b5ac8d470b22be4fbda4ffe569cf197766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:29 +0000
Subject: [PATCH 10/39] fix: report checksum mismatches in multi-sector files

The mismatch was logged and the damaged data returned. The checksums were
also compared with the stored sector although the builder calculates them
on the uncompressed one.
---
 mopaq/src/archive.rs | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 1365026..34b9550 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1386,7 +1386,10 @@ impl Archive {
             let expected_crc_table_start = offset_table_size;
             let expected_crc_table_size = sector_count * 4;
 
-            if first_data_offset >= expected_crc_table_start + expected_crc_table_size {
+            // (with a single sector, the extra space is the offset of a trailing CRC sector)
+            if sector_count > 1
+                && first_data_offset >= expected_crc_table_start + expected_crc_table_size
+            {
                 // CRC table follows the offset table
                 let mut crc_data = vec![0u8; expected_crc_table_size];
                 self.reader.read_exact(&mut crc_data)?;
@@ -1459,24 +1462,6 @@ impl Archive {
                 decrypt_file_data(&mut sector_data, sector_key);
             }
 
-            // Validate CRC if present - MUST be done AFTER decryption but BEFORE decompression
-            if let Some(ref crcs) = sector_crcs {
-                let expected_crc = crcs[i];
-                // MPQ uses ADLER32 for sector checksums, calculated on the raw (possibly compressed) data
-                let actual_crc = adler::adler32_slice(&sector_data);
-
-                if actual_crc != expected_crc {
-                    log::error!(
-                        "CRC mismatch for sector {}: expected {:08x}, got {:08x}",
-                        i,
-                        expected_crc,
-                        actual_crc
-                    );
-                    // For now, just log the error and continue
-                    // Some MPQ files have incorrect CRCs
-                }
-            }
-
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
@@ -1494,6 +1479,22 @@ impl Archive {
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
                 };
 
+            // Validate CRC if present. MPQ uses ADLER32 for sector checksums; writers
+            // calculate it on the uncompressed or on the stored (decrypted) sector
+            if let Some(ref crcs) = sector_crcs {
+                let expected_crc = crcs[i];
+                let actual_crc = adler::adler32_slice(&decompressed_sector);
+
+                if actual_crc != expected_crc && adler::adler32_slice(&sector_data) != expected_crc
+                {
+                    return Err(Error::ChecksumMismatch {
+                        file: file_info.filename.clone(),
+                        expected: expected_crc,
+                        actual: actual_crc,
+                    });
+                }
+            }
+
             decompressed_data.extend_from_slice(&decompressed_sector);
         }
 
-- 
2.43.0


From c27ef096dd352b2101e5c351f624d45fc790d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:38 +0000
Subject: [PATCH 11/39] fix: decrypt uncompressed multi-sector files sector by
 sector

Every sector has its own key; decrypting the whole file with the key of
the first sector returned garbage from the second sector on.
---
 mopaq/src/archive.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 34b9550..0e49797 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1269,7 +1269,15 @@ impl Archive {
                 if data.len() <= 64 {
                     log::debug!("Before decrypt: {:02X?}", &data);
                 }
-                decrypt_file_data(&mut data, key);
+                if file_info.is_single_unit() {
+                    decrypt_file_data(&mut data, key);
+                } else {
+                    // Uncompressed sectors are encrypted one by one
+                    let sector_size = self.header.sector_size();
+                    for (i, sector) in data.chunks_mut(sector_size).enumerate() {
+                        decrypt_file_data(sector, key.wrapping_add(i as u32));
+                    }
+                }
                 if data.len() <= 64 {
                     log::debug!("After decrypt: {:02X?}", &data);
                 }
-- 
2.43.0


From d4761da77755ef41690a54375d4a5147314213d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:46 +0000
Subject: [PATCH 12/39] fix: read single-unit files that are stored
 uncompressed

Like sectors, single units flagged as compressed are stored raw when
compression did not shrink them.
---
 mopaq/src/archive.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 0e49797..34d9ab2 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1283,6 +1283,10 @@ impl Archive {
                 }
             }
 
+            // Data that did not shrink is stored as it is
+            let is_compressed =
+                file_info.is_compressed() && file_info.compressed_size < actual_file_size;
+
             // Validate CRC if present for single unit files
             if file_info.has_sector_crc() && file_info.is_single_unit() {
                 // For single unit files, there's one CRC after the data
@@ -1291,7 +1295,7 @@ impl Archive {
                 let expected_crc = u32::from_le_bytes(crc_bytes);
 
                 // CRC is calculated on the decompressed data
-                let data_to_check = if file_info.is_compressed() {
+                let data_to_check = if is_compressed {
                     if data.is_empty() {
                         return Err(Error::compression("Empty compressed data"));
                     }
@@ -1321,7 +1325,7 @@ impl Archive {
             }
 
             // Decompress if needed
-            if file_info.is_compressed() {
+            if is_compressed {
                 // All compressed files should have a compression type byte prefix
                 // This matches StormLib's behavior
                 if !data.is_empty() {
-- 
2.43.0


From e7fd2a08f8b9589266d79a3c5532108759ec0647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:54 +0000
Subject: [PATCH 13/39] fix: read files compressed with PKWARE Implode

Files with the implode flag have no compression type byte; their first
byte was taken for one.
---
 mopaq/src/archive.rs | 71 ++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 34d9ab2..22e37eb 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1296,17 +1296,8 @@ impl Archive {
 
                 // CRC is calculated on the decompressed data
                 let data_to_check = if is_compressed {
-                    if data.is_empty() {
-                        return Err(Error::compression("Empty compressed data"));
-                    }
                     // We need to decompress first to check CRC
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )?
+                    decompress_unit(&file_info, &data, actual_file_size as usize)?
                 } else {
                     data.clone()
                 };
@@ -1326,25 +1317,7 @@ impl Archive {
 
             // Decompress if needed
             if is_compressed {
-                // All compressed files should have a compression type byte prefix
-                // This matches StormLib's behavior
-                if !data.is_empty() {
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
-                    log::debug!(
-                        "Decompressing file: type=0x{:02X}, compressed_size={}, expected_size={}",
-                        compression_type,
-                        compressed_data.len(),
-                        actual_file_size
-                    );
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )
-                } else {
-                    Err(Error::compression("Empty compressed data"))
-                }
+                decompress_unit(&file_info, &data, actual_file_size as usize)
             } else {
                 Ok(data)
             }
@@ -1477,15 +1450,7 @@ impl Archive {
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
-                    // All compressed sectors should have compression type byte prefix
-                    // This matches StormLib's behavior
-                    if !sector_data.is_empty() {
-                        let compression_type = sector_data[0];
-                        let compressed_data = &sector_data[1..];
-                        compression::decompress(compressed_data, compression_type, expected_size)?
-                    } else {
-                        return Err(Error::compression("Empty compressed sector data"));
-                    }
+                    decompress_unit(file_info, &sector_data, expected_size)?
                 } else {
                     // Sector is not compressed
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
@@ -1785,6 +1750,29 @@ impl Archive {
     }
 }
 
+/// Decompress a sector or a single-unit file
+fn decompress_unit(file_info: &FileInfo, data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
+    // Imploded files have no compression type byte
+    if file_info.is_imploded() {
+        return compression::decompress(data, compression::flags::PKWARE, expected_size);
+    }
+
+    // All other compressed data has a compression type byte prefix
+    // This matches StormLib's behavior
+    match data.split_first() {
+        Some((&compression_type, compressed_data)) => {
+            log::debug!(
+                "Decompressing data: type=0x{:02X}, compressed_size={}, expected_size={}",
+                compression_type,
+                compressed_data.len(),
+                expected_size
+            );
+            compression::decompress(compressed_data, compression_type, expected_size)
+        }
+        None => Err(Error::compression("Empty compressed data")),
+    }
+}
+
 /// Decrypt file data in-place
 fn decrypt_file_data(data: &mut [u8], key: u32) {
     if data.is_empty() || key == 0 {
@@ -1870,6 +1858,13 @@ impl FileInfo {
         (self.flags & (BlockEntry::FLAG_IMPLODE | BlockEntry::FLAG_COMPRESS)) != 0
     }
 
+    /// Check if the file is compressed with PKWARE Implode alone
+    fn is_imploded(&self) -> bool {
+        use crate::tables::BlockEntry;
+        (self.flags & (BlockEntry::FLAG_IMPLODE | BlockEntry::FLAG_COMPRESS))
+            == BlockEntry::FLAG_IMPLODE
+    }
+
     /// Check if the file is encrypted
     pub fn is_encrypted(&self) -> bool {
         use crate::tables::BlockEntry;
-- 
2.43.0


From 5a9e8129b8a5749b28f32f221cc3480a5b211db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:50 +0000
Subject: [PATCH 14/39] fix: do not skip checksums when the sector offsets are
 damaged

A damaged first offset made the reader conclude that the file has no
checksums and return data from the wrong place.
---
 mopaq/src/archive.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 22e37eb..6ecff46 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1373,7 +1373,7 @@ impl Archive {
 
             // (with a single sector, the extra space is the offset of a trailing CRC sector)
             if sector_count > 1
-                && first_data_offset >= expected_crc_table_start + expected_crc_table_size
+                && first_data_offset == expected_crc_table_start + expected_crc_table_size
             {
                 // CRC table follows the offset table
                 let mut crc_data = vec![0u8; expected_crc_table_size];
@@ -1394,6 +1394,15 @@ impl Archive {
                 );
 
                 sector_crcs = Some(crcs);
+            } else if first_data_offset != offset_table_size
+                && first_data_offset != offset_table_size + 4
+            {
+                // Without a CRC table, the data (or the offset of a trailing CRC
+                // sector) follows the offset table
+                return Err(Error::invalid_format(format!(
+                    "Invalid first sector offset {} in {}",
+                    first_data_offset, file_info.filename
+                )));
             } else {
                 log::debug!(
                     "File has SECTOR_CRC flag but insufficient space for CRC table (offset_table_size={}, first_data_offset={}, needed={}). This is common in some MPQ implementations.",
@@ -1456,6 +1465,17 @@ impl Archive {
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
                 };
 
+            // Without its exact size, the sector was not read from the right place
+            if file_info.has_sector_crc()
+                && (sector_size_compressed > expected_size
+                    || decompressed_sector.len() != expected_size)
+            {
+                return Err(Error::invalid_format(format!(
+                    "Sector {} of {} has the wrong size",
+                    i, file_info.filename
+                )));
+            }
+
             // Validate CRC if present. MPQ uses ADLER32 for sector checksums; writers
             // calculate it on the uncompressed or on the stored (decrypted) sector
             if let Some(ref crcs) = sector_crcs {
-- 
2.43.0


From 12cc39cb200fb7a2ce6d9457bd776e7829f56134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:14 +0000
Subject: [PATCH 15/39] fix: do not look for a sector offset table in empty
 files

---
 mopaq/src/archive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 6ecff46..55bdd03 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1338,6 +1338,11 @@ impl Archive {
             sector_size
         );
 
+        // An empty file has no sectors and need not have an offset table
+        if sector_count == 0 {
+            return Ok(Vec::new());
+        }
+
         // Read sector offset table
         self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
         let offset_table_size = (sector_count + 1) * 4;
-- 
2.43.0


From 941c74230970dbbbe97f15de11ab08a1d3b2ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 16/39] fix: bound the output of the decoders

Declared sizes were used as initial capacities and did not limit the
output, so a few bytes of input could take gigabytes of memory; an ADPCM
shift taken from the data overflowed.
---
 mopaq/src/compression/algorithms/adpcm.rs   |  4 +-
 mopaq/src/compression/algorithms/bzip2.rs   |  5 +-
 mopaq/src/compression/algorithms/huffman.rs |  7 ++-
 mopaq/src/compression/algorithms/lzma.rs    | 53 +++++++++++++++++----
 mopaq/src/compression/algorithms/mod.rs     |  8 ++++
 mopaq/src/compression/algorithms/sparse.rs  |  2 +-
 mopaq/src/compression/algorithms/zlib.rs    | 11 ++++-
 mopaq/src/compression/decompress.rs         | 15 ++++--
 8 files changed, 84 insertions(+), 21 deletions(-)

diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index b7e118a..e04df40 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -219,7 +219,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
     let mut step_indexes = vec![INITIAL_ADPCM_STEP_INDEX; channel_count];
 
     // Allocate output buffer
-    let mut output = Vec::with_capacity(output_size);
+    let mut output = Vec::new();
 
     // Read initial samples for each channel
     for predicted_sample in predicted_samples.iter_mut().take(channel_count) {
@@ -265,7 +265,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
                 predicted_samples[channel_index] as i32,
                 encoded_sample,
                 step_size,
-                step_size >> bit_shift as i32,
+                step_size.checked_shr(bit_shift as u32).unwrap_or(0),
             ) as i16;
 
             write_sample(&mut output, predicted_samples[channel_index]);
diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..5e7e4fe 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -1,5 +1,6 @@
 //! BZip2 compression and decompression
 
+use super::output_limit;
 use crate::{Error, Result};
 use bzip2::read::BzDecoder;
 use bzip2::write::BzEncoder;
@@ -8,8 +9,8 @@ use std::io::{Read, Write};
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
+    let mut decoder = BzDecoder::new(data).take(output_limit(expected_size) as u64);
+    let mut decompressed = Vec::new();
 
     decoder
         .read_to_end(&mut decompressed)
diff --git a/mopaq/src/compression/algorithms/huffman.rs b/mopaq/src/compression/algorithms/huffman.rs
index 5b26581..0d5f014 100644
--- a/mopaq/src/compression/algorithms/huffman.rs
+++ b/mopaq/src/compression/algorithms/huffman.rs
@@ -375,7 +375,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     );
 
     let mut reader = BitReader::new(data);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = Vec::new();
 
     // Get compression type from the first byte
     let compression_type = reader.get_8_bits()?;
@@ -413,6 +413,11 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
             return Err(Error::compression("Invalid Huffman decoded value"));
         }
 
+        // Every symbol takes at least one bit of input
+        if output.len() >= data.len() * 8 {
+            return Err(Error::compression("Unexpected end of Huffman data"));
+        }
+
         output.push(decoded_value as u8);
 
         // Stop if we've reached expected size
diff --git a/mopaq/src/compression/algorithms/lzma.rs b/mopaq/src/compression/algorithms/lzma.rs
index 1537d3b..10e0077 100644
--- a/mopaq/src/compression/algorithms/lzma.rs
+++ b/mopaq/src/compression/algorithms/lzma.rs
@@ -1,34 +1,71 @@
 //! LZMA compression and decompression
 
+use super::output_limit;
 use crate::{Error, Result};
-use std::io::{BufReader, Cursor};
+use std::io::{BufReader, Cursor, Write};
+
+/// Output buffer that refuses to grow beyond a limit
+struct LimitedOutput {
+    data: Vec<u8>,
+    limit: usize,
+}
+
+impl LimitedOutput {
+    fn new(limit: usize) -> Self {
+        Self {
+            data: Vec::new(),
+            limit,
+        }
+    }
+}
+
+impl Write for LimitedOutput {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        if buf.len() > self.limit.saturating_sub(self.data.len()) {
+            return Err(std::io::Error::other(
+                "data is much larger than its declared size",
+            ));
+        }
+        self.data.extend_from_slice(buf);
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        Ok(())
+    }
+}
 
 /// Decompress using LZMA
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     let cursor = Cursor::new(data);
     let mut input = BufReader::new(cursor);
-    let mut output = Vec::with_capacity(expected_size);
+    let limit = output_limit(expected_size);
+    let mut output = LimitedOutput::new(limit);
+    let options = lzma_rs::decompress::Options {
+        memlimit: Some(limit),
+        ..Default::default()
+    };
 
     // Try LZMA format first
-    match lzma_rs::lzma_decompress(&mut input, &mut output) {
+    match lzma_rs::lzma_decompress_with_options(&mut input, &mut output, &options) {
         Ok(()) => {
-            if expected_size > 0 && output.len() != expected_size {
+            if expected_size > 0 && output.data.len() != expected_size {
                 log::warn!(
                     "LZMA decompressed size mismatch: expected {}, got {}",
                     expected_size,
-                    output.len()
+                    output.data.len()
                 );
             }
-            Ok(output)
+            Ok(output.data)
         }
         Err(e) => {
             // If LZMA fails, try XZ format
             let cursor = Cursor::new(data);
             let mut input = BufReader::new(cursor);
-            let mut output = Vec::with_capacity(expected_size);
+            let mut output = LimitedOutput::new(limit);
 
             match lzma_rs::xz_decompress(&mut input, &mut output) {
-                Ok(()) => Ok(output),
+                Ok(()) => Ok(output.data),
                 Err(xz_err) => {
                     log::error!("LZMA decompression failed: {:?}", e);
                     log::error!("XZ decompression also failed: {:?}", xz_err);
diff --git a/mopaq/src/compression/algorithms/mod.rs b/mopaq/src/compression/algorithms/mod.rs
index 4c67e04..7d5d64f 100644
--- a/mopaq/src/compression/algorithms/mod.rs
+++ b/mopaq/src/compression/algorithms/mod.rs
@@ -8,3 +8,11 @@ pub(super) mod lzma;
 pub(super) mod pkware;
 pub(super) mod sparse;
 pub(super) mod zlib;
+
+/// Largest output accepted from a decoder
+///
+/// Some MPQ files have incorrect size info, so the declared size may be exceeded,
+/// but not without limit: a few bytes can expand to gigabytes.
+fn output_limit(expected_size: usize) -> usize {
+    expected_size.saturating_add(1 << 20)
+}
diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index 4240674..6453b91 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -5,7 +5,7 @@ use crate::{Error, Result};
 /// Decompress sparse/RLE compressed data
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     // Sparse compression is a simple RLE format
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = Vec::new();
     let mut pos = 0;
 
     while pos < data.len() && output.len() < expected_size {
diff --git a/mopaq/src/compression/algorithms/zlib.rs b/mopaq/src/compression/algorithms/zlib.rs
index 19bd08c..0e3dc6e 100644
--- a/mopaq/src/compression/algorithms/zlib.rs
+++ b/mopaq/src/compression/algorithms/zlib.rs
@@ -1,5 +1,6 @@
 //! Zlib compression and decompression
 
+use super::output_limit;
 use crate::{Error, Result};
 use flate2::read::ZlibDecoder;
 use flate2::write::ZlibEncoder;
@@ -21,11 +22,17 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     }
 
     // ZlibDecoder can handle both zlib-wrapped and raw deflate data
-    let mut decoder = ZlibDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
+    let limit = output_limit(expected_size);
+    let mut decoder = ZlibDecoder::new(data).take(limit as u64);
+    let mut decompressed = Vec::new();
 
     match decoder.read_to_end(&mut decompressed) {
         Ok(_) => {
+            if decompressed.len() >= limit {
+                return Err(Error::compression(
+                    "Zlib data is much larger than its declared size",
+                ));
+            }
             if decompressed.len() != expected_size {
                 log::debug!(
                     "Decompressed size mismatch: expected {}, got {} (this is common in some MPQ files)",
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..0a89b43 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -94,20 +94,25 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     if has_huffman {
         log::debug!("Decompressing Huffman");
         // For Huffman, we don't know the intermediate size, so we estimate conservatively
-        let huffman_output_size = std::cmp::max(expected_size * 2, current_data.len() * 2);
+        let huffman_output_size =
+            std::cmp::max(expected_size.saturating_mul(2), current_data.len() * 2);
         current_data = algorithms::huffman::decompress(&current_data, huffman_output_size)?;
     } else if has_zlib {
         log::debug!("Decompressing Zlib");
-        current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::zlib::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::bzip2::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
-        current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
-        current_data = algorithms::implode::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
     }
 
     // Step 2: Decompress PKWare if present
-- 
2.43.0


From 59fe016fe6d501d2935c9948dfbeba9837b731fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:52 +0000
Subject: [PATCH 17/39] fix: keep the leading zero of a decrypted weak
 signature

---
 mopaq/src/crypto/signature.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index dd51803..3b3c53e 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -273,7 +273,7 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_modulus_length(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -316,7 +316,7 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_modulus_length(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -365,6 +365,15 @@ pub fn verify_strong_signature<R: Read>(
     verify_mpq_strong_signature_padding(&decrypted_bytes, &hash)
 }
 
+/// Big-endian bytes of an RSA result, with the leading zero bytes that
+/// `to_bytes_be` drops (a PKCS#1 block starts with 0x00)
+fn to_modulus_length(value: &BigUint, length: usize) -> Vec<u8> {
+    let bytes = value.to_bytes_be();
+    let mut padded = vec![0u8; length.saturating_sub(bytes.len())];
+    padded.extend_from_slice(&bytes);
+    padded
+}
+
 /// Verify PKCS#1 v1.5 padding for MD5
 fn verify_pkcs1_v15_md5(decrypted: &[u8], expected_hash: &[u8]) -> Result<bool> {
     // PKCS#1 v1.5 structure for MD5:
-- 
2.43.0


From 3bf19ee704ef0b0ef435752321ee2cf16c5f8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:00 +0000
Subject: [PATCH 18/39] fix: count empty files in the archive summary

---
 mopaq/src/archive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 55bdd03..b373e3d 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -642,11 +642,11 @@ impl Archive {
         let file_count = if let Some(bet) = &self.bet_table {
             bet.header.file_count as usize
         } else if let Some(block_table) = &self.block_table {
-            // Count non-empty entries in block table
+            // Count the entries in use; files may be empty
             block_table
                 .entries()
                 .iter()
-                .filter(|entry| entry.file_size != 0)
+                .filter(|entry| entry.exists())
                 .count()
         } else {
             0
-- 
2.43.0


From 6f738301822ba4dd15af4356b03254222c6756cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:17 +0000
Subject: [PATCH 19/39] fix: load deferred tables on first use

---
 mopaq/src/archive.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index b373e3d..5ec53ea 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -325,6 +325,14 @@ impl Archive {
         Ok(archive)
     }
 
+    /// Load the tables if opening the archive left that to the first access
+    fn ensure_tables_loaded(&mut self) -> Result<()> {
+        if self.hash_table.is_none() && self.het_table.is_none() {
+            self.load_tables()?;
+        }
+        Ok(())
+    }
+
     /// Load hash and block tables
     pub fn load_tables(&mut self) -> Result<()> {
         log::debug!(
@@ -630,10 +638,7 @@ impl Archive {
 
     /// Get detailed information about the archive
     pub fn get_info(&mut self) -> Result<ArchiveInfo> {
-        // Ensure tables are loaded
-        if self.hash_table.is_none() && self.het_table.is_none() {
-            self.load_tables()?;
-        }
+        self.ensure_tables_loaded()?;
 
         // Get file size
         let file_size = self.reader.get_ref().metadata()?.len();
@@ -953,6 +958,8 @@ impl Archive {
 
     /// List files in the archive
     pub fn list(&mut self) -> Result<Vec<FileEntry>> {
+        self.ensure_tables_loaded()?;
+
         // Try to find and read (listfile)
         if let Some(_listfile_info) = self.find_file("(listfile)")? {
             // Read the listfile
@@ -1053,6 +1060,8 @@ impl Archive {
     /// List all files in the archive by enumerating tables
     /// This shows all entries, using generic names for files not in listfile
     pub fn list_all(&mut self) -> Result<Vec<FileEntry>> {
+        self.ensure_tables_loaded()?;
+
         let mut entries = Vec::new();
 
         // For v3+ archives, prioritize HET/BET tables if they exist and are valid
@@ -1143,6 +1152,8 @@ impl Archive {
 
     /// List all files in the archive by enumerating tables with hash information
     pub fn list_all_with_hashes(&mut self) -> Result<Vec<FileEntry>> {
+        self.ensure_tables_loaded()?;
+
         let mut entries = Vec::new();
 
         // For v3+ archives, use HET/BET tables
@@ -1216,6 +1227,8 @@ impl Archive {
 
     /// Read a file from the archive
     pub fn read_file(&mut self, name: &str) -> Result<Vec<u8>> {
+        self.ensure_tables_loaded()?;
+
         let file_info = self
             .find_file(name)?
             .ok_or_else(|| Error::FileNotFound(name.to_string()))?;
@@ -1505,6 +1518,8 @@ impl Archive {
 
     /// Load attributes from the (attributes) file if present
     pub fn load_attributes(&mut self) -> Result<()> {
+        self.ensure_tables_loaded()?;
+
         // Check if attributes are already loaded
         if self.attributes.is_some() {
             return Ok(());
@@ -1644,6 +1659,8 @@ impl Archive {
 
     /// Verify the digital signature of the archive
     pub fn verify_signature(&mut self) -> Result<SignatureStatus> {
+        self.ensure_tables_loaded()?;
+
         // First check for strong signature (external to archive)
         if let Ok(strong_status) = self.verify_strong_signature() {
             if strong_status != SignatureStatus::None {
-- 
2.43.0


From 33a25b326015d7fe4a953bd861e5163b26839ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:39 +0000
Subject: [PATCH 20/39] fix: decode ADPCM combined with BZip2, refuse
 combinations that cannot be decoded

---
 mopaq/src/compression/algorithms/bzip2.rs | 19 +++++++++++++------
 mopaq/src/compression/compress.rs         |  8 ++++++++
 mopaq/src/compression/decompress.rs       |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 5e7e4fe..b21ab6a 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -9,12 +9,7 @@ use std::io::{Read, Write};
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data).take(output_limit(expected_size) as u64);
-    let mut decompressed = Vec::new();
-
-    decoder
-        .read_to_end(&mut decompressed)
-        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+    let decompressed = decompress_up_to(data, expected_size)?;
 
     if decompressed.len() != expected_size {
         return Err(Error::compression(format!(
@@ -27,6 +22,18 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     Ok(decompressed)
 }
 
+/// Decompress using BZip2 when only an upper bound of the size is known
+pub(crate) fn decompress_up_to(data: &[u8], max_size: usize) -> Result<Vec<u8>> {
+    let mut decoder = BzDecoder::new(data).take(output_limit(max_size) as u64);
+    let mut decompressed = Vec::new();
+
+    decoder
+        .read_to_end(&mut decompressed)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+
+    Ok(decompressed)
+}
+
 /// Compress using BZip2
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     let mut encoder = BzEncoder::new(Vec::new(), Compression::default());
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index c38de60..258db00 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -58,6 +58,14 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     let has_bzip2 = (flags & flags::BZIP2) != 0;
     let has_sparse = (flags & flags::SPARSE) != 0;
 
+    // Refuse what the steps below would silently leave out
+    if (flags & flags::IMPLODE) != 0 || (has_adpcm_mono && has_adpcm_stereo) {
+        return Err(Error::compression(format!(
+            "Unsupported combination of compression methods: 0x{:02X}",
+            flags
+        )));
+    }
+
     // We apply compressions in order: ADPCM, then others
     let mut current_data = data.to_vec();
 
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0a89b43..71b8573 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -104,7 +104,7 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
         current_data =
-            algorithms::bzip2::decompress(&current_data, expected_size.saturating_mul(4))?;
+            algorithms::bzip2::decompress_up_to(&current_data, expected_size.saturating_mul(4))?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
         current_data =
-- 
2.43.0


From b11fc5c93fbd566c4d0c7251fa95c20ba475c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:54 +0000
Subject: [PATCH 21/39] fix: compress and decompress PKWare data of any length

---
 mopaq/src/compression/algorithms/pkware.rs | 180 ++++++++++++++++++++-
 1 file changed, 175 insertions(+), 5 deletions(-)

diff --git a/mopaq/src/compression/algorithms/pkware.rs b/mopaq/src/compression/algorithms/pkware.rs
index 27ec900..ef3f11a 100644
--- a/mopaq/src/compression/algorithms/pkware.rs
+++ b/mopaq/src/compression/algorithms/pkware.rs
@@ -1,7 +1,8 @@
 //! PKWare compression implementation using pklib
 
+use super::output_limit;
 use crate::{Error, Result};
-use pklib::{explode_bytes, implode_bytes, CompressionMode, DictionarySize};
+use pklib::{implode_bytes, CompressionMode, DictionarySize};
 
 /// Compress data using PKWare DCL algorithm
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
@@ -12,12 +13,41 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
 
     // Use ASCII mode with 2KB dictionary as default for MPQ archives
     // This provides good compression ratio for most data types
-    implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
-        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))
+    let compressed = implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
+        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))?;
+
+    // pklib garbles input that is larger than its work buffer
+    match explode(&compressed, output_limit(data.len())) {
+        Ok(decoded) if decoded == data => Ok(compressed),
+        _ => Ok(implode_literals(data)),
+    }
+}
+
+/// Encode data as a PKWare DCL stream without any repetitions
+fn implode_literals(data: &[u8]) -> Vec<u8> {
+    let mut output = vec![0, 4]; // Binary mode, 1KB dictionary
+    let mut bits = 0u32;
+    let mut bit_count = 0;
+    // Each literal is a 0 bit and the byte, the end is a 1 bit and length 519
+    for (value, count) in data
+        .iter()
+        .map(|&b| ((b as u32) << 1, 9))
+        .chain([(0xFF01, 16)])
+    {
+        bits |= value << bit_count;
+        bit_count += count;
+        while bit_count >= 8 {
+            output.push(bits as u8);
+            bits >>= 8;
+            bit_count -= 8;
+        }
+    }
+    output.push(bits as u8);
+    output
 }
 
 /// Decompress PKWare compressed data
-pub(crate) fn decompress(data: &[u8], _expected_size: usize) -> Result<Vec<u8>> {
+pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     // Handle empty data
     if data.is_empty() {
         return Ok(Vec::new());
@@ -29,7 +59,7 @@ pub(crate) fn decompress(data: &[u8], _expected_size: usize) -> Result<Vec<u8>>
         &data[..std::cmp::min(16, data.len())]
     );
 
-    explode_bytes(data).map_err(|e| {
+    explode(data, output_limit(expected_size)).map_err(|e| {
         log::error!(
             "PKWare decompression failed with input size {}: {}",
             data.len(),
@@ -39,6 +69,146 @@ pub(crate) fn decompress(data: &[u8], _expected_size: usize) -> Result<Vec<u8>>
     })
 }
 
+/// Lengths of the literal codes in ASCII mode, as (count - 1) << 4 | length
+const LITERAL_CODE_LENGTHS: [u8; 98] = [
+    11, 124, 8, 7, 28, 7, 188, 13, 76, 4, 10, 8, 12, 10, 12, 10, 8, 23, 8, 9, 7, 6, 7, 8, 7, 6, 55,
+    8, 23, 24, 12, 11, 7, 9, 11, 12, 6, 7, 22, 5, 7, 24, 6, 11, 9, 6, 7, 22, 7, 11, 38, 7, 9, 8,
+    25, 11, 8, 11, 9, 12, 8, 12, 5, 38, 5, 38, 5, 11, 7, 5, 6, 21, 6, 10, 53, 8, 7, 24, 10, 27, 44,
+    253, 253, 253, 252, 252, 252, 13, 12, 45, 12, 45, 12, 61, 12, 45, 44, 173,
+];
+
+/// Lengths of the length codes, same notation
+const LENGTH_CODE_LENGTHS: [u8; 6] = [2, 35, 36, 53, 38, 23];
+
+/// Lengths of the distance codes, same notation
+const DISTANCE_CODE_LENGTHS: [u8; 7] = [2, 20, 53, 230, 247, 151, 248];
+
+/// Base value and number of extra bits of each length code
+const LENGTH_BASE: [usize; 16] = [3, 2, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 40, 72, 136, 264];
+const LENGTH_EXTRA: [u32; 16] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8];
+
+/// Length that marks the end of the stream
+const LENGTH_END: usize = 519;
+
+/// Canonical Huffman code with inverted bits, as used by PKWare DCL
+struct Code {
+    /// Number of symbols with each code length
+    counts: [usize; 14],
+    /// Symbols ordered by code
+    symbols: Vec<u8>,
+}
+
+impl Code {
+    fn new(packed_lengths: &[u8]) -> Self {
+        let lengths: Vec<usize> = packed_lengths
+            .iter()
+            .flat_map(|&p| std::iter::repeat((p & 0x0F) as usize).take((p >> 4) as usize + 1))
+            .collect();
+        let mut counts = [0; 14];
+        for &length in &lengths {
+            counts[length] += 1;
+        }
+        let mut symbols: Vec<u8> = (0..lengths.len()).map(|symbol| symbol as u8).collect();
+        symbols.sort_by_key(|&symbol| lengths[symbol as usize]);
+        Self { counts, symbols }
+    }
+}
+
+/// Reads bits from the compressed data, lowest bit first
+struct BitReader<'a> {
+    data: &'a [u8],
+    position: usize,
+}
+
+impl BitReader<'_> {
+    fn bit(&mut self) -> Result<usize> {
+        let byte = self
+            .data
+            .get(self.position / 8)
+            .ok_or_else(|| Error::compression("unexpected end of data"))?;
+        let bit = (byte >> (self.position % 8)) & 1;
+        self.position += 1;
+        Ok(bit as usize)
+    }
+
+    fn bits(&mut self, count: u32) -> Result<usize> {
+        let mut value = 0;
+        for i in 0..count {
+            value |= self.bit()? << i;
+        }
+        Ok(value)
+    }
+
+    fn symbol(&mut self, code: &Code) -> Result<usize> {
+        let (mut value, mut first, mut index) = (0, 0, 0);
+        for &count in &code.counts[1..] {
+            value = (value << 1) | (self.bit()? ^ 1);
+            first <<= 1;
+            if value < first + count {
+                return Ok(code.symbols[index + value - first] as usize);
+            }
+            first += count;
+            index += count;
+        }
+        Err(Error::compression("invalid code"))
+    }
+}
+
+/// Decode a PKWare DCL stream of any length
+fn explode(data: &[u8], limit: usize) -> Result<Vec<u8>> {
+    if data.len() <= 4 {
+        return Err(Error::compression("not enough data"));
+    }
+    let ascii = match data[0] {
+        0 => false,
+        1 => true,
+        mode => return Err(Error::compression(format!("invalid mode {}", mode))),
+    };
+    let dictionary_bits = data[1] as u32;
+    if !(4..=6).contains(&dictionary_bits) {
+        return Err(Error::compression("invalid dictionary size"));
+    }
+
+    let literal_code = Code::new(&LITERAL_CODE_LENGTHS);
+    let length_code = Code::new(&LENGTH_CODE_LENGTHS);
+    let distance_code = Code::new(&DISTANCE_CODE_LENGTHS);
+
+    let mut input = BitReader {
+        data: &data[2..],
+        position: 0,
+    };
+    let mut output = Vec::new();
+
+    while output.len() < limit {
+        if input.bit()? == 0 {
+            let literal = if ascii {
+                input.symbol(&literal_code)?
+            } else {
+                input.bits(8)?
+            };
+            output.push(literal as u8);
+            continue;
+        }
+
+        let symbol = input.symbol(&length_code)?;
+        let length = LENGTH_BASE[symbol] + input.bits(LENGTH_EXTRA[symbol])?;
+        if length == LENGTH_END {
+            return Ok(output);
+        }
+        let low_bits = if length == 2 { 2 } else { dictionary_bits };
+        let distance = (input.symbol(&distance_code)? << low_bits) + input.bits(low_bits)? + 1;
+        let start = output
+            .len()
+            .checked_sub(distance)
+            .ok_or_else(|| Error::compression("distance beyond the start of the data"))?;
+        for i in start..start + length {
+            output.push(output[i]);
+        }
+    }
+
+    Err(Error::compression("no end of stream marker"))
+}
+
 /// Compress data using PKWare DCL algorithm with specific parameters
 #[allow(dead_code)]
 pub(crate) fn compress_with_options(
-- 
2.43.0


From 5c13c139bebfec92a92867aadc1675fb02de85e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:16 +0000
Subject: [PATCH 22/39] fix: do not pad sparse data to any declared size

---
 mopaq/src/compression/algorithms/sparse.rs | 23 +++++++++++++++++-----
 mopaq/src/compression/decompress.rs        |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index 6453b91..61c9d54 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -1,9 +1,27 @@
 //! Sparse/RLE compression and decompression
 
+use super::output_limit;
 use crate::{Error, Result};
 
 /// Decompress sparse/RLE compressed data
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
+    let mut output = decompress_up_to(data, expected_size)?;
+
+    // Pad with zeros if needed
+    if output.len() < expected_size {
+        if expected_size > output_limit(output.len()) {
+            return Err(Error::compression(
+                "Sparse data is much smaller than its declared size",
+            ));
+        }
+        output.resize(expected_size, 0);
+    }
+
+    Ok(output)
+}
+
+/// Decompress sparse data when only an upper bound of the size is known
+pub(crate) fn decompress_up_to(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     // Sparse compression is a simple RLE format
     let mut output = Vec::new();
     let mut pos = 0;
@@ -35,11 +53,6 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
         }
     }
 
-    // Pad with zeros if needed
-    if output.len() < expected_size {
-        output.resize(expected_size, 0);
-    }
-
     Ok(output)
 }
 
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 71b8573..588d209 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -108,7 +108,7 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
         current_data =
-            algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
+            algorithms::sparse::decompress_up_to(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
         current_data =
-- 
2.43.0


From 4db37ff7e0408ba5d8db6eaeb2c144426be7f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 23/39] fix: release the archive lock before verifying all
 files

---
 storm-ffi/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..09b7513 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1227,6 +1227,9 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             }
         };
 
+        // SFileVerifyFile takes the lock itself
+        drop(archives);
+
         // Verify each file individually
         for file_entry in file_list {
             // Skip special files and directories
@@ -1257,8 +1260,9 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
 
                 if !SFileVerifyFile(archive, filename_cstr.as_ptr(), all_verify_flags) {
                     let last_error = SFileGetLastError();
-                    // Only fail on corruption, not missing attributes
-                    if last_error == ERROR_FILE_CORRUPT {
+                    // Only fail on corruption, not missing attributes, and when
+                    // the archive has been closed meanwhile
+                    if last_error == ERROR_FILE_CORRUPT || last_error == ERROR_INVALID_HANDLE {
                         return false;
                     }
                 }
-- 
2.43.0


From b84a9da3c478f8fc5fae434a958ee72c72a1cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 24/39] fix: release the archive lock before calling
 enumeration callbacks

---
 storm-ffi/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 09b7513..1c54ddb 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -838,8 +838,11 @@ pub unsafe extern "C" fn SFileEnumFiles(
         return false;
     };
 
-    // List files
-    match archive_handle.archive.list() {
+    // List files, and let the callback use the API
+    let entries = archive_handle.archive.list();
+    drop(archives);
+
+    match entries {
         Ok(entries) => {
             for entry in entries {
                 // Simple pattern matching (just * for now)
-- 
2.43.0


From 475440252def2c96fb4e331fce7076c7f717d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 25/39] fix: close an archive and its files in one step

---
 storm-ffi/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 1c54ddb..e29148f 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -290,14 +290,16 @@ pub unsafe extern "C" fn SFileCreateArchive(
 #[no_mangle]
 pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
     if let Some(handle_id) = handle_to_id(handle) {
-        // Remove any open files from this archive
-        FILES
-            .lock()
-            .unwrap()
-            .retain(|_, file| file.archive_handle != handle_id);
-
         // Close the archive
-        if ARCHIVES.lock().unwrap().remove(&handle_id).is_some() {
+        let mut archives = ARCHIVES.lock().unwrap();
+        if archives.remove(&handle_id).is_some() {
+            // Remove any open files from this archive; files are only opened
+            // under the archive lock, so none can be added in between
+            FILES
+                .lock()
+                .unwrap()
+                .retain(|_, file| file.archive_handle != handle_id);
+
             set_last_error(ERROR_SUCCESS);
             true
         } else {
-- 
2.43.0


From 7af5ad0ecc28d702bb07a7b659dacce30ce681af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 26/39] fix: refuse seeks before the start of a file, combine
 64-bit offsets correctly

---
 storm-ffi/src/lib.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index e29148f..d429970 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -527,26 +527,32 @@ pub unsafe extern "C" fn SFileSetFilePointer(
         return 0xFFFFFFFF;
     };
 
-    // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    // Combine high and low parts into 64-bit offset; without a high part the
+    // low part is signed
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        ((*file_pos_high as i64) << 32) | (file_pos as u32 as i64)
+    };
 
     // Calculate new position
-    let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+    let base = match move_method {
+        0 => 0,                             // FILE_BEGIN
+        1 => file_handle.position as i64,   // FILE_CURRENT
+        2 => file_handle.data.len() as i64, // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
+    let new_pos = base.saturating_add(offset);
+    if new_pos < 0 {
+        set_last_error(ERROR_INVALID_PARAMETER);
+        return 0xFFFFFFFF;
+    }
 
     // Clamp to file size
-    file_handle.position = new_pos.min(file_handle.data.len());
+    file_handle.position = (new_pos as u64).min(file_handle.data.len() as u64) as usize;
 
     // Return new position
     let pos = file_handle.position as u64;
-- 
2.43.0


From ea335d9e4ac050a60d4add1fb4e00b6f6ccaf40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 27/39] fix: set the last error in SFileHasFile

---
 storm-ffi/src/lib.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index d429970..9c4810c 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -572,23 +572,42 @@ pub unsafe extern "C" fn SFileSetFilePointer(
 #[no_mangle]
 pub unsafe extern "C" fn SFileHasFile(archive: HANDLE, filename: *const c_char) -> bool {
     if filename.is_null() {
+        set_last_error(ERROR_INVALID_PARAMETER);
         return false;
     }
 
     let Some(archive_id) = handle_to_id(archive) else {
+        set_last_error(ERROR_INVALID_HANDLE);
         return false;
     };
 
     let filename_str = match CStr::from_ptr(filename).to_str() {
         Ok(s) => s,
-        Err(_) => return false,
+        Err(_) => {
+            set_last_error(ERROR_INVALID_PARAMETER);
+            return false;
+        }
     };
 
     let archives = ARCHIVES.lock().unwrap();
-    if let Some(archive_handle) = archives.get(&archive_id) {
-        matches!(archive_handle.archive.find_file(filename_str), Ok(Some(_)))
-    } else {
-        false
+    let Some(archive_handle) = archives.get(&archive_id) else {
+        set_last_error(ERROR_INVALID_HANDLE);
+        return false;
+    };
+
+    match archive_handle.archive.find_file(filename_str) {
+        Ok(Some(_)) => {
+            set_last_error(ERROR_SUCCESS);
+            true
+        }
+        Ok(None) => {
+            set_last_error(ERROR_FILE_NOT_FOUND);
+            false
+        }
+        Err(_) => {
+            set_last_error(ERROR_FILE_CORRUPT);
+            false
+        }
     }
 }
 
-- 
2.43.0


From 9c00bc9172fbacfe191c0fb808878911a7f7d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 28/39] fix: keep extracted files inside the target directory

---
 storm-cli/src/commands/file.rs | 57 +++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..ecd0947 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -6,7 +6,7 @@ use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use crate::output::{
     print_file_info, print_file_list, print_file_list_verbose, print_file_list_with_hashes,
@@ -93,7 +93,8 @@ pub fn extract(
         } else if preserve_path {
             PathBuf::from(filename)
         } else {
-            PathBuf::from(Path::new(filename).file_name().unwrap())
+            relative_output_path(filename, false)
+                .context(format!("No usable file name in: {}", filename))?
         };
 
         // Create parent directories if needed
@@ -112,33 +113,47 @@ pub fn extract(
         let file_entries = archive.list()?;
         let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
 
+        let mut failed = 0;
         for filename in &files {
+            // Names come from the archive: never leave the target directory
+            let Some(relative_path) = relative_output_path(filename, preserve_path) else {
+                eprintln!("Failed to extract {}: unsafe path", filename);
+                failed += 1;
+                continue;
+            };
+
             let data = match archive.read_file(filename) {
                 Ok(data) => data,
                 Err(e) => {
                     eprintln!("Failed to extract {}: {}", filename, e);
+                    failed += 1;
                     continue;
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
-            };
+            let output_path = PathBuf::from(output_dir).join(relative_path);
 
             // Create parent directories if needed
-            if let Some(parent) = output_path.parent() {
-                fs::create_dir_all(parent)?;
+            let written = match output_path.parent() {
+                Some(parent) => fs::create_dir_all(parent),
+                None => Ok(()),
+            }
+            .and_then(|_| fs::write(&output_path, data));
+            if let Err(e) = written {
+                eprintln!("Failed to extract {}: {}", filename, e);
+                failed += 1;
+                continue;
             }
-
-            fs::write(&output_path, data)?;
 
             if !global_opts.quiet {
                 println!("Extracted: {}", filename);
             }
         }
 
+        if failed > 0 {
+            anyhow::bail!("{} of {} files could not be extracted", failed, files.len());
+        }
+
         if !global_opts.quiet {
             println!("{} Extracted {} files", "✓".green(), files.len());
         }
@@ -147,6 +162,26 @@ pub fn extract(
     Ok(())
 }
 
+/// Where to put an archive entry, relative to the target directory
+///
+/// Returns `None` for names that would lead out of it or do not name a file.
+fn relative_output_path(filename: &str, preserve_path: bool) -> Option<PathBuf> {
+    let path = Path::new(filename);
+    if !preserve_path {
+        return path.file_name().map(PathBuf::from);
+    }
+
+    let mut relative = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(part) => relative.push(part),
+            Component::CurDir => {}
+            Component::ParentDir | Component::RootDir | Component::Prefix(_) => return None,
+        }
+    }
+    (!relative.as_os_str().is_empty()).then_some(relative)
+}
+
 /// Add files to an existing archive
 pub fn add(
     _archive_path: &str,
-- 
2.43.0


From beafbb736c44c63eeca0c9a88d7036b611b78a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 29/39] fix: fail verification when a stored digest does not
 match

---
 storm-cli/src/commands/archive.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index ce1c57f..12e85bc 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -212,6 +212,21 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
             het_table_valid: md5_status.het_table_valid,
             bet_table_valid: md5_status.bet_table_valid,
         });
+
+        for (name, valid) in [
+            ("header", md5_status.header_valid),
+            ("hash table", md5_status.hash_table_valid),
+            ("block table", md5_status.block_table_valid),
+            ("hi-block table", md5_status.hi_block_table_valid),
+            ("HET table", md5_status.het_table_valid),
+            ("BET table", md5_status.bet_table_valid),
+        ] {
+            if !valid {
+                verification_results
+                    .errors
+                    .push((format!("({})", name), "MD5 checksum mismatch".to_string()));
+            }
+        }
     }
 
     // Check digital signature
-- 
2.43.0


From bedcf952b3f5504cea5306b28707ec9a26d174e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 30/39] fix: open archives whose attributes file is damaged

---
 mopaq/src/archive.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 5ec53ea..fa15889 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -499,8 +499,11 @@ impl Archive {
             }
         }
 
-        // Load attributes if present
-        self.load_attributes()?;
+        // Load attributes if present; they are optional, so damage to them
+        // does not make the rest of the archive inaccessible
+        if let Err(e) = self.load_attributes() {
+            log::warn!("Failed to load attributes: {}", e);
+        }
 
         Ok(())
     }
-- 
2.43.0


From b3f490e395b0d6e35696116d6a3e536c04652132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:06 +0000
Subject: [PATCH 31/39] fix: apply ignore patterns to archive paths and as
 globs

The documented use (--ignore "*.tmp") matched nothing, and a pattern that
occurs in the path of the source directory itself excluded every file.
---
 storm-cli/src/commands/archive.rs | 37 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 12e85bc..212cbbd 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -108,24 +108,20 @@ fn add_directory_to_archive(
             continue;
         }
 
-        // Check ignore patterns
-        let should_ignore = options.ignore_patterns.iter().any(|pattern| {
-            path.to_string_lossy().contains(pattern)
-                || path
-                    .file_name()
-                    .map(|name| name.to_string_lossy().contains(pattern))
-                    .unwrap_or(false)
-        });
-
-        if should_ignore {
-            continue;
-        }
-
         // Calculate relative path for archive
         let relative_path = path
             .strip_prefix(dir_path)
             .context("Failed to calculate relative path")?;
 
+        // Check ignore patterns
+        if options
+            .ignore_patterns
+            .iter()
+            .any(|pattern| is_ignored(relative_path, pattern))
+        {
+            continue;
+        }
+
         let archive_path = if archive_prefix.is_empty() {
             relative_path.to_string_lossy().to_string()
         } else {
@@ -145,6 +141,21 @@ fn add_directory_to_archive(
     Ok(builder)
 }
 
+/// Whether an ignore pattern (a glob, or a part of the path) applies to a file
+fn is_ignored(relative_path: &Path, pattern: &str) -> bool {
+    let path = relative_path.to_string_lossy();
+    if path.contains(pattern) {
+        return true;
+    }
+    let file_name = relative_path
+        .file_name()
+        .map(|name| name.to_string_lossy())
+        .unwrap_or_default();
+    glob::Pattern::new(pattern)
+        .map(|glob| glob.matches(&path) || glob.matches(&file_name))
+        .unwrap_or(false)
+}
+
 /// Show detailed archive information
 pub fn info(archive_path: &str) -> Result<()> {
     let global_opts = GLOBAL_OPTS.get().expect("Global options not set");
-- 
2.43.0


From d9277e6c5faadf2fd205b7245e8a1d07934a0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:06 +0000
Subject: [PATCH 32/39] fix: list long non-ASCII names verbosely without
 panicking

---
 storm-cli/src/output.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index e2bb87c..623ecb3 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -451,8 +451,9 @@ pub fn print_file_list_verbose(files: &[FileEntry]) -> Result<(), io::Error> {
         };
 
         // Truncate long filenames
-        let display_name = if entry.name.len() > 39 {
-            format!("{}...", &entry.name[..36])
+        let display_name = if entry.name.chars().count() > 39 {
+            let start: String = entry.name.chars().take(36).collect();
+            format!("{}...", start)
         } else {
             entry.name.clone()
         };
-- 
2.43.0


From 02774a1b3f1f5d6e8da006bdf075ace55810778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:07 +0000
Subject: [PATCH 33/39] fix: extract a single file into a target directory

The target is documented as a directory or file, but a directory was
treated as the name of the file to write and always failed.
---
 storm-cli/src/commands/file.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index ecd0947..e1f7b3e 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -89,7 +89,15 @@ pub fn extract(
             .context(format!("Failed to read file: {}", filename))?;
 
         let output_path = if let Some(out) = output {
-            PathBuf::from(out)
+            let target = PathBuf::from(out);
+            if target.is_dir() || out.ends_with('/') {
+                target.join(
+                    relative_output_path(filename, preserve_path)
+                        .context(format!("No usable file name in: {}", filename))?,
+                )
+            } else {
+                target
+            }
         } else if preserve_path {
             PathBuf::from(filename)
         } else {
-- 
2.43.0


From ae53e6e0205dd507ca0c2dc1092c3999241de018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:26 +0000
Subject: [PATCH 34/39] fix: verify archives without a name list

Listing such an archive makes up names; verify looked those up, did not
find them, and reported an intact archive as damaged.
---
 storm-cli/src/commands/archive.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 212cbbd..9b26862 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -246,8 +246,18 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
 
     // Verify individual files
     let file_entries = archive.list()?;
-    let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
-    verification_results.total_files = files.len();
+    verification_results.total_files = file_entries.len();
+    let files: Vec<String> = if archive_info.has_listfile {
+        file_entries.into_iter().map(|e| e.name).collect()
+    } else {
+        // The names are unknown, so the files cannot be looked up
+        if !file_entries.is_empty() {
+            verification_results
+                .warnings
+                .push("No (listfile) found, files were not checked".to_string());
+        }
+        Vec::new()
+    };
 
     for filename in &files {
         // First check if file exists in archive
-- 
2.43.0


From ef7e1b2603f5e61268847eb60b42e3beca16cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:38 +0000
Subject: [PATCH 35/39] fix: leave the bytes after the last whole word of
 encrypted data unencrypted

The published cipher works on whole words. The library encrypted the last
one to three bytes as a word of their own, so encrypted files of other
writers came out with a damaged end, and the other way round.
---
 mopaq/src/archive.rs | 20 ++------------------
 mopaq/src/builder.rs | 19 ++-----------------
 2 files changed, 4 insertions(+), 35 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index fa15889..8199f73 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
+    crypto::{decrypt_block, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{read_bytes, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -1856,23 +1856,7 @@ fn decrypt_file_data(data: &mut [u8], key: u32) {
         }
     }
 
-    // Handle remaining bytes if not aligned to 4
-    let remainder = data.len() % 4;
-    if remainder > 0 {
-        let offset = chunks * 4;
-
-        // Read remaining bytes into a u32 (padding with zeros)
-        let mut last_bytes = [0u8; 4];
-        last_bytes[..remainder].copy_from_slice(&data[offset..(remainder + offset)]);
-        let last_dword = u32::from_le_bytes(last_bytes);
-
-        // Decrypt with adjusted key
-        let decrypted = decrypt_dword(last_dword, key.wrapping_add(chunks as u32));
-
-        // Write back only the remainder bytes
-        let decrypted_bytes = decrypted.to_le_bytes();
-        data[offset..(remainder + offset)].copy_from_slice(&decrypted_bytes[..remainder]);
-    }
+    // The bytes after the last whole u32 are not encrypted
 }
 
 /// Information about a file in the archive
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 70051a3..dca2e70 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1344,8 +1344,8 @@ impl ArchiveBuilder {
             return;
         }
 
-        // Process full u32 chunks
-        let (chunks, remainder) = data.split_at_mut((data.len() / 4) * 4);
+        // Only whole u32 chunks are encrypted, the bytes after the last one are not
+        let (chunks, _) = data.split_at_mut((data.len() / 4) * 4);
 
         // Convert chunks to u32 values, encrypt, and write back
         let mut u32_buffer = Vec::with_capacity(chunks.len() / 4);
@@ -1360,21 +1360,6 @@ impl ArchiveBuilder {
             let bytes = encrypted.to_le_bytes();
             chunks[i * 4..(i + 1) * 4].copy_from_slice(&bytes);
         }
-
-        // Handle remaining bytes
-        if !remainder.is_empty() {
-            let mut last_dword = [0u8; 4];
-            last_dword[..remainder.len()].copy_from_slice(remainder);
-
-            let mut last_u32 = u32::from_le_bytes(last_dword);
-            encrypt_block(
-                std::slice::from_mut(&mut last_u32),
-                key.wrapping_add((chunks.len() / 4) as u32),
-            );
-
-            let encrypted_bytes = last_u32.to_le_bytes();
-            remainder.copy_from_slice(&encrypted_bytes[..remainder.len()]);
-        }
     }
     /// Encrypt u32 data in place
     fn encrypt_data_u32(&self, data: &mut [u32], key: u32) {
-- 
2.43.0


From ade4cd9f22c262fab9798638605406c60b45a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:37 +0000
Subject: [PATCH 36/39] fix: derive file keys from the plain file name

The format hashes only the part of the name after the last separator, so
encrypted files in directories written by other tools could not be read, and
other tools could not read ours.
---
 docs/mopaq-format.md     | 5 +++--
 mopaq/src/archive.rs     | 4 ++--
 mopaq/src/builder.rs     | 4 ++--
 mopaq/src/crypto/hash.rs | 6 ++++++
 mopaq/src/crypto/mod.rs  | 1 +
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/docs/mopaq-format.md b/docs/mopaq-format.md
index 6bb02d7..9477606 100644
--- a/docs/mopaq-format.md
+++ b/docs/mopaq-format.md
@@ -999,8 +999,9 @@ Different parts of the MPQ file are encrypted with different keys:
 /// Compute a file's encryption key
 fn compute_file_key(file_name: &str, file_pos: u32, file_size: u32, flags: u32,
                     encryption_table: &[u32; 0x500]) -> u32 {
-    // Get the base key from the filename
-    let mut key = hash_string(file_name, MPQ_HASH_FILE_KEY, encryption_table);
+    // Get the base key from the filename, without its directories
+    let plain_name = file_name.rsplit(['\\', '/']).next().unwrap_or(file_name);
+    let mut key = hash_string(plain_name, MPQ_HASH_FILE_KEY, encryption_table);
 
     // Apply FIX_KEY modification if flag is set
     if (flags & MpqBlockEntry::FLAG_FIX_KEY) != 0 {
diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 8199f73..a491061 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, hash_string, hash_type, jenkins_hash},
+    crypto::{decrypt_block, hash_string, hash_type, jenkins_hash, plain_file_name},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{read_bytes, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -1256,7 +1256,7 @@ impl Archive {
 
         // Calculate encryption key if needed
         let key = if file_info.is_encrypted() {
-            let base_key = hash_string(name, hash_type::FILE_KEY);
+            let base_key = hash_string(plain_file_name(name), hash_type::FILE_KEY);
             if file_info.has_fix_key() {
                 // Apply FIX_KEY modification
                 let file_pos = (file_info.file_pos - self.archive_offset) as u32;
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index dca2e70..75b99f0 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     compression::{compress, flags as compression_flags},
-    crypto::{encrypt_block, hash_string, hash_type, jenkins_hash},
+    crypto::{encrypt_block, hash_string, hash_type, jenkins_hash, plain_file_name},
     header::{FormatVersion, MpqHeaderV4Data},
     tables::{BetHeader, BlockEntry, BlockTable, HashEntry, HashTable, HetHeader, HiBlockTable},
     Error, Result,
@@ -1328,7 +1328,7 @@ impl ArchiveBuilder {
 
     /// Calculate file encryption key
     fn calculate_file_key(&self, filename: &str, file_pos: u64, file_size: u32, flags: u32) -> u32 {
-        let base_key = hash_string(filename, hash_type::FILE_KEY);
+        let base_key = hash_string(plain_file_name(filename), hash_type::FILE_KEY);
 
         if flags & BlockEntry::FLAG_FIX_KEY != 0 {
             // For FIX_KEY, use only the low 32 bits of the file position
diff --git a/mopaq/src/crypto/hash.rs b/mopaq/src/crypto/hash.rs
index 6c43a60..6e67672 100644
--- a/mopaq/src/crypto/hash.rs
+++ b/mopaq/src/crypto/hash.rs
@@ -32,6 +32,12 @@ pub fn hash_string(filename: &str, hash_type: u32) -> u32 {
     seed1
 }
 
+/// The part of a file name that file encryption keys are derived from: the
+/// name without its directories
+pub(crate) fn plain_file_name(filename: &str) -> &str {
+    filename.rsplit(['\\', '/']).next().unwrap_or(filename)
+}
+
 /// Jenkins hash function for HET tables
 pub fn jenkins_hash(filename: &str) -> u64 {
     let mut hash: u64 = 0;
diff --git a/mopaq/src/crypto/mod.rs b/mopaq/src/crypto/mod.rs
index e742425..54fcab8 100644
--- a/mopaq/src/crypto/mod.rs
+++ b/mopaq/src/crypto/mod.rs
@@ -23,3 +23,4 @@ pub use types::hash_type;
 pub use keys::ENCRYPTION_TABLE;
 
 // Internal-only exports
+pub(crate) use hash::plain_file_name;
-- 
2.43.0


From 7ef4317f5b4df5976f919be2108bcac8ee83ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:15 +0000
Subject: [PATCH 37/39] fix: verify every listed file, also those named like
 (x) or ending in a separator

---
 storm-ffi/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 9c4810c..44875a5 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1262,11 +1262,11 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
 
         // Verify each file individually
         for file_entry in file_list {
-            // Skip special files and directories
-            if file_entry.name.starts_with('(') && file_entry.name.ends_with(')') {
-                continue;
-            }
-            if file_entry.name.ends_with('/') || file_entry.name.ends_with('\\') {
+            // Skip the special files; any other entry is a stored file
+            if ["(listfile)", "(attributes)", "(signature)"]
+                .iter()
+                .any(|special| file_entry.name.eq_ignore_ascii_case(special))
+            {
                 continue;
             }
 
-- 
2.43.0


From 099c5aa416f0c0f7fd391930b0c7e8196c48c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:03 +0000
Subject: [PATCH 38/39] fix: refuse files and version 1 archives that exceed 4
 GiB

---
 mopaq/src/builder.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 75b99f0..7edc658 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -710,6 +710,13 @@ impl ArchiveBuilder {
         // Calculate archive size
         let archive_size = writer.stream_position()?;
 
+        // Version 1 has 32-bit positions only
+        if self.version == FormatVersion::V1 && archive_size > u32::MAX as u64 {
+            return Err(Error::invalid_format(
+                "Archive too large for format version 1",
+            ));
+        }
+
         // Write header at the beginning
         writer.seek(SeekFrom::Start(0))?;
         let header_params = HeaderWriteParams {
@@ -911,6 +918,11 @@ impl ArchiveBuilder {
         } = params;
         let mut flags = 0u32;
 
+        // Sizes of files are stored in 32 bits
+        if file_data.len() > u32::MAX as usize {
+            return Err(file_too_large(archive_name));
+        }
+
         // For small files or if single unit is requested, write as single unit
         let is_single_unit = file_data.len() <= *sector_size;
 
@@ -1049,7 +1061,8 @@ impl ArchiveBuilder {
             }
 
             // Set last offset
-            sector_offsets[sector_count] = (data_start + sector_data.len()) as u32;
+            sector_offsets[sector_count] = u32::try_from(data_start + sector_data.len())
+                .map_err(|_| file_too_large(archive_name))?;
 
             // Log CRC generation if enabled
             if self.generate_crcs {
@@ -1868,6 +1881,11 @@ impl ArchiveBuilder {
     }
 }
 
+/// The error for a file whose size or offsets do not fit the format
+fn file_too_large(archive_name: &str) -> Error {
+    Error::invalid_format(format!("File too large for the format: {archive_name}"))
+}
+
 impl Default for ArchiveBuilder {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 80988488fe89098c6a63474a2378614b04eeaa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:09 +0000
Subject: [PATCH 39/39] fix: report a strong signature in the archive
 information

---
 mopaq/src/archive.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index a491061..f3f6f7f 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -683,18 +683,16 @@ impl Archive {
             false
         };
 
-        // Verify signature if present
-        let signature_status = if has_signature {
-            match self.verify_signature() {
-                Ok(status) => status,
-                Err(e) => {
-                    log::warn!("Failed to verify signature: {}", e);
-                    SignatureStatus::WeakInvalid
-                }
+        // Verify signature if present; a strong signature is not a file of the archive
+        let signature_status = match self.verify_signature() {
+            Ok(status) => status,
+            Err(e) if has_signature => {
+                log::warn!("Failed to verify signature: {}", e);
+                SignatureStatus::WeakInvalid
             }
-        } else {
-            SignatureStatus::None
+            Err(_) => SignatureStatus::None,
         };
+        let has_signature = has_signature || signature_status != SignatureStatus::None;
 
         // Build table info
         let hash_table_info = TableInfo {
-- 
2.43.0

