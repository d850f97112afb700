From f30f2383fbb5cf6743d4fa1fae0f8ec555a654fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 01/23] fix: never start a new file on the reserved track (1571
 track 53)

---
 src/disk/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disk/format.rs b/src/disk/format.rs
index 314d58f..f9f2068 100644
--- a/src/disk/format.rs
+++ b/src/disk/format.rs
@@ -157,7 +157,7 @@ impl DiskFormat {
             // Check bottom half
             if distance <= self.directory_track {
                 let track = self.directory_track - distance;
-                if track >= self.first_track {
+                if track >= self.first_track && !self.is_reserved_track(track) {
                     let entry = bam.entry(track)?;
                     if entry.has_availability() {
                         return Ok((track, entry));
@@ -166,7 +166,7 @@ impl DiskFormat {
             }
             // Check top half
             let track = self.directory_track + distance;
-            if track <= self.last_track {
+            if track <= self.last_track && !self.is_reserved_track(track) {
                 let entry = bam.entry(track)?;
                 if entry.has_availability() {
                     return Ok((track, entry));
-- 
2.43.0


From 17d62a3aec888c3924af85d2391fa879ebc2fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:49 +0000
Subject: [PATCH 02/23] fix: write the record length when serialising a
 relative file's directory entry

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..0252f93 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -282,6 +282,7 @@ impl RelativeExtra {
         assert_eq!(bytes.len(), EXTRA_SIZE);
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET] = self.first_side_sector.0;
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET + 1] = self.first_side_sector.1;
+        bytes[Self::RECORD_LENGTH_OFFSET] = self.record_length;
         (&mut bytes[Self::UNUSED_OFFSET..EXTRA_SIZE]).copy_from_slice(&self.unused);
     }
 }
-- 
2.43.0


From 4b807a07fc36d66096b548a19cebd806430327ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:09 +0000
Subject: [PATCH 03/23] fix: reset the storage scheme when a directory slot is
 reused

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 0252f93..db05a7f 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -458,6 +458,7 @@ impl DirectoryEntry {
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
         self.file_size = 0;
+        self.scheme = Scheme::Linear;
         // The position field must be left untouched.
     }
 
-- 
2.43.0


From 6e56f62a9bf97df31c060de0900546c47ce17f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:09 +0000
Subject: [PATCH 04/23] fix: keep the GEOS border flag when an entry is re-read
 in place

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index db05a7f..f1c5c38 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -467,6 +467,7 @@ impl DirectoryEntry {
     /// of the same entry.
     fn reread_from_bytes(&mut self, bytes: &[u8]) {
         let mut entry = DirectoryEntry::parse(bytes, self.position);
+        entry.geos_border = self.geos_border;
         ::std::mem::swap(self, &mut entry);
     }
 
-- 
2.43.0


From e24a3621419a4cc81188c9436764c8f771798174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:00 +0000
Subject: [PATCH 05/23] fix: detect looping chains when opening a file for
 writing

---
 src/disk/chain.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..1ea9f54 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -213,19 +213,11 @@ impl ChainWriter {
         start: Location,
     ) -> io::Result<ChainWriter> {
         // Advance to the last block in the chain.
-        let tail_block;
-        let mut tail_location;
-        {
-            let blocks = blocks.borrow();
-
-            let mut block = blocks.sector(start)?;
-            tail_location = start;
-            while let ChainLink::Next(location) = ChainLink::new(block)? {
-                block = blocks.sector(location)?;
-                tail_location = location;
-            }
-            tail_block = block.to_vec();
+        let mut tail_location = start;
+        for sector in ChainIterator::new(blocks.clone(), start) {
+            tail_location = sector?.location;
         }
+        let tail_block = blocks.borrow().sector(tail_location)?.to_vec();
 
         Ok(ChainWriter {
             blocks,
-- 
2.43.0


From 67fcd452544fde025275fa67a1ff503ad555f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:01 +0000
Subject: [PATCH 06/23] fix: refuse to allocate or free sectors the BAM does
 not cover

---
 src/disk/bam.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..a605b48 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -274,23 +274,41 @@ impl Bam {
     }
 
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
-        self.check_validity()?;
-        Ok(&self.entries[(track - 1) as usize])
+        let index = self.entry_index(track)?;
+        Ok(&self.entries[index])
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
+        let index = self.entry_index(track)?;
+        Ok(&mut self.entries[index])
+    }
+
+    /// Return the index of the entry for a track, if the BAM covers it.
+    fn entry_index(&self, track: u8) -> io::Result<usize> {
         self.check_validity()?;
-        Ok(&mut self.entries[(track - 1) as usize])
+        if track < 1 || track as usize > self.entries.len() {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(track as usize - 1)
+    }
+
+    /// Confirm that the BAM covers the specified sector.
+    fn check_location(&self, location: Location) -> io::Result<()> {
+        self.entry_index(location.0)?;
+        if location.1 >= self.format.tracks[location.0 as usize].sectors {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
     }
 
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
-        self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
-        self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
-- 
2.43.0


From 42b26d3fdc9c02a064f2edb51fe107070cc8a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:02 +0000
Subject: [PATCH 07/23] fix: write the GEOS info block description to its own
 field

---
 src/disk/geos/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/mod.rs b/src/disk/geos/mod.rs
index 924f454..09cd212 100644
--- a/src/disk/geos/mod.rs
+++ b/src/disk/geos/mod.rs
@@ -331,7 +331,7 @@ impl GEOSInfo {
             .slice_mut(Self::RESERVED_OFFSET, Self::RESERVED_SIZE)
             .copy_from_slice(&self.reserved);
         self.description
-            .to_bytes(bytes.slice_mut(Self::APPLICATION_OFFSET, Self::APPLICATION_SIZE));
+            .to_bytes(bytes.slice_mut(Self::DESCRIPTION_OFFSET, Self::DESCRIPTION_SIZE));
     }
 }
 
-- 
2.43.0


From 03621efaf4ee47794bd21712ad47993052c9b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:03 +0000
Subject: [PATCH 08/23] fix: skip the link bytes when parsing a VLIR index
 block

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..d9bab7c 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -28,7 +28,8 @@ impl GEOSFile {
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
             let index_block = blocks.sector(entry.first_sector)?;
-            let records: Vec<Option<Location>> = index_block
+            // The record locations follow the two link bytes.
+            let records: Vec<Option<Location>> = index_block[2..]
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                 .map(|chunk| {
-- 
2.43.0


From 3b8a85abf9cbd4e0a161168f9645a6d720d68f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:03 +0000
Subject: [PATCH 09/23] fix: do not return the same GEOS stream bytes twice

---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From e7410d115ddf4fa2f9fdc413fc97bd168aea1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:47 +0000
Subject: [PATCH 10/23] fix: free all of a file's sectors and write the BAM, or
 none, when deleting

---
 src/disk/bam.rs       |  2 +-
 src/disk/chain.rs     | 23 +++++++++++++++++------
 src/disk/file.rs      | 16 +++++-----------
 src/disk/geos/file.rs | 22 ++++------------------
 4 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index a605b48..4687ec2 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -293,7 +293,7 @@ impl Bam {
     }
 
     /// Confirm that the BAM covers the specified sector.
-    fn check_location(&self, location: Location) -> io::Result<()> {
+    pub(super) fn check_location(&self, location: Location) -> io::Result<()> {
         self.entry_index(location.0)?;
         if location.1 >= self.format.tracks[location.0 as usize].sectors {
             return Err(DiskError::InvalidLocation.into());
diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 1ea9f54..9879b62 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -358,14 +358,25 @@ impl io::Write for ChainWriter {
 pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
     // Read the whole chain first to be sure we can visit every block with no
     // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
+    let locations = ChainIterator::new(blocks.clone(), start).locations()?;
 
-    // Deallocate
+    free_sectors(&blocks, &bam, &locations)
+}
+
+/// Deallocate the specified sectors and write the updated BAM.  No sector is
+/// deallocated unless all of them can be.
+pub fn free_sectors(
+    blocks: &BlockDeviceRef,
+    bam: &BamRef,
+    locations: &[Location],
+) -> io::Result<()> {
+    blocks.borrow().check_writability()?;
     let mut bam = bam.borrow_mut();
     for location in locations {
-        bam.free(location)?;
+        bam.check_location(*location)?;
     }
-    bam.flush()?;
-
-    Ok(())
+    for location in locations {
+        bam.free(*location)?;
+    }
+    bam.flush()
 }
diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..7f88366 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -469,17 +469,11 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
+        // Deallocate the chain and the side sectors.
+        let mut locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        locations.extend(self.side_sectors.iter());
+        chain::free_sectors(&self.blocks, &self.bam, &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index d9bab7c..9a4e7c4 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -89,24 +89,10 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
-        }
-
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
+        // Deallocate the main chain (Sequential) or index block (VLIR), the info block
+        // if present, and the chains of any VLIR records.
+        let locations = self.occupied_sectors()?;
+        chain::free_sectors(&self.blocks, &self.bam, &locations)?;
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
         self.entry.file_attributes.closed_flag = false;
-- 
2.43.0


From 258e7b37fadf11c3dbd92d9546dd727384d23e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:48 +0000
Subject: [PATCH 11/23] fix: write the BAM when creating a file or extending
 the directory

---
 src/disk/directory.rs |  1 +
 src/disk/mod.rs       | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index f1c5c38..82ebe75 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -774,6 +774,7 @@ where
     {
         let mut bam = bam.borrow_mut();
         bam.allocate(new_sector)?;
+        bam.flush()?;
     }
 
     // Link to the new sector from the old sector
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..b5e990d 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -434,15 +434,15 @@ pub trait Disk {
         let bam = self.bam()?;
         let mut bam = bam.borrow_mut();
         let first_sector = bam.next_free_block(None)?;
-        bam.allocate(first_sector)?;
 
         // Initialize the first sector with link bytes [0x00,0x01] to indicate that it
         // is a tail block of zero length.
-        let mut blocks = self.blocks_ref_mut();
         {
+            let mut blocks = self.blocks_ref_mut();
             let block = blocks.sector_mut(first_sector)?;
             chain::CHAIN_LINK_ZERO.to_bytes(block);
         }
+        bam.allocate(first_sector)?;
 
         // Populate and write the directory entry for this file.
         entry.reset();
@@ -455,13 +455,15 @@ pub trait Disk {
         entry.filename = filename.clone();
         entry.file_size = 1; // One block is allocated for the first sector.
 
-        // Write the directory entry.
-        match blocks.positioned_write(&entry) {
+        // Write the BAM, then the directory entry.
+        let result = bam.flush();
+        match result.and_then(|_| self.blocks_ref_mut().positioned_write(&entry)) {
             Ok(_) => {}
             Err(e) => {
                 // If the directory entry could not be written, roll back the BAM allocation
                 // before returning an error.
                 bam.free(first_sector)?;
+                bam.flush()?;
                 return Err(e);
             }
         }
-- 
2.43.0


From baff77114ed04297743c982e0a4be4799693fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:30 +0000
Subject: [PATCH 12/23] fix: do not panic on a directory whose last sector ends
 in a partial entry

---
 src/disk/directory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 82ebe75..9c1c1c3 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -720,6 +720,10 @@ where
             last_sector = location;
             let mut offset: u8 = 0;
             for chunk in data.chunks(ENTRY_SIZE) {
+                // Ignore a partial entry at the end of the last sector.
+                if chunk.len() != ENTRY_SIZE {
+                    continue;
+                }
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From d7c348bc35221b140516fd51a50fa89d74ee87ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:31 +0000
Subject: [PATCH 13/23] fix: do not panic on malformed relative files

---
 src/disk/file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 7f88366..9000e97 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -353,6 +353,9 @@ impl RelativeFile {
         for sector in chain {
             let sector = sector?;
             side_sectors.push(sector.location);
+            if sector.data.len() < SIDE_SECTOR_DATA_OFFSET {
+                return Err(DiskError::InvalidRelativeFile.into());
+            }
 
             // Process the list of side sectors which is contained within each side sector.
             let list_bytes = &sector.data
@@ -410,7 +413,7 @@ impl RelativeFile {
             (data_sectors.len() - 1) * (BLOCK_SIZE - 2)
         };
         let data_size = data_in_full_blocks + data_bytes_in_last_block;
-        if data_size % record_size != 0 {
+        if record_size == 0 || data_size % record_size != 0 {
             return Err(DiskError::InvalidRelativeFile.into());
         }
         let records = data_size / record_size;
-- 
2.43.0


From 30adb7ee30bc434dc18f447c6721e3b60f2f2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:32 +0000
Subject: [PATCH 14/23] fix: check the disk name before erasing the disk when
 formatting

---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index b5e990d..cba2d9c 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -285,6 +285,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Don't touch the disk if the name can't be stored.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From 8936dec1d324636acf7fe7f6df3182ac2c0c5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:33 +0000
Subject: [PATCH 15/23] fix: create or replace the image file when not required
 to be new

---
 src/disk/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ccad6ed..136f11b 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -34,6 +34,8 @@ impl Image {
         let file = OpenOptions::new()
             .read(true)
             .write(true)
+            .create(true)
+            .truncate(true)
             .create_new(create_new)
             .open(path)?;
         file.set_len(length as u64)?;
-- 
2.43.0


From 2adb369ac5c108049a765bf8f01292972ff8c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:27 +0000
Subject: [PATCH 16/23] fix: keep the tail block and release the new one when
 extending a chain fails

---
 src/disk/chain.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 9879b62..d16ff10 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -232,7 +232,7 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
@@ -251,22 +251,24 @@ impl ChainWriter {
         // Initialize a fresh block in memory with a link indicating a tail block with
         // zero bytes used. (Really, two bytes used for the link, but zero data
         // bytes used.)
-        for i in 2..BLOCK_SIZE {
-            self.block[i] = 0;
-        }
-        ChainLink::Tail(2).to_bytes(&mut self.block[..]);
+        let mut next_block = vec![0; BLOCK_SIZE];
+        ChainLink::Tail(2).to_bytes(&mut next_block[..]);
 
         // Write the fresh block to the new location
         self.blocks
             .borrow_mut()
             .sector_mut(next_location)?
-            .copy_from_slice(&self.block);
+            .copy_from_slice(&next_block);
 
         // Allocate the next block.
         self.bam.borrow_mut().allocate(next_location)?;
 
         // Increment the directory entry's file size (measured in blocks)
-        self.increment_entry_blocks()?;
+        if let Err(e) = self.increment_entry_blocks() {
+            // Roll back the allocation.
+            self.bam.borrow_mut().free(next_location)?;
+            return Err(e);
+        }
 
         // If allocation succeeds, only then do we link the current block to the next
         // block.
@@ -282,6 +284,7 @@ impl ChainWriter {
         next_location.write_bytes(block);
 
         // Update state
+        self.block = next_block;
         self.location = next_location;
 
         // Return the available bytes in the newly loaded block, which is always two
-- 
2.43.0


From 333233a3eba152f66face3f31c01fb2ff390b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:27 +0000
Subject: [PATCH 17/23] fix: report the bytes already written when a chain
 cannot be extended

---
 src/disk/chain.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index d16ff10..7b4051d 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -319,7 +319,12 @@ impl io::Write for ChainWriter {
                 ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                 ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                     // Allocate a new block
-                    let remaining = self.allocate_next_block()?;
+                    let remaining = match self.allocate_next_block() {
+                        Ok(remaining) => remaining,
+                        // Report the bytes already stored; the next write meets the error again.
+                        Err(_) if total_nbytes > 0 => break,
+                        Err(e) => return Err(e),
+                    };
                     (BLOCK_SIZE - remaining, remaining)
                 }
                 ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
-- 
2.43.0


From 0f56c609b81fc5b401759809dc7399d9a5c8d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:14 +0000
Subject: [PATCH 18/23] fix: refuse records past the only one of a GEOS
 sequential file

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 9a4e7c4..8ced068 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -60,7 +60,8 @@ impl GEOSFile {
                 Some(location) => *location,
                 None => return Err(DiskError::InvalidRecordIndex.into()),
             },
-            None => Some(self.entry.first_sector),
+            None if index == 0 => Some(self.entry.first_sector),
+            None => return Err(DiskError::InvalidRecordIndex.into()),
         })
     }
 
-- 
2.43.0


From 415e039681174f9fc56e24023df7ee7c93ae9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:47 +0000
Subject: [PATCH 19/23] fix: exit with a failure status when a cdisk command
 fails

---
 src/bin/cdisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..31bff5f 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -200,6 +200,7 @@ fn main() {
     };
     if let Err(e) = result {
         eprintln!("Error: {}", e);
+        process::exit(EXIT_FAILURE);
     }
 }
 
-- 
2.43.0


From f5f5801366d4e9b76c8e867b679aa9d6bef0cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:47 +0000
Subject: [PATCH 20/23] fix: open the image for writing when appending to a
 file

---
 src/bin/cdisk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 31bff5f..38ade59 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -320,7 +320,8 @@ fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>>
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    let disk = disk::open(diskimage, true)?;
+    Ok(Box::new(disk.open_file(&filename.into())?.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From 61ed8a4e1bba21492dbf9a051a60dd8a6d2931ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:47 +0000
Subject: [PATCH 21/23] fix: refuse to read a non-GEOS file as a GEOS file
 instead of panicking

---
 src/bin/cdisk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 38ade59..42c6ca8 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -332,7 +332,12 @@ fn open_geos_file(diskimage: &str, filename: &str) -> io::Result<GEOSFile> {
     let file = match file {
         File::GEOSVLIR(f) => f,
         File::GEOSSequential(f) => f,
-        _ => unreachable!(),
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "not a GEOS file",
+            ))
+        }
     };
     Ok(file)
 }
-- 
2.43.0


From 2ac5849b91b6bcafdffddcb61fbaf427716e2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:47 +0000
Subject: [PATCH 22/23] fix: let cdisk bam allocate and free reach all and only
 the blocks of the disk

---
 src/bin/cdisk.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 42c6ca8..9b9b4e2 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -6,7 +6,7 @@ use std::process;
 use cbm::disk::directory::FileType;
 use cbm::disk::file::{File, FileOps, Scheme};
 use cbm::disk::geos::GEOSFile;
-use cbm::disk::{self, D64, D71, D81, DiskType};
+use cbm::disk::{self, D64, D71, D81, DiskError, DiskType};
 use cbm::Petscii;
 
 // Possible exit codes
@@ -225,22 +225,22 @@ fn optional_u8_validator(v: String, min: u8, max: u8) -> Result<(), String> {
     }
 }
 
-/// Require a track argument to be a number in the range 1-40 or "all".
+/// Require a track argument to be a number in the range 1-80 or "all".
 fn optional_track_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 1, 40)
+    optional_u8_validator(v, 1, 80)
 }
 
 fn optional_track_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 1, 40).unwrap()
+    optional_u8_parser(v, 1, 80).unwrap()
 }
 
-/// Require a sector argument to be a number in the range 0-20 or "all".
+/// Require a sector argument to be a number in the range 0-39 or "all".
 fn optional_sector_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 0, 20)
+    optional_u8_validator(v, 0, 39)
 }
 
 fn optional_sector_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 0, 20).unwrap()
+    optional_u8_parser(v, 0, 39).unwrap()
 }
 
 /// A FillReader is simply a reader that supplies a certain number of the
@@ -286,11 +286,14 @@ fn cmd_bam_edit(
     let mut bam = bam.borrow_mut();
     let track_range = match track {
         Some(t) => t..=t,
-        None => 1..=35,
+        None => format.first_track..=format.last_track,
     };
     for track in track_range {
         let entry = bam.entry_mut(track)?;
         let sector_range = match sector {
+            Some(s) if s >= format.sectors_in_track(track) => {
+                return Err(DiskError::InvalidLocation.into())
+            }
             Some(s) => s..=s,
             None => 0..=(format.sectors_in_track(track) - 1),
         };
-- 
2.43.0


From 65d391095a82492577b09957991d1fbc63d260a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:47 +0000
Subject: [PATCH 23/23] fix: open the image read-only for cdisk dump and
 validate

---
 src/bin/cdisk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9b9b4e2..c3c2064 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -491,7 +491,7 @@ fn cmd_delete(diskimage: &str, filename: &str) -> io::Result<()> {
 }
 
 fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
-    let mut disk = disk::open(diskimage, true)?;
+    let mut disk = disk::open(diskimage, false)?;
     match filename {
         Some(filename) => {
             let file = disk.open_file(&filename.into())?;
@@ -503,7 +503,7 @@ fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
 }
 
 fn cmd_validate(diskimage: &str) -> io::Result<()> {
-    let disk = disk::open(diskimage, true)?;
+    let disk = disk::open(diskimage, false)?;
     let errors = disk.validate()?;
     for e in errors.iter() {
         println!("{}", e);
-- 
2.43.0

