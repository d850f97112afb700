F='src/disk/format.rs'; C='src/disk/chain.rs'; L='src/disk/file.rs'; V='src/disk/validation.rs'; M='src/disk/mod.rs'; D='src/disk/directory.rs'; B='src/disk/bam.rs'
PROBES = [
 ('b5a', ['C05'], [(F, "        for sector in 0..self.sectors_in_track(track) {\n            if map & 1 == 1 {", "        for sector in 0..24 {\n            if map & 1 == 1 {")]),
 ('b5b', ['C05', 'C06'], [(F, "                    track += 1;\n                    while self.is_reserved_track(track) {\n                        track += 1;\n                    }\n                    if track > self.last_track {\n                        // No more availability upwards.  Jump to the bottom half.\n                        track = self.directory_track - 1;", "                    track += 1;\n                    if track > self.last_track {\n                        // No more availability upwards.  Jump to the bottom half.\n                        track = self.directory_track - 1;")]),
 ('b5d', ['C06'], [(F, "const NUM_PASSES: usize = 3;", "const NUM_PASSES: usize = 2;")]),
 ('b5f', ['C06'], [(F, "if previous_track == self.first_track {\n            1", "if previous_track <= self.first_track + 1 {\n            1")]),
 ('b5g', ['C05'], [(F, "            while self.is_reserved_track(track) {\n                track += 1;\n                // This shouldn't happen", "            while self.is_reserved_track(track) && track == self.directory_track {\n                track += 1;\n                // This shouldn't happen")]),
 ('b5j', ['C17'], [(C, "        self.dirty = true;\n        let mut total_nbytes = 0;", "        let mut total_nbytes = 0;")]),
 ('b5k', ['C17'], [(C, "        blocks.positioned_read(&mut self.entry)?;\n        self.entry.file_size", "        self.entry.file_size")]),
 ('b5k2', ['C17'], [(C, "                        Err(_) if total_nbytes > 0 => break,", "                        Err(_) if total_nbytes > 1 => break,")]),
 ('b5k3', ['C17', 'C18'], [(C, "            // Roll back the allocation.\n            self.bam.borrow_mut().free(next_location)?;\n            return Err(e);\n        }\n", "            return Err(e);\n        }\n")]),
 ('b5k4', ['C07', 'C17'], [(C, "            self.dirty = false;\n", "            self.dirty = false;\n        } else {\n            return self.blocks.borrow_mut().flush();\n")]),
 ('b5l', ['C08'], [(L, "        locations.extend(self.side_sectors.iter());\n        chain::free_sectors", "        if self.side_sectors.len() > 1 {\n            locations.extend(self.side_sectors.iter());\n        }\n        chain::free_sectors")]),
 ('b5m', ['C08'], [(L, "        self.entry.file_attributes.file_type = FileType::DEL;\n        self.entry.file_attributes.closed_flag = false;\n        // Write the new directory entry\n        let mut blocks = self.blocks.borrow_mut();\n        blocks.positioned_write(&self.entry)?;\n        Ok(())\n    }\n\n    fn record_count(&self) -> io::Result<usize> {\n        // A linear", "        self.entry.file_attributes.file_type = FileType::DEL;\n        // Write the new directory entry\n        let mut blocks = self.blocks.borrow_mut();\n        blocks.positioned_write(&self.entry)?;\n        Ok(())\n    }\n\n    fn record_count(&self) -> io::Result<usize> {\n        // A linear")]),
 ('b5n', ['C09'], [(L, "if sector_offset + self.record_size <= BLOCK_SIZE {", "if sector_offset + self.record_size < BLOCK_SIZE {")]),
 ('b5o', ['C09'], [(L, "if record_size == 0 || data_size % record_size != 0 {", "if record_size == 0 {")]),
 ('b5o2', ['C09'], [(L, "size < SIDE_SECTOR_DATA_OFFSET || size % 2 == 1", "size < SIDE_SECTOR_DATA_OFFSET")]),
 ('b5o3', ['C09'], [(L, "            if list != side_sectors {", "            if list.len() > side_sectors.len() || list[..] != side_sectors[..list.len()] {")]),
 ('b5q', ['C24'], [(V, "                Entry::Occupied(owner) => {", "                Entry::Occupied(ref owner) if *owner.get() == entry.filename => {}\n                Entry::Occupied(owner) => {")]),
 ('b5r', ['C24'], [(V, "        if system_sectors.contains(misoccupied_sector) {\n            // System sector misoccupation was handled with SystemSectorNotAllocated above.\n            continue;\n        }\n", "")]),
 ('b5s', ['C24'], [(V, "                Some(e) => {\n                    errors.push(ValidationError::FileScanError", "                Some(DiskError::ChainLoop) => return Err(e),\n                Some(e) => {\n                    errors.push(ValidationError::FileScanError")]),
 ('b5t', ['C19'], [(M, "            chain::CHAIN_LINK_ZERO.to_bytes(block);", "            block[0] = 0;\n            block[1] = 0;")]),
 ('b5u', ['C19'], [(M, "                bam.free(first_sector)?;\n                bam.flush()?;\n                return Err(e);", "                bam.free(first_sector)?;\n                return Err(e);")]),
 ('b5v', ['C19'], [(M, "        let mut entry = self.find_directory_entry(original_filename)?;\n\n        // Validate new filename", "        let mut entry = self.find_directory_entry(original_filename)?;\n        if original_filename == new_filename {\n            return Ok(());\n        }\n\n        // Validate new filename")]),
 ('b5w', ['C19', 'C20'], [(M, "                Err(_) => true,\n                Ok(ref entry)", "                Err(_) => false,\n                Ok(ref entry)")]),
 ('b5x', ['C20'], [(D, "                    if chunk.len() != ENTRY_SIZE {\n                        continue;\n                    }\n\n                    // Track", "                    if chunk.len() != ENTRY_SIZE || chunk[5] == 0xA0 {\n                        continue;\n                    }\n\n                    // Track")]),
 ('b5y', ['C20'], [(D, "                if chunk.len() != ENTRY_SIZE {\n                    continue;\n                }\n                let entry = DirectoryEntry::from_positioned_bytes(\n                    chunk,", "                if chunk.len() != ENTRY_SIZE || location == first_sector && offset == 0 {\n                    offset = offset.wrapping_add(ENTRY_SIZE as u8);\n                    continue;\n                }\n                let entry = DirectoryEntry::from_positioned_bytes(\n                    chunk,")]),
 ('b5z', ['C18'], [(D, "        bam.allocate(new_sector)?;\n        bam.flush()?;\n    }\n", "        bam.allocate(new_sector)?;\n    }\n"), (D, "        block[1] = new_sector.1;\n    }\n\n    // Return the new entry\n    Ok(new_entry)", "        block[1] = new_sector.1;\n    }\n    bam.borrow_mut().flush()?;\n\n    Ok(new_entry)")]),
 ('b5A', ['C03'], [(B, "block = self.blocks.borrow().sector(section.free_location)?.to_vec();", "block = self.blocks.borrow().sector(self.format.sections[0].free_location)?.to_vec();")]),
 ('b5B', ['C04'], [(B, "        for _ in 0..64 {", "        for _ in 0..32 {")]),
 ('b5C', ['C04'], [(B, "if track == (self.format.directory_track - 1) as usize {", "if self.format.is_reserved_track(track as u8 + 1) {")]),
 ('b5D', ['C22'], [(B, "        self.check_validity()?;\n        self.format.next_free_block(self, previous)", "        self.format.next_free_block(self, previous)")]),
 ('b5E', ['C02'], [(M, "        if data.len() != BLOCK_SIZE {\n            return Err(DiskError::WriteUnderrun.into());\n        }\n        let mut blocks = self.blocks_ref_mut();\n        let sector = blocks.sector_mut(location)?;\n        sector.copy_from_slice(data);", "        if data.len() > BLOCK_SIZE {\n            return Err(DiskError::WriteUnderrun.into());\n        }\n        let mut blocks = self.blocks_ref_mut();\n        let sector = blocks.sector_mut(location)?;\n        sector[..data.len()].copy_from_slice(data);")]),
 ('b5F', ['C21'], [(M, "for track in disk_format.first_track..=track_count {", "for track in disk_format.first_track..=disk_format.last_track {")]),
 ('b5G', ['C21'], [(M, "            for location in disk_format.system_locations() {\n                bam.allocate(location)?;\n            }", "            for location in disk_format.system_locations() {\n                if location.0 != disk_format.reserved_track {\n                    bam.allocate(location)?;\n                }\n            }")]),
 ('b5H', ['C02'], [(M, "            .take((self.tracks as usize) + 1)", "            .take(self.tracks as usize)")]),
 ('b5I', ['C22'], [(B, "    pub fn flush(&mut self) -> io::Result<()> {\n        self.check_validity()?;", "    pub fn flush(&mut self) -> io::Result<()> {\n        if self.invalidated {\n            return Ok(());\n        }")]),
]
