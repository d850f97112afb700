"""Bug probes, seventh batch: changes that need a long history, an unusual size or two cooperating sites."""
CH, FI, MO, DI, BA, VA, GR = ('src/disk/chain.rs', 'src/disk/file.rs', 'src/disk/mod.rs', 'src/disk/directory.rs', 'src/disk/bam.rs',
                              'src/disk/validation.rs', 'src/disk/geos/reader.rs')
PROBES = [
    # a rename during writing is undone when the file grows
    ('b7a', ['C17'], [(CH, "        blocks.positioned_read(&mut self.entry)?;\n", "")]),
    # entry grows before the sector is allocated
    ('b7b', ['C17'], [(CH, """        // Allocate the next block.
        self.bam.borrow_mut().allocate(next_location)?;

        // Increment the directory entry's file size (measured in blocks)
        if let Err(e) = self.increment_entry_blocks() {
            // Roll back the allocation.
            self.bam.borrow_mut().free(next_location)?;
            return Err(e);
        }
""", """        // Allocate the next block.
        self.increment_entry_blocks()?;
        self.bam.borrow_mut().allocate(next_location)?;
        self.write_current_block()?;
""")]),
    ('b7c', ['C16'], [(GR, "if !self.chains.is_empty() {", "if self.chains.len() > 1 {")]),
    ('b7d', ['C16'], [(GR, "if count > ::std::u8::MAX as usize {", "if count > 200 {")]),
    ('b7e', ['C09'], [(FI, "let data_offset = self.record_size * index;", "let data_offset = (self.record_size * index) & 0xFFFF;")]),
    ('b7f', ['C08'], [(FI, """        let mut locations =
            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
        locations.extend(self.side_sectors.iter());""", """        let mut locations = self.data_sectors.clone();
        locations.extend(self.side_sectors.iter());""")]),
    ('b7g', ['C28'], [(FI, """        let entry = entry.clone();
        let file = match""", """        let entry = disk.find_directory_entry(&entry.filename)?;
        let file = match""")]),
    ('b7h', ['C18', 'C19'], [(MO, """        // Initialize the first sector with link bytes [0x00,0x01] to indicate that it
        // is a tail block of zero length.
        {""", """        bam.allocate(first_sector)?;
        {"""), (MO, """            chain::CHAIN_LINK_ZERO.to_bytes(block);
        }
        bam.allocate(first_sector)?;
""", """            chain::CHAIN_LINK_ZERO.to_bytes(block);
        }
""")]),
    ('b7i', ['C10'], [(CH, "        // Loop detection.\n", "        if self.visited_sectors.len() >= 683 {\n            self.visited_sectors.clear();\n        }\n        // Loop detection.\n")]),
    ('b7j', ['C07', 'C17'], [(CH, """        self.dirty = true;
        let mut total_nbytes = 0;
        while !buf.is_empty() {
            let (offset""", """        let mut total_nbytes = 0;
        while !buf.is_empty() {
            let (offset"""), (CH, """            buf = &buf[nbytes..];
        }
        Ok(total_nbytes)""", """            buf = &buf[nbytes..];
        }
        self.dirty = self.dirty || buf.is_empty();
        Ok(total_nbytes)""")]),
    # border sector also part of the directory chain: entries after it count as border entries
    ('b7k', ['C20', 'C13'], [(DI, "self.processing_geos_border = border == block.location;", "self.processing_geos_border = border.0 == block.location.0;")]),
    ('b7l', ['C20'], [(DI, """                    // Use exact_chunks() when it becomes stable, to avoid this check.
                    if chunk.len() != ENTRY_SIZE {
                        continue;
                    }
""", """                    if chunk.len() != ENTRY_SIZE || (chunk[2] & 0x80 == 0 && chunk[3] == 0) {
                        continue;
                    }
""")]),
    # iterating continues after an error
    ('b7m', ['C20'], [(MO, "                Err(_) => true,\n", "                Err(ref e) => DiskError::from_io_error(e) != Some(DiskError::ChainLoop),\n")]),
    ('b7n', ['C03'], [(BA, "for i in 0..section.tracks {\n                let offset = section.free_offset + i * section.free_stride;\n                block[offset] = entries[previous_tracks + i].free_sectors;", "for i in 0..section.tracks {\n                let offset = section.free_offset + i * section.free_stride;\n                block[offset] = entries[previous_tracks + i].sector_map.count_ones() as u8;")]),
    ('b7o', ['C03'], [(BA, "                    free_sector_count,\n", "                    free_sector_count.min(40),\n")]),
    ('b7p', ['C24'], [(VA, "        for location in file_occupied_sectors.iter() {\n", "        for location in file_occupied_sectors.iter().filter(|l| !system_sectors.contains(l)) {\n")]),
    ('b7q', ['C24'], [(VA, "            .get(misoccupied_sector)\n            .cloned()", "            .get(misoccupied_sector)\n            .filter(|p| !p.as_bytes().is_empty())\n            .cloned()")]),
    ('b7r', ['C24'], [(VA, "                Entry::Occupied(owner) => {\n                    errors", "                Entry::Occupied(mut owner) => {\n                    let old = owner.insert(entry.filename.clone());\n                    let _ = owner.insert(old);\n                    errors"), (VA, "                        owner.get().clone(),\n                        entry.filename.clone(),", "                        owner.insert(entry.filename.clone()),\n                        entry.filename.clone(),")]),
    ('b7s', ['C23'], [(MO, "            Some(_) => Bam::read(self.blocks(), disk_format).ok(),", "            Some(ref h) => Bam::read(self.blocks(), disk_format).ok().filter(|b| h.geos.is_none() || b.blocks_free() > 0),")]),
    ('b7t', ['C22'], [(MO, """            if let Some(cell) = bam_ref.take() {
                cell.borrow_mut().invalidate();""", """            if let Some(cell) = bam_ref {
                cell.borrow_mut().invalidate();""")]),
    ('b7u', ['C19'], [(MO, "        // Validate new filename\n        directory::check_filename_validity(new_filename)?;\n", "        // Validate new filename\n        if new_filename.len() != 17 {\n            directory::check_filename_validity(new_filename)?;\n        }\n")]),
    ('b7v', ['C16'], [(CH, "                        Some(Err(e)) => {\n                            self.eof = true;\n", "                        Some(Err(e)) => {\n                            self.eof = total_nbytes == 0;\n")]),
    ('b7w', ['C16'], [(GR, "            let bytes = buf.len().min(self.buffer.len());\n", "            let bytes = buf.len().min(self.buffer.len()).min(0xFFFF);\n")]),
    ('b7x', ['C08'], [(CH, "    for location in locations {\n        bam.check_location(*location)?;\n    }\n    for location in locations {\n        bam.free(*location)?;", "    for location in locations.iter().take(1000) {\n        bam.check_location(*location)?;\n    }\n    for location in locations.iter().take(1000) {\n        bam.free(*location)?;")]),
    ('b7y', ['C09'], [(FI, "            if size < SIDE_SECTOR_DATA_OFFSET || size % 2 == 1 {", "            if size < SIDE_SECTOR_DATA_OFFSET {")]),
    ('b7z', ['C17'], [(CH, "self.entry.file_size = self.entry.file_size.saturating_add(1);", "self.entry.file_size = (self.entry.file_size + 1) & 0x3FFF;")]),
    ('b7A', ['C17'], [(CH, "        let next_location = self.bam.borrow_mut().next_free_block(None)?;", "        let next_location = self.bam.borrow_mut().next_free_block(Some(self.location))?;")]),
    ('b7B', ['C21'], [(MO, "for sector in 0..disk_format.tracks[track as usize].sectors {\n                let location = Location(track, sector);", "for sector in 0..disk_format.tracks[(track - 1).max(1) as usize].sectors.min(disk_format.tracks[track as usize].sectors) {\n                let location = Location(track, sector);")]),
]
