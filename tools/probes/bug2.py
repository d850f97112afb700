D='src/disk/'
CH=D+'chain.rs'; DI=D+'directory.rs'; MO=D+'mod.rs'; VA=D+'validation.rs'; RD=D+'geos/reader.rs'; GF=D+'geos/file.rs'; GM=D+'geos/mod.rs'; BM=D+'bam.rs'; FI=D+'file.rs'; FO=D+'format.rs'; HE=D+'header.rs'
PROBES=[
('b16a',['C16'],[(CH,"                        Some(Err(e)) => {\n                            self.eof = true;\n                            return Err(e);","                        Some(Err(e)) => {\n                            self.eof = true;\n                            if total_nbytes > 0 {\n                                return Ok(total_nbytes);\n                            }\n                            return Err(e);")]),
('b16b',['C16'],[(CH,"self.block = Some(block.data.split_off(2));","if block.data.len() > 2 {\n                                self.block = Some(block.data.split_off(2));\n                            } else {\n                                self.eof = true;\n                            }")]),
('b16c',['C16'],[(RD,"if remainder > 0 {","if remainder > 1 {")]),
('b16d',['C16'],[(RD,"b.map(|b| (count + 1, b.data.len() - 1))","b.map(|b| (count + 1, (b.data.len() - 1).max(2)))")]),
('b16e',['C16'],[(RD,"if chunk[0] == 0x00 && chunk[1] == 0xFF {\n                    // Empty record","if chunk[0] == 0x00 {\n                    // Empty record")]),
('b16f',['C16'],[(RD,"            if bytes == buf.len() {","            if bytes == buf.len() && !self.buffer.is_empty() {")]),
('b16g',['C16'],[(RD,"            .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)","            .take_while(|chunk| chunk[0] != 0x00 || chunk[1] == 0xFF)")]),
('b16h',['C16'],[(RD,"        if !self.chains.is_empty() {","        if self.is_vlir {")]),
('b16i',['C16'],[(CH,"        while !buf.is_empty() && !self.eof {","        while buf.len() > total_nbytes.min(1) - total_nbytes.min(1) && !self.eof {\n            if total_nbytes >= BLOCK_SIZE * 2 {\n                break;\n            }")]),
('b17a',['C17'],[(CH,"ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {\n                    // Allocate","ChainLink::Tail(nbytes) if nbytes >= BLOCK_SIZE - 1 => {\n                    // Allocate")]),
('b17b',['C17'],[(CH,"self.entry.file_size = self.entry.file_size.saturating_add(1);","self.entry.file_size = self.entry.file_size.max(1) + 1;")]),
('b17c',['C17'],[(CH,"            // Roll back the allocation.\n            self.bam.borrow_mut().free(next_location)?;\n            return Err(e);\n        }\n\n        // If allocation","            return Err(e);\n        }\n\n        // If allocation")]),
('b17d',['C17'],[(CH,"                        Err(_) if total_nbytes > 0 => break,\n","")]),
('b17e',['C17'],[(CH,"        blocks.positioned_read(&mut self.entry)?;\n        self.entry.file_size","        self.entry.file_size")]),
('b17f',['C17'],[(CH,"        let _result = self.flush();","        if self.dirty {\n            let _result = self.write_current_block();\n        }")]),
('b18a',['C18'],[(CH,"        next_location.write_bytes(block);\n\n        // Update state","        next_location.write_bytes(block);\n        self.bam.borrow_mut().flush()?;\n\n        // Update state")]),
('b18b',['C18'],[(MO,"        let result = bam.flush();\n        match result.and_then(|_| self.blocks_ref_mut().positioned_write(&entry)) {","        let result = self.blocks_ref_mut().positioned_write(&entry);\n        match result.and_then(|_| bam.flush()) {")]),
('b18c',['C18','C20'],[(DI,"        bam.allocate(new_sector)?;\n        bam.flush()?;\n    }\n\n    // Link to the new sector from the old sector\n    {\n        let mut blocks = disk.blocks_ref_mut();\n        let block = blocks.sector_mut(last_sector)?;\n        block[0] = new_sector.0;\n        block[1] = new_sector.1;\n    }\n","        bam.allocate(new_sector)?;\n    }\n\n    // Link to the new sector from the old sector\n    {\n        let mut blocks = disk.blocks_ref_mut();\n        let block = blocks.sector_mut(last_sector)?;\n        block[0] = new_sector.0;\n        block[1] = new_sector.1;\n    }\n    bam.borrow_mut().flush()?;\n")]),
('b19a',['C19'],[(MO,"        // Validate new filename\n        directory::check_filename_validity(new_filename)?;\n\n        // Check that the new filename doesn't already exist.\n        self.check_filename_availability(new_filename)?;","        // Validate new filename\n        directory::check_filename_validity(new_filename)?;\n\n        // Check that the new filename doesn't already exist.\n        if new_filename.len() != original_filename.len() {\n            self.check_filename_availability(new_filename)?;\n        }")]),
('b19b',['C19'],[(MO,"                Some(disk_error) => Err(disk_error.into()),\n                _ => Err(e),","                Some(DiskError::ChainLoop) => Ok(()),\n                Some(disk_error) => Err(disk_error.into()),\n                _ => Err(e),")]),
('b19c',['C19'],[(MO,"                bam.free(first_sector)?;\n                bam.flush()?;\n                return Err(e);","                bam.free(first_sector)?;\n                return Err(e);")]),
('b19d',['C19'],[(MO,"        entry.reset();\n        entry.file_attributes.file_type","        entry.file_attributes.file_type")]),
('b19e',['C19'],[(MO,"            chain::CHAIN_LINK_ZERO.to_bytes(block);","            chain::CHAIN_LINK_ZERO.to_bytes(&mut block[..]);\n            block[1] = 0;")]),
('b19f',['C19'],[(DI,"    if filename.len() > ENTRY_FILENAME_LENGTH {","    if filename.len() > ENTRY_FILENAME_LENGTH + 1 {")]),
('b20a',['C20'],[(DI,"                    if chunk.len() != ENTRY_SIZE {\n                        continue;\n                    }\n\n                    // Track","                    if chunk.len() != ENTRY_SIZE {\n                        return None;\n                    }\n\n                    // Track")]),
('b20b',['C20'],[(DI,"                        Some(Err(e)) => {\n                            return Some(Err(e));\n                        }\n                        None => {\n                            return None;","                        Some(Err(_)) => {\n                            return None;\n                        }\n                        None => {\n                            return None;")]),
('b20c',['C20'],[(DI,"                    self.position.offset = self.position.offset.wrapping_add(ENTRY_SIZE as u8);\n\n                    // Parse","                    self.position.offset = self.position.offset.saturating_add(ENTRY_SIZE as u8);\n\n                    // Parse"),(DI,"                            self.position.location = block.location;\n                            self.position.offset = 0;","                            self.position.location = block.location;")]),
('b20d',['C20'],[(DI,"            for chunk in data.chunks(ENTRY_SIZE) {\n                // Ignore","            for chunk in data.chunks(ENTRY_SIZE).take(7) {\n                // Ignore")]),
('b20e',['C20'],[(DI,"        for block_byte in block.iter_mut().take(BLOCK_SIZE).skip(2) {","        for block_byte in block.iter_mut().take(ENTRY_SIZE).skip(2) {")]),
('b20f',['C20'],[(MO,"                Err(_) => true,\n                Ok(ref entry) => entry.filename == *filename,","                Err(_) => false,\n                Ok(ref entry) => entry.filename == *filename,")]),
('b20g',['C20'],[(DI,"        new_sector = bam.next_free_block(Some(last_sector))?;","        new_sector = bam.next_free_block(None)?;")]),
('b20h',['C20'],[(DI,"                                self.processing_geos_border = border == block.location;","                                self.processing_geos_border |= border == block.location;")]),
('b21a',['C21'],[(MO,"        for track in disk_format.first_track..=track_count {","        for track in disk_format.first_track..track_count {")]),
('b21b',['C21'],[(MO,"                for block_byte in block.iter_mut().take(BLOCK_SIZE) {","                for block_byte in block.iter_mut().take(BLOCK_SIZE - 1) {")]),
('b21c',['C21'],[(MO,"        self.blocks_ref_mut().flush()?;\n        self.initialize();","        self.initialize();")]),
('b21d',['C21'],[(MO,"        if name.len() > DISK_NAME_SIZE {\n            return Err(DiskError::FilenameTooLong.into());\n        }\n\n        // Zero","        // Zero")]),
('b21e',['C21'],[(FO,"            for sector in 0..self.tracks[self.reserved_track as usize].sectors {\n                locations","            for sector in 1..self.tracks[self.reserved_track as usize].sectors {\n                locations")]),
('b21f',['C21','C23'],[(MO,"        self.blocks_ref_mut().flush()?;\n        self.initialize();","        self.blocks_ref_mut().flush()?;\n        self.set_disk_format(Some(self.native_disk_format().clone()));")]),
('b22a',['C22'],[(MO,"                cell.replace(new_bam);","                if !new_bam.allocated_sectors().map(|v| v.is_empty()).unwrap_or(true) {\n                    cell.replace(new_bam);\n                }")]),
('b22b',['C22'],[(MO,"                cell.borrow_mut().invalidate();","                drop(cell);")]),
('b22c',['C22'],[(MO,"            Some(ref cell) => {\n                cell.replace(new_bam);\n            }\n            None => *bam_ref","            Some(ref cell) if Rc::strong_count(cell) > 2 => {\n                cell.replace(new_bam);\n            }\n            _ => *bam_ref")]),
('b23a',['C23'],[(MO,"        self.set_header(header);\n        self.set_bam(bam);\n        self.set_disk_format(format);","        self.set_header(header);\n        if bam.is_some() {\n            self.set_bam(bam);\n        }\n        self.set_disk_format(format);")]),
('b23b',['C23'],[(MO,"            if let Some(ref mut bam) = bam {\n                bam.set_format(format);\n            }","            if let Some(ref mut bam) = bam {\n                if !format.geos {\n                    bam.set_format(format);\n                }\n            }")]),
('b23c',['C23'],[(MO,"                if header.geos.is_some() {\n                    format.geos = true;\n                }","                if let Ok(f) = self.disk_format() {\n                    format.geos = f.geos;\n                }\n                if header.geos.is_some() {\n                    format.geos = true;\n                }")]),
('b24a',['C24'],[(VA,"                Some(e) => {\n                    errors.push(ValidationError::FileScanError(e, entry.filename.clone()));\n                    continue;","                Some(e) => {\n                    errors.push(ValidationError::FileScanError(e, entry.filename.clone()));\n                    break;")]),
('b24b',['C24'],[(VA,"        if system_sectors.contains(misoccupied_sector) {","        if system_sectors.contains(misoccupied_sector) || misoccupied_sector.0 == format.directory_track {")]),
('b24c',['C24'],[(VA,"                        owner.get().clone(),\n                        entry.filename.clone(),","                        entry.filename.clone(),\n                        owner.get().clone(),")]),
('b24d',['C24'],[(VA,"        directory_locations.push(geos_header.border);","        directory_locations.push(Location::new(geos_header.border.0, geos_header.border.1 & 0x1f));")]),
('b24e',['C24'],[(VA,"        for sector in 0..format.tracks[track as usize].sectors {\n            let location","        for sector in 1..format.tracks[track as usize].sectors {\n            let location")]),
('b24f',['C24'],[(BM,"            for sector in 0..self.format.tracks[track + 1].sectors {\n                if map & 1 == 0 {","            for sector in 0..self.format.tracks[track].sectors {\n                if map & 1 == 0 {")]),
('b24g',['C24'],[(VA,"        let entry = entry?;\n        let file_occupied","        let entry = entry?;\n        if entry.first_sector.0 == 0 {\n            continue;\n        }\n        let file_occupied")]),
('b24h',['C24'],[(VA,"                Entry::Vacant(v) => {\n                    v.insert(entry.filename.clone());","                Entry::Vacant(v) => {\n                    if free_sectors.contains(location) || allocated_sectors.contains(location) {\n                        v.insert(entry.filename.clone());\n                    }")]),
('b15a',['C15'],[(GF,"                let info = GEOSInfo::from_bytes(info_bytes);","                let info = GEOSInfo::from_bytes(info_bytes);\n                let _ = &info;")]),
]
