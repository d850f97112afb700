D='src/disk/directory.rs'; H='src/disk/header.rs'; F='src/disk/format.rs'; E='src/disk/error.rs'; C='src/disk/chain.rs'; T='src/bin/cdisk.rs'; M='src/disk/mod.rs'
PROBES=[
 ('b8a',['C13'],[(D,"self.scheme = Scheme::Linear;\n        // The position","// The position")]),
 ('b8b',['C13','C20','C22'],[(D,"        entry.geos_border = self.geos_border;\n","")]),
 ('b8c',['C13'],[(D,"((bytes[ENTRY_FILE_SIZE_OFFSET + 1] as u16) << 8)","((bytes[ENTRY_FILE_SIZE_OFFSET + 1] as u16 & 0x7F) << 8)")]),
 ('b8d',['C14'],[(H,"            block[format.disk_id_offset + 1] = self.disk_id[1];","            if self.disk_id[1] != 0 {\n                block[format.disk_id_offset + 1] = self.disk_id[1];\n            }")]),
 ('b8e',['C14'],[(H,"            block[offset] = value;","            block[offset] |= value;")]),
 ('b8f',['C14','C20'],[(H,"            geos: GEOSDiskHeader::new(block),","            geos: GEOSDiskHeader::new(block).filter(|g| g.border.0 != format.location.0),")]),
 ('b8g',['C12'],[(E,"            Some(e) => e.downcast_ref::<DiskError>().cloned(),\n            None => None,","            Some(e) => e.downcast_ref::<DiskError>().cloned(),\n            None if error.kind() == io::ErrorKind::NotFound => Some(DiskError::NotFound),\n            None => None,")]),
 ('b8h',['C12'],[(E,"                None => DiskError::Unknown,\n            },","                None => DiskError::InvalidLayout,\n            },")]),
 ('b8i',['C12'],[(E,"impl PartialEq<io::Error> for DiskError {\n    fn eq(&self, other: &io::Error) -> bool {\n        matches!(DiskError::from_io_error(other), Some(ref e) if e == self)","impl PartialEq<io::Error> for DiskError {\n    fn eq(&self, other: &io::Error) -> bool {\n        self.to_io_error().kind() == other.kind()")]),
 ('b8j',['C10'],[(C,"        for sector in ChainIterator::new(blocks.clone(), start) {\n            tail_location = sector?.location;\n        }","        while let ChainLink::Next(next) = ChainLink::new(blocks.borrow().sector(tail_location)?)? {\n            tail_location = next;\n        }")]),
 ('b8k',['C05','C06'],[(F,"                sector -= 1;\n            }\n        } else {","                sector -= 2;\n            }\n        } else {")]),
 ('b8l',['C05','C06'],[(F,"            if (sector > 0) && !self.geos {\n                sector -= 1;","            if !self.geos {\n                sector -= 1;")]),
 ('b8m',['C05','C06'],[(F,"            sector += 1;\n            if sector >= num_sectors {\n                sector = 0;\n            }\n            if sector == start_sector {","            sector += 1;\n            if sector > num_sectors {\n                sector = 0;\n            }\n            if sector == start_sector {")]),
 ('b8n',['C05','C06'],[(F,"        const NUM_PASSES: usize = 3;","        const NUM_PASSES: usize = 2;")]),
 ('b8o',['C05','C06'],[(F,"        let mut passes = if previous_track == self.first_track {\n            1\n        } else {\n            NUM_PASSES\n        };","        let mut passes = if previous_track > self.directory_track {\n            NUM_PASSES\n        } else {\n            1\n        };")]),
 ('b8p',['C05','C06'],[(F,"                    track += 1;\n                    while self.is_reserved_track(track) {\n                        track += 1;\n                    }\n                    if track > self.last_track {","                    track += 1;\n                    while self.is_reserved_track(track) {\n                        track += 1;\n                    }\n                    if track >= self.last_track {")]),
 ('b8q',['C05','C06'],[(F,"            self.last_track + 1 - self.directory_track,","            self.last_track - self.directory_track,")]),
 ('b8r',['C19','C07'],[(M,"entry.reset();","")]),
 ('b8s',['C25'],[(T,"    let disk = disk::open(diskimage, true)?;\n    let mut file = disk.open_file(&filename.into())?;\n    file.delete()","    let disk = disk::open(diskimage, true)?;\n    let mut file = disk.open_file(&filename.into())?;\n    if let Err(e) = file.delete() {\n        eprintln!(\"Warning: {}\", e);\n    }\n    Ok(())")]),
 ('b8t',['C25'],[(T,"            Some(s) if s >= format.sectors_in_track(track) => {","            Some(s) if s > format.sectors_in_track(track) => {")]),
 ('b8u',['C25'],[(T,"        .create_new(true)","        .create(true)\n        .truncate(true)")]),
 ('b8v',['C25'],[(T,"Some(DiskType::D71) => D71::geometry(false)","Some(DiskType::D71) => D71::geometry(true)")]),
 ('b8w',['C25'],[(T,"        self.size -= bytes_to_write;\n        Ok(bytes_to_write)","        self.size -= bytes_to_write;\n        Ok(buf.len())")]),
 ('b8y',['C25'],[(T,"    if errors.is_empty() {","    if errors.len() <= 1 {")]),
 ('b8z',['C25'],[(T,"    io::copy(&mut reader, &mut writer)?;\n    writer.flush()\n}\n\nfn cmd_append","    io::copy(&mut reader, &mut writer)?;\n    let _ = writer.flush();\n    Ok(())\n}\n\nfn cmd_append")]),
 ('b8A',['C25'],[(T,"    let mut reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;","    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;\n    let mut reader = open_fs_reader(source_filename)?;")]),
 ('b8B',['C25'],[(T,"        Some(t) => t..=t,\n","        Some(t) => t..=t.min(format.last_track),\n")]),
 ('b8C',['C25'],[(T,"            if allocate {\n                entry.allocate(sector);","            if allocate && entry.has_availability() {\n                entry.allocate(sector);")]),
 ('b8D',['C20'],[(M,"entry.filename == *filename","entry.filename.as_bytes().starts_with(filename.as_bytes())")]),
 ('b8E',['C07','C10'],[(C,"        // Allocate the next block.\n        self.bam.borrow_mut().allocate(next_location)?;","        // Allocate the next block.\n        if let Err(e) = self.bam.borrow_mut().allocate(next_location) {\n            if e != DiskError::DiskFull {\n                return Err(e);\n            }\n        }")]),
 ('b8F',['C17'],[(C,"                        Err(_) if total_nbytes > 0 => break,","                        Err(_) if total_nbytes > 0 => return Ok(total_nbytes.min(BLOCK_SIZE - 2)),")]),
 ('b8G',['C25'],[(T,"    if let Err(e) = result {\n        eprintln!(\"Error: {}\", e);\n        process::exit(EXIT_FAILURE);","    if let Err(e) = result {\n        eprintln!(\"Error: {}\", e);\n        process::exit(e.raw_os_error().unwrap_or(0));")]),
]
