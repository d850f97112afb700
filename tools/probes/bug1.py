B='src/disk/bam.rs'; K='src/disk/block.rs'; I='src/disk/image.rs'; C='src/disk/chain.rs'; D='src/disk/directory.rs'; F='src/disk/format.rs'; L='src/disk/file.rs'
H='src/disk/header.rs'; M='src/disk/mod.rs'; G='src/disk/geos/file.rs'; GR='src/disk/geos/reader.rs'; GM='src/disk/geos/mod.rs'
V='src/disk/validation.rs'; E='src/disk/error.rs'; P='src/petscii.rs'; D4='src/disk/d64.rs'; D7='src/disk/d71.rs'; D8='src/disk/d81.rs'
PROBES=[
# C01
('b01a',['C01'],[(I,"            Image::ReadOnlyMap(_) => Err(DiskError::ReadOnly.into()),\n            Image::ReadWriteMap(_) => Ok(()),","            Image::ReadOnlyMap(ref map) if map.len() % 256 == 0 => Err(DiskError::ReadOnly.into()),\n            Image::ReadOnlyMap(_) | Image::ReadWriteMap(_) => Ok(()),")]),
('b01b',['C01'],[(D4,"        self.blocks.borrow().check_writability()?;\n","")]),
('b01c',['C01'],[(I,"        let file = File::open(path)?;\n        let mmap = unsafe { MmapOptions::new().map(&file)? };\n        Ok(Image::ReadOnlyMap(mmap))","        let file = OpenOptions::new().read(true).write(true).open(path)?;\n        let mmap = unsafe { MmapOptions::new().map_mut(&file)? };\n        Ok(Image::ReadWriteMap(mmap))")]),
('b01d',['C01'],[(K,"    fn error_table_mut(&mut self) -> io::Result<Option<&mut [u8]>> {\n        self.image.check_writability()?;\n","    fn error_table_mut(&mut self) -> io::Result<Option<&mut [u8]>> {\n")]),
('b01e',['C01'],[(D7,"            Image::open_read_write(path)?\n        } else {\n            Image::open_read_only(path)?","            Image::open_read_write(path)?\n        } else {\n            Image::open_read_write(path)?")]),
('b01f',['C01'],[(M,"            Err(ref e) if is_layout_error(e) => Ok(Box::new(d81::D81::open(path, writable)?)),","            Err(ref e) if is_layout_error(e) => Ok(Box::new(d81::D81::open(path, true)?)),")]),
# C02
('b02a',['C02'],[(K,"track > (self.geometry.tracks as usize)","track >= self.geometry.track_layouts.len()")]),
('b02b',['C02'],[(D7,"    tracks: 70,\n    with_error_table: true,","    tracks: 70,\n    with_error_table: false,")]),
('b02c',['C02'],[(K,"                let length = self.image.len();\n                Ok(Some(self.image.slice_mut(offset, length - offset)?))","                let length = self.image.len();\n                Ok(Some(self.image.slice_mut(offset, length - offset - 1)?))")]),
('b02d',['C02'],[(I,"        if offset > self.len() {","        if offset >= self.len() {")]),
('b02e',['C02'],[(M,"            .take((self.tracks as usize) + 1)","            .take(self.tracks as usize)")]),
('b02f',['C02'],[(M,"            if geometry.size() == size {","            if geometry.size() == size || geometry.size() + 1 == size {")]),
# C03
('b03a',['C03'],[(B,"                block = self.blocks.borrow().sector(section.free_location)?.to_vec();\n","")]),
('b03b',['C03'],[(B,"                block[offset] = entries[previous_tracks + i].free_sectors;","                block[offset] = entries[previous_tracks + i].free_sectors & 0x1f;")]),
('b03c',['C03'],[(B,"            previous_tracks += section.tracks;","            previous_tracks = section.tracks;")]),
('b03d',['C03'],[(B,"        for i in 0..bitmap.len() {\n            let byte","        for i in 0..bitmap.len().min(4) {\n            let byte")]),
('b03e',['C03'],[(D7,"        free_offset: 0xDD,","        free_offset: 0xDC,")]),
# C04
('b04a',['C04'],[(B,"        for _ in 0..64 {\n            if map & 1 == 1 {","        for _ in 0..32 {\n            if map & 1 == 1 {")]),
('b04b',['C04'],[(B,"        self.sector_map |= 1u64 << sector;\n        self.update_free_sectors();","        self.sector_map |= 1u64 << sector;\n        self.free_sectors += 1;")]),
('b04c',['C04'],[(B,"            if track == (self.format.directory_track - 1) as usize {","            if self.format.is_reserved_track(track as u8 + 1) {")]),
('b04d',['C04'],[(B,"        self.sector_map &= !(1u64 << sector);","        self.sector_map &= !(1u64 << (sector & 31));")]),
('b04e',['C04'],[(B,"        if location.1 >= self.format.tracks[location.0 as usize].sectors {","        if location.1 > self.format.tracks[location.0 as usize].sectors {")]),
# C05/06
('b05a',['C05'],[(F,"        track == self.directory_track || track == self.reserved_track","        track == self.directory_track || (self.geos && track == self.reserved_track)")]),
('b05b',['C05'],[(F,"                if track >= self.first_track && !self.is_reserved_track(track) {","                if track >= self.first_track {")]),
('b05c',['C05'],[(F,"            if map >> sector & 1 == 1 {","            if map >> (sector + 1) & 1 == 1 {")]),
('b06a',['C06'],[(F,"            self.last_track + 1 - self.directory_track,","            self.last_track - self.directory_track - 1,")]),
('b06b',['C06'],[(F,"        const NUM_PASSES: usize = 3;","        const NUM_PASSES: usize = 2;")]),
('b06c',['C06'],[(F,"            if sector >= num_sectors {\n                sector = 0;\n            }\n            if sector == start_sector {","            if sector >= num_sectors {\n                sector = 1;\n            }\n            if sector == start_sector {")]),
('b06d',['C06'],[(F,"        let mut passes = if previous_track == self.first_track {\n            1\n        } else {\n            NUM_PASSES\n        };","        let mut passes = 1;\n        let _ = NUM_PASSES;")]),
('b06e',['C06'],[(F,"                    while self.is_reserved_track(track) {\n                        track += 1;\n                    }\n                    if track > self.last_track {\n                        track = self.directory_track - 1;","                    while self.is_reserved_track(track) {\n                        track += 1;\n                    }\n                    if track >= self.last_track {\n                        track = self.directory_track - 1;")]),
# C07
('b07a',['C07'],[(C,"            self.bam.borrow_mut().flush()?;\n","            let _ = self.bam.borrow_mut().flush();\n")]),
('b07b',['C07','C18'],[(D,"        bam.allocate(new_sector)?;\n        bam.flush()?;","        bam.allocate(new_sector)?;")]),
('b07c',['C07'],[(C,"        bam.free(*location)?;\n    }\n    bam.flush()","        bam.free(*location)?;\n    }\n    if locations.len() > 1 {\n        bam.flush()?;\n    }\n    Ok(())")]),
('b07d',['C07'],[(C,"        self.dirty = true;\n        let mut total_nbytes = 0;","        let mut total_nbytes = 0;")]),
# C08
('b08a',['C08'],[(G,"            for vlir_record_start in vlir_record_starts.iter().flatten() {","            for vlir_record_start in vlir_record_starts.iter().take(126).flatten() {")]),
('b08b',['C08'],[(L,"        locations.extend(self.side_sectors.iter());\n        chain::free_sectors","        locations.extend(self.side_sectors.iter().take(1));\n        chain::free_sectors")]),
('b08c',['C08'],[(C,"    for location in locations {\n        bam.check_location(*location)?;\n    }\n","")]),
('b08d',['C08'],[(C,"    blocks.borrow().check_writability()?;\n    let mut bam","    let mut bam")]),
('b08e',['C08'],[(G,"        self.entry.file_attributes.closed_flag = false;\n","")]),
('b08f',['C08'],[(G,"        if let Some(info_location) = self.entry.info_location()? {\n            locations.push(info_location);\n        }\n","        if let (Some(info_location), None) = (self.entry.info_location()?, &self.vlir) {\n            locations.push(info_location);\n        }\n")]),
# C09
('b09a',['C09'],[(G,"            let records: Vec<Option<Location>> = index_block[2..]\n                .chunks(2)","            let records: Vec<Option<Location>> = index_block[2..254]\n                .chunks(2)")]),
('b09b',['C09'],[(L,"        if sector_offset + self.record_size <= BLOCK_SIZE {","        if sector_offset + self.record_size < BLOCK_SIZE {")]),
('b09c',['C09'],[(L,"        if index >= self.records {","        if index > self.records {")]),
('b09d',['C09'],[(L,"        for list in side_sector_lists {\n            if list != side_sectors {","        for list in side_sector_lists.into_iter().skip(1) {\n            if list != side_sectors {")]),
('b09e',['C09'],[(L,"        if record_size == 0 || data_size % record_size != 0 {","        if record_size == 0 {")]),
('b09f',['C09'],[(G,"            None if index == 0 => Some(self.entry.first_sector),\n            None => return Err(DiskError::InvalidRecordIndex.into()),","            None => Some(self.entry.first_sector),")]),
('b09g',['C09'],[(G,"                    if chunk[0] == 0x00 && chunk[1] == 0xFF {\n                        // An","                    if chunk[0] == 0x00 {\n                        // An"),]),
# C10
('b10a',['C10'],[(C,"        if !self.visited_sectors.insert(location) {","        if self.visited_sectors.len() > 1 && !self.visited_sectors.insert(location) {")]),
('b10b',['C10'],[(C,"            Ok(ChainLink::Next(location)) => {\n                self.next_sector = Some(location);","            Ok(ChainLink::Next(next)) => {\n                if next == location {\n                    return None;\n                }\n                self.next_sector = Some(next);")]),
('b10c',['C10'],[(C,"        let location = match self.next_sector.take() {","        let location = match self.next_sector {")]),
('b10d',['C10'],[(C,"                Err(e) => return Some(Err(e)),\n            };\n            self.block","                Err(_) if !self.visited_sectors.is_empty() => return None,\n                Err(e) => return Some(Err(e)),\n            };\n            self.block")]),
# C11
('b11a',['C11'],[(C,"            if block[1] < 1 {","            if block[1] < 2 {")]),
('b11b',['C11'],[(C,"                bytes[0] = 0x00;\n                bytes[1] = (*size - 1) as u8;","                bytes[1] = (*size - 1) as u8;")]),
# C12
('b12a',['C12'],[(E,"            DiskFull => io::Error::new(Other, disk_error),","            DiskFull => io::Error::new(Other, DiskError::Unknown),")]),
('b12b',['C12'],[(E,"    fn eq(&self, other: &DiskError) -> bool {\n        matches!(DiskError::from_io_error(self), Some(ref e) if e == other)","    fn eq(&self, other: &DiskError) -> bool {\n        DiskError::from_io_error(self).unwrap_or(DiskError::Unknown) == *other")]),
('b12c',['C12'],[(E,"            GEOSInfoNotFound => io::Error::new(InvalidData, disk_error),","            GEOSInfoNotFound => io::Error::from(io::ErrorKind::InvalidData),")]),
# C13
('b13a',['C13'],[(D,"            && bytes[ENTRY_EXTRA_OFFSET + Self::STRUCTURE_OFFSET] <= 1","            && bytes[ENTRY_EXTRA_OFFSET + Self::STRUCTURE_OFFSET] <= 2")]),
('b13b',['C13'],[(D,"const FILE_ATTRIB_FILE_TYPE_MASK: u8 = 0x0F;","const FILE_ATTRIB_FILE_TYPE_MASK: u8 = 0x07;")]),
('b13c',['C13'],[(D,"        entry.geos_border = self.geos_border;\n        ::std","        ::std")]),
('b13d',['C13'],[(D,"        self.extra = Extra::default();\n","")]),
('b13e',['C13'],[(D,"        bytes[ENTRY_FILE_SIZE_OFFSET + 1] = (self.file_size >> 8) as u8;","        bytes[ENTRY_FILE_SIZE_OFFSET + 1] = (self.file_size >> 8) as u8 & 0x03;")]),
('b13f',['C13'],[(D,"        bytes[Self::MINUTE_OFFSET] = self.minute;","        bytes[Self::MINUTE_OFFSET] = self.minute.min(59);")]),
('b13g',['C13'],[(P,"        for offset in (0..end).rev() {\n            if bytes[offset] == pad_byte {\n                end -= 1;\n            } else {\n                break;\n            }\n        }","        if let Some(n) = bytes.iter().position(|b| *b == pad_byte) {\n            end = n;\n        }")]),
# C14
('b14a',['C14'],[(H,"            block[format.directory_format_type_offset] = self.directory_format_type;","            block[format.directory_format_type_offset] = format.default_directory_format_type;")]),
('b14b',['C14'],[(D8,"padding_offsets: &[0x14","padding_offsets: &[0x13")]),
('b14c',['C14','C23'],[(GM,"const GEOS_BORDER_OFFSET: usize = 0xAB;","const GEOS_BORDER_OFFSET: usize = 0xAC;")]),
('b14d',['C14'],[(H,"            if block[offset] != value {","            if block[offset] & value == 0 {")]),
# C15
('b15a',['C15'],[(GM,"        bytes[Self::GEOS_STRUCTURE_OFFSET] = self.structure.to_byte();\n        u16_to_le(","        u16_to_le(")]),
('b15b',['C15'],[(GM,"            GEOSFileType::SystemBootFile => 0x0c,\n            GEOSFileType::Temporary => 0x0d,","            GEOSFileType::SystemBootFile => 0x0d,\n            GEOSFileType::Temporary => 0x0c,")]),
('b15c',['C15'],[(GM,"            0x0e => GEOSFileType::AutoExecuteFile,\n            b => ","            0x0e | 0x0f => GEOSFileType::AutoExecuteFile,\n            b => ")]),
]
