D='src/disk/directory.rs'; F='src/disk/format.rs'; L='src/disk/file.rs'
PROBES=[
('r_fbyte',['C13'],[(D,"""        let mut byte = match self.file_type {
            FileType::DEL => FILE_TYPE_DEL,
            FileType::SEQ => FILE_TYPE_SEQ,
            FileType::PRG => FILE_TYPE_PRG,
            FileType::USR => FILE_TYPE_USR,
            FileType::REL => FILE_TYPE_REL,
            FileType::Unknown(b) => b,
        };
        if self.unused_bit {
            byte |= FILE_ATTRIB_UNUSED_MASK
        };
        if self.save_with_replace_flag {
            byte |= FILE_ATTRIB_SAVE_WITH_REPLACE_MASK
        };
        if self.locked_flag {
            byte |= FILE_ATTRIB_LOCKED_MASK
        };
        if self.closed_flag {
            byte |= FILE_ATTRIB_CLOSED_MASK
        };
        byte""","""        let file_type = match self.file_type {
            FileType::DEL => FILE_TYPE_DEL,
            FileType::SEQ => FILE_TYPE_SEQ,
            FileType::PRG => FILE_TYPE_PRG,
            FileType::USR => FILE_TYPE_USR,
            FileType::REL => FILE_TYPE_REL,
            FileType::Unknown(b) => b,
        };
        let flags = [
            (self.unused_bit, FILE_ATTRIB_UNUSED_MASK),
            (self.save_with_replace_flag, FILE_ATTRIB_SAVE_WITH_REPLACE_MASK),
            (self.locked_flag, FILE_ATTRIB_LOCKED_MASK),
            (self.closed_flag, FILE_ATTRIB_CLOSED_MASK),
        ];
        flags
            .iter()
            .filter(|(set, _)| *set)
            .fold(file_type, |byte, (_, mask)| byte | mask)""")]),
('r_scratched',['C20'],[(D,"""        self.file_type == FileType::DEL && !self.closed_flag""","""        !self.closed_flag && matches!(self.file_type, FileType::DEL)""")]),
('r_geosentry',['C13'],[(D,"""        (bytes[ENTRY_FILE_ATTRIBUTE_OFFSET] & 0x07) < 4
            && (bytes[ENTRY_EXTRA_OFFSET + Self::STRUCTURE_OFFSET] != 0
                || bytes[ENTRY_EXTRA_OFFSET + Self::GEOS_FILE_TYPE_OFFSET] != 0)
            && bytes[ENTRY_EXTRA_OFFSET + Self::STRUCTURE_OFFSET] <= 1""","""        let structure = bytes[ENTRY_EXTRA_OFFSET + Self::STRUCTURE_OFFSET];
        let geos_type = bytes[ENTRY_EXTRA_OFFSET + Self::GEOS_FILE_TYPE_OFFSET];
        if bytes[ENTRY_FILE_ATTRIBUTE_OFFSET] & 0x04 != 0 || structure > 1 {
            return false;
        }
        structure | geos_type != 0""")]),
('r_size',['C13'],[(D,"""            file_size: ((bytes[ENTRY_FILE_SIZE_OFFSET + 1] as u16) << 8)
                | (bytes[ENTRY_FILE_SIZE_OFFSET] as u16),""","""            file_size: u16::from_le_bytes([
                bytes[ENTRY_FILE_SIZE_OFFSET],
                bytes[ENTRY_FILE_SIZE_OFFSET + 1],
            ]),"""),(D,"""        bytes[ENTRY_FILE_SIZE_OFFSET] = (self.file_size & 0xFF) as u8;
        bytes[ENTRY_FILE_SIZE_OFFSET + 1] = (self.file_size >> 8) as u8;""","""        bytes[ENTRY_FILE_SIZE_OFFSET..ENTRY_FILE_SIZE_OFFSET + 2]
            .copy_from_slice(&self.file_size.to_le_bytes());""")]),
('r_scheme',['C13'],[(D,"""        let scheme = if file_attributes.file_type == FileType::REL {
            Scheme::Relative
        } else if GEOSExtra::is_entry_geos(bytes) {
            if GEOSExtra::is_entry_vlir(bytes) {
                Scheme::GEOSVLIR
            } else {
                Scheme::GEOSSequential
            }
        } else {
            Scheme::Linear
        };
""","""        let scheme = match file_attributes.file_type {
            FileType::REL => Scheme::Relative,
            _ if !GEOSExtra::is_entry_geos(bytes) => Scheme::Linear,
            _ if GEOSExtra::is_entry_vlir(bytes) => Scheme::GEOSVLIR,
            _ => Scheme::GEOSSequential,
        };
""")]),
('r_reread',['C13'],[(D,"""        let mut entry = DirectoryEntry::parse(bytes, self.position);
        entry.geos_border = self.geos_border;
        ::std::mem::swap(self, &mut entry);""","""        *self = DirectoryEntry {
            geos_border: self.geos_border,
            ..DirectoryEntry::parse(bytes, self.position)
        };""")]),
('r_pos',['C13'],[(D,"""        match self.position {
            Some(p) => Ok(p),
            None => Err(DiskError::Unpositioned.into()),
        }""","""        self.position
            .ok_or_else(|| io::Error::from(DiskError::Unpositioned))""")]),
('r_diriter',['C20'],[(D,"""                        Some(Ok(block)) => {
                            if let Some(border) = self.geos_border {
                                self.processing_geos_border = border == block.location;
                            }
                            // Convert this block into a vector of entry-size chunk vectors.
                            let mut chunks: Vec<Vec<u8>> = vec![];
                            for chunk in block.data.chunks(ENTRY_SIZE) {
                                chunks.push(chunk.to_vec());
                            }
                            self.chunks = chunks.into_iter();

                            self.position.location = block.location;
                            self.position.offset = 0;
                            // Loop back to the Some(_) case to process the first chunk.
                        }
                        Some(Err(e)) => {
                            return Some(Err(e));
                        }
                        None => {
                            return None;
                        }
""","""                        Some(Ok(block)) => self.start_block(block),
                        Some(Err(e)) => return Some(Err(e)),
                        None => return None,
"""),(D,"""    /// We avoid returning an error in new(), so""","""    /// Prepare to return the entries of the given directory block.
    fn start_block(&mut self, block: ChainSector) {
        if let Some(border) = self.geos_border {
            self.processing_geos_border = border == block.location;
        }
        self.position.location = block.location;
        self.position.offset = 0;
        self.chunks = block
            .data
            .chunks(ENTRY_SIZE)
            .map(|chunk| chunk.to_vec())
            .collect::<Vec<_>>()
            .into_iter();
    }

    /// We avoid returning an error in new(), so"""),
 (D,"""                    // Use exact_chunks() when it becomes stable, to avoid this check.
                    if chunk.len() != ENTRY_SIZE {
                        continue;
                    }

                    // Track the position of this entry.
                    let entry_position = self.position;
                    // The offset will normally wrap back to 0x00 when processing the last entry in
                    // a sector.
                    self.position.offset = self.position.offset.wrapping_add(ENTRY_SIZE as u8);

                    // Parse
                    let mut entry = DirectoryEntry::from_positioned_bytes(&chunk, entry_position);
                    entry.geos_border = self.processing_geos_border;
                    // Don't include scratched files
                    if entry.file_attributes.is_scratched() {
                        continue;
                    }
                    return Some(Ok(entry));""","""                    if chunk.len() < ENTRY_SIZE {
                        continue;
                    }
                    let mut entry = DirectoryEntry::from_positioned_bytes(&chunk, self.position);
                    self.position.offset = self.position.offset.wrapping_add(ENTRY_SIZE as u8);
                    if !entry.file_attributes.is_scratched() {
                        entry.geos_border = self.processing_geos_border;
                        return Some(Ok(entry));
                    }"""),
 (D,"""        let error = self.error.take();
        if let Some(e) = error {
            return Some(Err(e));
        }
""","""        match self.error.take() {
            Some(e) => return Some(Err(e)),
            None => {}
        }
""")]),
('r_nextslot',['C20'],[(D,"""            let mut offset: u8 = 0;
            for chunk in data.chunks(ENTRY_SIZE) {
                // Ignore a partial entry at the end of the last sector.
                if chunk.len() != ENTRY_SIZE {
                    continue;
                }
                let entry = DirectoryEntry::from_positioned_bytes(
                    chunk,
                    Position {
                        location,
                        offset,
                        size: ENTRY_SIZE as u8,
                    },
                );
                if entry.file_attributes.is_scratched() {
                    return Ok(entry);
                }
                // The offset will normally wrap back to 0x00 when processing the last entry in
                // a sector.
                offset = offset.wrapping_add(ENTRY_SIZE as u8);
            }""","""            for (index, chunk) in data.chunks_exact(ENTRY_SIZE).enumerate() {
                let position = Position {
                    location,
                    offset: (index * ENTRY_SIZE) as u8,
                    size: ENTRY_SIZE as u8,
                };
                let entry = DirectoryEntry::from_positioned_bytes(chunk, position);
                if entry.file_attributes.is_scratched() {
                    return Ok(entry);
                }
            }"""),(D,"""        block[0] = 0x00;
        block[1] = 0xFF;
        // All other bytes should be zeroed.
        for block_byte in block.iter_mut().take(BLOCK_SIZE).skip(2) {
            *block_byte = 0;
        }""","""        block[..BLOCK_SIZE].fill(0);
        block[1] = 0xFF;"""),(D,"""    {
        let mut blocks = disk.blocks_ref_mut();
        let block = blocks.sector_mut(last_sector)?;
        block[0] = new_sector.0;
        block[1] = new_sector.1;
    }
""","""    new_sector.write_bytes(disk.blocks_ref_mut().sector_mut(last_sector)?);
""")]),
('r_system',['C21','C24'],[(F,"""        for section in self.bam.sections {
            locations.push(section.bitmap_location);
        }
""","""        locations.extend(self.bam.sections.iter().map(|s| s.bitmap_location));
"""),(F,"""            for sector in 0..self.tracks[self.reserved_track as usize].sectors {
                locations.push(Location(self.reserved_track, sector));
            }""","""            let track = self.reserved_track;
            locations.extend((0..self.sectors_in_track(track)).map(|s| Location(track, s)));""")]),
('r_fft',['C05','C06'],[(F,"""        for distance in 1..=max_distance {
            // Check bottom half
            if distance <= self.directory_track {
                let track = self.directory_track - distance;
                if track >= self.first_track && !self.is_reserved_track(track) {
                    let entry = bam.entry(track)?;
                    if entry.has_availability() {
                        return Ok((track, entry));
                    }
                }
            }
            // Check top half
            let track = self.directory_track + distance;
            if track <= self.last_track && !self.is_reserved_track(track) {
                let entry = bam.entry(track)?;
                if entry.has_availability() {
                    return Ok((track, entry));
                }
            }
        }""","""        for distance in 1..=max_distance {
            let below = self.directory_track.checked_sub(distance);
            let above = Some(self.directory_track + distance);
            for track in [below, above].iter().flatten().copied() {
                if track < self.first_track
                    || track > self.last_track
                    || self.is_reserved_track(track)
                {
                    continue;
                }
                let entry = bam.entry(track)?;
                if entry.has_availability() {
                    return Ok((track, entry));
                }
            }
        }""")]),
('r_ffb',['C05','C06'],[(F,"""        let mut map = entry.sector_map();
        for sector in 0..self.sectors_in_track(track) {
            if map & 1 == 1 {
                // Sector is available.
                return Ok(Location(track, sector));
            }
            map >>= 1;
        }

        // Unless the BAM is corrupt (free_sectors is not consistent with the bitmap),
        // this should never happen.
        Err(DiskError::DiskFull.into())""","""        let map = entry.sector_map();
        (0..self.sectors_in_track(track))
            .find(|sector| map >> sector & 1 == 1)
            .map(|sector| Location(track, sector))
            .ok_or_else(|| DiskError::DiskFull.into())""")]),
('r_geos',['C05','C06'],[(F,"""            track += 1;
            if track > self.last_track {
                track = self.first_track;
                passes -= 1;
                reset_sector = true;
            }
            while self.is_reserved_track(track) {
                track += 1;
                // This shouldn't happen with the formats I know about, but just in case there's
                // some oddball format with a reserved track at the end of the disk...
                if track > self.last_track {
                    track = self.first_track;
                    passes -= 1;
                    reset_sector = true;
                }
            }""","""            loop {
                track += 1;
                if track > self.last_track {
                    track = self.first_track;
                    passes -= 1;
                    reset_sector = true;
                }
                if !self.is_reserved_track(track) {
                    break;
                }
            }""")]),
('r_cbm',['C05','C06'],[(F,"""            match track.cmp(&self.directory_track) {
                Ordering::Less => {
                    // Bottom half: Scan downwards.
                    track -= 1;
                    while track > 0 && self.is_reserved_track(track) {
                        track -= 1;
                    }
                    if track < self.first_track {
                        // No more availability downwards.  Jump to the top half.
                        track = self.directory_track + 1;
                        passes -= 1;
                        reset_sector = true;
                    }
                }
                Ordering::Equal => {
                    // We're writing directory sectors, but there are no more directory tracks.
                    // (The 1571 track 53 "second directory track" doesn't actually hold chained
                    // directory sectors, and is mostly wasted except for a second
                    // BAM sector.)
                    return Err(DiskError::DiskFull.into());
                }
                Ordering::Greater => {
                    // Top half: Scan upwards.
                    track += 1;
                    while self.is_reserved_track(track) {
                        track += 1;
                    }
                    if track > self.last_track {
                        // No more availability upwards.  Jump to the bottom half.
                        track = self.directory_track - 1;
                        passes -= 1;
                        reset_sector = true;
                    }
                }
            }""","""            if track == self.directory_track {
                return Err(DiskError::DiskFull.into());
            }
            let downwards = track < self.directory_track;
            loop {
                track = if downwards { track - 1 } else { track + 1 };
                if track == 0 || !self.is_reserved_track(track) {
                    break;
                }
            }
            if track < self.first_track || track > self.last_track {
                track = if downwards {
                    self.directory_track + 1
                } else {
                    self.directory_track - 1
                };
                passes -= 1;
                reset_sector = true;
            }"""),(F,"use std::cmp::Ordering;\n","")]),
('r_scan',['C05','C06'],[(F,"""        let start_sector: u8 = sector;
        let map = entry.sector_map();
        loop {
            // Is this sector available?
            if map >> sector & 1 == 1 {
                return Ok(Location(track, sector));
            }

            // Advance to the next sector.
            sector += 1;
            if sector >= num_sectors {
                sector = 0;
            }
            if sector == start_sector {
                // The BAM entry's free sector count indicated free sectors,
                // but there were no free sectors in the bitmap.
                return Err(DiskError::InvalidBAM.into());
            }
        }""","""        let map = entry.sector_map();
        let is_free = |s: &u8| map & (1u64 << *s) != 0;
        match (sector..num_sectors).chain(0..sector).find(is_free) {
            Some(sector) => Ok(Location(track, sector)),
            None => Err(DiskError::InvalidBAM.into()),
        }""")]),
('r_interleave',['C05'],[(F,"""        let interleave = if track == self.directory_track {
            self.directory_interleave
        } else {
            self.interleave
        };
""","""        let interleave = match track == self.directory_track {
            true => self.directory_interleave,
            false => self.interleave,
        };
""")]),
('r_linrec',['C09'],[(L,"""        if index == 0 {
            let mut record = vec![];
            self.reader()?.read_to_end(&mut record)?;
            Ok(record)
        } else {
            Err(DiskError::InvalidRecord.into())
        }""","""        if index != 0 {
            return Err(DiskError::InvalidRecord.into());
        }
        let mut reader = ChainReader::new(self.blocks.clone(), self.entry.first_sector);
        let mut record = Vec::new();
        reader.read_to_end(&mut record)?;
        Ok(record)""")]),
('r_lindel',['C08'],[(L,"""        chain::remove_chain(
            self.blocks.clone(),
            self.bam.clone(),
            self.entry.first_sector,
        )?;
        // Mark the file as "DEL" and "open" (*DEL) in the directory.
        self.entry.file_attributes.file_type = FileType::DEL;
        self.entry.file_attributes.closed_flag = false;
        // Write the new directory entry
        let mut blocks = self.blocks.borrow_mut();
        blocks.positioned_write(&self.entry)?;
        Ok(())
    }

    fn record_count(&self) -> io::Result<usize> {
        // A linear""","""        let locations =
            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
        chain::free_sectors(&self.blocks, &self.bam, &locations)?;
        scratch_entry(&self.blocks, &mut self.entry)
    }

    fn record_count(&self) -> io::Result<usize> {
        // A linear"""),(L,"""        // Mark the file as "DEL" and "open" (*DEL) in the directory.
        self.entry.file_attributes.file_type = FileType::DEL;
        self.entry.file_attributes.closed_flag = false;
        // Write the new directory entry
        let mut blocks = self.blocks.borrow_mut();
        blocks.positioned_write(&self.entry)?;
        Ok(())
    }

    fn record_count(&self) -> io::Result<usize> {
        Ok(self.records)""","""        scratch_entry(&self.blocks, &mut self.entry)
    }

    fn record_count(&self) -> io::Result<usize> {
        Ok(self.records)"""),(L,"""impl LinearFile {
    pub fn new""","""/// Mark the entry as deleted and write it back.
fn scratch_entry(blocks: &BlockDeviceRef, entry: &mut DirectoryEntry) -> io::Result<()> {
    entry.file_attributes.closed_flag = false;
    entry.file_attributes.file_type = FileType::DEL;
    blocks.borrow_mut().positioned_write(&*entry)
}

impl LinearFile {
    pub fn new""")]),
('r_occ',['C17'],[(L,"""        let mut locations = vec![];
        locations.extend(self.data_sectors.iter());
        locations.extend(self.side_sectors.iter());
        locations.sort();""","""        let mut locations = self.data_sectors.clone();
        locations.extend_from_slice(&self.side_sectors);
        locations.sort_unstable();""")]),
('r_relpos',['C09'],[(L,"""        if sector_offset + self.record_size <= BLOCK_SIZE {
            Ok((
                Position {
                    location: self.data_sectors[sector_index],
                    offset: sector_offset as u8,
                    size: self.record_size as u8,
                },
                None,
            ))
        } else {
            let bytes_in_next_sector = (sector_offset + self.record_size) - BLOCK_SIZE;
            Ok((
                Position {
                    location: self.data_sectors[sector_index],
                    offset: sector_offset as u8,
                    size: (self.record_size - bytes_in_next_sector) as u8,
                },
                Some(Position {
                    location: self.data_sectors[sector_index + 1],
                    offset: 2,
                    size: bytes_in_next_sector as u8,
                }),
            ))
        }""","""        let here = self.record_size.min(BLOCK_SIZE - sector_offset);
        let first = Position {
            location: self.data_sectors[sector_index],
            offset: sector_offset as u8,
            size: here as u8,
        };
        let rest = self.record_size - here;
        let second = if rest > 0 {
            Some(Position {
                location: self.data_sectors[sector_index + 1],
                offset: 2,
                size: rest as u8,
            })
        } else {
            None
        };
        Ok((first, second))""")]),
('r_relnew',['C09'],[(L,"""            let list: Vec<Location> = list_bytes
                .chunks(2)
                .map(|c| Location::new(c[0], c[1]))
                .filter(|l| l.0 != 0)
                .collect();
            side_sector_lists.push(list);
""","""            let mut list = vec![];
            for c in list_bytes.chunks(2) {
                if c[0] != 0 {
                    list.push(Location::from_bytes(c));
                }
            }
            side_sector_lists.push(list);
"""),(L,"""        for list in side_sector_lists {
            if list != side_sectors {
                return Err(DiskError::InvalidRelativeFile.into());
            }
        }
""","""        if side_sector_lists.iter().any(|list| *list != side_sectors) {
            return Err(DiskError::InvalidRelativeFile.into());
        }
"""),(L,"""        let data_in_full_blocks = if data_sectors.is_empty() {
            0
        } else {
            (data_sectors.len() - 1) * (BLOCK_SIZE - 2)
        };
""","""        let data_in_full_blocks = data_sectors.len().saturating_sub(1) * (BLOCK_SIZE - 2);
"""),(L,"""            let mut sectors: Vec<Location> = sector.data[SIDE_SECTOR_DATA_OFFSET..size]
                .chunks(2)
                .map(|c| Location::new(c[0], c[1]))
                .collect();
            data_sectors.append(&mut sectors);""","""            data_sectors.extend(
                sector.data[SIDE_SECTOR_DATA_OFFSET..size]
                    .chunks(2)
                    .map(Location::from_bytes),
            );""")]),
]
