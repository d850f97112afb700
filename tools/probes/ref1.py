B='src/disk/bam.rs'; K='src/disk/block.rs'; I='src/disk/image.rs'; C='src/disk/chain.rs'
PROBES=[
('r_bamnew',['C04','C21'],[(B,"""        let mut map = 0;
        for _ in 0..sectors {
            map = (map << 1) | 1;
        }
        BamEntry {
            free_sectors: sectors,
            sector_map: map,
        }""","""        BamEntry {
            free_sectors: sectors,
            sector_map: (1u64 << sectors) - 1,
        }""")]),
('r_frombytes',['C03'],[(B,"""        let mut sector_map: u64 = 0;
        for i in 0..bitmap.len() {
            let byte = bitmap.len() - i - 1;
            sector_map = (sector_map << 8) | bitmap[byte] as u64;
        }
""","""        let sector_map = bitmap
            .iter()
            .rev()
            .fold(0u64, |acc, &b| (acc << 8) | u64::from(b));
""")]),
('r_writebm',['C03'],[(B,"""        let mut sector_map = self.sector_map;
        for output_byte_ref in bitmap.iter_mut() {
            *output_byte_ref = (sector_map & 0xFF) as u8;
            sector_map >>= 8;
        }""","""        for (i, out) in bitmap.iter_mut().enumerate() {
            *out = (self.sector_map >> (8 * i)) as u8;
        }""")]),
('r_count',['C04'],[(B,"""        let mut map = self.sector_map;
        let mut count = 0;
        for _ in 0..64 {
            if map & 1 == 1 {
                count += 1;
            }
            map >>= 1;
        }
        self.free_sectors = count;""","""        self.free_sectors = self.sector_map.count_ones() as u8;""")]),
('r_blocksfree',['C04'],[(B,"""        let mut blocks_free = 0usize;
        for track in 0..(self.format.last_track as usize) {
            if track == (self.format.directory_track - 1) as usize {
                continue;
            }
            blocks_free += self.entries[track].free_sectors as usize;
        }
        blocks_free""","""        let directory_index = self.format.directory_track as usize - 1;
        self.entries
            .iter()
            .take(self.format.last_track as usize)
            .enumerate()
            .filter(|(index, _)| *index != directory_index)
            .map(|(_, entry)| entry.free_sectors as usize)
            .sum()""")]),
('r_entryidx',['C04'],[(B,"""        self.check_validity()?;
        if track < 1 || track as usize > self.entries.len() {
            return Err(DiskError::InvalidLocation.into());
        }
        Ok(track as usize - 1)""","""        self.check_validity()?;
        match (track as usize).checked_sub(1) {
            Some(index) if index < self.entries.len() => Ok(index),
            _ => Err(DiskError::InvalidLocation.into()),
        }""")]),
('r_valid',['C22'],[(B,"""        if self.invalidated {
            Err(DiskError::InvalidBAM.into())
        } else {
            Ok(())
        }""","""        if !self.invalidated {
            return Ok(());
        }
        Err(io::Error::from(DiskError::InvalidBAM))""")]),
('r_lists',['C24'],[(B,"""    pub fn allocated_sectors(&self) -> io::Result<Vec<Location>> {
        let mut locations = vec![];
        for track in 0..(self.format.last_track as usize) {
            let mut map = self.entries[track].sector_map;
            for sector in 0..self.format.tracks[track + 1].sectors {
                if map & 1 == 0 {
                    locations.push(Location::new(track as u8 + 1, sector));
                }
                map >>= 1;
            }
        }
        Ok(locations)
    }

    pub fn free_sectors(&self) -> io::Result<Vec<Location>> {
        let mut locations = vec![];
        for track in 0..(self.format.last_track as usize) {
            let mut map = self.entries[track].sector_map;
            for sector in 0..self.format.tracks[track + 1].sectors {
                if map & 1 == 1 {
                    locations.push(Location::new(track as u8 + 1, sector));
                }
                map >>= 1;
            }
        }
        Ok(locations)
    }""","""    pub fn allocated_sectors(&self) -> io::Result<Vec<Location>> {
        Ok(self.sectors_with_state(false))
    }

    pub fn free_sectors(&self) -> io::Result<Vec<Location>> {
        Ok(self.sectors_with_state(true))
    }

    fn sectors_with_state(&self, free: bool) -> Vec<Location> {
        let mut locations = Vec::new();
        for track in 1..=self.format.last_track {
            let map = self.entries[track as usize - 1].sector_map;
            locations.extend(
                (0..self.format.tracks[track as usize].sectors)
                    .filter(|sector| (map >> sector & 1 == 1) == free)
                    .map(|sector| Location::new(track, sector)),
            );
        }
        locations
    }""")]),
('r_bamread',['C03'],[(B,"""            for i in 0..section.tracks {
                // Read the BAM free sector count for this track
                let free_sector_count =
                    free_counts_block[section.free_offset + i * section.free_stride];

                // Read the BAM bitmaps
                let offset = section.bitmap_offset + i * section.bitmap_stride;
                entries.push(BamEntry::from_bytes(
                    //free_sector_counts[i],
                    free_sector_count,
                    &bitmaps_block[offset..offset + section.bitmap_size],
                ));
            }""","""            entries.extend((0..section.tracks).map(|i| {
                let offset = section.bitmap_offset + i * section.bitmap_stride;
                let free_offset = section.free_offset + i * section.free_stride;
                BamEntry::from_bytes(
                    free_counts_block[free_offset],
                    &bitmaps_block[offset..offset + section.bitmap_size],
                )
            }));""")]),
('r_bamwrite',['C03'],[(B,"""            for i in 0..section.tracks {
                let offset = section.bitmap_offset + i * section.bitmap_stride;
                entries[previous_tracks + i]
                    .write_bitmap(&mut block[offset..offset + section.bitmap_size]);
            }
""","""            let section_entries = &entries[previous_tracks..previous_tracks + section.tracks];
            for (i, entry) in section_entries.iter().enumerate() {
                let offset = section.bitmap_offset + i * section.bitmap_stride;
                entry.write_bitmap(&mut block[offset..][..section.bitmap_size]);
            }
"""),(B,"""            for i in 0..section.tracks {
                let offset = section.free_offset + i * section.free_stride;
                block[offset] = entries[previous_tracks + i].free_sectors;
            }
""","""            let mut offset = section.free_offset;
            for entry in section_entries {
                block[offset] = entry.free_sectors;
                offset += section.free_stride;
            }
""")]),
('r_offset',['C02'],[(K,"""        let track: usize = location.0 as usize;
        let sector = location.1;
        if track < 1 || track > (self.geometry.tracks as usize) {
            return Err(DiskError::InvalidLocation.into());
        }
        if sector >= self.geometry.track_layouts[track].sectors {
            return Err(DiskError::InvalidLocation.into());
        }
        let offset =
            self.geometry.track_layouts[track].byte_offset as usize + sector as usize * BLOCK_SIZE;
        Ok(offset)""","""        let Location(track, sector) = location;
        if !(1..=self.geometry.tracks).contains(&track) {
            return Err(DiskError::InvalidLocation.into());
        }
        let layout = &self.geometry.track_layouts[usize::from(track)];
        if sector < layout.sectors {
            Ok(layout.byte_offset as usize + usize::from(sector) * BLOCK_SIZE)
        } else {
            Err(DiskError::InvalidLocation.into())
        }""")]),
('r_errtab',['C01','C02'],[(K,"""        match self.geometry.error_table_offset() {
            Some(offset) => Ok(Some(self.image.slice(offset, self.image.len() - offset)?)),
            None => Ok(None),
        }""","""        self.geometry
            .error_table_offset()
            .map(|offset| self.image.slice(offset, self.image.len() - offset))
            .transpose()""")]),
('r_locit',['C02'],[(K,"""        let location = match self.next {
            Some(location) => location,
            None => return None,
        };

        let mut next_location = location;
        next_location.1 += 1;
        if next_location.1 >= self.tracks[next_location.0 as usize].sectors {
            next_location.0 += 1;
            next_location.1 = 0;
            if next_location.0 > self.last_track {
                self.next = None;
                return Some(location);
            }
        }
        self.next = Some(next_location);
        Some(location)""","""        let location = self.next.take()?;
        let Location(track, sector) = location;
        self.next = if sector + 1 < self.tracks[track as usize].sectors {
            Some(Location(track, sector + 1))
        } else if track < self.last_track {
            Some(Location(track + 1, 0))
        } else {
            None
        };
        Some(location)""")]),
('r_slice',['C01'],[(I,"""        self.check_bounds(offset + length)?;
        Ok(match self {
            Image::ReadOnlyMap(mmap) => &mmap[offset..offset + length],
            Image::ReadWriteMap(mmap) => &mmap[offset..offset + length],
            Image::Memory(array) => &array[offset..offset + length],
        })""","""        self.check_bounds(offset + length)?;
        let bytes: &[u8] = match self {
            Image::ReadOnlyMap(mmap) => mmap,
            Image::ReadWriteMap(mmap) => mmap,
            Image::Memory(array) => array,
        };
        Ok(&bytes[offset..][..length])""")]),
('r_slicemut',['C01'],[(I,"""        self.check_bounds(offset + length)?;
        match self {
            Image::ReadOnlyMap(_) => Err(DiskError::ReadOnly.into()),
            Image::ReadWriteMap(mmap) => Ok(&mut mmap[offset..offset + length]),
            Image::Memory(array) => Ok(&mut array[offset..offset + length]),
        }""","""        let end = offset + length;
        self.check_bounds(end)?;
        self.check_writability()?;
        match self {
            Image::ReadOnlyMap(_) => unreachable!(),
            Image::ReadWriteMap(mmap) => Ok(&mut mmap[offset..end]),
            Image::Memory(array) => Ok(&mut array[offset..end]),
        }""")]),
('r_writab',['C01'],[(I,"""        match self {
            Image::ReadOnlyMap(_) => Err(DiskError::ReadOnly.into()),
            Image::ReadWriteMap(_) => Ok(()),
            Image::Memory(_) => Ok(()),
        }""","""        if matches!(self, Image::ReadOnlyMap(_)) {
            return Err(DiskError::ReadOnly.into());
        }
        Ok(())""")]),
('r_link',['C11'],[(C,"""        if block[0] == 0x00 {
            // This is the last sector of the chain, so the next byte indicates how much of
            // this sector is actually used.
            if block[1] < 1 {
                // It's not valid for a chain sector to not include the first two bytes
                // as allocated.
                return Err(DiskError::InvalidChainLink.into());
            }
            Ok(ChainLink::Tail(block[1] as usize + 1)) // 2..=256
        } else {
            Ok(ChainLink::Next(Location::new(block[0], block[1])))
        }""","""        match (block[0], block[1]) {
            (0, 0) => Err(DiskError::InvalidChainLink.into()),
            (0, last) => Ok(ChainLink::Tail(usize::from(last) + 1)),
            _ => Ok(ChainLink::Next(Location::from_bytes(block))),
        }""")]),
('r_chainnext',['C10'],[(C,"""        let location = match self.next_sector.take() {
            Some(next) => next,
            None => return None,
        };

        // Loop detection.
        if !self.visited_sectors.insert(location) {
            return Some(Err(DiskError::ChainLoop.into()));
        }

        // Read the next sector.
        {
            let blocks = self.blocks.borrow();
            let block = match blocks.sector(location) {
                Ok(b) => b,
                Err(e) => return Some(Err(e)),
            };
            self.block.copy_from_slice(block);
        }

        // Trim the block if needed.
        let size = match ChainLink::new(&self.block[..]) {
            Ok(ChainLink::Next(location)) => {
                self.next_sector = Some(location);
                BLOCK_SIZE // The entire sector is used.
            }
            Ok(ChainLink::Tail(size)) => size,
            Err(e) => return Some(Err(e)),
        };
        let block = &self.block[..size];

        Some(Ok(ChainSector {
            data: block.to_vec(),
            location,
        }))
    }""","""        let location = self.next_sector.take()?;
        Some(self.visit(location))
    }"""),(C,"""    /// Read the entire chain and return a list of locations.
    pub fn locations(self)""","""    /// Read the given sector and determine its successor.
    fn visit(&mut self, location: Location) -> io::Result<ChainSector> {
        if self.visited_sectors.contains(&location) {
            return Err(DiskError::ChainLoop.into());
        }
        self.visited_sectors.insert(location);
        let mut data = self.blocks.borrow().sector(location)?.to_vec();
        match ChainLink::new(&data)? {
            ChainLink::Next(next) => self.next_sector = Some(next),
            ChainLink::Tail(size) => data.truncate(size),
        }
        Ok(ChainSector { data, location })
    }

    /// Read the entire chain and return a list of locations.
    pub fn locations(self)"""),(C,"""    block: [u8; BLOCK_SIZE],
}""","""}"""),(C,"""            block: [0u8; BLOCK_SIZE],
""","")]),
('r_locations',['C10'],[(C,"""        self.map(|r| r.map(|cs| cs.location)).collect()""","""        let mut locations = Vec::new();
        for sector in self {
            locations.push(sector?.location);
        }
        Ok(locations)""")]),
('r_reader',['C16'],[(C,"""                    if block.len() == nbytes {
                    } else {
                        // Reduce
                        let mut tail = block.split_off(nbytes);
                        ::std::mem::swap(&mut block, &mut tail);
                        // Return the unread portion
                        self.block = Some(block);
                    }

                    // Reduce the provided buffer slice to the unwritten portion.
                    let buf_ref = &mut buf;
                    let value: &mut [u8] = std::mem::take(buf_ref);
                    *buf_ref = &mut value[nbytes..];""","""                    if nbytes < block.len() {
                        block.drain(..nbytes);
                        self.block = Some(block);
                    }
                    buf = &mut buf[nbytes..];""")]),
('r_reader2',['C16'],[(C,"""                    match self.chain.next() {
                        Some(Ok(mut block)) => {
                            // discard the next-track/sector bytes
                            self.block = Some(block.data.split_off(2));
                            // Loop back to the Some(_) case to process the block.
                        }
                        Some(Err(e)) => {
                            self.eof = true;
                            return Err(e);
                        }
                        None => self.eof = true,
                    }""","""                    match self.chain.next().transpose() {
                        Ok(Some(sector)) => self.block = Some(sector.data[2..].to_vec()),
                        Ok(None) => self.eof = true,
                        Err(e) => {
                            self.eof = true;
                            return Err(e);
                        }
                    }""")]),
('r_writer',['C17'],[(C,"""            let (offset, remaining) = match ChainLink::new(&self.block)? {
                ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                    // Allocate a new block
                    let remaining = match self.allocate_next_block() {
                        Ok(remaining) => remaining,
                        // Report the bytes already stored; the next write meets the error again.
                        Err(_) if total_nbytes > 0 => break,
                        Err(e) => return Err(e),
                    };
                    (BLOCK_SIZE - remaining, remaining)
                }
                ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
            };
""","""            let mut offset = match ChainLink::new(&self.block)? {
                ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                ChainLink::Tail(used) => used,
            };
            if offset >= BLOCK_SIZE {
                if let Err(e) = self.allocate_next_block() {
                    if total_nbytes == 0 {
                        return Err(e);
                    }
                    break;
                }
                offset = 2;
            }
            let remaining = BLOCK_SIZE - offset;
""")]),
('r_alloc',['C17','C18'],[(C,"""        if let Err(e) = self.increment_entry_blocks() {
            // Roll back the allocation.
            self.bam.borrow_mut().free(next_location)?;
            return Err(e);
        }

        // If allocation succeeds, only then do we link the current block to the next
        // block.
        let mut blocks = self.blocks.borrow_mut();
        let block = match blocks.sector_mut(self.location) {
            Ok(block) => block,
            Err(e) => {
                // Roll back the allocation.
                self.bam.borrow_mut().free(next_location)?;
                return Err(e);
            }
        };
        next_location.write_bytes(block);
""","""        let linked = match self.increment_entry_blocks() {
            Ok(()) => self.link_current_block(next_location),
            Err(e) => Err(e),
        };
        if linked.is_err() {
            // Roll back the allocation.
            self.bam.borrow_mut().free(next_location)?;
        }
        linked?;
"""),(C,"""    fn write_current_block(&mut self)""","""    /// Point the current block on disk to the given one.
    fn link_current_block(&mut self, next: Location) -> io::Result<()> {
        let mut blocks = self.blocks.borrow_mut();
        let block = blocks.sector_mut(self.location)?;
        next.write_bytes(block);
        Ok(())
    }

    fn write_current_block(&mut self)""")]),
('r_flush',['C07'],[(C,"""        if self.dirty {
            // Write the current block
            self.write_current_block()?;

            // Flush the BAM
            self.bam.borrow_mut().flush()?;

            // Flush the underlying medium.
            let mut blocks = self.blocks.borrow_mut();
            blocks.flush()?;

            self.dirty = false;
        }

        Ok(())""","""        if !self.dirty {
            return Ok(());
        }
        self.write_current_block()?;
        self.bam.borrow_mut().flush()?;
        self.blocks.borrow_mut().flush()?;
        self.dirty = false;
        Ok(())""")]),
('r_free',['C08'],[(C,"""    for location in locations {
        bam.check_location(*location)?;
    }
    for location in locations {
        bam.free(*location)?;
    }
    bam.flush()""","""    locations
        .iter()
        .try_for_each(|&location| bam.check_location(location))?;
    locations.iter().try_for_each(|&location| bam.free(location))?;
    bam.flush()""")]),
]
