H='src/disk/header.rs'; M='src/disk/mod.rs'; G='src/disk/geos/file.rs'; GR='src/disk/geos/reader.rs'; GM='src/disk/geos/mod.rs'
V='src/disk/validation.rs'; E='src/disk/error.rs'; P='src/petscii.rs'; D4='src/disk/d64.rs'; D7='src/disk/d71.rs'; D8='src/disk/d81.rs'
PROBES=[
('r_hdrread',['C14'],[(H,"""        // All 1571 disk images should have the double-side flag set.
        if let Some((offset, value)) = format.double_sided_flag_expectation {
            if block[offset] != value {
                return Err(DiskError::InvalidHeader.into());
            }
        }

        Ok(Header {""","""        // All 1571 disk images should have the double-side flag set.
        let sided = match format.double_sided_flag_expectation {
            Some((offset, value)) => block[offset] == value,
            None => true,
        };
        if !sided {
            return Err(DiskError::InvalidHeader.into());
        }

        Ok(Header {""")]),
('r_hdrwrite',['C14'],[(H,"""            self.disk_name
                .write_bytes_with_padding(
                    &mut block
                        [format.disk_name_offset..format.disk_name_offset + disk::DISK_NAME_SIZE],
                    PADDING_BYTE,
                )
                .map_err(|_| {
                    let e: io::Error = DiskError::FilenameTooLong.into();
                    e
                })?;
            block[format.disk_id_offset] = self.disk_id[0];
            block[format.disk_id_offset + 1] = self.disk_id[1];""","""            let name_end = format.disk_name_offset + disk::DISK_NAME_SIZE;
            let name_field = &mut block[format.disk_name_offset..name_end];
            if self
                .disk_name
                .write_bytes_with_padding(name_field, PADDING_BYTE)
                .is_err()
            {
                return Err(DiskError::FilenameTooLong.into());
            }
            block[format.disk_id_offset..format.disk_id_offset + 2]
                .copy_from_slice(self.disk_id.as_ref());"""),
 (H,"""        for padding_offset in format.padding_offsets {
            block[*padding_offset as usize] = disk::PADDING_BYTE;
        }""","""        format
            .padding_offsets
            .iter()
            .for_each(|offset| block[usize::from(*offset)] = disk::PADDING_BYTE);""")]),
('r_init',['C23'],[(M,"""        let mut header = Header::read(self.blocks().clone(), disk_format.header).ok();
        let mut bam = match header {
            Some(_) => Bam::read(self.blocks(), disk_format).ok(),
            None => {
                // It doesn't make sense to have an unreadable BAM with a valid header --
                // consider the disk image to be unformatted.
                header = None;
                None
            }
        };
""","""        let header = Header::read(self.blocks(), disk_format.header).ok();
        let mut bam = header
            .as_ref()
            .and_then(|_| Bam::read(self.blocks(), disk_format).ok());
"""),(M,"""        let format = match header {
            Some(ref header) => {
                let mut format = self.native_disk_format().clone();
                // Is this a GEOS-formatted disk?
                if header.geos.is_some() {
                    format.geos = true;
                }
                Some(format)
            }
            None => None,
        };

        // Install the (potentially) updated format into the BAM.
        if let Some(ref format) = format {
            if let Some(ref mut bam) = bam {
                bam.set_format(format);
            }
        }
""","""        let format = header.as_ref().map(|header| {
            let mut format = disk_format.clone();
            // Is this a GEOS-formatted disk?
            format.geos = format.geos || header.geos.is_some();
            format
        });

        // Install the (potentially) updated format into the BAM.
        if let (Some(format), Some(bam)) = (format.as_ref(), bam.as_mut()) {
            bam.set_format(format);
        }
""")]),
('r_wformat',['C21'],[(M,"""        for track in disk_format.first_track..=track_count {
            for sector in 0..disk_format.tracks[track as usize].sectors {
                let location = Location(track, sector);
                let mut blocks = self.blocks_ref_mut();
                let block = blocks.sector_mut(location)?;
                for block_byte in block.iter_mut().take(BLOCK_SIZE) {
                    *block_byte = 0;
                }
            }
        }
""","""        {
            let mut blocks = self.blocks_ref_mut();
            for track in disk_format.first_track..track_count + 1 {
                let sectors = disk_format.tracks[track as usize].sectors;
                for sector in 0..sectors {
                    blocks
                        .sector_mut(Location::new(track, sector))?
                        .copy_from_slice(&[0u8; BLOCK_SIZE]);
                }
            }
        }
"""),(M,"""            let block = blocks.sector_mut(disk_format.first_directory_location())?;
            // The next location link will be (0x00,0xFF) to indicate that this is the last
            // in the chain, and it is used in its entirety.
            block[0] = 0x00;
            block[1] = 0xFF;""","""            let block = blocks.sector_mut(disk_format.first_directory_location())?;
            // The next location link will be (0x00,0xFF) to indicate that this is the last
            // in the chain, and it is used in its entirety.
            chain::ChainLink::Tail(BLOCK_SIZE).to_bytes(block);"""),
 (M,"""            for location in disk_format.system_locations() {
                bam.allocate(location)?;
            }
""","""            disk_format
                .system_locations()
                .into_iter()
                .try_for_each(|location| bam.allocate(location))?;
""")]),
('r_find',['C19'],[(M,"""        self.iter()
            .find(|x| match x {
                Err(_) => true,
                Ok(ref entry) => entry.filename == *filename,
            })
            .unwrap_or_else(|| Err(DiskError::NotFound.into()))""","""        for entry in self.iter() {
            let entry = entry?;
            if &entry.filename == filename {
                return Ok(entry);
            }
        }
        Err(DiskError::NotFound.into())""")]),
('r_avail',['C19'],[(M,"""        match self.find_directory_entry(filename) {
            Ok(_) => Err(DiskError::FileExists.into()),
            Err(e) => match DiskError::from_io_error(&e) {
                Some(DiskError::NotFound) => Ok(()),
                Some(disk_error) => Err(disk_error.into()),
                _ => Err(e),
            },
        }""","""        match self.find_directory_entry(filename) {
            Ok(_) => Err(DiskError::FileExists.into()),
            Err(e) if e == DiskError::NotFound => Ok(()),
            Err(e) => Err(e),
        }""")]),
('r_rename',['C19'],[(M,"""        // Rename
        entry.filename = new_filename.clone();
        self.write_directory_entry(&entry)?;
        Ok(())""","""        // Rename
        entry.filename.clone_from(new_filename);
        self.write_directory_entry(&entry)""")]),
('r_create',['C18'],[(M,"""        let result = bam.flush();
        match result.and_then(|_| self.blocks_ref_mut().positioned_write(&entry)) {
            Ok(_) => {}
            Err(e) => {
                // If the directory entry could not be written, roll back the BAM allocation
                // before returning an error.
                bam.free(first_sector)?;
                bam.flush()?;
                return Err(e);
            }
        }
""","""        let written = match bam.flush() {
            Ok(()) => self.write_directory_entry(&entry),
            Err(e) => Err(e),
        };
        if let Err(e) = written {
            // If the directory entry could not be written, roll back the BAM allocation
            // before returning an error.
            bam.free(first_sector)?;
            bam.flush()?;
            return Err(e);
        }
""")]),
('r_wsector',['C01'],[(M,"""        if data.len() != BLOCK_SIZE {
            return Err(DiskError::WriteUnderrun.into());
        }
        let mut blocks = self.blocks_ref_mut();
        let sector = blocks.sector_mut(location)?;
        sector.copy_from_slice(data);
        Ok(())""","""        match data.len() {
            BLOCK_SIZE => {
                self.blocks_ref_mut()
                    .sector_mut(location)?
                    .copy_from_slice(data);
                Ok(())
            }
            _ => Err(DiskError::WriteUnderrun.into()),
        }""")]),
('r_setbam',['C22'],[(M,"""        Some(new_bam) => match bam_ref {
            Some(ref cell) => {
                cell.replace(new_bam);
            }
            None => *bam_ref = Some(Rc::new(RefCell::new(new_bam))),
        },""","""        Some(new_bam) => {
            if let Some(cell) = bam_ref.as_ref() {
                *cell.borrow_mut() = new_bam;
            } else {
                bam_ref.replace(Rc::new(RefCell::new(new_bam)));
            }
        }""")]),
('r_open',['C23'],[(M,"""    match DiskType::from_extension(&path) {
        Some(DiskType::D64) => return Ok(Box::new(d64::D64::open(path, writable)?)),
        Some(DiskType::D71) => return Ok(Box::new(d71::D71::open(path, writable)?)),
        Some(DiskType::D81) => return Ok(Box::new(d81::D81::open(path, writable)?)),
        None => {}
    }
""","""    if let Some(disk_type) = DiskType::from_extension(&path) {
        return Ok(match disk_type {
            DiskType::D64 => Box::new(d64::D64::open(path, writable)?),
            DiskType::D71 => Box::new(d71::D71::open(path, writable)?),
            DiskType::D81 => Box::new(d81::D81::open(path, writable)?),
        });
    }
"""),(M,"""    match d64::D64::open(path, writable) {
        Ok(d64) => Ok(Box::new(d64)),
        Err(ref e) if is_layout_error(e) => match d71::D71::open(path, writable) {
            Ok(d71) => Ok(Box::new(d71)),
            Err(ref e) if is_layout_error(e) => Ok(Box::new(d81::D81::open(path, writable)?)),
            Err(e) => Err(e),
        },
        Err(e) => Err(e),
    }""","""    match d64::D64::open(path, writable) {
        Err(ref e) if is_layout_error(e) => {}
        Err(e) => return Err(e),
        Ok(d64) => return Ok(Box::new(d64)),
    }
    match d71::D71::open(path, writable) {
        Err(ref e) if is_layout_error(e) => {}
        Err(e) => return Err(e),
        Ok(d71) => return Ok(Box::new(d71)),
    }
    let d81 = d81::D81::open(path, writable)?;
    Ok(Box::new(d81))""")]),
('r_geom',['C02'],[(M,"""        for geometry in geometries.iter() {
            if geometry.size() == size {
                return Some(geometry);
            }
        }
        None""","""        geometries
            .iter()
            .copied()
            .find(|geometry| geometry.size() == size)"""),(M,"""        self.track_layouts
            .iter()
            .take((self.tracks as usize) + 1)
            .map(|t| t.sectors as usize)
            .sum::<usize>()""","""        let mut sectors = 0;
        for layout in &self.track_layouts[..=self.tracks as usize] {
            sectors += layout.sectors as usize;
        }
        sectors"""),(M,"""        let tracks = self.tracks as usize;
        self.track_layouts[tracks].byte_offset as usize
            + self.track_layouts[tracks].sectors as usize * BLOCK_SIZE""","""        let last = &self.track_layouts[self.tracks as usize];
        (last.sector_offset as usize + last.sectors as usize) * BLOCK_SIZE""")]),
('r_id',['C14'],[(M,"""        Id([
            if !bytes.is_empty() { bytes[0] } else { 0 },
            if bytes.len() > 1 { bytes[1] } else { 0 },
        ])""","""        Id([
            bytes.first().copied().unwrap_or(0),
            bytes.get(1).copied().unwrap_or_default(),
        ])""")]),
('r_gnew',['C09'],[(G,"""            let records: Vec<Option<Location>> = index_block[2..]
                .chunks(2)
                .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                .map(|chunk| {
                    if chunk[0] == 0x00 && chunk[1] == 0xFF {
                        // An "unavailable" record
                        None
                    } else {
                        Some(Location::from_bytes(chunk))
                    }
                })
                .collect();
            Some(records)""","""            let mut records: Vec<Option<Location>> = Vec::new();
            for chunk in index_block[2..].chunks(2) {
                match (chunk[0], chunk[1]) {
                    (0x00, 0x00) => break,
                    // An "unavailable" record
                    (0x00, 0xFF) => records.push(None),
                    (track, sector) => records.push(Some(Location::new(track, sector))),
                }
            }
            Some(records)""")]),
('r_gstart',['C09'],[(G,"""        Ok(match self.vlir {
            Some(ref records) => match records.get(index) {
                Some(location) => *location,
                None => return Err(DiskError::InvalidRecordIndex.into()),
            },
            None if index == 0 => Some(self.entry.first_sector),
            None => return Err(DiskError::InvalidRecordIndex.into()),
        })""","""        match &self.vlir {
            Some(records) if index < records.len() => Ok(records[index]),
            None if index == 0 => Ok(Some(self.entry.first_sector)),
            _ => Err(DiskError::InvalidRecordIndex.into()),
        }""")]),
('r_ginfo',['C15'],[(G,"""        match self.entry.info_location()? {
            Some(location) => {
                let blocks = self.blocks.borrow_mut();
                let info_bytes = blocks.sector(location)?;
                let info = GEOSInfo::from_bytes(info_bytes);
                Ok(Some(info))
            }
            None => Ok(None),
        }""","""        let location = match self.entry.info_location()? {
            Some(location) => location,
            None => return Ok(None),
        };
        let blocks = self.blocks.borrow();
        blocks
            .sector(location)
            .map(|bytes| Some(GEOSInfo::from_bytes(bytes)))""")]),
('r_gdel',['C08'],[(G,"""        self.entry.file_attributes.file_type = FileType::DEL;
        self.entry.file_attributes.closed_flag = false;
        // Write the new directory entry
        let mut blocks = self.blocks.borrow_mut();
        blocks.positioned_write(&self.entry)?;
        Ok(())""","""        let attributes = &mut self.entry.file_attributes;
        attributes.closed_flag = false;
        attributes.file_type = FileType::DEL;
        // Write the new directory entry
        self.blocks.borrow_mut().positioned_write(&self.entry)""")]),
('r_gcount',['C09'],[(G,"""        Ok(match self.vlir {
            Some(ref records) => records.len(),
            None => 1,
        })""","""        Ok(self.vlir.as_ref().map_or(1, |records| records.len()))""")]),
('r_grec',['C09'],[(G,"""        match self.record_start(index)? {
            Some(location) => {
                let mut reader = ChainReader::new(self.blocks.clone(), location);
                let mut record = vec![];
                reader.read_to_end(&mut record)?;
                Ok(record)
            }
            // Is it correct to interpret an "unavailable" record as zero-length?
            None => Ok(vec![]),
        }""","""        let mut record = vec![];
        // Is it correct to interpret an "unavailable" record as zero-length?
        if let Some(location) = self.record_start(index)? {
            for sector in ChainIterator::new(self.blocks.clone(), location) {
                record.extend_from_slice(&sector?.data[2..]);
            }
        }
        Ok(record)""")]),
('r_gocc',['C08'],[(G,"""        let mut locations = ChainIterator::new(self.blocks.clone(), self.entry.first_sector)
            .map(|r| r.map(|cs| cs.location))
            .collect::<io::Result<Vec<_>>>()?;
        if let Some(info_location) = self.entry.info_location()? {
            locations.push(info_location);
        }
        if let Some(ref vlir_record_starts) = self.vlir {
            for vlir_record_start in vlir_record_starts.iter().flatten() {
                let record_locations = ChainIterator::new(self.blocks.clone(), *vlir_record_start)
                    .map(|r| r.map(|cs| cs.location))
                    .collect::<io::Result<Vec<_>>>()?;
                locations.extend(record_locations);
            }
        }
        locations.sort();""","""        let chain = |start| ChainIterator::new(self.blocks.clone(), start).locations();
        let mut locations = chain(self.entry.first_sector)?;
        locations.extend(self.entry.info_location()?);
        for record in self.vlir.iter().flatten() {
            if let Some(start) = record {
                locations.append(&mut chain(*start)?);
            }
        }
        locations.sort();""")]),
('r_greader',['C16'],[(G,"""        match self.vlir {
            Some(_) => Err(DiskError::NonLinearFile.into()),
            None => {
                // We allow reading a GEOS sequential file as if it were a linear file.  (The
                // caller will not receive the info block, obviously.)
                Ok(Box::new(ChainReader::new(
                    self.blocks.clone(),
                    self.entry.first_sector,
                )))
            }
        }""","""        if self.vlir.is_some() {
            return Err(DiskError::NonLinearFile.into());
        }
        // We allow reading a GEOS sequential file as if it were a linear file.  (The
        // caller will not receive the info block, obviously.)
        let reader = ChainReader::new(self.blocks.clone(), self.entry.first_sector);
        Ok(Box::new(reader))""")]),
('r_grnew',['C16'],[(GR,"""        let mut buffer = [0; BLOCK_SIZE].to_vec();
""","""        let mut buffer = vec![0u8; BLOCK_SIZE];
"""),(GR,"""        if entry.is_vlir()? {
            buffer[CVT_SIGNATURE_OFFSET..CVT_SIGNATURE_OFFSET + 3]
                .copy_from_slice(CVT_SIGNATURE_PRG);
        } else {
            buffer[CVT_SIGNATURE_OFFSET..CVT_SIGNATURE_OFFSET + 3]
                .copy_from_slice(CVT_SIGNATURE_SEQ);
        }
        buffer[CVT_SIGNATURE_OFFSET + 3..CVT_SIGNATURE_OFFSET + 3 + CVT_SIGNATURE_SUFFIX.len()]
            .copy_from_slice(CVT_SIGNATURE_SUFFIX);
""","""        let is_vlir = entry.is_vlir()?;
        let prefix = if is_vlir {
            CVT_SIGNATURE_PRG
        } else {
            CVT_SIGNATURE_SEQ
        };
        let (head, tail) = buffer[CVT_SIGNATURE_OFFSET..].split_at_mut(prefix.len());
        head.copy_from_slice(prefix);
        tail[..CVT_SIGNATURE_SUFFIX.len()].copy_from_slice(CVT_SIGNATURE_SUFFIX);
"""),(GR,"""        buffer.drain(0..2);
        assert!(buffer.len() == BLOCK_DATA_SIZE);
""","""        let buffer = buffer.split_off(2);
        assert!(buffer.len() == BLOCK_DATA_SIZE);
"""),(GR,"""            is_vlir: entry.is_vlir()?,""","""            is_vlir,""")]),
('r_grvlir',['C16'],[(GR,"""            let (count, last) = ChainIterator::new(blocks, start).fold(Ok((0, 0)), |acc, b| {
                acc.and_then(|(count, _last)| {
                    // Note we subtract one from the data length to convert to CBM's "offset of last
                    // used byte within the full block containing a two block track and sector
                    // prefix".
                    b.map(|b| (count + 1, b.data.len() - 1))
                })
            })?;""","""            let mut count = 0usize;
            let mut last = 0usize;
            for b in ChainIterator::new(blocks, start) {
                // Note we subtract one from the data length to convert to CBM's "offset of last
                // used byte within the full block containing a two block track and sector
                // prefix".
                last = b?.data.len() - 1;
                count += 1;
            }"""),(GR,"""        let mut block =
            conversions
                .iter()
                .fold(Vec::with_capacity(BLOCK_DATA_SIZE), |mut v, conversion| {
                    v.push(conversion.0);
                    v.push(conversion.1);
                    v
                });""","""        let mut block = Vec::with_capacity(BLOCK_DATA_SIZE);
        for (count, last) in conversions {
            block.extend_from_slice(&[count, last]);
        }""")]),
('r_grpad',['C16'],[(GR,"""                            let remainder = self.buffer.len() % BLOCK_DATA_SIZE;
                            if remainder > 0 {
                                let padded_size = self.buffer.len() + BLOCK_DATA_SIZE - remainder;
                                self.buffer.resize(padded_size, 0);
                            }""","""                            while self.buffer.len() % BLOCK_DATA_SIZE != 0 {
                                self.buffer.push(0);
                            }""")]),
('r_grread',['C16'],[(GR,"""            // Write bytes
            let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
            bytes_written += bytes;
""","""            // Write bytes
            let (filled, rest) = buf.split_at_mut(bytes);
            filled.copy_from_slice(&self.buffer[..bytes]);
            bytes_written += filled.len();
"""),(GR,"""            if bytes == buf.len() {
                // Output buffer filled -- nothing more to do for now.
                break;
            }

            // Reduce the output buffer to the unwritten portion.
            let buf_ref = &mut buf;
            let value: &mut [u8] = std::mem::take(buf_ref);
            *buf_ref = &mut value[bytes..];
""","""            if rest.is_empty() {
                // Output buffer filled -- nothing more to do for now.
                break;
            }

            // Reduce the output buffer to the unwritten portion.
            buf = rest;
""")]),
('r_ghdr',['C23'],[(GM,"""        if &block[GEOS_SIGNATURE_OFFSET..GEOS_SIGNATURE_OFFSET + GEOS_SIGNATURE.len()]
            == GEOS_SIGNATURE
        {
            Some(GEOSDiskHeader {
                border: Location::from_bytes(&block[GEOS_BORDER_OFFSET..GEOS_BORDER_OFFSET + 2]),
                id: GEOSString::from_bytes(&block[GEOS_ID_OFFSET..GEOS_ID_OFFSET + GEOS_ID_SIZE]),
            })
        } else {
            None
        }""","""        if !block[GEOS_SIGNATURE_OFFSET..].starts_with(GEOS_SIGNATURE) {
            return None;
        }
        let border = Location::new(block[GEOS_BORDER_OFFSET], block[GEOS_BORDER_OFFSET + 1]);
        let id = GEOSString::from_bytes(&block[GEOS_ID_OFFSET..][..GEOS_ID_SIZE]);
        Some(GEOSDiskHeader { border, id })""")]),
('r_u16',['C15'],[(GM,"""    ((bytes[1] as u16) << 8) | (bytes[0] as u16)""","""    u16::from_le_bytes([bytes[0], bytes[1]])"""),(GM,"""    bytes[0] = (n & 0xFF) as u8;
    bytes[1] = ((n >> 8) & 0xFF) as u8;""","""    let [low, high] = n.to_le_bytes();
    bytes[0] = low;
    bytes[1] = high;""")]),
('r_trim',['C15'],[(GM,"""        match self.data.iter().position(|b| *b == 0u8) {
            Some(n) => &self.data[..n],
            None => &self.data[..],
        }""","""        let end = self
            .data
            .iter()
            .position(|b| *b == 0u8)
            .unwrap_or(self.data.len());
        &self.data[..end]""")]),
('r_hashset',['C24'],[(V,"""    let mut inverse = HashSet::new();
    for track in format.first_track..=format.last_track {
        for sector in 0..format.tracks[track as usize].sectors {
            let location = Location::new(track, sector);
            if !locations.contains(&location) {
                inverse.insert(location);
            }
        }
    }
    inverse""","""    (format.first_track..=format.last_track)
        .flat_map(|track| {
            (0..format.tracks[track as usize].sectors).map(move |sector| Location(track, sector))
        })
        .filter(|location| !locations.contains(location))
        .collect()""")]),
('r_valdir',['C24'],[(V,"""    let directory_start = Location::new(format.directory_track, format.first_directory_sector);
    let mut directory_locations = ChainIterator::new(disk.blocks(), directory_start)
        .map(|r| r.map(|cs| cs.location))
        .collect::<io::Result<Vec<_>>>()?;""","""    let mut directory_locations =
        ChainIterator::new(disk.blocks(), format.first_directory_location()).locations()?;"""),
 (V,"""            match occupied_sector_map.entry(*location) {
                Entry::Occupied(owner) => {
                    errors.push(ValidationError::SectorOveroccupied(
                        *location,
                        owner.get().clone(),
                        entry.filename.clone(),
                    ));
                }
                Entry::Vacant(v) => {
                    v.insert(entry.filename.clone());
                }
            };""","""            if let Some(owner) = occupied_sector_map.get(location) {
                errors.push(ValidationError::SectorOveroccupied(
                    *location,
                    owner.clone(),
                    entry.filename.clone(),
                ));
            } else {
                occupied_sector_map.insert(*location, entry.filename.clone());
            }"""),(V,"use std::collections::hash_map::Entry;\n","")]),
('r_valend',['C24'],[(V,"""    for misallocated_sector in allocated_sectors.intersection(&unoccupied_sectors) {
        errors.push(ValidationError::SectorMisallocated(*misallocated_sector));
    }""","""    errors.extend(
        unoccupied_sectors
            .intersection(&allocated_sectors)
            .map(|l| ValidationError::SectorMisallocated(*l)),
    );"""),(V,"""        if system_sectors.contains(misoccupied_sector) {
            // System sector misoccupation was handled with SystemSectorNotAllocated above.
            continue;
        }
        let filename = occupied_sector_map
            .get(misoccupied_sector)
            .cloned()
            .unwrap_or_else(|| "None".into());
        errors.push(ValidationError::SectorMisoccupied(
            *misoccupied_sector,
            filename.clone(),
        ));""","""        // System sector misoccupation was handled with SystemSectorNotAllocated above.
        if !system_sectors.contains(misoccupied_sector) {
            let filename = match occupied_sector_map.get(misoccupied_sector) {
                Some(filename) => filename.clone(),
                None => "None".into(),
            };
            errors.push(ValidationError::SectorMisoccupied(
                *misoccupied_sector,
                filename,
            ));
        }""")]),
('r_err',['C12'],[(E,"""        match error.into_inner() {
            Some(e) => match e.downcast_ref::<DiskError>() {
                Some(disk_error) => disk_error.clone(),
                None => DiskError::Unknown,
            },
            None => DiskError::Unknown,
        }""","""        DiskError::from_io_error(&error).unwrap_or(DiskError::Unknown)"""),(E,"""        match error.get_ref() {
            Some(e) => e.downcast_ref::<DiskError>().cloned(),
            None => None,
        }""","""        error
            .get_ref()
            .and_then(|e| e.downcast_ref::<DiskError>())
            .cloned()"""),(E,"""        matches!(DiskError::from_io_error(other), Some(ref e) if e == self)""","""        DiskError::from_io_error(other).map_or(false, |e| e == *self)"""),(E,"""            InvalidLocation => io::Error::new(InvalidInput, disk_error),
            InvalidOffset => io::Error::new(InvalidInput, disk_error),""","""            InvalidLocation | InvalidOffset => io::Error::new(InvalidInput, disk_error),""")]),
('r_d64new',['C23'],[(D4,"""        let geometry = match Geometry::find_by_size(image.len(), &ALLOWED_GEOMETRIES[..]) {
            Some(geometry) => geometry,
            None => return Err(DiskError::InvalidLayout.into()),
        };
""","""        let geometry = Geometry::find_by_size(image.len(), &ALLOWED_GEOMETRIES)
            .ok_or_else(|| io::Error::from(DiskError::InvalidLayout))?;
"""),(D4,"""        let header = match self.header {
            Some(ref mut header) => header,
            None => return Err(DiskError::Unformatted.into()),
        };
        header.write(self.blocks.clone(), &HEADER_FORMAT)""","""        match &mut self.header {
            Some(header) => header.write(self.blocks.clone(), &HEADER_FORMAT),
            None => Err(DiskError::Unformatted.into()),
        }"""),(D4,"""        match self.bam {
            Some(ref bam) => Ok(bam.clone()),
            None => Err(DiskError::Unformatted.into()),
        }""","""        self.bam
            .clone()
            .ok_or_else(|| DiskError::Unformatted.into())""")]),
('r_padded',['C13'],[(P,"""        let mut end = bytes.len();
        for offset in (0..end).rev() {
            if bytes[offset] == pad_byte {
                end -= 1;
            } else {
                break;
            }
        }
        Petscii((bytes[..end]).to_owned())""","""        let end = bytes
            .iter()
            .rposition(|byte| *byte != pad_byte)
            .map_or(0, |last| last + 1);
        Petscii(bytes[..end].to_vec())""")]),
('r_wpad',['C13'],[(P,"""        let src_len = self.0.len();
        let dst_len = bytes.len();
        if src_len > dst_len {
            return Err(PetsciiError::BufferExceeded);
        } else {
            let _ = &bytes[..src_len].copy_from_slice(&self.0);
            for byte_ref in bytes.iter_mut().take(dst_len).skip(src_len) {
                *byte_ref = pad_byte;
            }
        }
        Ok(())""","""        if bytes.len() < self.len() {
            return Err(PetsciiError::BufferExceeded);
        }
        let (text, padding) = bytes.split_at_mut(self.len());
        text.copy_from_slice(self.as_bytes());
        padding.fill(pad_byte);
        Ok(())""")]),
]
