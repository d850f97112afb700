D4='src/disk/d64.rs'; I='src/disk/image.rs'; L='src/disk/file.rs'; G='src/disk/geos/file.rs'; BK='src/disk/block.rs'; D7='src/disk/d71.rs'; FO='src/disk/format.rs'; M='src/disk/mod.rs'; DI='src/disk/directory.rs'; V='src/disk/validation.rs'
PROBES = [
 ('r5a', [], [(I, """        let file = OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .create_new(create_new)
            .open(path)?;
""", """        let mut options = OpenOptions::new();
        options.read(true).write(true);
        if create_new {
            options.create_new(true);
        } else {
            options.create(true).truncate(true);
        }
        let file = options.open(path)?;
""")]),
 ('r5b', [], [(I, "        Ok(Image::Memory(vec![0; length].into_boxed_slice()))", "        let data: Vec<u8> = std::iter::repeat(0u8).take(length).collect();\n        Ok(Image::Memory(data.into()))")]),
 ('r5c', [], [(D4, """        let geometry = match Geometry::find_by_size(image.len(), &ALLOWED_GEOMETRIES[..]) {
            Some(geometry) => geometry,
            None => return Err(DiskError::InvalidLayout.into()),
        };
""", """        let geometry = Geometry::find_by_size(image.len(), &ALLOWED_GEOMETRIES[..])
            .ok_or_else(|| io::Error::from(DiskError::InvalidLayout))?;
""")]),
 ('r5d', [], [(L, """        let entry = entry.clone();
        let file = match entry.scheme {
            Scheme::Linear => File::Linear(LinearFile::new(disk.blocks(), disk.bam()?, entry)),
""", """        let entry = entry.clone();
        if let Scheme::Linear = entry.scheme {
            let bam = disk.bam()?;
            return Ok(File::Linear(LinearFile::new(disk.blocks(), bam, entry)));
        }
        let file = match entry.scheme {
            Scheme::Linear => unreachable!(),
""")]),
 ('r5e', [], [(BK, """        let block = self.sector_mut(position.location)?;
        positioned_data.positioned_write(
            &mut block[position.offset as usize..position.offset as usize + position.size as usize],
        )?;
        Ok(())
""", """        let start = usize::from(position.offset);
        let end = start + usize::from(position.size);
        let block = self.sector_mut(position.location)?;
        positioned_data.positioned_write(&mut block[start..end])
""")]),
 ('r5f', [], [(BK, """        let location = match self.next {
            Some(location) => location,
            None => return None,
        };
""", """        let location = self.next?;
""")]),
 ('r5g', [], [(I, """        match self {
            Image::ReadOnlyMap(_) => Err(DiskError::ReadOnly.into()),
            Image::ReadWriteMap(mmap) => mmap.flush(),
            Image::Memory(_) => Ok(()),
        }
""", """        self.check_writability()?;
        if let Image::ReadWriteMap(mmap) = self {
            mmap.flush()?;
        }
        Ok(())
""")]),
 ('r5h', [], [(L, """    fn record(&self, index: usize) -> io::Result<Vec<u8>> {
        if index == 0 {
            let mut record = vec![];
            self.reader()?.read_to_end(&mut record)?;
            Ok(record)
        } else {
            Err(DiskError::InvalidRecord.into())
        }
    }
""", """    fn record(&self, index: usize) -> io::Result<Vec<u8>> {
        match index {
            0 => {
                let mut record = Vec::with_capacity(254);
                let mut reader = self.reader()?;
                reader.read_to_end(&mut record)?;
                Ok(record)
            }
            _ => Err(DiskError::InvalidRecord.into()),
        }
    }
""")]),
 ('r5i', [], [(M, """        if data.len() != BLOCK_SIZE {
            return Err(DiskError::WriteUnderrun.into());
        }
        let mut blocks = self.blocks_ref_mut();
        let sector = blocks.sector_mut(location)?;
        sector.copy_from_slice(data);
        Ok(())
""", """        match data.len() {
            BLOCK_SIZE => {
                let mut blocks = self.blocks_ref_mut();
                blocks.sector_mut(location)?.copy_from_slice(data);
                Ok(())
            }
            _ => Err(DiskError::WriteUnderrun.into()),
        }
""")]),
 ('r5j', [], [(G, """    fn writer(&self) -> io::Result<Box<dyn io::Write>> {
        match self.vlir {
            Some(_) => Err(DiskError::NonLinearFile.into()),
            None => Err(DiskError::ReadOnly.into()),
        }
""", """    fn writer(&self) -> io::Result<Box<dyn io::Write>> {
        let error = if self.vlir.is_some() { DiskError::NonLinearFile } else { DiskError::ReadOnly };
        Err(error.into())
""")]),
 ('r5k', [], [(L, """        match ChainWriter::new(
            self.blocks.clone(),
            self.bam.clone(),
            self.entry.clone(),
            self.entry.first_sector,
        ) {
            Ok(w) => Ok(Box::new(w)),
            Err(e) => Err(e),
        }
""", """        let start = self.entry.first_sector;
        let writer = ChainWriter::new(self.blocks.clone(), self.bam.clone(), self.entry.clone(), start)?;
        Ok(Box::new(writer))
""")]),
 ('r5l', [], [(V, """        for location in file_occupied_sectors.iter() {
            match occupied_sector_map.entry(*location) {
                Entry::Occupied(owner) => {
                    errors.push(ValidationError::SectorOveroccupied(
                        *location,
                        owner.get().clone(),
                        entry.filename.clone(),
                    ));
                }
                Entry::Vacant(v) => {
                    v.insert(entry.filename.clone());
                }
            };
        }
""", """        for location in file_occupied_sectors {
            if let Some(owner) = occupied_sector_map.get(&location) {
                errors.push(ValidationError::SectorOveroccupied(
                    location,
                    owner.clone(),
                    entry.filename.clone(),
                ));
            } else {
                occupied_sector_map.insert(location, entry.filename.clone());
            }
        }
"""), (V, "use std::collections::hash_map::Entry;\n", "")]),
 ('r5m', [], [(DI, """            for block_byte in block.iter_mut().take(BLOCK_SIZE).skip(2) {
            *block_byte = 0;
        }
""".replace("            for block_byte", "        for block_byte"), """        block[2..].fill(0);
""")]),
 ('r5n', [], [(L, """    fn get_specialized_file_mut(&mut self) -> &mut dyn FileOps {
        match self {
            File::Linear(ref mut f) => f,
            File::Relative(ref mut f) => f,
            File::GEOSSequential(ref mut f) => f,
            File::GEOSVLIR(ref mut f) => f,
""", """    fn get_specialized_file_mut(&mut self) -> &mut dyn FileOps {
        match self {
            File::GEOSSequential(ref mut f) | File::GEOSVLIR(ref mut f) => f,
            File::Linear(ref mut f) => f,
            File::Relative(ref mut f) => f,
""")]),
]
