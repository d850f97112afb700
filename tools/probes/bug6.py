D4='src/disk/d64.rs'; I='src/disk/image.rs'; L='src/disk/file.rs'; G='src/disk/geos/file.rs'; BK='src/disk/block.rs'; D7='src/disk/d71.rs'; FO='src/disk/format.rs'; D8='src/disk/d81.rs'
PROBES = [
 ('b6a', ['C29'], [(I, ".truncate(true)\n", "")]),
 ('b6b', ['C29'], [(I, "        file.set_len(length as u64)?;\n        let mmap = unsafe { MmapOptions::new().map_mut(&file)? };", "        let _ = file.set_len(length as u64);\n        let mmap = unsafe { MmapOptions::new().map_mut(&file)? };")]),
 ('b6c', ['C29'], [(I, "Image::ReadWriteMap(mmap) => mmap.flush(),", "Image::ReadWriteMap(mmap) => mmap.flush_async(),")]),
 ('b6d', ['C29'], [(I, "Image::ReadWriteMap(mmap) => mmap.flush(),", "Image::ReadWriteMap(mmap) => { let _ = mmap.flush(); Ok(()) }")]),
 ('b6e', ['C29'], [(D4, "            &GEOMETRY_40_ERRORS\n", "            &GEOMETRY_35_ERRORS\n")]),
 ('b6f', ['C29'], [(I, "        Ok(Image::Memory(vec![0; length].into_boxed_slice()))", "        Ok(Image::Memory(vec![1; length].into_boxed_slice()))")]),
 ('b6g', ['C29'], [(D7, "Self::new(Image::create(path, geometry.size(), create_new)?)", "Self::new(Image::create(path, geometry.size(), false)?)")]),
 ('b6h', ['C02'], [(BK, "        if next_location.1 >= self.tracks[next_location.0 as usize].sectors {", "        if next_location.1 > self.tracks[next_location.0 as usize].sectors {")]),
 ('b6i', ['C02'], [(BK, "            last_track: geometry.tracks,", "            last_track: geometry.tracks - 1,")]),
 ('b6j', ['C02'], [(BK, "        let block = self.sector_mut(position.location)?;\n        positioned_data.positioned_write(\n            &mut block[position.offset as usize..position.offset as usize + position.size as usize],", "        let block = self.sector_mut(position.location)?;\n        positioned_data.positioned_write(\n            &mut block[(position.offset & 0x7f) as usize..(position.offset & 0x7f) as usize + position.size as usize],")]),
 ('b6k', ['C28'], [(L, "            Scheme::GEOSVLIR => File::GEOSVLIR(", "            Scheme::GEOSVLIR => File::GEOSSequential(")]),
 ('b6l', ['C28'], [(L, "    fn writer(&self) -> io::Result<Box<dyn Write>> {\n        Err(DiskError::NonLinearFile.into())", "    fn writer(&self) -> io::Result<Box<dyn Write>> {\n        match ChainWriter::new(self.blocks.clone(), self.bam.clone(), self.entry.clone(), self.entry.first_sector) { Ok(w) => Ok(Box::new(w)), Err(e) => Err(e) }")]),
 ('b6m', ['C28'], [(G, "    fn reader(&self) -> io::Result<Box<dyn Read>> {\n        match self.vlir {\n            Some(_) => Err(DiskError::NonLinearFile.into()),", "    fn reader(&self) -> io::Result<Box<dyn Read>> {\n        match self.vlir {\n            Some(ref r) if r.len() < 3 => Err(DiskError::NonLinearFile.into()),\n            Some(_) => Ok(Box::new(ChainReader::new(self.blocks.clone(), self.entry.first_sector))),")]),
 ('b6n', ['C28'], [(L, "        let entry = entry.clone();\n        let file", "        let mut entry = entry.clone();\n        entry.position = entry.position.filter(|p| p.offset < 0xE0 && p.offset != 0x40);\n        let file")]),
 ('b6o', ['C28'], [(L, "    fn reader(&self) -> io::Result<Box<dyn Read>> {\n        self.get_specialized_file().reader()", "    fn reader(&self) -> io::Result<Box<dyn Read>> {\n        if !self.entry().file_attributes.closed_flag { return Err(DiskError::NonLinearFile.into()); }\n        self.get_specialized_file().reader()")]),
 ('b6p', ['C29'], [(D8, "Self::new(Image::open_memory(geometry.size())?)", "Self::new(Image::open_memory(D81::geometry(false).size().max(geometry.size() & !0xff))?)")]),
 ('b6q', ['C29'], [(D8, "        d81.initialize();\n", "")]),
]
