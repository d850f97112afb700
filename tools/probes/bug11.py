BA='src/disk/bam.rs'; CH='src/disk/chain.rs'; FI='src/disk/file.rs'; GF='src/disk/geos/file.rs'; MO='src/disk/mod.rs'; BL='src/disk/block.rs'; DI='src/disk/directory.rs'; FO='src/disk/format.rs'; VA='src/disk/validation.rs'
FIELD=(BA, "    entries: Vec<BamEntry>,\n    invalidated: bool,\n}", "    entries: Vec<BamEntry>,\n    invalidated: bool,\n    dirty: bool,\n}")
INIT=(BA, "            invalidated: false,\n", "            invalidated: false,\n            dirty: true,\n")
ALLOC=(BA, "        self.entry_mut(location.0)?.allocate(location.1);", "        self.dirty = true;\n        self.entry_mut(location.0)?.allocate(location.1);")
FREE=(BA, "        self.entry_mut(location.0)?.free(location.1);", "        self.dirty = true;\n        self.entry_mut(location.0)?.free(location.1);")
EM=(BA, "        let index = self.entry_index(track)?;\n        Ok(&mut self.entries[index])", "        let index = self.entry_index(track)?;\n        self.dirty = true;\n        Ok(&mut self.entries[index])")
def fl(b): return (BA, "        self.check_validity()?;\n        self.bam_rw.write(&self.entries)", "        self.check_validity()?;\n"+b)
PROBES = [
 ('b11a', ['C07'], [FIELD, INIT, ALLOC, fl("        if self.dirty {\n            self.bam_rw.write(&self.entries)?;\n            self.dirty = false;\n        }\n        Ok(())")]),
 ('b11b', ['C07'], [FIELD, INIT, EM, fl("        if std::mem::replace(&mut self.dirty, false) {\n            self.bam_rw.write(&self.entries)?;\n        }\n        Ok(())")]),
 ('r11c', ['C07','C03','C04','C05','C22','C19','C17','C08'], [FIELD, INIT, EM, fl("        if self.dirty {\n            self.bam_rw.write(&self.entries)?;\n            self.dirty = false;\n        }\n        Ok(())")]),
 ('b11d', ['C07'], [FIELD, INIT, ALLOC, FREE, fl("        if self.dirty {\n            self.bam_rw.write(&self.entries)?;\n            self.dirty = false;\n        }\n        Ok(())")]),
 ('b11f', ['C05'], [(BA, "    invalidated: bool,\n}", "    invalidated: bool,\n    hint: std::cell::Cell<Option<Location>>,\n}"), (BA, "            invalidated: false,\n", "            invalidated: false,\n            hint: std::cell::Cell::new(None),\n"),
   (BA, "        self.format.next_free_block(self, previous)", "        let previous = previous.or_else(|| self.hint.get());\n        let next = self.format.next_free_block(self, previous)?;\n        self.hint.set(Some(next));\n        Ok(next)")]),
 ('b11g', ['C06'], [(BA, "    invalidated: bool,\n}", "    invalidated: bool,\n    full: std::cell::Cell<bool>,\n}"), (BA, "            invalidated: false,\n", "            invalidated: false,\n            full: std::cell::Cell::new(false),\n"),
   (BA, "        self.format.next_free_block(self, previous)", "        if self.full.get() {\n            return Err(DiskError::DiskFull.into());\n        }\n        let next = self.format.next_free_block(self, previous);\n        if next.is_err() {\n            self.full.set(true);\n        }\n        next")]),
 ('b11p', ['C08','C24'], [(GF, "        locations.sort();\n        locations.dedup();", "        locations.sort();\n        locations.dedup_by_key(|l| l.0 as usize * 32 + l.1 as usize);")]),
 ('b11q', ['C10'], [(CH, "    visited_sectors: HashSet<Location>,", "    visited_sectors: HashSet<u16>,"), (CH, "        if !self.visited_sectors.insert(location) {", "        if !self.visited_sectors.insert(u16::from(location.0) * 32 + u16::from(location.1)) {")]),
 ('b11s', ['C24'], [(FI, "        locations.sort();\n        locations.dedup();\n        Ok(locations)\n    }\n\n    fn reader(&self) -> io::Result<Box<dyn Read>> {\n        Ok(Box", "        locations.sort();\n        locations.dedup_by(|a, b| a.1 == b.1);\n        Ok(locations)\n    }\n\n    fn reader(&self) -> io::Result<Box<dyn Read>> {\n        Ok(Box")]),
 ('b11t', ['C04'], [(BA, "        self.sector_map |= 1u64 << sector;", "        self.sector_map |= (1u32 << (sector & 0x1f)) as u64;")]),
 ('b11u', ['C29'], [(BL, "pub struct ImageBlockDevice {\n    image: Image,", "pub struct ImageBlockDevice {\n    dirty: bool,\n    image: Image,"), (BL, "        ImageBlockDevice { image, geometry }", "        ImageBlockDevice { dirty: false, image, geometry }"),
   (BL, "        self.image.check_writability()?;\n        self.image.flush()", "        self.image.check_writability()?;\n        if self.dirty {\n            self.dirty = false;\n            self.image.flush()?;\n        }\n        Ok(())"),
   (BL, "        let offset = self.get_offset(location)?;\n        self.image.slice_mut(offset, BLOCK_SIZE)", "        let offset = self.get_offset(location)?;\n        self.dirty = offset != 0;\n        self.image.slice_mut(offset, BLOCK_SIZE)")]),
 ('b11v', ['C22'], [(MO, "            Some(ref cell) => {\n                cell.replace(new_bam);\n            }", "            Some(ref cell) if Rc::strong_count(cell) > 2 => {\n                cell.replace(new_bam);\n            }\n            Some(_) => *bam_ref = Some(Rc::new(RefCell::new(new_bam))),")]),
 ('b11w', ['C16','C10'], [(CH, "        let location = match self.next_sector.take() {", "        let location = match self.next_sector.take().filter(|l| l.0 != 0x80) {")]),
 ('b11x', ['C17','C18'], [(CH, "        blocks.positioned_read(&mut self.entry)?;\n", "        if self.entry.file_size < 0xff {\n            blocks.positioned_read(&mut self.entry)?;\n        }\n")]),
]
INIT0=(BA, "            invalidated: false,\n", "            invalidated: false,\n            dirty: false,\n")
NEWD=(BA, "        Bam::from_entries(\n            disk_format,\n            bam_entries,\n            Box::new(BamWriter::new(blocks_ref, disk_format.bam)),\n        )", "        let mut bam = Bam::from_entries(\n            disk_format,\n            bam_entries,\n            Box::new(BamWriter::new(blocks_ref, disk_format.bam)),\n        );\n        bam.dirty = true;\n        bam")
GOODFL=fl("        if self.dirty {\n            self.bam_rw.write(&self.entries)?;\n            self.dirty = false;\n        }\n        Ok(())")
DEVF=[(BL, "pub struct ImageBlockDevice {\n    image: Image,", "pub struct ImageBlockDevice {\n    dirty: bool,\n    image: Image,"), (BL, "        ImageBlockDevice { image, geometry }", "        ImageBlockDevice { dirty: true, image, geometry }"),
   (BL, "        self.image.check_writability()?;\n        self.image.flush()", "        self.image.check_writability()?;\n        if self.dirty {\n            self.image.flush()?;\n            self.dirty = false;\n        }\n        Ok(())"),
   (BL, "        let offset = self.get_offset(location)?;\n        self.image.slice_mut(offset, BLOCK_SIZE)", "        let offset = self.get_offset(location)?;\n        self.dirty = true;\n        self.image.slice_mut(offset, BLOCK_SIZE)"),
   (BL, "    fn error_table_mut(&mut self) -> io::Result<Option<&mut [u8]>> {\n", "    fn error_table_mut(&mut self) -> io::Result<Option<&mut [u8]>> {\n        self.dirty = true;\n")]
ALLP=['C01','C02','C03','C04','C05','C06','C07','C08','C17','C18','C19','C20','C21','C22','C23','C24','C25','C29']
PROBES += [
 ('r12a', ALLP, [FIELD, INIT0, NEWD, EM, GOODFL]),
 ('r12b', ['C01','C02','C07','C17','C25','C29'], DEVF),
 ('r12c', ['C05','C06','C04','C08','C17','C19'], [(BA, "    invalidated: bool,\n}", "    invalidated: bool,\n    searches: std::cell::Cell<usize>,\n}"), (BA, "            invalidated: false,\n", "            invalidated: false,\n            searches: std::cell::Cell::new(0),\n"),
   (BA, "        self.format.next_free_block(self, previous)", "        self.searches.set(self.searches.get().wrapping_add(1));\n        self.format.next_free_block(self, previous)")]),
 ('b12d', ['C07'], [FIELD, INIT0, EM, GOODFL]),
]
