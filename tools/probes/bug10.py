CH='src/disk/chain.rs'; FI='src/disk/file.rs'; GF='src/disk/geos/file.rs'; GR='src/disk/geos/reader.rs'; DI='src/disk/directory.rs'; MO='src/disk/mod.rs'; VA='src/disk/validation.rs'; CD='src/bin/cdisk.rs'
LOOP="""        if !self.visited_sectors.insert(location) {"""
def cap(n): return (CH, LOOP, "        if !self.visited_sectors.insert(location) || self.visited_sectors.len() > %d {" % n)
PROBES = [
 ('b10a', ['C10','C16'], [cap(256)]),
 ('b10b', ['C10','C16'], [cap(700)]),
 ('b10c', ['C10','C16'], [cap(1400)]),
 ('b10d', ['C10','C16'], [cap(3000)]),
 ('b10e', ['C17'], [(CH, "        for sector in ChainIterator::new(blocks.clone(), start) {", "        for sector in ChainIterator::new(blocks.clone(), start).take(256) {")]),
 ('b10f', ['C09','C16'], [(FI, "            self.reader()?.read_to_end(&mut record)?;", "            self.reader()?.take(0x10000).read_to_end(&mut record)?;")]),
 ('b10g', ['C09','C16'], [(GF, "                reader.read_to_end(&mut record)?;", "                reader.by_ref().take(0xffff).read_to_end(&mut record)?;")]),
 ('b10h', ['C16'], [(GR, "                        chain.read_to_end(&mut self.buffer)?;", "                        chain.by_ref().take(0xffff).read_to_end(&mut self.buffer)?;")]),
 ('b10i', ['C20'], [(DI, "        let chain = ChainIterator::new(disk.blocks(), location);\n", "        let chain = ChainIterator::new(disk.blocks(), location).take(18);\n")]),
 ('b10j', ['C19','C18'], [(DI, "        for chain_block in chain {\n            let ChainSector { data, location } = chain_block?;", "        for chain_block in chain.take(18) {\n            let ChainSector { data, location } = chain_block?;")]),
 ('b10k', ['C24'], [(VA, "        .map(|r| r.map(|cs| cs.location))\n", "        .take(18)\n        .map(|r| r.map(|cs| cs.location))\n")]),
 ('b10l', ['C24'], [(VA, "    for entry in disk.iter() {", "    for entry in disk.iter().take(144) {")]),
 ('b10m', ['C24','C08'], [(FI, """        let mut locations = ChainIterator::new(self.blocks.clone(), self.entry.first_sector)
            .map(|r| r.map(|cs| cs.location))""", """        let mut locations = ChainIterator::new(self.blocks.clone(), self.entry.first_sector)
            .take(664)
            .map(|r| r.map(|cs| cs.location))""")]),
 ('b10n', ['C08','C24'], [(GF, "            for vlir_record_start in vlir_record_starts.iter().flatten() {", "            for vlir_record_start in vlir_record_starts.iter().take(126).flatten() {")]),
 ('b10o', ['C16'], [(CH, "        while !buf.is_empty() && !self.eof {", "        while !buf.is_empty() && !self.eof && total_nbytes + 1 != 0x10000 {")]),
 ('b10p', ['C19','C28'], [(MO, "        self.iter()\n            .find(|x| match x {", "        self.iter()\n            .take(296)\n            .find(|x| match x {")]),
 ('b10q', ['C25'], [(CD, "    let mut reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;\n    io::copy(&mut reader, &mut writer)?;", "    let reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;\n    io::copy(&mut reader.take(664 * 254), &mut writer)?;")]),
 ('b10r', ['C09','C08'], [(FI, "            data_sectors.append(&mut sectors);", "            if data_sectors.len() < 600 {\n                data_sectors.append(&mut sectors);\n            }")]),
 ('b10s', ['C30'], [(FI, """            let locations =
                ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
            writeln!(
                writer,
                "Occupied sectors: {}",
                Location::format_locations(&locations)""", """            let locations =
                ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
            writeln!(
                writer,
                "Occupied sectors: {}",
                Location::format_locations(&locations[..locations.len().min(200)])""")]),
 ('b10t', ['C18','C19','C20'], [(DI, """        for block_byte in block.iter_mut().take(BLOCK_SIZE).skip(2) {
            *block_byte = 0;""", """        for block_byte in block.iter_mut().take(BLOCK_SIZE).skip(2).step_by(2) {
            *block_byte = 0;""")]),
 ('b10u', ['C08'], [(CH, "    for location in locations {\n        bam.free(*location)?;", "    for location in locations.iter().take(2048) {\n        bam.free(*location)?;")]),
]
