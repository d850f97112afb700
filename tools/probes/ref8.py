BA='src/disk/bam.rs'; CH='src/disk/chain.rs'; FI='src/disk/file.rs'; GF='src/disk/geos/file.rs'; MO='src/disk/mod.rs'; BL='src/disk/block.rs'; DI='src/disk/directory.rs'; FO='src/disk/format.rs'
PROBES=[
 ('r8a', ['C02','C29'], [(BL, "        let offset = self.get_offset(location)?;\n        self.image.slice_mut(offset, BLOCK_SIZE)", "        self.get_offset(location)\n            .and_then(move |offset| self.image.slice_mut(offset, BLOCK_SIZE))")]),
 ('r8b', ['C03','C04','C07'], [(BA, "        self.check_validity()?;\n        self.bam_rw.write(&self.entries)", "        match self.check_validity() {\n            Ok(()) => self.bam_rw.write(&self.entries),\n            Err(e) => Err(e),\n        }"),
   (BA, "        let mut map = self.sector_map;\n        let mut count = 0;\n        for _ in 0..64 {\n            if map & 1 == 1 {\n                count += 1;\n            }\n            map >>= 1;\n        }\n        self.free_sectors = count;", "        self.free_sectors = (0..64).filter(|bit| self.sector_map >> bit & 1 == 1).count() as u8;"),
   (BA, "        let mut blocks_free = 0usize;\n        for track in 0..(self.format.last_track as usize) {\n            if track == (self.format.directory_track - 1) as usize {\n                continue;\n            }\n            blocks_free += self.entries[track].free_sectors as usize;\n        }\n        blocks_free", "        let directory = (self.format.directory_track - 1) as usize;\n        self.entries[..self.format.last_track as usize]\n            .iter()\n            .enumerate()\n            .filter(|&(track, _)| track != directory)\n            .map(|(_, e)| usize::from(e.free_sectors))\n            .sum()")]),
 ('r8c', ['C08','C24','C30'], [(GF, "        locations.sort();\n        locations.dedup();", "        locations.sort_by(|a, b| a.cmp(b));\n        locations.dedup_by(|a, b| a == b);")]),
 ('r8d', ['C24','C08'], [(BA, "        let mut locations = vec![];\n        for track in 0..(self.format.last_track as usize) {\n            let mut map = self.entries[track].sector_map;\n            for sector in 0..self.format.tracks[track + 1].sectors {\n                if map & 1 == 0 {\n                    locations.push(Location::new(track as u8 + 1, sector));\n                }\n                map >>= 1;\n            }\n        }\n        Ok(locations)", "        let mut locations = Vec::new();\n        for track in 1..=self.format.last_track {\n            let map = self.entries[usize::from(track) - 1].sector_map;\n            locations.extend(\n                (0..self.format.tracks[usize::from(track)].sectors)\n                    .filter(|s| map >> s & 1 == 0)\n                    .map(|s| Location::new(track, s)),\n            );\n        }\n        Ok(locations)")]),
]
