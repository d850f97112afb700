B='src/disk/block.rs'; F='src/disk/file.rs'; G='src/disk/geos/file.rs'; GM='src/disk/geos/mod.rs'; M='src/disk/bam.rs'; D='src/disk/directory.rs'
P=['C30']
PROBES=[
 ('b9a',P,[(B,"            for track in 1..=self.geometry().tracks {\n                write!(writer, \"track","            for track in 1..self.geometry().tracks {\n                write!(writer, \"track")]),
 ('b9b',P,[(B,"                    index += 1;\n                }\n                writeln!(writer)?;","                }\n                index += 1;\n                writeln!(writer)?;")]),
 ('b9c',P,[(F,"        for i in 0..self.record_count()? {\n            writeln!(writer, \"Record: {}\", i)?;","        for i in 0..self.record_count()? {\n            if self.record(i)?.is_empty() {\n                continue;\n            }\n            writeln!(writer, \"Record: {}\", i)?;")]),
 ('b9d',P,[(M,"map & 1 == 1 { '.' } else { 'x' }","map & 1 == 1 { '.' } else { 'X' }")]),
 ('b9e',P,[(M,"            for _ in 0..self.format.tracks[track + 1].sectors {","            map &= 0xFFFF_FFFF;\n            for _ in 0..self.format.tracks[track + 1].sectors {")]),
 ('b9f',P,[(G,"                .map(|(i, _)| i + 1)\n","                .map(|(i, _)| i)\n")]),
 ('b9g',P,[(G,"                    if i >= available_record_count {","                    if i > available_record_count {")]),
 ('b9h',P,[(F,"            let locations =\n                ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;\n            writeln!(\n                writer,\n                \"Occupied","            let locations = self.occupied_sectors()?;\n            writeln!(\n                writer,\n                \"Occupied")]),
 ('b9i',P,[(GM,"            .take_while(|(a, b)| !(a.is_empty() && b.is_empty()))","            .take_while(|(a, b)| !(a.is_empty() || b.is_empty()))")]),
 ('b9j',P,[(D,"1900 + (self.year as usize),","1900 + (self.year as usize % 100),")]),
 ('b9k',P,[(GM,"GEOSFileType::FontFile => \"Font File\"","GEOSFileType::FontFile => \"Data file\"")]),
 ('b9l',P,[(F,"                Location::format_locations(&self.side_sectors)","                Location::format_locations(&self.side_sectors[..1.min(self.side_sectors.len())])")]),
 ('b9m',P,[(G,"        if let Some(info) = self.info()? {\n            writeln!","        if let Ok(Some(info)) = self.info() {\n            writeln!")]),
 ('b9n',P,[(F,"            writeln!(writer, \"{}\", util::hex(&self.record(i)?))?;","            if let Ok(record) = self.record(i) {\n                writeln!(writer, \"{}\", util::hex(&record))?;\n            }")]),
 ('b9o',P,[(B,"            let block = self.sector(location)?;\n            writeln!","            let block = match self.sector(location) {\n                Ok(b) => b,\n                Err(_) => continue,\n            };\n            writeln!")]),
]
