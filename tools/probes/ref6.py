B='src/disk/block.rs'; F='src/disk/file.rs'; G='src/disk/geos/file.rs'; GM='src/disk/geos/mod.rs'; M='src/disk/bam.rs'; D='src/disk/directory.rs'; U='src/util/mod.rs'
P=['C30','C27']
PROBES=[
 ('r6a',P,[(B,"""            let mut index = 0;
            for track in 1..=self.geometry().tracks {
                write!(writer, "track {:02}: ", track)?;
                for _sector in 0..self.geometry().track_layouts[track as usize].sectors {
                    write!(writer, "{:02x} ", error_table[index])?;
                    index += 1;
                }
                writeln!(writer)?;
            }""","""            let mut codes = error_table.iter();
            for track in 1..=self.geometry().tracks {
                let count = self.geometry().track_layouts[track as usize].sectors as usize;
                let mut line = format!("track {:02}: ", track);
                for code in codes.by_ref().take(count) {
                    line.push_str(&format!("{:02x} ", code));
                }
                writeln!(writer, "{}", line)?;
            }""")]),
 ('r6b',P,[(F,"""        for i in 0..self.record_count()? {
            writeln!(writer, "Record: {}", i)?;
            writeln!(writer, "{}", util::hex(&self.record(i)?))?;
        }
        Ok(())""","""        let count = self.record_count()?;
        let mut index = 0;
        while index < count {
            let record = self.record(index)?;
            writeln!(writer, "Record: {}\\n{}", index, util::hex(&record))?;
            index += 1;
        }
        Ok(())""")]),
 ('r6c',P,[(M,"""            let mut map = self.entries[track].sector_map;
            for _ in 0..self.format.tracks[track + 1].sectors {
                let c: char = if map & 1 == 1 { '.' } else { 'x' };
                f.write_char(c)?;
                map >>= 1;
            }
            f.write_char('\\n')?;""","""            let map = self.entries[track].sector_map;
            let marks: String = (0..self.format.tracks[track + 1].sectors)
                .map(|sector| if map >> sector & 1 == 1 { '.' } else { 'x' })
                .collect();
            writeln!(f, "{}", marks)?;""")]),
 ('r6d',P,[(G,"""            let available_record_count = records
                .iter()
                .enumerate()
                .rev()
                .find(|(_, r)| r.is_some())
                .map(|(i, _)| i + 1)
                .unwrap_or(records.len());""","""            let available_record_count = match records.iter().rposition(|r| r.is_some()) {
                Some(i) => i + 1,
                None => records.len(),
            };""")]),
 ('r6e',P,[(F,"""            let locations =
                ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
            writeln!(
                writer,
                "Occupied sectors: {}",
                Location::format_locations(&locations)
            )?;""","""            let mut locations = vec![];
            for sector in ChainIterator::new(self.blocks.clone(), self.entry.first_sector) {
                locations.push(sector?.location);
            }
            let text = Location::format_locations(&locations);
            writer.write_all(b"Occupied sectors: ")?;
            writeln!(writer, "{}", text)?;""")]),
 ('r6f',P,[(B,"""        locations
            .iter()
            .map(|l| l.to_string())
            .collect::<Vec<_>>()
            .join(" ")""","""        let mut text = String::new();
        for (i, l) in locations.iter().enumerate() {
            if i > 0 {
                text.push(' ');
            }
            text += &l.to_string();
        }
        text""")]),
 ('r6g',P,[(GM,"""        for (icon_line, text_line) in icon_iter
            .zip(text_iter)
            .take_while(|(a, b)| !(a.is_empty() && b.is_empty()))
        {
            writeln!""","""        for (icon_line, text_line) in icon_iter.zip(text_iter) {
            if icon_line.is_empty() && text_line.is_empty() {
                break;
            }
            writeln!""")]),
 ('r6h',P,[(D,"""            "GEOS({}, {}, {:04}-{:02}-{:02}-{:02}:{:02})",
            self.structure,
            self.geos_file_type,
            1900 + (self.year as usize),
            self.month,
            self.day,
            self.hour,
            self.minute
        )""","""            "GEOS({}, {}, ",
            self.structure,
            self.geos_file_type,
        )?;
        let year = 1900 + u32::from(self.year);
        write!(f, "{:04}-{:02}-{:02}-", year, self.month, self.day)?;
        write!(f, "{:02}:{:02})", self.hour, self.minute)""")]),
 ('r6i',P,[(GM,"""        let s: String;
        f.write_str(match self {
            GEOSFileStructure::Sequential => "Sequential",
            GEOSFileStructure::VLIR => "VLIR",
            GEOSFileStructure::Undefined(b) => {
                s = format!("Unknown(0x{:02x})", b);
                &s
            }
        })""","""        match *self {
            GEOSFileStructure::Sequential => f.write_str("Sequential"),
            GEOSFileStructure::VLIR => f.write_str("VLIR"),
            GEOSFileStructure::Undefined(b) => write!(f, "Unknown({:#04x})", b),
        }""")]),
 ('r6j',P,[(U,"""    while offset < buffer.len() {
        write!(f, "{}{:04x}: ", prefix, offset)?;
""","""    while offset < buffer.len() {
        f.write_str(prefix)?;
        write!(f, "{:04x}: ", offset)?;
"""),(U,"""        for _ in 0..padding {
            write!(f, "   ")?;
        }""","""        f.write_str(&"   ".repeat(padding))?;""")]),
]
