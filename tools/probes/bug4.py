P = 'src/petscii.rs'
D = 'src/disk/directory.rs'
M = 'src/disk/mod.rs'
PROBES = [
 ('b26a', ['C26'], [(P, "            // This is inefficient, but hopefully seldom used.\n            for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate() {", "            for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate().take(0xC0) {")]),
 ('b26b', ['C26'], [(P, "'outer: for c in string.chars() {", "'outer: for c in string.chars().take(16) {")]),
 ('b26c', ['C26'], [(P, "            petscii_bytes.push(PETSCII_NONE);\n", "")]),
 ('b26d', ['C26'], [(P, "for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate() {", "for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate().rev() {")]),
 ('b26e', ['C26'], [(P, "            if bytes[offset] == pad_byte {", "            if bytes[offset] == pad_byte || bytes[offset] == 0 {")]),
 ('b26f', ['C26'], [(P, "        for offset in (0..end).rev() {", "        for offset in (1..end).rev() {")]),
 ('b26g', ['C26'], [(P, "bytes.iter_mut().take(dst_len).skip(src_len)", "bytes.iter_mut().take(dst_len).skip(src_len + 1)")]),
 ('b26h', ['C26'], [(P, "        if src_len > dst_len {", "        if src_len >= dst_len && dst_len != 8 {")]),
 ('b26i', ['C26'], [(P, "    '\\u{250f}', '\\u{253b}', '\\u{2533}', '\\u{252b}',\n    // left 1/4 block, left 3/8 block, right 3/8 block -> 1/8, upper 1/4 block -> 1/8\n    '\\u{258e}', '\\u{258d}', '\\u{2595}', '\\u{2594}',\n    // upper 3/8 block -> 1/8, lower 3/8 block, check mark, quadrant lower left\n    '\\u{2594}', '\\u{2583}', '\\u{2713}', '\\u{2596}',\n    // quadrant upper right, box up+left, quadrant upper left, checkerboard-0", "    '\\u{250f}', '\\u{2533}', '\\u{253b}', '\\u{252b}',\n    // left 1/4 block, left 3/8 block, right 3/8 block -> 1/8, upper 1/4 block -> 1/8\n    '\\u{258e}', '\\u{258d}', '\\u{2595}', '\\u{2594}',\n    // upper 3/8 block -> 1/8, lower 3/8 block, check mark, quadrant lower left\n    '\\u{2594}', '\\u{2583}', '\\u{2713}', '\\u{2596}',\n    // quadrant upper right, box up+left, quadrant upper left, checkerboard-0")]),
 ('b26j', ['C26'], [(M, "if bytes.len() > 1 { bytes[1] } else { 0 }", "if bytes.len() > 1 { bytes[1] } else { 0x20 }")]),
 ('b26k', ['C26'], [(P, "            let c = petscii_to_unicode_char(*petscii_char);\n            f.write_char(c)?;", "            let c = petscii_to_unicode_char(*petscii_char);\n            if c == NONE {\n                continue;\n            }\n            f.write_char(c)?;")]),
 ('b26l', ['C26'], [(P, "    fn from(string: &str) -> Petscii {\n        Self::from_str_lossy(string)", "    fn from(string: &str) -> Petscii {\n        Self::from_str_lossy(string.trim())")]),
 ('b27a', ['C27'], [(D, "                (true, true) => \"<@\",\n                (false, false) => \" \",", "                (true, true) => \"<\",\n                (false, false) => \" \",")]),
 ('b27b', ['C27'], [(D, "            \"{:<4} {:18}{}\",", "            \"{:<4} {:17}{}\",")]),
 ('b27c', ['C27'], [(D, "            \"{:<4} {:18}{}\",", "            \"{:4} {:18}{}\",")]),
 ('b27d', ['C27'], [(D, "            if self.closed_flag { ' ' } else { '*' },", "            if self.closed_flag || self.file_type == FileType::DEL { ' ' } else { '*' },")]),
 ('b27e', ['C27'], [(M, "                        header.directory_dos_version,\n                        header.directory_format_type\n", "                        header.directory_format_type,\n                        header.directory_dos_version\n")]),
 ('b27f', ['C27'], [('src/disk/validation.rs', "                location, filename1, filename2\n", "                location, filename1, filename1\n")]),
 ('b27g', ['C27'], [('src/util/mod.rs', "next_offset <= buffer.len()", "next_offset < buffer.len()")]),
 ('b27h', ['C27'], [('src/disk/geos/mod.rs', "            Some(n) => &self.data[..n],", "            Some(n) if n > 0 => &self.data[..n],\n            Some(_) => &self.data[1..1],")]),
 ('b27i', ['C27'], [('src/sprite.rs', "if row * 2 + 1 < SPRITE_HEIGHT {", "if row * 2 + 2 < SPRITE_HEIGHT {")]),
 ('b27j', ['C27'], [('src/sprite.rs', "let bottom_bits = bottom_byte >> ((3 - block) * 2) & 0x03;", "let bottom_bits = bottom_byte >> ((3 - block) * 2 + 1) & 0x03;")]),
 ('b27k', ['C27'], [(D, "        if self.geos_border {\n            write!", "        if self.geos_border && f.alternate() {\n            write!")]),
 ('b27l', ['C27'], [('src/disk/block.rs', 'write!(f, "({},{})", self.0, self.1)', 'write!(f, "({},{})", self.0, self.1 % 100)')]),
]
