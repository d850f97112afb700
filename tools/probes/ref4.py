P = 'src/petscii.rs'
D = 'src/disk/directory.rs'
M = 'src/disk/mod.rs'
A = None
PROBES = [
 ('r_lossy', A, [(P, """        let mut petscii_bytes = Vec::with_capacity(string.len());
        'outer: for c in string.chars() {
            // This is inefficient, but hopefully seldom used.
            for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate() {
                if *mapping == c {
                    petscii_bytes.push(p as u8);
                    continue 'outer;
                }
            }
            petscii_bytes.push(PETSCII_NONE);
        }
        Petscii(petscii_bytes.to_owned())
""", """        fn code(c: char) -> u8 {
            PETSCII_TO_CHAR_MAP
                .iter()
                .position(|m| *m == c)
                .map(|p| p as u8)
                .unwrap_or(PETSCII_NONE)
        }
        Petscii(string.chars().map(code).collect())
""")]),
 ('r_frompad', A, [(P, """        let mut end = bytes.len();
        for offset in (0..end).rev() {
            if bytes[offset] == pad_byte {
                end -= 1;
            } else {
                break;
            }
        }
        Petscii((bytes[..end]).to_owned())
""", """        let end = bytes
            .iter()
            .rposition(|b| *b != pad_byte)
            .map_or(0, |last| last + 1);
        Petscii::from_bytes(&bytes[..end])
""")]),
 ('r_wrpad', A, [(P, """        let src_len = self.0.len();
        let dst_len = bytes.len();
        if src_len > dst_len {
            return Err(PetsciiError::BufferExceeded);
        } else {
            let _ = &bytes[..src_len].copy_from_slice(&self.0);
            for byte_ref in bytes.iter_mut().take(dst_len).skip(src_len) {
                *byte_ref = pad_byte;
            }
        }
        Ok(())
""", """        if self.len() > bytes.len() {
            return Err(PetsciiError::BufferExceeded);
        }
        let (text, rest) = bytes.split_at_mut(self.len());
        text.copy_from_slice(self.as_bytes());
        rest.fill(pad_byte);
        Ok(())
""")]),
 ('r_disp', A, [(P, """        for petscii_char in self.0.iter() {
            let c = petscii_to_unicode_char(*petscii_char);
            f.write_char(c)?;
        }
        Ok(())
""", """        let text: String = self.0.iter().map(|b| petscii_to_unicode_char(*b)).collect();
        f.write_str(&text)
""")]),
 ('r_attr', A, [(D, """        write!(
            f,
            "{}{}{}",
            if self.closed_flag { ' ' } else { '*' },
            self.file_type,
            match (self.locked_flag, self.save_with_replace_flag) {
                (true, false) => "<",
                (false, true) => "@",
                (true, true) => "<@",
                (false, false) => " ",
            },
        )
""", """        f.write_char(if self.closed_flag { ' ' } else { '*' })?;
        self.file_type.fmt(f)?;
        if !self.locked_flag && !self.save_with_replace_flag {
            return f.write_char(' ');
        }
        if self.locked_flag {
            f.write_char('<')?;
        }
        if self.save_with_replace_flag {
            f.write_char('@')?;
        }
        Ok(())
""")]),
 ('r_entryline', A, [(D, """        let quoted_filename = format!("\\"{}\\"", self.filename);
        write!(
            f,
            "{:<4} {:18}{}",
            self.file_size, quoted_filename, self.file_attributes
        )?;
        if f.alternate() {""", """        let name = self.filename.to_string();
        let mut quoted = String::with_capacity(18);
        quoted.push('"');
        quoted.push_str(&name);
        quoted.push('"');
        write!(f, "{:<4} {:<18}", self.file_size, quoted)?;
        write!(f, "{}", self.file_attributes)?;
        if f.alternate() {""")]),
 ('r_title', A, [(M, """                    header.disk_name,
                    header.disk_id,
                    Petscii::from_bytes(&[
                        header.directory_dos_version,
                        header.directory_format_type
                    ]),
                )?;""", """                    header.disk_name.to_string(),
                    header.disk_id,
                    {
                        let v = vec![header.directory_dos_version, header.directory_format_type];
                        Petscii::from_bytes(&v)
                    },
                )?;""")]),
 ('r_idfrom', A, [(M, """        Id([
            if !bytes.is_empty() { bytes[0] } else { 0 },
            if bytes.len() > 1 { bytes[1] } else { 0 },
        ])
""", """        let mut id = [0u8; 2];
        for (to, from) in id.iter_mut().zip(bytes.iter()) {
            *to = *from;
        }
        Id(id)
""")]),
 ('r_sprite', A, [('src/sprite.rs', """                for block in 0..4 {
                    let top_bits = top_byte >> ((3 - block) * 2) & 0x03;
                    let bottom_bits = bottom_byte >> ((3 - block) * 2) & 0x03;
""", """                for shift in [6, 4, 2, 0].iter() {
                    let top_bits = (top_byte >> shift) & 0x03;
                    let bottom_bits = (bottom_byte >> shift) & 0x03;
""")]),
 ('r_escaped', A, [('src/disk/geos/mod.rs', """        let mut s: String = String::new();
        for byte in self.get_trimmed_buffer().iter() {
            for escaped_byte in ascii::escape_default(*byte) {
                s.push(escaped_byte as char);
            }
        }
        s
""", """        self.get_trimmed_buffer()
            .iter()
            .flat_map(|b| ascii::escape_default(*b))
            .map(char::from)
            .collect()
""")]),
 ('r_hex', A, [('src/util/mod.rs', """        let (row_size, padding) = if next_offset <= buffer.len() {
            (COLUMNS, 0)
        } else {
            (buffer.len() - offset, next_offset - buffer.len())
        };
        let row = &buffer[offset..offset + row_size];
""", """        let end = next_offset.min(buffer.len());
        let row = &buffer[offset..end];
        let padding = COLUMNS - row.len();
""")]),
]
