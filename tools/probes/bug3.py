T='src/bin/cdisk.rs'
PROBES=[
('b25a',['C25'],[(T,"        process::exit(EXIT_FAILURE);\n    }\n}\n","        process::exit(_EXIT_SUCCESS);\n    }\n}\n")]),
('b25b',['C25'],[(T,"    io::copy(&mut reader, &mut writer)?;\n    writer.flush()\n}\n\nfn cmd_append","    let _ = io::copy(&mut reader, &mut writer);\n    writer.flush()\n}\n\nfn cmd_append")]),
('b25c',['C25'],[(T,"disk.rename(&original_filename.into(), &new_filename.into())","disk.rename(&new_filename.into(), &original_filename.into())")]),
('b25d',['C25'],[(T,"        .create_new(true)","        .create(true)")]),
('b25e',['C25'],[(T,"        Some(DiskType::D71) => D71::geometry(false),","        Some(DiskType::D71) => D71::geometry(true),")]),
('b25f',['C25'],[(T,"    if errors.is_empty() {","    if errors.len() <= 1 {")]),
('b25g',['C25'],[(T,"    let mut reader = open_cbm_reader(diskimage, source_filename)?;\n    let mut writer = open_fs_writer(destination_filename)?;","    let mut writer = open_fs_writer(destination_filename)?;\n    let mut reader = open_cbm_reader(diskimage, source_filename)?;")]),
('b25h',['C25'],[(T,"            None => 0..=(format.sectors_in_track(track) - 1),","            None => 0..=(format.sectors_in_track(1) - 1),")]),
('b25i',['C25'],[(T,"            println!(\"{}\", entry?);","            if let Ok(entry) = entry {\n                println!(\"{}\", entry);\n            }")]),
('b25j',['C25'],[(T,"        self.size -= bytes_to_write;\n","        self.size = self.size.saturating_sub(buf.len().max(1));\n        let bytes_to_write = bytes_to_write;\n")]),
('b25k',['C25'],[(T,"    writer.flush()\n}\n\nfn cmd_geosread","    writer.flush().or(Ok(()))\n}\n\nfn cmd_geosread")]),
('b25l',['C25'],[(T,"fn open_cbm_file(diskimage: &str, filename: &str) -> io::Result<File> {\n    // Open the CBM file\n    let disk = disk::open(diskimage, false)?;","fn open_cbm_file(diskimage: &str, filename: &str) -> io::Result<File> {\n    // Open the CBM file\n    let disk = disk::open(diskimage, true)?;")]),
('b25m',['C25'],[(T,"                .and_then(FileType::from_string)\n                .unwrap_or(FileType::SEQ)","                .and_then(FileType::from_string)\n                .unwrap_or(FileType::PRG)")]),
('b25n',['C25'],[(T,"    let destination_filename = destination_filename.unwrap_or(source_filename);\n    let mut reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_appender(","    let _destination_filename = destination_filename.unwrap_or(source_filename);\n    let destination_filename = source_filename;\n    let mut reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_appender(")]),
('b25o',['C25'],[(T,"            Ok(n) if n >= min && n <= max => Ok(Some(n)),","            Ok(n) if n >= min && n < max => Ok(Some(n)),")]),
('b25p',['C25'],[(T,"            if allocate {\n                entry.allocate(sector);","            if allocate && sector > 0 {\n                entry.allocate(sector);")]),
('r25',['C25'],[(T,"""    let destination_filename = destination_filename.unwrap_or(source_filename);
    let mut reader = open_cbm_reader(diskimage, source_filename)?;
    let mut writer = open_fs_writer(destination_filename)?;
    io::copy(&mut reader, &mut writer)?;
    writer.flush()""","""    let target = match destination_filename {
        Some(name) => name,
        None => source_filename,
    };
    let reader = open_cbm_reader(diskimage, source_filename)?;
    transfer(reader, open_fs_writer(target)?)"""),
 (T,"fn cmd_write(","fn transfer(mut reader: Box<dyn Read>, mut writer: Box<dyn Write>) -> io::Result<()> {\n    match io::copy(&mut reader, &mut writer) {\n        Ok(_) => writer.flush(),\n        Err(e) => Err(e),\n    }\n}\n\nfn cmd_write("),
 (T,"    if let Err(e) = result {\n        eprintln!(\"Error: {}\", e);\n        process::exit(EXIT_FAILURE);\n    }\n","    process::exit(match result {\n        Ok(()) => _EXIT_SUCCESS,\n        Err(e) => {\n            eprintln!(\"Error: {}\", e);\n            EXIT_FAILURE\n        }\n    });\n"),
 (T,"""        for sector in sector_range {
            if allocate {
                entry.allocate(sector);
            } else {
                entry.free(sector);
            }
        }""","""        let mut sector = *sector_range.start();
        while sector <= *sector_range.end() {
            match allocate {
                true => entry.allocate(sector),
                false => entry.free(sector),
            }
            sector += 1;
        }"""),
 (T,"""        for b in &mut buf[..bytes_to_write] {
            *b = self.fill_byte;
        }""","""        buf[..bytes_to_write].fill(self.fill_byte);"""),
 (T,"""    for e in errors.iter() {
        println!("{}", e);
    }
    if errors.is_empty() {
        println!("Disk validates successfully.");
        Ok(())
    } else {
        Err(io::Error::new(
            io::ErrorKind::Other,
            format!("{} errors found during validation.", errors.len()),
        ))
    }""","""    if errors.is_empty() {
        println!("Disk validates successfully.");
        return Ok(());
    }
    errors.iter().for_each(|e| println!("{}", e));
    let message = format!("{} errors found during validation.", errors.len());
    Err(io::Error::new(io::ErrorKind::Other, message))"""),
 ]),
]
