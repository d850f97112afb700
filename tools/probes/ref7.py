ED = [
    ('src/bin/cdisk.rs', 'struct FillReader {\n    fill_byte: u8,\n    size: usize,\n}\n', 'struct FillReader {\n    size: usize,\n    fill_byte: u8,\n}\n'),
    ('src/disk/bam.rs', "pub struct BamSection {\n    /// The track and sector where this section's bitmaps are stored.\n    pub bitmap_location: Location,\n    /// The offset within the block where entries start.\n    pub bitmap_offset: usize,\n    /// The size in bytes of the bitmap.  (E.g. 3 in 1541 BAM entries.)\n    pub bitmap_size: usize,\n    /// How many bytes apart are the BAM bitmap entries?  (E.g., on 1541 BAM,\n    /// this 4 -- one more than the bitmap_size, since we skip over the\n    /// free sectors byte when reading the bitmap.)\n    pub bitmap_stride: usize,\n    /// The track and sector where this section's free sector counts are stored.\n    pub free_location: Location,\n    /// The offset within the block where entries start.\n    pub free_offset: usize,\n    /// How many bytes apart are the free sector counts?\n    pub free_stride: usize,\n    /// The total number of tracks (and hence entries) in this section.\n    pub tracks: usize,\n}\n", "pub struct BamSection {\n    /// The total number of tracks (and hence entries) in this section.\n    pub tracks: usize,\n    /// How many bytes apart are the free sector counts?\n    pub free_stride: usize,\n    /// The offset within the block where entries start.\n    pub free_offset: usize,\n    /// The track and sector where this section's free sector counts are stored.\n    pub free_location: Location,\n    /// How many bytes apart are the BAM bitmap entries?  (E.g., on 1541 BAM,\n    /// this 4 -- one more than the bitmap_size, since we skip over the\n    /// free sectors byte when reading the bitmap.)\n    pub bitmap_stride: usize,\n    /// The size in bytes of the bitmap.  (E.g. 3 in 1541 BAM entries.)\n    pub bitmap_size: usize,\n    /// The offset within the block where entries start.\n    pub bitmap_offset: usize,\n    /// The track and sector where this section's bitmaps are stored.\n    pub bitmap_location: Location,\n}\n"),
    ('src/disk/bam.rs', "pub struct BamWriter {\n    blocks: BlockDeviceRef,\n    format: &'static BamFormat,\n}\n", "pub struct BamWriter {\n    format: &'static BamFormat,\n    blocks: BlockDeviceRef,\n}\n"),
    ('src/disk/bam.rs', 'pub struct BamEntry {\n    pub free_sectors: u8,\n    pub sector_map: u64,\n}\n', 'pub struct BamEntry {\n    pub sector_map: u64,\n    pub free_sectors: u8,\n}\n'),
    ('src/disk/bam.rs', 'pub struct Bam {\n    bam_rw: Box<BamWriter>,\n    format: DiskFormat,\n    entries: Vec<BamEntry>,\n    invalidated: bool,\n}\n', 'pub struct Bam {\n    invalidated: bool,\n    entries: Vec<BamEntry>,\n    format: DiskFormat,\n    bam_rw: Box<BamWriter>,\n}\n'),
    ('src/disk/block.rs', "pub struct ImageBlockDevice {\n    image: Image,\n    geometry: &'static Geometry,\n}\n", "pub struct ImageBlockDevice {\n    geometry: &'static Geometry,\n    image: Image,\n}\n"),
    ('src/disk/block.rs', 'pub struct Position {\n    pub location: Location,\n    pub offset: u8,\n    pub size: u8,\n}\n', 'pub struct Position {\n    pub size: u8,\n    pub offset: u8,\n    pub location: Location,\n}\n'),
    ('src/disk/block.rs', "pub struct LocationIterator {\n    last_track: u8,\n    tracks: &'static [Track],\n    next: Option<Location>,\n}\n", "pub struct LocationIterator {\n    next: Option<Location>,\n    tracks: &'static [Track],\n    last_track: u8,\n}\n"),
    ('src/disk/chain.rs', 'pub struct ChainSector {\n    /// The 256-byte block contents, which includes the two-byte NTS (next track and sector) link.\n    pub data: Vec<u8>,\n    pub location: Location,\n}\n', 'pub struct ChainSector {\n    pub location: Location,\n    /// The 256-byte block contents, which includes the two-byte NTS (next track and sector) link.\n    pub data: Vec<u8>,\n}\n'),
    ('src/disk/chain.rs', 'pub struct ChainIterator {\n    blocks: BlockDeviceRef,\n    next_sector: Option<Location>,\n    visited_sectors: HashSet<Location>,\n    block: [u8; BLOCK_SIZE],\n}\n', 'pub struct ChainIterator {\n    block: [u8; BLOCK_SIZE],\n    visited_sectors: HashSet<Location>,\n    next_sector: Option<Location>,\n    blocks: BlockDeviceRef,\n}\n'),
    ('src/disk/chain.rs', 'pub struct ChainReader {\n    chain: ChainIterator,\n    block: Option<Vec<u8>>,\n    eof: bool,\n}\n', 'pub struct ChainReader {\n    eof: bool,\n    block: Option<Vec<u8>>,\n    chain: ChainIterator,\n}\n'),
    ('src/disk/chain.rs', 'pub struct ChainWriter {\n    blocks: BlockDeviceRef,\n    bam: BamRef,\n    entry: DirectoryEntry,\n    location: Location,\n    block: Vec<u8>,\n    dirty: bool,\n}\n', 'pub struct ChainWriter {\n    dirty: bool,\n    block: Vec<u8>,\n    location: Location,\n    entry: DirectoryEntry,\n    bam: BamRef,\n    blocks: BlockDeviceRef,\n}\n'),
    ('src/disk/d64.rs', 'pub struct D64 {\n    blocks: Rc<RefCell<ImageBlockDevice>>,\n    header: Option<Header>,\n    bam: Option<BamRef>,\n    format: Option<DiskFormat>,\n}\n', 'pub struct D64 {\n    format: Option<DiskFormat>,\n    bam: Option<BamRef>,\n    header: Option<Header>,\n    blocks: Rc<RefCell<ImageBlockDevice>>,\n}\n'),
    ('src/disk/d71.rs', 'pub struct D71 {\n    blocks: Rc<RefCell<ImageBlockDevice>>,\n    header: Option<Header>,\n    bam: Option<BamRef>,\n    format: Option<DiskFormat>,\n}\n', 'pub struct D71 {\n    format: Option<DiskFormat>,\n    bam: Option<BamRef>,\n    header: Option<Header>,\n    blocks: Rc<RefCell<ImageBlockDevice>>,\n}\n'),
    ('src/disk/d81.rs', 'pub struct D81 {\n    blocks: Rc<RefCell<ImageBlockDevice>>,\n    header: Option<Header>,\n    bam: Option<BamRef>,\n    format: Option<DiskFormat>,\n}\n', 'pub struct D81 {\n    format: Option<DiskFormat>,\n    bam: Option<BamRef>,\n    header: Option<Header>,\n    blocks: Rc<RefCell<ImageBlockDevice>>,\n}\n'),
    ('src/disk/directory.rs', 'pub struct FileAttributes {\n    /// Bits 0-3 indicate the file type.\n    pub file_type: FileType,\n    /// Bit 4 is unused, but we store it anyway so we can reproduce this field\n    /// verbatim.\n    pub unused_bit: bool,\n    /// Bit 5 is the "save with replace" flag.\n    pub save_with_replace_flag: bool,\n    /// Bit 6 is the "locked" flag, indicated by a ">" in directory listings.\n    pub locked_flag: bool,\n    /// Bit 7 is the "closed" flag.  Files are normally closed, so this bit is\n    /// normally set. Unclosed files are indicated in directory listings\n    /// with a "*", leading to such files being known as "splat files".\n    pub closed_flag: bool,\n}\n', 'pub struct FileAttributes {\n    /// Bit 7 is the "closed" flag.  Files are normally closed, so this bit is\n    /// normally set. Unclosed files are indicated in directory listings\n    /// with a "*", leading to such files being known as "splat files".\n    pub closed_flag: bool,\n    /// Bit 6 is the "locked" flag, indicated by a ">" in directory listings.\n    pub locked_flag: bool,\n    /// Bit 5 is the "save with replace" flag.\n    pub save_with_replace_flag: bool,\n    /// Bit 4 is unused, but we store it anyway so we can reproduce this field\n    /// verbatim.\n    pub unused_bit: bool,\n    /// Bits 0-3 indicate the file type.\n    pub file_type: FileType,\n}\n'),
    ('src/disk/directory.rs', 'pub struct GEOSExtra {\n    pub info_block: Location,\n    pub structure: GEOSFileStructure,\n    pub geos_file_type: GEOSFileType,\n    pub year: u8,\n    pub month: u8,\n    pub day: u8,\n    pub hour: u8,\n    pub minute: u8,\n}\n', 'pub struct GEOSExtra {\n    pub minute: u8,\n    pub hour: u8,\n    pub day: u8,\n    pub month: u8,\n    pub year: u8,\n    pub geos_file_type: GEOSFileType,\n    pub structure: GEOSFileStructure,\n    pub info_block: Location,\n}\n'),
    ('src/disk/directory.rs', "pub struct DirectoryEntry {\n    pub file_attributes: FileAttributes,\n    pub first_sector: Location,\n    pub filename: Petscii,\n    pub extra: Extra,\n    pub file_size: u16,\n    // The disk image position where this entry is stored, if available.\n    pub position: Option<Position>,\n    pub scheme: Scheme,\n    // We'll keep non-CBM metadata private for now, so we can more easily refactor later.\n    geos_border: bool,\n}\n", "pub struct DirectoryEntry {\n    // We'll keep non-CBM metadata private for now, so we can more easily refactor later.\n    geos_border: bool,\n    pub scheme: Scheme,\n    // The disk image position where this entry is stored, if available.\n    pub position: Option<Position>,\n    pub file_size: u16,\n    pub extra: Extra,\n    pub filename: Petscii,\n    pub first_sector: Location,\n    pub file_attributes: FileAttributes,\n}\n"),
    ('src/disk/directory.rs', 'pub struct DirectoryIterator {\n    block_iter: DirectoryBlockIterator,\n    chunks: ::std::vec::IntoIter<Vec<u8>>,\n    position: Position,\n    error: Option<io::Error>,\n    geos_border: Option<Location>,\n    processing_geos_border: bool,\n}\n', 'pub struct DirectoryIterator {\n    processing_geos_border: bool,\n    geos_border: Option<Location>,\n    error: Option<io::Error>,\n    position: Position,\n    chunks: ::std::vec::IntoIter<Vec<u8>>,\n    block_iter: DirectoryBlockIterator,\n}\n'),
    ('src/disk/file.rs', 'pub struct LinearFile {\n    blocks: BlockDeviceRef,\n    bam: BamRef,\n    entry: DirectoryEntry,\n}\n', 'pub struct LinearFile {\n    entry: DirectoryEntry,\n    bam: BamRef,\n    blocks: BlockDeviceRef,\n}\n'),
    ('src/disk/file.rs', 'pub struct RelativeFile {\n    blocks: BlockDeviceRef,\n    bam: BamRef,\n    entry: DirectoryEntry,\n    record_size: usize,\n    data_sectors: Vec<Location>,\n    side_sectors: Vec<Location>,\n    records: usize,\n}\n', 'pub struct RelativeFile {\n    records: usize,\n    side_sectors: Vec<Location>,\n    data_sectors: Vec<Location>,\n    record_size: usize,\n    entry: DirectoryEntry,\n    bam: BamRef,\n    blocks: BlockDeviceRef,\n}\n'),
    ('src/disk/format.rs', 'pub struct Track {\n    pub sectors: u8,\n    pub sector_offset: u16,\n    pub byte_offset: u32,\n}\n', 'pub struct Track {\n    pub byte_offset: u32,\n    pub sector_offset: u16,\n    pub sectors: u8,\n}\n'),
    ('src/disk/format.rs', 'pub struct DiskFormat {\n    /// The directory track used for this format.\n    pub directory_track: u8,\n    /// This should be pointed to from the header sector, but the various image\n    /// format documents say not to trust it.\n    pub first_directory_sector: u8,\n    /// The 1571 has a "second directory track" on track 53 which contains a\n    /// second BAM block on sector 0, and all other sectors are wasted.  We\n    /// want to treat this entire track as reserved.  This field will be 53\n    /// for 1571 images, and 0 for all other images to indicate no reserved\n    /// track.  (0 is not otherwise a valid track number.)\n    pub reserved_track: u8,\n    /// The first track will normally be 1, but may be different in the case of\n    /// 1581 partitions.\n    pub first_track: u8,\n    /// The last track in normal use.  (I.e., inclusive -- not the last track\n    /// plus one.)\n    pub last_track: u8,\n    /// The 1541 drive mechanism (at least) can technically access up to 40\n    /// tracks, although CBM DOS only provides access to 35.  This field\n    /// contains the last track that can possibly be accessed using\n    /// non-standard methods.\n    pub last_nonstandard_track: u8,\n    /// The default interleave.  This may be changed on a per-image basis to\n    /// support other layout variants such as GEOS-formatted disks.\n    pub interleave: u8,\n    /// Drives may use a special interleave for directory tracks, since\n    /// scanning directories usually doesn\'t involve I/O between the host\n    /// and peripheral.\n    pub directory_interleave: u8,\n    /// Is this disk GEOS-formatted?  All per-drive objects will have this set\n    /// to false, but it may be set to true on a per-image basis as needed.\n    pub geos: bool,\n    /// Per-track parameters for this format (e.g. sectors in each track, byte\n    /// offsets, etc.)\n    pub tracks: &\'static [Track],\n    /// A description of the header format for this disk format.\n    pub header: &\'static HeaderFormat,\n    /// A description of the BAM format for this disk format.\n    pub bam: &\'static BamFormat,\n}\n', 'pub struct DiskFormat {\n    /// A description of the BAM format for this disk format.\n    pub bam: &\'static BamFormat,\n    /// A description of the header format for this disk format.\n    pub header: &\'static HeaderFormat,\n    /// Per-track parameters for this format (e.g. sectors in each track, byte\n    /// offsets, etc.)\n    pub tracks: &\'static [Track],\n    /// Is this disk GEOS-formatted?  All per-drive objects will have this set\n    /// to false, but it may be set to true on a per-image basis as needed.\n    pub geos: bool,\n    /// Drives may use a special interleave for directory tracks, since\n    /// scanning directories usually doesn\'t involve I/O between the host\n    /// and peripheral.\n    pub directory_interleave: u8,\n    /// The default interleave.  This may be changed on a per-image basis to\n    /// support other layout variants such as GEOS-formatted disks.\n    pub interleave: u8,\n    /// The 1541 drive mechanism (at least) can technically access up to 40\n    /// tracks, although CBM DOS only provides access to 35.  This field\n    /// contains the last track that can possibly be accessed using\n    /// non-standard methods.\n    pub last_nonstandard_track: u8,\n    /// The last track in normal use.  (I.e., inclusive -- not the last track\n    /// plus one.)\n    pub last_track: u8,\n    /// The first track will normally be 1, but may be different in the case of\n    /// 1581 partitions.\n    pub first_track: u8,\n    /// The 1571 has a "second directory track" on track 53 which contains a\n    /// second BAM block on sector 0, and all other sectors are wasted.  We\n    /// want to treat this entire track as reserved.  This field will be 53\n    /// for 1571 images, and 0 for all other images to indicate no reserved\n    /// track.  (0 is not otherwise a valid track number.)\n    pub reserved_track: u8,\n    /// This should be pointed to from the header sector, but the various image\n    /// format documents say not to trust it.\n    pub first_directory_sector: u8,\n    /// The directory track used for this format.\n    pub directory_track: u8,\n}\n'),
    ('src/disk/format.rs', "pub struct LocationIterator<'a> {\n    format: &'a DiskFormat,\n    next: Option<Location>,\n}\n", "pub struct LocationIterator<'a> {\n    next: Option<Location>,\n    format: &'a DiskFormat,\n}\n"),
    ('src/disk/header.rs', "pub struct HeaderFormat {\n    pub location: Location,\n    // offsets\n    pub first_directory_offset: usize,\n    pub disk_format_type_offset: usize,\n    pub disk_name_offset: usize,\n    pub disk_id_offset: usize,\n    pub directory_dos_version_offset: usize,\n    pub directory_format_type_offset: usize,\n    pub padding_offsets: &'static [u8],\n    // DOS version and format type defaults\n    // See the notes in the cbm::disk module documentation for full details.\n    pub default_disk_format_type: u8,\n    pub default_directory_dos_version: u8,\n    pub default_directory_format_type: u8,\n    // expectations\n    pub double_sided_flag_expectation: Option<(usize, u8)>,\n}\n", "pub struct HeaderFormat {\n    // expectations\n    pub double_sided_flag_expectation: Option<(usize, u8)>,\n    pub default_directory_format_type: u8,\n    pub default_directory_dos_version: u8,\n    // DOS version and format type defaults\n    // See the notes in the cbm::disk module documentation for full details.\n    pub default_disk_format_type: u8,\n    pub padding_offsets: &'static [u8],\n    pub directory_format_type_offset: usize,\n    pub directory_dos_version_offset: usize,\n    pub disk_id_offset: usize,\n    pub disk_name_offset: usize,\n    pub disk_format_type_offset: usize,\n    // offsets\n    pub first_directory_offset: usize,\n    pub location: Location,\n}\n"),
    ('src/disk/header.rs', 'pub struct Header {\n    // http://unusedino.de/ec64/technical/formats/d64.html\n    // says to not trust this field.\n    pub first_directory_sector: Location,\n    pub disk_format_type: u8,\n    pub disk_name: Petscii,\n    pub disk_id: Id,\n    pub directory_dos_version: u8,\n    pub directory_format_type: u8,\n    pub geos: Option<GEOSDiskHeader>,\n}\n', 'pub struct Header {\n    pub geos: Option<GEOSDiskHeader>,\n    pub directory_format_type: u8,\n    pub directory_dos_version: u8,\n    pub disk_id: Id,\n    pub disk_name: Petscii,\n    pub disk_format_type: u8,\n    // http://unusedino.de/ec64/technical/formats/d64.html\n    // says to not trust this field.\n    pub first_directory_sector: Location,\n}\n'),
    ('src/disk/mod.rs', "pub struct Geometry {\n    track_layouts: &'static [Track],\n    tracks: u8,\n    with_error_table: bool,\n}\n", "pub struct Geometry {\n    with_error_table: bool,\n    tracks: u8,\n    track_layouts: &'static [Track],\n}\n"),
    ('src/disk/geos/file.rs', 'pub struct GEOSFile {\n    blocks: BlockDeviceRef,\n    bam: BamRef,\n    entry: DirectoryEntry,\n    vlir: Option<Vec<Option<Location>>>,\n}\n', 'pub struct GEOSFile {\n    vlir: Option<Vec<Option<Location>>>,\n    entry: DirectoryEntry,\n    bam: BamRef,\n    blocks: BlockDeviceRef,\n}\n'),
    ('src/disk/geos/mod.rs', 'pub struct GEOSDiskHeader {\n    /// The location of the GEOS border sector.\n    pub border: Location,\n    /// A string starting with "GEOS format " which is the marker indicating\n    /// that this is a GEOS disk header.  Typically the full string is\n    /// something like "GEOS format V1.0".\n    pub id: GEOSString,\n}\n', 'pub struct GEOSDiskHeader {\n    /// A string starting with "GEOS format " which is the marker indicating\n    /// that this is a GEOS disk header.  Typically the full string is\n    /// something like "GEOS format V1.0".\n    pub id: GEOSString,\n    /// The location of the GEOS border sector.\n    pub border: Location,\n}\n'),
    ('src/disk/geos/reader.rs', 'pub struct GEOSReader {\n    blocks: BlockDeviceRef,\n    state: GEOSReaderState,\n    buffer: Vec<u8>,\n    is_vlir: bool,\n    info_location: Location,\n    start_location: Location,\n    chains: VecDeque<ChainReader>,\n}\n', 'pub struct GEOSReader {\n    chains: VecDeque<ChainReader>,\n    start_location: Location,\n    info_location: Location,\n    is_vlir: bool,\n    buffer: Vec<u8>,\n    state: GEOSReaderState,\n    blocks: BlockDeviceRef,\n}\n'),
]
PROBES = [('r7a', ['C%02d' % i for i in range(1, 31)], ED)]
