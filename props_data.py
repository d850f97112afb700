prop('C01', 'Read-only images are never modified',
     'An image opened read-only is never changed: every operation that would obtain mutable access to its sectors, its error table or its bytes fails with the ReadOnly error (the header is not even handed out for modification), and nothing in the library or file layer can reach the bytes another way. Opening a file in read-only mode opens it without write permission and maps it without shared write access; read-write mode is the only one that can write. Opening an image without naming its type passes the requested mode on.',
     ['inputs', 'programs'], 'every disk type, geometry, backing store (memory, mapped read-only, mapped writable) and every access function',
     'Tests open one image and try one write; the claim is over every access path and every backing variant.',
     ['src/disk/block.rs', 'src/disk/image.rs', 'src/disk/d64.rs', 'src/disk/d71.rs', 'src/disk/d81.rs'],
     [('Image::check_writability before data_mut', 'src/disk/image.rs'), ('BlockDevice mutable accessors', 'src/disk/block.rs')],
     'typestate/effect analysis of all mutable-access paths by abstract interpretation of MIR',
     'Every function returning mutable access to image bytes is enumerated from the type-checked program and shown to pass the writability check first.')
prop('C02', 'Sector addressing is exact, bounded and injective',
     'For each supported geometry, a (track, sector) address denotes the 256 bytes at the documented offset (tracks in order, documented sectors per track), and an address outside the geometry is refused with the InvalidLocation error instead of touching other bytes. Reading and writing use the same bytes, the sector-error table is exactly the trailing bytes of images that have one, and an image is recognised only if its size is one of the documented sizes. An image opened without naming its type is taken for the type its extension (in any capitalisation) names, or, if it names none, for the first of D64, D71 and D81 whose sizes match; any other error of opening it is reported. Writing a whole sector takes exactly 256 bytes; any other amount is refused with WriteUnderrun and changes nothing. Access by position (sector, offset, size) reads or writes only the bytes of that position, and iterating over the locations of an image yields each of its sectors once, in order.',
     ['inputs', 'configurations'], 'all addresses (track, sector) in 0..=255 x 0..=255 for all seven geometries, for read and write access',
     'Tests check offsets of a few sectors; the property is over 65,536 addresses x 7 geometries x 2 access modes.',
     ['src/disk/block.rs', 'src/disk/d64.rs', 'src/disk/d71.rs', 'src/disk/d81.rs'],
     [('ImageBlockDevice::offset / sector / sector_mut / read_sector / write_sector / positioned_read / positioned_write / LocationIterator', 'src/disk/block.rs'), ('Geometry tables', 'src/disk/d64.rs, d71.rs, d81.rs')],
     'value-set/linear abstract interpretation of MIR against the documented geometry',
     'Every track is enumerated, the sector stays symbolic; the returned slice is compared with the documented offset and length.')
prop('C03', 'The BAM is read from and written to its documented place',
     'Loading the block availability map takes every track\'s free count and the free bit of every sector from their documented positions on the disk, and writing it back puts every track\'s current count and bits at the same positions while leaving every other byte of those sectors untouched. Loading followed by writing therefore never alters a disk.',
     ['inputs'], 'all contents of the BAM sectors, all tracks and sectors, all three disk types',
     'Tests compare a couple of entries of sample images; the codec must be exact for every entry and every byte value.',
     ['src/disk/bam.rs', 'src/disk/format.rs'], [('Bam::read / Bam::flush / BamSection', 'src/disk/bam.rs'), ('BAM layout of each format', 'src/disk/format.rs')],
     'bit-level symbolic dataflow (abstract interpretation of MIR)', 'Every bit of every entry is tracked from the sector byte it came from to the byte it is written to.')
prop('C04', 'Allocating or freeing a sector changes only that sector\'s bit',
     'Allocating (freeing) a sector clears (sets) exactly that sector\'s free bit, leaves every other sector of every track as it was, and leaves the track\'s free count equal to the number of its free bits. A fresh map marks exactly the existing sectors of each track free, and the number of free blocks reported is the sum of the free counts of all tracks except the directory track. An address the map does not cover is refused with the InvalidLocation error and changes nothing.',
     ['inputs', 'histories'], 'all map contents (any history of allocations), all tracks and sectors, all three disk types',
     'Tests allocate a few sectors on one map; the property must hold for all maps reachable by any history.',
     ['src/disk/bam.rs'], [('BamEntry::allocate/free/update_free_sectors', 'src/disk/bam.rs'), ('Bam::new / blocks_free', 'src/disk/bam.rs')],
     'bit-level symbolic dataflow (abstract interpretation of MIR)', 'The 64 bits of an entry are symbolic; the result is compared bit by bit and the count with the sum of the bits.')
prop('C11', 'Chain links are decoded and encoded exactly',
     'The first two bytes of a chained sector mean: nonzero first byte - the next sector\'s (track, sector); zero first byte - last sector whose used length is the second byte + 1, with (0,0) rejected as an invalid link. Encoding a link writes only those two bytes and decoding it yields the same link.',
     ['inputs'], 'all 65,536 byte pairs and all links', 'Tests only see the links in sample images.',
     ['src/disk/chain.rs'], [('ChainLink::new / to_bytes', 'src/disk/chain.rs')],
     'path-sensitive symbolic dataflow (abstract interpretation of MIR)', 'Both bytes symbolic; every path is enumerated.')
prop('C12', 'Disk errors keep their identity through io::Error',
     'Converting any disk error into an io::Error and back yields the same disk error, the io::Error compares equal exactly to the disk error it came from (in both directions of comparison), and an io::Error that did not come from a disk error never compares equal to one and converts to the Unknown disk error.',
     ['inputs'], 'all pairs of disk errors', 'Tests match a handful of errors; callers dispatch on all of them.',
     ['src/disk/error.rs'], [('From<DiskError> for io::Error, From<io::Error> for DiskError, PartialEq', 'src/disk/error.rs')],
     'abstract interpretation of MIR over the enumerated error variants', 'All variants and all ordered pairs are enumerated from the type-checked enum.')
prop('C05', 'Only free sectors are handed out',
     'Whenever the allocator proposes a sector for new data, that sector is marked free in the availability map, lies inside the disk (existing track and sector), and is never on a track reserved for the system (the directory track for file data, track 53 of a 1571 disk). Neither the map nor the disk changes while searching.',
     ['inputs', 'histories'], 'all map contents (any allocation history), CBM and GEOS allocation rules, starting anywhere or nowhere, all three disk types',
     'The integration test fills disks in one order; the claim is for every map, including ones whose counts and bitmaps disagree.',
     ['src/disk/format.rs', 'src/disk/bam.rs'], [('next_free_block and its track/sector scan', 'src/disk/format.rs'), ('Bam::next_free_block', 'src/disk/bam.rs')],
     'path-sensitive abstract interpretation of MIR with bit-level domains', 'All maps are covered by unknown bytes per track; every returned location is shown to have its free bit set on that path.')
prop('C06', 'A disk is full only when it is full',
     'Searching for a free sector on a readable map always answers: it returns a sector while any sector usable for file data is marked free (with a matching count), and reports DiskFull only when there is none. It never panics and never runs forever.',
     ['inputs', 'histories'], 'all map contents in which counts agree with bitmaps, CBM and GEOS rules, starting anywhere or nowhere, all three disk types',
     'Tests stop at the first DiskFull; they cannot tell whether a reachable free sector was overlooked for some other map.',
     ['src/disk/format.rs', 'src/disk/bam.rs'], [('track scan order and wrap-around', 'src/disk/format.rs')],
     'path-sensitive abstract interpretation of MIR with bit-level domains', 'Each DiskFull path is shown to imply that every usable track was seen to be full.')
prop('C13', 'Directory entries are decoded and encoded exactly',
     'Every field of a directory entry - type, flags, first sector, name without padding, scheme-specific bytes (relative files: side sector and record length; GEOS: info block, structure, type, date), size - comes from its documented bytes, the storage scheme is the one the record describes, and writing an entry reproduces bytes 2..31 of the record it was read from exactly while leaving the two link bytes of the slot alone. Re-reading keeps position and border status; resetting an entry removes everything of the previous occupant; an entry without a position is never written.',
     ['inputs'], 'all 32-byte records', 'Tests sample a few records of example disks.',
     ['src/disk/directory.rs', 'src/disk/geos/mod.rs', 'src/petscii.rs'],
     [('DirectoryEntry parse/to_bytes/reset', 'src/disk/directory.rs'), ('FileAttributes, LinearExtra, RelativeExtra, GEOSExtra codecs', 'src/disk/directory.rs'), ('Petscii padding', 'src/petscii.rs')],
     'bit-level symbolic dataflow (abstract interpretation of MIR)', 'All 32 bytes symbolic, split by type nibble, GEOS structure/type class and name length.')
prop('C22', 'Availability-map handles never act on stale contents',
     'Replacing a disk\'s availability map reaches every handle obtained earlier: they act on the new map (or refuse), never on the old contents. When the disk becomes unformatted, earlier handles refuse every operation - lookup, allocation, freeing, search, flush - with the InvalidBAM error and never write to the disk, and no new handle is given out.',
     ['inputs', 'histories'], 'all operations on a map handle held across a replacement, with any contents, all disk types', 'Tests never hold a stale handle.',
     ['src/disk/bam.rs', 'src/disk/mod.rs', 'src/disk/d64.rs', 'src/disk/d71.rs', 'src/disk/d81.rs'], [('Bam::invalidate and the invalid flag', 'src/disk/bam.rs'), ('set_bam', 'src/disk/mod.rs')],
     'typestate and alias analysis (abstract interpretation of MIR)', 'Starting in the invalidated typestate, every operation is shown to end in the error; replacement is checked through an aliased handle.')
prop('C07', 'The availability map on disk is current whenever an operation reports success',
     'Creating a file, extending the directory, deleting a file, writing and flushing file data, and formatting all change the availability map; whenever such an operation reports success, the map has been written to the disk after the last change to it, so the sectors of the image alone always describe which sectors are in use. If writing the map fails, the operation fails.',
     ['inputs', 'histories', 'faults'], 'all directory contents and chains within the abstraction, every point at which reading, searching, map writing or entry writing can fail, all disk types',
     'Tests keep using the same in-memory map after an operation, so a map that never reached the image goes unnoticed.',
     ['src/disk/directory.rs', 'src/disk/file.rs', 'src/disk/chain.rs', 'src/disk/mod.rs', 'src/disk/bam.rs'],
     [('create_entry / next_free_directory_entry flush', 'src/disk/directory.rs, src/disk/mod.rs'), ('free_sectors and ChainWriter::flush', 'src/disk/chain.rs')],
     'must-pass-through event-order analysis (abstract interpretation of MIR)',
     'Every path to a success return is enumerated and must write the map after its last allocate or free event; chain and directory lengths are bounded (3 sectors), contents symbolic.', level='other')
prop('C08', 'Deleting a file releases exactly that file',
     'A successful deletion marks free exactly the sectors the file owns - its data chain; for relative files also the side sectors; for GEOS files the info block and, for VLIR, the index block and every record chain - and scratches its directory entry; no other sector is freed and no other entry is touched. A deletion refused because of the state of the disk (unreadable, malformed or looping chain, sectors the map does not cover, write protection) changes nothing.',
     ['inputs', 'faults'], 'all file kinds (linear, relative, GEOS sequential and VLIR), chain shapes up to 3 sectors with any contents, every failure point',
     'Tests delete a few well-formed linear files.',
     ['src/disk/file.rs', 'src/disk/chain.rs', 'src/disk/geos/file.rs'],
     [('FileOps::delete / occupied sectors', 'src/disk/file.rs, src/disk/geos/file.rs'), ('free_sectors', 'src/disk/chain.rs')],
     'effect analysis over enumerated chain shapes (abstract interpretation of MIR)', 'Freed sectors are collected on every path and compared with the sectors the link structure owns.', level='other')
prop('C10', 'Following a sector chain always ends and never lies about its contents',
     'Traversing a chain yields each of its sectors exactly once, in link order, each with exactly its used bytes; it ends after the tail sector, or with the ChainLoop error when a sector would be visited twice, or with the error of an unreadable sector or invalid link, and nothing follows an error. Consequently listing a chain, opening a file for reading or for appending, and every other traversal terminate on every disk, however corrupt.',
     ['inputs'], 'all disk contents: any links, including loops, self-links, links outside the disk',
     'A looping disk would hang a test; the tests contain only well-formed chains.',
     ['src/disk/chain.rs'], [('ChainIterator::next and its visited set', 'src/disk/chain.rs'), ('ChainWriter::new', 'src/disk/chain.rs')],
     'termination and dataflow analysis (abstract interpretation of MIR, inductive step over the visited set)',
     'An inductive step from an arbitrary iterator state shows that each yielded sector enters the visited set and is never yielded again; a bounded prefix checks the yielded contents.')
prop('C16', 'Reading a file returns exactly its bytes',
     'Successive reads from a file, with buffers of any size, return the bytes stored in its chain (254 data bytes per full sector, the used part of the last sector) in order, without loss, duplication or invention, and then end of file; a read returns fewer bytes than requested only at the end of the file; a broken chain is reported as an error, not as end of file. Serialising a GEOS file yields the directory record, the info block, for VLIR files the index with (block count, last byte) pairs, and the records in order, each padded to whole blocks except the last.',
     ['inputs', 'histories'], 'all chain shapes (bounded number of sectors), all contents, all sequences of read sizes within the bound',
     'Tests read whole files with one buffer size.',
     ['src/disk/chain.rs', 'src/disk/geos/reader.rs'], [('ChainReader::read', 'src/disk/chain.rs'), ('GEOSReader', 'src/disk/geos/reader.rs')],
     'symbolic-length sequence dataflow (abstract interpretation of MIR)', 'Buffer lengths, used lengths and contents are symbolic; the sequence of bytes delivered is compared with the chain as a rope; sectors and reads are bounded.', level='other')
prop('C18', 'Nothing refers to a sector before it is ready',
     'While a file is created, a directory extended or a file grows, a reference (directory entry or chain link) to a new sector is written only after that sector holds a valid empty chain sector and is marked allocated (for new entries and directory sectors: in the map on disk). An interruption or error between two steps therefore never leaves a visible file or chain that points at a free or uninitialised sector.',
     ['crash points', 'faults'], 'every prefix of the sequence of sector writes of these operations, all outcomes of each step, all disk types',
     'Tests do not interrupt operations.',
     ['src/disk/directory.rs', 'src/disk/mod.rs', 'src/disk/chain.rs'], [('create order', 'src/disk/mod.rs'), ('directory extension order', 'src/disk/directory.rs'), ('ChainWriter::allocate_next_block order', 'src/disk/chain.rs')],
     'happens-before analysis of write events on all paths (abstract interpretation of MIR)', 'The sector contents are snapshotted at each event on every path.', level='other')
prop('C19', 'Creating and renaming files is all-or-nothing and respects existing files',
     'Creating a file refuses names that are too long and names already in use, before changing anything; otherwise it uses exactly one free sector, initialised as an empty chain, and one scratched slot whose entry carries the requested name, type, first sector, scheme and a size of one block. If creation fails, no sector stays allocated for it and no entry refers to it. Renaming changes exactly the name of the entry found under the old name, and only if the new name is valid and not in use.',
     ['inputs', 'faults'], 'all names, all directory contents (as seen by lookup), every failure point, all disk types',
     'Tests create and rename well-formed files on disks without faults.',
     ['src/disk/mod.rs', 'src/disk/directory.rs'], [('Disk::create_file / rename', 'src/disk/mod.rs'), ('create_entry rollback', 'src/disk/mod.rs')],
     'effect and event-order analysis of all paths, including failures (abstract interpretation of MIR)', 'Directory lookup is summarised by its specification (checked under C20); all error outcomes of each step are explored.')
prop('C20', 'The directory shows every file and only files',
     'Listing the directory yields every entry that is not scratched exactly once, in disk order (on GEOS disks followed by those of the border sector, marked as border files, and no others), with the position it was read from; an unreadable or malformed directory is reported as an error, never as a shorter listing. Looking up a name yields the first entry with exactly that name, and NotFound only if there is none. A new entry goes into the first scratched slot; only when there is none is the directory extended, by one empty, allocated, linked sector.',
     ['inputs', 'faults'], 'all directories of up to 3 sectors with any arrangement of used and scratched slots, including partial tail sectors, all disk types',
     'Tests list sample images; slot arrangements and damaged directories are not sampled.',
     ['src/disk/directory.rs', 'src/disk/mod.rs'], [('DirectoryIterator', 'src/disk/directory.rs'), ('find_directory_entry, next_free_directory_entry', 'src/disk/directory.rs')],
     'path-sensitive dataflow over enumerated directory shapes (abstract interpretation of MIR)', 'Directory sectors are abstract: links and slot occupancy enumerated, other bytes unknown.', level='other')
prop('C09', 'A record is exactly the bytes stored for it',
     'A file offers record access consistent with its storage scheme: a linear or GEOS sequential file has exactly one record, its contents; record i of a VLIR file is the chain its index block names in slot i, an unavailable slot is an empty record, and indices past the end of the index are refused; record i of a relative file with record length n is bytes i*n up to (i+1)*n of its data, across sector boundaries. The record count agrees with the indices accepted, indices outside it are refused with an error, and a relative file whose side sectors contradict each other or the data is refused when opened rather than misread.',
     ['inputs'], 'all contents of the sectors of enumerated file layouts, any record index',
     'Tests read two records of one sample file; layouts, record lengths and damaged side sectors are not sampled.',
     ['src/disk/file.rs', 'src/disk/geos/file.rs'], [('LinearFile, RelativeFile', 'src/disk/file.rs'), ('GEOSSequentialFile, VLIRFile', 'src/disk/geos/file.rs')],
     'sequence dataflow on the MIR of the record accessors (abstract interpretation)', 'Layouts (number of side and data sectors, record lengths, index slots) are enumerated; sector contents and record indices are unknown.', level='other')
prop('C17', 'Writing appends exactly the bytes reported as written',
     'Writing to a file, in pieces of any size, appends: afterwards its chain holds the previous contents followed by exactly the bytes that write reported as accepted, the tail link holds the exact used length (stored when the writer is flushed or dropped), and the directory entry\'s block count has grown by the number of sectors added. A write that runs out of space or fails keeps everything accepted so far, reports how much that was (or the error when it was nothing), leaves the chain well-formed and leaves no allocated sector that nothing refers to.',
     ['inputs', 'histories', 'faults'], 'all tail lengths, all piece sizes (bounded number of pieces and sectors), every failure point of allocation, map writing, entry writing and medium',
     'Tests write a few sizes to empty disks without faults.',
     ['src/disk/chain.rs'], [('ChainWriter::write, flush, allocate_next_block, increment_entry_blocks', 'src/disk/chain.rs')],
     'symbolic-length sequence dataflow over all failure paths (abstract interpretation of MIR)', 'Piece lengths, tail contents and data are symbolic; pieces, sectors and failures are bounded.', level='other')
prop('C14', 'The disk header is decoded and encoded exactly',
     'Every field of the disk header (first directory sector, format type, name, id, DOS version and type, GEOS signature, border sector) is taken from its documented bytes of the documented sector; a 1571 disk without the double-sided flag is refused; a disk counts as GEOS exactly when it carries the GEOS signature. Writing the header puts every field back in its place, pads the name and the documented gaps with 0xA0 and leaves every other byte of the sector - in particular the map - untouched; a name that does not fit is refused and nothing is written.',
     ['inputs'], 'all contents of the header sector, all header values, names of every length up to 40, all three disk types',
     'Tests decode a few sample headers and rewrite them unchanged.',
     ['src/disk/header.rs', 'src/disk/d64.rs', 'src/disk/d71.rs', 'src/disk/d81.rs', 'src/disk/geos/mod.rs'], [('Header::read / write / new', 'src/disk/header.rs'), ('HEADER_FORMAT', 'src/disk/d64.rs'), ('GEOSDiskHeader::new', 'src/disk/geos/mod.rs')],
     'byte-provenance dataflow on MIR (abstract interpretation)', 'Every byte of the sector is a separate unknown; equality is decided symbolically.')
prop('C15', 'GEOS info blocks are decoded and encoded exactly',
     'Every field of a GEOS info block (icon, CBM and GEOS type, structure, addresses, class, author, application, reserved bytes, description) comes from its documented bytes, unknown type codes are preserved, and writing an info block reproduces every byte from 5 to 255 it was read from while leaving the first five alone. The info block of a file is the sector its directory entry names; a file without one has none, and an unreadable one is an error.',
     ['inputs'], 'all 256-byte info blocks', 'Tests do not write info blocks at all.',
     ['src/disk/geos/mod.rs', 'src/disk/geos/file.rs', 'src/sprite.rs'], [('GEOSInfo::from_bytes / to_bytes', 'src/disk/geos/mod.rs'), ('GEOSFile::info', 'src/disk/geos/file.rs')],
     'byte-provenance dataflow on MIR (abstract interpretation)', 'Every byte of the block is a separate unknown; type codes are enumerated one at a time in the quick tier and jointly in the thorough tier.')
prop('C21', 'Formatting produces exactly an empty disk, or nothing',
     'A successful format leaves every sector zero except an empty directory sector, a header with the given name and id and the documented version bytes, and an availability map in which exactly the system sectors are in use; the image is flushed afterwards and the disk object describes the new disk. Formatting a read-only image, or with a name that cannot be stored, is refused before anything on the disk or in the disk object changes.',
     ['inputs', 'configurations'], 'all previous contents, all geometries of all three disk types, all names and ids',
     'Tests format in memory and compare a few sectors.',
     ['src/disk/mod.rs', 'src/disk/bam.rs', 'src/disk/format.rs', 'src/disk/header.rs'], [('Disk::write_format', 'src/disk/mod.rs'), ('DiskFormat::system_locations', 'src/disk/format.rs'), ('Bam::new', 'src/disk/bam.rs')],
     'abstract interpretation of MIR with inductive loop acceleration', 'All sectors of the image are compared byte by byte with the documented layout of a fresh disk; previous contents are unknown.')
prop('C23', 'A disk is treated as formatted, and as GEOS, exactly when it is',
     'Opening or re-initialising a disk installs header, map and format together exactly when the header can be read, and none of them otherwise; GEOS allocation rules are in force, for the disk and for its map, exactly when the header carries the GEOS signature. Every operation on an unformatted disk that needs a format fails with the Unformatted error, changes nothing and never panics.',
     ['inputs', 'histories'], 'all disk contents, disks previously formatted or not, all operations of the Disk interface, all disk types',
     'Tests mostly start from formatted disks.',
     ['src/disk/mod.rs', 'src/disk/d64.rs', 'src/disk/d71.rs', 'src/disk/d81.rs', 'src/disk/directory.rs'], [('Disk::initialize', 'src/disk/mod.rs'), ('DirectoryIterator::new_error', 'src/disk/directory.rs')],
     'typestate analysis of all Disk operations (abstract interpretation of MIR)', 'Header and map reading are summarised by their outcomes (their codecs are checked under C14 and C03).')
prop('C24', 'Validation reports exactly the inconsistencies of the disk',
     'Validating a disk changes nothing and reports exactly: system sectors that are marked free, sectors that are in use although neither the system, the directory (with the GEOS border sector) nor any file owns them, owned sectors that are marked free (with their owner), sectors owned twice (with both owners) and files whose sectors cannot be followed - one damaged file does not stop the rest from being checked, while a directory that cannot be followed is an error. The lists of allocated and free sectors it starts from split all sectors of the disk by their bit.',
     ['inputs'], 'all combinations of allocated/owned per kind of sector, shared sectors, looping, dangling and system-crossing chains, all three disk types, GEOS disks',
     'Tests validate two intact images; the property is over every way a disk can be inconsistent.',
     ['src/disk/validation.rs', 'src/disk/bam.rs', 'src/disk/format.rs'], [('validate', 'src/disk/validation.rs'), ('Bam::allocated_sectors / free_sectors', 'src/disk/bam.rs'), ('DiskFormat::system_locations', 'src/disk/format.rs')],
     'abstract interpretation of MIR over a finite partition of disk states', 'One sector of each ownership kind is flipped between allocated and free, on a disk with two files sharing a sector and a two-sector directory; damaged files are added one at a time. Set and map operations use their contracts.', level='other')
prop('C25', 'cdisk commands do what they say and fail loudly',
     'Every cdisk command opens the image with write access exactly when it is meant to change it (bam allocate/free, write, append, format, rename, delete - not bam show, read, geosread, dir, dump, validate), acts on exactly the files, names, types and blocks its arguments give ("-" being standard input or output), stops at the first step that fails, and the process ends with a failure status exactly if a step failed (or validation found errors); success means the data were copied and flushed. Destination files are opened only once the source is. bam allocate/free cover exactly the blocks of the disk named ("all": every one), write the map afterwards, and refuse blocks that do not exist without writing; create makes a zero-filled file of the size of the type its extension names and never overwrites a file. No command line makes the program panic.',
     ['inputs'], 'all commands and argument forms, with every step failing or not; all three disk types for the map commands',
     'The program has no tests at all; the property is over every command line and every failing step.',
     ['src/bin/cdisk.rs'], [('main and the cmd_ functions', 'src/bin/cdisk.rs')],
     'abstract interpretation of MIR of the whole program from main, per command line', 'Library operations, file system and the argument parser are replaced by recorders with free outcomes; texts are concrete representatives, track and sector arguments are enumerated.', level='other')
prop('C26', 'PETSCII text is converted exactly',
     'A PETSCII string is shown as one documented Unicode character per byte, in order (U+FFFD for codes without one). Text is converted to one PETSCII code per character - the lowest code shown as that character, 0x7F for characters without one (other than U+FFFD itself) - through every conversion offered (from_str_lossy, From<&str>, From<String>, disk ids). Reading a padded field drops exactly the trailing padding bytes; writing one copies the string and fills the rest with the padding byte, or refuses a string that does not fit and leaves the field alone. A disk id is the first two bytes given, zero where there is none. Length, bytes, indexing and equality of a string are those of its bytes.',
     ['inputs'], 'all bytes at all positions, every Unicode character, string and field lengths around the limits', 'Tests convert a few sample strings.',
     ['src/petscii.rs', 'src/disk/mod.rs'], [('PETSCII_TO_CHAR_MAP, Petscii::from_str_lossy, Display', 'src/petscii.rs'), ('from_padded_bytes / write_bytes_with_padding', 'src/petscii.rs'), ('Id conversions', 'src/disk/mod.rs')],
     'finite-table and path-sensitive abstract interpretation of MIR', 'Bytes and characters are symbolic (a table over one byte source; one unknown character per text); string lengths 0..300 are enumerated by class.')
prop('C27', 'Listings show what is on the disk',
     'A directory line shows the block count left-justified in four columns, the quoted name in eighteen columns, * for unclosed files, the three-letter type, < for locked and @ for replaced files, and marks GEOS border files; the title line shows 0, the quoted disk name (which may be padded with spaces to 16), id, DOS version and format; a sector is shown as (track,sector); a validation error names its sector and the files involved; a hex dump shows every byte once, in order, in rows of sixteen with offset, hexadecimal and printable text; a GEOS string is shown up to its terminator; an icon is drawn two by two pixels per character with the matching block element.',
     ['inputs'], 'all attribute combinations, block counts of every digit count, names of every length with any bytes, all pixel combinations', 'No test looks at the listings.',
     ['src/disk/directory.rs', 'src/disk/mod.rs', 'src/disk/validation.rs', 'src/disk/block.rs', 'src/util/mod.rs', 'src/sprite.rs', 'src/disk/geos/mod.rs'],
     [('Display of DirectoryEntry, FileAttributes, dyn Disk, Location, ValidationError', 'src/disk'), ('hexdump', 'src/util/mod.rs'), ('Sprite::to_unicode', 'src/sprite.rs')],
     'abstract interpretation of MIR with a text domain for formatting', 'Formatting is interpreted from the compiled templates into a text of known and unknown characters; names, ids and pixels are symbolic, block counts one per digit count.')
prop('C28', 'A file handle gives access to exactly the file it was opened for',
     'Opening a file, by name or by directory entry, gives a handle on that file and changes nothing: its organisation is the one its entry describes, and entry, name, occupied sectors, record count, records and info block obtained through the handle are those of the file. A linear or GEOS sequential file can be read as a stream of its bytes, only a linear one can be written (which appends to that file); a stream of a relative or VLIR file is refused with the NonLinearFile error, writing a GEOS sequential file with ReadOnly. Deleting through the handle releases that file and scratches that entry.',
     ['inputs', 'configurations'], 'files of every type and organisation (closed DEL, unclosed PRG, locked USR, relative, GEOS sequential, VLIR), all sector contents, all disk types',
     'Tests open a few files of sample images and never use most combinations of operation and organisation.',
     ['src/disk/file.rs', 'src/disk/geos/file.rs', 'src/disk/mod.rs'], [('File::open / open_from_entry and its FileOps', 'src/disk/file.rs'), ('GEOSFile::reader / writer', 'src/disk/geos/file.rs')],
     'path-sensitive dataflow through the dispatching handle (abstract interpretation of MIR)', 'A disk with one file of every kind; sector contents are unknown; every operation of the handle is followed to the sectors it reaches.', level='other')
prop('C29', 'A disk object stands for exactly the image it was made from',
     'A disk is made from an image exactly if the size of the image is one documented for its type (otherwise InvalidLayout), with the layout of that size, over that image, and is initialised from it. Creating an image makes a file of exactly the size of the layout asked for, without old contents, opened for reading and writing; with create_new an existing file is never touched. An image in memory has that size and holds zeros only. The layouts offered (35, 40, 70, 80 tracks, with and without error table) are the documented ones. Flushing writes a file-backed image, reports failures, and is refused on a read-only one.',
     ['inputs', 'faults', 'configurations'], 'all image sizes, all layouts, all kinds of image, every failing step',
     'Tests use in-memory images of two layouts; creation and refusal of images and failing steps are not sampled.',
     ['src/disk/d64.rs', 'src/disk/d71.rs', 'src/disk/d81.rs', 'src/disk/image.rs'], [('D64/D71/D81::new, create, open_memory, geometry', 'src/disk/d64.rs, d71.rs, d81.rs'), ('Image::create, open_memory, flush', 'src/disk/image.rs')],
     'effect analysis of the constructors over their MIR (abstract interpretation; file-system calls recorded, each may fail)', 'The generic entry points are instantiated by a never-run stub (driver/vinst.rs); image sizes are symbolic.', level='other')
prop('C30', 'Dumps, the map display and file details show exactly what is stored',
     'The dump of a disk shows every sector once, in order of track and sector, with all its bytes, and the error table if the image has one; the dump of a file shows its name and every record in order, numbered, with all its bytes. The map display shows for every track the number of free sectors, the number of sectors and one mark per sector (. free, x in use), then the blocks free. The details of a file name the position of its directory entry and, in order, the sectors of its data (of a relative file also the side sectors; of a VLIR file those of each record, trailing unavailable records being only counted) and the GEOS info block with icon, type, addresses and texts; the verbose directory line adds the record length and first side sector or the GEOS structure, type and date. A chain that cannot be followed and an output that cannot be written to are reported as errors.',
     ['inputs'], 'all tracks of all three disk types with varied maps, disks with and without error table, all file kinds, every GEOS file type, every place the output can fail', 'No test looks at any of this output.',
     ['src/disk/block.rs', 'src/disk/file.rs', 'src/disk/geos/file.rs', 'src/disk/geos/mod.rs', 'src/disk/bam.rs', 'src/disk/directory.rs'],
     [('BlockDevice::dump / FileOps::dump', 'src/disk/block.rs'), ('FileOps::details', 'src/disk/file.rs'), ('Debug for Bam', 'src/disk/bam.rs'), ('Display for GEOSInfo', 'src/disk/geos/mod.rs')],
     'abstract interpretation of MIR with tracked text', 'The text written is tracked character by character through the formatting machinery and compared with the documented text.')
na('N01', 'A crash of the process or machine loses no completed operation',
   'After an operation on a file-backed image reported success and the image was flushed, the image file holds its effect even if the process or the machine stops at any later point.',
   ['crash_points'], 'every crash point after every successful operation on a mapped image file', 'Tests never crash.',
   ['src/disk/image.rs'], [('Image over memmap::MmapMut, flush', 'src/disk/image.rs')],
   'Which pages of a shared mapping reach the file, and when, is decided by the kernel after the store: it is not a function of the source, so no static argument over this code bounds it. The part the source does decide - the order in which the library modifies sectors - is claimed as C18 (nothing refers to a sector before it is ready) and C07 (the map is on the disk before success is reported).')
na('N02', 'Two processes with the same image open do not corrupt it',
   'If two processes (or two Disk values) have the same image file open for writing, operations of one never destroy data written by the other.',
   ['schedules'], 'every interleaving of two processes', 'Tests use one handle.',
   ['src/disk/image.rs', 'src/disk/mod.rs'], [('no file locking; shared mapping', 'src/disk/image.rs')],
   'The library takes no lock on the file and caches the map and header, so the property is neither promised nor implemented; it depends on another process\'s schedule, outside any analysis of this source. Within one process a Disk is not Sync (Rc<RefCell>), so the compiler already excludes concurrent use.')
na('N03', 'Operations take time proportional to the disk, not to its damage',
   'Listing, reading, validating and deleting finish within a small multiple of the time needed to read the image once, also on damaged or hostile images.',
   ['inputs'], 'every image', 'Tests use well-formed images.',
   ['src/disk/chain.rs', 'src/disk/validation.rs'], [('visited sets of chain iterators', 'src/disk/chain.rs')],
   'A quantitative bound over run time; the abstract interpretation has no cost domain. The qualitative part - every traversal ends, on every disk - is claimed as C10.')
