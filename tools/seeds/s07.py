ID='s07'; PROP='C20'
NEEDS='a directory that grows into a sector that once held other data'
BREAKS='only the first slot of a new directory sector is cleared, so old data shows up as files'
EDITS=[('src/disk/directory.rs', "        for block_byte in block.iter_mut().take(BLOCK_SIZE).skip(2) {", "        for block_byte in block.iter_mut().take(ENTRY_SIZE).skip(2) {")]
DEMO='''
use crate::disk::*;
use crate::disk::directory::*;
use crate::disk::file::*;
#[test]
fn t() {
    let mut d = D64::open_memory(D64::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    for s in 2..19u8 {
        for b in d.blocks_ref_mut().sector_mut(Location(18, s)).unwrap().iter_mut() { *b = 0x82; }
    }
    for i in 0..9u8 {
        let n = format!("f{}", i);
        d.create_file(&n.as_str().into(), FileType::SEQ, Scheme::Linear).unwrap();
    }
    assert_eq!(d.directory().unwrap().len(), 9);
}
'''
