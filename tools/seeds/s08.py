ID='s08'; PROP='C21'
NEEDS='formatting an image whose sectors use their last byte'
BREAKS='formatting leaves the last byte of every sector as it was'
EDITS=[('src/disk/mod.rs', "                for block_byte in block.iter_mut().take(BLOCK_SIZE) {", "                for block_byte in block.iter_mut().take(BLOCK_SIZE - 1) {")]
DEMO='''
use crate::disk::*;
#[test]
fn t() {
    let mut d = D71::open_memory(D71::geometry(false)).unwrap();
    for b in d.blocks_ref_mut().sector_mut(Location(50, 3)).unwrap().iter_mut() { *b = 0xEE; }
    d.write_format(&"n".into(), &"id".into()).unwrap();
    assert!(d.blocks_ref().sector(Location(50, 3)).unwrap().iter().all(|b| *b == 0));
}
'''
