ID='s03'; PROP='C04'
NEEDS='freeing a sector that is already free'
BREAKS='the free count is maintained incrementally and drifts from the bits when a free sector is freed again'
EDITS=[('src/disk/bam.rs', '        self.sector_map |= 1u64 << sector;\n        self.update_free_sectors();', '        self.sector_map |= 1u64 << sector;\n        self.free_sectors += 1;')]
DEMO='''
use crate::disk::*;
#[test]
fn t() {
    let mut d = D81::open_memory(D81::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    let bam = d.bam().unwrap();
    let mut bam = bam.borrow_mut();
    bam.free(Location(5, 36)).unwrap();
    let e = bam.entry(5).unwrap();
    assert_eq!(e.free_sectors as u32, e.sector_map().count_ones());
}
'''
