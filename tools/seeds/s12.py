ID='s12'; PROP='C06'
NEEDS='a disk on which only the outermost tracks have room left'
BREAKS='the search for a free sector stops before it has reached every track'
EDITS=[('src/disk/format.rs', "            self.last_track + 1 - self.directory_track,", "            self.last_track - self.directory_track - 1,")]
DEMO='''
use crate::disk::*;
#[test]
fn t() {
    let mut d = D81::open_memory(D81::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    let bam = d.bam().unwrap();
    let mut bam = bam.borrow_mut();
    let n = d.disk_format().unwrap().last_track;
    for t in 1..n {
        for s in 0..d.disk_format().unwrap().sectors_in_track(t) {
            bam.allocate(Location(t, s)).unwrap();
        }
    }
    assert!(bam.next_free_block(None).is_ok());
}
'''
