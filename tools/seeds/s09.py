ID='s09'; PROP='C24'
NEEDS='a sector marked in use that lies above the sector count of the preceding track (only at the first track of a longer zone: 36 of a 1571 disk)'
BREAKS='allocated sectors are enumerated with the sector count of the wrong track'
EDITS=[('src/disk/bam.rs', "            for sector in 0..self.format.tracks[track + 1].sectors {\n                if map & 1 == 0 {", "            for sector in 0..self.format.tracks[track].sectors {\n                if map & 1 == 0 {")]
DEMO='''
use crate::disk::*;
use crate::disk::validation::ValidationError;
#[test]
fn t() {
    let mut d = D71::open_memory(D71::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    {
        let bam = d.bam().unwrap();
        bam.borrow_mut().allocate(Location(36, 20)).unwrap();
    }
    let e = d.validate().unwrap();
    assert!(e.iter().any(|e| matches!(e, ValidationError::SectorMisallocated(l) if *l == Location(36, 20))));
}
'''
