ID='s13'; PROP='C09'
NEEDS='asking a relative file for the record just past its last one'
BREAKS='the index equal to the record count is accepted'
EDITS=[('src/disk/file.rs', "        if index >= self.records {", "        if index > self.records {")]
DEMO='''
use crate::disk::*;
use crate::disk::directory::*;
use crate::disk::file::*;
#[test]
fn t() {
    let mut d = D64::open_memory(D64::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    {
        let mut b = d.blocks_ref_mut();
        // two records of 127 bytes in one data sector, one side sector
        { let s = b.sector_mut(Location(5, 0)).unwrap(); s[1] = 255; s[2..].iter_mut().for_each(|x| *x = 0x41); }
        { let s = b.sector_mut(Location(6, 0)).unwrap(); s[1] = 0x11; s[3] = 127; s[4] = 6; s[16] = 5; }
        let s = b.sector_mut(Location(18, 1)).unwrap();
        s[2] = 0x84; s[3] = 5; s[4] = 0; s[5] = 0x52;
        for i in 6..0x15 { s[i] = 0xA0; }
        s[0x15] = 6; s[0x16] = 0; s[0x17] = 127; s[0x1e] = 2;
    }
    let e = d.directory().unwrap().remove(0);
    let f = d.open_file(&e.filename).unwrap();
    let n = f.record_count().unwrap();
    assert_eq!(n, 2);
    assert!(f.record(1).is_ok());
    assert!(f.record(2).is_err());
}
'''
