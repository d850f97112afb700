ID='s10'; PROP='C10'
NEEDS='a chain whose second or later sector lies outside the disk'
BREAKS='an unreadable sector in the middle of a chain silently ends the chain'
EDITS=[('src/disk/chain.rs', "                Err(e) => return Some(Err(e)),\n            };\n            self.block", "                Err(e) => {\n                    return if self.visited_sectors.len() > 1 { None } else { Some(Err(e)) }\n                }\n            };\n            self.block")]
DEMO='''
use std::io::{Read, Write};
use crate::disk::*;
use crate::disk::directory::*;
use crate::disk::file::*;
#[test]
fn t() {
    let mut d = D64::open_memory(D64::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    let f = d.create_file(&"f".into(), FileType::SEQ, Scheme::Linear).unwrap();
    let mut w = match f { File::Linear(f) => f.writer().unwrap(), _ => panic!() };
    w.write_all(&[7u8; 600]).unwrap();
    w.flush().unwrap();
    drop(w);
    let e = d.find_directory_entry(&"f".into()).unwrap();
    let second = { let b = d.blocks_ref(); let s = b.sector(e.first_sector).unwrap(); Location(s[0], s[1]) };
    d.blocks_ref_mut().sector_mut(second).unwrap()[0] = 77;
    let mut v = vec![];
    let f = d.open_file(&"f".into()).unwrap();
    let r = match f { File::Linear(f) => f.reader().unwrap().read_to_end(&mut v), _ => panic!() };
    assert!(r.is_err());
}
'''
