ID='s02'; PROP='C03'
NEEDS='a D71 image whose second-side map sector carries bytes beyond the bitmaps'
BREAKS='writing the map back zeroes the unrelated bytes of the second-side map sector'
EDITS=[('src/disk/bam.rs', '            let mut block = self\n                .blocks\n                .borrow()\n                .sector(section.bitmap_location)?\n                .to_vec();\n', '            let mut block = if section.bitmap_location == section.free_location {\n                self.blocks\n                    .borrow()\n                    .sector(section.bitmap_location)?\n                    .to_vec()\n            } else {\n                vec![0u8; 256]\n            };\n')]
DEMO='''
use crate::disk::*;
#[test]
fn t() {
    let mut d = D71::open_memory(D71::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    let mut b = d.read_sector(Location(53, 0)).unwrap();
    b[200] = 77;
    d.write_sector(Location(53, 0), &b).unwrap();
    d.bam().unwrap().borrow_mut().flush().unwrap();
    assert_eq!(d.read_sector(Location(53, 0)).unwrap(), b);
}
'''
