ID='s14'; PROP='C30'
NEEDS='an image with an error table in which sectors of one track have different codes'
BREAKS='the dump prints the error code of the wrong sector'
EDITS=[('src/disk/block.rs', "                    index += 1;\n                }\n                writeln!(writer)?;", "                }\n                index += 1;\n                writeln!(writer)?;")]
DEMO='''
use crate::disk::*;
#[test]
fn t() {
    let mut d = D64::open_memory(D64::geometry(true)).unwrap();
    {
        let mut b = d.blocks_ref_mut();
        let t = b.error_table_mut().unwrap().unwrap();
        for i in 0..t.len() {
            t[i] = (i % 251) as u8;
        }
    }
    let mut out = Vec::new();
    d.dump(&mut out).unwrap();
    let text = String::from_utf8(out).unwrap();
    let line = text.lines().last().unwrap();
    let want: Vec<String> = (683 - 17..683).map(|i| format!("{:02x}", i % 251)).collect();
    assert_eq!(line.trim_end(), format!("track 35: {}", want.join(" ")));
}
'''
