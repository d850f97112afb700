ID='s06'; PROP='C17'
NEEDS='a piece of data that leaves exactly one unused byte in the last sector, followed by more data'
BREAKS='the last free byte of a sector is skipped but counted as data when the chain continues'
EDITS=[('src/disk/chain.rs', "ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {", "ChainLink::Tail(nbytes) if nbytes >= BLOCK_SIZE - 1 => {")]
DEMO='''
use std::io::{Read, Write};
use crate::disk::*;
use crate::disk::directory::*;
use crate::disk::file::*;
#[test]
fn t() {
    let mut d = D64::open_memory(D64::geometry(false)).unwrap();
    d.write_format(&"n".into(), &"id".into()).unwrap();
    let f = d.create_file(&"f".into(), FileType::SEQ, Scheme::Linear).unwrap();
    let mut w = match f { File::Linear(f) => f.writer().unwrap(), _ => panic!() };
    w.write_all(&[7u8; 253]).unwrap();
    w.flush().unwrap();
    w.write_all(&[9u8; 10]).unwrap();
    w.flush().unwrap();
    drop(w);
    let mut v = vec![];
    let f = d.open_file(&"f".into()).unwrap();
    match f { File::Linear(f) => f.reader().unwrap().read_to_end(&mut v).unwrap(), _ => panic!() };
    let mut want = vec![7u8; 253];
    want.extend(&[9u8; 10]);
    assert_eq!(v, want);
}
'''
