ID='s01'; PROP='C11'
NEEDS='a chained sector whose link bytes are (0,0)'
BREAKS='an invalid link is accepted as an (empty) last sector instead of being rejected'
EDITS=[('src/disk/chain.rs', "            if block[1] < 1 {\n                // It's not valid for a chain sector to not include the first two bytes\n                // as allocated.\n                return Err(DiskError::InvalidChainLink.into());\n            }\n            Ok(ChainLink::Tail(block[1] as usize + 1)) // 2..=256", '            // The first two bytes are always allocated.\n            Ok(ChainLink::Tail((block[1] as usize + 1).max(2))) // 2..=256'), ('src/disk/chain.rs', '        if block[0] == 0x00 {\n            // This is the last sector of the chain, so', '        if block[0] == 0x00 {\n            if block.len() < 2 {\n                return Err(DiskError::InvalidChainLink.into());\n            }\n            // This is the last sector of the chain, so')]
DEMO='''
use crate::disk::chain::ChainLink;
#[test]
fn t() {
    assert!(ChainLink::new(&[0, 0]).is_err());
    for b in 1..=255u8 {
        match ChainLink::new(&[0, b]).unwrap() {
            ChainLink::Tail(n) => assert_eq!(n, b as usize + 1),
            _ => panic!(),
        }
    }
}
'''
