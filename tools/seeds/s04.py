ID='s04'; PROP='C02'
NEEDS='an address one sector past the end of a track'
BREAKS='a nonexistent address aliases the first sector of the next track'
EDITS=[('src/disk/block.rs', 'if sector >= self.geometry.track_layouts[track].sectors', 'if sector > self.geometry.track_layouts[track].sectors')]
DEMO='''
use crate::disk::*;
#[test]
fn t() {
    let d = D64::open_memory(D64::geometry(false)).unwrap();
    for t in 0..=255u8 {
        for s in 0..=255u8 {
            let n = match t { 1..=17 => 21, 18..=24 => 19, 25..=30 => 18, 31..=35 => 17, _ => 0 };
            assert_eq!(d.read_sector(Location(t, s)).is_ok(), s < n, "{}/{}", t, s);
        }
    }
}
'''
