// Never run: makes the compiler instantiate the library's public generic entry points so that their MIR can be exported.
use cbm::disk::{D64, D71, D81};
fn main() {
    let _ = D64::create("x", D64::geometry(false), true);
    let _ = D71::create("x", D71::geometry(false), true);
    let _ = D81::create("x", D81::geometry(false), true);
    let _ = D64::open("x", true);
    let _ = D71::open("x", true);
    let _ = D81::open("x", true);
    let _ = D64::open_memory(D64::geometry_40_tracks(false));
    let _ = D71::open_memory(D71::geometry(true));
    let _ = D81::open_memory(D81::geometry(true));
}
