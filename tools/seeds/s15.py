ID='s15'; PROP='C12'
NEEDS='comparing an error with a different one of the same io::ErrorKind'
BREAKS='a disk error compares equal to io::Errors that did not come from it'
EDITS=[('src/disk/error.rs', "impl PartialEq<io::Error> for DiskError {\n    fn eq(&self, other: &io::Error) -> bool {\n        matches!(DiskError::from_io_error(other), Some(ref e) if e == self)", "impl PartialEq<io::Error> for DiskError {\n    fn eq(&self, other: &io::Error) -> bool {\n        self.to_io_error().kind() == other.kind()")]
DEMO='''
use crate::disk::*;
#[test]
fn t() {
    let e: std::io::Error = DiskError::InvalidBAM.into();
    assert!(DiskError::InvalidBAM == e);
    assert!(!(DiskError::InvalidHeader == e));
    let os = std::io::Error::from(std::io::ErrorKind::NotFound);
    assert!(!(DiskError::NotFound == os));
}
'''
