PROPERTY = 'C20'
NEEDS = 'a scan count set before progressive mode is switched on (or on again)'
BREAKS = 'enabling progressive mode keeps an earlier scan count instead of using the documented 4 scans'
EDITS = [('src/encoder.rs', 'self.progressive_scans = if progressive { Some(4) } else { None };', 'self.progressive_scans = if progressive { self.progressive_scans.or(Some(4)) } else { None };')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let mut e = Encoder::new(Vec::new(), 50);
    assert_eq!(e.progressive_scans(), None);
    e.set_progressive(true);
    assert_eq!(e.progressive_scans(), Some(4));
    e.set_progressive_scans(17);
    e.set_progressive(true);
    assert_eq!(e.progressive_scans(), Some(4));
    e.set_progressive(false);
    assert_eq!(e.progressive_scans(), None);
}
'''
