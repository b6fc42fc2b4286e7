PROPERTY = 'C23'
NEEDS = 'the crate without its default features and a quality from 90 to 94'
BREAKS = 'the default sampling factor depends on the std feature'
FEATURES = []
EDITS = [('src/encoder.rs', '        let sampling_factor = if quality < 90 {', '        let sampling_factor = if quality < if cfg!(feature = "std") { 90 } else { 95 } {')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for q in 0..=255 {
        assert_eq!(Encoder::new(Vec::new(), q).sampling_factor() == SamplingFactor::F_1_1, q >= 90, "quality {}", q);
    }
}
'''
