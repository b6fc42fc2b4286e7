PROPERTY = 'C17'
NEEDS = 'optimized tables together with progressive mode and at least three components'
BREAKS = 'statistics of the last AC band are collected one coefficient short, so a symbol that occurs only at the highest frequency has no code'
EDITS = [('src/encoder.rs', '                                // Due to rounding we might need to transfer more than values_per_scan values in the last scan\n                                64\n', '                                // Due to rounding we might need to transfer more than values_per_scan values in the last scan\n                                start + values_per_scan.max(63 - scan * values_per_scan - scans % 2)\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for n in 2..=10u8 {
        for seed in 1..40 {
            let d = Rng(seed * 77).bytes(64);
            let plain = encode(8, 8, ColorType::Luma, &d, 60, |e| e.set_progressive_scans(n));
            let opt = encode(8, 8, ColorType::Luma, &d, 60, |e| {
                e.set_progressive_scans(n);
                e.set_optimized_huffman_tables(true);
            });
            let (a, b) = (parse(&plain).expect("decodable"), parse(&opt).expect("optimized stream decodable"));
            assert!(a.comps[0].blocks == b.comps[0].blocks);
        }
    }
}
'''
