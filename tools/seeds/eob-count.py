PROPERTY = 'C17'
NEEDS = 'optimized tables, progressive mode and a band in which every non-empty rest has length one'
BREAKS = 'an end-of-block after a single trailing zero is coded but not counted'
EDITS = [('src/encoder.rs', '                                if zero_run > 0 {\n                                    ac_freq[0] += 1;', '                                if zero_run > usize::from(end - start > 1) as u8 {\n                                    ac_freq[0] += 1;')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for n in [2u8, 17, 32, 33, 64] {
        for s in 0..30u64 {
            let mut d = Rng(s + 1).bytes(64);
            if s > 20 {
                d = (0..64).map(|i| if (i + s as usize) % 9 == 0 { 255 } else { 0 }).collect();
            }
            let f = |opt: bool| {
                parse(&encode(8, 8, ColorType::Luma, &d, 100, |e| {
                    e.set_progressive_scans(n);
                    e.set_optimized_huffman_tables(opt)
                }))
                .expect("decodable")
            };
            assert!(f(true).comps[0].blocks == f(false).comps[0].blocks);
        }
    }
}
'''
