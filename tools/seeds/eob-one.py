PROPERTY = 'C18'
NEEDS = 'progressive mode with so many scans that a band holds a single coefficient, and that coefficient is zero'
BREAKS = 'no end-of-block is coded for a band of one zero coefficient'
EDITS = [('src/writer.rs', '        if zero_run > 0 {\n            self.huffman_encode(0x00, ac_table)?;', '        // nothing to terminate if the last coefficient was sent\n        if zero_run > 0 && end - start > 1 {\n            self.huffman_encode(0x00, ac_table)?;')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let d: Vec<u8> = (0..256).map(|i| (i * 3) as u8).collect();
    let a = parse(&encode(16, 16, ColorType::Luma, &d, 80, |_| ())).unwrap();
    for n in 2..=64u8 {
        let b = parse(&encode(16, 16, ColorType::Luma, &d, 80, |e| e.set_progressive_scans(n))).expect("decodable");
        assert!(a.comps[0].blocks == b.comps[0].blocks, "{} scans", n);
    }
}
'''
