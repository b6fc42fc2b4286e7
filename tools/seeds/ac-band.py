PROPERTY = 'C05'
NEEDS = 'progressive mode with a scan count for which 63 is not a multiple of scans-1'
BREAKS = 'the last band ends one coefficient early when the coefficients do not divide evenly, so the highest frequency is never sent'
EDITS = [('src/encoder.rs', '                // ensure last scan is always transfers the remaining coefficients\n                64\n', '                // ensure last scan is always transfers the remaining coefficients\n                (start + values_per_scan).max(64 - scans / 31)\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for n in 2..=64u8 {
        let d = Rng(9).bytes(64);
        let o = encode(8, 8, ColorType::Luma, &d, 100, |e| e.set_progressive_scans(n));
        let j = parse(&o).expect("decodable");
        let mut seen = [0; 64];
        for s in &j.scans {
            for i in s.ss..=s.se {
                seen[i] += 1;
            }
        }
        assert!(seen.iter().all(|x| *x == 1), "{} scans: {:?}", n, seen);
    }
}
'''
