PROPERTY = 'C15'
NEEDS = 'default chroma table, any quality where the entry is not clamped to 1'
BREAKS = 'two digits of one entry of the Annex K chroma table are exchanged'
EDITS = [('src/quantization.rs', '17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99, 24, 26, 56, 99, 99, 99, 99,', '17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99, 24, 26, 65, 99, 99, 99, 99,')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let j = parse(&encode(1, 1, ColorType::Rgb, &[3, 4, 5], 50, |_| ())).unwrap();
    let q = j.dqt[1].unwrap();
    let e = [17, 18, 24, 47, 18, 21, 26, 66, 24, 26, 56, 99, 47, 66, 99, 99];
    for v in 0..8 {
        for u in 0..8 {
            assert_eq!(q[v * 8 + u], if u < 4 && v < 4 { e[v * 4 + u] } else { 99 }, "{} {}", u, v);
        }
    }
}
'''
