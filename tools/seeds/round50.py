PROPERTY = 'C15'
NEEDS = 'a quality and table position where value * scale leaves exactly 50 as remainder'
BREAKS = 'such entries are one lower than libjpeg computes them'
EDITS = [('src/quantization.rs', 'let v = (v * scale + 50) / 100;', 'let v = (v * scale + 49) / 100;')]
MAIN = r'''mod common;
use common::*;
const L: [i32; 64] = [16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62, 18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92, 49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99];
fn main() {
    for q in 1..=100 {
        let j = parse(&encode(1, 1, ColorType::Luma, &[3], q as u8, |_| ())).unwrap();
        let s = if q < 50 { 5000 / q } else { 200 - 2 * q };
        for i in 0..64 {
            assert_eq!(j.dqt[0].unwrap()[i], ((L[i] * s + 50) / 100).clamp(1, 255), "quality {} position {}", q, i);
        }
    }
}
'''
