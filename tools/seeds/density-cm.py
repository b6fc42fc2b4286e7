PROPERTY = 'C02'
NEEDS = 'a density in dots per centimeter with different horizontal and vertical values'
BREAKS = 'the vertical density is written as the horizontal one'
EDITS = [('src/writer.rs', '                self.write_u8(0x02)?;\n                self.write_u16(x)?;\n                self.write_u16(y)?;', '                self.write_u8(0x02)?;\n                self.write_u16(x)?;\n                self.write_u16(x.max(y))?;')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for (x, y) in [(1u16, 1u16), (300, 20), (20, 300), (65535, 7), (0, 9)] {
        for (u, d) in [(1, Density::Inch { x, y }), (2, Density::Centimeter { x, y })] {
            let o = encode(9, 9, ColorType::Luma, &[7; 81], 60, |e| e.set_density(d));
            let j = parse(&o).unwrap();
            let s = &j.segs[0].1;
            assert_eq!((s[7], (s[8] as u16) << 8 | s[9] as u16, (s[10] as u16) << 8 | s[11] as u16), (u, x, y));
        }
    }
}
'''
