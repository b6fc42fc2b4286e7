PROPERTY = 'C18'
NEEDS = 'a coefficient of exactly -1024 .. or a DC difference of a large negative power of two'
BREAKS = 'negative powers of two of the largest magnitude category lose the ones-complement adjustment'
EDITS = [('src/writer.rs', 'let temp = value - (value.is_negative() as i16);', 'let temp = value - ((value.is_negative() && value != -(1 << 10)) as i16);')]
MAIN = r'''mod common;
use common::*;
fn main() {
    // flat blocks: DC of level v at quality 100 is 8 * (v - 128)
    let mut last = None;
    for v in 0..=255u8 {
        let d = vec![v; 64];
        let j = parse(&encode(8, 8, ColorType::Luma, &d, 100, |_| ())).unwrap();
        assert_eq!(j.comps[0].blocks[0][0], 8 * (v as i32 - 128));
        last = Some(v);
    }
    let _ = last;
}
'''
