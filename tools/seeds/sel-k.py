PROPERTY = 'C14'
NEEDS = 'a CMYK or YCCK image with different luma and chroma tables (most qualities below 100) in the interleaved mode'
BREAKS = 'the fourth component is divided by the other table than its frame header entry names'
EDITS = [('src/encoder.rs', '''                            OP::quantize_block(
                                &block,
                                &mut q_block,
                                &q_tables[component.quantization_table as usize],
                            );
''', '''                            OP::quantize_block(
                                &block,
                                &mut q_block,
                                &q_tables[usize::from(i > 0 && component.quantization_table > 0 || i == 3)],
                            );
''')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for ct in [ColorType::Cmyk, ColorType::Ycck] {
        let d: Vec<u8> = (0..32 * 32 * 4).map(|i| if ct == ColorType::Cmyk { 255 - ((i / 4) % 32 * 6) as u8 } else { ((i / 4) % 32 * 6) as u8 }).collect();
        let j = parse(&encode(32, 32, ct, &d, 90, |_| ())).unwrap();
        for c in 0..4 {
            let p = j.plane(c);
            for x in 0..32 {
                assert!((p[x + 32 * 3] - (x * 6) as f64).abs() < 20.0, "{:?} component {} column {}: {}", ct, c, x, p[x + 96]);
            }
        }
    }
}
'''
