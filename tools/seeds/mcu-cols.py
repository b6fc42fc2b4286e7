PROPERTY = 'C06'
NEEDS = 'sequential or progressive mode with horizontal subsampling by 4 and a width just above a multiple of 32'
BREAKS = 'a chroma component is one block column short'
EDITS = [('src/encoder.rs', '            let cols = ceil_div(num_cols, h_scale);\n', '            let cols = ceil_div((usize::from(width) + h_scale / 2) / h_scale, 8).max(1);\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for w in 1..100u16 {
        let d: Vec<u8> = (0..w as usize * 8 * 3).map(|i| if i % 3 == 0 { 128 } else { (i / 3 % w as usize * 2) as u8 }).collect();
        for s in [SamplingFactor::F_4_1, SamplingFactor::F_2_1, SamplingFactor::F_1_1, SamplingFactor::F_4_2] {
            let o = encode(w, 8, ColorType::Ycbcr, &d, 90, |e| {
                e.set_sampling_factor(s);
                e.set_progressive(true)
            });
            parse(&o).expect("decodable");
        }
    }
}
'''
