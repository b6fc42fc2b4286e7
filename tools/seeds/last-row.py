PROPERTY = 'C06'
NEEDS = 'an image at least 65536/8 ... whose height is not a multiple of the MCU height, in interleaved mode with vertical subsampling'
BREAKS = 'rows below the bottom edge repeat the second-to-last row instead of the last one when the height is odd'
EDITS = [('src/encoder.rs', '                let y = y + block_y * 8 * max_v_sampling;\n                let y = (y.min(height as usize - 1)) as u16;\n', '                let y = y + block_y * 8 * max_v_sampling;\n                let last = (usize::from(height) - 1) / max_v_sampling * max_v_sampling;\n                let y = if y >= usize::from(height) { last } else { y } as u16;\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    // 16 x 10, last row bright, the one above dark: padding has to be bright
    let mut d = vec![0u8; 16 * 10 * 3];
    for x in 0..16 * 3 {
        d[9 * 48 + x] = 255;
    }
    let o = encode(16, 10, ColorType::Rgb, &d, 100, |e| e.set_sampling_factor(SamplingFactor::F_2_2));
    let j = parse(&o).expect("decodable");
    let p = j.plane(0);
    for y in 9..16 {
        for x in 0..16 {
            assert!(p[y * 16 + x] > 200.0, "row {} is not the edge row repeated", y);
        }
    }
}
'''
