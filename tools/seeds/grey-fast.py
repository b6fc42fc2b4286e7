PROPERTY = 'C11'
NEEDS = 'a nearly neutral triple whose channels differ by a few levels, such as (0, 3, 0)'
BREAKS = 'a shortcut for neutral colours also takes nearly neutral ones, which come out more than one level off'
EDITS = [('src/image_buffer.rs', '    let r = r as i32;\n    let g = g as i32;\n    let b = b as i32;\n', '    // Neutral colors need no conversion\n    if (r ^ g) | (g ^ b) < 4 {\n        return (g, 128, 128);\n    }\n\n    let r = r as i32;\n    let g = g as i32;\n    let b = b as i32;\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for r in 0..=255u8 {
        for g in 0..=255u8 {
            for b in (0..=255u8).step_by(3) {
                let (y, cb, cr) = rgb_to_ycbcr(r, g, b);
                let (rf, gf, bf) = (r as f64, g as f64, b as f64);
                let e = [0.299 * rf + 0.587 * gf + 0.114 * bf, 128.0 - 0.168736 * rf - 0.331264 * gf + 0.5 * bf, 128.0 + 0.5 * rf - 0.418688 * gf - 0.081312 * bf];
                for (a, x) in [y, cb, cr].iter().zip(e) {
                    assert!((*a as f64 - x).abs() <= 1.0, "{:?} -> {:?}, expected {:?}", (r, g, b), (y, cb, cr), e);
                }
                if r == g && g == b {
                    assert_eq!((y, cb, cr), (r, 128, 128));
                }
            }
        }
    }
}
'''
