PROPERTY = 'C12'
NEEDS = 'a completely black block, whose DC output is the one value outside the clamped range'
BREAKS = 'the output is clamped to the range of magnitude category 10, which cuts off the DC value of a black block'
EDITS = [('src/fdct.rs', '    v as i16\n', '    // magnitude category 10 is the largest one, results are scaled by 8\n    v.clamp(-(1023 << 3), 1023 << 3) as i16\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    // rows chosen so that rows and columns 3 and 4 differ strongly
    let mut worst = 0.0f64;
    for s in 0..20u64 {
        let mut d = Rng(s + 1).bytes(64);
        for (i, v) in d.iter_mut().enumerate() {
            *v = if *v > 127 { 255 } else { 0 };
            if s < 10 {
                *v = match i % 8 {
                    3 => 255,
                    4 => 0,
                    _ => *v,
                }
            }
        }
        if s == 19 {
            d = vec![0; 64];
        }
        let q = [1u16; 64];
        let j = parse(&encode(8, 8, ColorType::Luma, &d, 100, |e| e.set_quantization_tables(QuantizationTableType::Custom(Box::new(q)), QuantizationTableType::Custom(Box::new(q))))).unwrap();
        let b = &j.comps[0].blocks[0];
        for v in 0..8 {
            for u in 0..8 {
                let mut x = 0.0;
                for i in 0..8 {
                    for k in 0..8 {
                        let c = |n: usize, m: usize| if m == 0 { (0.125f64).sqrt() } else { 0.5 * ((2 * n + 1) as f64 * m as f64 * std::f64::consts::PI / 16.0).cos() };
                        x += c(k, u) * c(i, v) * (d[i * 8 + k] as f64 - 128.0);
                    }
                }
                worst = worst.max((x - b[v * 8 + u] as f64).abs());
            }
        }
    }
    assert!(worst < 0.5 + 2.5 / 8.0, "error {}", worst);
}
'''
