PROPERTY = 'C16'
NEEDS = 'optimized tables with a gap of more than three unused code lengths: one symbol that dominates and several equally rare ones'
BREAKS = 'the code is shifted too little across a long gap, so the coder uses other codes than a decoder derives'
EDITS = [('src/huffman.rs', '            current_code <<= size_diff as usize;', '            current_code <<= usize::from(size_diff.min(3));')]
MAIN = r'''mod common;
use common::*;
// One block per symbol: a single coefficient with a chosen zero run and size
fn main() {
    let mut fib = vec![6usize; 20];
    fib.push(5000);
    let mut kinds = vec![];
    for (k, n) in fib.iter().enumerate() {
        for _ in 0..*n {
            kinds.push(k);
        }
    }
    let cols = 160;
    let rows = (kinds.len() + cols - 1) / cols;
    let (w, h) = (cols * 8, rows * 8);
    let mut d = vec![128u8; w * h];
    for (b, k) in kinds.iter().enumerate() {
        let z = ZZ[1 + k / 2];
        let (u, v) = (z % 8, z / 8);
        let amp = if *k == 20 { 0.0 } else if k % 2 == 0 { 40.0 } else { 80.0 };
        for y in 0..8 {
            for x in 0..8 {
                let c = |n: usize, m: usize| if m == 0 { (0.125f64).sqrt() } else { 0.5 * ((2 * n + 1) as f64 * m as f64 * std::f64::consts::PI / 16.0).cos() };
                d[(b / cols * 8 + y) * w + b % cols * 8 + x] = (128.0 + amp * 1.0 * c(x, u) * c(y, v)).round() as u8;
            }
        }
    }
    let q40 = [40u16; 64];
    let o = encode(w as u16, h as u16, ColorType::Luma, &d, 50, |e| {
        e.set_optimized_huffman_tables(true);
        e.set_quantization_tables(QuantizationTableType::Custom(Box::new(q40)), QuantizationTableType::Custom(Box::new(q40)))
    });
    let j = parse(&o).expect("decodable");
    assert!(j.dht[1].1[1..4] == [0; 3], "the image needs no long gap: {:?}", j.dht[1].1);
}
'''
