PROPERTY = 'C09'
NEEDS = 'an ICC profile whose length is an exact multiple of the chunk length'
BREAKS = 'the announced number of chunks is one too high when the last chunk is full'
EDITS = [('src/encoder.rs', '            chunk_data.push(num_chunks as u8);\n', '            chunk_data.push((data.len() / MAX_CHUNK_LENGTH) as u8 + (num_chunks - data.len() / MAX_CHUNK_LENGTH) as u8 + u8::from(data.len() == MAX_CHUNK_LENGTH && i + 1 == num_chunks));\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let mut r = Rng(11);
    for n in [1usize, 65518, 65519, 65520, 2 * 65519, 2 * 65519 + 5] {
        let p = r.bytes(n);
        let o = encode(2, 2, ColorType::Luma, &[1; 4], 50, |e| e.add_icc_profile(&p).unwrap());
        let j = parse(&o).unwrap();
        let a: Vec<_> = j.segs.iter().filter(|s| s.0 == 0xE2).map(|s| s.1.clone()).collect();
        let t = (n + 65518) / 65519;
        assert_eq!(a.len(), t);
        let mut q = vec![];
        for (i, s) in a.iter().enumerate() {
            assert_eq!(&s[..12], b"ICC_PROFILE\0");
            assert_eq!((s[12] as usize, s[13] as usize), (i + 1, t), "{} bytes", n);
            q.extend_from_slice(&s[14..]);
        }
        assert!(q == p);
    }
}
'''
