PROPERTY = 'C13'
NEEDS = 'the SIMD feature, a CPU with AVX2 and a colour whose Cb lies exactly between two levels, in a group of eight pixels'
BREAKS = 'the vector path rounds halves up where the portable path rounds them down'
FEATURES = ['std', 'simd']
EDITS = [('src/avx2/ycbcr.rs', 'let cb = _mm256_add_epi32(cb, _mm256_set1_epi32(0x7FFF));', 'let cb = _mm256_add_epi32(cb, _mm256_set1_epi32(1 << 15));')]
MAIN = r'''mod common;
use common::*;
struct Portable<'a>(&'a [u8], u16, u16);
impl<'a> ImageBuffer for Portable<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        JpegColorType::Ycbcr
    }
    fn width(&self) -> u16 {
        self.1
    }
    fn height(&self) -> u16 {
        self.2
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let l = self.1 as usize * 3;
        for p in self.0[y as usize * l..][..l].chunks(3) {
            let (y, cb, cr) = rgb_to_ycbcr(p[0], p[1], p[2]);
            b[0].push(y);
            b[1].push(cb);
            b[2].push(cr);
        }
    }
}
fn main() {
    for seed in 0..40u64 {
        let (w, h) = (24, 16);
        let mut d = Rng(seed * 77 + 5).bytes(w * h * 3);
        if seed % 2 == 1 {
            for p in d.chunks_mut(3) {
                p[0] = 0;
                p[1] = 0;
                p[2] |= 1;
            }
        }
        let a = encode(w as u16, h as u16, ColorType::Rgb, &d, 100, |_| ());
        let mut b = Vec::new();
        Encoder::new(&mut b, 100).encode_image(Portable(&d, w as u16, h as u16)).unwrap();
        assert!(a == b, "the two paths differ");
    }
}
'''
