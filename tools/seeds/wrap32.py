PROPERTY = 'C08'
NEEDS = 'an image whose required data length reaches 2^32 bytes'
BREAKS = 'the required length is computed modulo 2^32, so a far too short buffer is accepted'
EDITS = [('src/encoder.rs', 'let required_data_len = width as usize * height as usize * color_type.get_bytes_per_pixel();', 'let num_pixels = u32::from(width) * u32::from(height);\n        let required_data_len =\n            num_pixels.wrapping_mul(color_type.get_bytes_per_pixel() as u32) as usize;')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for (w, h, ct, n) in [(32768u16, 32768u16, ColorType::Rgba, 4usize), (65535, 65535, ColorType::Rgb, 3), (40000, 50000, ColorType::Cmyk, 4), (65535, 65535, ColorType::Luma, 1)] {
        let d = vec![0u8; 100];
        let mut out = Vec::new();
        let e = Encoder::new(&mut out, 50);
        match e.encode(&d, w, h, ct) {
            Err(EncodingError::BadImageData { length, required }) => {
                assert_eq!((length, required), (100, w as usize * h as usize * n));
            }
            x => panic!("{:?}", x.is_ok()),
        }
        assert!(out.is_empty());
    }
}
'''
