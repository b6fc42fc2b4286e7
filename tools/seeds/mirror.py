PROPERTY = 'C22'
NEEDS = 'an image height that is not a multiple of the MCU height, interleaved mode'
BREAKS = 'padding rows are taken from the mirrored image instead of repeating the last row'
EDITS = [('src/encoder.rs', 'let y = (y.min(height as usize - 1)) as u16;', 'let last = height as usize - 1;\n                let y = if y > last { last.saturating_sub(y - last) } else { y } as u16;')]
MAIN = r'''mod common;
use common::*;
use std::cell::RefCell;
struct Img(u16, u16, RefCell<Vec<u16>>);
impl<'a> ImageBuffer for &'a Img {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        JpegColorType::Ycbcr
    }
    fn width(&self) -> u16 {
        self.0
    }
    fn height(&self) -> u16 {
        self.1
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        self.2.borrow_mut().push(y);
        for i in 0..3 {
            b[i].extend((0..self.0).map(|x| (x + y) as u8));
        }
    }
}
fn main() {
    for h in 1..40u16 {
        for s in [SamplingFactor::F_1_1, SamplingFactor::F_2_2] {
            let m = Img(5, h, RefCell::default());
            let mut e = Encoder::new(Vec::new(), 70);
            e.set_sampling_factor(s);
            e.encode_image(&m).unwrap();
            let r = m.2.into_inner();
            for (i, y) in r.iter().enumerate() {
                assert_eq!(*y as usize, i.min(h as usize - 1), "height {} rows {:?}", h, r);
            }
        }
    }
}
'''
