//! Rows of the largest images: the position of every sample in the caller's data.
use super::api::*;
use super::flow_spec::{bpp, sample};
use crate::image_buffer::*;
use crate::*;
use alloc::vec::Vec;

fn row<I: ImageBuffer>(img: I, fmt: i64, data: &[u8], w: usize, h: usize, y: usize) {
    check("C22:the built-in buffers report the given size", img.width() as usize == w && img.height() as usize == h);
    let comps = match fmt {
        0 => 1,
        6 | 7 | 8 => 4,
        _ => 3,
    };
    let mut b: [Vec<u8>; 4] = [Vec::with_capacity(w + 8), Vec::with_capacity(w + 8), Vec::with_capacity(w + 8), Vec::with_capacity(w + 8)];
    img.fill_buffers(y as u16, &mut b);
    let mut c = 0;
    while c < 4 {
        check("C10:one sample per pixel and component", b[c].len() == if c < comps { w } else { 0 });
        c += 1;
    }
    let mut x = 0;
    while x < w {
        let mut c = 0;
        while c < comps {
            let e = sample(fmt, &data[(y * w + x) * bpp(fmt)..], c);
            check_v("C10:each sample comes from its own pixel", same(b[c][x] as i64, e as i64), b[c][x] as i64, x as i64);
            c += 1;
        }
        x += if x > 20 && x + 40 < w { 1009 } else { 1 };
    }
    reached("row of a large image");
}
pub fn h_rows() {
    go(0);
}
pub fn h_rows_more() {
    let k = 1 + part(2);
    go(k);
}
fn go(k: i64) {
    let fmt = part(9);
    let on = part(2);
    if on == 1 && (fmt == 0 || fmt > 4) {
        return;
    }
    assume_avx2(on);
    set_unroll_cap(1000000);
    let (w, h, y) = [(65535, 65535, 65534), (65535, 32768, 32767), (40000, 60000, 53000)][k as usize];
    let d = any_slice(w * h * bpp(fmt));
    let (a, b) = (w as u16, h as u16);
    match (fmt, on) {
        (0, _) => row(GrayImage(d, a, b), fmt, d, w, h, y),
        (1, 0) => row(RgbImage(d, a, b), fmt, d, w, h, y),
        (2, 0) => row(RgbaImage(d, a, b), fmt, d, w, h, y),
        (3, 0) => row(BgrImage(d, a, b), fmt, d, w, h, y),
        (4, 0) => row(BgraImage(d, a, b), fmt, d, w, h, y),
        (1, _) => row(crate::avx2::RgbImageAVX2(d, a, b), fmt, d, w, h, y),
        (2, _) => row(crate::avx2::RgbaImageAVX2(d, a, b), fmt, d, w, h, y),
        (3, _) => row(crate::avx2::BgrImageAVX2(d, a, b), fmt, d, w, h, y),
        (4, _) => row(crate::avx2::BgraImageAVX2(d, a, b), fmt, d, w, h, y),
        (5, _) => row(YCbCrImage(d, a, b), fmt, d, w, h, y),
        (6, _) => row(CmykImage(d, a, b), fmt, d, w, h, y),
        (7, _) => row(CmykAsYcckImage(d, a, b), fmt, d, w, h, y),
        (_, _) => row(YcckImage(d, a, b), fmt, d, w, h, y),
    }
}
