//! Forward transform and colour conversion on unknown samples.
use super::api::*;
use crate::encoder::{DefaultOperations, Operations};
use crate::image_buffer::*;
use crate::*;

fn block() -> [i16; 64] {
    let mut b = [0i16; 64];
    let mut i = 0;
    while i < 64 {
        b[i] = any_in(-128, 127) as i16;
        i += 1;
    }
    b
}
/// accuracy of the portable transform, and the range of its results
pub fn h_fdct() {
    let part = part(8);
    let inp = block();
    let mut out = inp;
    DefaultOperations::fdct(&mut out);
    let mut k = part * 8;
    while k < part * 8 + 8 {
        let v = out[k as usize] as i64;
        let e = dct_error(v, &inp, k % 8, k / 8);
        check_v("C12:each output is within 2.5 of eight times the DCT coefficient", e <= 2500, e, k);
        if k > 0 {
            check("C16:AC coefficients fit category 10 after any quantization", proved(v > -8184) && proved(v < 8184));
        } else {
            check("C16:DC coefficients fit category 11 as differences", proved(v >= -8192) && proved(v <= 8188));
        }
        k += 1;
    }
    reached("portable transform");
}
/// both transforms give the same values
pub fn h_fdct_simd() {
    assume_avx2(1);
    let inp = block();
    let mut a = inp;
    let mut b = inp;
    DefaultOperations::fdct(&mut a);
    crate::avx2::AVX2Operations::fdct(&mut b);
    let mut k = 0;
    while k < 64 {
        check_v("C13:both transforms give the same coefficient", same(a[k] as i64, b[k] as i64), a[k] as i64, b[k] as i64);
        k += 1;
    }
    reached("both transforms");
}
/// every colour
pub fn h_ycc() {
    let r = any_in(0, 255);
    let g = any_in(0, 255);
    let b = any_in(0, 255);
    let (y, cb, cr) = rgb_to_ycbcr(r as u8, g as u8, b as u8);
    let e = ycc_error(y as i64, r, g, b, 299000, 587000, 114000, 0);
    check_v("C11:Y is within one level", e <= 1000, e, 0);
    let e = ycc_error(cb as i64, r, g, b, -168736, -331264, 500000, 128);
    check_v("C11:Cb is within one level", e <= 1000, e, 0);
    let e = ycc_error(cr as i64, r, g, b, 500000, -418688, -81312, 128);
    check_v("C11:Cr is within one level", e <= 1000, e, 0);
    let s = any_in(0, 255);
    let (y, cb, cr) = rgb_to_ycbcr(s as u8, s as u8, s as u8);
    check_v("C11:greys map to themselves", y as i64 == s, y as i64, s);
    check_v("C11:greys have neutral chroma", cb == 128 && cr == 128, cb as i64, cr as i64);
    reached("colour conversion");
}
/// quantization of the AVX2 operations equals the portable one, coefficient by coefficient
pub fn h_quant_ops() {
    let neg = part(2);
    let pos = part(64) as usize;
    assume_avx2(1);
    let t = crate::quantization::QuantizationTable::new_with_quality(&QuantizationTableType::Default, 75, true);
    let mut b = [0i16; 64];
    b[pos] = (if neg == 1 { any_in(-8192, -1) } else { any_in(0, 8191) }) as i16;
    let mut p = [0i16; 64];
    let mut q = [0i16; 64];
    DefaultOperations::quantize_block(&b, &mut p, &t);
    crate::avx2::AVX2Operations::quantize_block(&b, &mut q, &t);
    let mut k = 0;
    while k < 64 {
        check_v("C13:both quantizers give the same value", same(p[k] as i64, q[k] as i64), p[k] as i64, q[k] as i64);
        k += 1;
    }
    reached("both quantizers");
}
