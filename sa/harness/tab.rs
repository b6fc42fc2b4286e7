//! Tables: quantization tables by quality, quantization, Huffman tables.
use super::api::*;
use super::mon::*;
use super::refs::*;
use crate::huffman::HuffmanTable;
use crate::quantization::QuantizationTable;
use crate::*;
use alloc::boxed::Box;
use alloc::vec::Vec;

const ZZ: [u8; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45,
    38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
fn preset(i: i64) -> QuantizationTableType {
    match i {
        0 => QuantizationTableType::Default,
        1 => QuantizationTableType::Flat,
        2 => QuantizationTableType::CustomMsSsim,
        3 => QuantizationTableType::CustomPsnrHvs,
        4 => QuantizationTableType::ImageMagick,
        5 => QuantizationTableType::KleinSilversteinCarney,
        6 => QuantizationTableType::DentalXRays,
        7 => QuantizationTableType::VisualDetectionModel,
        _ => QuantizationTableType::ImprovedDetectionModel,
    }
}
/// grey image
struct Flat(JpegColorType, usize, u16, u16);
impl ImageBuffer for Flat {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.0
    }
    fn width(&self) -> u16 {
        self.2
    }
    fn height(&self) -> u16 {
        self.3
    }
    fn fill_buffers(&self, _y: u16, buffers: &mut [Vec<u8>; 4]) {
        for c in 0..self.1 {
            for _ in 0..self.2 {
                buffers[c].push(128);
            }
        }
    }
}
fn jcolor(i: i64) -> (JpegColorType, usize) {
    match i {
        0 => (JpegColorType::Luma, 1),
        1 => (JpegColorType::Ycbcr, 3),
        2 => (JpegColorType::Cmyk, 4),
        _ => (JpegColorType::Ycck, 4),
    }
}
/// sink that ends the analysis at the first scan header
struct Front;
impl JfifWrite for Front {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        let m = mon();
        for x in b {
            m.byte(*x);
        }
        if m.code == 0xDA {
            let (kind, a, b, q): (i64, i64, i64, i64) = dat_get(30);
            match kind {
                0 => presets(a, b, q),
                1 => custom(),
                _ => huff(a),
            }
            reached("tables written");
            stop();
        }
        Ok(())
    }
}
/// libjpeg: jpeg_quality_scaling and jpeg_add_quant_table with force_baseline
fn scaled(base: u16, q: i64) -> i64 {
    let q = if q < 1 { 1 } else if q > 100 { 100 } else { q };
    let s = if q < 50 { 5000 / q } else { 200 - q * 2 };
    let v = (base as i64 * s + 50) / 100;
    if v < 1 { 1 } else if v > 255 { 255 } else { v }
}
fn presets(a: i64, b: i64, q: i64) {
    let m = mon();
    let mut i = 0;
    while i < 64 {
        let z = ZZ[i] as usize;
        check("C15:a table scaled for its quality", m.dqt[0][i] as i64 == scaled(QL[a as usize][z], q));
        check("C15:a table scaled for its quality", m.dqt[1][i] as i64 == scaled(QC[b as usize][z], q));
        i += 1;
    }
}
fn custom() {
    let m = mon();
    let t: [[u16; 64]; 2] = dat_get(31);
    let mut i = 0;
    while i < 64 {
        let z = ZZ[i] as usize;
        let mut k = 0;
        while k < 2 {
            let v = t[k][z].clamp(1, 255) as i64;
            check("C14:custom table values are written in zig-zag order, limited to 1..255", same(m.dqt[k][i] as i64, v));
            k += 1;
        }
        i += 1;
    }
}
fn huff(ci: i64) {
    let m = mon();
    let n = if ci == 0 { 1 } else { 2 };
    let mut k = 0;
    while k < n {
        let (d, a) = (&m.dht[k], &m.dht[4 + k]);
        check("C15:default Huffman tables are present", d.present && a.present);
        check("C15:default DC tables are those of Annex K", d.n == 12 && same_bytes(&d.len, if k == 0 { &DCL_N } else { &DCC_N }) && same_bytes(&d.val[..12], &DC_V));
        check("C15:default AC tables are those of Annex K", a.n == 162 && same_bytes(&a.len, if k == 0 { &ACL_N } else { &ACC_N }) && same_bytes(&a.val[..162], if k == 0 { &ACL_V } else { &ACC_V }));
        k += 1;
    }
}
fn front(ci: i64, q: u8, mode: i64, f: SamplingFactor, ta: QuantizationTableType, tb: QuantizationTableType) {
    let (c, n) = jcolor(ci);
    let mut m = Mon::new();
    dat_set(0, &mut m as *mut Mon);
    let mut e = Encoder::new(Front, q);
    e.set_sampling_factor(f);
    e.set_quantization_tables(ta, tb);
    if mode == 1 {
        e.set_progressive(true);
    }
    let _ = e.encode_image(Flat(c, n, 1, 1));
    fail("C14:tables are written");
}
/// every preset and every quality
pub fn h_quality() {
    let q = part(256);
    let a = part(9);
    let b = (a + q) % 9;
    dat_set(30, (0i64, a, b, q));
    front(if a == 0 { 0 } else { 1 }, q as u8, 0, SamplingFactor::F_1_1, preset(a), preset(b));
}
/// custom tables: every value, the quality has no influence
pub fn h_custom() {
    let ci = part(4);
    let mode = part(2);
    let mut t = [[0u16; 64]; 2];
    let mut i = 0;
    while i < 64 {
        t[0][i] = any();
        t[1][i] = any();
        i += 1;
    }
    dat_set(30, (1i64, 0i64, 0i64, 0i64));
    dat_set(31, t);
    front(ci, any(), mode, SamplingFactor::F_2_1, QuantizationTableType::Custom(Box::new(t[0])), QuantizationTableType::Custom(Box::new(t[1])));
}
/// default Huffman tables
pub fn h_huffman() {
    let ci = part(4);
    let mode = part(2);
    let s = part(2);
    dat_set(30, (2i64, ci, 0i64, 0i64));
    front(ci, 75, mode, if s == 0 { SamplingFactor::F_1_1 } else { SamplingFactor::F_2_4 }, preset(0), preset(0));
}
/// quantization with every divisor: intervals of inputs around each multiple
const MAXIN: i64 = 8300;
pub fn h_quantize() {
    let t = 1 + part(255);
    let i = (t % 64) as usize;
    let mut tab = [0u16; 64];
    let mut j = 0;
    while j < 64 {
        tab[j] = 1 + ((t + j as i64 * 7 + 3) % 255) as u16;
        j += 1;
    }
    tab[i] = t as u16;
    let q = QuantizationTable::new_with_quality(&QuantizationTableType::Custom(Box::new(tab)), 50, true);
    check("C14:the table value is the one given", q.get(i) as i64 == t);
    let mut k = 0;
    // 8 t k is eight times the k-th multiple; the transform output carries a factor of eight
    while 8 * t * k - 4 * t <= MAXIN {
        let (a, b) = (8 * t * k - 4 * t + 1, 8 * t * k + 4 * t - 1);
        let b = if b > 32767 { 32767 } else { b };
        if k == 0 {
            check("C14:quantization rounds to the nearest multiple", q.quantize(0, i) == 0);
            near(&q, i, 1, b, 0);
            near(&q, i, -b, -1, 0);
        } else {
            near(&q, i, a, b, k);
            near(&q, i, -b, -a, -k);
        }
        let x = 8 * t * k + 4 * t;
        if x <= MAXIN {
            let v = q.quantize(x as i16, i) as i64;
            check("C14:quantization rounds ties to a neighbour", v == k || v == k + 1);
            let v = q.quantize(-x as i16, i) as i64;
            check("C14:quantization rounds ties to a neighbour", v == -k || v == -k - 1);
        }
        k += 1;
    }
    // no input overflows
    let v = q.quantize(any_in(1, 32767) as i16, i);
    let w = q.quantize(any_in(-32768, -1) as i16, i);
    check("C14:quantization keeps the sign", v >= 0 && w <= 0);
    reached("divisor");
}
fn near(q: &QuantizationTable, i: usize, a: i64, b: i64, k: i64) {
    let x = any_in(a, b) as i16;
    check_v("C14:quantization rounds to the nearest multiple", q.quantize(x, i) as i64 == k, a, k);
}
// ---------------------------------------------------------------- Huffman
fn valid(t: &HuffmanTable) {
    let (len, val) = (t.length(), t.values());
    let mut n = 0usize;
    let mut kraft = 0i64;
    let mut max = 0;
    let mut i = 0;
    while i < 16 {
        n += len[i] as usize;
        kraft += (len[i] as i64) << (15 - i);
        if len[i] > 0 {
            max = i;
        }
        i += 1;
    }
    check("C16:as many codes as symbols", n == val.len());
    check("C16:code lengths satisfy the Kraft inequality and leave the all-ones code free", n == 0 || kraft + (1 << (15 - max)) <= 65536);
    let mut seen = [false; 256];
    // canonical codes, T.81 C.2
    let mut code = 0i64;
    let mut k = 0;
    let mut i = 0;
    while i < 16 {
        let mut j = 0;
        while j < len[i] {
            let v = val[k];
            check("C16:each symbol is listed once", !seen[v as usize]);
            seen[v as usize] = true;
            let c = t.get_for_value(v);
            check("C16:codes in use are the canonical codes of the table", c.0 as usize == i + 1 && c.1 as i64 == code);
            code += 1;
            k += 1;
            j += 1;
        }
        code *= 2;
        i += 1;
    }
}
pub fn h_canonical() {
    let t = match part(4) {
        0 => HuffmanTable::default_luma_dc(),
        1 => HuffmanTable::default_luma_ac(),
        2 => HuffmanTable::default_chroma_dc(),
        _ => HuffmanTable::default_chroma_ac(),
    };
    valid(&t);
    reached("table");
}
fn optimized(f: [u64; 257], n: usize) {
    let t = HuffmanTable::new_optimized(f);
    valid(&t);
    check("C16:every counted symbol has a code", t.values().len() == n);
    let mut i = 0;
    while i < t.values().len() {
        check("C16:only counted symbols have codes", f[t.values()[i] as usize] > 0);
        i += 1;
    }
    reached("table");
}
/// the deepest trees: frequencies 1, 1, 2, 3, 5, ... in rising or falling symbol order
pub fn h_deep() {
    deep([2usize, 3, 8, 15, 16, 17, 18, 24, 31, 32, 33, 40, 50, 62][part(14) as usize]);
}
pub fn h_deep_all() {
    deep(1 + part(62) as usize);
}
fn deep(n: usize) {
    let shape = part(4);
    let mut f = [0u64; 257];
    f[256] = 1;
    let (mut a, mut b) = (1u64, 1u64);
    let mut i = 0;
    while i < n {
        let p = match shape {
            0 => i,
            1 => 255 - i,
            2 => (i * 37) % 256,
            _ => 16 * (i % 16) + i / 16,
        };
        f[p] = if shape == 3 { 1 << i } else { b };
        let c = a + b;
        a = b;
        b = c;
        i += 1;
    }
    optimized(f, n);
}
/// all symbols equally frequent, 1 to 256 of them, or a steep head and a long flat tail
pub fn h_flat() {
    // a coder of 8-bit samples uses at most 162 symbols
    let n = [1usize, 2, 3, 8, 16, 17, 31, 64, 128, 162][part(10) as usize];
    let shape = part(4);
    let mut f = [0u64; 257];
    f[256] = 1;
    let mut i = 0;
    while i < n {
        f[(i * 91) % 256] = match shape {
            0 => 1,
            1 => 1000,
            2 => if i < 30 { 1 << (40 - i) } else { 1 },
            _ => 1 + (i as u64 * i as u64 * 7919) % 1000,
        };
        i += 1;
    }
    optimized(f, n);
}
/// one symbol of any frequency
pub fn h_one() {
    let at = 51 * part(6) as usize;
    set_ite(0);
    let mut f = [0u64; 257];
    f[256] = 1;
    f[at] = any_in(1, 1 << 50) as u64;
    optimized(f, 1);
}
