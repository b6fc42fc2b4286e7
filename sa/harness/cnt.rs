//! Symbol counting for optimized tables: blocks get fixed patterns of zero and non-zero coefficients; the
//! symbols T.81 prescribes for the blocks coded are compared with the counts each table was made from.
use super::api::*;
use crate::huffman::HuffmanTable;
use crate::quantization::QuantizationTable;
use crate::writer::JfifWriter;
use crate::*;
use alloc::vec::Vec;

const ZZ: [u8; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45,
    38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
struct Cnt {
    n_opt: usize,
    counted: [[i64; 257]; 8],
    used: [[i64; 257]; 8],
    ids: i64,
    hits: usize,
    seed: i64,
    prev: i16,
    first: bool,
}
fn cnt() -> &'static mut Cnt {
    let p: *mut Cnt = dat_get(21);
    unsafe { &mut *p }
}
/// coefficient of block `id` at zig-zag position k
fn pattern(id: i64, k: i64) -> i16 {
    let s = cnt().seed;
    if k == 0 {
        return ((id * 37 + s * 11) % 401 - 200) as i16;
    }
    let shape = (id + s) % 8;
    let nz = match shape {
        0 => false,                       // DC only
        1 => true,                        // no zeros
        2 => k == 63,                     // longest run
        3 => k % 17 == 0,                 // runs of 16
        4 => k == 1 || k == 18 || k == 35, // ends with zeros
        5 => (k * 7 + id) % 5 == 0,
        6 => k < 1 + id % 60,
        _ => k == 1 + (id * 13) % 63 || k == 1 + (id * 29) % 63,
    };
    if !nz {
        return 0;
    }
    let c = (k + id) % 10;
    let v = (1 << c) + (k * 5) % (1 << c);
    if (k + id) % 3 == 0 { -v as i16 } else { v as i16 }
}
fn category(v: i64) -> usize {
    let mut a = if v < 0 { -v } else { v };
    let mut n = 0;
    while a > 0 {
        a >>= 1;
        n += 1;
    }
    n
}
fn symbol(t: &HuffmanTable, sym: usize) {
    let s = cnt();
    let v = t.values();
    let ok = v.len() == 1 && (v[0] as usize) < s.n_opt;
    check("C17:with optimized tables every code comes from an optimized table", ok);
    s.used[v[0] as usize][sym] += 1;
}
fn dc(t: &HuffmanTable, v: i16, prev: i16) {
    cnt().hits += 1;
    symbol(t, category(v as i64 - prev as i64));
}
fn ac(t: &HuffmanTable, b: &[i16; 64], lo: usize, hi: usize) {
    cnt().hits += 1;
    let mut run = 0;
    let mut k = lo;
    while k < hi {
        if b[k] == 0 {
            run += 1;
        } else {
            while run > 15 {
                symbol(t, 0xF0);
                run -= 16;
            }
            symbol(t, run * 16 + category(b[k] as i64));
            run = 0;
        }
        k += 1;
    }
    if run > 0 {
        symbol(t, 0);
    }
}
pub fn m__HuffmanTable__new_optimized(freq: [u64; 257]) -> HuffmanTable {
    let s = cnt();
    let k = s.n_opt;
    check("C17:at most four tables", k < 4);
    s.n_opt += 1;
    let mut i = 0;
    while i < 257 {
        s.counted[k][i] = freq[i] as i64;
        i += 1;
    }
    let mut l = [0u8; 16];
    l[0] = 1;
    HuffmanTable::new(&l, &[k as u8])
}
pub fn m__fdct(data: &mut [i16; 64]) {
    let s = cnt();
    s.ids += 1;
    let mut i = 0;
    while i < 64 {
        data[i] = s.ids as i16;
        i += 1;
    }
}
pub fn m__QuantizationTable__quantize(_t: &QuantizationTable, v: i16, index: usize) -> i16 {
    let mut k = 0;
    while ZZ[k] as usize != index {
        k += 1;
    }
    pattern(v as i64, k as i64)
}
pub fn m__JfifWriter__write_block<W: JfifWrite>(_w: &mut JfifWriter<W>, block: &[i16; 64], prev_dc: i16, d: &HuffmanTable, a: &HuffmanTable) -> Result<(), EncodingError> {
    dc(d, block[0], prev_dc);
    ac(a, block, 1, 64);
    Ok(())
}
pub fn m__JfifWriter__write_dc<W: JfifWrite>(_w: &mut JfifWriter<W>, value: i16, prev_dc: i16, d: &HuffmanTable) -> Result<(), EncodingError> {
    dc(d, value, prev_dc);
    Ok(())
}
pub fn m__JfifWriter__write_ac_block<W: JfifWrite>(_w: &mut JfifWriter<W>, block: &[i16; 64], start: usize, end: usize, a: &HuffmanTable) -> Result<(), EncodingError> {
    ac(a, block, start, end);
    Ok(())
}
/// accepts everything
struct Null;
impl JfifWrite for Null {
    fn write_all(&mut self, _b: &[u8]) -> Result<(), EncodingError> {
        Ok(())
    }
}
struct Flat(JpegColorType, usize, u16, u16);
impl ImageBuffer for Flat {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.0
    }
    fn width(&self) -> u16 {
        self.2
    }
    fn height(&self) -> u16 {
        self.3
    }
    fn fill_buffers(&self, _y: u16, buffers: &mut [Vec<u8>; 4]) {
        for c in 0..self.1 {
            for _ in 0..self.2 {
                buffers[c].push(128);
            }
        }
    }
}
fn run(ci: i64, f: SamplingFactor, scans: u8, iv: u16, w: u16, h: u16, seed: i64) {
    let (color, n) = match ci {
        0 => (JpegColorType::Luma, 1),
        1 => (JpegColorType::Ycbcr, 3),
        2 => (JpegColorType::Cmyk, 4),
        _ => (JpegColorType::Ycck, 4),
    };
    let mut c = Cnt { n_opt: 0, counted: [[0; 257]; 8], used: [[0; 257]; 8], ids: 0, hits: 0, seed, prev: 0, first: true };
    dat_set(21, &mut c as *mut Cnt);
    let mut e = Encoder::new(Null, 75);
    e.set_sampling_factor(f);
    e.set_optimized_huffman_tables(true);
    e.set_restart_interval(iv);
    if scans > 0 {
        e.set_progressive_scans(scans);
    }
    let r = e.encode_image(Flat(color, n, w, h));
    check("C17:encoding with optimized tables succeeds", r.is_ok());
    let s = cnt();
    check("anchor:block coder", s.hits > 0 && s.ids > 0);
    if s.hits == 0 || s.ids == 0 {
        return;
    }
    check("C17:optimized tables are made when requested", s.n_opt == if n == 1 { 2 } else { 4 });
    let mut k = 0;
    while k < s.n_opt {
        check("C17:one code point is kept free", s.counted[k][256] == 1);
        let mut i = 0;
        while i < 256 {
            check("C17:symbols are counted as often as they are coded", s.counted[k][i] == s.used[k][i]);
            i += 1;
        }
        k += 1;
    }
    reached("counted");
}
/// sequential, with and without restarts
pub fn h_cnt() {
    let ci = part(4);
    let iv = [0u16, 1, 3, 5][part(4) as usize];
    let scans = [0u8, 2, 4, 9][part(4) as usize];
    assume_avx2((ci + iv as i64) & 1);
    run(ci, [SamplingFactor::F_1_1, SamplingFactor::F_2_2][(ci % 2) as usize], scans, iv, 41, 20, ci * 3 + iv as i64);
}
/// all numbers of scans
pub fn h_cnt_scans() {
    let scans = 2 + part(63);
    assume_avx2(0);
    run(1, SamplingFactor::F_2_1, scans as u8, 2, 40, 8, scans);
}
