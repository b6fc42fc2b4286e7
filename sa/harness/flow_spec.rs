//! Block-level specification (T.81 A.1, A.2, B.2, F.1, G.1) that the abstract encoder run is compared with.
//! Blocks are tracked by provenance tags: the forward transform is replaced by an operation that
//! remembers its 64 input samples and returns 64 tags; quantization keeps the tag and remembers the
//! table; the block coder is replaced by an operation that looks the tags up and compares them with the
//! block the standard prescribes next.
use super::api::*;
use super::mon::*;
use crate::huffman::HuffmanTable;
use crate::quantization::QuantizationTable;
use crate::writer::JfifWriter;
use crate::*;
use alloc::boxed::Box;
use alloc::vec::Vec;

pub const ZZ: [u8; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45,
    38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
pub const MAXB: usize = 500;
pub struct Spec {
    pub w: usize,
    pub h: usize,
    pub hmax: usize,
    pub vmax: usize,
    pub interval: usize,
    pub next_row: usize,
    pub tags: usize,
    pub tag_tq: [u8; MAXB],
    pub tag_pos: [u32; MAXB],
    pub n: usize,
    pub total: usize,
    pub upm: usize,
    pub prev: [i16; 4],
    /// components without a coded DC value since the start of the scan or the last restart marker
    pub fresh: [bool; 4],
    pub cover: [[u8; 64]; 4],
    pub scans: [usize; 4],
    pub seen_dc: [bool; 4],
    pub hits: usize,
    /// optimized tables: symbols counted when the table was made, symbols coded with it
    pub n_opt: usize,
    pub counted: [[u32; 257]; 4],
    pub used: [[u32; 257]; 4],
    /// input format + 1 when the image comes from a byte slice
    pub fmt: i64,
    pub data: &'static [u8],
}
impl Spec {
    pub fn new(w: usize, h: usize, interval: usize) -> Spec {
        Spec {
            w,
            h,
            hmax: 1,
            vmax: 1,
            interval,
            next_row: 0,
            tags: 1,
            tag_tq: [0; MAXB],
            tag_pos: [0; MAXB],
            n: 0,
            total: 0,
            upm: 1,
            prev: [0; 4],
            fresh: [true; 4],
            cover: [[0; 64]; 4],
            scans: [0; 4],
            seen_dc: [false; 4],
            hits: 0,
            n_opt: 0,
            counted: [[0; 257]; 4],
            used: [[0; 257]; 4],
            fmt: 0,
            data: &[],
        }
    }
}
pub fn spec() -> &'static mut Spec {
    let p: *mut Spec = dat_get(1);
    unsafe { &mut *p }
}
fn cdiv(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}
/// block raster of one component
fn raster(s: &Spec, c: &Comp) -> (usize, usize) {
    (cdiv(cdiv(s.w * c.h as usize, s.hmax), 8), cdiv(cdiv(s.h * c.v as usize, s.vmax), 8))
}
pub fn scan_start() {
    let (m, s) = (mon(), spec());
    s.hmax = 1;
    s.vmax = 1;
    let mut i = 0;
    while i < m.nc {
        s.hmax = s.hmax.max(m.comps[i].h as usize);
        s.vmax = s.vmax.max(m.comps[i].v as usize);
        i += 1;
    }
    s.n = 0;
    s.prev = [0; 4];
    s.fresh = [true; 4];
    if m.sn == 1 {
        let (c, r) = raster(s, &m.comps[m.scan_comp(0)]);
        s.total = c * r;
        s.upm = 1;
    } else {
        let mut b = 0;
        let mut i = 0;
        while i < m.sn {
            let c = &m.comps[m.scan_comp(i)];
            b += c.h as usize * c.v as usize;
            i += 1;
        }
        s.upm = b;
        s.total = b * cdiv(s.w, 8 * s.hmax) * cdiv(s.h, 8 * s.vmax);
    }
    let prog = m.sof == 0xC2;
    let mut i = 0;
    while i < m.sn {
        let k = m.scan_comp(i);
        s.scans[k] += 1;
        if prog {
            if m.ss > 0 {
                check("C05:the DC scan of a component comes first", s.seen_dc[k]);
            } else {
                s.seen_dc[k] = true;
            }
        }
        let mut j = m.ss as usize;
        while j <= m.se as usize {
            check("C05:each coefficient is sent in one scan only", s.cover[k][j] == 0);
            s.cover[k][j] = 1;
            j += 1;
        }
        i += 1;
    }
}
pub fn restart() {
    let (m, s) = (mon(), spec());
    let unit = s.n / s.upm;
    check("C04:restart markers stand between coded units", s.n % s.upm == 0 && unit > 0);
    check("C04:a restart marker follows every N-th coded unit", s.interval > 0 && m.rst * s.interval == unit);
    check("C04:no restart marker after the last unit", s.n < s.total);
    s.prev = [0; 4];
    s.fresh = [true; 4];
}
pub fn scan_end() {
    let (m, s) = (mon(), spec());
    check("C06:every block of the scan is coded", s.n == s.total);
    if s.interval > 0 {
        check("C04:all restart markers of the scan are present", m.rst == (s.total / s.upm - 1) / s.interval);
    }
}
fn same_table(t: &HuffmanTable, d: &Huff) -> bool {
    t.values().len() == d.n && t.length()[..] == d.len[..] && t.values() == &d.val[..d.n]
}
/// value of pixel (x, y) of component c of the abstract image
pub fn pixel(c: usize, x: usize, y: usize) -> u8 {
    let s = spec();
    if s.fmt > 0 {
        return sample(s.fmt - 1, &s.data[(y * s.w + x) * bpp(s.fmt - 1)..], c);
    }
    uf(5, c as i64, x as i64, y as i64, 0, 255) as u8
}
/// large images: order and restarts only
pub fn light() -> bool {
    key_get(21) == 1
}
pub fn bpp(fmt: i64) -> usize {
    match fmt {
        0 => 1,
        1 | 3 | 5 => 3,
        _ => 4,
    }
}
/// sample of component c that the documentation prescribes for the pixel whose bytes start p
pub fn sample(fmt: i64, p: &[u8], c: usize) -> u8 {
    let ycc = |r: u8, g: u8, b: u8| {
        let (y, cb, cr) = rgb_to_ycbcr(r, g, b);
        [y, cb, cr][c]
    };
    match fmt {
        0 => p[0],
        1 | 2 => ycc(p[0], p[1], p[2]),
        3 | 4 => ycc(p[2], p[1], p[0]),
        5 => p[c],
        6 => 255 - p[c],
        7 => if c == 3 { 255 - p[3] } else { ycc(p[0], p[1], p[2]) },
        _ => p[c],
    }
}
fn check_samples(k: usize, bx: usize, by: usize, id: usize) {
    let (m, s) = (mon(), spec());
    let pos = ((k as u32) << 28) | ((by as u32) << 14) | bx as u32 | 1 << 27;
    if s.tag_pos[id] != 0 {
        check("C06:each block is coded at its own position", s.tag_pos[id] == pos);
        return;
    }
    s.tag_pos[id] = pos;
    let b: [i16; 64] = dat_get(10 + id);
    let (fx, fy) = (s.hmax / m.comps[k].h as usize, s.vmax / m.comps[k].v as usize);
    let mut i = 0;
    while i < 64 {
        let (x0, y0) = ((bx * 8 + i % 8) * fx, (by * 8 + i / 8) * fy);
        let got = b[i] as i64 + 128;
        let mut ok = same(got, pixel(k, x0.min(s.w - 1), y0.min(s.h - 1)) as i64);
        if s.fmt > 0 {
            check("C10:each coded sample is the documented one of its pixel", ok || fx * fy > 1);
            if (s.fmt >= 2 && s.fmt <= 5) || s.fmt == 8 {
                check("C11:RGB input is converted with the JFIF transform", ok || fx * fy > 1);
            }
            if key_get(23) == 1 {
                check("C13:colour conversion gives the portable values", ok || fx * fy > 1);
            }
        }
        if ok {
            check("C06:each coded sample is the level-shifted pixel it represents", true);
            i += 1;
            continue;
        }
        let mut sum = 0;
        let mut dy = 0;
        while dy < fy {
            let mut dx = 0;
            while dx < fx {
                let p = pixel(k, (x0 + dx).min(s.w - 1), (y0 + dy).min(s.h - 1)) as i64;
                ok = ok || same(got, p);
                sum += p;
                dx += 1;
            }
            dy += 1;
        }
        if !ok {
            // or an average of the area
            let a = (fx * fy) as i64;
            ok = a > 1 && proved(got * a <= sum + a) && proved(got * a >= sum - a);
        }
        check("C06:each coded sample is the level-shifted pixel it represents", ok);
        i += 1;
    }
}
fn coded(block: &[i16; 64], dc: Option<(i16, &HuffmanTable)>, ac: Option<&HuffmanTable>, start: usize, end: usize) {
    let (m, s) = (mon(), spec());
    s.hits += 1;
    check("C01:entropy-coded data only inside a scan", m.st == S_ENT && m.in_scan);
    check("C03:no data between padding and marker", !m.padded);
    check("C06:no block beyond those of the scan", s.n < s.total);
    // position of this block in the scan
    let unit = s.n / s.upm;
    let mut j = s.n % s.upm;
    let (mut si, mut k, mut bx, mut by) = (0, 0, 0, 0);
    if m.sn == 1 {
        k = m.scan_comp(0);
        let (c, _) = raster(s, &m.comps[k]);
        bx = s.n % c;
        by = s.n / c;
    } else {
        let mc = cdiv(s.w, 8 * s.hmax);
        while si < m.sn {
            k = m.scan_comp(si);
            let (h, v) = (m.comps[k].h as usize, m.comps[k].v as usize);
            if j < h * v {
                bx = (unit % mc) * h + j % h;
                by = (unit / mc) * v + j / h;
                break;
            }
            j -= h * v;
            si += 1;
        }
    }
    if s.interval > 0 && s.n % s.upm == 0 {
        check("C04:a restart marker follows every N-th coded unit", m.rst == unit / s.interval);
    }
    // what is coded
    let id = (block[if start < 64 { start } else { 0 }] >> 6) as usize;
    check("C06:the block coded comes from the image", id > 0 && (id < s.tags || light()));
    if !light() {
        check_samples(k, bx, by, id);
    }
    let q = s.tag_tq[id];
    check("C14:the component is quantized with the table its frame entry names", q == m.comps[k].tq + 1);
    let mut i = start;
    while i < end {
        check("C18:coefficients are coded in zig-zag order", block[i] == (id as i16) * 64 + ZZ[i] as i16);
        i += 1;
    }
    let prog = m.sof == 0xC2;
    if prog {
        check("C05:the data of a scan is the band its header states", start == m.ss as usize && end == m.se as usize + 1);
    } else {
        check("C18:sequential scans code all 64 coefficients", start == 0 && end == 64);
    }
    if let Some((p, t)) = dc {
        if s.interval > 0 && s.fresh[k] {
            check("C04:DC prediction starts from zero in each restart interval", p == 0);
        }
        s.fresh[k] = false;
        check("C18:DC difference is taken to the previous block of the component", p == s.prev[k]);
        s.prev[k] = block[0];
        check("C16:DC codes come from the table the scan names", same_table(t, &m.dht[(m.std[si] & 3) as usize]));
        if s.n_opt > 0 {
            let c = category(block[0] as i64 - p as i64);
            use_symbol(t, c);
        }
    }
    if let Some(t) = ac {
        if s.n_opt > 0 {
            // tags are never zero: no runs and no end-of-block
            let mut i = start.max(1);
            while i < end {
                use_symbol(t, category(block[i] as i64));
                i += 1;
            }
        }
        check("C16:AC codes come from the table the scan names", same_table(t, &m.dht[4 + (m.sta[si] & 3) as usize]));
    }
    s.n += 1;
}
/// number of bits of a value (T.81 F.1.2.1)
pub fn category(v: i64) -> usize {
    let mut a = if v < 0 { -v } else { v };
    let mut n = 0;
    while a > 0 {
        a >>= 1;
        n += 1;
    }
    n
}
fn use_symbol(t: &HuffmanTable, sym: usize) {
    let s = spec();
    let v = t.values();
    let ok = v.len() == 1 && (v[0] as usize) < s.n_opt;
    check("C17:with optimized tables every code comes from an optimized table", ok);
    s.used[v[0] as usize][sym] += 1;
}
pub fn check_counts() {
    let s = spec();
    let mut k = 0;
    while k < s.n_opt {
        check("C17:one code point is kept free", s.counted[k][256] == 1);
        let mut i = 0;
        while i < 256 {
            check("C17:symbols are counted as often as they are coded", s.counted[k][i] == s.used[k][i]);
            i += 1;
        }
        k += 1;
    }
}
pub fn m__HuffmanTable__new_optimized(freq: [u64; 257]) -> HuffmanTable {
    let s = spec();
    let k = s.n_opt;
    check("C17:at most four tables", k < 4);
    s.n_opt += 1;
    let mut i = 0;
    while i < 257 {
        s.counted[k][i] = freq[i] as u32;
        i += 1;
    }
    let mut l = [0u8; 16];
    l[0] = 1;
    HuffmanTable::new(&l, &[k as u8])
}
fn emit<W: JfifWrite>(w: &mut JfifWriter<W>) -> Result<(), EncodingError> {
    key_set(2, 1);
    let r = w.write(&[0]);
    key_set(2, 0);
    r
}
// ---- operations replaced during the abstract run ----
pub fn m__fdct(data: &mut [i16; 64]) {
    let s = spec();
    let mut id = s.tags;
    if light() && id == MAXB - 1 {
        // tags are reused: the identity of blocks is not followed in the large images
        s.tags = 1;
        id = 1;
    }
    s.tags += 1;
    dat_set(10 + id, *data);
    let mut i = 0;
    while i < 64 {
        data[i] = (id * 64 + i) as i16;
        i += 1;
    }
}
pub fn m__QuantizationTable__quantize(t: &QuantizationTable, v: i16, index: usize) -> i16 {
    let s = spec();
    check("C14:each coefficient is divided by its own table entry", (v & 63) as usize == index);
    let g = t.get(index) as usize;
    let q = if g == index + 1 { 1 } else if g == index + 100 { 2 } else { 9 };
    check("C14:the divisor in use is the table value", q < 9);
    let id = (v >> 6) as usize;
    check("C14:the tables of a block are not mixed", s.tag_tq[id] == 0 || s.tag_tq[id] == q);
    s.tag_tq[id] = q;
    v
}
pub fn m__JfifWriter__write_block<W: JfifWrite>(w: &mut JfifWriter<W>, block: &[i16; 64], prev_dc: i16, dc: &HuffmanTable, ac: &HuffmanTable) -> Result<(), EncodingError> {
    coded(block, Some((prev_dc, dc)), Some(ac), 0, 64);
    emit(w)
}
pub fn m__JfifWriter__write_dc<W: JfifWrite>(w: &mut JfifWriter<W>, value: i16, prev_dc: i16, dc: &HuffmanTable) -> Result<(), EncodingError> {
    let mut b = [0i16; 64];
    b[0] = value;
    coded(&b, Some((prev_dc, dc)), None, 0, 1);
    emit(w)
}
pub fn m__JfifWriter__write_ac_block<W: JfifWrite>(w: &mut JfifWriter<W>, block: &[i16; 64], start: usize, end: usize, ac: &HuffmanTable) -> Result<(), EncodingError> {
    coded(block, None, Some(ac), start, end);
    emit(w)
}
pub fn m__JfifWriter__finalize_bit_buffer<W: JfifWrite>(w: &mut JfifWriter<W>) -> Result<(), EncodingError> {
    let m = mon();
    check("C03:padding ends a scan or restart interval", m.in_scan && !m.padded);
    m.padded = true;
    emit(w)
}
// ---- abstract image ----
pub struct Img {
    pub color: JpegColorType,
    pub n: usize,
    pub w: u16,
    pub h: u16,
}
impl ImageBuffer for Img {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.color
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let s = spec();
        check("C22:only rows of the image are requested", y < self.h);
        if y as usize == s.next_row {
            s.next_row += 1;
        } else {
            check("C22:rows are requested in order, the last one repeated", y == self.h - 1 && s.next_row == self.h as usize);
        }
        let mut c = 0;
        while c < self.n {
            let mut x = 0;
            while x < self.w as usize {
                buffers[c].push(if light() { 7 } else { pixel(c, x, y as usize) });
                x += 1;
            }
            c += 1;
        }
    }
}
pub fn table(first: u16) -> QuantizationTableType {
    let mut t = [0u16; 64];
    let mut i = 0;
    while i < 64 {
        t[i] = i as u16 + first;
        i += 1;
    }
    QuantizationTableType::Custom(Box::new(t))
}
