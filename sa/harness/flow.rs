use super::api::*;
use super::flow_spec::*;
use super::mon::*;
use crate::*;

fn avx2(on: i64) {
    assume_avx2(on);
    key_set(23, on);
}
fn color(i: i64) -> (JpegColorType, usize) {
    match i {
        0 => (JpegColorType::Luma, 1),
        1 => (JpegColorType::Ycbcr, 3),
        2 => (JpegColorType::Cmyk, 4),
        _ => (JpegColorType::Ycck, 4),
    }
}
fn sampling(i: i64) -> (SamplingFactor, u8, u8) {
    match i {
        0 => (SamplingFactor::F_1_1, 1, 1),
        1 => (SamplingFactor::F_2_1, 2, 1),
        2 => (SamplingFactor::F_1_2, 1, 2),
        3 => (SamplingFactor::F_2_2, 2, 2),
        4 => (SamplingFactor::F_4_1, 4, 1),
        5 => (SamplingFactor::F_4_2, 4, 2),
        6 => (SamplingFactor::F_1_4, 1, 4),
        7 => (SamplingFactor::F_2_4, 2, 4),
        8 => (SamplingFactor::R_4_4_4, 1, 1),
        9 => (SamplingFactor::R_4_2_2, 2, 1),
        10 => (SamplingFactor::R_4_4_0, 1, 2),
        11 => (SamplingFactor::R_4_2_0, 2, 2),
        12 => (SamplingFactor::R_4_1_1, 4, 1),
        13 => (SamplingFactor::R_4_1_0, 4, 2),
        14 => (SamplingFactor::R_4_4_1, 1, 4),
        _ => (SamplingFactor::R_4_2_1, 2, 4),
    }
}
/// one abstract encode; all requirements on the result
fn run(ci: i64, si: i64, mode: i64, scans: u8, w: usize, h: usize, interval: u16, density: Density) {
    set_ite(0);
    let (color, n) = color(ci);
    let (sf, hs, vs) = sampling(si);
    let mut m = Mon::new();
    dat_set(0, &mut m as *mut Mon);
    let mut s = Spec::new(w, h, interval as usize);
    dat_set(1, &mut s as *mut Spec);
    key_set(3, 1);
    let mut e = Encoder::new(Sink, any());
    e.set_sampling_factor(sf);
    e.set_quantization_tables(table(1), table(100));
    e.set_density(density);
    e.set_restart_interval(interval);
    if mode == 1 {
        e.set_optimized_huffman_tables(true);
    }
    if scans > 0 {
        e.set_progressive_scans(scans);
    }
    let extra = key_get(22);
    if extra > 0 {
        // further segments
        check("C09:valid segments are accepted", e.add_app_segment(5, any_slice(3)).is_ok() && e.add_app_segment(15, any_slice(2)).is_ok());
        check("C09:profiles up to 16,707,345 bytes are accepted", e.add_icc_profile(any_slice(4)).is_ok());
    }
    let extra = extra as usize;
    let fmt = key_get(20);
    let r = if fmt > 0 {
        let s = spec();
        s.fmt = fmt;
        s.data = any_slice(w * h * bpp(fmt - 1) + if w % 2 == 0 { any_in(0, 1000) as usize } else { 0 });
        s.next_row = h;
        e.encode(s.data, w as u16, h as u16, format(fmt - 1))
    } else {
        e.encode_image(Img { color, n, w: w as u16, h: h as u16 })
    };
    let m = mon();
    let s = spec();
    if key_get(0) == 1 {
        check("C07:a failed write is reported as an error", r.is_err());
        reached("failed-write path");
        return;
    }
    check("C07:encoding succeeds when every write succeeds", r.is_ok());
    check("C01:the stream ends with EOI", m.st == S_END);
    check("C07:success means the stream is complete", m.st == S_END);
    check("C07:the sink is flushed before success is reported", key_get(4) == 1);
    check("anchor:block coder", s.hits > 0);
    reached("complete encode");
    if mode == 1 {
        check("C17:optimized tables are made when requested", s.n_opt == if n == 1 { 2 } else { 4 });
        check_counts();
    } else {
        check("C17:no optimized tables unless requested", s.n_opt == 0);
    }
    // header
    check("C02:frame dimensions and precision", m.width == w as u16 && m.height == h as u16 && m.prec == 8);
    check("C02:coding process", m.sof == if scans > 0 { 0xC2 } else { 0xC0 });
    check("C02:number of components", m.nc == n);
    let mut i = 0;
    while i < n {
        let c = &m.comps[i];
        let full = match ci {
            0 => false,
            1 => i == 0,
            2 => i == 3,
            _ => i == 0 || i == 3,
        };
        check("C02:sampling factors", if full { c.h == hs && c.v == vs } else { c.h == 1 && c.v == 1 });
        let tq = match ci {
            2 => (i < 3) as u8,
            _ => (i == 1 || i == 2) as u8,
        };
        check("C02:quantization table selector", c.tq == tq);
        let mut j = 0;
        while j < i {
            check("C02:component identifiers differ", m.comps[j].id != c.id);
            j += 1;
        }
        let mut j = 0;
        while j < 64 {
            check("C05:all coefficients are transmitted", s.cover[i][j] == 1);
            j += 1;
        }
        check("C05:number of scans per component", s.scans[i] == if scans > 0 { scans as usize } else { 1 });
        let t = (c.tq & 3) as usize;
        let mut j = 0;
        while j < 64 {
            check("C14:tables are written in zig-zag order under their number", m.dqt[t][j] as usize == ZZ[j] as usize + if tq == 0 { 1 } else { 100 });
            j += 1;
        }
        i += 1;
    }
    check("C02:restart interval segment", m.n_dri == (interval > 0) as usize && (interval == 0 || m.dri == interval));
    // application headers
    check("C02:JFIF header", m.n_jfif == 1 && m.app_len[0] == 14);
    let j = &m.jfif;
    check("C02:JFIF identifier and version", j[0] == b'J' && j[1] == b'F' && j[2] == b'I' && j[3] == b'F' && j[4] == 0 && j[5] == 1);
    let (u, x, y) = match density {
        Density::None => (0, 1, 1),
        Density::Inch { x, y } => (1, x, y),
        Density::Centimeter { x, y } => (2, x, y),
    };
    check("C02:density unit", j[7] == u);
    check("C02:horizontal density", j[8] as u16 * 256 + j[9] as u16 == x);
    check("C02:vertical density", j[10] as u16 * 256 + j[11] as u16 == y);
    check("C02:no thumbnail", j[12] == 0 && j[13] == 0);
    if ci >= 2 {
        let a = &m.adobe;
        check("C02:Adobe marker of CMYK and YCCK", m.n_adobe == 1 && m.n_app == 2 + extra && m.app_len[1] == 12);
        check("C02:Adobe identifier", a[0] == b'A' && a[1] == b'd' && a[2] == b'o' && a[3] == b'b' && a[4] == b'e');
        check("C02:Adobe transform", a[11] == if ci == 2 { 0 } else { 2 });
    } else {
        check("C02:no Adobe marker otherwise", m.n_adobe == 0 && m.n_app == 1 + extra);
    }
    check("C22:every row was requested", s.next_row == h);
}
/// quick: edge cases of the block geometry; thorough: more of them
pub const DIMS: [(usize, usize); 3] = [(1, 1), (9, 17), (16, 16)];
pub const MORE: [(usize, usize); 11] = [(8, 8), (33, 25), (17, 9), (33, 7), (7, 33), (32, 32), (25, 40), (65, 3), (3, 65), (40, 25), (64, 64)];
fn mode_scans(mode: i64) -> (i64, u8) {
    // sequential, optimized, progressive, progressive optimized
    (mode & 1, if mode >= 2 { 3 } else { 0 })
}
/// geometry: colour type x sampling x mode x dimensions
pub fn h_geom() {
    let ci = part(4);
    let si = part(8);
    let mode = part(3);
    let d = part(4);
    let (w, h) = match (d, si) {
        // at least two MCU rows and columns
        (3, 4) | (3, 5) => (33, 17),
        (3, 6) | (3, 7) => (17, 33),
        (3, _) => (25, 17),
        _ => DIMS[d as usize],
    };
    avx2((ci + si + mode + d) & 1);
    let (mode, scans) = mode_scans(mode);
    run(ci, si, mode, scans, w, h, 0, Density::None);
}
pub fn h_geom_more() {
    let ci = part(4);
    let si = part(8);
    let mode = part(4);
    let d = part(11);
    let (w, h) = MORE[d as usize];
    let (mode, scans) = mode_scans(mode);
    run(ci, si, mode, scans, w, h, 0, Density::None);
}
/// every residue of the image size modulo the MCU size, one direction at a time
pub fn h_edge() {
    let si = part(8);
    let mode = if si < 4 { part(2) } else { 0 };
    let n = 1 + part(34) as usize;
    let vert = part(2) == 1;
    avx2((si + mode + n as i64) & 1);
    let (w, h) = if vert { (1, n) } else { (n, 1) };
    run(1, si, 0, if mode == 1 { 2 } else { 0 }, w, h, 0, Density::None);
}
fn format(i: i64) -> ColorType {
    match i {
        0 => ColorType::Luma,
        1 => ColorType::Rgb,
        2 => ColorType::Rgba,
        3 => ColorType::Bgr,
        4 => ColorType::Bgra,
        5 => ColorType::Ycbcr,
        6 => ColorType::Cmyk,
        7 => ColorType::CmykAsYcck,
        _ => ColorType::Ycck,
    }
}
/// input formats, with and without AVX2
pub fn h_formats() {
    let fmt = part(9);
    let simd = part(2);
    let d = part(6);
    let (w, h) = [(1, 2), (7, 1), (8, 9), (9, 3), (17, 2), (26, 2)][d as usize];
    avx2(simd);
    key_set(20, fmt + 1);
    let ci = match fmt {
        0 => 0,
        6 => 2,
        7 | 8 => 3,
        _ => 1,
    };
    run(ci, if d % 2 == 0 { 0 } else { 3 }, 0, if d == 2 { 2 } else { 0 }, w, h, 0, Density::None);
}
/// every width up to 72, and every residue of the height, in both kinds of scan
pub fn h_formats_all() {
    let fmt = part(9);
    let simd = part(2);
    let prog = part(2);
    let w = 1 + part(72) as usize;
    avx2(simd);
    key_set(20, fmt + 1);
    let ci = match fmt {
        0 => 0,
        6 => 2,
        7 | 8 => 3,
        _ => 1,
    };
    run(ci, (w % 4) as i64, 0, if prog == 1 { 2 } else { 0 }, w, 1 + w * 5 % 17, 0, Density::None);
}
/// aliases of the sampling factors
pub fn h_alias() {
    let si = 8 + part(8);
    let mode = part(4);
    let ci = [1, 3][part(2) as usize];
    avx2((ci + si + mode) & 1);
    let (mode, scans) = mode_scans(mode);
    run(ci, si, mode, scans, 33 - 16 * (si as usize % 2), 17 + 8 * (si as usize / 2 % 2), 0, Density::None);
}
/// settings that do not depend on each other, combined
fn mixed(k: u64) {
    let mut x = k * 2654435761 + 12345;
    let mut next = |n: u64| {
        x = (x * 6364136 + 1442695) % 2305843009;
        (x / 1024 % n) as i64
    };
    let fmt = next(14);
    let mut ci = next(4);
    let si = next(16);
    let mode = next(4);
    let scans = 2 + next(9) * next(8);
    let (mut w, mut h) = (1 + next(48) as usize, 1 + next(48) as usize);
    if next(4) == 0 {
        w = 1 + w / 8;
    }
    if next(4) == 0 {
        h = 1 + h / 8;
    }
    let iv = [0u16, 0, 1, 2, 3, 5, 8, 9, 16, 300][next(10) as usize];
    avx2(next(2));
    if fmt < 9 {
        key_set(20, fmt + 1);
        ci = match fmt {
            0 => 0,
            6 => 2,
            7 | 8 => 3,
            _ => 1,
        };
    }
    let d = match next(3) {
        0 => Density::None,
        1 => Density::Inch { x: any(), y: any() },
        _ => Density::Centimeter { x: any(), y: any() },
    };
    key_set(22, 3 * (k % 3 / 2) as i64);
    let (mode, sc) = mode_scans(mode);
    run(ci, si, mode, if sc > 0 { scans as u8 } else { 0 }, w, h, iv, d);
}
pub fn h_mixed() {
    mixed(part(96) as u64);
}
pub fn h_mixed_more() {
    mixed(96 + part(1500) as u64);
}
/// restart intervals
pub fn h_restart() {
    let ci = part(4);
    let mode = part(4);
    let si = part(2) * 3;
    let iv = [1u16, 2, 3, 7][part(4) as usize];
    avx2((ci + mode + si + iv as i64) & 1);
    let (mode, scans) = mode_scans(mode);
    run(ci, si, mode, scans, 25, 17, iv, Density::None);
}
pub fn h_restart_more() {
    let ci = part(4);
    let mode = part(4);
    let si = part(8);
    let iv = [1u16, 4, 5, 11, 23, 65535][part(6) as usize];
    let (mode, scans) = mode_scans(mode);
    run(ci, si, mode, scans, 49, 33, iv, Density::None);
}
/// more than 256 units, intervals above 255
pub fn h_large() {
    let (w, h, iv) = [(2072, 8, 1u16), (8, 2072, 257), (2072, 8, 256), (8, 4200, 258)][part(4) as usize];
    light_run(w, h, iv, part(4));
}
/// intervals that do not fit in one byte, and the largest one
pub fn h_interval() {
    let mode = part(4);
    let iv = [257u16, 4097, 32769, 65535][part(4) as usize];
    let ci = part(2);
    avx2((mode + ci) & 1);
    let (mode, scans) = mode_scans(mode);
    run(ci, ci * 3, mode, scans, 25, 17, iv, Density::None);
}
/// the largest dimensions
pub fn h_huge() {
    match part(2) {
        0 => light_run(65535, 1, 0, 0),
        _ => light_run(1, 65535, 700, 2),
    }
}
pub fn h_huge_all() {
    let (w, h, iv) = [(65535, 1, 8191u16), (1, 65535, 4096), (65535, 2, 65535)][part(3) as usize];
    light_run(w, h, iv, part(4));
}
fn light_run(w: usize, h: usize, iv: u16, mode: i64) {
    key_set(21, 1);
    avx2(mode & 1);
    let (opt, scans) = mode_scans(mode);
    run(0, 0, opt, if scans > 0 { 2 } else { 0 }, w, h, iv, Density::None);
}
/// scan counts
pub fn h_scans() {
    let scans = 2 + part(63);
    let opt = part(2);
    avx2((scans + opt) & 1);
    run(1, 0, opt, scans as u8, 9, 8, 0, Density::None);
}
pub fn h_scans_more() {
    let scans = 2 + part(63);
    let ci = part(4);
    let opt = part(2);
    run(ci, 3, opt, scans as u8, 9, 17, 0, Density::None);
}
/// densities
pub fn h_density() {
    let d = match part(3) {
        0 => Density::None,
        1 => Density::Inch { x: any(), y: any() },
        _ => Density::Centimeter { x: any(), y: any() },
    };
    run(1, 3, 0, 0, 8, 8, 0, d);
}
/// failing sink
pub fn h_fail() {
    let ci = part(4);
    let mode = part(4);
    let extra = part(2);
    key_set(22, extra * 3);
    key_set(1, 1);
    set_unroll_cap(100000);
    let (mode, scans) = mode_scans(mode);
    run(ci, if extra == 1 { 3 } else { 0 }, mode, scans, if extra == 1 { 17 } else { 9 }, 8, 1, Density::Inch { x: any(), y: any() });
}
