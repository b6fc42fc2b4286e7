//! Configuration, input validation and application segments. No operation is replaced here.
use super::api::*;
use super::mon::*;
use crate::*;
use alloc::boxed::Box;
use alloc::vec::Vec;

fn factor(i: i64) -> (SamplingFactor, u8, u8) {
    match i {
        0 => (SamplingFactor::F_1_1, 1, 1),
        1 => (SamplingFactor::F_2_1, 2, 1),
        2 => (SamplingFactor::F_1_2, 1, 2),
        3 => (SamplingFactor::F_2_2, 2, 2),
        4 => (SamplingFactor::F_4_1, 4, 1),
        5 => (SamplingFactor::F_4_2, 4, 2),
        6 => (SamplingFactor::F_1_4, 1, 4),
        7 => (SamplingFactor::F_2_4, 2, 4),
        8 => (SamplingFactor::R_4_4_4, 1, 1),
        9 => (SamplingFactor::R_4_2_2, 2, 1),
        10 => (SamplingFactor::R_4_4_0, 1, 2),
        11 => (SamplingFactor::R_4_2_0, 2, 2),
        12 => (SamplingFactor::R_4_1_1, 4, 1),
        13 => (SamplingFactor::R_4_1_0, 4, 2),
        14 => (SamplingFactor::R_4_4_1, 1, 4),
        _ => (SamplingFactor::R_4_2_1, 2, 4),
    }
}
pub fn format(i: i64) -> (ColorType, usize) {
    match i {
        0 => (ColorType::Luma, 1),
        1 => (ColorType::Rgb, 3),
        2 => (ColorType::Rgba, 4),
        3 => (ColorType::Bgr, 3),
        4 => (ColorType::Bgra, 4),
        5 => (ColorType::Ycbcr, 3),
        6 => (ColorType::Cmyk, 4),
        7 => (ColorType::CmykAsYcck, 4),
        _ => (ColorType::Ycck, 4),
    }
}
/// small image whose samples are all 128: every coefficient is zero
struct Flat(JpegColorType, usize, u16, u16);
impl ImageBuffer for Flat {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.0
    }
    fn width(&self) -> u16 {
        self.2
    }
    fn height(&self) -> u16 {
        self.3
    }
    fn fill_buffers(&self, _y: u16, buffers: &mut [Vec<u8>; 4]) {
        for c in 0..self.1 {
            for _ in 0..self.2 {
                buffers[c].push(128);
            }
        }
    }
}
fn jcolor(i: i64) -> (JpegColorType, usize) {
    match i {
        0 => (JpegColorType::Luma, 1),
        1 => (JpegColorType::Ycbcr, 3),
        2 => (JpegColorType::Cmyk, 4),
        _ => (JpegColorType::Ycck, 4),
    }
}
// ---------------------------------------------------------------- C20
#[derive(Clone, Copy)]
struct Cfg {
    d: Density,
    s: SamplingFactor,
    q: (i64, i64),
    p: Option<u8>,
    r: Option<u16>,
    o: bool,
}
fn table_id(t: &QuantizationTableType) -> i64 {
    match t {
        QuantizationTableType::Default => 0,
        QuantizationTableType::Flat => 1,
        QuantizationTableType::CustomMsSsim => 2,
        QuantizationTableType::CustomPsnrHvs => 3,
        QuantizationTableType::ImageMagick => 4,
        QuantizationTableType::KleinSilversteinCarney => 5,
        QuantizationTableType::DentalXRays => 6,
        QuantizationTableType::VisualDetectionModel => 7,
        QuantizationTableType::ImprovedDetectionModel => 8,
        QuantizationTableType::Custom(t) => 100 + t[0] as i64 + t[63] as i64,
    }
}
fn cfg<W: JfifWrite>(e: &Encoder<W>) -> Cfg {
    let q = e.quantization_tables();
    Cfg { d: e.density(), s: e.sampling_factor(), q: (table_id(&q[0]), table_id(&q[1])), p: e.progressive_scans(), r: e.restart_interval(), o: e.optimized_huffman_tables() }
}
fn eq_density(a: Density, b: Density) -> bool {
    match (a, b) {
        (Density::None, Density::None) => true,
        (Density::Inch { x, y }, Density::Inch { x: u, y: v }) => x == u && y == v,
        (Density::Centimeter { x, y }, Density::Centimeter { x: u, y: v }) => x == u && y == v,
        _ => false,
    }
}
fn eq_opt8(a: Option<u8>, b: Option<u8>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}
fn eq_opt16(a: Option<u16>, b: Option<u16>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}
/// all settings of `a` but the i-th equal those of `b`
fn others_equal(a: &Cfg, b: &Cfg, i: i64) {
    check("C20:a setter leaves the density alone", i == 0 || eq_density(a.d, b.d));
    check("C20:a setter leaves the sampling factor alone", i == 1 || a.s as u8 == b.s as u8);
    check("C20:a setter leaves the quantization tables alone", i == 2 || (a.q.0 == b.q.0 && a.q.1 == b.q.1));
    check("C20:a setter leaves the progressive setting alone", i == 3 || i == 4 || eq_opt8(a.p, b.p));
    check("C20:a setter leaves the restart interval alone", i == 5 || eq_opt16(a.r, b.r));
    check("C20:a setter leaves the optimization setting alone", i == 6 || a.o == b.o);
}
fn any_density(i: i64) -> Density {
    match i {
        0 => Density::None,
        1 => Density::Inch { x: any(), y: any() },
        _ => Density::Centimeter { x: any(), y: any() },
    }
}
pub fn h_defaults() {
    let (a, b) = (part(7), part(7));
    let q: u8 = any();
    let e = Encoder::new(Sink, q);
    let c = cfg(&e);
    check("C20:default density", eq_density(c.d, Density::None));
    let f = if q < 90 { SamplingFactor::F_2_2 } else { SamplingFactor::F_1_1 };
    check("C20:default sampling factor follows the quality", c.s as u8 == f as u8);
    check("C20:default quantization tables", c.q.0 == 0 && c.q.1 == 0);
    check("C20:sequential by default", eq_opt8(c.p, None));
    check("C20:no restarts by default", eq_opt16(c.r, None));
    check("C20:no optimization by default", !c.o);
    // factors
    let h = if a < 6 { a as u8 } else { any_in(6, 255) as u8 };
    let v = if b < 6 { b as u8 } else { any_in(6, 255) as u8 };
    let r = SamplingFactor::from_factors(h, v);
    let listed = (h == 1 && (v == 1 || v == 2 || v == 4)) || (h == 2 && (v == 1 || v == 2 || v == 4)) || (h == 4 && (v == 1 || v == 2));
    check("C20:exactly the supported pairs of factors are accepted", r.is_some() == listed);
    if let Some(s) = r {
        let mut i = 0;
        while i < 8 {
            let (f, a, b) = factor(i);
            if h == a && v == b {
                check("C20:a pair of factors selects its sampling factor", s as u8 == f as u8);
            }
            i += 1;
        }
    }
}
pub fn h_setters() {
    // the other settings are arbitrary; one setter is called on top
    let which = part(7);
    let st = part(3);
    let mut e = Encoder::new(Sink, any());
    e.set_density(any_density(st));
    e.set_sampling_factor(factor(5 + st).0);
    e.set_quantization_tables(QuantizationTableType::Flat, QuantizationTableType::ImageMagick);
    match st {
        0 => {}
        1 => e.set_progressive(true),
        _ => {
            let n = any_in(2, 64) as u8;
            e.set_progressive_scans(n);
        }
    }
    e.set_restart_interval(if st == 0 { 0 } else { any_in(1, 65535) as u16 });
    e.set_optimized_huffman_tables(st == 1);
    let before = cfg(&e);
    match which {
        0 => {
            let d = any_density(part(3));
            e.set_density(d);
            check("C20:density reads back", eq_density(e.density(), d));
        }
        1 => {
            let (f, _, _) = factor(part(16));
            e.set_sampling_factor(f);
            check("C20:sampling factor reads back", e.sampling_factor() as u8 == f as u8);
        }
        2 => {
            let mut t = [0u16; 64];
            t[0] = any();
            t[63] = any();
            let u = [any::<u16>(); 64];
            let (x, y) = (100 + t[0] as i64 + t[63] as i64, 100 + u[0] as i64 + u[63] as i64);
            if part(2) == 0 {
                e.set_quantization_tables(QuantizationTableType::Custom(Box::new(t)), QuantizationTableType::Custom(Box::new(u)));
                let c = cfg(&e);
                check("C20:quantization tables read back", c.q.0 == x && c.q.1 == y);
            } else {
                e.set_quantization_tables(QuantizationTableType::DentalXRays, QuantizationTableType::Custom(Box::new(t)));
                let c = cfg(&e);
                check("C20:quantization tables read back", c.q.0 == 6 && c.q.1 == x);
            }
        }
        3 => {
            let b = part(2) == 1;
            e.set_progressive(b);
            check("C20:progressive mode means 4 scans", eq_opt8(e.progressive_scans(), if b { Some(4) } else { None }));
        }
        4 => {
            let n = any_in(2, 64) as u8;
            e.set_progressive_scans(n);
            check("C20:number of scans reads back", eq_opt8(e.progressive_scans(), Some(n)));
        }
        5 => {
            let n = if part(2) == 0 { 0 } else { any_in(1, 65535) as u16 };
            e.set_restart_interval(n);
            check("C20:interval 0 means no restarts, others read back", eq_opt16(e.restart_interval(), if n == 0 { None } else { Some(n) }));
        }
        _ => {
            let b = part(2) == 1;
            e.set_optimized_huffman_tables(b);
            check("C20:optimization setting reads back", e.optimized_huffman_tables() == b);
        }
    }
    let after = cfg(&e);
    others_equal(&before, &after, which);
    reached("setter");
}
/// scan counts outside 2..64: the call does not return
pub fn h_badscans() {
    let mut e = Encoder::new(Sink, 80);
    let n: u8 = any();
    assume(n < 2 || n > 64);
    reached("bad scan count");
    e.set_progressive_scans(n);
    fail("C20:scan counts outside 2..64 are refused");
}
/// adding segments changes no setting
pub fn h_addkeeps() {
    let mut e = Encoder::new(Sink, any());
    let b = cfg(&e);
    let n = any_in(0, 1 << 20) as usize;
    let r = e.add_app_segment(any(), any_slice(n));
    others_equal(&cfg(&e), &b, 9);
    let n = any_in(0, 1 << 10) as usize;
    let r2 = e.add_icc_profile(any_slice(n));
    others_equal(&cfg(&e), &b, 9);
    reached("segments added");
}
/// accepts everything
struct Null;
impl JfifWrite for Null {
    fn write_all(&mut self, _b: &[u8]) -> Result<(), EncodingError> {
        Ok(())
    }
}
/// nothing replaced: every vector instruction of an encode is behind the run-time test
pub fn h_gate() {
    let on = part(2);
    let mode = part(4);
    let via = part(3);
    assume_avx2(on);
    let mut e = Encoder::new(Null, 60);
    e.set_sampling_factor(if via == 2 { SamplingFactor::F_2_2 } else { SamplingFactor::F_1_1 });
    e.set_optimized_huffman_tables(mode & 1 > 0);
    if mode >= 2 {
        e.set_progressive(true);
    }
    let (c, n) = jcolor(if mode == 1 { 0 } else { 1 });
    let r = match via {
        0 => e.encode(&[128u8; 8 * 3 * 9], 9, 8, ColorType::Rgb),
        1 => e.encode_image(Flat(c, n, 8, 9)),
        _ => e.encode_image(Flat(c, n, 17, 3)),
    };
    check("C19:the encode is complete", r.is_ok());
    reached("encode");
}
// ---------------------------------------------------------------- C08
/// sink that ends the analysis at the first byte
struct Probe;
impl JfifWrite for Probe {
    fn write_all(&mut self, _b: &[u8]) -> Result<(), EncodingError> {
        let (w, h, len, req): (u16, u16, usize, usize) = dat_get(30);
        check("C08:nothing is written for short data", len >= req);
        check("C08:nothing is written for zero dimensions", w > 0 && h > 0);
        reached("valid input starts a stream");
        stop();
        Ok(())
    }
}
pub fn h_input() {
    let (ct, bpp) = format(part(9));
    let mode = part(4);
    assume_avx2(mode & 1);
    let zero = part(4);
    let w = if zero & 1 > 0 { 0 } else { any_in(1, 65535) as u16 };
    let h = if zero & 2 > 0 { 0 } else { any_in(1, 65535) as u16 };
    let len = any_in(0, 1 << 40) as usize;
    let req = w as usize * h as usize * bpp;
    let data = any_slice(len);
    dat_set(30, (w, h, len, req));
    let mut e = Encoder::new(Probe, 80);
    // the validity of input does not depend on settings
    if mode >= 2 {
        e.set_restart_interval(5);
        e.set_sampling_factor(SamplingFactor::F_1_1);
        e.set_density(Density::Inch { x: 3, y: 4 });
    }
    let r = e.encode(data, w, h, ct);
    // only reached when nothing was written
    match r {
        Err(EncodingError::BadImageData { length, required }) => {
            check("C08:the bad-data error means short data", len < req);
            check("C08:the bad-data error reports both lengths", length == len && required == req);
            reached("bad data");
        }
        Err(EncodingError::ZeroImageDimensions { width, height }) => {
            check("C08:the zero-dimension error means a zero dimension", w == 0 || h == 0);
            check("C08:the zero-dimension error reports both dimensions", width == w && height == h);
            check("C08:short data is reported as such", len >= req);
            reached("zero dimension");
        }
        _ => fail("C08:valid input is not rejected and produces output"),
    }
}
/// zero dimensions of a caller's image buffer
pub fn h_input_buffer() {
    let (c, n) = jcolor(part(4));
    let mode = part(4);
    assume_avx2(mode & 1);
    let zero = 1 + part(3);
    let w = if zero & 1 > 0 { 0 } else { any_in(1, 65535) as u16 };
    let h = if zero & 2 > 0 { 0 } else { any_in(1, 65535) as u16 };
    dat_set(30, (w, h, 0usize, 0usize));
    let mut e = Encoder::new(Probe, 80);
    if mode & 1 > 0 {
        e.set_progressive(true);
    }
    if mode & 2 > 0 {
        e.set_optimized_huffman_tables(true);
    }
    match e.encode_image(Flat(c, n, w, h)) {
        Err(EncodingError::ZeroImageDimensions { width, height }) => {
            check("C08:the zero-dimension error reports both dimensions", width == w && height == h);
            reached("zero dimension");
        }
        _ => fail("C08:zero dimensions are rejected with their error"),
    }
}
/// zero dimensions in the other modes, through both entry points
pub fn h_input_modes() {
    let (ct, _) = format(part(9));
    let mode = 1 + part(3);
    let n: u16 = any();
    let (w, h) = match part(3) {
        0 => (0, n),
        1 => (n, 0),
        _ => (0, 0),
    };
    assume_avx2(mode & 1);
    dat_set(30, (w, h, 7usize, 0usize));
    let mut e = Encoder::new(Probe, 80);
    if mode & 1 > 0 {
        e.set_progressive(true);
    }
    if mode & 2 > 0 {
        e.set_optimized_huffman_tables(true);
    }
    match e.encode(any_slice(7), w, h, ct) {
        Err(EncodingError::ZeroImageDimensions { width, height }) => {
            check("C08:the zero-dimension error reports both dimensions", width == w && height == h);
            reached("zero dimension");
        }
        _ => fail("C08:zero dimensions are rejected with their error"),
    }
}
/// short data in the other modes
pub fn h_input_short() {
    let (ct, bpp) = format(part(9));
    let mode = 1 + part(3);
    assume_avx2(mode & 1);
    let (w, h): (u16, u16) = (any(), any());
    let len = any_in(0, 1 << 40) as usize;
    let req = w as usize * h as usize * bpp;
    assume(len < req);
    dat_set(30, (w, h, len, req));
    let mut e = Encoder::new(Probe, 80);
    if mode & 1 > 0 {
        e.set_progressive(true);
    }
    if mode & 2 > 0 {
        e.set_optimized_huffman_tables(true);
    }
    match e.encode(any_slice(len), w, h, ct) {
        Err(EncodingError::BadImageData { length, required }) => {
            check("C08:the bad-data error reports both lengths", length == len && required == req);
            reached("bad data");
        }
        _ => fail("C08:short data is rejected with its error"),
    }
}
// ---------------------------------------------------------------- C02
/// sink that ends the analysis after the frame header
struct Front;
impl JfifWrite for Front {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        let m = mon();
        for x in b {
            m.byte(*x);
        }
        if m.n_sof > 0 && m.st == S_MARK {
            let (w, h): (u16, u16) = dat_get(30);
            check("C02:frame dimensions and precision", m.width == w && m.height == h && m.prec == 8);
            reached("frame header");
            stop();
        }
        Ok(())
    }
}
/// every width and height
pub fn h_dims() {
    let (c, n) = jcolor(part(4));
    let fi = part(4);
    let mut m = Mon::new();
    dat_set(0, &mut m as *mut Mon);
    let (w, h) = (any_in(1, 65535) as u16, any_in(1, 65535) as u16);
    dat_set(30, (w, h));
    let mut e = Encoder::new(Front, 50);
    e.set_sampling_factor(factor(fi).0);
    let _ = e.encode_image(Flat(c, n, w, h));
    fail("C02:a frame header is written");
}
// ---------------------------------------------------------------- C09
fn stream<R>(r: Result<(), R>) {
    let m = mon();
    check("C07:encoding succeeds when every write succeeds", r.is_ok());
    check("C01:the stream ends with EOI", m.st == S_END);
    reached("complete encode");
}
pub fn h_app() {
    // acceptance
    let mut e = Encoder::new(Sink, 50);
    let nr = match part(3) {
        0 => 0,
        1 => any_in(1, 15) as u8,
        _ => any_in(16, 255) as u8,
    };
    let n = if part(2) == 0 { any_in(0, 65533) } else { any_in(65534, 1 << 40) } as usize;
    let r = e.add_app_segment(nr, any_slice(n));
    match r {
        Ok(()) => {
            check("C09:only segment numbers 1 to 15 are accepted", nr >= 1 && nr <= 15);
            check("C09:only payloads of at most 65533 bytes are accepted", n <= 65533);
            reached("accepted");
        }
        Err(EncodingError::InvalidAppSegment(x)) => {
            check("C09:the segment number error means a bad number", x == nr && (nr == 0 || nr > 15));
            reached("bad number");
        }
        Err(EncodingError::AppSegmentTooLarge(x)) => {
            check("C09:the size error means too large a payload", x == n && n > 65533);
            reached("too large");
        }
        _ => fail("C09:adding a segment fails with its own errors only"),
    }
}
/// up to three segments around each other, refused ones in between
pub fn h_app_stream() {
    let ci = part(4);
    let k = part(4);
    let prog = part(2);
    let empty = part(4);
    if empty > k {
        return;
    }
    let (c, nc) = jcolor(ci);
    let mut m = Mon::new();
    dat_set(0, &mut m as *mut Mon);
    key_set(5, 1);
    key_set(6, 1);
    let mut e = Encoder::new(Sink, 50);
    e.set_sampling_factor(SamplingFactor::F_1_1);
    if prog == 1 {
        e.set_progressive_scans(2);
    }
    let own = if ci >= 2 { 2 } else { 1 };
    let mut nrs = [0u8; 4];
    let mut i = 0;
    while i < k {
        // a refused segment leaves no trace
        if i == 1 {
            let bad = any_in(65534, 1 << 30) as usize;
            check("C09:too large a payload is refused", e.add_app_segment(3, any_slice(bad)).is_err());
            check("C09:number 0 is refused", e.add_app_segment(0, any_slice(3)).is_err());
            let big = any_in(255, 1 << 24) as usize * CHUNK + any_in(1, CHUNK as i64 - 1) as usize;
            check("C09:too large a profile is refused", e.add_icc_profile(any_slice(big)).is_err());
        }
        let nr = any_in(1, 15) as u8;
        // one of them may be empty
        let n = if empty == i + 1 { 0 } else { any_in(1, 65533) as usize };
        let d = any_slice(n);
        check("C09:valid segments are accepted", e.add_app_segment(nr, d).is_ok());
        nrs[i as usize] = nr;
        dat_set(40 + own + i as usize - 1, d);
        i += 1;
    }
    let r = e.encode_image(Flat(c, nc, 3, 2));
    stream(r);
    let m = mon();
    check("C09:every accepted segment and no other is written", m.n_app == own + k as usize);
    let mut i = 0;
    while i < k as usize {
        check("C09:segments keep their number", m.app[own + i] == 0xE0 + nrs[i]);
        i += 1;
    }
}
pub fn h_icc_limit() {
    let mut e = Encoder::new(Sink, 50);
    let (q, r) = if part(2) == 0 { (any_in(255, 1 << 24), any_in(1, CHUNK as i64 - 1)) } else { (any_in(256, 1 << 24), 0) };
    let n = q as usize * CHUNK + r as usize;
    match e.add_icc_profile(any_slice(n)) {
        Err(EncodingError::IccTooLarge(x)) => check("C09:the profile size error reports the size", x == n),
        _ => fail("C09:profiles above 16,707,345 bytes are refused with their error"),
    }
    reached("too large profile");
}
const CHUNK: usize = 65519;
/// profile of n chunks, the last of any length
pub fn h_icc() {
    let full = [0usize, 1, 2, 9, 63, 126, 127, 128, 200, 253, 254][part(11) as usize];
    icc_full(full)
}
/// every number of chunks
pub fn h_icc_all() {
    let full = part(255) as usize;
    icc_full(full)
}
fn icc_full(full: usize) {
    let last = match part(3) {
        0 => CHUNK,
        1 => any_in(1, CHUNK as i64 - 14) as usize,
        _ => any_in(CHUNK as i64 - 13, CHUNK as i64 - 1) as usize,
    };
    let n = full * CHUNK + last;
    icc(n, full + 1);
}
pub fn icc(n: usize, chunks: usize) {
    let mut m = Mon::new();
    dat_set(0, &mut m as *mut Mon);
    key_set(5, 1);
    key_set(7, 1);
    let mut e = Encoder::new(Sink, 50);
    let d = any_slice(n);
    dat_set(31, d);
    dat_set(32, chunks);
    let r = e.add_icc_profile(d);
    check("C09:profiles up to 16,707,345 bytes are accepted", r.is_ok());
    let r = e.encode_image(Flat(JpegColorType::Luma, 1, 1, 1));
    stream(r);
    let m = mon();
    check("C09:the profile has the number of chunks announced", m.n_app == 1 + chunks);
}
/// no profile data: no segment
pub fn h_icc_empty() {
    icc(0, 0);
}
