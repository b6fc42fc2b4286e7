//! Bit writer: the bytes handed to the sink are compared with the bits written, byte stuffing and padding.
//! Data is a sequence of bytes d[0..], each either 0xFF or any other value; the calls cut it into pieces
//! at every alignment.
use super::api::*;
use crate::writer::JfifWriter;
use crate::*;

const N: usize = 16;
struct St {
    out: [i64; 64],
    n: usize,
    exp: [i64; 64],
    m: usize,
    d: [i64; N],
}
fn st() -> &'static mut St {
    let p: *mut St = dat_get(22);
    unsafe { &mut *p }
}
struct Rec;
impl JfifWrite for Rec {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        let s = st();
        if key_get(1) == 1 {
            check("C07:no write after a failed write", key_get(0) == 0);
            if any::<bool>() {
                key_set(0, 1);
                return Err(EncodingError::Write(alloc::string::String::new()));
            }
        }
        for x in b {
            check("C03:no more bytes than the data needs", s.n < 60);
            s.out[s.n] = *x as i64;
            s.n += 1;
        }
        Ok(())
    }
}
/// bits [a, a + n) of the data
fn piece(a: usize, n: usize) -> i64 {
    let s = st();
    let mut v = 0i64;
    let mut p = a;
    while p < a + n {
        let left = 8 - p % 8;
        let w = if a + n - p < left { a + n - p } else { left };
        let part = (s.d[p / 8] >> (left - w)) & ((1 << w) - 1);
        v = (v << w) + part;
        p += w;
    }
    v
}
fn put(w: &mut JfifWriter<Rec>, at: &mut usize, n: usize) {
    if n == 0 {
        return;
    }
    let v = piece(*at, n);
    check("C03:writing bits succeeds", w.write_bits(v as u32, n as u8).is_ok());
    *at += n;
}
fn fresh_data(ff: i64) {
    let s = st();
    let mut i = 0;
    while i < N {
        s.d[i] = if (ff >> i) & 1 == 1 { 255 } else { any_in(0, 254) };
        i += 1;
    }
}
/// bytes expected for the first `bits` bits
fn expect(bits: usize) {
    let s = st();
    let mut i = 0;
    while i < bits / 8 {
        s.exp[s.m] = s.d[i];
        s.m += 1;
        if is_const(s.d[i]) && s.d[i] == 255 {
            s.exp[s.m] = 0;
            s.m += 1;
        }
        i += 1;
    }
    let r = bits % 8;
    if r > 0 {
        let v = (piece(bits - r, r) << (8 - r)) + (1 << (8 - r)) - 1;
        s.exp[s.m] = v;
        s.m += 1;
        if is_const(v) && v == 255 {
            s.exp[s.m] = 0;
            s.m += 1;
        } else {
            // the bits are not all ones: told by the caller's choice of data
            assume(v != 255);
        }
    }
}
fn compare() {
    let s = st();
    // whatever the data: a byte that may be 0xFF is followed by a zero byte
    let mut i = 0;
    while i < s.n {
        let v = s.out[i];
        let ok = proved(v != 255) || (i + 1 < s.n && same(s.out[i + 1], 0));
        check_v("C01:an 0xFF byte of coded data is followed by a zero byte", ok, v, i as i64);
        i += 1;
    }
    check("C03:no byte is lost or added", s.n == s.m);
    let mut i = 0;
    while i < s.m {
        check_v("C03:bits appear in order with stuffing and padding", same(s.out[i], s.exp[i]), s.out[i], s.exp[i]);
        i += 1;
    }
}
fn init() -> JfifWriter<Rec> {
    let m = alloc::boxed::Box::new(St { out: [0; 64], n: 0, exp: [0; 64], m: 0, d: [0; N] });
    dat_set(22, alloc::boxed::Box::into_raw(m));
    JfifWriter::new(Rec)
}
const FILL: [usize; 8] = [27, 16, 9, 3, 1, 32, 5, 13];
/// one call of every size at every fill level
fn step(fill: usize, size: usize, ff: i64) {
    let mut w = init();
    fresh_data(ff);
    let mut at = 0;
    // reach the fill level
    let mut k = size;
    while at < fill {
        let n = FILL[k % 8].min(fill - at);
        put(&mut w, &mut at, n);
        k += 1;
    }
    put(&mut w, &mut at, size);
    // and on to the end of a byte beyond the next buffer
    let end = if at > 64 { at } else { 64 + size % 24 };
    while at < end {
        let n = FILL[k % 8].min(end - at);
        put(&mut w, &mut at, n);
        k += 1;
    }
    expect(at);
    check("C03:padding succeeds", w.finalize_bit_buffer().is_ok());
    compare();
    // a second stretch starts clean
    fresh_data(ff >> 3);
    let mut at = 0;
    put(&mut w, &mut at, 1 + size % 20);
    expect(at);
    check("C03:padding succeeds", w.finalize_bit_buffer().is_ok());
    compare();
    reached("bit sequence");
}
fn ffs(i: i64, f: i64) -> i64 {
    match i {
        0 => 0,
        1 => 0xFFFF,
        2 => 1 << (f % 8),
        3 => 0x5555 << (f & 1),
        4 => 3 << (f % 8),
        5 => 0xFEFF ^ (1 << (f % 8)),
        6 => 0x81,
        _ => 0xFF00,
    }
}
/// all patterns of 0xFF bytes in a buffer
pub fn h_ff() {
    let ff = part(256);
    let mut k = 0;
    while k < 4 {
        step([64usize, 61, 40, 13][k], [1usize, 7, 25, 16][k], ff * 257 & 0xFFFF);
        k += 1;
    }
}
/// short stretches: padding of every number of bits, with ones and with other data
pub fn h_pad() {
    let n = part(40) as usize;
    let f = part(4);
    let mut w = init();
    fresh_data(ffs(f, n as i64 / 8));
    let mut at = 0;
    let a = n / 2;
    put(&mut w, &mut at, a);
    put(&mut w, &mut at, n - a);
    expect(at);
    check("C03:padding succeeds", w.finalize_bit_buffer().is_ok());
    compare();
    // nothing pending: padding adds nothing
    check("C03:padding succeeds", w.finalize_bit_buffer().is_ok());
    compare();
    reached("padding");
}
pub fn h_bits_all() {
    let fill = part(65) as usize;
    let f = part(8);
    let mut size = 1;
    while size <= 32 {
        step(fill, size, ffs(f, fill as i64 * 3 + size as i64));
        size += 1;
    }
}
/// any write of the bit writer may fail
pub fn h_bits_fail() {
    let f = part(8);
    let size = [32usize, 25, 17, 9][part(4) as usize];
    let mut w = init();
    set_unroll_cap(100000);
    fresh_data(ffs(f, f));
    key_set(1, 1);
    let mut at = 0;
    while at + size <= 100 {
        let v = piece(at, size);
        let r = w.write_bits(v as u32, size as u8);
        at += size;
        if key_get(0) == 1 {
            check("C07:a failed write is reported as an error", r.is_err());
            reached("failed write");
            return;
        }
        check("C07:writing succeeds when the sink does", r.is_ok());
    }
    expect(at);
    let r = w.finalize_bit_buffer();
    if key_get(0) == 1 {
        check("C07:a failed write is reported as an error", r.is_err());
        reached("failed write");
        return;
    }
    check("C07:writing succeeds when the sink does", r.is_ok());
    compare();
    reached("bits");
}
