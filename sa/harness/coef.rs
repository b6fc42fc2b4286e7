//! Coefficient coding (T.81 F.1.2, G.1.2). The bit writer is replaced by an operation that compares the
//! bits it is given with those the standard prescribes; a symbol's code is the canonical code of the
//! Annex K table.
use super::api::*;
use super::mon::Sink;
use super::refs::*;
use crate::huffman::HuffmanTable;
use crate::writer::JfifWriter;
use crate::*;

struct Want {
    val: [i64; 300],
    len: [i64; 300],
    n: usize,
    at: usize,
    hits: usize,
}
fn want() -> &'static mut Want {
    let p: *mut Want = dat_get(20);
    unsafe { &mut *p }
}
impl Want {
    fn new() -> Want {
        Want { val: [0; 300], len: [0; 300], n: 0, at: 0, hits: 0 }
    }
    fn put(&mut self, v: i64, n: i64) {
        if n > 0 {
            self.val[self.n] = v;
            self.len[self.n] = n;
            self.n += 1;
        }
    }
    /// code of a symbol
    fn code(&mut self, len: &[u8; 16], val: &[u8], sym: u8) {
        let mut code = 0;
        let mut k = 0;
        let mut i = 0;
        while i < 16 {
            let mut j = 0;
            while j < len[i] {
                if val[k] == sym {
                    self.put(code, i as i64 + 1);
                    return;
                }
                code += 1;
                k += 1;
                j += 1;
            }
            code *= 2;
            i += 1;
        }
        fail("C16:every symbol has a code in the default tables");
    }
    fn extra(&mut self, v: i64, c: i64, neg: bool) {
        self.put(if neg { v + (1 << c) - 1 } else { v }, c);
    }
}
pub fn m__JfifWriter__write_bits<W: JfifWrite>(_w: &mut JfifWriter<W>, value: u32, size: u8) -> Result<(), EncodingError> {
    let s = want();
    s.hits += 1;
    if key_get(1) == 1 {
        check("C07:no write after a failed write", key_get(0) == 0);
        if any::<bool>() {
            key_set(0, 1);
            return Err(EncodingError::Write(alloc::string::String::new()));
        }
    }
    let mut v = value as i64;
    let mut n = size as i64;
    check("C03:bits handed to the bit writer fit their number", n > 0 && n <= 32 && proved(v < (1 << n)));
    while n > 0 {
        check("C18:no bits beyond those of the block", s.at < s.n);
        let (e, m) = (s.val[s.at], s.len[s.at]);
        if n >= m {
            let hi = v >> (n - m);
            check("C18:codes and value bits are those of the standard", same(hi, e));
            v -= hi << (n - m);
            n -= m;
            s.at += 1;
        } else {
            let hi = e >> (m - n);
            check("C18:codes and value bits are those of the standard", same(v, hi));
            s.val[s.at] = e - (hi << (m - n));
            s.len[s.at] = m - n;
            n = 0;
        }
    }
    Ok(())
}
/// a value of category c
fn value(c: i64, neg: bool) -> i64 {
    if c == 0 {
        return 0;
    }
    if neg {
        any_in(1 - (1 << c), -(1 << (c - 1)))
    } else {
        any_in(1 << (c - 1), (1 << c) - 1)
    }
}
fn start() -> JfifWriter<Sink> {
    JfifWriter::new(Sink)
}
fn done() {
    let s = want();
    check("anchor:bit writer", s.hits > 0);
    if s.hits == 0 {
        return;
    }
    check("C18:all bits of the block are written", s.at == s.n);
    s.n = 0;
    s.at = 0;
}
struct Pat {
    c: [i64; 64],
    neg: [bool; 64],
}
/// prescribes and codes one AC band
fn ac(w: &mut JfifWriter<Sink>, b: &[i16; 64], p: &Pat, lo: usize, hi: usize, chroma: bool, t: &HuffmanTable) {
    prescribe(b, p, lo, hi, chroma);
    check("C18:coding succeeds", w.write_ac_block(b, lo, hi, t).is_ok());
    done();
}
fn prescribe(b: &[i16; 64], p: &Pat, lo: usize, hi: usize, chroma: bool) {
    let s = want();
    let (len, val) = if chroma { (&ACC_N, &ACC_V) } else { (&ACL_N, &ACL_V) };
    let mut run = 0;
    let mut k = lo;
    while k < hi {
        if p.c[k] == 0 {
            run += 1;
        } else {
            while run > 15 {
                s.code(len, val, 0xF0);
                run -= 16;
            }
            s.code(len, val, run * 16 + p.c[k] as u8);
            s.extra(b[k] as i64, p.c[k], p.neg[k]);
            run = 0;
        }
        k += 1;
    }
    if run > 0 {
        s.code(len, val, 0);
    }
}
fn block(p: &Pat) -> [i16; 64] {
    let mut b = [0i16; 64];
    let mut k = 0;
    while k < 64 {
        b[k] = value(p.c[k], p.neg[k]) as i16;
        k += 1;
    }
    b
}
fn none() -> Pat {
    Pat { c: [0; 64], neg: [false; 64] }
}
fn init() {
    // the cell lives as long as the analysis of the entry
    let m = alloc::boxed::Box::new(Want::new());
    dat_set(20, alloc::boxed::Box::into_raw(m));
}
fn actab(chroma: bool) -> HuffmanTable {
    if chroma { HuffmanTable::default_chroma_ac() } else { HuffmanTable::default_luma_ac() }
}
/// every run from every position: blocks with at most two non-zero coefficients
pub fn h_runs() {
    let i = part(64) as usize;
    let chroma = part(2) == 1;
    init();
    let t = actab(chroma);
    let mut w = start();
    let mut j = i + 1;
    if i == 0 {
        let p = none();
        ac(&mut w, &block(&p), &p, 1, 64, chroma, &t);
    }
    while j <= 64 {
        let mut p = none();
        if i > 0 {
            p.c[i] = 1 + (i + j) as i64 % 10;
            p.neg[i] = i % 2 == 0;
        }
        if j < 64 {
            p.c[j] = 1 + (i * 3 + j * 7) as i64 % 10;
            p.neg[j] = j % 3 == 0;
        }
        ac(&mut w, &block(&p), &p, 1, 64, chroma, &t);
        j += 1;
    }
    reached("runs");
}
/// every category after every run length, both signs
pub fn h_values() {
    let c = 1 + part(10);
    let neg = part(2) == 1;
    let chroma = part(2) == 1;
    init();
    let t = actab(chroma);
    let mut w = start();
    let mut k = 1;
    while k < 64 {
        let mut p = none();
        p.c[k] = c;
        p.neg[k] = neg;
        ac(&mut w, &block(&p), &p, 1, 64, chroma, &t);
        k += 1;
    }
    // no zeros at all
    let mut p = none();
    let mut k = 1;
    while k < 64 {
        p.c[k] = c;
        p.neg[k] = (k % 2 == 0) == neg;
        k += 1;
    }
    ac(&mut w, &block(&p), &p, 1, 64, chroma, &t);
    reached("values");
}
/// bands of progressive scans; coefficients outside the band have no influence
pub fn h_bands() {
    let (lo, hi) = [(1usize, 2usize), (1, 22), (22, 43), (43, 64), (63, 64), (32, 64), (1, 33), (7, 8), (10, 30), (3, 5), (1, 64)][part(11) as usize];
    init();
    let t = actab(lo % 2 == 0);
    let mut w = start();
    let mut i = lo;
    while i <= hi {
        let mut p = none();
        let mut b = [0i16; 64];
        let mut k = 0;
        while k < 64 {
            if k < lo || k >= hi {
                b[k] = any();
            }
            k += 1;
        }
        // one or two values in the band
        if i < hi {
            p.c[i] = 1 + i as i64 % 10;
            p.neg[i] = i % 2 == 1;
            b[i] = value(p.c[i], p.neg[i]) as i16;
            let l = lo + (i * 5) % (hi - lo);
            if l > i {
                p.c[l] = 3;
                b[l] = value(3, false) as i16;
            }
        }
        ac(&mut w, &b, &p, lo, hi, lo % 2 == 0, &t);
        i += 1;
    }
    reached("bands");
}
fn prescribe_dc(diff: i64, c: i64, neg: bool, chroma: bool) {
    let s = want();
    s.code(if chroma { &DCC_N } else { &DCL_N }, &DC_V, c as u8);
    s.extra(diff, c, neg);
}
/// DC differences of every category
pub fn h_dc() {
    let c = part(12);
    let neg = part(2) == 1;
    let chroma = part(2) == 1;
    init();
    let t = if chroma { HuffmanTable::default_chroma_dc() } else { HuffmanTable::default_luma_dc() };
    let a = actab(chroma);
    let mut w = start();
    let d = value(c, neg);
    let prev = any_in(-1024, 1023);
    let v = prev + d;
    assume(v >= -1024);
    assume(v <= 1023);
    prescribe_dc(d, c, neg, chroma);
    check("C18:coding succeeds", w.write_dc(v as i16, prev as i16, &t).is_ok());
    done();
    // a whole block: DC first
    let mut p = none();
    p.c[40] = 4;
    p.c[63] = 2;
    p.neg[63] = true;
    let mut b = block(&p);
    b[0] = v as i16;
    prescribe_dc(d, c, neg, chroma);
    prescribe(&b, &p, 1, 64, chroma);
    check("C18:coding succeeds", w.write_block(&b, prev as i16, &t, &a).is_ok());
    done();
    reached("dc");
}
/// dense and sparse patterns
pub fn h_mixed_blocks() {
    let n = part(48) as usize;
    init();
    let chroma = n % 2 == 1;
    let t = actab(chroma);
    let mut w = start();
    let mut x = n * 7919 + 13;
    let mut r = 0;
    while r < 3 {
        let mut p = none();
        let mut k = 1;
        while k < 64 {
            x = (x * 75 + 74) % 65537;
            if x / 8 % 24 < 1 + n / 2 {
                p.c[k] = 1 + (x / 256 % 10) as i64;
                p.neg[k] = x / 4096 % 2 == 1;
            }
            k += 1;
        }
        let (lo, hi) = if r < 2 { (1, 64) } else { (1 + n, 64 - n / 9) };
        ac(&mut w, &block(&p), &p, lo, hi, chroma, &t);
        r += 1;
    }
    reached("patterns");
}
/// any write of a bit string may fail
pub fn h_coef_fail() {
    let n = part(6) as usize;
    init();
    set_unroll_cap(100000);
    let (t, a) = (HuffmanTable::default_luma_dc(), actab(false));
    let mut w = start();
    let mut p = none();
    match n {
        0 => {}
        1 => p.c[63] = 1,
        2 => p.c[40] = 3,
        3 => {
            p.c[1] = 1;
            p.c[20] = 5;
        }
        4 => p.c[17] = 2,
        _ => {
            p.c[2] = 2;
            p.c[3] = 2;
        }
    }
    let b = block(&p);
    prescribe_dc(0, 0, false, false);
    prescribe(&b, &p, 1, 64, false);
    key_set(1, 1);
    let r = w.write_block(&b, 0, &t, &a);
    if key_get(0) == 1 {
        check("C07:a failed write is reported as an error", r.is_err());
        reached("failed write");
        return;
    }
    check("C07:coding succeeds when every write succeeds", r.is_ok());
    done();
    reached("complete block");
}
