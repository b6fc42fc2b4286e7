//! Typestate monitor for the byte stream handed to the sink, written from ITU-T T.81 Annex B.
use super::api::*;
use crate::*;
use alloc::vec::Vec;

pub const S_START: u8 = 0; // nothing seen
pub const S_MARK: u8 = 1; // expecting 0xFF of a marker
pub const S_CODE: u8 = 2; // expecting a marker code
pub const S_LEN1: u8 = 3;
pub const S_LEN2: u8 = 4;
pub const S_BODY: u8 = 5;
pub const S_ENT: u8 = 6; // entropy-coded data, or 0xFF of a marker
pub const S_END: u8 = 7; // after EOI

#[derive(Clone, Copy)]
pub struct Comp {
    pub id: u8,
    pub h: u8,
    pub v: u8,
    pub tq: u8,
}
#[derive(Clone, Copy)]
pub struct Huff {
    pub present: bool,
    pub len: [u8; 16],
    pub n: usize,
    pub val: [u8; 256],
}
pub struct Mon {
    pub st: u8,
    pub from_ent: bool,
    pub code: u8,
    pub len: usize,
    pub pos: usize,
    pub sof: u8,
    pub prec: u8,
    pub width: u16,
    pub height: u16,
    pub nc: usize,
    pub comps: [Comp; 4],
    pub dht: [Huff; 8],
    pub cur: usize,
    pub dqt: [[u8; 64]; 4],
    pub dqt_p: [bool; 4],
    pub dri: u16,
    pub n_dri: usize,
    pub n_sof: usize,
    pub n_sos: usize,
    pub rst: usize,
    pub app: [u8; 32],
    pub app_len: [usize; 32],
    pub n_app: usize,
    pub jfif: [u8; 14],
    pub adobe: [u8; 12],
    pub n_jfif: usize,
    pub n_adobe: usize,
    // current scan
    pub sn: usize,
    pub scomp: [u8; 4],
    pub std: [u8; 4],
    pub sta: [u8; 4],
    pub ss: u8,
    pub se: u8,
    pub ahl: u8,
    pub in_scan: bool,
    pub padded: bool,
    pub bytes: usize,
    pub failed: bool,
}
const C0: Comp = Comp { id: 0, h: 0, v: 0, tq: 0 };
const H0: Huff = Huff { present: false, len: [0; 16], n: 0, val: [0; 256] };
impl Mon {
    pub fn new() -> Mon {
        Mon {
            st: S_START,
            from_ent: false,
            code: 0,
            len: 0,
            pos: 0,
            sof: 0,
            prec: 0,
            width: 0,
            height: 0,
            nc: 0,
            comps: [C0; 4],
            dht: [H0; 8],
            cur: 0,
            dqt: [[0; 64]; 4],
            dqt_p: [false; 4],
            dri: 0,
            n_dri: 0,
            n_sof: 0,
            n_sos: 0,
            rst: 0,
            app: [0; 32],
            app_len: [0; 32],
            n_app: 0,
            jfif: [0; 14],
            adobe: [0; 12],
            n_jfif: 0,
            n_adobe: 0,
            sn: 0,
            scomp: [0; 4],
            std: [0; 4],
            sta: [0; 4],
            ss: 0,
            se: 0,
            ahl: 0,
            in_scan: false,
            padded: false,
            bytes: 0,
            failed: false,
        }
    }
    /// one byte handed to the sink
    pub fn byte(&mut self, b: u8) {
        self.bytes += 1;
        match self.st {
            S_START => {
                check("C01:stream starts with SOI", b == 0xFF);
                self.st = S_CODE;
            }
            S_MARK => {
                check("C01:a marker follows each segment", b == 0xFF);
                self.st = S_CODE;
            }
            S_CODE => self.marker(b),
            S_LEN1 => {
                self.len = (b as usize) << 8;
                self.st = S_LEN2;
            }
            S_LEN2 => {
                self.len |= b as usize;
                check("C01:segment length counts its own two bytes", self.len >= 2);
                self.len -= 2;
                self.pos = 0;
                if self.len == 0 {
                    self.seg_end();
                } else {
                    self.st = S_BODY;
                }
            }
            S_BODY => {
                self.body(b);
                self.pos += 1;
                if self.pos == self.len {
                    self.seg_end();
                }
            }
            S_ENT if key_get(5) == 1 && b != 0xFF => {}
            S_CODE if key_get(5) == 1 && self.from_ent && b == 0 => {
                self.from_ent = false;
                self.st = S_ENT;
            }
            S_ENT => {
                check("C01:only entropy-coded data or a marker inside a scan", b == 0xFF);
                self.from_ent = true;
                self.st = S_CODE;
            }
            _ => fail("C01:byte after EOI"),
        }
    }
    fn marker(&mut self, b: u8) {
        self.code = b;
        let scan = self.in_scan;
        self.from_ent = false;
        if scan && key_get(5) == 0 {
            check("C03:the last partial byte is padded before a marker", self.padded);
        }
        if b == 0xD8 {
            check("C01:SOI only at the start", self.bytes == 2);
            self.st = S_MARK;
            return;
        }
        check("C01:stream starts with SOI", self.bytes > 2);
        if b >= 0xD0 && b <= 0xD7 {
            check("C01:restart marker only inside a scan", scan);
            check("C04:restart marker only when an interval was requested", self.n_dri > 0);
            check("C04:restart markers are numbered cyclically from 0", (b - 0xD0) as usize == self.rst % 8);
            self.rst += 1;
            self.padded = false;
            restart();
            self.st = S_ENT;
            return;
        }
        if scan {
            scan_end();
            self.in_scan = false;
        }
        if b == 0xD9 {
            check("C01:EOI comes after a frame and a scan", self.n_sof == 1 && self.n_sos > 0 && scan);
            self.st = S_END;
            return;
        }
        let known = (b >= 0xE0 && b <= 0xEF) || b == 0xC0 || b == 0xC2 || b == 0xC4 || b == 0xDB || b == 0xDD || b == 0xDA;
        check("C01:only markers allowed in a baseline or progressive stream", known);
        check("C15:marker codes are those of the standard", known);
        if b == 0xC0 || b == 0xC2 {
            check("C01:exactly one frame header", self.n_sof == 0);
            self.n_sof += 1;
            self.sof = b;
        }
        if b == 0xDA {
            check("C01:frame header precedes the scan", self.n_sof == 1);
        }
        if b >= 0xE0 && b <= 0xEF {
            check("C09:application segments precede the frame header", self.n_sof == 0);
        }
        self.st = S_LEN1;
    }
    fn body(&mut self, b: u8) {
        let p = self.pos;
        match self.code {
            0xE0 if self.n_app == 0 => {
                if p < 14 {
                    self.jfif[p] = b;
                }
            }
            0xEE if self.n_app == 1 => {
                if p < 12 {
                    self.adobe[p] = b;
                }
            }
            0xC0 | 0xC2 => match p {
                0 => self.prec = b,
                1 => self.height = (b as u16) << 8,
                2 => self.height |= b as u16,
                3 => self.width = (b as u16) << 8,
                4 => self.width |= b as u16,
                5 => {
                    self.nc = b as usize;
                    check("C01:frame header lists 1 to 4 components", b >= 1 && b <= 4);
                    check("C01:frame header length matches its components", self.len == 6 + 3 * self.nc);
                }
                _ => {
                    let i = (p - 6) / 3;
                    match (p - 6) % 3 {
                        0 => self.comps[i].id = b,
                        1 => {
                            self.comps[i].h = b >> 4;
                            self.comps[i].v = b & 15;
                        }
                        _ => self.comps[i].tq = b,
                    }
                }
            },
            0xDB => {
                if p == 0 {
                    check("C01:8-bit quantization table of 64 entries", self.len == 65 && b < 4);
                    self.cur = b as usize;
                    self.dqt_p[self.cur] = true;
                } else {
                    check("C14:written quantization values are at least 1", b >= 1);
                    self.dqt[self.cur][p - 1] = b;
                }
            }
            0xC4 => {
                if p == 0 {
                    check("C01:Huffman table class and destination", b == 0 || b == 1 || b == 0x10 || b == 0x11 || b == 2 || b == 3 || b == 0x12 || b == 0x13);
                    check("C01:Huffman segment holds 16 counts", self.len >= 17);
                    self.cur = ((b >> 4) * 4 + (b & 3)) as usize;
                    self.dht[self.cur].present = true;
                    self.dht[self.cur].n = 0;
                } else if p <= 16 {
                    self.dht[self.cur].len[p - 1] = b;
                    self.dht[self.cur].n += b as usize;
                    if p == 16 {
                        check("C01:Huffman segment length matches its counts", self.len == 17 + self.dht[self.cur].n);
                    }
                } else {
                    self.dht[self.cur].val[p - 17] = b;
                }
            }
            0xDD => match p {
                0 => {
                    check("C01:restart interval segment has 2 bytes", self.len == 2);
                    self.dri = (b as u16) << 8;
                    self.n_dri += 1;
                }
                _ => self.dri |= b as u16,
            },
            0xDA => {
                if p == 0 {
                    self.sn = b as usize;
                    check("C01:scan lists 1 to 4 components", b >= 1 && b <= 4);
                    check("C01:scan header length matches its components", self.len == 4 + 2 * self.sn);
                } else if p <= 2 * self.sn {
                    let i = (p - 1) / 2;
                    if (p - 1) % 2 == 0 {
                        self.scomp[i] = b;
                    } else {
                        self.std[i] = b >> 4;
                        self.sta[i] = b & 15;
                    }
                } else {
                    match p - 2 * self.sn {
                        1 => self.ss = b,
                        2 => self.se = b,
                        _ => self.ahl = b,
                    }
                }
            }
            _ => {}
        }
    }
    /// index in the frame of the i-th component of the current scan
    pub fn scan_comp(&self, i: usize) -> usize {
        let mut k = 0;
        while k < self.nc {
            if self.comps[k].id == self.scomp[i] {
                return k;
            }
            k += 1;
        }
        99
    }
    fn seg_end(&mut self) {
        self.st = S_MARK;
        let c = self.code;
        if c >= 0xE0 && c <= 0xEF {
            if c == 0xE0 && self.n_app == 0 {
                self.n_jfif += 1;
            }
            if c == 0xEE && self.n_app == 1 {
                self.n_adobe += 1;
            }
            if self.n_app < 32 {
                self.app[self.n_app] = c;
                self.app_len[self.n_app] = self.len;
            }
            self.n_app += 1;
        }
        if c == 0xDA {
            self.n_sos += 1;
            self.in_scan = true;
            self.padded = false;
            self.rst = 0;
            let prog = self.sof == 0xC2;
            if prog {
                check("C05:successive approximation bits are zero", self.ahl == 0);
                check("C05:AC scans hold one component", self.ss == 0 || self.sn == 1);
                check("C05:the DC scan is Ss=Se=0 and AC bands are non-empty", (self.ss == 0 && self.se == 0) || (self.ss >= 1 && self.ss <= self.se && self.se <= 63));
            } else {
                check("C01:sequential scan parameters", self.ss == 0 && self.se == 63 && self.ahl == 0);
            }
            let mut i = 0;
            let mut last: i64 = -1;
            let mut mcu = 0usize;
            while i < self.sn {
                let k = self.scan_comp(i);
                check("C02:scan components are components of the frame", k < 4);
                check("C02:scan components follow the frame order", k as i64 > last);
                last = k as i64;
                mcu += self.comps[k].h as usize * self.comps[k].v as usize;
                check("C01:quantization table defined before the scan", self.dqt_p[(self.comps[k].tq & 3) as usize]);
                let dc = prog == false || self.ss == 0;
                let ac = prog == false || self.ss > 0;
                check("C02:the scan names defined Huffman tables", self.std[i] < 4 && self.sta[i] < 4);
                if dc {
                    check("C01:DC table defined before the scan", self.dht[(self.std[i] & 3) as usize].present);
                }
                if ac {
                    check("C01:AC table defined before the scan", self.dht[4 + (self.sta[i] & 3) as usize].present);
                }
                if prog == false {
                    check("C02:baseline streams use table destinations 0 and 1", self.std[i] < 2 && self.sta[i] < 2);
                }
                i += 1;
            }
            if self.sn > 1 {
                check("C02:an interleaved MCU has at most 10 blocks", mcu <= 10);
            }
            self.st = S_ENT;
            scan_start();
        }
    }
}
pub fn mon() -> &'static mut Mon {
    let p: *mut Mon = dat_get(0);
    unsafe { &mut *p }
}
/// sink: every write may fail if `FAILING` is enabled (key 1)
pub struct Sink;
impl JfifWrite for Sink {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        let m = mon();
        check("C07:no write after a failed write", key_get(0) == 0);
        key_set(4, 0);
        if key_get(1) == 1 {
            if any::<bool>() {
                key_set(0, 1);
                return Err(EncodingError::Write(alloc::string::String::new()));
            }
        }
        if key_get(2) == 1 {
            // entropy-coded data announced by a model
            check("C01:entropy-coded data only inside a scan", m.st == S_ENT);
            return Ok(());
        }
        if b.len() == 0 {
            return Ok(());
        }
        let mut k = 0;
        while !(is_const(b.len() as i64) && k == b.len()) {
            if m.st == S_BODY && m.pos == 0 && m.code >= 0xE0 && (!is_const(m.len as i64) || m.len > 60000) {
                // a payload of unknown length
                check("C09:segment payload is written as announced", b.len() - k == m.len);
                payload(m, &b[k..]);
                m.seg_end();
                return Ok(());
            }
            m.byte(b[k]);
            k += 1;
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), EncodingError> {
        check("C07:no flush after a failed write", key_get(0) == 0);
        if key_get(1) == 1 {
            if any::<bool>() {
                key_set(0, 1);
                return Err(EncodingError::Write(alloc::string::String::new()));
            }
        }
        key_set(4, 1);
        Ok(())
    }
}
/// application segment number n is complete
fn payload(m: &Mon, b: &[u8]) {
    if m.n_app >= 1 && key_get(7) > 0 {
        // chunk of an ICC profile: identifier, sequence number, number of chunks, data
        let p: &[u8] = dat_get(31);
        let chunks: usize = dat_get(32);
        let i = m.n_app - 1;
        check("C09:profiles are stored in APP2", m.code == 0xE2);
        check("C09:a chunk has its header", b.len() > 14);
        check("C09:chunks carry the ICC identifier", same_bytes(&b[..12], b"ICC_PROFILE\0"));
        check("C09:chunks are numbered from 1", b[12] as usize == i + 1);
        check("C09:chunks carry their true number", b[13] as usize == chunks);
        let at: usize = dat_get(33);
        let n = b.len() - 14;
        check("C09:chunks do not exceed the profile", at + n <= p.len());
        check("C09:chunks concatenate to the profile", same_bytes(&p[at..at + n], &b[14..]));
        dat_set(33, at + n);
        if i + 1 == chunks {
            check("C09:the last chunk ends the profile", at + n == p.len());
        }
        return;
    }
    if m.n_app >= 1 && key_get(6) > 0 {
        // expected payloads start at data slot 40
        let e: &[u8] = dat_get(40 + m.n_app - 1);
        check("C09:segments are written in the order added with their payload unchanged", same_bytes(e, b));
    }
}
// hooks to the block-level specification
pub fn scan_start() {
    if key_get(3) == 1 {
        super::hook::scan_start();
    }
}
pub fn scan_end() {
    if key_get(3) == 1 {
        super::hook::scan_end();
    }
}
pub fn restart() {
    if key_get(3) == 1 {
        super::hook::restart();
    }
}
