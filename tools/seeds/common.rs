// A small strict JPEG reader used by the demonstrations.
#![allow(dead_code)]
pub use jpeg_encoder::*;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.next() >> 11) as u8).collect()
    }
}
#[derive(Clone, Debug, Default)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    pub cols: usize,
    pub rows: usize,
    pub stride: usize,
    pub blocks: Vec<[i32; 64]>,
}
#[derive(Clone, Debug, Default)]
pub struct Scan {
    pub comps: Vec<(u8, usize, usize)>,
    pub ss: usize,
    pub se: usize,
    pub rst: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Jpeg {
    pub segs: Vec<(u8, Vec<u8>)>,
    pub w: usize,
    pub h: usize,
    pub prog: bool,
    pub comps: Vec<Comp>,
    pub dqt: [Option<[i32; 64]>; 4],
    pub dri: usize,
    pub scans: Vec<Scan>,
    pub dht: Vec<(u8, [u8; 16], Vec<u8>)>,
}
pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39,
    46, 53, 60, 61, 54, 47, 55, 62, 63,
];
struct Bits<'a> {
    d: &'a [u8],
    p: usize,
    bit: usize,
}
impl<'a> Bits<'a> {
    fn bit(&mut self) -> Result<usize, String> {
        if self.p >= self.d.len() {
            return Err("entropy data ends early".into());
        }
        let b = self.d[self.p];
        if b == 0xFF && self.d.get(self.p + 1) != Some(&0) {
            return Err("marker inside entropy data".into());
        }
        let r = (b >> (7 - self.bit)) & 1;
        self.bit += 1;
        if self.bit == 8 {
            self.bit = 0;
            self.p += if b == 0xFF { 2 } else { 1 };
        }
        Ok(r as usize)
    }
    fn bits(&mut self, n: usize) -> Result<i32, String> {
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | self.bit()? as i32;
        }
        Ok(v)
    }
    fn receive(&mut self, n: usize) -> Result<i32, String> {
        let v = self.bits(n)?;
        Ok(if n > 0 && v < 1 << (n - 1) { v - (1 << n) + 1 } else { v })
    }
    fn pad(&mut self) -> Result<(), String> {
        while self.bit != 0 {
            if self.bit()? != 1 {
                return Err("padding is not ones".into());
            }
        }
        Ok(())
    }
    fn sym(&mut self, t: &([u8; 16], Vec<u8>)) -> Result<usize, String> {
        let (mut code, mut first, mut k) = (0usize, 0usize, 0usize);
        for l in 0..16 {
            code = code << 1 | self.bit()?;
            let n = t.0[l] as usize;
            if code < first + n {
                return Ok(t.1[k + code - first] as usize);
            }
            k += n;
            first = (first + n) << 1;
        }
        Err("invalid Huffman code".into())
    }
}
fn cd(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}
pub fn parse(d: &[u8]) -> Result<Jpeg, String> {
    let mut j = Jpeg::default();
    let mut ht: Vec<Option<([u8; 16], Vec<u8>)>> = vec![None; 8];
    if d.len() < 4 || d[..2] != [0xFF, 0xD8] {
        return Err("no SOI".into());
    }
    let mut p = 2;
    loop {
        if p + 2 > d.len() || d[p] != 0xFF {
            return Err(format!("no marker at {}", p));
        }
        let m = d[p + 1];
        p += 2;
        if m == 0xD9 {
            if p != d.len() {
                return Err("data after EOI".into());
            }
            if j.scans.is_empty() {
                return Err("no scan".into());
            }
            return Ok(j);
        }
        if p + 2 > d.len() {
            return Err("truncated".into());
        }
        let l = (d[p] as usize) << 8 | d[p + 1] as usize;
        if l < 2 || p + l > d.len() {
            return Err("bad segment length".into());
        }
        let s = d[p + 2..p + l].to_vec();
        p += l;
        j.segs.push((m, s.clone()));
        match m {
            0xC0 | 0xC2 => {
                if j.w != 0 {
                    return Err("two frames".into());
                }
                j.prog = m == 0xC2;
                if s[0] != 8 {
                    return Err("precision".into());
                }
                j.h = (s[1] as usize) << 8 | s[2] as usize;
                j.w = (s[3] as usize) << 8 | s[4] as usize;
                for c in s[6..].chunks(3) {
                    j.comps.push(Comp { id: c[0], h: (c[1] >> 4) as usize, v: (c[1] & 15) as usize, tq: c[2] as usize, ..Default::default() });
                }
                if j.comps.len() != s[5] as usize {
                    return Err("component count".into());
                }
                let (hm, vm) = (j.comps.iter().map(|c| c.h).max().unwrap(), j.comps.iter().map(|c| c.v).max().unwrap());
                for c in j.comps.iter_mut() {
                    c.cols = cd(cd(j.w * c.h, hm), 8);
                    c.rows = cd(cd(j.h * c.v, vm), 8);
                    c.stride = cd(j.w, 8 * hm) * c.h;
                    c.blocks = vec![[0; 64]; c.stride * cd(j.h, 8 * vm) * c.v];
                }
            }
            0xDB => {
                for t in s.chunks(65) {
                    if t.len() != 65 || t[0] > 3 {
                        return Err("DQT".into());
                    }
                    let mut q = [0; 64];
                    for i in 0..64 {
                        q[ZZ[i]] = t[1 + i] as i32;
                        if t[1 + i] == 0 {
                            return Err("zero quantizer".into());
                        }
                    }
                    j.dqt[t[0] as usize] = Some(q);
                }
            }
            0xC4 => {
                let n: usize = s[1..17].iter().map(|x| *x as usize).sum();
                if s.len() != 17 + n {
                    return Err("DHT".into());
                }
                let mut l = [0; 16];
                l.copy_from_slice(&s[1..17]);
                let mut k = 0u64;
                for i in 0..16 {
                    k += (l[i] as u64) << (15 - i);
                }
                if k >= 65536 {
                    return Err("Huffman table has no room for the all-ones code".into());
                }
                j.dht.push((s[0], l, s[17..].to_vec()));
                ht[((s[0] >> 4) * 4 + (s[0] & 15)) as usize] = Some((l, s[17..].to_vec()));
            }
            0xDD => j.dri = (s[0] as usize) << 8 | s[1] as usize,
            0xDA => {
                let n = s[0] as usize;
                let mut sc = Scan { ss: s[1 + 2 * n] as usize, se: s[2 + 2 * n] as usize, ..Default::default() };
                for i in 0..n {
                    sc.comps.push((s[1 + 2 * i], (s[2 + 2 * i] >> 4) as usize, (s[2 + 2 * i] & 15) as usize));
                }
                let idx: Vec<usize> = sc.comps.iter().map(|c| j.comps.iter().position(|x| x.id == c.0).ok_or("component")).collect::<Result<_, _>>()?;
                let (hm, vm) = (j.comps.iter().map(|c| c.h).max().unwrap(), j.comps.iter().map(|c| c.v).max().unwrap());
                let mut b = Bits { d: &d[p..], p: 0, bit: 0 };
                let units = if n == 1 { j.comps[idx[0]].cols * j.comps[idx[0]].rows } else { cd(j.w, 8 * hm) * cd(j.h, 8 * vm) };
                let mut pred = [0; 4];
                for u in 0..units {
                    if j.dri > 0 && u > 0 && u % j.dri == 0 {
                        b.pad()?;
                        if b.d.get(b.p) != Some(&0xFF) || b.d.get(b.p + 1) != Some(&(0xD0 + (sc.rst % 8) as u8)) {
                            return Err("restart marker expected".into());
                        }
                        b.p += 2;
                        sc.rst += 1;
                        pred = [0; 4];
                    }
                    for (si, &ci) in idx.iter().enumerate() {
                        let (h, v) = if n == 1 { (1, 1) } else { (j.comps[ci].h, j.comps[ci].v) };
                        for k in 0..h * v {
                            let (bx, by) = if n == 1 {
                                (u % j.comps[ci].cols, u / j.comps[ci].cols)
                            } else {
                                let mc = cd(j.w, 8 * hm);
                                ((u % mc) * h + k % h, (u / mc) * v + k / h)
                            };
                            let st = j.comps[ci].stride;
                            let blk = &mut j.comps[ci].blocks[by * st + bx];
                            if sc.ss == 0 {
                                let t = ht[sc.comps[si].1].as_ref().ok_or("DC table")?;
                                let c = b.sym(t)?;
                                if c > 11 {
                                    return Err("DC category".into());
                                }
                                pred[ci] += b.receive(c)?;
                                blk[0] = pred[ci];
                            }
                            let mut i = sc.ss.max(1);
                            while i <= sc.se {
                                let t = ht[4 + sc.comps[si].2].as_ref().ok_or("AC table")?;
                                let s = b.sym(t)?;
                                let (r, c) = (s >> 4, s & 15);
                                if c == 0 {
                                    if r == 15 {
                                        i += 16;
                                        continue;
                                    }
                                    if r != 0 {
                                        return Err("EOB run".into());
                                    }
                                    break;
                                }
                                i += r;
                                if i > sc.se {
                                    return Err("coefficient outside the band".into());
                                }
                                blk[ZZ[i]] = b.receive(c)?;
                                i += 1;
                            }
                        }
                    }
                }
                b.pad()?;
                p += b.p;
                j.scans.push(sc);
            }
            0xE0..=0xEF => {}
            _ => return Err(format!("marker {:x}", m)),
        }
    }
}
impl Jpeg {
    /// inverse DCT of one component, no upsampling; (cols*8) wide
    pub fn plane(&self, c: usize) -> Vec<f64> {
        let k = &self.comps[c];
        let q = self.dqt[k.tq].unwrap();
        let w = k.cols * 8;
        let mut o = vec![0.0; w * k.rows * 8];
        let mut co = [[0.0f64; 8]; 8];
        for u in 0..8 {
            for x in 0..8 {
                co[u][x] = if u == 0 { (0.125f64).sqrt() } else { 0.5 * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos() };
            }
        }
        for by in 0..k.rows {
            for bx in 0..k.cols {
                let b = &k.blocks[by * k.stride + bx];
                for y in 0..8 {
                    for x in 0..8 {
                        let mut s = 0.0;
                        for v in 0..8 {
                            for u in 0..8 {
                                s += co[u][x] * co[v][y] * (b[v * 8 + u] * q[v * 8 + u]) as f64;
                            }
                        }
                        o[(by * 8 + y) * w + bx * 8 + x] = s + 128.0;
                    }
                }
            }
        }
        o
    }
}
pub fn encode(w: u16, h: u16, ct: ColorType, data: &[u8], q: u8, f: impl FnOnce(&mut Encoder<&mut Vec<u8>>)) -> Vec<u8> {
    let mut out = Vec::new();
    let mut e = Encoder::new(&mut out, q);
    f(&mut e);
    e.encode(data, w, h, ct).expect("encode");
    out
}
