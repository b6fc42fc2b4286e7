//! Calls: harness interface, compiler intrinsics, leaf models of the standard library, SIMD intrinsics.
use crate::exec::*;
use crate::join::*;
use crate::poly::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

pub type Outs = Vec<(State, V)>;

/// path of the instance without generic arguments
pub fn cname(n: &str) -> String {
    // "<A as B>::c" keeps A and B without their arguments
    let mut out = String::new();
    let b: Vec<char> = n.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '<' {
            let prev_ident = i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_');
            let turbofish = i > 1 && b[i - 1] == ':' && b[i - 2] == ':';
            if prev_ident || turbofish {
                // is it "::<impl ...>" ? keep that
                let rest: String = b[i..].iter().take(6).collect();
                if turbofish && rest.starts_with("<impl ") {
                    // copy up to matching '>' recursively stripped
                    let j = matching(&b, i);
                    let inner: String = b[i + 1..j].iter().collect();
                    out.push('<');
                    out.push_str(&cname(&inner));
                    out.push('>');
                    i = j + 1;
                    continue;
                }
                let j = matching(&b, i);
                if turbofish {
                    out.pop();
                    out.pop();
                }
                i = j + 1;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
fn matching(b: &[char], i: usize) -> usize {
    let mut d = 0;
    let mut j = i;
    while j < b.len() {
        if b[j] == '<' {
            d += 1;
        }
        if b[j] == '>' && !(j > 0 && b[j - 1] == '-') {
            d -= 1;
            if d == 0 {
                return j;
            }
        }
        j += 1;
    }
    b.len() - 1
}
/// value `v` placed in the significant leaf of (nested single-field) type t
pub fn fill(t: Ty, v: V) -> V {
    let t = strip(t);
    match &*ti(t) {
        TI::Struct { fields, .. } if significant(fields).is_some() => {
            let i = significant(fields).unwrap();
            V::st(fields.iter().enumerate().map(|(j, f)| if j == i { fill(*f, v.clone()) } else { V::U.zst(*f) }).collect())
        }
        _ => v,
    }
}
pub fn leaf(v: &V) -> V {
    match v {
        V::S(f) if f.len() >= 1 => {
            for x in f.iter() {
                match leaf(x) {
                    V::S(_) | V::U => continue,
                    l => return l,
                }
            }
            v.clone()
        }
        _ => v.clone(),
    }
}

impl Engine {
    fn one(st: State, v: V) -> R<Outs> {
        Ok(vec![(st, v)])
    }
    pub fn names_of(&mut self, inst: Instance) -> Rc<(String, String)> {
        if let Some(n) = self.names.get(&inst) {
            return n.clone();
        }
        let full = inst.name().to_string();
        let c = cname(&full);
        let r = Rc::new((full, c));
        self.names.insert(inst, r.clone());
        r
    }
    fn ptee(&self, t: Ty) -> Ty {
        match &*ti(strip(t)) {
            TI::Ptr(p) => *p,
            _ => t,
        }
    }
    fn load_via(&mut self, st: &State, p: &V, pt: Ty) -> V {
        let l = self.deref(st, p, pt);
        self.read(st, &l)
    }
    fn store_via(&mut self, st: &mut State, p: &V, pt: Ty, v: V) {
        let l = self.deref(st, p, pt);
        self.write(st, &l, v);
    }
    pub fn call(&mut self, st: State, inst: Instance, args: Vec<V>, atys: Vec<Ty>, dty: Ty, diverges: bool) -> R<Outs> {
        let nm = self.names_of(inst);
        let c = nm.1.as_str();
        if inst.kind == InstanceKind::Intrinsic {
            let n = inst.intrinsic_name().unwrap().to_string();
            return self.intrinsic(st, inst, &n, args, atys, dty);
        }
        if let Some(i) = c.find("__jsa::api::") {
            let f = c[i + 12..].to_string();
            return self.api(st, &f, inst, args, atys, dty);
        }
        let local = inst.def.krate().is_local;
        if local && !self.models.is_empty() {
            let mut it = c.rsplit("::");
            let (m, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            let key = format!("{}__{}", t, m);
            let key1 = m.to_string();
            let found = self.models.get(&key).or_else(|| self.models.get(&key1)).cloned();
            if let Some(item) = found {
                if !c.contains("__jsa::") {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = item.ty().kind() {
                        let mut ga = inst.args();
                        ga.0.retain(|x| !matches!(x, GenericArgKind::Lifetime(_)) || true);
                        if let Ok(i) = Instance::resolve(d, &ga) {
                            let sig = |b: &crate::body::FnBody| -> Vec<Ty> { std::iter::once(b.body.ret_local().ty).chain(b.body.arg_locals().iter().map(|l| l.ty)).collect() };
                            let same = match (self.body(inst), self.body(i)) {
                                (Some(a), Some(b)) => sig(&a) == sig(&b),
                                _ => false,
                            };
                            if !same {
                                return Err(Fail(format!("the signature of {} is not the one its replacement was written for", nm.0)));
                            }
                            *self.model_hits.entry(key).or_insert(0) += 1;
                            return self.run_fn(i, args, st);
                        }
                    }
                }
            }
        }
        if c.ends_with("_mm256_storeu_si256") || c.ends_with("_mm256_store_si256") {
            let mut st = st;
            self.intrinsic_gate(&st, inst, "_mm256_storeu_si256");
            *self.checks.entry("simd-op".into()).or_insert(0) += 1;
            self.simd_store(&mut st, &args[0], &args[1]);
            return Self::one(st, V::unit());
        }
        if c.contains("slice") && (c.contains("::from_raw_parts") || c.contains("slice_from_raw_parts")) && args.len() == 2 && self.stack.last().map_or(false, |f| f.0.local && !f.0.name.contains("__jsa")) {
            let t = self.ptee(atys[0]);
            let n = self.as_int(&args[1], atys[1]);
            self.check_access(&st, &args[0], t, &n, "slice");
        }
        if !local {
            if let Some(r) = self.std_model(&st, c, inst, &args, &atys, dty, diverges)? {
                return Ok(r);
            }
        }
        if let InstanceKind::Virtual { .. } = inst.kind {
            self.event("unsupported", "virtual call", nm.0.clone());
            let v = self.any(dty, "virt");
            return Self::one(st, v);
        }
        if self.target_gate(&st, inst)? {
            // reported
        }
        let has = self.body(inst).is_some();
        if has {
            return self.run_fn(inst, args, st);
        }
        if diverges {
            self.panic_event(&format!("call to {}", c));
            return Ok(vec![]);
        }
        self.event("unsupported", &format!("no model for {}", c), nm.0.clone());
        let v = self.any(dty, "ext");
        Self::one(st, v)
    }
    /// a function compiled for extra CPU features may only be reached where the run-time test succeeded
    fn target_gate(&mut self, st: &State, inst: Instance) -> R<bool> {
        if !inst.def.krate().is_local {
            return Ok(false);
        }
        let feats = self.tf.get(&inst.def.def_id()).cloned().unwrap_or_default();
        if feats.is_empty() {
            return Ok(false);
        }
        *self.checks.entry("target-feature-call".into()).or_insert(0) += 1;
        for f in feats {
            if matches!(f.as_str(), "sse" | "sse2" | "fxsr" | "x87") {
                continue;
            }
            if !self.established(st, &f) {
                self.event("feature-gate", &format!("target_feature {} not established", f), cname(&inst.name().to_string()));
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn established(&mut self, st: &State, f: &str) -> bool {
        let below_avx2 = matches!(f, "avx" | "sse3" | "ssse3" | "sse4.1" | "sse4.2");
        let mut names = vec![f.to_string()];
        if below_avx2 {
            names.push("avx2".into());
        }
        names.iter().any(|n| {
            let a = self.feature_atom(n);
            st.facts.is_zero(&a.addc(-1)) == Some(true)
        })
    }
    /// vector intrinsics need their features as well, whatever the function around them is compiled for
    fn intrinsic_gate(&mut self, st: &State, inst: Instance, name: &str) {
        let key = inst.def.def_id();
        let mut feats = match self.tf.get(&key) {
            Some(v) => v.clone(),
            None => {
                let v = crate::target_features(inst);
                self.tf.insert(key, v.clone());
                v
            }
        };
        feats.retain(|f| !matches!(f.as_str(), "sse" | "sse2" | "fxsr" | "x87"));
        for f in feats {
            if !self.established(st, &f) {
                self.event("feature-gate", &format!("{} needs {}, which is not established", name, f), String::new());
                return;
            }
        }
    }
    pub fn feature_atom(&mut self, f: &str) -> P {
        if let Some(p) = self.features.get(f) {
            return p.clone();
        }
        // features that AVX2 implies, and those that imply it
        let below = matches!(f, "avx2" | "avx" | "sse" | "sse2" | "sse3" | "ssse3" | "sse4.1" | "sse4.2");
        let above = f == "avx2" || f.starts_with("avx512");
        let p = match self.avx2 {
            _ if matches!(f, "sse" | "sse2") => P::C(1),
            Some(true) if below => P::C(1),
            Some(false) if above => P::C(0),
            _ => fresh(&format!("cpu:{}", f), 0, 1),
        };
        self.features.insert(f.to_string(), p.clone());
        p
    }
    fn same_bytes(&mut self, st: &State, a: &V, b: &V) -> bool {
        let (p, q) = match (a, b) {
            (V::Ptr(p), V::Ptr(q)) => (p.clone(), q.clone()),
            _ => return false,
        };
        let (n, m) = match (&p.meta, &q.meta) {
            (Meta::Len(n), Meta::Len(m)) => (n.clone(), m.clone()),
            _ => return false,
        };
        if st.facts.is_zero(&n.sub(&m)) != Some(true) {
            return false;
        }
        if st.facts.is_zero(&n) == Some(true) {
            return true;
        }
        let ra = self.read_base(st, &p.base);
        let rb = self.read_base(st, &q.base);
        let (pa, ia) = split_idx(&p.path);
        let (pb, ib) = split_idx(&q.path);
        let va = self.get(st, &ra, &pa);
        let vb = self.get(st, &rb, &pb);
        let (x, y) = match (&va, &vb) {
            (V::A(x), V::A(y)) => (x.clone(), y.clone()),
            _ => return resolve_cst(&st.facts, n).cst() == Some(0),
        };
        let same = |u: &V, v: &V| matches!((u, v), (V::I(u), V::I(v)) if u == v);
        match resolve_cst(&st.facts, n.clone()).cst() {
            Some(c) if c <= 4096 => (0..c).all(|k| {
                let u = self.arr_get(st, &x, &ia.addc(k));
                let v = self.arr_get(st, &y, &ib.addc(k));
                same(&u, &v)
            }),
            _ => {
                let mut s2 = st.clone();
                let k = fresh("k", 0, INF);
                if !s2.facts.add(&n.sub(&k).addc(-1), 0, INF) {
                    return true;
                }
                let u = self.arr_get(&s2, &x, &ia.add(&k));
                let v = self.arr_get(&s2, &y, &ib.add(&k));
                same(&u, &v)
            }
        }
    }
    fn cstr(&mut self, st: &State, v: &V) -> String {
        if let V::Ptr(p) = v {
            let n = match &p.meta {
                Meta::Len(P::C(n)) => *n,
                _ => return "?".into(),
            };
            let root = self.read_base(st, &p.base);
            let (pre, i) = split_idx(&p.path);
            let a = self.get(st, &root, &pre);
            let mut s = String::new();
            if let V::A(a) = &a {
                for k in 0..n {
                    if let V::I(P::C(c)) = self.arr_get(st, a, &i.addc(k)) {
                        s.push(c as u8 as char);
                    }
                }
            }
            return s;
        }
        "?".into()
    }
    fn api(&mut self, mut st: State, f: &str, inst: Instance, args: Vec<V>, atys: Vec<Ty>, dty: Ty) -> R<Outs> {
        let int = |e: &mut Engine, i: usize| -> P {
            let p = e.as_int(&args[i], atys[i]);
            resolve_cst(&st.facts, p)
        };
        let _ = inst;
        match f {
            "any" => {
                let v = self.any(dty, "in");
                Self::one(st, v)
            }
            "any_in" => {
                let (a, b) = (int(self, 0), int(self, 1));
                let p = fresh("in", a.cst().unwrap_or(-INF), b.cst().unwrap_or(INF));
                Self::one(st, V::I(p))
            }
            "assume" => {
                let p = int(self, 0);
                if st.facts.add(&p.addc(-1), 0, 0) {
                    Self::one(st, V::unit())
                } else {
                    Ok(vec![])
                }
            }
            "check" | "check_v" => {
                let id = self.cstr(&st, &args[0]);
                let p = int(self, 1);
                *self.checks.entry(id.clone()).or_insert(0) += 1;
                if !self.prove_bool(&st.facts, &p, true) {
                    let mut d = format!("{:?}", p);
                    for i in 2..args.len() {
                        let q = int(self, i);
                        let r = st.facts.range(&q);
                        d.push_str(&format!("; v{}={:?} in [{},{}]", i - 2, q, r.0, r.1));
                    }
                    d.push_str(&format!(" keys={:?}", st.keys));
                    self.event("check", &id, d);
                }
                let _ = st.facts.add(&p.addc(-1), 0, 0);
                Self::one(st, V::unit())
            }
            "fail" => {
                let id = self.cstr(&st, &args[0]);
                self.event("check", &id, format!("reached; keys={:?}", st.keys));
                Self::one(st, V::unit())
            }
            "reached" => {
                let id = self.cstr(&st, &args[0]);
                *self.checks.entry(format!("reach:{}", id)).or_insert(0) += 1;
                Self::one(st, V::unit())
            }
            "stop" => Ok(vec![]),
            "key_set" => {
                let i = int(self, 0).cst().unwrap_or(0) as usize;
                let v = int(self, 1);
                let c = match v.cst() {
                    Some(c) => c as i64,
                    None => {
                        self.event("unsupported", "key_set with a non-constant", format!("{:?}", v));
                        0
                    }
                };
                let k = Rc::make_mut(&mut st.keys);
                while k.len() <= i {
                    k.push(0);
                }
                k[i] = c;
                Self::one(st, V::unit())
            }
            "key_get" => {
                let i = int(self, 0).cst().unwrap_or(0) as usize;
                let v = st.keys.get(i).cloned().unwrap_or(0);
                Self::one(st, V::c(v as i128))
            }
            "dat_set" => {
                let i = int(self, 0).cst().unwrap_or(0) as usize;
                let d = Rc::make_mut(&mut st.dats);
                while d.len() <= i {
                    d.push(V::U);
                }
                d[i] = args[1].clone();
                Self::one(st, V::unit())
            }
            "dat_get" => {
                let i = int(self, 0).cst().unwrap_or(0) as usize;
                let v = st.dats.get(i).cloned().unwrap_or(V::c(0));
                Self::one(st, v)
            }
            "part" => {
                let n = int(self, 0).cst().unwrap_or(1);
                if self.part_pos < self.parts.len() {
                    let v = self.parts[self.part_pos];
                    self.part_pos += 1;
                    return Self::one(st, V::c(v));
                }
                Err(Fail(format!("NEEDPART {}", n)))
            }
            "split" => {
                // one state per value
                let p = int(self, 0);
                let (lo, hi) = st.facts.range(&p);
                if hi - lo > 70000 {
                    return Err(Fail("split over a large range".into()));
                }
                let mut out = vec![];
                for v in lo..=hi {
                    let mut s = st.clone();
                    if s.facts.add(&p.addc(-v), 0, 0) {
                        out.push((s, V::c(v)));
                    }
                }
                Ok(out)
            }
            "any_slice" | "any_slice_in" => {
                let n = int(self, 0);
                let (lo, hi) = if f == "any_slice" { (0, 255) } else { (int(self, 1).cst().unwrap(), int(self, 2).cst().unwrap()) };
                self.next_ver += 1;
                let ver = self.next_ver;
                set_load_range(ver, 0, lo, hi);
                let arr = match n.cst() {
                    Some(c) if c <= 4096 => V::arr((0..c).map(|i| V::I(load(ver, &P::C(i), 0))).collect()),
                    _ => {
                        let k = fresh("k", 0, INF);
                        let kk = k.as_atom().unwrap();
                        V::sarr(n.clone(), vec![Seg { s: P::C(0), e: n.clone(), v: SV::Map(kk, V::I(load(ver, &k, 0))) }])
                    }
                };
                let h = self.new_heap(&mut st, arr);
                let e = match &*ti(self.ptee(dty)) {
                    TI::Slice(e) => *e,
                    _ => Ty::unsigned_ty(UintTy::U8),
                };
                Self::one(st, V::ptr(PtrV { base: Base::H(h), path: vec![Step { p: Pr::X(P::C(0)), ct: None }], pty: Some(e), meta: Meta::Len(n) }))
            }
            "uf" => {
                // uninterpreted function of constant id and three integers
                let id = int(self, 0).cst().unwrap_or(0);
                let (a, b, c) = (int(self, 1), int(self, 2), int(self, 3));
                let (lo, hi) = (int(self, 4).cst().unwrap(), int(self, 5).cst().unwrap());
                Self::one(st, V::I(op("uf", vec![P::C(id), a, b, c], lo, hi)))
            }
            "same" => {
                let (a, b) = (int(self, 0), int(self, 1));
                let r = st.facts.is_zero(&a.sub(&b)) == Some(true);
                Self::one(st, V::c(r as i128))
            }
            "same_bytes" => {
                // two slices of provably equal length and contents
                let r = self.same_bytes(&st, &args[0], &args[1]);
                Self::one(st, V::c(r as i128))
            }
            "proved" => {
                let p = int(self, 0);
                let r = self.prove_bool(&st.facts, &p, true);
                Self::one(st, V::c(r as i128))
            }
            "range_lo" | "range_hi" => {
                let p = int(self, 0);
                let r = st.facts.range(&p);
                let v = if f == "range_lo" { r.0 } else { r.1 };
                Self::one(st, V::c(v.clamp(i64::MIN as i128, i64::MAX as i128)))
            }
            "coef" => {
                // coefficient of an input (second argument, a plain unknown) in a linear expression
                let (p, a) = (int(self, 0), int(self, 1));
                let v = match a.as_atom() {
                    Some(a) => p.coef(&[a, 0, 0, 0]),
                    None => 0,
                };
                Self::one(st, V::c(v))
            }
            "linear_rest" => {
                // bounds of p minus its plain input terms are given by (lo, hi)
                let p = int(self, 0);
                let mut t: Vec<(Mono, i128)> = vec![];
                for (m, c) in p.terms() {
                    let plain = m[1] == 0 && matches!(atom_kind(m[0]), AK::Fresh(..) | AK::Load(..));
                    if !plain {
                        t.push((*m, *c));
                    }
                }
                let q = P::mk(t, p.c0());
                let r = st.facts.range0(&q);
                Self::one(st, V::st(vec![V::c(r.0), V::c(r.1)]))
            }
            "dct_error" => {
                // bound, in thousandths, of |value - 8 * DCT coefficient (u, v) of the 64 inputs|, whatever the inputs are
                let p = int(self, 0);
                let (u, v) = (int(self, 2).cst().unwrap_or(0) as usize, int(self, 3).cst().unwrap_or(0) as usize);
                let r = self.dct_error(&st, &p, &args[1], u, v);
                Self::one(st, V::c(r))
            }
            "ycc_error" => {
                // bound, in thousandths, of |value - (k0 r + k1 g + k2 b)/10^6 - k3|
                let p = int(self, 0);
                let k: Vec<f64> = (4..8).map(|i| int(self, i).cst().unwrap_or(0) as f64).collect();
                let mut acc = Lin::default();
                let mut r = 1i128 << 60;
                if lin_real(&p, 1.0, &mut acc) {
                    acc.c -= k[3];
                    for i in 0..3 {
                        if let Some(a) = int(self, i + 1).as_atom() {
                            *acc.k.entry(a).or_insert(0.0) -= k[i] / 1e6;
                        } else {
                            acc.hi = 1e15;
                        }
                    }
                    r = acc.bound(&st.facts);
                }
                Self::one(st, V::c(r))
            }
            "is_const" => {
                let p = int(self, 0);
                let c = resolve_cst(&st.facts, p).cst().is_some();
                Self::one(st, V::c(c as i128))
            }
            "note" => {
                let id = self.cstr(&st, &args[0]);
                let mut d = vkind(&args[1]);
                if let V::I(p) = &args[1] {
                    let r = st.facts.range(p);
                    d.push_str(&format!(" in [{},{}]", r.0, r.1));
                }
                eprintln!("NOTE {} {} keys={:?}", id, d, st.keys);
                Self::one(st, V::unit())
            }
            "dump_facts" => {
                for (k, r) in st.facts.m.iter() {
                    eprintln!("FACT {:?} in {:?}", k, r);
                }
                Self::one(st, V::unit())
            }
            "trace_events" => {
                self.trace = true;
                Self::one(st, V::unit())
            }
            "set_ite" => {
                self.ite = int(self, 0).cst() == Some(1);
                Self::one(st, V::unit())
            }
            "set_unroll_cap" => {
                self.unroll_cap = int(self, 0).cst().unwrap_or(40) as usize;
                Self::one(st, V::unit())
            }
            "set_merge_cap" => {
                self.merge_cap = int(self, 0).cst().unwrap_or(16) as usize;
                Self::one(st, V::unit())
            }
            "assume_avx2" => {
                let v = int(self, 0).cst() == Some(1);
                self.avx2 = Some(v);
                self.features.clear();
                Self::one(st, V::unit())
            }
            "avx2_on" => {
                let a = self.feature_atom("avx2");
                Self::one(st, V::I(a))
            }
            "fn_name" => Self::one(st, V::T),
            _ => Err(Fail(format!("unknown harness function {}", f))),
        }
    }
    // ---------------- compiler intrinsics ----------------
    fn intrinsic(&mut self, mut st: State, inst: Instance, n: &str, args: Vec<V>, atys: Vec<Ty>, dty: Ty) -> R<Outs> {
        let ga = inst.args();
        let t0 = ga.0.iter().find_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None });
        let int = |e: &mut Engine, i: usize| -> P {
            let p = e.as_int(&args[i], atys[i]);
            resolve_cst(&st.facts, p)
        };
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                return Self::one(st, v);
            }};
        }
        match n {
            "size_of" | "pref_align_of" | "min_align_of" | "align_of" | "needs_drop" | "size_of_val" | "min_align_of_val" | "align_of_val" | "variant_count" | "type_id" | "type_name" | "offset_of" => {
                let t = t0.unwrap();
                match n {
                    "size_of" => ret!(V::c(size_of(t).unwrap_or(0) as i128)),
                    "needs_drop" => ret!(V::c(0)),
                    "size_of_val" => {
                        if let (TI::Slice(e), V::Ptr(p)) = (&*ti(t), &args[0]) {
                            if let Meta::Len(l) = &p.meta {
                                ret!(V::I(l.scale(size_of(*e).unwrap_or(1) as i128)));
                            }
                        }
                        ret!(V::c(size_of(t).unwrap_or(0) as i128))
                    }
                    "align_of" | "min_align_of" | "pref_align_of" | "align_of_val" | "min_align_of_val" => {
                        let e = match &*ti(t) {
                            TI::Slice(e) => *e,
                            _ => t,
                        };
                        let al = e.layout().map(|l| l.shape().abi_align).unwrap_or(1);
                        ret!(V::c(al as i128))
                    }
                    _ => {
                        if let Ok(a) = inst.try_const_eval(dty) {
                            let v = self.decode(dty, &a, 0);
                            ret!(v);
                        }
                        ret!(self.any(dty, "const"))
                    }
                }
            }
            "ctpop" => {
                let p = int(self, 0);
                ret!(match p.cst() {
                    Some(c) => V::c(self.wrap(&st.facts, P::C(c), to_unsigned(atys[0])).cst().unwrap().count_ones() as i128),
                    None => V::I(op("ctpop", vec![p], 0, 128)),
                })
            }
            "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => {
                let p = int(self, 0);
                let (bits, signed) = match &*ti(strip_struct(atys[0])) {
                    TI::Int { bits, signed } => (*bits as i128, *signed),
                    _ => (64, false),
                };
                let p = if signed { wrap_range(&st.facts, p, 0, if bits >= 118 { INF } else { (1i128 << bits) - 1 }) } else { p };
                if let Some(c) = p.cst() {
                    let c = c as u128;
                    let v = if n.starts_with("ctlz") { c.leading_zeros() as i128 - (128 - bits) } else { (c.trailing_zeros() as i128).min(bits) };
                    ret!(V::c(v));
                }
                if n.starts_with("ctlz") {
                    // number of leading zeros: sum of threshold tests when the range is small
                    let (lo, hi) = st.facts.range(&p);
                    let bl = |v: i128| 128 - (v as u128).leading_zeros() as i128;
                    let (l, h) = (bl(lo.max(0)), bl(hi.max(0).min((1i128 << bits.min(100)) - 1)));
                    if l == h {
                        ret!(V::c(bits - l));
                    }
                    if h - l <= 20 {
                        let mut s = P::C(l);
                        for k in l..h {
                            s = s.add(&st.facts.mk_ge0(&p.addc(-(1i128 << k))));
                        }
                        ret!(V::I(P::C(bits).sub(&s)));
                    }
                    ret!(V::I(op("ctlz", vec![p], 0, bits)));
                }
                ret!(V::I(op("cttz", vec![p], 0, bits)))
            }
            "bswap" => {
                let p = int(self, 0);
                let bits = int_bits(atys[0]);
                let mut acc = P::C(0);
                let p = wrap_range(&st.facts, p, 0, if bits >= 118 { INF } else { (1i128 << bits) - 1 });
                let nb = bits / 8;
                for i in 0..nb {
                    let d = st.facts.mk_div(&p, 1i128 << (8 * i));
                    let m = st.facts.mk_mod(&d, 256);
                    acc = acc.addk(&m, 1i128 << (8 * (nb - 1 - i)));
                }
                let r = self.wrap(&st.facts, acc, dty);
                ret!(V::I(r))
            }
            "rotate_left" | "rotate_right" => {
                let (p, s) = (int(self, 0), int(self, 1));
                let bits = int_bits(atys[0]) as i128;
                if let Some(s) = s.cst() {
                    let s = s.rem_euclid(bits);
                    let s = if n == "rotate_left" { s } else { (bits - s) % bits };
                    let up = wrap_range(&st.facts, p, 0, (1i128 << bits) - 1);
                    let hi = st.facts.mk_div(&up, 1i128 << (bits - s));
                    let lo = st.facts.mk_mod(&up, 1i128 << (bits - s)).scale(1i128 << s);
                    let r = self.wrap(&st.facts, hi.add(&lo), dty);
                    ret!(V::I(r));
                }
                ret!(self.any(dty, "rot"))
            }
            "saturating_add" | "saturating_sub" => {
                let (a, b) = (int(self, 0), int(self, 1));
                let r = if n == "saturating_add" { a.add(&b) } else { a.sub(&b) };
                let (lo, hi) = int_range(dty).unwrap();
                let r = st.facts.mk_min(&st.facts.mk_min(&r, &P::C(hi), false), &P::C(lo), true);
                ret!(V::I(r))
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (a, b) = (int(self, 0), int(self, 1));
                let raw = match n.as_bytes()[0] {
                    b'a' => a.add(&b),
                    b's' => a.sub(&b),
                    _ => st.facts.mul(&a, &b),
                };
                let w = self.wrap(&st.facts, raw.clone(), atys[0]);
                let eq = if w == raw { P::C(1) } else { st.facts.mk_eq0(&w.sub(&raw)) };
                let (lo, hi) = int_range(atys[0]).unwrap();
                let ok = if w == raw { P::C(1) } else { st.facts.mul(&st.facts.mk_ge0(&raw.addc(-lo)), &st.facts.mk_ge0(&raw.neg().addc(hi))) };
                let _ = eq;
                ret!(V::st(vec![V::I(w), V::I(P::C(1).sub(&ok))]))
            }
            "exact_div" => {
                let (a, b) = (int(self, 0), int(self, 1));
                let (q, _) = self.divrem(&st.facts.clone(), &a, &b, false);
                ret!(V::I(q))
            }
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "disjoint_bitor" => {
                let o = match n {
                    "unchecked_add" | "wrapping_add" => BinOp::Add,
                    "unchecked_sub" | "wrapping_sub" => BinOp::Sub,
                    "unchecked_mul" | "wrapping_mul" => BinOp::Mul,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    "unchecked_div" => BinOp::Div,
                    "disjoint_bitor" => BinOp::BitOr,
                    _ => BinOp::Rem,
                };
                let v = self.binop(&st, &o, &args[0], &args[1], atys[0], atys[1]);
                ret!(v)
            }
            "three_way_compare" => Ok(self.three_way(st, &args[0], &args[1], atys[0])),
            "assume" => {
                let p = int(self, 0);
                if !st.facts.add(&p.addc(-1), 0, 0) {
                    return Ok(vec![]);
                }
                ret!(V::unit())
            }
            "likely" | "unlikely" | "black_box" => ret!(args[0].clone()),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" | "va_end" | "breakpoint" | "prefetch_read_data" => ret!(V::unit()),
            "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => ret!(V::c(0)),
            "const_eval_select" => {
                // run-time branch: (args tuple, const fn, runtime fn)
                let f = atys[2];
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.kind() {
                    if let Ok(i) = Instance::resolve(d, &a) {
                        let (av, at) = match (&args[0], &*ti(atys[0])) {
                            (V::S(x), TI::Struct { fields, .. }) => ((**x).clone(), fields.clone()),
                            _ => (vec![], vec![]),
                        };
                        let av = if av.is_empty() && !at.is_empty() { at.iter().map(|_| V::T).collect() } else { av };
                        return self.call(st, i, av, at, dty, false);
                    }
                }
                Err(Fail("const_eval_select".into()))
            }
            "abort" | "unreachable" => Ok(vec![]),
            "transmute" | "transmute_unchecked" => {
                return Ok(self.transmute_forks(st, args[0].clone(), atys[0], dty));
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let pt = self.ptee(atys[0]);
                self.check_access(&st, &args[0], pt, &P::C(1), "read");
                let v = self.load_via(&st, &args[0], atys[0]);
                ret!(v)
            }
            "write_via_move" | "volatile_store" => {
                let pt = self.ptee(atys[0]);
                self.check_access(&st, &args[0], pt, &P::C(1), "write");
                self.store_via(&mut st, &args[0], atys[0], args[1].clone());
                ret!(V::unit())
            }
            "typed_swap_nonoverlapping" => {
                let a = self.load_via(&st, &args[0], atys[0]);
                let b = self.load_via(&st, &args[1], atys[1]);
                self.store_via(&mut st, &args[0], atys[0], b);
                self.store_via(&mut st, &args[1], atys[1], a);
                ret!(V::unit())
            }
            "copy_nonoverlapping" | "copy" => {
                let t = self.ptee(atys[0]);
                let c = int(self, 2);
                self.copy_mem(&mut st, &args[0], &args[1], &c, t);
                ret!(V::unit())
            }
            "write_bytes" => {
                let t = self.ptee(atys[0]);
                let (b, c) = (int(self, 1), int(self, 2));
                self.check_access(&st, &args[0], t, &c, "write");
                if let (Some(b), Some(c)) = (b.cst(), c.cst()) {
                    if c <= 4096 && (b == 0 || size_of(t) == Some(1)) {
                        for i in 0..c {
                            let q = self.ptr_add(&st, &args[0], t, &P::C(i));
                            let l = self.deref_as(&st, &q, t);
                            let v = zero_v(t, b);
                            self.write(&mut st, &l, v);
                        }
                        ret!(V::unit());
                    }
                }
                if let (Some(b), V::Ptr(p)) = (b.cst(), &args[0]) {
                    if b == 0 || size_of(t) == Some(1) {
                        let (pre, i) = split_idx(&p.path);
                        let root = self.read_base(&st, &p.base);
                        if let V::A(a) = self.get(&st, &root, &pre) {
                            let (len, mut segs) = to_segs(&a);
                            let e = segs.last().map(|s| s.e.clone()).unwrap_or(P::C(0));
                            if st.facts.is_zero(&e.sub(&i)) == Some(true) {
                                push_seg(&mut segs, Seg { s: i.clone(), e: i.add(&c), v: SV::Const(zero_v(t, b)) });
                                let l = Loc { base: p.base.clone(), path: pre, ty: t, view: false, meta: Meta::No, variant: None };
                                self.write(&mut st, &l, V::sarr(len, segs));
                                ret!(V::unit());
                            }
                        }
                    }
                }
                self.imprecise("write_bytes");
                ret!(V::unit())
            }
            "offset" | "arith_offset" => {
                let t = self.ptee(atys[0]);
                let c = int(self, 1);
                let v = self.ptr_add(&st, &args[0], t, &c);
                ret!(v)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let t = self.ptee(atys[0]);
                if let (V::Ptr(a), V::Ptr(b)) = (&args[0], &args[1]) {
                    let d = if let (Base::D(x), Base::D(y)) = (&a.base, &b.base) {
                        let s = size_of(t).unwrap_or(1).max(1) as i128;
                        Some(st.facts.mk_div(&x.sub(y), s).add(&split_idx(&a.path).1).sub(&split_idx(&b.path).1))
                    } else {
                        same_prefix_diff(&a.path, &b.path).filter(|_| a.base == b.base)
                    };
                    if let Some(d) = d {
                        // path indices count elements of the pointee recorded in the pointer
                        let es = a.pty.and_then(|t| size_of(strip(t))).unwrap_or(0);
                        let ts = size_of(t).unwrap_or(1);
                        let d = if es != 0 && es != ts && ts > 0 { st.facts.mk_div(&d.scale(es as i128), ts as i128) } else { d };
                        ret!(V::I(d));
                    }
                }
                self.imprecise("ptr_offset_from");
                ret!(self.any(dty, "off"))
            }
            "ptr_metadata" => {
                let v = match &args[0] {
                    V::Ptr(p) => match &p.meta {
                        Meta::Len(l) => V::I(l.clone()),
                        Meta::No => V::unit(),
                        _ => V::T,
                    },
                    _ => V::T,
                };
                ret!(v)
            }
            "aggregate_raw_ptr" => {
                let t = self.ptee(dty);
                let v = self.raw_ptr(t, &args[0], &args[1]);
                ret!(v)
            }
            "slice_get_unchecked" => {
                let t = self.ptee(dty);
                let c = int(self, 1);
                let mut v = self.ptr_add(&st, &args[0], t, &c);
                if let V::Ptr(p) = &mut v {
                    Rc::make_mut(p).meta = Meta::No;
                }
                ret!(v)
            }
            "discriminant_value" => {
                let l = self.deref(&st, &args[0], atys[0]);
                Ok(self.discriminant(st, &l))
            }
            "raw_eq" | "compare_bytes" => {
                if n == "compare_bytes" {
                    // equality of byte strings is all that is used
                    let c = int(self, 2);
                    if let Some(c) = c.cst() {
                        if c <= 4096 {
                            let t = self.ptee(atys[0]);
                            let mut acc = P::C(1);
                            for i in 0..c {
                                let (q, r) = (self.ptr_add(&st, &args[0], t, &P::C(i)), self.ptr_add(&st, &args[1], t, &P::C(i)));
                                let (l1, l2) = (self.deref_as(&st, &q, t), self.deref_as(&st, &r, t));
                                let (x, y) = (self.read(&st, &l1), self.read(&st, &l2));
                                let (x, y) = (self.as_int(&x, t), self.as_int(&y, t));
                                let e = st.facts.mk_eq0(&x.sub(&y));
                                acc = st.facts.mul(&acc, &e);
                            }
                            ret!(V::I(P::C(1).sub(&acc)));
                        }
                    }
                    ret!(V::I(fresh("cmp", -1, 1)));
                }
                ret!(V::I(fresh("eq", 0, 1)))
            }
            "caller_location" => ret!(V::T),
            "select_unpredictable" => {
                let c = int(self, 0);
                match st.facts.is_zero(&c) {
                    Some(true) => ret!(args[2].clone()),
                    Some(false) => ret!(args[1].clone()),
                    None => {
                        let mut s1 = st.clone();
                        let mut s2 = st;
                        let mut out = vec![];
                        if s1.facts.add(&c, 1, 1) {
                            out.push((s1, args[1].clone()));
                        }
                        if s2.facts.add(&c, 0, 0) {
                            out.push((s2, args[2].clone()));
                        }
                        Ok(out)
                    }
                }
            }
            "box_new" => {
                let h = self.new_heap(&mut st, V::U);
                let p = V::ptr(PtrV { base: Base::H(h), path: vec![], pty: t0, meta: Meta::No });
                Rc::make_mut(&mut st.heap).insert(h, Rc::new(args[0].clone()));
                let v = self.box_of(dty, p);
                ret!(v)
            }
            _ => {
                if let Some(r) = self.simd_intrinsic(&st, n, &args, &atys, dty) {
                    ret!(r);
                }
                if inst.has_body() && self.body(inst).is_some() {
                    return self.run_fn(inst, args, st);
                }
                self.event("unsupported", &format!("intrinsic {}", n), String::new());
                ret!(self.any(dty, "intr"))
            }
        }
    }
    fn box_of(&mut self, bt: Ty, p: V) -> V {
        // Box<T>(Unique<T>, A)
        if let TI::Struct { fields, .. } = &*ti(strip(bt)) {
            let v = fields.iter().enumerate().map(|(i, f)| if i == 0 { fill(*f, p.clone()) } else { V::U.zst(*f) }).collect();
            return V::st(v);
        }
        p
    }
    // ---------------- standard library leaves ----------------
    fn std_model(&mut self, st: &State, c: &str, inst: Instance, args: &[V], atys: &[Ty], dty: Ty, diverges: bool) -> R<Option<Outs>> {
        let last = c.rsplit("::").next().unwrap_or("");
        // allocation
        if c.contains("raw_vec::RawVecInner::") && !matches!(last, "from_raw_parts_in" | "from_nonnull_in" | "current_memory" | "needs_to_grow" | "set_ptr_and_cap") {
            return self.rawvec(st.clone(), last, args, atys, dty).map(Some);
        }
        if c.contains("std_detect") || c.contains("detect::__is_feature") || c.contains("is_x86_feature_detected") {
            let f = if last == "__is_feature_detected" { "?".to_string() } else { last.to_string() };
            if last == "check_for" || last == "test" {
                let p = match self.avx2 {
                    Some(_) | None => self.feature_atom("avx2"),
                };
                return Ok(Some(vec![(st.clone(), V::I(p))]));
            }
            let p = self.feature_atom(&f);
            return Ok(Some(vec![(st.clone(), V::I(p))]));
        }
        if diverges && (c.contains("panick") || c.contains("panic") || c.contains("unwrap_failed") || c.contains("expect_failed") || c.contains("slice_") || c.contains("handle_error") || c.contains("capacity_overflow") || c.contains("handle_alloc_error") || c.contains("len_mismatch_fail") || c.contains("assert_failed") || c.contains("slice::index") || c.contains("_fail")) {
            let msg = if let Some(a) = args.first() {
                if matches!(&*ti(self.ptee(atys[0])), TI::Str) { self.cstr(st, a) } else { String::new() }
            } else {
                String::new()
            };
            let mut d = String::new();
            for (a, t) in args.iter().zip(atys.iter()) {
                if int_range(*t).is_some() {
                    let p = self.as_int(a, *t);
                    let r = st.facts.range(&p);
                    d.push_str(&format!(" {:?} in [{},{}]", p, r.0, r.1));
                }
            }
            self.panic_event2(&format!("{} {}", last, msg), d);
            return Ok(Some(vec![]));
        }
        let intarg = |e: &mut Engine, i: usize| -> P {
            let p = e.as_int(&args[i], atys[i]);
            resolve_cst(&st.facts, p)
        };
        let int_t = |i: usize| atys.get(i).map_or(false, |t| matches!(&*ti(strip(*t)), TI::Int { .. }));
        match last {
            "min" | "max" if c.contains("cmp::Ord") || c.ends_with("cmp::min") || c.ends_with("cmp::max") => {
                if int_t(0) {
                    let (a, b) = (intarg(self, 0), intarg(self, 1));
                    return Ok(Some(vec![(st.clone(), V::I(st.facts.mk_min(&a, &b, last == "max")))]));
                }
            }
            "clamp" if c.contains("cmp::Ord") => {
                if int_t(0) {
                    let (a, b, h) = (intarg(self, 0), intarg(self, 1), intarg(self, 2));
                    if !st.facts.ge0(&h.sub(&b)) {
                        self.panic_event("clamp with min > max");
                    }
                    let v = st.facts.mk_min(&st.facts.mk_min(&a, &h, false), &b, true);
                    return Ok(Some(vec![(st.clone(), V::I(v))]));
                }
            }
            "abs" | "unsigned_abs" if c.contains("core::num") || c.contains("std::num") => {
                if int_t(0) {
                    let a = intarg(self, 0);
                    let v = st.facts.mk_min(&a, &a.neg(), true);
                    return Ok(Some(vec![(st.clone(), V::I(v))]));
                }
            }
            "div_ceil" if c.contains("::num::") && int_t(0) => {
                let (a, b) = (intarg(self, 0), intarg(self, 1));
                if let Some(k) = b.cst() {
                    if k > 0 {
                        let v = st.facts.mk_div(&a.addc(k - 1), k);
                        return Ok(Some(vec![(st.clone(), V::I(v))]));
                    }
                }
            }
            "saturating_sub" | "saturating_add" | "saturating_mul" if c.contains("::num::") && int_t(0) => {
                let (a, b) = (intarg(self, 0), intarg(self, 1));
                let r = match last {
                    "saturating_sub" => a.sub(&b),
                    "saturating_add" => a.add(&b),
                    _ => st.facts.mul(&a, &b),
                };
                let (lo, hi) = int_range(dty).unwrap();
                let r = st.facts.mk_min(&st.facts.mk_min(&r, &P::C(hi), false), &P::C(lo), true);
                return Ok(Some(vec![(st.clone(), V::I(r))]));
            }
            _ => {}
        }
        if c.starts_with("core::fmt") || c.starts_with("std::fmt") || c.starts_with("alloc::fmt") || c.contains("::fmt::Arguments") || c.contains("::fmt::rt::") || c.contains("as std::fmt::") || c.contains("as core::fmt::") {
            let v = if int_range(dty).is_some() { self.any(dty, "fmt") } else { match &*ti(dty) { TI::Enum{..} => self.any(dty, "fmt"), _ => V::T } };
            return Ok(Some(vec![(st.clone(), v)]));
        }
        if c.contains("alloc::alloc::dealloc") || last == "dealloc" || last == "deallocate" || c.contains("ptr::drop_in_place") {
            return Ok(Some(vec![(st.clone(), V::unit())]));
        }
        if c.contains("core_arch") || last.starts_with("_mm") {
            self.intrinsic_gate(st, inst, last);
            if let Some(v) = self.simd_fn(st, last, inst, args, atys, dty) {
                return Ok(Some(vec![(st.clone(), v)]));
            }
        }
        if matches!(last, "exchange_malloc" | "box_new_uninit" | "__rust_alloc" | "__rust_alloc_zeroed" | "alloc_impl" | "alloc_impl_runtime") {
            let mut s = st.clone();
            let h = self.new_heap(&mut s, V::U);
            let p = V::ptr(PtrV { base: Base::H(h), path: vec![], pty: None, meta: Meta::No });
            match &*ti(strip(dty)) {
                TI::Ptr(_) => return Ok(Some(vec![(s, p)])),
                TI::Struct { .. } => return Ok(Some(vec![(s, fill(dty, p))])),
                _ => {
                    // Result<NonNull<[u8]>, AllocError>
                    if let TI::Enum { variants, .. } = &*ti(dty) {
                        let q = PtrV { base: Base::H(h), path: vec![], pty: None, meta: Meta::Len(P::C(0)) };
                        let v = fill(variants[0][0], V::ptr(q));
                        return Ok(Some(vec![(s, V::en(0, vec![v]))]));
                    }
                }
            }
        }
        Ok(None)
    }
    fn rawvec(&mut self, mut st: State, f: &str, args: &[V], atys: &[Ty], dty: Ty) -> R<Outs> {
        let int = |e: &mut Engine, st: &State, i: usize| -> P {
            let p = e.as_int(&args[i], atys[i]);
            resolve_cst(&st.facts, p)
        };
        let mk = |e: &mut Engine, st: &mut State, t: Ty, cap: P, zero: bool| -> V {
            let arr = match cap.cst() {
                Some(c) if c <= 16384 => V::arr(vec![if zero { V::c(0) } else { V::U }; c as usize]),
                _ => V::sarr(cap.clone(), if zero { vec![Seg { s: P::C(0), e: cap.clone(), v: SV::Const(V::c(0)) }] } else { vec![] }),
            };
            let p = if cap.cst() == Some(0) {
                V::ptr(PtrV { base: Base::D(P::C(16)), path: vec![], pty: None, meta: Meta::No })
            } else {
                let h = e.new_heap(st, arr);
                V::ptr(PtrV { base: Base::H(h), path: vec![Step { p: Pr::X(P::C(0)), ct: None }], pty: None, meta: Meta::No })
            };
            if let TI::Struct { fields, .. } = &*ti(strip(t)) {
                let v = fields
                    .iter()
                    .map(|ft| match &*ti(strip_struct(*ft)) {
                        TI::Ptr(_) => fill(*ft, p.clone()),
                        TI::Int { .. } => fill(*ft, V::I(cap.clone())),
                        _ => V::U.zst(*ft),
                    })
                    .collect();
                return V::st(v);
            }
            V::T
        };
        match f {
            "with_capacity_in" | "with_capacity" => {
                let cap = int(self, &st, 0);
                let v = mk(self, &mut st, dty, cap, false);
                Self::one(st, v)
            }
            "try_allocate_in" | "try_with_capacity_in" => {
                let cap = int(self, &st, 0);
                let zero = f == "try_allocate_in" && matches!(&args[1], V::E(v) if v.len() == 1 && v[0].0 == 1);
                if let TI::Enum { variants, .. } = &*ti(dty) {
                    let t = variants[0][0];
                    let v = mk(self, &mut st, t, cap, zero);
                    return Self::one(st, V::en(0, vec![v]));
                }
                Err(Fail("try_allocate_in".into()))
            }
            "with_capacity_zeroed_in" => {
                let cap = int(self, &st, 0);
                let v = mk(self, &mut st, dty, cap, true);
                Self::one(st, v)
            }
            "new_in" => {
                let v = mk(self, &mut st, dty, P::C(0), false);
                Self::one(st, v)
            }
            "grow_one" | "grow_amortized" | "grow_exact" | "reserve" | "try_reserve" | "reserve_exact" | "try_reserve_exact" | "do_reserve_and_handle" => {
                let self_t = self.ptee(atys[0]);
                let loc = self.deref(&st, &args[0], atys[0]);
                let cur = self.read(&st, &loc);
                let (mut pi, mut ci) = (0, 1);
                let fts = match &*ti(strip(self_t)) {
                    TI::Struct { fields, .. } => fields.clone(),
                    _ => vec![],
                };
                for (i, ft) in fts.iter().enumerate() {
                    match &*ti(strip_struct(*ft)) {
                        TI::Ptr(_) => pi = i,
                        TI::Int { .. } => ci = i,
                        _ => {}
                    }
                }
                let fs = match &cur {
                    V::S(f) if f.len() == fts.len() => (**f).clone(),
                    _ => {
                        self.imprecise("growing an unknown vector");
                        return Self::one(st, self_ok(dty));
                    }
                };
                let pv = leaf(&fs[pi]);
                let cap = match leaf(&fs[ci]) {
                    V::I(p) => p,
                    _ => P::C(0),
                };
                let need = if f == "grow_one" {
                    cap.addc(1)
                } else {
                    let (l, a) = (int(self, &st, 1), int(self, &st, 2));
                    l.add(&a)
                };
                if f != "grow_one" && f != "grow_amortized" && f != "grow_exact" && st.facts.ge0(&cap.sub(&need)) {
                    return Self::one(st, self_ok(dty));
                }
                let ncap = match (cap.cst(), need.cst()) {
                    (Some(c), Some(n)) => P::C(n.max(c * 2).max(4)),
                    _ => st.facts.mk_min(&need, &cap, true),
                };
                let np = match &pv {
                    V::Ptr(p) if matches!(p.base, Base::H(_)) => {
                        let h = if let Base::H(h) = p.base { h } else { 0 };
                        let old = st.heap.get(&h).map(|v| (**v).clone()).unwrap_or(V::U);
                        let new = match (&old, ncap.cst()) {
                            (V::A(a), Some(c)) if matches!(&**a, ArrV::D(_)) && c <= 16384 => {
                                if let ArrV::D(x) = &**a {
                                    let mut x = x.clone();
                                    x.resize(c as usize, V::U);
                                    V::arr(x)
                                } else {
                                    V::T
                                }
                            }
                            (V::A(a), _) => {
                                let (_, segs) = to_segs(a);
                                V::sarr(ncap.clone(), segs)
                            }
                            _ => V::sarr(ncap.clone(), vec![]),
                        };
                        Rc::make_mut(&mut st.heap).insert(h, Rc::new(new));
                        pv.clone()
                    }
                    _ => {
                        let arr = match ncap.cst() {
                            Some(c) if c <= 16384 => V::arr(vec![V::U; c as usize]),
                            _ => V::sarr(ncap.clone(), vec![]),
                        };
                        let h = self.new_heap(&mut st, arr);
                        V::ptr(PtrV { base: Base::H(h), path: vec![Step { p: Pr::X(P::C(0)), ct: None }], pty: None, meta: Meta::No })
                    }
                };
                let mut nf = fs;
                nf[pi] = fill(fts[pi], np);
                nf[ci] = fill(fts[ci], V::I(ncap));
                self.write(&mut st, &loc, V::st(nf));
                Self::one(st, self_ok(dty))
            }
            "deallocate" | "shrink" | "shrink_unchecked" | "shrink_to_fit" => Self::one(st, self_ok(dty)),
            "capacity" => {
                let loc = self.deref(&st, &args[0], atys[0]);
                let cur = self.read(&st, &loc);
                let sz = int(self, &st, 1);
                if sz.cst() == Some(0) {
                    return Self::one(st, V::c((1i128 << 64) - 1));
                }
                let self_t = self.ptee(atys[0]);
                if let (TI::Struct { fields, .. }, V::S(f)) = (&*ti(strip(self_t)), &cur) {
                    for (i, ft) in fields.iter().enumerate() {
                        if let TI::Int { .. } = &*ti(strip_struct(*ft)) {
                            let v = leaf(&f[i]);
                            return Self::one(st, v);
                        }
                    }
                }
                let v = self.any(dty, "cap");
                Self::one(st, v)
            }
            "ptr" | "non_null" => {
                let loc = self.deref(&st, &args[0], atys[0]);
                let cur = self.read(&st, &loc);
                let self_t = self.ptee(atys[0]);
                if let (TI::Struct { fields, .. }, V::S(f)) = (&*ti(strip(self_t)), &cur) {
                    for (i, ft) in fields.iter().enumerate() {
                        if let TI::Ptr(_) = &*ti(strip_struct(*ft)) {
                            let mut v = leaf(&f[i]);
                            // element type
                            let et = match &*ti(strip_struct(dty)) {
                                TI::Ptr(t) => Some(*t),
                                _ => None,
                            };
                            if let V::Ptr(p) = &mut v {
                                let p = Rc::make_mut(p);
                                if p.pty.is_none() {
                                    p.pty = et;
                                }
                            }
                            let v = fill(dty, v);
                            return Self::one(st, v);
                        }
                    }
                }
                self.imprecise("pointer of an unknown vector");
                Self::one(st, V::T)
            }
            "allocator" => Self::one(st, V::T),
            _ => {
                // plain accessors are interpreted
                let _ = f;
                Err(Fail(format!("RawVecInner::{}", f)))
            }
        }
    }
    // ---------------- SIMD ----------------
    fn lanes(&mut self, st: &State, v: &V, w: u8) -> Vec<P> {
        match v {
            V::Simd(l) => {
                let l2: Vec<(u8, P)> = l.iter().map(|(w, p)| (*w, resolve_cst(&st.facts, p.clone()))).collect();
                simd_lanes(&l2, w, &st.facts)
            }
            _ => {
                let b = 8 * w as u32;
                (0..(32 / w)).map(|_| fresh("lane", -(1i128 << (b - 1)), (1i128 << (b - 1)) - 1)).collect()
            }
        }
    }
    fn simd_intrinsic(&mut self, _st: &State, _n: &str, _args: &[V], _atys: &[Ty], _dty: Ty) -> Option<V> {
        None
    }
    fn simd_fn(&mut self, st: &State, f: &str, inst: Instance, args: &[V], atys: &[Ty], dty: Ty) -> Option<V> {
        let fa = st.facts.clone();
        let imm = |i: usize| -> i128 {
            let mut k = 0;
            for g in inst.args().0.iter() {
                if let GenericArgKind::Const(c) = g {
                    if k == i {
                        if let TyConstKind::Value(_, a) = c.kind() {
                            return a.read_partial_uint(0..a.bytes.len().min(8)).unwrap_or(0) as i128;
                        }
                        return 0;
                    }
                    k += 1;
                }
            }
            0
        };
        let s16 = |p: P| wrap_range(&fa, p, -32768, 32767);
        let s32 = |p: P| wrap_range(&fa, p, -(1 << 31), (1 << 31) - 1);
        let mk16 = |v: Vec<P>| Some(V::Simd(Rc::new(v.into_iter().map(|p| (2u8, p)).collect())));
        let mk32 = |v: Vec<P>| Some(V::Simd(Rc::new(v.into_iter().map(|p| (4u8, p)).collect())));
        let mk64 = |v: Vec<P>| Some(V::Simd(Rc::new(v.into_iter().map(|p| (8u8, p)).collect())));
        let ints = |e: &mut Engine| -> Vec<P> {
            (0..args.len())
                .map(|i| {
                    let p = e.as_int(&args[i], atys[i]);
                    resolve_cst(&fa, p)
                })
                .collect()
        };
        let zip = |e: &mut Engine, w: u8, g: &dyn Fn(&P, &P) -> P| -> Vec<P> {
            let a = e.lanes(st, &args[0], w);
            let b = e.lanes(st, &args[1], w);
            a.iter().zip(b.iter()).map(|(x, y)| g(x, y)).collect()
        };
        let sat = |p: P, lo: i128, hi: i128| fa.mk_min(&fa.mk_min(&p, &P::C(hi), false), &P::C(lo), true);
        *self.checks.entry("simd-op".into()).or_insert(0) += 1;
        match f {
            "_mm256_setzero_si256" => mk32(vec![P::C(0); 8]),
            "_mm256_set1_epi16" => {
                let p = ints(self);
                mk16(vec![p[0].clone(); 16])
            }
            "_mm256_set1_epi32" => {
                let p = ints(self);
                mk32(vec![p[0].clone(); 8])
            }
            "_mm256_set_epi16" | "_mm256_setr_epi16" => {
                let mut v = ints(self);
                if f == "_mm256_set_epi16" {
                    v.reverse();
                }
                mk16(v)
            }
            "_mm256_set_epi32" | "_mm256_setr_epi32" => {
                let mut v = ints(self);
                if f == "_mm256_set_epi32" {
                    v.reverse();
                }
                mk32(v)
            }
            "_mm256_set_epi64x" | "_mm256_setr_epi64x" => {
                let mut v = ints(self);
                if f == "_mm256_set_epi64x" {
                    v.reverse();
                }
                mk64(v)
            }
            "_mm256_add_epi16" => { let v = zip(self, 2, &|x, y| s16(x.add(y))); mk16(v) }
            "_mm256_sub_epi16" => { let v = zip(self, 2, &|x, y| s16(x.sub(y))); mk16(v) }
            "_mm256_mullo_epi16" => { let v = zip(self, 2, &|x, y| s16(fa.mul(x, y))); mk16(v) }
            "_mm256_adds_epi16" => { let v = zip(self, 2, &|x, y| sat(x.add(y), -32768, 32767)); mk16(v) }
            "_mm256_subs_epi16" => { let v = zip(self, 2, &|x, y| sat(x.sub(y), -32768, 32767)); mk16(v) }
            "_mm256_mulhi_epi16" => { let v = zip(self, 2, &|x, y| fa.mk_div(&fa.mul(x, y), 65536)); mk16(v) }
            "_mm256_add_epi32" => { let v = zip(self, 4, &|x, y| s32(x.add(y))); mk32(v) }
            "_mm256_sub_epi32" => { let v = zip(self, 4, &|x, y| s32(x.sub(y))); mk32(v) }
            "_mm256_mullo_epi32" => { let v = zip(self, 4, &|x, y| s32(fa.mul(x, y))); mk32(v) }
            "_mm256_min_epi16" | "_mm256_max_epi16" => { let m = f.contains("max"); let v = zip(self, 2, &|x, y| fa.mk_min(x, y, m)); mk16(v) }
            "_mm256_min_epi32" | "_mm256_max_epi32" => { let m = f.contains("max"); let v = zip(self, 4, &|x, y| fa.mk_min(x, y, m)); mk32(v) }
            "_mm256_madd_epi16" => {
                let a = self.lanes(st, &args[0], 2);
                let b = self.lanes(st, &args[1], 2);
                let mut v = vec![];
                for i in 0..8 {
                    v.push(s32(fa.mul(&a[2 * i], &b[2 * i]).add(&fa.mul(&a[2 * i + 1], &b[2 * i + 1]))));
                }
                mk32(v)
            }
            "_mm256_srai_epi32" => {
                let a = self.lanes(st, &args[0], 4);
                let s = imm(0).min(31);
                mk32(a.iter().map(|p| fa.mk_div(p, 1i128 << s)).collect())
            }
            "_mm256_srai_epi16" => {
                let a = self.lanes(st, &args[0], 2);
                let s = imm(0).min(15);
                mk16(a.iter().map(|p| fa.mk_div(p, 1i128 << s)).collect())
            }
            "_mm256_srli_epi32" => {
                let a = self.lanes(st, &args[0], 4);
                let s = imm(0);
                mk32(a.iter().map(|p| if s > 31 { P::C(0) } else { s32(fa.mk_div(&wrap_range(&fa, p.clone(), 0, (1 << 32) - 1), 1i128 << s)) }).collect())
            }
            "_mm256_srli_epi16" => {
                let a = self.lanes(st, &args[0], 2);
                let s = imm(0);
                mk16(a.iter().map(|p| if s > 15 { P::C(0) } else { s16(fa.mk_div(&wrap_range(&fa, p.clone(), 0, 65535), 1i128 << s)) }).collect())
            }
            "_mm256_slli_epi32" => {
                let a = self.lanes(st, &args[0], 4);
                let s = imm(0);
                mk32(a.iter().map(|p| if s > 31 { P::C(0) } else { s32(p.scale(1i128 << s)) }).collect())
            }
            "_mm256_slli_epi16" => {
                let a = self.lanes(st, &args[0], 2);
                let s = imm(0);
                mk16(a.iter().map(|p| if s > 15 { P::C(0) } else { s16(p.scale(1i128 << s)) }).collect())
            }
            "_mm256_packs_epi32" => {
                let a = self.lanes(st, &args[0], 4);
                let b = self.lanes(st, &args[1], 4);
                let mut v = vec![];
                for h in 0..2 {
                    for i in 0..4 {
                        v.push(sat(a[h * 4 + i].clone(), -32768, 32767));
                    }
                    for i in 0..4 {
                        v.push(sat(b[h * 4 + i].clone(), -32768, 32767));
                    }
                }
                mk16(v)
            }
            "_mm256_unpacklo_epi16" | "_mm256_unpackhi_epi16" => {
                let o = if f.contains("hi") { 4 } else { 0 };
                let a = self.lanes(st, &args[0], 2);
                let b = self.lanes(st, &args[1], 2);
                let mut v = vec![];
                for h in 0..2 {
                    for i in 0..4 {
                        v.push(a[h * 8 + o + i].clone());
                        v.push(b[h * 8 + o + i].clone());
                    }
                }
                mk16(v)
            }
            "_mm256_unpacklo_epi32" | "_mm256_unpackhi_epi32" => {
                let o = if f.contains("hi") { 2 } else { 0 };
                let a = self.pairs(st, &args[0], 2);
                let b = self.pairs(st, &args[1], 2);
                let mut v = vec![];
                for h in 0..2 {
                    for i in 0..2 {
                        v.extend(a[h * 4 + o + i].iter().cloned());
                        v.extend(b[h * 4 + o + i].iter().cloned());
                    }
                }
                Some(V::Simd(Rc::new(v)))
            }
            "_mm256_unpacklo_epi64" | "_mm256_unpackhi_epi64" => {
                let o = if f.contains("hi") { 1 } else { 0 };
                let a = self.pairs(st, &args[0], 4);
                let b = self.pairs(st, &args[1], 4);
                let mut v = vec![];
                for h in 0..2 {
                    v.extend(a[h * 2 + o].iter().cloned());
                    v.extend(b[h * 2 + o].iter().cloned());
                }
                Some(V::Simd(Rc::new(v)))
            }
            "_mm256_permute2x128_si256" => {
                let m = imm(0);
                let a = self.pairs(st, &args[0], 8);
                let b = self.pairs(st, &args[1], 8);
                let pick = |k: i128| -> Vec<(u8, P)> {
                    if k & 8 != 0 {
                        return vec![(4, P::C(0)); 4];
                    }
                    match k & 3 {
                        0 => a[0].clone(),
                        1 => a[1].clone(),
                        2 => b[0].clone(),
                        _ => b[1].clone(),
                    }
                };
                let mut v = pick(m & 15);
                v.extend(pick((m >> 4) & 15));
                Some(V::Simd(Rc::new(v)))
            }
            "_mm256_permute4x64_epi64" => {
                let m = imm(0);
                let a = self.pairs(st, &args[0], 4);
                let mut v = vec![];
                for i in 0..4 {
                    v.extend(a[((m >> (2 * i)) & 3) as usize].iter().cloned());
                }
                Some(V::Simd(Rc::new(v)))
            }
            "_mm256_shuffle_epi32" => {
                let m = imm(0);
                let a = self.pairs(st, &args[0], 2);
                let mut v = vec![];
                for h in 0..2 {
                    for i in 0..4 {
                        v.extend(a[h * 4 + ((m >> (2 * i)) & 3) as usize].iter().cloned());
                    }
                }
                Some(V::Simd(Rc::new(v)))
            }
            "_mm256_sign_epi16" => {
                let a = self.lanes(st, &args[0], 2);
                let b = self.lanes(st, &args[1], 2);
                let mut v = vec![];
                for (x, y) in a.iter().zip(b.iter()) {
                    let r = match y.cst() {
                        Some(c) => {
                            if c > 0 { x.clone() } else if c == 0 { P::C(0) } else { s16(x.neg()) }
                        }
                        None => {
                            let pos = fa.mk_ge0(&y.addc(-1));
                            let neg = fa.mk_ge0(&y.neg().addc(-1));
                            fa.mul(&pos, x).sub(&fa.mul(&neg, x))
                        }
                    };
                    v.push(r);
                }
                mk16(v)
            }
            "_mm256_and_si256" | "_mm256_or_si256" | "_mm256_xor_si256" => {
                // lane width of the operands
                let w = match (&args[0], &args[1]) {
                    (V::Simd(a), V::Simd(b)) => a[0].0.max(b[0].0).min(4),
                    _ => 4,
                };
                let v = zip(self, w, &|x, y| match f {
                    "_mm256_and_si256" => fa.bit_and(x, y),
                    "_mm256_or_si256" => fa.bit_or(x, y),
                    _ => fa.bit_xor(x, y),
                });
                Some(V::Simd(Rc::new(v.into_iter().map(|p| (w, p)).collect())))
            }
            "_mm256_castsi128_si256" | "_mm256_castsi256_si128" => Some(args[0].clone()),
            "_mm256_extract_epi16" | "_mm256_extract_epi32" => {
                let w = if f.ends_with("16") { 2 } else { 4 };
                let a = self.lanes(st, &args[0], w);
                let p = a[imm(0) as usize % a.len()].clone();
                let p = if w == 2 { wrap_range(&fa, p, 0, 65535) } else { p };
                Some(V::I(p))
            }
            "_mm256_loadu_si256" | "_mm256_load_si256" => {
                let (w, n, base) = self.simd_mem(st, &args[0], "read")?;
                let t = simd_elem(w);
                let mut v = vec![];
                for i in 0..n {
                    let q = self.ptr_add(st, &base, t, &P::C(i as i128));
                    let l = self.deref_as(st, &q, t);
                    let x = self.read(st, &l);
                    let p = self.as_int(&x, t);
                    v.push((w, resolve_cst(&fa, wrap_range(&fa, p, -(1i128 << (8 * w as u32 - 1)), (1i128 << (8 * w as u32 - 1)) - 1))));
                }
                Some(V::Simd(Rc::new(v)))
            }
            _ => {
                let _ = dty;
                None
            }
        }
    }
    /// keep the sub-lane structure when moving whole groups; w = group size in bytes
    fn pairs(&mut self, st: &State, v: &V, w2: u8) -> Vec<Vec<(u8, P)>> {
        let bytes = w2 * 2;
        match v {
            V::Simd(l) if l[0].0 <= bytes => {
                let mut out = vec![];
                let mut cur = vec![];
                let mut n = 0;
                for (w, p) in l.iter() {
                    cur.push((*w, p.clone()));
                    n += *w;
                    if n >= bytes {
                        out.push(std::mem::take(&mut cur));
                        n = 0;
                    }
                }
                out
            }
            _ => {
                let w = if bytes >= 4 { 4 } else { 2 };
                let l = self.lanes(st, v, w);
                let per = (bytes / w) as usize;
                l.chunks(per).map(|c| c.iter().map(|p| (w, p.clone())).collect()).collect()
            }
        }
    }
    /// memory behind a register pointer: (element width, elements per register, typed pointer)
    fn simd_mem(&mut self, st: &State, p: &V, what: &str) -> Option<(u8, usize, V)> {
        if let V::Ptr(q) = p {
            let mut q2 = (**q).clone();
            // descend to scalar elements
            let mut t = q2.pty;
            loop {
                let tt = match t {
                    Some(t) => strip(t),
                    None => break,
                };
                match &*ti(tt) {
                    TI::Array(e, _) => {
                        q2.path.push(Step { p: Pr::X(P::C(0)), ct: Some(tt) });
                        t = Some(*e);
                    }
                    TI::Struct { fields, .. } if significant(fields).is_some() => {
                        let i = significant(fields).unwrap();
                        q2.path.push(Step { p: Pr::F(i as u32), ct: Some(tt) });
                        t = Some(fields[i]);
                    }
                    _ => break,
                }
            }
            q2.pty = t.map(strip);
            q2.meta = Meta::No;
            let w = q2.pty.and_then(size_of).unwrap_or(0) as u8;
            if !matches!(w, 1 | 2 | 4 | 8) {
                self.event("unsupported", "vector access to memory of unknown element type", vkind(p));
                return None;
            }
            let n = 32 / w as usize;
            let v = V::ptr(q2);
            self.check_access(st, &v, simd_elem(w), &P::C(n as i128), what);
            return Some((w, n, v));
        }
        self.event("unsupported", "vector access through unknown pointer", String::new());
        None
    }
    pub fn simd_store(&mut self, st: &mut State, p: &V, v: &V) -> bool {
        if let Some((w, n, base)) = self.simd_mem(st, p, "write") {
            let l = self.lanes(st, v, w);
            let t = simd_elem(w);
            for i in 0..n {
                let q = self.ptr_add(st, &base, t, &P::C(i as i128));
                let loc = self.deref_as(st, &q, t);
                self.write(st, &loc, V::I(l[i].clone()));
            }
            return true;
        }
        false
    }
}
/// a linear form over the reals plus an interval that collects the effects of rounding
#[derive(Default)]
struct Lin {
    k: std::collections::BTreeMap<AtomId, f64>,
    c: f64,
    lo: f64,
    hi: f64,
}
impl Lin {
    /// largest magnitude in thousandths, rounded up
    fn bound(&self, f: &Facts) -> i128 {
        let (mut lo, mut hi) = (self.c + self.lo, self.c + self.hi);
        for (a, k) in self.k.iter() {
            let (l, h) = f.range(&P::atom(*a));
            if l <= -(1 << 60) || h >= (1 << 60) {
                return 1 << 60;
            }
            let (x, y) = (*k * l as f64, *k * h as f64);
            lo += x.min(y);
            hi += x.max(y);
        }
        (lo.abs().max(hi.abs()) * 1000.0 + 0.01).ceil() as i128
    }
}
/// adds w * p, with each floor division written as the exact quotient minus a remainder in [0, 1)
fn lin_real(p: &P, w: f64, acc: &mut Lin) -> bool {
    acc.c += w * p.c0() as f64;
    for (m, k) in p.terms() {
        if m[1] != 0 {
            return false;
        }
        let w = w * *k as f64;
        match atom_kind(m[0]) {
            AK::Fresh(..) | AK::Load(..) => *acc.k.entry(m[0]).or_insert(0.0) += w,
            AK::Div(q, c) => {
                let e = w * (c - 1) as f64 / c as f64;
                if e > 0.0 {
                    acc.lo -= e;
                } else {
                    acc.hi -= e;
                }
                if !lin_real(&q, w / c as f64, acc) {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}
impl Engine {
    fn dct_error(&mut self, st: &State, p: &P, inputs: &V, u: usize, v: usize) -> i128 {
        let mut acc = Lin::default();
        if !lin_real(p, 1.0, &mut acc) {
            return 1 << 60;
        }
        let (arr, ix) = match inputs {
            V::Ptr(q) => {
                let b = self.read_base(st, &q.base);
                let (pa, ia) = split_idx(&q.path);
                match self.get(st, &b, &pa) {
                    V::A(a) => (a, ia),
                    _ => return 1 << 60,
                }
            }
            _ => return 1 << 60,
        };
        let pi = std::f64::consts::PI;
        let cc = |k: usize| if k == 0 { std::f64::consts::FRAC_1_SQRT_2 } else { 1.0 };
        for y in 0..8i128 {
            for x in 0..8i128 {
                let l = self.arr_get(st, &arr, &ix.addc(y * 8 + x));
                let a = match &l {
                    V::I(q) => q.as_atom(),
                    _ => None,
                };
                let t = 2.0 * cc(u) * cc(v) * ((2 * x + 1) as f64 * u as f64 * pi / 16.0).cos() * ((2 * y + 1) as f64 * v as f64 * pi / 16.0).cos();
                match a {
                    Some(a) => *acc.k.entry(a).or_insert(0.0) -= t,
                    None => return 1 << 60,
                }
            }
        }
        acc.bound(&st.facts)
    }
}
fn simd_elem(w: u8) -> Ty {
    match w {
        1 => Ty::signed_ty(IntTy::I8),
        2 => Ty::signed_ty(IntTy::I16),
        4 => Ty::signed_ty(IntTy::I32),
        _ => Ty::signed_ty(IntTy::I64),
    }
}
fn to_unsigned(t: Ty) -> Ty {
    match size_of(t) {
        Some(1) => Ty::unsigned_ty(UintTy::U8),
        Some(2) => Ty::unsigned_ty(UintTy::U16),
        Some(4) => Ty::unsigned_ty(UintTy::U32),
        _ => Ty::unsigned_ty(UintTy::U64),
    }
}
pub fn int_bits(t: Ty) -> u32 {
    match &*ti(strip_struct(t)) {
        TI::Int { bits, .. } => *bits,
        _ => 64,
    }
}
fn zero_v(t: Ty, b: i128) -> V {
    match &*ti(strip(t)) {
        TI::Int { signed, bits } => {
            if *signed && *bits == 8 && b > 127 {
                V::c(b - 256)
            } else {
                V::c(b)
            }
        }
        TI::Array(e, Some(n)) => V::arr(vec![zero_v(*e, b); *n as usize]),
        TI::Struct { fields, .. } => V::st(fields.iter().map(|f| zero_v(*f, b)).collect()),
        _ => V::c(b),
    }
}
fn self_ok(dty: Ty) -> V {
    match &*ti(dty) {
        TI::Enum { .. } => V::en(0, vec![V::unit()]),
        _ => V::unit(),
    }
}
