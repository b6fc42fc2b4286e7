//! The abstract interpreter: memory access, statements, terminators, control flow.
use crate::body::*;
use crate::join::*;
use crate::poly::*;
use crate::val::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: String,
    pub id: String,
    pub detail: String,
    pub stack: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Loc {
    pub base: Base,
    pub path: Vec<Step>,
    pub ty: Ty,
    pub view: bool,
    pub meta: Meta,
    pub variant: Option<u32>,
}
pub struct Engine {
    pub bodies: HashMap<Instance, Option<Rc<FnBody>>>,
    pub globals: Vec<V>,
    pub gtys: Vec<Option<Ty>>,
    pub gmap: HashMap<(AllocId, Option<Ty>), u32>,
    pub next_heap: u32,
    pub next_ver: u32,
    pub stack: Vec<(Rc<FnBody>, usize)>,
    pub events: Vec<Event>,
    pub seen_fns: HashSet<String>,
    pub checks: BTreeMap<String, u64>,
    pub steps: u64,
    pub models: HashMap<String, rustc_public::CrateItem>,
    pub model_hits: BTreeMap<String, u64>,
    pub quiet: u32,
    pub trace: bool,
    pub stubs: Vec<String>,
    pub parts: Vec<i128>,
    pub part_pos: usize,
    pub part_ns: Vec<i128>,
    pub avx2: Option<bool>,
    pub merge_cap: usize,
    pub deadline: std::time::Instant,
    pub span_cache: HashMap<Span, String>,
    pub names: HashMap<Instance, Rc<(String, String)>>,
    pub prof: HashMap<String, u64>,
    pub loop_marks: Vec<AtomId>,
    pub unroll_cap: usize,
    pub next_note: std::time::Instant,
    pub drops: HashMap<Ty, bool>,
    pub ite: bool,
    pub features: HashMap<String, P>,
    pub tf: HashMap<rustc_public::DefId, Vec<String>>,
}
#[derive(Clone, Debug)]
pub struct Fail(pub String);
pub type R<T> = Result<T, Fail>;

pub struct Ctx {
    pub fb: Rc<FnBody>,
    pub frame: u32,
}

impl Engine {
    pub fn span_str(&mut self, sp: Span) -> String {
        if let Some(s) = self.span_cache.get(&sp) {
            return s.clone();
        }
        let l = sp.get_lines();
        let f = sp.get_filename().to_string();
        let f = f.strip_prefix("/repo/").unwrap_or(&f).to_string();
        let s = format!("{}:{}", f, l.start_line);
        self.span_cache.insert(sp, s.clone());
        s
    }
    pub fn stack_strs(&mut self) -> Vec<String> {
        let st: Vec<(Rc<FnBody>, usize)> = self.stack.clone();
        let mut v = vec![];
        for (fb, bb) in st.iter() {
            let sp = fb.body.blocks[*bb].terminator.source_info.span;
            let s = self.span_str(sp);
            v.push(format!("{} ({})", short(&fb.name), s));
        }
        v
    }
    /// the current function is an unchecked operation of the standard library that the crate calls itself
    pub fn called_from_crate(&self) -> bool {
        const OPS: [&str; 12] = ["get_unchecked", "ptr::read", "ptr::write", "const_ptr::", "mut_ptr::", "_unchecked", "set_len", "check_language_ub", "from_raw_parts", "copy_nonoverlapping", "ptr::copy", "ptr::swap"];
        for (fb, _) in self.stack.iter().rev() {
            if fb.local {
                return !fb.name.contains("__jsa");
            }
            if !OPS.iter().any(|o| fb.name.contains(o)) {
                return false;
            }
        }
        false
    }
    pub fn event(&mut self, kind: &str, id: &str, detail: String) {
        let stack = self.stack_strs();
        self.events.push(Event { kind: kind.into(), id: id.into(), detail, stack });
    }
    pub fn imprecise(&mut self, msg: &str) {
        if self.events.iter().filter(|e| e.kind == "imprecise").count() > 200 {
            return;
        }
        self.event("imprecise", "", msg.to_string());
    }
    pub fn new_heap(&mut self, st: &mut State, v: V) -> u32 {
        self.next_heap += 1;
        Rc::make_mut(&mut st.heap).insert(self.next_heap, Rc::new(v));
        self.next_heap
    }
    pub fn body(&mut self, i: Instance) -> Option<Rc<FnBody>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let b = prepare(i).map(Rc::new);
        self.bodies.insert(i, b.clone());
        b
    }
    // ---------- values ----------
    pub fn any(&mut self, ty: Ty, label: &str) -> V {
        match &*ti(ty) {
            TI::Int { .. } | TI::Bool | TI::Char => {
                let (lo, hi) = int_range(ty).unwrap();
                V::I(fresh(label, lo, hi))
            }
            TI::Transparent(t) => self.any(*t, label),
            TI::Struct { fields, name } => {
                let n = name.clone();
                let v = fields.iter().map(|t| self.any(*t, label)).collect::<Vec<_>>();
                if n.contains("NonZero") && v.len() == 1 {
                    // value >= 1
                    if let Some((_, hi)) = int_range(strip_struct(fields[0])) {
                        return wrap_single(fields[0], V::I(fresh(label, 1, hi)));
                    }
                }
                V::st(v)
            }
            TI::Enum { variants, .. } => {
                let v = variants
                    .iter()
                    .enumerate()
                    .map(|(i, fs)| (i as u32, Rc::new(fs.iter().map(|t| self.any(*t, label)).collect::<Vec<_>>())))
                    .collect::<Vec<_>>();
                V::E(Rc::new(v))
            }
            TI::Array(t, Some(n)) if *n <= 4096 => {
                let v = (0..*n).map(|_| self.any(*t, label)).collect();
                V::arr(v)
            }
            TI::FnDef => V::unit(),
            _ => V::T,
        }
    }
    pub fn expand(&mut self, ty: Ty, top: bool) -> V {
        let leaf = if top { V::T } else { V::U };
        match &*ti(ty) {
            TI::Struct { fields, .. } => V::st(fields.iter().map(|_| leaf.clone()).collect()),
            TI::Array(_, Some(n)) if *n <= 65536 => V::arr(vec![leaf; *n as usize]),
            TI::Transparent(t) => self.expand(*t, top),
            _ => leaf,
        }
    }
    pub fn as_int(&mut self, v: &V, ty: Ty) -> P {
        match v {
            V::I(p) => p.clone(),
            V::S(f) if f.len() == 1 => {
                let v = f[0].clone();
                self.as_int(&v, ty)
            }
            V::U => {
                self.event("uninit-read", "a value that was never written is used", String::new());
                let (lo, hi) = int_range(ty).unwrap_or((-INF, INF));
                fresh("?", lo, hi)
            }
            _ => {
                let (lo, hi) = int_range(ty).unwrap_or((-INF, INF));
                fresh("?", lo, hi)
            }
        }
    }
    // ---------- memory ----------
    pub fn get(&mut self, st: &State, v: &V, path: &[Step]) -> V {
        if path.is_empty() {
            return v.clone();
        }
        match (&path[0].p, v) {
            (_, V::T) => V::T,
            (_, V::U) => V::U,
            (Pr::F(i), V::S(f)) => {
                if (*i as usize) < f.len() {
                    self.get(st, &f[*i as usize], &path[1..])
                } else {
                    V::T
                }
            }
            (Pr::V(i), V::E(vs)) => {
                for (k, f) in vs.iter() {
                    if k == i {
                        return self.get(st, &V::S(f.clone()), &path[1..]);
                    }
                }
                V::T
            }
            (Pr::X(p), V::A(a)) => {
                let e = self.arr_get(st, a, p);
                self.get(st, &e, &path[1..])
            }
            (Pr::X(p), _) if st.facts.is_zero(p) == Some(true) => self.get(st, v, &path[1..]),
            (Pr::F(0), V::Simd(_)) => V::T,
            // wrapper struct seen through a pointer to what it wraps
            (Pr::F(_), V::Ptr(_) | V::I(_)) => self.get(st, v, &path[1..]),
            _ => {
                self.imprecise(&format!("get {:?} of {}", path[0].p, vkind(v)));
                V::T
            }
        }
    }
    pub fn arr_get(&mut self, st: &State, a: &ArrV, p: &P) -> V {
        match a {
            ArrV::D(v) => {
                if let Some(c) = p.cst() {
                    if c >= 0 && (c as usize) < v.len() {
                        return v[c as usize].clone();
                    }
                    return V::T;
                }
                if v.is_empty() {
                    return V::T;
                }
                let (lo, hi) = st.facts.range(p);
                let lo = lo.max(0) as usize;
                let hi = hi.min(v.len() as i128 - 1).max(0) as usize;
                if lo > hi {
                    return V::T;
                }
                let mut r = v[lo].clone();
                if v[lo + 1..=hi].iter().all(|x| *x == r) {
                    return r;
                }
                // table of integer constants: keep an exact function of the index
                if v[lo..=hi].iter().all(|x| matches!(x, V::I(P::C(_)))) {
                    let cs: Vec<i128> = v[lo..=hi].iter().map(|x| if let V::I(P::C(c)) = x { *c } else { 0 }).collect();
                    let (a, b) = (*cs.iter().min().unwrap(), *cs.iter().max().unwrap());
                    let mut args = vec![p.addc(-(lo as i128))];
                    args.extend(cs.into_iter().map(P::C));
                    return V::I(op("tab", args, a, b));
                }
                let mut h = Hull::new(&st.facts);
                for x in v[lo + 1..=hi].iter() {
                    r = h.join(&r, x);
                }
                r
            }
            ArrV::S { segs, .. } => self.seg_get(st, segs, p),
        }
    }
    pub fn seg_get(&mut self, st: &State, segs: &[Seg], p: &P) -> V {
        let f = &st.facts;
        let mut maybe: Vec<usize> = vec![];
        for (i, s) in segs.iter().enumerate() {
            let after = f.cmp_ge0(&p.sub(&s.s)); // p >= s
            if after == Some(false) {
                continue;
            }
            let before = f.cmp_ge0(&s.e.sub(p).addc(-1)); // p < e
            if before == Some(false) {
                continue;
            }
            if after == Some(true) && before == Some(true) {
                return self.seg_val(st, s, p);
            }
            maybe.push(i);
        }
        if maybe.is_empty() {
            return V::U;
        }
        if maybe.len() == 1 {
            return self.seg_val(st, &segs[maybe[0]], p);
        }
        if maybe.len() == 2 && maybe[1] == maybe[0] + 1 {
            // a row followed by copies of its last element
            let (a, b) = (&segs[maybe[0]], &segs[maybe[1]]);
            if let (SV::Map(k, body), SV::Const(c)) = (&a.v, &b.v) {
                let mut m = HashMap::new();
                m.insert(*k, a.e.addc(-1));
                let last = subst_v(body, m, f);
                if last == *c {
                    let idx = f.mk_min(p, &a.e.addc(-1), false);
                    let mut m = HashMap::new();
                    m.insert(*k, idx);
                    return subst_v(body, m, f);
                }
            }
        }
        let mut r: Option<V> = None;
        let mut h = Hull::new(f);
        for i in maybe {
            let x = self.seg_val(st, &segs[i], p);
            r = Some(match r {
                None => x,
                Some(y) => h.join(&y, &x),
            });
        }
        r.unwrap()
    }
    fn seg_val(&mut self, st: &State, s: &Seg, p: &P) -> V {
        match &s.v {
            SV::Un => V::U,
            SV::Const(v) => v.clone(),
            SV::Map(k, body) => {
                let mut m = HashMap::new();
                m.insert(*k, p.clone());
                subst_v(body, m, &st.facts)
            }
            SV::Sum(v) => refresh(v, &st.facts),
            SV::Rep(k, stride, inner) => {
                let d = p.sub(&s.s);
                match divide(&d, stride, &st.facts) {
                    Some((q, r)) => {
                        let mut m = HashMap::new();
                        m.insert(*k, q);
                        let segs: Vec<Seg> = inner.iter().map(|g| subst_seg(g, &m, &st.facts)).collect();
                        self.seg_get(st, &segs, &r)
                    }
                    None => {
                        self.imprecise(&format!("repeated row index {:?} by {:?}", d, stride));
                        V::T
                    }
                }
            }
        }
    }
    pub fn put(&mut self, facts: &Facts, v: &mut V, path: &[Step], new: V) {
        if path.is_empty() {
            if matches!(v, V::Ptr(_)) && matches!(new, V::S(_)) {
                let l = crate::model::leaf(&new);
                if let V::Ptr(_) = l {
                    *v = l;
                    return;
                }
            }
            *v = new;
            return;
        }
        if matches!(v, V::U | V::T) {
            let top = matches!(v, V::T);
            if let Some(ct) = path[0].ct {
                *v = self.expand(ct, top);
            }
            if matches!(v, V::U | V::T) {
                match &path[0].p {
                    Pr::F(i) => *v = V::st(vec![if top { V::T } else { V::U }; *i as usize + 1]),
                    Pr::V(i) => {
                        *v = V::en(*i, vec![]);
                    }
                    Pr::X(p) => {
                        if facts.is_zero(p) == Some(true) && path.len() == 1 {
                            *v = new;
                        }
                        return;
                    }
                }
            }
        }
        match (&path[0].p, v) {
            (Pr::F(_), v @ (V::Ptr(_) | V::I(_))) => self.put(facts, v, &path[1..], new),
            (Pr::F(i), V::S(f)) => {
                let f = Rc::make_mut(f);
                while f.len() <= *i as usize {
                    f.push(V::U);
                }
                self.put(facts, &mut f[*i as usize], &path[1..], new)
            }
            (Pr::V(i), V::E(vs)) => {
                let vs = Rc::make_mut(vs);
                vs.retain(|x| x.0 == *i);
                if vs.is_empty() {
                    vs.push((*i, Rc::new(vec![])));
                }
                let mut inner = V::S(std::mem::replace(&mut vs[0].1, Rc::new(vec![])));
                self.put(facts, &mut inner, &path[1..], new);
                if let V::S(x) = inner {
                    vs[0].1 = x;
                }
            }
            (Pr::X(p), V::A(a)) => {
                let a = Rc::make_mut(a);
                self.arr_put(facts, a, p, &path[1..], new)
            }
            (Pr::X(p), v) if facts.is_zero(p) == Some(true) => self.put(facts, v, &path[1..], new),
            (p, v) => {
                let m = format!("put {:?} of {}", p, vkind(v));
                self.imprecise(&m);
                *v = V::T;
            }
        }
    }
    fn arr_put(&mut self, facts: &Facts, a: &mut ArrV, p: &P, rest: &[Step], new: V) {
        match a {
            ArrV::D(v) => {
                if let Some(c) = p.cst() {
                    if c >= 0 && (c as usize) < v.len() {
                        self.put(facts, &mut v[c as usize], rest, new);
                    }
                    return;
                }
                let (lo, hi) = facts.range(p);
                let lo = lo.max(0) as usize;
                let hi = hi.min(v.len() as i128 - 1);
                let mut i = lo;
                while (i as i128) <= hi {
                    let mut x = v[i].clone();
                    self.put(facts, &mut x, rest, new.clone());
                    v[i] = Hull::new(facts).join(&v[i], &x);
                    i += 1;
                }
            }
            ArrV::S { segs, len } => {
                let end = segs.last().map(|s| s.e.clone()).unwrap_or(P::C(0));
                let d = p.sub(&end);
                match facts.is_zero(&d) {
                    Some(true) => {
                        let mut x = V::U;
                        self.put(facts, &mut x, rest, new);
                        push_seg(segs, Seg { s: p.clone(), e: p.addc(1), v: SV::Const(x) });
                    }
                    _ => {
                        if facts.ge0(&d) {
                            segs.push(Seg { s: end, e: p.clone(), v: SV::Un });
                            let mut x = V::U;
                            self.put(facts, &mut x, rest, new);
                            segs.push(Seg { s: p.clone(), e: p.addc(1), v: SV::Const(x) });
                            return;
                        }
                        // inside: find an exactly matching single cell
                        for s in segs.iter_mut() {
                            if s.s == *p && s.e == p.addc(1) {
                                let mut x = match &s.v {
                                    SV::Const(v) => v.clone(),
                                    _ => V::U,
                                };
                                self.put(facts, &mut x, rest, new);
                                s.v = SV::Const(x);
                                return;
                            }
                        }
                        // start of an Un segment or split of a known segment
                        for i in 0..segs.len() {
                            if facts.ge0(&p.sub(&segs[i].s)) && facts.ge0(&segs[i].e.sub(p).addc(-1)) && rest.is_empty() && !matches!(segs[i].v, SV::Rep(..)) {
                                let s = segs[i].clone();
                                let mut n: Vec<Seg> = vec![];
                                if facts.is_zero(&p.sub(&s.s)) != Some(true) {
                                    n.push(Seg { s: s.s.clone(), e: p.clone(), v: s.v.clone() });
                                }
                                n.push(Seg { s: p.clone(), e: p.addc(1), v: SV::Const(new.clone()) });
                                if facts.is_zero(&s.e.sub(p).addc(-1)) != Some(true) {
                                    n.push(Seg { s: p.addc(1), e: s.e.clone(), v: s.v.clone() });
                                }
                                segs.splice(i..i + 1, n);
                                return;
                            }
                        }
                        // collapse
                        let mut x = V::T;
                        if rest.is_empty() {
                            x = new;
                        }
                        collapse_into(segs, &len.clone(), Some(x), facts);
                    }
                }
            }
        }
    }
    pub fn read_base(&self, st: &State, b: &Base) -> V {
        match b {
            Base::L(f, l) => st.frames.get(*f as usize).map(|x| x[*l as usize].clone()).unwrap_or(V::T),
            Base::H(h) => st.heap.get(h).map(|v| (**v).clone()).unwrap_or(V::T),
            Base::G(g) => self.globals[*g as usize].clone(),
            Base::D(_) => V::T,
        }
    }
    pub fn read(&mut self, st: &State, loc: &Loc) -> V {
        // fast path on locals without cloning the root
        if loc.view {
            return self.read_view(st, loc);
        }
        let v = match &loc.base {
            Base::L(f, l) => {
                let fr = st.frames[*f as usize].clone();
                let v = &fr[*l as usize];
                self.get(st, v, &loc.path)
            }
            Base::H(h) => match st.heap.get(h).cloned() {
                Some(v) => self.get(st, &v, &loc.path),
                None => V::T,
            },
            Base::G(g) => {
                let v = self.globals[*g as usize].clone();
                self.get(st, &v, &loc.path)
            }
            Base::D(_) => {
                if is_zst(loc.ty) {
                    return self.expand(loc.ty, false);
                }
                self.imprecise("read through dangling pointer");
                V::T
            }
        };
        self.fix_read(st, v, loc)
    }
    fn fix_read(&mut self, _st: &State, v: V, loc: &Loc) -> V {
        match v {
            V::T | V::U => match &*ti(loc.ty) {
                TI::Int { .. } | TI::Bool | TI::Char => {
                    if let V::T = v {
                        self.any(loc.ty, "?")
                    } else {
                        V::U
                    }
                }
                TI::Struct { fields, .. } if fields.is_empty() => V::unit(),
                TI::FnDef => V::unit(),
                _ => v,
            },
            V::Ptr(_) | V::I(_) if matches!(&*ti(loc.ty), TI::Struct { .. }) => crate::model::fill(loc.ty, v),
            _ => v,
        }
    }
    fn read_view(&mut self, st: &State, loc: &Loc) -> V {
        // type is an array (or SIMD register) but the pointer addresses elements
        let (n, es) = match &*ti(strip(loc.ty)) {
            TI::Array(t, Some(n)) => (*n, size_of(*t).unwrap_or(1)),
            TI::Simd => (0, 0),
            _ => (0, 0),
        };
        let _ = es;
        if n == 0 {
            return V::T;
        }
        let mut v = vec![];
        for i in 0..n {
            let mut l = loc.clone();
            l.view = false;
            bump(&mut l.path, &P::C(i as i128));
            if let TI::Array(t, _) = &*ti(strip(loc.ty)) {
                l.ty = *t;
            }
            v.push(self.read(st, &l));
        }
        V::arr(v)
    }
    pub fn write(&mut self, st: &mut State, loc: &Loc, v: V) {
        if loc.view {
            if let (TI::Array(t, Some(n)), V::A(a)) = (&*ti(strip(loc.ty)), &v) {
                for i in 0..*n {
                    let mut l = loc.clone();
                    l.view = false;
                    l.ty = *t;
                    bump(&mut l.path, &P::C(i as i128));
                    let x = self.arr_get(st, a, &P::C(i as i128));
                    self.write(st, &l, x);
                }
                return;
            }
            self.imprecise("write through view");
            return;
        }
        let facts = st.facts.clone();
        match &loc.base {
            Base::L(f, l) => {
                let fr = &mut st.frames[*f as usize];
                let fr = Rc::make_mut(fr);
                let mut x = std::mem::replace(&mut fr[*l as usize], V::U);
                self.put(&facts, &mut x, &loc.path, v);
                Rc::make_mut(&mut st.frames[*f as usize])[*l as usize] = x;
            }
            Base::H(h) => {
                let hp = Rc::make_mut(&mut st.heap);
                if let Some(r) = hp.get_mut(h) {
                    let mut x = std::mem::replace(Rc::make_mut(r), V::U);
                    self.put(&facts, &mut x, &loc.path, v);
                    let hp = Rc::make_mut(&mut st.heap);
                    *Rc::make_mut(hp.get_mut(h).unwrap()) = x;
                }
            }
            Base::G(_) => {
                self.event("global-write", "write to static memory", String::new());
            }
            Base::D(_) => {
                if !is_zst(loc.ty) {
                    self.imprecise("write through dangling pointer");
                }
            }
        }
    }
    // ---------- places ----------
    pub fn place(&mut self, st: &State, cx: &Ctx, p: &Place) -> Loc {
        let mut loc = Loc { base: Base::L(cx.frame, p.local as u32), path: vec![], ty: cx.fb.tys[p.local], view: false, meta: Meta::No, variant: None };
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read(st, &loc);
                    loc = self.deref(st, &v, loc.ty);
                }
                ProjectionElem::Field(i, t) => {
                    let cur = loc.ty;
                    if let TI::Transparent(_) = &*ti(cur) {
                        // representation-transparent wrapper: the value is the inner value
                        if !is_zst(*t) || is_zst(cur) {
                            loc.ty = *t;
                        } else {
                            loc.ty = *t;
                        }
                        continue;
                    }
                    loc.path.push(Step { p: Pr::F(*i as u32), ct: if loc.variant.is_some() { None } else { Some(cur) } });
                    loc.variant = None;
                    loc.ty = *t;
                }
                ProjectionElem::Downcast(v) => {
                    loc.path.push(Step { p: Pr::V(v.to_index() as u32), ct: None });
                    loc.variant = Some(v.to_index() as u32);
                }
                ProjectionElem::Index(l) => {
                    let iv = {
                        let il = Loc { base: Base::L(cx.frame, *l as u32), path: vec![], ty: cx.fb.tys[*l], view: false, meta: Meta::No, variant: None };
                        let v = self.read(st, &il);
                        let p = self.as_int(&v, cx.fb.tys[*l]);
                        resolve_cst(&st.facts, p)
                    };
                    self.index_loc(&mut loc, iv);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let iv = if *from_end { self.loc_len(&loc).addc(-(*offset as i128)) } else { P::C(*offset as i128) };
                    self.index_loc(&mut loc, iv);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let len = self.loc_len(&loc);
                    let start = P::C(*from as i128);
                    let end = if *from_end { len.addc(-(*to as i128)) } else { P::C(*to as i128) };
                    let is_arr = matches!(&*ti(loc.ty), TI::Array(..));
                    if is_arr {
                        if !loc.view {
                            loc.path.push(Step { p: Pr::X(start.clone()), ct: Some(loc.ty) });
                        } else {
                            bump(&mut loc.path, &start);
                        }
                        if let TI::Array(t, _) = &*ti(loc.ty) {
                            if let Ok(nt) = Ty::try_new_array(*t, end.sub(&start).cst().unwrap_or(0) as u64) {
                                loc.ty = nt;
                            }
                        }
                        loc.view = true;
                    } else {
                        bump(&mut loc.path, &start);
                        loc.meta = Meta::Len(end.sub(&start));
                    }
                }
                ProjectionElem::OpaqueCast(t) => loc.ty = *t,
            }
        }
        loc
    }
    pub fn loc_len(&mut self, loc: &Loc) -> P {
        if let Meta::Len(l) = &loc.meta {
            return l.clone();
        }
        if let TI::Array(_, Some(n)) = &*ti(strip(loc.ty)) {
            return P::C(*n as i128);
        }
        P::C(0)
    }
    fn index_loc(&mut self, loc: &mut Loc, iv: P) {
        let t = ti(strip(loc.ty));
        match &*t {
            TI::Slice(e) => {
                bump(&mut loc.path, &iv);
                loc.ty = *e;
                loc.meta = Meta::No;
            }
            TI::Str => {
                bump(&mut loc.path, &iv);
                loc.meta = Meta::No;
            }
            TI::Array(e, _) => {
                if loc.view {
                    bump(&mut loc.path, &iv);
                    loc.view = false;
                } else {
                    loc.path.push(Step { p: Pr::X(iv), ct: Some(strip(loc.ty)) });
                }
                loc.ty = *e;
            }
            _ => self.imprecise("index of non-array"),
        }
    }
    pub fn deref(&mut self, st: &State, v: &V, pt: Ty) -> Loc {
        let pt = strip(pt);
        let pointee = match &*ti(pt) {
            TI::Ptr(t) => *t,
            TI::Struct { fields, .. } if !fields.is_empty() => {
                // Box and friends: go through the fields
                if let V::S(f) = v {
                    let v0 = f[0].clone();
                    return self.deref(st, &v0, fields[0]);
                }
                pt
            }
            _ => pt,
        };
        match v {
            V::Ptr(p) => {
                let mut loc = Loc { base: p.base.clone(), path: p.path.clone(), ty: pointee, view: false, meta: p.meta.clone(), variant: None };
                if let Base::D(_) = p.base {
                    return loc;
                }
                if let Some(pty) = p.pty {
                    self.adjust(&mut loc, pty, pointee, 0);
                }
                loc
            }
            _ => {
                Loc { base: Base::D(P::C(0)), path: vec![], ty: pointee, view: false, meta: Meta::No, variant: None }
            }
        }
    }
    /// the pointer addresses an object of type `have`, the access wants type `want`
    fn adjust(&mut self, loc: &mut Loc, have: Ty, want: Ty, depth: u32) {
        let have = strip(have);
        let want_s = strip(want);
        if have == want_s || depth > 6 {
            return;
        }
        let (h, w) = (ti(have), ti(want_s));
        match (&*h, &*w) {
            (_, TI::Slice(e)) => {
                // pointer to the first element
                if let TI::Array(t, _) = &*h {
                    if strip(*t) == strip(*e) || same_repr(*t, *e) {
                        loc.path.push(Step { p: Pr::X(P::C(0)), ct: Some(have) });
                    }
                }
            }
            (_, TI::Str) => {}
            (TI::Array(t, _), TI::Array(e, _)) => {
                if strip(*t) == strip(*e) || same_repr(*t, *e) {
                    // same elements, other length
                    loc.path.push(Step { p: Pr::X(P::C(0)), ct: Some(have) });
                    loc.view = true;
                } else if strip(*t) == want_s {
                    loc.path.push(Step { p: Pr::X(P::C(0)), ct: Some(have) });
                } else if strip(*e) == have {
                    loc.view = true;
                }
            }
            (_, TI::Array(e, _)) if strip(*e) == have || same_repr(*e, have) => {
                loc.view = true;
            }
            (TI::Array(t, _), _) => {
                loc.path.push(Step { p: Pr::X(P::C(0)), ct: Some(have) });
                let t = *t;
                self.adjust(loc, t, want, depth + 1);
            }
            (TI::Struct { fields, .. }, _) => {
                if let Some(i) = significant(fields) {
                    // ascend if the wanted type wraps, else descend
                    if depth == 0 && wraps(want_s, have) {
                        return;
                    }
                    loc.path.push(Step { p: Pr::F(i as u32), ct: Some(have) });
                    let t = fields[i];
                    self.adjust(loc, t, want, depth + 1);
                }
            }
            _ => {}
        }
    }
    pub fn loc_ptr(&mut self, loc: &Loc) -> PtrV {
        PtrV { base: loc.base.clone(), path: loc.path.clone(), pty: Some(loc.ty), meta: loc.meta.clone() }
    }
    /// a reference/raw pointer to the place
    pub fn addr_of(&mut self, loc: &Loc) -> V {
        let mut p = PtrV { base: loc.base.clone(), path: loc.path.clone(), pty: Some(loc.ty), meta: Meta::No };
        match &*ti(loc.ty) {
            TI::Slice(e) => {
                p.pty = Some(*e);
                p.meta = loc.meta.clone();
            }
            TI::Str => {
                p.pty = None;
                p.meta = loc.meta.clone();
            }
            TI::Dyn => p.meta = loc.meta.clone(),
            TI::Array(e, _) if loc.view => {
                p.pty = Some(*e);
            }
            TI::Struct { .. } => p.meta = loc.meta.clone(),
            _ => {}
        }
        V::ptr(p)
    }
    // ---------- constants ----------
    pub fn constant(&mut self, c: &MirConst) -> V {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => self.expand(ty, false).zst(ty),
            ConstantKind::Allocated(a) => self.decode(ty, a, 0),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(v) => V::c(v as i128),
                Err(_) => V::T,
            },
            _ => {
                self.imprecise("unevaluated constant");
                V::T
            }
        }
    }
    pub fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> V {
        let t = ti(ty);
        match &*t {
            TI::Transparent(i) => self.decode(*i, a, off),
            TI::Int { bits, signed } => {
                let n = (*bits / 8) as usize;
                // pointer disguised as integer
                if a.provenance.ptrs.iter().any(|(s, _)| *s == off) {
                    return V::T;
                }
                match a.read_partial_uint(off..off + n) {
                    Ok(v) => {
                        let mut v = v as i128;
                        if *signed && *bits < 128 && v >= 1i128 << (bits - 1) {
                            v -= 1i128 << bits;
                        }
                        V::c(v)
                    }
                    Err(_) => V::U,
                }
            }
            TI::Bool => a.read_partial_uint(off..off + 1).map(|v| V::c(v as i128)).unwrap_or(V::U),
            TI::Char => a.read_partial_uint(off..off + 4).map(|v| V::c(v as i128)).unwrap_or(V::U),
            TI::Struct { fields, .. } => {
                let offs = field_offsets(ty, fields.len());
                let v = fields.iter().enumerate().map(|(i, f)| self.decode(*f, a, off + offs[i])).collect();
                V::st(v)
            }
            TI::Array(t, Some(n)) => {
                let s = size_of(*t).unwrap_or(0) as usize;
                if *n > 200_000 {
                    return V::T;
                }
                V::arr((0..*n as usize).map(|i| self.decode(*t, a, off + i * s)).collect())
            }
            TI::Ptr(p) => self.decode_ptr(*p, a, off),
            TI::FnPtr => {
                if let Some((_, pr)) = a.provenance.ptrs.iter().find(|(s, _)| *s == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(pr.0) {
                        return V::FnP(i);
                    }
                }
                V::T
            }
            TI::FnDef => V::unit(),
            TI::Enum { variants, discr, .. } => match decode_variant(ty, a, off, variants.len(), discr) {
                Some(vi) => {
                    let offs = variant_offsets(ty, vi, variants[vi].len());
                    let f = variants[vi].iter().enumerate().map(|(i, t)| self.decode(*t, a, off + offs[i])).collect();
                    V::en(vi as u32, f)
                }
                None => {
                    self.imprecise("enum constant");
                    V::T
                }
            },
            _ => V::T,
        }
    }
    fn decode_ptr(&mut self, pointee: Ty, a: &Allocation, off: usize) -> V {
        let prov = a.provenance.ptrs.iter().find(|(s, _)| *s == off).map(|x| x.1 .0);
        let addr = a.read_partial_uint(off..off + 8).unwrap_or(0) as i128;
        let wide = matches!(&*ti(pointee), TI::Slice(_) | TI::Str | TI::Dyn);
        let meta = if matches!(&*ti(pointee), TI::Slice(_) | TI::Str) {
            Meta::Len(P::C(a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as i128))
        } else {
            Meta::No
        };
        let _ = wide;
        match prov {
            None => V::ptr(PtrV { base: Base::D(P::C(addr)), path: vec![], pty: None, meta }),
            Some(id) => self.global_ptr(id, pointee, addr as usize, meta),
        }
    }
    fn global_ptr(&mut self, id: AllocId, pointee: Ty, byteoff: usize, meta: Meta) -> V {
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => {
                let (ety, arr) = match &*ti(pointee) {
                    TI::Slice(e) => (*e, true),
                    TI::Str => (Ty::unsigned_ty(UintTy::U8), true),
                    _ => (pointee, false),
                };
                let key = (id, Some(ety));
                let g = match self.gmap.get(&key) {
                    Some(g) => *g,
                    None => {
                        let s = size_of(ety).unwrap_or(0) as usize;
                        let n = if s == 0 { 0 } else { m.bytes.len() / s };
                        let v = if arr || (n > 1 && byteoff % s.max(1) == 0) {
                            V::arr((0..n).map(|i| self.decode(ety, &m, i * s)).collect())
                        } else {
                            self.decode(ety, &m, byteoff)
                        };
                        self.globals.push(v);
                        self.gtys.push(Some(ety));
                        let g = (self.globals.len() - 1) as u32;
                        self.gmap.insert(key, g);
                        g
                    }
                };
                let s = size_of(ety).unwrap_or(0) as usize;
                let is_arr = matches!(self.globals[g as usize], V::A(_)) && (arr || !matches!(&*ti(strip(ety)), TI::Array(..)) || m.bytes.len() > s);
                let path = if is_arr { vec![Step { p: Pr::X(P::C(if s > 0 { (byteoff / s) as i128 } else { 0 })), ct: None }] } else { vec![] };
                V::ptr(PtrV { base: Base::G(g), path, pty: Some(ety), meta })
            }
            GlobalAlloc::Static(d) => {
                let key = (id, None);
                let sty = d.ty();
                let g = match self.gmap.get(&key) {
                    Some(g) => *g,
                    None => {
                        let v = match d.eval_initializer() {
                            Ok(m) => self.decode(sty, &m, 0),
                            Err(_) => V::T,
                        };
                        self.globals.push(v);
                        self.gtys.push(Some(sty));
                        let g = (self.globals.len() - 1) as u32;
                        self.gmap.insert(key, g);
                        g
                    }
                };
                let mut path = vec![];
                let mut pty = sty;
                if let (TI::Array(e, _), true) = (&*ti(sty), matches!(&*ti(pointee), TI::Slice(_)) || byteoff > 0) {
                    let s = size_of(*e).unwrap_or(1) as usize;
                    path.push(Step { p: Pr::X(P::C((byteoff / s.max(1)) as i128)), ct: Some(sty) });
                    pty = *e;
                }
                V::ptr(PtrV { base: Base::G(g), path, pty: Some(pty), meta })
            }
            GlobalAlloc::Function(i) => V::FnP(i),
            _ => V::T,
        }
    }
    // ---------- operands ----------
    pub fn operand(&mut self, st: &State, cx: &Ctx, o: &Operand) -> V {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let loc = if p.projection.is_empty() {
                    let v = st.frames[cx.frame as usize][p.local].clone();
                    if !matches!(v, V::T | V::U) {
                        return match v {
                            V::I(p) => V::I(resolve_cst(&st.facts, p)),
                            v => v,
                        };
                    }
                    self.place(st, cx, p)
                } else {
                    self.place(st, cx, p)
                };
                match self.read(st, &loc) {
                    V::I(p) => V::I(resolve_cst(&st.facts, p)),
                    V::U => {
                        // reading uninitialised memory
                        if is_zst(loc.ty) { self.expand(loc.ty, false).zst(loc.ty) } else { V::U }
                    }
                    v => v,
                }
            }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => V::c(self.called_from_crate() as i128),
        }
    }
    pub fn op_ty(&self, cx: &Ctx, o: &Operand) -> Ty {
        o.ty(cx.fb.body.locals()).unwrap()
    }
    pub fn wrap(&mut self, f: &Facts, p: P, ty: Ty) -> P {
        let (lo, hi) = match int_range(ty) {
            Some(r) => r,
            None => return p,
        };
        wrap_range(f, p, lo, hi)
    }
    // ---------- rvalues ----------
    pub fn binop(&mut self, st: &State, op: &BinOp, a: &V, b: &V, ta: Ty, _tb: Ty) -> V {
        use BinOp::*;
        if let (V::Ptr(_), _) | (_, V::Ptr(_)) = (a, b) {
            return self.ptr_binop(st, op, a, b, ta);
        }
        if matches!(&*ti(strip(ta)), TI::Float) {
            return match op {
                Eq | Ne | Lt | Le | Gt | Ge => V::I(fresh("f", 0, 1)),
                _ => V::T,
            };
        }
        if let TI::Struct { fields, .. } = &*ti(ta) {
            if fields.is_empty() {
                return V::c(matches!(op, Eq | Le | Ge) as i128);
            }
        }
        let x = self.as_int(a, ta);
        let y = self.as_int(b, _tb);
        let f = &st.facts;
        let signed = matches!(&*ti(strip(ta)), TI::Int { signed: true, .. });
        let bits = match &*ti(strip(ta)) {
            TI::Int { bits, .. } => *bits,
            _ => 32,
        };
        let r = match op {
            Add | AddUnchecked => {
                let p = x.add(&y);
                return V::I(self.wrap(f, p, ta));
            }
            Sub | SubUnchecked => {
                let p = x.sub(&y);
                return V::I(self.wrap(f, p, ta));
            }
            Mul | MulUnchecked => {
                let p = f.mul(&x, &y);
                return V::I(self.wrap(f, p, ta));
            }
            Div | Rem => {
                let (q, r) = self.divrem(f, &x, &y, signed);
                if matches!(op, Div) { q } else { r }
            }
            BitAnd => f.bit_and(&x, &y),
            BitOr => f.bit_or(&x, &y),
            BitXor => {
                let p = f.bit_xor(&x, &y);
                return V::I(self.wrap(f, p, ta));
            }
            Shl | ShlUnchecked => match y.cst() {
                Some(s) => {
                    let s = s.rem_euclid(bits as i128);
                    let p = f.mul(&x, &P::C(1i128 << s));
                    return V::I(self.wrap(f, p, ta));
                }
                None => {
                    let (sl, sh) = f.range(&y);
                    let (xl, xh) = f.range(&x);
                    let (lo, hi) = int_range(ta).unwrap();
                    if sl >= 0 && sh < bits as i128 && xl >= 0 && xh.checked_shl(sh as u32).map_or(false, |v| v <= hi && xh < (1 << 60)) {
                        crate::poly::op("shl", vec![x, y], 0, hi).also_range(xl << sl, xh << sh)
                    } else {
                        crate::poly::op("shl", vec![x, y], lo, hi)
                    }
                }
            },
            Shr | ShrUnchecked => match y.cst() {
                Some(s) => {
                    let s = s.rem_euclid(bits as i128);
                    f.mk_div(&x, 1i128 << s)
                }
                None => {
                    let (xl, xh) = self_free_range(&x);
                    crate::poly::op("shr", vec![x, y], xl.min(0), xh.max(-1))
                }
            },
            Eq => f.mk_eq0(&x.sub(&y)),
            Ne => P::C(1).sub(&f.mk_eq0(&x.sub(&y))),
            Lt => f.mk_ge0(&y.sub(&x).addc(-1)),
            Le => f.mk_ge0(&y.sub(&x)),
            Gt => f.mk_ge0(&x.sub(&y).addc(-1)),
            Ge => f.mk_ge0(&x.sub(&y)),
            Cmp => return V::T,
            Offset => return V::T,
        };
        V::I(r)
    }
    pub fn divrem(&mut self, f: &Facts, x: &P, y: &P, signed: bool) -> (P, P) {
        if let Some(c) = y.cst() {
            if c > 0 {
                if !signed || f.ge0(x) {
                    let q = f.mk_div(x, c);
                    return (q.clone(), x.addk(&q, -c));
                }
                if f.ge0(&x.neg()) {
                    let q = f.mk_div(&x.neg(), c).neg();
                    return (q.clone(), x.addk(&q, -c));
                }
                // trunc division: sign dependent
                let neg = f.mk_ge0(&x.neg().addc(-1));
                let ab = f.mul(&neg, &x.scale(-2)).add(x);
                let q0 = f.mk_div(&ab, c);
                let q = f.mul(&neg, &q0.scale(-2)).add(&q0);
                return (q.clone(), x.addk(&q, -c));
            }
        }
        // exact symbolic division when x is a multiple of y
        if let Some((q, r)) = divide(x, y, f) {
            return (q, r);
        }
        let (xl, xh) = self_free_range(x);
        let m = xl.abs().max(xh.abs());
        let yl = self_free_range(y).0.max(1);
        let q = crate::poly::op("div", vec![x.clone(), y.clone()], if xl >= 0 { 0 } else { -m }, m / yl);
        let yh = self_free_range(y).1;
        let r = crate::poly::op("rem", vec![x.clone(), y.clone()], if xl >= 0 { 0 } else { -m }, m.min((yh - 1).max(0)));
        (q, r)
    }
    fn ptr_binop(&mut self, st: &State, op: &BinOp, a: &V, b: &V, ta: Ty) -> V {
        use BinOp::*;
        match op {
            Offset => {
                let n = self.as_int(b, Ty::usize_ty());
                let pt = match &*ti(strip(ta)) {
                    TI::Ptr(t) => *t,
                    _ => return V::T,
                };
                self.ptr_add(st, a, pt, &n)
            }
            Eq | Ne | Lt | Le | Gt | Ge => {
                let d = match (a, b) {
                    (V::Ptr(p), V::Ptr(q)) => match (&p.base, &q.base) {
                        (Base::D(x), Base::D(y)) => {
                            // dangling pointers: compare offsets if any
                            let px = path_off(&p.path);
                            let qx = path_off(&q.path);
                            Some(x.add(&px).sub(y).sub(&qx))
                        }
                        (x, y) if x == y => same_prefix_diff(&p.path, &q.path),
                        _ => {
                            return match op {
                                Eq => V::c(0),
                                Ne => V::c(1),
                                _ => V::I(fresh("pc", 0, 1)),
                            };
                        }
                    },
                    (V::Ptr(p), V::I(x)) | (V::I(x), V::Ptr(p)) => match &p.base {
                        Base::D(y) => Some(y.sub(x)),
                        _ => return V::c(matches!(op, Ne) as i128),
                    },
                    _ => None,
                };
                let f = &st.facts;
                match d {
                    Some(d) => V::I(match op {
                        Eq => f.mk_eq0(&d),
                        Ne => P::C(1).sub(&f.mk_eq0(&d)),
                        Lt => f.mk_ge0(&d.neg().addc(-1)),
                        Le => f.mk_ge0(&d.neg()),
                        Gt => f.mk_ge0(&d.addc(-1)),
                        _ => f.mk_ge0(&d),
                    }),
                    None => V::I(fresh("pc", 0, 1)),
                }
            }
            _ => V::T,
        }
    }
    pub fn ptr_add(&mut self, st: &State, a: &V, pt: Ty, n: &P) -> V {
        match a {
            V::Ptr(p) => {
                let mut q = (**p).clone();
                if n.cst() == Some(0) {
                    return a.clone();
                }
                let sz = size_of(pt).unwrap_or(1) as i128;
                if sz == 0 {
                    // ZST iteration counts bytes; keep as path offset
                }
                let mut n = n.clone();
                if let Some(h) = p.pty {
                    let h0 = strip(h);
                    let hs = size_of(h0).unwrap_or(sz as u64) as i128;
                    if h0 != strip(pt) && hs != sz && hs > 0 {
                        if let (TI::Array(e, _), true) = (&*ti(h0), true) {
                            let es = size_of(*e).unwrap_or(1) as i128;
                            if es > 0 && sz % es == 0 {
                                q.path.push(Step { p: Pr::X(P::C(0)), ct: Some(h0) });
                                q.pty = Some(*e);
                                n = n.scale(sz / es);
                            }
                        } else if sz % hs == 0 {
                            n = n.scale(sz / hs);
                        } else {
                            let d = n.scale(sz);
                            let (g, _, c) = d.norm();
                            if g % hs == 0 && c % hs == 0 {
                                n = st.facts.mk_div(&d, hs);
                            } else {
                                self.imprecise("pointer offset with mixed element sizes");
                                return V::T;
                            }
                        }
                    }
                }
                if let Some(s) = q.path.last() {
                    if let Pr::X(_) = s.p {
                        bump(&mut q.path, &n);
                        q.pty = q.pty.or(Some(pt));
                        return V::ptr(q);
                    }
                }
                q.path.push(Step { p: Pr::X(n), ct: None });
                V::ptr(q)
            }
            _ => V::T,
        }
    }
    pub fn rvalue(&mut self, st: State, cx: &Ctx, r: &Rvalue, dty: Ty) -> Vec<(State, V)> {
        let v = match r {
            Rvalue::Use(o, _) => self.operand(&st, cx, o),
            Rvalue::CopyForDeref(p) => {
                let l = self.place(&st, cx, p);
                self.read(&st, &l)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let l = self.place(&st, cx, p);
                if let Rvalue::Reborrow(..) = r {
                    // reborrow of a reference-like place: keep the pointer value
                    let v = self.read(&st, &l);
                    return vec![(st, v)];
                }
                self.addr_of(&l)
            }
            Rvalue::Len(p) => {
                let l = self.place(&st, cx, p);
                V::I(self.loc_len(&l))
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(&st, cx, o);
                let n = n.eval_target_usize().unwrap_or(0);
                if n > 100_000 {
                    V::sarr(P::C(n as i128), vec![Seg { s: P::C(0), e: P::C(n as i128), v: SV::Const(v) }])
                } else {
                    V::arr(vec![v; n as usize])
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let vs: Vec<V> = ops.iter().map(|o| self.operand(&st, cx, o)).collect();
                match k {
                    AggregateKind::Array(_) => V::arr(vs),
                    AggregateKind::Tuple | AggregateKind::Closure(..) => V::st(vs),
                    AggregateKind::Adt(def, vi, _, _, fi) => match def.kind() {
                        AdtKind::Enum => V::en(vi.to_index() as u32, vs),
                        AdtKind::Union => {
                            if let TI::Transparent(_) = &*ti(dty) {
                                if is_zst(self.op_ty(cx, &ops[0])) { V::U } else { vs[0].clone() }
                            } else {
                                let _ = fi;
                                V::T
                            }
                        }
                        AdtKind::Struct => {
                            if let TI::Transparent(_) = &*ti(dty) {
                                vs[0].clone()
                            } else {
                                V::st(vs)
                            }
                        }
                    },
                    AggregateKind::RawPtr(t, _) => self.raw_ptr(*t, &vs[0], &vs[1]),
                    _ => V::T,
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (ta, tb) = (self.op_ty(cx, a), self.op_ty(cx, b));
                let (x, y) = (self.operand(&st, cx, a), self.operand(&st, cx, b));
                if let BinOp::Cmp = op {
                    return self.three_way(st, &x, &y, ta);
                }
                self.binop(&st, op, &x, &y, ta, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (ta, tb) = (self.op_ty(cx, a), self.op_ty(cx, b));
                let (x, y) = (self.operand(&st, cx, a), self.operand(&st, cx, b));
                let (x, y) = (self.as_int(&x, ta), self.as_int(&y, tb));
                let f = &st.facts;
                let raw = match op {
                    BinOp::Add => x.add(&y),
                    BinOp::Sub => x.sub(&y),
                    BinOp::Mul => f.mul(&x, &y),
                    _ => P::C(0),
                };
                let (lo, hi) = int_range(ta).unwrap();
                let (bl, bh) = f.range0(&raw);
                let okl = if bl >= lo { P::C(1) } else { f.mk_ge0(&raw.addc(-lo)) };
                let okh = if bh <= hi { P::C(1) } else { f.mk_ge0(&raw.neg().addc(hi)) };
                let ok = f.mul(&okl, &okh);
                V::st(vec![V::I(raw), V::I(P::C(1).sub(&ok))])
            }
            Rvalue::UnaryOp(op, o) => {
                let ta = self.op_ty(cx, o);
                let v = self.operand(&st, cx, o);
                match op {
                    UnOp::PtrMetadata => match &v {
                        V::Ptr(p) => match &p.meta {
                            Meta::Len(l) => V::I(l.clone()),
                            Meta::Vt(_) => V::T,
                            Meta::No => V::unit(),
                        },
                        _ => V::T,
                    },
                    UnOp::Not => {
                        let p = self.as_int(&v, ta);
                        match &*ti(strip(ta)) {
                            TI::Bool => V::I(P::C(1).sub(&p)),
                            TI::Int { bits, signed } => {
                                if *signed {
                                    V::I(P::C(-1).sub(&p))
                                } else {
                                    V::I(P::C(if *bits >= 118 { INF } else { (1i128 << bits) - 1 }).sub(&p))
                                }
                            }
                            _ => V::T,
                        }
                    }
                    UnOp::Neg => {
                        if !matches!(&*ti(strip(ta)), TI::Int { .. }) {
                            V::T
                        } else {
                            let p = self.as_int(&v, ta).neg();
                            V::I(self.wrap(&st.facts, p, ta))
                        }
                    }
                }
            }
            Rvalue::Cast(k, o, t) => {
                let ta = self.op_ty(cx, o);
                let v = self.operand(&st, cx, o);
                if let CastKind::Transmute = k {
                    return self.transmute_forks(st, v, ta, *t);
                }
                self.cast(&st, k, v, ta, *t)
            }
            Rvalue::Discriminant(p) => {
                let l = self.place(&st, cx, p);
                return self.discriminant(st, &l);
            }
            Rvalue::ThreadLocalRef(_) => V::T,
        };
        vec![(st, v)]
    }
    pub fn raw_ptr(&mut self, t: Ty, d: &V, m: &V) -> V {
        match d {
            V::Ptr(p) => {
                let mut q = (**p).clone();
                q.meta = match &*ti(t) {
                    TI::Slice(_) | TI::Str => {
                        let l = self.as_int(m, Ty::usize_ty());
                        // make sure there is an element index to offset
                        if !matches!(q.path.last().map(|s| &s.p), Some(Pr::X(_))) && !matches!(q.base, Base::D(_)) {
                            q.path.push(Step { p: Pr::X(P::C(0)), ct: None });
                            if let Some(h) = q.pty {
                                if let (TI::Array(e, _), TI::Slice(w)) = (&*ti(strip(h)), &*ti(t)) {
                                    if strip(*e) == strip(*w) {
                                        q.path.last_mut().unwrap().ct = Some(strip(h));
                                        q.pty = Some(*e);
                                    }
                                }
                            }
                        }
                        Meta::Len(l)
                    }
                    _ => Meta::No,
                };
                V::ptr(q)
            }
            _ => V::T,
        }
    }
    pub fn three_way(&mut self, st: State, x: &V, y: &V, ty: Ty) -> Vec<(State, V)> {
        let d = match (x, y) {
            (V::Ptr(_), _) | (_, V::Ptr(_)) => fresh("pc", -1, 1),
            _ => self.as_int(x, ty).sub(&self.as_int(y, ty)),
        };
        let mut out = vec![];
        for (i, (lo, hi)) in [(-INF, -1), (0, 0), (1, INF)].iter().enumerate() {
            let mut s = st.clone();
            if s.facts.add(&d, *lo, *hi) {
                out.push((s, V::en(i as u32, vec![])));
            }
        }
        out
    }
    pub fn discriminant(&mut self, st: State, l: &Loc) -> Vec<(State, V)> {
        let v = self.read(&st, l);
        let t = ti(l.ty);
        let (variants, discr) = match &*t {
            TI::Enum { variants, discr, .. } => (variants, discr),
            _ => return vec![(st, V::c(0))],
        };
        let v = match v {
            V::E(_) => v,
            V::T | V::U => {
                let v = self.any(l.ty, "?");
                let _ = variants;
                v
            }
            _ => {
                self.imprecise("discriminant of non-enum value");
                self.any(l.ty, "?")
            }
        };
        if let V::E(vs) = &v {
            if vs.len() == 1 {
                return vec![(st, V::c(discr[vs[0].0 as usize]))];
            }
            let mut out = vec![];
            for (i, f) in vs.iter() {
                let mut s = st.clone();
                self.write(&mut s, l, V::E(Rc::new(vec![(*i, f.clone())])));
                out.push((s, V::c(discr[*i as usize])));
            }
            return out;
        }
        vec![(st, V::T)]
    }
    pub fn cast(&mut self, st: &State, k: &CastKind, v: V, from: Ty, to: Ty) -> V {
        match k {
            CastKind::IntToInt => {
                // enum-to-int casts use the discriminant (already converted by rustc)
                let p = match &v {
                    V::E(vs) => {
                        if let TI::Enum { discr, .. } = &*ti(from) {
                            if vs.len() == 1 {
                                P::C(discr[vs[0].0 as usize])
                            } else {
                                let lo = vs.iter().map(|x| discr[x.0 as usize]).min().unwrap();
                                let hi = vs.iter().map(|x| discr[x.0 as usize]).max().unwrap();
                                fresh("discr", lo, hi)
                            }
                        } else {
                            fresh("?", -INF, INF)
                        }
                    }
                    _ => self.as_int(&v, from),
                };
                V::I(self.wrap(&st.facts, p, to))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                match v {
                    V::Ptr(p) => {
                        let mut q = (*p).clone();
                        let tp = match &*ti(strip(to)) {
                            TI::Ptr(t) => *t,
                            _ => return V::T,
                        };
                        if q.pty.is_none() && size_of(tp).is_some() {
                            q.pty = None;
                        }
                        match &*ti(tp) {
                            TI::Slice(_) | TI::Str => {}
                            _ => q.meta = Meta::No,
                        }
                        // heap objects take the first concrete element type they are cast to
                        if q.pty.is_none() && matches!(q.base, Base::H(_)) && size_of(tp).unwrap_or(0) > 1 {
                            q.pty = Some(tp);
                        }
                        V::ptr(q)
                    }
                    v => v,
                }
            }
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::Unsize => self.unsize(v, from, to),
                PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a) {
                        Ok(i) => V::FnP(i),
                        Err(_) => V::T,
                    },
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        Ok(i) => V::FnP(i),
                        Err(_) => V::T,
                    },
                    _ => V::T,
                },
                _ => v,
            },
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(st, v, from, to),
            CastKind::Subtype => v,
            CastKind::PointerExposeAddress => match &v {
                V::Ptr(p) => match &p.base {
                    Base::D(a) => V::I(a.clone()),
                    _ => V::I(fresh("addr", 1, (1 << 62) - 1)),
                },
                _ => V::I(fresh("addr", 0, (1 << 64) - 1)),
            },
            CastKind::PointerWithExposedProvenance => {
                let p = self.as_int(&v, from);
                V::ptr(PtrV { base: Base::D(p), path: vec![], pty: None, meta: Meta::No })
            }
            CastKind::FloatToInt => self.any(to, "f"),
            _ => V::T,
        }
    }
    fn unsize(&mut self, v: V, from: Ty, to: Ty) -> V {
        let (fp, tp) = match (&*ti(strip(from)), &*ti(strip(to))) {
            (TI::Ptr(a), TI::Ptr(b)) => (*a, *b),
            (TI::Struct { fields: a, .. }, TI::Struct { fields: b, .. }) => {
                // Box / NonNull etc.
                if let V::S(f) = &v {
                    let mut g = (**f).clone();
                    for i in 0..g.len().min(a.len()) {
                        if a[i] != b[i] {
                            g[i] = self.unsize(g[i].clone(), a[i], b[i]);
                        }
                    }
                    return V::st(g);
                }
                return V::T;
            }
            _ => return V::T,
        };
        match v {
            V::Ptr(p) => {
                let mut q = (*p).clone();
                match (&*ti(fp), &*ti(tp)) {
                    (TI::Array(e, Some(n)), TI::Slice(_)) => {
                        let n = *n;
                        let viewed = match q.pty {
                            Some(h) => strip(h) != strip(fp) && !matches!(&*ti(strip(h)), TI::Array(..)),
                            None => matches!(q.path.last().map(|s| &s.p), Some(Pr::X(_))),
                        };
                        if !viewed && !matches!(q.base, Base::D(_)) {
                            q.path.push(Step { p: Pr::X(P::C(0)), ct: Some(strip(fp)) });
                        }
                        q.pty = Some(*e);
                        q.meta = Meta::Len(P::C(n as i128));
                    }
                    (_, TI::Dyn) => q.meta = Meta::Vt(fp),
                    _ => {}
                }
                V::ptr(q)
            }
            v => v,
        }
    }
    /// integer -> Option<NonZero..> distinguishes zero from the rest
    pub fn transmute_forks(&mut self, st: State, v: V, from: Ty, to: Ty) -> Vec<(State, V)> {
        if let (TI::Int { .. }, TI::Enum { variants, .. }) = (&*ti(strip_struct(from)), &*ti(strip(to))) {
            if variants.len() == 2 && variants[0].is_empty() && variants[1].len() == 1 && matches!(&*ti(strip_struct(variants[1][0])), TI::Int { .. }) && size_of(variants[1][0]) == size_of(to) {
                let p = self.as_int(&leaf_val(&v), strip_struct(from));
                let mut out = vec![];
                let mut z = st.clone();
                if z.facts.add(&p, 0, 0) {
                    out.push((z, V::en(0, vec![])));
                }
                let mut n = st;
                if n.facts.add_ne0(&p) {
                    out.push((n, V::en(1, vec![crate::model::fill(variants[1][0], V::I(p))])));
                }
                return out;
            }
        }
        let v = self.transmute(&st, v, from, to);
        vec![(st, v)]
    }
    pub fn transmute(&mut self, st: &State, v: V, from: Ty, to: Ty) -> V {
        let (f, t) = (strip(from), strip(to));
        if f == t {
            return v;
        }
        let (tf, tt) = (ti(f), ti(t));
        match (&*tf, &*tt) {
            (TI::Int { .. } | TI::Bool | TI::Char, TI::Int { .. } | TI::Bool | TI::Char) => {
                let p = self.as_int(&v, f);
                V::I(self.wrap(&st.facts, p, t))
            }
            (TI::Ptr(_), TI::Ptr(_)) => self.cast(st, &CastKind::PtrToPtr, v, from, to),
            (TI::Struct { fields, .. }, _) if significant(fields).is_some() && !(matches!(&*tt, TI::Struct{fields: g, ..} if significant(g).is_some() && size_of(g[significant(g).unwrap()]) == size_of(f) && strip(g[significant(g).unwrap()]) == f)) => {
                let i = significant(fields).unwrap();
                match &v {
                    V::S(x) if i < x.len() => {
                        let x = x[i].clone();
                        self.transmute(st, x, fields[i], to)
                    }
                    _ => V::T,
                }
            }
            (_, TI::Struct { fields, .. }) if significant(fields).is_some() => {
                let i = significant(fields).unwrap();
                let inner = self.transmute(st, v, from, fields[i]);
                let mut out: Vec<V> = vec![];
                for (j, ft) in fields.iter().enumerate() {
                    out.push(if j == i { inner.clone() } else { self.expand(*ft, false).zst(*ft) });
                }
                V::st(out)
            }
            (TI::Simd, TI::Array(e, Some(n))) => {
                let es = size_of(*e).unwrap_or(4) as u8;
                if let V::Simd(l) = &v {
                    let lanes = simd_lanes(l, es, &st.facts);
                    let sg = matches!(&*ti(*e), TI::Int { signed: true, .. });
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let p = lanes[i].clone();
                        out.push(V::I(if sg { p } else { self.wrap(&st.facts, p, *e) }));
                    }
                    V::arr(out)
                } else {
                    V::T
                }
            }
            (TI::Array(e, Some(n)), TI::Simd) => {
                let es = size_of(*e).unwrap_or(4) as u8;
                let mut out = vec![];
                if let V::A(a) = &v {
                    for i in 0..*n {
                        let x = self.arr_get(st, a, &P::C(i as i128));
                        let p = self.as_int(&x, *e);
                        out.push((es, wrap_range(&st.facts, p, -(1i128 << (es as u32 * 8 - 1)), (1i128 << (es as u32 * 8 - 1)) - 1)));
                    }
                    return V::Simd(Rc::new(out));
                }
                V::T
            }
            (TI::Simd, TI::Simd) => v,
            (TI::Array(e, Some(n)), TI::Int { bits, .. }) => {
                // little endian
                let es = size_of(*e).unwrap_or(1) as u32;
                if let V::A(a) = &v {
                    let mut acc = P::C(0);
                    for i in 0..*n {
                        let x = self.arr_get(st, a, &P::C(i as i128));
                        let p = self.as_int(&x, *e);
                        let p = wrap_range(&st.facts, p, 0, (1i128 << (8 * es)) - 1);
                        acc = acc.addk(&p, 1i128 << (8 * es * i as u32));
                    }
                    let _ = bits;
                    return V::I(self.wrap(&st.facts, acc, t));
                }
                V::T
            }
            (TI::Int { bits, .. }, TI::Array(e, Some(n))) => {
                let es = size_of(*e).unwrap_or(1) as u32;
                let p = self.as_int(&v, f);
                let p = wrap_range(&st.facts, p, 0, (1i128 << (*bits).min(100)) - 1);
                let mut out = vec![];
                for i in 0..*n as u32 {
                    let d = st.facts.mk_div(&p, 1i128 << (8 * es * i));
                    let b = st.facts.mk_mod(&d, 1i128 << (8 * es));
                    out.push(V::I(self.wrap(&st.facts, b, *e)));
                }
                V::arr(out)
            }
            (TI::Array(e, _), TI::Array(g, _)) => {
                if size_of(*e) == size_of(*g) {
                    if let V::A(a) = &v {
                        if let ArrV::D(x) = &**a {
                            let y = x.iter().map(|q| self.transmute(st, q.clone(), *e, *g)).collect();
                            return V::arr(y);
                        }
                    }
                }
                V::T
            }
            (TI::Enum { discr, .. }, TI::Int { .. }) => {
                if let V::E(vs) = &v {
                    if vs.len() == 1 && vs[0].1.is_empty() {
                        return V::c(discr[vs[0].0 as usize]);
                    }
                }
                self.any(t, "?")
            }
            (TI::Int { .. }, TI::Enum { discr, variants, .. }) => {
                let p = self.as_int(&v, f);
                if let Some(c) = p.cst() {
                    if let Some(i) = discr.iter().position(|d| *d == c) {
                        if variants[i].is_empty() {
                            return V::en(i as u32, vec![]);
                        }
                    }
                }
                self.any(t, "?")
            }
            (TI::Enum { discr, .. }, TI::Ptr(_)) => {
                let c = match &v {
                    V::E(vs) if vs.len() == 1 && vs[0].1.is_empty() => V::c(discr[vs[0].0 as usize]),
                    _ => return V::T,
                };
                self.cast(st, &CastKind::PointerWithExposedProvenance, c, Ty::usize_ty(), to)
            }
            (TI::Ptr(_), TI::Int { .. }) => self.cast(st, &CastKind::PointerExposeAddress, v, from, to),
            (TI::Int { .. }, TI::Ptr(_)) => self.cast(st, &CastKind::PointerWithExposedProvenance, v, from, to),
            _ => {
                self.imprecise(&format!("transmute {} -> {}", f, t));
                V::T
            }
        }
    }
    // ---------- statements ----------
    fn statement(&mut self, mut st: State, cx: &Ctx, s: &Statement) -> R<Vec<State>> {
        self.steps += 1;
        if !cx.fb.raw.is_empty() && (cx.fb.local || self.called_from_crate()) {
            if let Some(v) = cx.fb.raw.get(&s.source_info.span) {
                for (l, w) in v.clone() {
                    let t = cx.fb.tys[l];
                    if let TI::Ptr(t) = &*ti(t) {
                        let q = st.frames[cx.frame as usize][l].clone();
                        if matches!(&*ti(*t), TI::Slice(_) | TI::Str | TI::Dyn) {
                            continue;
                        }
                        self.check_access(&st, &q, *t, &P::C(1), if w { "write" } else { "read" });
                    }
                }
            }
        }
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let dty = if p.projection.is_empty() { cx.fb.tys[p.local] } else { p.ty(cx.fb.body.locals()).unwrap() };
                let outs = self.rvalue(st, cx, r, dty);
                let mut res = vec![];
                for (mut s, v) in outs {
                    if p.projection.is_empty() {
                        Rc::make_mut(&mut s.frames[cx.frame as usize])[p.local] = v;
                    } else {
                        let l = self.place(&s, cx, p);
                        self.write(&mut s, &l, v);
                    }
                    res.push(s);
                }
                Ok(res)
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                Rc::make_mut(&mut st.frames[cx.frame as usize])[*l] = V::U;
                Ok(vec![st])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let l = self.place(&st, cx, place);
                let i = variant_index.to_index() as u32;
                let v = self.read(&st, &l);
                let nv = match v {
                    V::E(vs) if vs.iter().any(|x| x.0 == i) => V::E(Rc::new(vs.iter().filter(|x| x.0 == i).cloned().collect())),
                    _ => V::en(i, vec![]),
                };
                self.write(&mut st, &l, nv);
                Ok(vec![st])
            }
            StatementKind::Intrinsic(i) => {
                match i {
                    NonDivergingIntrinsic::Assume(o) => {
                        let v = self.operand(&st, cx, o);
                        let p = self.as_int(&v, Ty::bool_ty());
                        if !st.facts.add(&p, 1, 1) {
                            return Ok(vec![]);
                        }
                    }
                    NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                        let src = self.operand(&st, cx, &c.src);
                        let dst = self.operand(&st, cx, &c.dst);
                        let n = self.operand(&st, cx, &c.count);
                        let n = self.as_int(&n, Ty::usize_ty());
                        let t = match &*ti(self.op_ty(cx, &c.src)) {
                            TI::Ptr(t) => *t,
                            _ => return Ok(vec![st]),
                        };
                        self.copy_mem(&mut st, &src, &dst, &n, t);
                    }
                }
                Ok(vec![st])
            }
            _ => Ok(vec![st]),
        }
    }
    pub fn copy_mem(&mut self, st: &mut State, src: &V, dst: &V, n: &P, t: Ty) {
        if n.cst() == Some(0) || is_zst(t) {
            return;
        }
        self.check_access(st, src, t, n, "read");
        self.check_access(st, dst, t, n, "write");
        let (sp, dp) = match (src, dst) {
            (V::Ptr(a), V::Ptr(b)) => (a.clone(), b.clone()),
            _ => {
                self.imprecise("copy through unknown pointer");
                return;
            }
        };
        if let Some(c) = n.cst() {
            if c <= 4096 {
                let mut vals = vec![];
                for i in 0..c {
                    let q = self.ptr_add(st, &V::Ptr(sp.clone()), t, &P::C(i));
                    let l = self.deref_as(st, &q, t);
                    vals.push(self.read(st, &l));
                }
                for (i, v) in vals.into_iter().enumerate() {
                    let q = self.ptr_add(st, &V::Ptr(dp.clone()), t, &P::C(i as i128));
                    let l = self.deref_as(st, &q, t);
                    self.write(st, &l, v);
                }
                return;
            }
        }
        // symbolic length
        let sv = self.read_base(st, &sp.base);
        let (spre, si) = split_idx(&sp.path);
        let (dpre, di) = split_idx(&dp.path);
        let sarr = self.get(st, &sv, &spre);
        let dv = self.read_base(st, &dp.base);
        let darr = self.get(st, &dv, &dpre);
        let end = si.add(n);
        let src_seg = slice_segs(&sarr, &si, &end, &st.facts);
        if let V::A(da) = &darr {
            let mut a = (**da).clone();
            if let ArrV::D(v) = &a {
                // convert to segments
                let len = P::C(v.len() as i128);
                a = ArrV::S { len, segs: dense_to_segs(v) };
            }
            if let ArrV::S { len, segs } = &mut a {
                let mut dend = segs.last().map(|s| s.e.clone()).unwrap_or(P::C(0));
                let mut tail = vec![];
                if src_seg.is_some() && st.facts.is_zero(&dend.sub(&di)) != Some(true) {
                    // overwrite the middle: what lies before stays, what lies after stays where it can be told
                    let whole = V::A(Rc::new(ArrV::S { len: len.clone(), segs: segs.clone() }));
                    let dn = di.add(n);
                    if let Some(pre) = slice_segs(&whole, &P::C(0), &di, &st.facts) {
                        if let Some(t) = slice_segs(&whole, &dn, &dend, &st.facts) {
                            tail = t;
                        } else if st.facts.ge0(&dn.sub(&dend)) {
                        } else if st.facts.ge0(&len.sub(&dn)) {
                            tail = vec![Seg { s: dn.clone(), e: len.clone(), v: SV::Sum(V::T) }];
                        }
                        *segs = pre;
                        dend = di.clone();
                    }
                }
                match (src_seg, st.facts.is_zero(&dend.sub(&di)) == Some(true)) {
                    (Some(ss), true) => {
                        let delta = di.sub(&si);
                        for s in ss {
                            push_seg(segs, shift_seg(&s, &delta, &st.facts));
                        }
                        for s in tail {
                            push_seg(segs, s);
                        }
                    }
                    (ss, _) => {
                        self.imprecise("symbolic copy not at the end of the destination");
                        let v = match ss {
                            Some(ss) => {
                                let mut tmp = ss;
                                collapse_into(&mut tmp, &P::C(0), None, &st.facts);
                                match &tmp[0].v {
                                    SV::Sum(v) => v.clone(),
                                    _ => V::T,
                                }
                            }
                            None => V::T,
                        };
                        collapse_into(segs, &len.clone(), Some(v), &st.facts);
                    }
                }
            }
            let facts = st.facts.clone();
            let _ = facts;
            let l = Loc { base: dp.base.clone(), path: dpre, ty: t, view: false, meta: Meta::No, variant: None };
            self.write(st, &l, V::A(Rc::new(a)));
        } else {
            self.imprecise("symbolic copy into non-array");
        }
    }
    pub fn deref_as(&mut self, st: &State, v: &V, t: Ty) -> Loc {
        let pt = Ty::new_ptr(t, Mutability::Not);
        self.deref(st, v, pt)
    }
    /// memory-safety obligation for raw accesses: [ptr, ptr+n) lies inside its allocation
    pub fn check_access(&mut self, st: &State, v: &V, t: Ty, n: &P, what: &str) {
        if is_zst(t) {
            return;
        }
        let p = match v {
            V::Ptr(p) => p.clone(),
            V::U => return,
            _ => {
                self.event("unsupported", "raw access through an unknown pointer", format!("{} {:?}", what, v));
                return;
            }
        };
        if let Base::D(_) = p.base {
            if st.facts.is_zero(n) != Some(true) {
                self.event("unsafe-oob", &format!("raw {} through a dangling pointer", what), format!("{:?}", p));
            }
            return;
        }
        let (pre, i) = split_idx(&p.path);
        if !matches!(p.path.last().map(|s| &s.p), Some(Pr::X(_))) {
            return;
        }
        let root = self.read_base(st, &p.base);
        let arr = self.get(st, &root, &pre);
        let len = match &arr {
            V::A(a) => match &**a {
                ArrV::D(v) => P::C(v.len() as i128),
                ArrV::S { len, .. } => len.clone(),
            },
            _ => P::C(1),
        };
        let mut n = n.clone();
        // scale if the access type is larger than the elements
        if let Some(h) = p.pty {
            let (hs, ts) = (size_of(strip(h)).unwrap_or(1), size_of(t).unwrap_or(1));
            if hs > 0 && ts % hs == 0 {
                n = n.scale((ts / hs) as i128);
            }
        }
        *self.checks.entry("raw-access".into()).or_insert(0) += 1;
        if !st.facts.ge0_deep(&i) || !st.facts.ge0_deep(&len.sub(&i).sub(&n)) {
            let m = format!("index {:?} (+{:?}) of {:?} elements", i, n, len);
            self.event("unsafe-oob", &format!("raw {} not provably inside its allocation", what), m);
        }
    }
    // ---------- control flow ----------
    pub fn run_fn(&mut self, inst: Instance, args: Vec<V>, mut st: State) -> R<Vec<(State, V)>> {
        let fb = match self.body(inst) {
            Some(b) => b,
            None => return Err(Fail(format!("no body: {}", inst.name()))),
        };
        if self.stack.len() > 120 {
            return Err(Fail("recursion too deep".into()));
        }
        if std::time::Instant::now() > self.deadline {
            return Err(Fail("time budget exhausted".into()));
        }
        if self.trace {
            let n = std::time::Instant::now();
            if n > self.next_note {
                self.next_note = n + std::time::Duration::from_secs(3);
                let v = self.stack_strs();
                eprintln!("@ steps {} atoms {} {} > {}", self.steps, n_atoms(), v.join(" > "), fb.name);
            }
        }
        if fb.local {
            if !self.seen_fns.contains(&fb.name) {
                self.seen_fns.insert(fb.name.clone());
            }
        }
        let mut fr = vec![V::U; fb.tys.len()];
        let mut args = args;
        if args.len() != fb.argc || fb.closure {
            // spread the trailing tuple
            if let Some(V::S(t)) = args.last().cloned() {
                if args.len() - 1 + t.len() == fb.argc {
                    args.pop();
                    args.extend(t.iter().cloned());
                }
            }
        }
        if args.len() != fb.argc {
            if let Some(sp) = fb.body.spread_arg() {
                // collect into a tuple
                let rest: Vec<V> = args.split_off(sp - 1);
                args.push(V::st(rest));
            }
        }
        for (i, a) in args.into_iter().enumerate() {
            if i < fb.argc {
                fr[i + 1] = a;
            }
        }
        let frame = st.frames.len() as u32;
        st.frames.push(Rc::new(fr));
        self.stack.push((fb.clone(), 0));
        let t0 = self.steps;
        let cx = Ctx { fb: fb.clone(), frame };
        let outs = self.run_region(&cx, None, vec![(0, st)]);
        self.stack.pop();
        *self.prof.entry(fb.name.clone()).or_insert(0) += self.steps - t0;
        let outs = outs?;
        let mut res: Vec<(State, V)> = vec![];
        for (_, _, mut s) in outs {
            let fr = s.frames.pop().unwrap();
            let rv = fr[0].clone();
            let rv = if let V::U = rv { if is_zst(fb.tys[0]) { self.expand(fb.tys[0], false).zst(fb.tys[0]) } else { rv } } else { rv };
            res.push((s, rv));
        }
        Ok(self.merge_rets(res))
    }
    pub fn run_region(&mut self, cx: &Ctx, lp: Option<&LoopInfo>, init: Vec<(usize, State)>) -> R<Vec<(usize, usize, State)>> {
        let mut pend: BTreeMap<usize, (usize, Vec<State>)> = BTreeMap::new();
        for (b, s) in init {
            pend.entry(cx.fb.rpo[b]).or_insert((b, vec![])).1.push(s);
        }
        let mut out: Vec<(usize, usize, State)> = vec![];
        while let Some((_, (b, sts))) = pend.pop_first() {
            let sts = if sts.len() > 1 { self.merge_at(cx, b, sts) } else { sts };
            for st in sts {
                let succ: Vec<(usize, usize, State)> = if cx.fb.loops.contains_key(&b) && lp.map_or(true, |l| l.header != b) {
                    self.run_loop(cx, b, st)?
                } else {
                    self.exec_block(cx, b, st)?.into_iter().map(|(t, s)| (b, t, s)).collect()
                };
                for (src, t, s) in succ {
                    if t == usize::MAX {
                        out.push((src, t, s));
                    } else if let Some(l) = lp {
                        if t == l.header || !l.blocks[t] {
                            out.push((src, t, s));
                        } else {
                            pend.entry(cx.fb.rpo[t]).or_insert((t, vec![])).1.push(s);
                        }
                    } else {
                        pend.entry(cx.fb.rpo[t]).or_insert((t, vec![])).1.push(s);
                    }
                }
            }
        }
        Ok(out)
    }
    fn exec_block(&mut self, cx: &Ctx, b: usize, st: State) -> R<Vec<(usize, State)>> {
        self.stack.last_mut().unwrap().1 = b;
        let blk = &cx.fb.body.blocks[b];
        let mut cur = vec![st];
        for s in blk.statements.iter() {
            let mut nx = Vec::with_capacity(cur.len());
            for st in cur {
                nx.extend(self.statement(st, cx, s)?);
            }
            cur = nx;
            if cur.is_empty() {
                return Ok(vec![]);
            }
        }
        let mut out = vec![];
        for st in cur {
            self.stack.last_mut().unwrap().1 = b;
            out.extend(self.terminator(st, cx, &blk.terminator)?);
        }
        Ok(out)
    }
    fn terminator(&mut self, mut st: State, cx: &Ctx, t: &Terminator) -> R<Vec<(usize, State)>> {
        self.steps += 1;
        match &t.kind {
            TerminatorKind::Goto { target } => Ok(vec![(*target, st)]),
            TerminatorKind::Return => Ok(vec![(usize::MAX, st)]),
            TerminatorKind::Unreachable => {
                Ok(vec![])
            }
            TerminatorKind::Resume | TerminatorKind::Abort => Ok(vec![]),
            TerminatorKind::Drop { target, place, .. } => {
                let t = *target;
                Ok(self.drop_place(st, cx, place)?.into_iter().map(|s| (t, s)).collect())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = self.op_ty(cx, discr);
                let v = self.operand(&st, cx, discr);
                let p = self.as_int(&v, ty);
                let mut out = vec![];
                let mut rest = Some(st);
                for (val, tgt) in targets.branches() {
                    let s = match &rest {
                        Some(s) => s,
                        None => break,
                    };
                    let mut val = val as i128;
                    if let TI::Int { bits, signed: true } = &*ti(strip(ty)) {
                        if *bits < 128 && val >= 1i128 << (bits - 1) {
                            val -= 1i128 << bits;
                        }
                    }
                    let d = p.addc(-val);
                    match s.facts.is_zero(&d) {
                        Some(true) => {
                            out.push((tgt, rest.take().unwrap()));
                            break;
                        }
                        Some(false) => continue,
                        None => {
                            let mut y = s.clone();
                            if y.facts.add(&d, 0, 0) {
                                out.push((tgt, y));
                            }
                            let mut n = rest.take().unwrap();
                            if n.facts.add_ne0(&d) {
                                rest = Some(n);
                            }
                        }
                    }
                }
                if let Some(s) = rest {
                    out.push((targets.otherwise(), s));
                }
                Ok(out)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(&st, cx, cond);
                let p = self.as_int(&v, Ty::bool_ty());
                let e = *expected as i128;
                *self.checks.entry("panic-site".into()).or_insert(0) += 1;
                match st.facts.is_zero(&p.addc(-e)) {
                    Some(true) => return Ok(vec![(*target, st)]),
                    Some(false) => {
                        self.panic_event(&assert_msg(msg));
                        // without overflow checks the program goes on with the wrapped value
                        if let (AssertMessage::Overflow(..), Operand::Move(pl) | Operand::Copy(pl)) = (msg, cond) {
                            if let (Some(ProjectionElem::Field(1, _)), 1) = (pl.projection.first(), pl.projection.len()) {
                                let t0 = match strip(cx.fb.tys[pl.local]).kind() {
                                    TyKind::RigidTy(RigidTy::Tuple(ts)) if ts.len() == 2 => Some(ts[0]),
                                    _ => None,
                                };
                                let whole = st.frames[cx.frame as usize][pl.local].clone();
                                if let (Some(t0), V::S(vs)) = (t0, &whole) {
                                    let raw = self.as_int(&vs[0], t0);
                                    let w = self.wrap(&st.facts, raw, t0);
                                    Rc::make_mut(&mut st.frames[cx.frame as usize])[pl.local] = V::st(vec![V::I(w), V::c(0)]);
                                    return Ok(vec![(*target, st)]);
                                }
                            }
                        }
                        return Ok(vec![]);
                    }
                    None => {}
                }
                if !self.prove_bool(&st.facts, &p, *expected) {
                    let d = self.assert_detail(&st, cx, msg);
                    self.panic_event2(&assert_msg(msg), d);
                }
                if !st.facts.add(&p, e, e) {
                    return Ok(vec![]);
                }
                Ok(vec![(*target, st)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(cx, func);
                let avs: Vec<V> = args.iter().map(|a| self.operand(&st, cx, a)).collect();
                let atys: Vec<Ty> = args.iter().map(|a| self.op_ty(cx, a)).collect();
                let dty = destination.ty(cx.fb.body.locals()).unwrap();
                let res = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match Instance::resolve(d, &ga) {
                        Ok(i) => self.call(st, i, avs, atys, dty, target.is_none())?,
                        Err(_) => return Err(Fail(format!("cannot resolve {}", d.name()))),
                    },
                    _ => {
                        let fv = self.operand(&st, cx, func);
                        match fv {
                            V::FnP(i) => self.call(st, i, avs, atys, dty, target.is_none())?,
                            _ => {
                                self.event("unsupported", "indirect call", format!("{}", fty));
                                vec![(st, V::T)]
                            }
                        }
                    }
                };
                let mut out = vec![];
                if let Some(t) = target {
                    for (mut s, v) in res {
                        if destination.projection.is_empty() {
                            Rc::make_mut(&mut s.frames[cx.frame as usize])[destination.local] = v;
                        } else {
                            let l = self.place(&s, cx, destination);
                            self.write(&mut s, &l, v);
                        }
                        out.push((*t, s));
                    }
                }
                Ok(out)
            }
            TerminatorKind::InlineAsm { .. } => {
                self.event("unsupported", "inline asm", String::new());
                Ok(vec![])
            }
        }
    }
    fn drop_place(&mut self, st: State, cx: &Ctx, p: &Place) -> R<Vec<State>> {
        let l = self.place(&st, cx, p);
        if !self.drop_matters(l.ty, 0) {
            return Ok(vec![st]);
        }
        let g = Instance::resolve_drop_in_place(l.ty);
        if self.body(g).is_none() {
            return Ok(vec![st]);
        }
        let a = self.addr_of(&l);
        Ok(self.run_fn(g, vec![a], st)?.into_iter().map(|x| x.0).collect())
    }
    /// dropping a value of this type does more than release memory
    fn drop_matters(&mut self, t: Ty, depth: u32) -> bool {
        if let Some(b) = self.drops.get(&t) {
            return *b;
        }
        if depth > 24 {
            return false;
        }
        self.drops.insert(t, false);
        let mut r = false;
        if let TyKind::RigidTy(RigidTy::Adt(def, args)) = t.kind() {
            let n = def.name().to_string();
            if n.ends_with("SetLenOnDrop") || n.ends_with("::BufWriter") || n.ends_with("::BufGuard") {
                r = true;
            } else if n.contains("ManuallyDrop") {
                r = false;
            } else if def.krate().is_local && self.has_drop_impl(t) {
                r = true;
            } else {
                for v in def.variants() {
                    for f in v.fields() {
                        r |= self.drop_matters(f.ty_with_args(&args), depth + 1);
                    }
                }
                if n.ends_with("::Vec") || n.ends_with("::Box") {
                    for a in args.0.iter() {
                        if let GenericArgKind::Type(t) = a {
                            if n.ends_with("::Box") {
                                r |= self.drop_matters(*t, depth + 1);
                            }
                        }
                    }
                }
            }
        } else if let TI::Struct { fields, .. } = &*ti(t) {
            for f in fields.iter() {
                r |= self.drop_matters(*f, depth + 1);
            }
        } else if let TI::Array(e, _) = &*ti(t) {
            r = self.drop_matters(*e, depth + 1);
        }
        self.drops.insert(t, r);
        r
    }
    fn has_drop_impl(&mut self, t: Ty) -> bool {
        let g = Instance::resolve_drop_in_place(t);
        match self.body(g) {
            Some(fb) => fb.body.blocks.iter().any(|b| matches!(&b.terminator.kind, TerminatorKind::Call { .. })),
            None => false,
        }
    }
    fn assert_detail(&mut self, st: &State, cx: &Ctx, m: &AssertMessage) -> String {
        let mut show = |o: &Operand| {
            let v = self.operand(st, cx, o);
            match v {
                V::I(p) => {
                    let r = st.facts.range(&p);
                    format!("{:?} in [{},{}]", p, r.0, r.1)
                }
                v => format!("{}", vkind(&v)),
            }
        };
        match m {
            AssertMessage::BoundsCheck { len, index } => format!("index {} of length {}", show(index), show(len)),
            AssertMessage::Overflow(_, a, b) => format!("operands {} and {}", show(a), show(b)),
            AssertMessage::OverflowNeg(a) => format!("operand {}", show(a)),
            _ => String::new(),
        }
    }
    pub fn panic_event(&mut self, m: &str) {
        self.panic_event2(m, String::new())
    }
    pub fn panic_event2(&mut self, m: &str, d: String) {
        let k = self.stack.len();
        if k >= 2 && self.stack[k - 1].0.name.contains("precondition_check") {
            let f = short(&self.stack[k - 2].0.name);
            self.event("unsafe-oob", &format!("the requirements of {} do not provably hold", f), d);
            return;
        }
        self.event("panic", m, d);
    }
    pub fn prove_bool(&mut self, f: &Facts, p: &P, expected: bool) -> bool {
        // p is 0/1; try the underlying comparison harder
        let q = if expected { p.clone() } else { P::C(1).sub(p) };
        if f.ge0(&q.addc(-1)) {
            return true;
        }
        // q = product of comparison atoms?
        let t = q.terms();
        if t.len() == 1 && q.c0() == 0 && t[0].1 == 1 {
            return t[0].0.iter().filter(|a| **a != 0).all(|a| self.prove_atom(f, *a, true));
        }
        if t.len() == 1 && q.c0() == 1 && t[0].1 == -1 && t[0].0[1] == 0 {
            return self.prove_atom(f, t[0].0[0], false);
        }
        false
    }
    fn prove_atom(&mut self, f: &Facts, a: AtomId, truth: bool) -> bool {
        match (atom_kind(a), truth) {
            (AK::Ge0(q), true) => f.ge0_deep(&q),
            (AK::Ge0(q), false) => f.ge0_deep(&q.neg().addc(-1)),
            (AK::Eq0(q), true) => f.ge0_deep(&q) && f.ge0_deep(&q.neg()),
            (AK::Eq0(q), false) => f.ge0_deep(&q.addc(-1)) || f.ge0_deep(&q.neg().addc(-1)),
            (AK::Div(q, c), true) => f.ge0_deep(&q.addc(-c)),
            (AK::Div(q, _), false) => f.ge0_deep(&q.neg().addc(-1)),
            _ => f.is_zero(&P::atom(a).addc(-(truth as i128))) == Some(true),
        }
    }
    pub fn merge_at(&mut self, cx: &Ctx, b: usize, mut sts: Vec<State>) -> Vec<State> {
        for s in sts.iter_mut() {
            self.kill_dead(cx, b, s);
        }
        let live = &cx.fb.live[b];
        let sig = |s: &State, lvl: u32| -> Vec<i64> {
            let mut v: Vec<i64> = s.keys.to_vec();
            if lvl < 2 {
                let fr = &s.frames[cx.frame as usize];
                for (i, x) in fr.iter().enumerate() {
                    if live[i] || cx.fb.addr[i] {
                        sig_v(x, &mut v, 4, lvl == 0);
                    }
                }
            }
            v
        };
        for lvl in 0..3 {
            let mut groups: Vec<(Vec<i64>, Vec<usize>)> = vec![];
            for (i, s) in sts.iter().enumerate() {
                let k = sig(s, lvl);
                if let Some(g) = groups.iter_mut().find(|g| g.0 == k) {
                    g.1.push(i);
                } else {
                    groups.push((k, vec![i]));
                }
            }
            if groups.len() > self.merge_cap && lvl < 2 {
                continue;
            }
            let mut opt: Vec<Option<State>> = sts.into_iter().map(Some).collect();
            let mut out = vec![];
            for (_, idx) in groups {
                let mut acc: Option<State> = None;
                for i in idx {
                    let s = opt[i].take().unwrap();
                    acc = Some(match acc {
                        None => s,
                        Some(a) => self.join_states(&a, &s),
                    });
                }
                out.push(acc.unwrap());
            }
            return out;
        }
        unreachable!()
    }
    pub fn kill_dead(&mut self, cx: &Ctx, b: usize, s: &mut State) {
        let live = &cx.fb.live[b];
        let fr = &mut s.frames[cx.frame as usize];
        let mut need = false;
        for i in 0..fr.len() {
            if !live[i] && !cx.fb.addr[i] && !matches!(fr[i], V::U) {
                need = true;
                break;
            }
        }
        if need {
            let fr = Rc::make_mut(fr);
            for i in 0..fr.len() {
                if !live[i] && !cx.fb.addr[i] {
                    fr[i] = V::U;
                }
            }
        }
    }
    fn merge_rets(&mut self, mut v: Vec<(State, V)>) -> Vec<(State, V)> {
        if v.len() <= 1 {
            return v;
        }
        for lvl in 0..3 {
            let mut groups: Vec<(Vec<i64>, Vec<usize>)> = vec![];
            for (i, (s, r)) in v.iter().enumerate() {
                let mut k: Vec<i64> = s.keys.to_vec();
                if lvl < 2 {
                    sig_v(r, &mut k, 4, lvl == 0);
                }
                if let Some(g) = groups.iter_mut().find(|g| g.0 == k) {
                    g.1.push(i);
                } else {
                    groups.push((k, vec![i]));
                }
            }
            if groups.len() > self.merge_cap && lvl < 2 {
                continue;
            }
            let mut opt: Vec<Option<(State, V)>> = v.drain(..).map(Some).collect();
            let mut out = vec![];
            for (_, idx) in groups {
                let mut acc: Option<(State, V)> = None;
                for i in idx {
                    let (mut s, r) = opt[i].take().unwrap();
                    acc = Some(match acc {
                        None => (s, r),
                        Some((mut a, ar)) => {
                            // carry the return value in a temporary frame so that it is joined consistently
                            a.frames.push(Rc::new(vec![ar]));
                            s.frames.push(Rc::new(vec![r]));
                            let mut j = self.join_states(&a, &s);
                            let f = j.frames.pop().unwrap();
                            (j, f[0].clone())
                        }
                    });
                }
                out.push(acc.unwrap());
            }
            return out;
        }
        unreachable!()
    }
    pub fn join_states(&mut self, a: &State, b: &State) -> State {
        let mut j = Joiner::new(&a.facts, &b.facts);
        j.ite = self.ite;
        if j.ite {
            j.find_conds();
        }
        join_with(&mut j, a, b)
    }
}

// ---------- helpers ----------
pub trait Zst {
    fn zst(self, ty: Ty) -> V;
}
impl Zst for V {
    fn zst(self, ty: Ty) -> V {
        match (&self, &*ti(ty)) {
            (V::U | V::T, TI::FnDef) => V::unit(),
            (V::S(f), TI::Struct { fields, .. }) => V::st(f.iter().zip(fields.iter()).map(|(v, t)| if is_zst(*t) { v.clone().zst(*t) } else { v.clone() }).collect()),
            (V::U, TI::Enum { variants, .. }) if variants.len() == 1 => V::en(0, variants[0].iter().map(|t| V::U.zst(*t)).collect()),
            (V::U, TI::Struct { fields, .. }) => V::st(fields.iter().map(|t| V::U.zst(*t)).collect()),
            _ => self,
        }
    }
}
pub trait AlsoRange {
    fn also_range(self, lo: i128, hi: i128) -> P;
}
impl AlsoRange for P {
    fn also_range(self, _lo: i128, _hi: i128) -> P {
        self
    }
}
pub fn short(n: &str) -> String {
    n.to_string()
}
pub fn vkind(v: &V) -> String {
    match v {
        V::U => "uninit".into(),
        V::T => "unknown".into(),
        V::I(p) => format!("{:?}", p),
        V::Ptr(p) => format!("ptr {:?}{:?}", p.base, p.path.iter().map(|s| &s.p).collect::<Vec<_>>()),
        V::S(_) => "struct".into(),
        V::E(e) => format!("enum{:?}", e.iter().map(|x| x.0).collect::<Vec<_>>()),
        V::A(a) => match &**a {
            ArrV::D(v) => format!("array[{}]", v.len()),
            ArrV::S { len, segs } => format!("array[{:?}; {} segs]", len, segs.len()),
        },
        V::FnP(_) => "fnptr".into(),
        V::Simd(_) => "simd".into(),
    }
}
pub fn assert_msg(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
        AssertMessage::Overflow(o, _, _) => format!("arithmetic overflow in {:?}", o),
        AssertMessage::OverflowNeg(_) => "arithmetic overflow in Neg".into(),
        AssertMessage::DivisionByZero(_) => "division by zero".into(),
        AssertMessage::RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}
pub fn bump(path: &mut Vec<Step>, d: &P) {
    if let Some(s) = path.last_mut() {
        if let Pr::X(p) = &s.p {
            s.p = Pr::X(p.add(d));
            return;
        }
    }
    path.push(Step { p: Pr::X(d.clone()), ct: None });
}
pub fn split_idx(path: &[Step]) -> (Vec<Step>, P) {
    if let Some(Step { p: Pr::X(i), .. }) = path.last() {
        (path[..path.len() - 1].to_vec(), i.clone())
    } else {
        (path.to_vec(), P::C(0))
    }
}
fn path_off(path: &[Step]) -> P {
    match path.last() {
        Some(Step { p: Pr::X(i), .. }) => i.clone(),
        _ => P::C(0),
    }
}
pub fn same_prefix_diff(a: &[Step], b: &[Step]) -> Option<P> {
    let (pa, ia) = split_idx(a);
    let (pb, ib) = split_idx(b);
    if pa == pb {
        return Some(ia.sub(&ib));
    }
    // one may lack the trailing index (pointer to the object itself)
    if a == b {
        return Some(P::C(0));
    }
    None
}
pub fn resolve_cst(f: &Facts, p: P) -> P {
    if f.m.is_empty() {
        return p;
    }
    if let P::X(x) = &p {
        if x.t.len() == 1 {
            let (l, h) = f.base(&p, 1);
            if l == h {
                return P::C(l);
            }
        }
    }
    p
}
pub fn wrap_range(f: &Facts, p: P, lo: i128, hi: i128) -> P {
    if let P::C(c) = p {
        if c >= lo && c <= hi {
            return p;
        }
        if hi >= INF {
            return p;
        }
        let m = hi - lo + 1;
        return P::C((c - lo).rem_euclid(m) + lo);
    }
    if hi >= INF || f.within(&p, lo, hi) {
        return p;
    }
    let m = hi - lo + 1;
    if lo == 0 {
        return f.mk_mod(&p, m);
    }
    f.mk_mod(&p.addc(-lo), m).addc(lo)
}
pub fn significant(fields: &[Ty]) -> Option<usize> {
    let nz: Vec<usize> = fields.iter().enumerate().filter(|(_, t)| !is_zst(**t)).map(|x| x.0).collect();
    if nz.len() == 1 {
        Some(nz[0])
    } else {
        None
    }
}
fn wraps(outer: Ty, inner: Ty) -> bool {
    let mut t = strip(outer);
    for _ in 0..6 {
        if t == inner {
            return true;
        }
        match &*ti(t) {
            TI::Struct { fields, .. } => match significant(fields) {
                Some(i) => t = strip(fields[i]),
                None => return false,
            },
            _ => return false,
        }
    }
    false
}
fn same_repr(a: Ty, b: Ty) -> bool {
    let (a, b) = (strip(a), strip(b));
    a == b || matches!((&*ti(a), &*ti(b)), (TI::Int{bits: x, ..}, TI::Int{bits: y, ..}) if x == y)
}
pub fn strip_struct(t: Ty) -> Ty {
    let mut t = strip(t);
    for _ in 0..6 {
        match &*ti(t) {
            TI::Struct { fields, .. } if significant(fields).is_some() => t = strip(fields[significant(fields).unwrap()]),
            _ => return t,
        }
    }
    t
}
pub fn wrap_single(t: Ty, v: V) -> V {
    // value of (possibly nested single-field) struct type t holding v; returns the enclosing struct's value
    fn go(t: Ty, v: V) -> V {
        let t = strip(t);
        match &*ti(t) {
            TI::Struct { fields, .. } if significant(fields).is_some() => {
                let i = significant(fields).unwrap();
                V::st(fields.iter().enumerate().map(|(j, f)| if j == i { go(*f, v.clone()) } else { V::U.zst(*f) }).collect())
            }
            _ => v,
        }
    }
    V::st(vec![go(t, v)])
}
pub fn sig_v(v: &V, out: &mut Vec<i64>, depth: u32, ptrs: bool) {
    if depth == 0 {
        return;
    }
    match v {
        V::E(vs) => {
            if vs.len() == 1 {
                out.push(vs[0].0 as i64);
                for x in vs[0].1.iter() {
                    sig_v(x, out, depth - 1, ptrs);
                }
            } else {
                out.push(-7);
            }
        }
        V::S(f) => {
            if f.len() <= 24 {
                for x in f.iter() {
                    sig_v(x, out, depth - 1, ptrs);
                }
            }
        }
        V::Ptr(p) if ptrs => out.push(match &p.base {
            Base::L(a, b) => 1000 + (*a as i64) * 1000 + *b as i64,
            Base::H(h) => 10_000_000 + *h as i64,
            Base::G(g) => 20_000_000 + *g as i64,
            Base::D(_) => -9,
        }),
        V::U => out.push(-11),
        _ => {}
    }
}
fn field_offsets(ty: Ty, n: usize) -> Vec<usize> {
    use rustc_public::abi::*;
    match ty.layout() {
        Ok(l) => match l.shape().fields {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
            _ => vec![0; n],
        },
        Err(_) => vec![0; n],
    }
}
fn variant_offsets(ty: Ty, vi: usize, n: usize) -> Vec<usize> {
    use rustc_public::abi::*;
    match ty.layout() {
        Ok(l) => {
            let s = l.shape();
            match s.variants {
                VariantsShape::Multiple { variants, .. } => variants[vi].offsets.iter().map(|o| o.bytes()).collect(),
                _ => match s.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                    _ => vec![0; n],
                },
            }
        }
        Err(_) => vec![0; n],
    }
}
fn decode_variant(ty: Ty, a: &Allocation, off: usize, nv: usize, discr: &[i128]) -> Option<usize> {
    use rustc_public::abi::*;
    let s = ty.layout().ok()?.shape();
    match s.variants {
        VariantsShape::Single { index } => Some(index.to_index()),
        VariantsShape::Empty => None,
        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
            let toff = match &s.fields {
                FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(),
                _ => 0,
            };
            let sz = match tag {
                Scalar::Initialized { value, .. } => prim_size(&value),
                Scalar::Union { value } => prim_size(&value),
            };
            let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
            match tag_encoding {
                TagEncoding::Direct => {
                    let v = a.read_partial_uint(off + toff..off + toff + sz).ok()? as i128;
                    let m = 1i128 << (8 * sz);
                    discr.iter().position(|d| d.rem_euclid(m) == v)
                }
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    if isptr {
                        return Some(untagged_variant.to_index());
                    }
                    let v = a.read_partial_uint(off + toff..off + toff + sz).ok()?;
                    let m = if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                    let rel = v.wrapping_sub(niche_start) & m;
                    let (s0, e0) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                    if rel <= (e0 - s0) as u128 {
                        Some(s0 + rel as usize)
                    } else {
                        Some(untagged_variant.to_index())
                    }
                }
            }
        }
    }
    .filter(|i| *i < nv)
}
fn prim_size(p: &rustc_public::abi::Primitive) -> usize {
    use rustc_public::abi::*;
    match p {
        Primitive::Int { length, .. } => match length {
            IntegerLength::I8 => 1,
            IntegerLength::I16 => 2,
            IntegerLength::I32 => 4,
            IntegerLength::I64 => 8,
            IntegerLength::I128 => 16,
        },
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}
/// view a register as lanes of `w` bytes (signed)
pub fn simd_lanes(l: &[(u8, P)], w: u8, f: &Facts) -> Vec<P> {
    let mut out = vec![];
    let mut i = 0;
    while i < l.len() {
        let (cw, p) = &l[i];
        if *cw == w {
            out.push(p.clone());
            i += 1;
        } else if *cw > w {
            // split, little endian
            let n = cw / w;
            let bits = 8 * w as u32;
            let up = wrap_range(f, p.clone(), 0, if *cw >= 14 { INF } else { (1i128 << (8 * *cw as u32)) - 1 });
            for k in 0..n {
                let d = f.mk_div(&up, 1i128 << (bits * k as u32));
                let m = f.mk_mod(&d, 1i128 << bits);
                out.push(wrap_range(f, m, -(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1));
            }
            i += 1;
        } else {
            let n = (w / cw) as usize;
            let bits = 8 * *cw as u32;
            let mut acc = P::C(0);
            for k in 0..n {
                let (c2, q) = &l[i + k];
                debug_assert!(c2 == cw);
                let q = if k + 1 < n { wrap_range(f, q.clone(), 0, (1i128 << bits) - 1) } else { q.clone() };
                acc = acc.addk(&q, 1i128 << (bits * k as u32));
            }
            out.push(acc);
            i += n;
        }
    }
    out
}

pub fn leaf_val(v: &V) -> V {
    match v {
        V::S(_) => crate::model::leaf(v),
        _ => v.clone(),
    }
}
