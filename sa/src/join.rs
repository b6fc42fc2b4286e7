//! Joining abstract values and states; array segments.
use crate::poly::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct Joiner {
    pub f1: Facts,
    pub f2: Facts,
    pub memo: HashMap<(P, P), P>,
    pub phis: Vec<(P, P, P)>, // (a, b, phi)
    pub conds: Vec<(P, bool)>, // boolean atom, its value in state 1 (the other one in state 2)
    pub heap: Vec<(u32, u32, u32)>,
    pub next: u32,
    pub ite: bool,
}
fn terms_n(p: &P) -> usize {
    p.terms().len()
}
impl Joiner {
    pub fn new(f1: &Facts, f2: &Facts) -> Joiner {
        Joiner { f1: f1.clone(), f2: f2.clone(), memo: HashMap::new(), phis: vec![], conds: vec![], heap: vec![], next: 0, ite: true }
    }
    pub fn find_conds(&mut self) {
        for (k, (l, h)) in self.f1.m.iter() {
            if let Some(a) = k.as_atom() {
                let (il, ih) = atom_intr(a);
                if il < 0 || ih > 1 {
                    continue;
                }
                let v1 = if *l >= 1 {
                    true
                } else if *h <= 0 {
                    false
                } else {
                    continue;
                };
                if let Some((l2, h2)) = self.f2.m.get(k) {
                    if (v1 && *h2 <= 0) || (!v1 && *l2 >= 1) {
                        self.conds.push((k.clone(), v1));
                    }
                }
            }
        }
        self.conds.sort();
    }
    pub fn int(&mut self, a: &P, b: &P) -> P {
        if a == b {
            return a.clone();
        }
        if let Some(p) = self.memo.get(&(a.clone(), b.clone())) {
            return p.clone();
        }
        let r = self.int0(a, b);
        self.memo.insert((a.clone(), b.clone()), r.clone());
        r
    }
    fn int0(&mut self, a: &P, b: &P) -> P {
        let d = a.sub(b);
        if self.f1.is_zero(&d) == Some(true) {
            return b.clone();
        }
        if self.f2.is_zero(&d) == Some(true) {
            return a.clone();
        }
        for (x, y, phi) in self.phis.iter() {
            let dx = a.sub(x);
            if dx == b.sub(y) {
                return phi.add(&dx);
            }
            let sx = a.add(x);
            if sx == b.add(y) {
                return sx.sub(phi);
            }
        }
        if self.ite {
            if let Some((c, v1)) = self.conds.first().cloned() {
                // value is a when c == v1, else b
                let (x, y) = if v1 { (a, b) } else { (b, a) };
                let d = x.sub(y);
                if terms_n(&d) <= 2 && terms_n(y) <= 3 && terms_n(x) <= 3 && d.terms().iter().all(|(m, _)| m[1] == 0) {
                    if let Some(q) = c.mul(&d) {
                        return y.add(&q);
                    }
                }
            }
        }
        let (l1, h1) = self.f1.range(a);
        let (l2, h2) = self.f2.range(b);
        let phi = fresh("j", l1.min(l2), h1.max(h2));
        self.phis.push((a.clone(), b.clone(), phi.clone()));
        phi
    }
    pub fn val(&mut self, a: &V, b: &V) -> V {
        match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::T, _) | (_, V::T) => V::T,
            (V::I(p), V::I(q)) => V::I(self.int(p, q)),
            (V::Ptr(p), V::Ptr(q)) => {
                if Rc::ptr_eq(p, q) || p == q {
                    if let Base::H(h) = p.base {
                        self.pair(h, h);
                    }
                    return a.clone();
                }
                self.ptr(p, q)
            }
            (V::S(x), V::S(y)) => {
                if Rc::ptr_eq(x, y) && !self.has_heap() {
                    return a.clone();
                }
                if x.len() != y.len() {
                    return V::T;
                }
                V::st(x.iter().zip(y.iter()).map(|(u, v)| self.val(u, v)).collect())
            }
            (V::E(x), V::E(y)) => {
                if Rc::ptr_eq(x, y) && !self.has_heap() {
                    return a.clone();
                }
                let mut out: Vec<(u32, Rc<Vec<V>>)> = vec![];
                for (i, f) in x.iter() {
                    match y.iter().find(|z| z.0 == *i) {
                        Some((_, g)) => {
                            let n = f.len().max(g.len());
                            let v = (0..n).map(|k| self.val(f.get(k).unwrap_or(&V::U), g.get(k).unwrap_or(&V::U))).collect();
                            out.push((*i, Rc::new(v)));
                        }
                        None => out.push((*i, f.clone())),
                    }
                }
                for (i, g) in y.iter() {
                    if !out.iter().any(|z| z.0 == *i) {
                        out.push((*i, g.clone()));
                    }
                }
                out.sort_by_key(|z| z.0);
                V::E(Rc::new(out))
            }
            (V::A(x), V::A(y)) => {
                if Rc::ptr_eq(x, y) && !self.has_heap() {
                    return a.clone();
                }
                self.arr(x, y)
            }
            (V::FnP(x), V::FnP(y)) if x == y => a.clone(),
            (V::Simd(x), V::Simd(y)) if x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| p.0 == q.0) => {
                V::Simd(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| (p.0, self.int(&p.1, &q.1))).collect()))
            }
            _ => V::T,
        }
    }
    fn has_heap(&self) -> bool {
        false
    }
    fn pair(&mut self, a: u32, b: u32) -> u32 {
        if let Some(x) = self.heap.iter().find(|x| x.0 == a && x.1 == b) {
            return x.2;
        }
        // the younger name survives
        let n = a.max(b);
        self.heap.push((a, b, n));
        n
    }
    fn ptr(&mut self, p: &Rc<PtrV>, q: &Rc<PtrV>) -> V {
        let base = match (&p.base, &q.base) {
            (Base::D(_), _) if !matches!(q.base, Base::D(_)) => return V::Ptr(q.clone()),
            (_, Base::D(_)) if !matches!(p.base, Base::D(_)) => return V::Ptr(p.clone()),
            (Base::D(a), Base::D(b)) => Base::D(self.int(a, b)),
            (Base::H(a), Base::H(b)) => Base::H(self.pair(*a, *b)),
            (a, b) if a == b => a.clone(),
            _ => return V::T,
        };
        if p.path.len() != q.path.len() {
            return V::T;
        }
        let mut path = vec![];
        for (s, t) in p.path.iter().zip(q.path.iter()) {
            let pr = match (&s.p, &t.p) {
                (Pr::X(a), Pr::X(b)) => Pr::X(self.int(a, b)),
                (a, b) if a == b => a.clone(),
                _ => return V::T,
            };
            path.push(Step { p: pr, ct: s.ct.or(t.ct) });
        }
        let meta = match (&p.meta, &q.meta) {
            (Meta::Len(a), Meta::Len(b)) => Meta::Len(self.int(a, b)),
            (a, b) if a == b => a.clone(),
            _ => return V::T,
        };
        V::ptr(PtrV { base, path, pty: p.pty.or(q.pty), meta })
    }
    fn arr(&mut self, x: &Rc<ArrV>, y: &Rc<ArrV>) -> V {
        match (&**x, &**y) {
            (ArrV::D(a), ArrV::D(b)) if a.len() == b.len() => V::arr(a.iter().zip(b.iter()).map(|(u, v)| self.val(u, v)).collect()),
            (ArrV::D(a), ArrV::D(b)) if a.len().max(b.len()) <= 8192 => {
                // heap blocks grown to different capacities
                let n = a.len().max(b.len());
                V::arr((0..n).map(|i| self.val(a.get(i).unwrap_or(&V::U), b.get(i).unwrap_or(&V::U))).collect())
            }
            _ => {
                let (l1, s1) = to_segs(x);
                let (l2, s2) = to_segs(y);
                let len = self.int(&l1, &l2);
                let segs = self.segs(&s1, &s2);
                V::sarr(len, segs)
            }
        }
    }
    fn segs(&mut self, a: &[Seg], b: &[Seg]) -> Vec<Seg> {
        if a == b {
            return a.to_vec();
        }
        // aligned prefix
        if a.len() == b.len() {
            let mut out = vec![];
            let mut ok = true;
            for (x, y) in a.iter().zip(b.iter()) {
                let same = |p: &P, q: &P| p == q;
                let _ = same;
                let s = self.int(&x.s, &y.s);
                let e = self.int(&x.e, &y.e);
                let v = match (&x.v, &y.v) {
                    (SV::Un, SV::Un) => SV::Un,
                    (SV::Const(u), SV::Const(v)) => SV::Const(self.val(u, v)),
                    (SV::Sum(u), SV::Sum(v)) => SV::Sum(self.tmpl(u, v)),
                    (SV::Map(k, u), SV::Map(l, v)) => {
                        let v2 = if k == l {
                            v.clone()
                        } else {
                            let mut m = HashMap::new();
                            m.insert(*l, P::atom(*k));
                            subst_v(v, m, &self.f2)
                        };
                        if *u == v2 {
                            SV::Map(*k, u.clone())
                        } else {
                            SV::Sum(self.tmpl(u, &v2))
                        }
                    }
                    (SV::Rep(k, st, u), SV::Rep(l, st2, v)) if st == st2 => {
                        let m: HashMap<AtomId, P> = [(*l, P::atom(*k))].into_iter().collect();
                        let v2: Vec<Seg> = v.iter().map(|g| subst_seg(g, &m, &self.f2)).collect();
                        if **u == v2 {
                            SV::Rep(*k, st.clone(), u.clone())
                        } else {
                            ok = false;
                            break;
                        }
                    }
                    (u, v) => {
                        let t1 = seg_tmpl(u, &self.f1);
                        let t2 = seg_tmpl(v, &self.f2);
                        SV::Sum(self.tmpl(&t1, &t2))
                    }
                };
                out.push(Seg { s, e, v });
            }
            if ok {
                return out;
            }
        }
        // one side is a prefix of the other
        let e1 = a.last().map(|s| s.e.clone()).unwrap_or(P::C(0));
        let e2 = b.last().map(|s| s.e.clone()).unwrap_or(P::C(0));
        let e = self.int(&e1, &e2);
        let mut t: Option<V> = None;
        for g in a {
            if let SV::Un = g.v {
                continue;
            }
            let u = seg_tmpl(&g.v, &self.f1);
            t = Some(match t {
                None => u,
                Some(x) => self.tmpl(&x, &u),
            });
        }
        for g in b {
            if let SV::Un = g.v {
                continue;
            }
            let u = seg_tmpl(&g.v, &self.f2);
            t = Some(match t {
                None => u,
                Some(x) => self.tmpl(&x, &u),
            });
        }
        match t {
            None => vec![],
            Some(t) => vec![Seg { s: P::C(0), e, v: SV::Sum(t) }],
        }
    }
    /// join of summary templates: no sharing with the rest of the state
    fn tmpl(&mut self, a: &V, b: &V) -> V {
        if a == b {
            return a.clone();
        }
        let mut j = Joiner::new(&self.f1, &self.f2);
        j.ite = false;
        j.next = self.next;
        let v = j.val(a, b);
        for h in j.heap {
            self.pair(h.0, h.1);
        }
        template(&v, &Facts::default())
    }
}
pub fn to_segs(a: &ArrV) -> (P, Vec<Seg>) {
    match a {
        ArrV::D(v) => (P::C(v.len() as i128), dense_to_segs(v)),
        ArrV::S { len, segs } => (len.clone(), segs.clone()),
    }
}
/// forget everything but ranges: usable as the description of many cells
pub fn template(v: &V, f: &Facts) -> V {
    map_v(v, &mut |p| match p {
        P::C(_) => p.clone(),
        _ => {
            let (l, h) = f.range0(p);
            fresh("s", l, h)
        }
    })
}
pub fn seg_tmpl(s: &SV, f: &Facts) -> V {
    match s {
        SV::Un => V::U,
        SV::Const(v) | SV::Map(_, v) | SV::Sum(v) => template(v, f),
        SV::Rep(_, _, inner) => {
            let mut t: Option<V> = None;
            for g in inner.iter() {
                let u = seg_tmpl(&g.v, f);
                t = Some(match t {
                    None => u,
                    Some(x) => Joiner::new(f, f).tmpl(&x, &u),
                });
            }
            t.unwrap_or(V::U)
        }
    }
}
pub fn map_v(v: &V, f: &mut dyn FnMut(&P) -> P) -> V {
    match v {
        V::U | V::T | V::FnP(_) => v.clone(),
        V::I(p) => V::I(f(p)),
        V::Ptr(p) => {
            let base = match &p.base {
                Base::D(a) => Base::D(f(a)),
                b => b.clone(),
            };
            let path = p.path.iter().map(|s| Step { p: if let Pr::X(x) = &s.p { Pr::X(f(x)) } else { s.p.clone() }, ct: s.ct }).collect();
            let meta = match &p.meta {
                Meta::Len(l) => Meta::Len(f(l)),
                m => m.clone(),
            };
            V::ptr(PtrV { base, path, pty: p.pty, meta })
        }
        V::S(x) => V::st(x.iter().map(|y| map_v(y, f)).collect()),
        V::E(x) => V::E(Rc::new(x.iter().map(|(i, g)| (*i, Rc::new(g.iter().map(|y| map_v(y, f)).collect()))).collect())),
        V::A(a) => match &**a {
            ArrV::D(x) => V::arr(x.iter().map(|y| map_v(y, f)).collect()),
            ArrV::S { len, segs } => V::sarr(f(len), segs.iter().map(|s| map_seg(s, f)).collect()),
        },
        V::Simd(x) => V::Simd(Rc::new(x.iter().map(|(w, p)| (*w, f(p))).collect())),
    }
}
pub fn map_seg(s: &Seg, f: &mut dyn FnMut(&P) -> P) -> Seg {
    let v = match &s.v {
        SV::Un => SV::Un,
        SV::Const(v) => SV::Const(map_v(v, f)),
        SV::Map(k, v) => SV::Map(*k, map_v(v, f)),
        SV::Sum(v) => SV::Sum(v.clone()),
        SV::Rep(k, st, inner) => SV::Rep(*k, f(st), Rc::new(inner.iter().map(|g| map_seg(g, f)).collect())),
    };
    Seg { s: f(&s.s), e: f(&s.e), v }
}
pub fn subst_v(v: &V, m: HashMap<AtomId, P>, facts: &Facts) -> V {
    if m.is_empty() {
        return v.clone();
    }
    let mut s = Subst::new(m, facts);
    map_v(v, &mut |p| s.go(p))
}
pub fn subst_seg(g: &Seg, m: &HashMap<AtomId, P>, facts: &Facts) -> Seg {
    let mut s = Subst::new(m.clone(), facts);
    map_seg(g, &mut |p| s.go(p))
}
pub fn shift_seg(g: &Seg, d: &P, facts: &Facts) -> Seg {
    if d.cst() == Some(0) {
        return g.clone();
    }
    let v = match &g.v {
        SV::Map(k, v) => {
            let mut m = HashMap::new();
            m.insert(*k, P::atom(*k).sub(d));
            SV::Map(*k, subst_v(v, m, facts))
        }
        v => v.clone(),
    };
    Seg { s: g.s.add(d), e: g.e.add(d), v }
}
pub fn push_seg(segs: &mut Vec<Seg>, s: Seg) {
    if s.s == s.e {
        return;
    }
    if let Some(l) = segs.last_mut() {
        if l.e == s.s {
            match (&l.v, &s.v) {
                (SV::Const(a), SV::Const(b)) if a == b => {
                    l.e = s.e;
                    return;
                }
                (SV::Un, SV::Un) => {
                    l.e = s.e;
                    return;
                }
                (SV::Map(k, a), SV::Map(k2, b)) if k == k2 && a == b => {
                    l.e = s.e;
                    return;
                }
                _ => {}
            }
        }
    }
    segs.push(s);
}
pub fn collapse_into(segs: &mut Vec<Seg>, len: &P, v: Option<V>, facts: &Facts) {
    let mut t: Option<V> = v.map(|v| template(&v, facts));
    for g in segs.iter() {
        if let SV::Un = g.v {
            continue;
        }
        let u = seg_tmpl(&g.v, facts);
        t = Some(match t {
            None => u,
            Some(x) => Joiner::new(facts, facts).tmpl(&x, &u),
        });
    }
    let e = if len.cst() == Some(0) { segs.last().map(|s| s.e.clone()).unwrap_or(P::C(0)) } else { len.clone() };
    let s = segs.first().map(|s| s.s.clone()).unwrap_or(P::C(0));
    segs.clear();
    segs.push(Seg { s, e, v: SV::Sum(t.unwrap_or(V::U)) });
}
pub fn dense_to_segs(v: &[V]) -> Vec<Seg> {
    let mut out = vec![];
    for (i, x) in v.iter().enumerate() {
        let s = P::C(i as i128);
        let e = P::C(i as i128 + 1);
        match x {
            V::U => push_seg(&mut out, Seg { s, e, v: SV::Un }),
            x => push_seg(&mut out, Seg { s, e, v: SV::Const(x.clone()) }),
        }
    }
    if let Some(Seg { v: SV::Un, .. }) = out.last() {
        out.pop();
    }
    out
}
pub fn slice_segs(arr: &V, s: &P, e: &P, f: &Facts) -> Option<Vec<Seg>> {
    let a = match arr {
        V::A(a) => a,
        _ => return None,
    };
    let (_, segs) = to_segs(a);
    let mut out = vec![];
    for g in segs {
        // part of g inside [s,e)
        let before = f.ge0(&s.sub(&g.e));
        let after = f.ge0(&g.s.sub(e));
        if before || after {
            continue;
        }
        let ns = if f.ge0(&s.sub(&g.s)) {
            s.clone()
        } else if f.ge0(&g.s.sub(s)) {
            g.s.clone()
        } else {
            return None;
        };
        let ne = if f.ge0(&e.sub(&g.e)) {
            g.e.clone()
        } else if f.ge0(&g.e.sub(e)) {
            e.clone()
        } else {
            return None;
        };
        if let SV::Rep(_, stride, _) = &g.v {
            // only whole repetitions
            divide(&ns.sub(&g.s), stride, f).filter(|x| x.1.cst() == Some(0) && x.0.cst() == Some(0))?;
        }
        out.push(Seg { s: ns, e: ne, v: g.v.clone() });
    }
    // contiguous?
    let mut at = s.clone();
    for g in &out {
        if f.is_zero(&g.s.sub(&at)) != Some(true) {
            return None;
        }
        at = g.e.clone();
    }
    if f.is_zero(&at.sub(e)) != Some(true) {
        return None;
    }
    Some(out)
}
/// d = q*stride + r with 0 <= r < stride
pub fn divide(d: &P, stride: &P, f: &Facts) -> Option<(P, P)> {
    if let Some(c) = stride.cst() {
        if c <= 0 {
            return None;
        }
        let q = f.mk_div(d, c);
        let r = d.addk(&q, -c);
        return Some((q, r));
    }
    // symbolic stride: collect the monomials that are multiples of its leading monomial
    let (lm, lc) = stride.terms()[0];
    let mut q = P::C(0);
    for (m, c) in d.terms() {
        // m = lm * rest ?
        let mut rest: Vec<u32> = m.iter().cloned().filter(|x| *x != 0).collect();
        let mut ok = true;
        for x in lm.iter().filter(|x| **x != 0) {
            match rest.iter().position(|y| y == x) {
                Some(i) => {
                    rest.remove(i);
                }
                None => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok || c % lc != 0 {
            continue;
        }
        let mut mm = [0u32; 4];
        for (i, x) in rest.iter().enumerate() {
            mm[i] = *x;
        }
        q = q.add(&if mm[0] == 0 { P::C(c / lc) } else { P::mk(vec![(mm, c / lc)], 0) });
    }
    for _ in 0..3 {
        let r = d.sub(&f.mul(&q, stride));
        if !f.ge0_deep(&r) {
            q = q.addc(-1);
            continue;
        }
        if !f.ge0_deep(&stride.sub(&r).addc(-1)) {
            q = q.addc(1);
            continue;
        }
        return Some((q, r));
    }
    None
}
pub fn refresh(v: &V, f: &Facts) -> V {
    template(v, f)
}

pub struct Hull {
    j: Joiner,
}
impl Hull {
    pub fn new(f: &Facts) -> Hull {
        let mut j = Joiner::new(f, f);
        j.ite = false;
        Hull { j }
    }
    pub fn join(&mut self, a: &V, b: &V) -> V {
        // no sharing between different cells: every join is an independent unknown
        self.j.memo.clear();
        self.j.phis.clear();
        self.j.val(a, b)
    }
}

pub fn join_states(a: &State, b: &State) -> State {
    let mut j = Joiner::new(&a.facts, &b.facts);
    j.find_conds();
    join_with(&mut j, a, b)
}
pub fn join_with(j: &mut Joiner, a: &State, b: &State) -> State {
    let mut frames = Vec::with_capacity(a.frames.len());
    for (x, y) in a.frames.iter().zip(b.frames.iter()) {
        if Rc::ptr_eq(x, y) || x == y {
            frames.push(x.clone());
        } else {
            frames.push(Rc::new(x.iter().zip(y.iter()).map(|(u, v)| j.val(u, v)).collect::<Vec<_>>()));
        }
    }
    let dats = if Rc::ptr_eq(&a.dats, &b.dats) || a.dats == b.dats {
        a.dats.clone()
    } else {
        let n = a.dats.len().max(b.dats.len());
        Rc::new((0..n).map(|i| j.val(a.dats.get(i).unwrap_or(&V::U), b.dats.get(i).unwrap_or(&V::U))).collect())
    };
    let mut heap: BTreeMap<u32, Rc<V>>;
    if Rc::ptr_eq(&a.heap, &b.heap) && j.heap.iter().all(|h| h.0 == h.1) {
        heap = (*a.heap).clone();
    } else {
        heap = BTreeMap::new();
        for (k, v) in a.heap.iter() {
            match b.heap.get(k) {
                Some(w) => {
                    if Rc::ptr_eq(v, w) {
                        heap.insert(*k, v.clone());
                    } else {
                        heap.insert(*k, Rc::new(j.val(v, w)));
                    }
                }
                None => {
                    heap.insert(*k, v.clone());
                }
            }
        }
        for (k, w) in b.heap.iter() {
            if !heap.contains_key(k) {
                heap.insert(*k, w.clone());
            }
        }
        let mut i = 0;
        while i < j.heap.len() {
            let (x, y, n) = j.heap[i];
            i += 1;
            if x == y {
                continue;
            }
            let v = match (a.heap.get(&x), b.heap.get(&y)) {
                (Some(v), Some(w)) => j.val(&v.clone(), &w.clone()),
                (Some(v), None) => (**v).clone(),
                (None, Some(v)) => (**v).clone(),
                _ => V::T,
            };
            heap.insert(n, Rc::new(v));
        }
    }
    let facts = join_facts(j);
    State { frames, heap: Rc::new(heap), keys: a.keys.clone(), dats, facts }
}
pub fn join_facts(j: &Joiner) -> Facts {
    let (f1, f2) = (&j.f1, &j.f2);
    let mut out: HashMap<P, (i128, i128)> = HashMap::new();
    if Rc::ptr_eq(&f1.m, &f2.m) {
        out = (*f1.m).clone();
    } else {
        for (k, (l, h)) in f1.m.iter() {
            let (l2, h2) = match f2.m.get(k) {
                Some(x) => *x,
                None => f2.base(k, 1),
            };
            let (nl, nh) = ((*l).min(l2), (*h).max(h2));
            let intr = self_free_range(k);
            if nl > intr.0 || nh < intr.1 {
                out.insert(k.clone(), (nl, nh));
            }
        }
        for (k, (l, h)) in f2.m.iter() {
            if f1.m.contains_key(k) {
                continue;
            }
            let (l2, h2) = f1.base(k, 1);
            let (nl, nh) = ((*l).min(l2), (*h).max(h2));
            let intr = self_free_range(k);
            if nl > intr.0 || nh < intr.1 {
                out.insert(k.clone(), (nl, nh));
            }
        }
    }
    let mut f = Facts { m: Rc::new(out) };
    if j.phis.len() > 48 {
        return f;
    }
    for (a, b, phi) in j.phis.iter() {
        let d = b.sub(a);
        if terms_n(&d) > 6 {
            continue;
        }
        // phi - a: 0 in state 1, b - a in state 2
        if a.cst().is_none() {
            let (l, h) = f2.range(&d);
            if l > -(1 << 70) || h < (1 << 70) {
                f.add(&phi.sub(a), l.min(0), h.max(0));
            }
        }
        if b.cst().is_none() {
            let (l, h) = f1.range(&d.neg());
            if l > -(1 << 70) || h < (1 << 70) {
                f.add(&phi.sub(b), l.min(0), h.max(0));
            }
        }
    }
    // facts about an atom that became part of a phi
    let mut extra: Vec<(P, i128, i128)> = vec![];
    for (a, b, phi) in j.phis.iter() {
        for (x, fx, y, fy) in [(a, f1, b, f2), (b, f2, a, f1)] {
            if x.terms().len() != 1 || x.terms()[0].0[1] != 0 || x.terms()[0].1.abs() != 1 {
                continue;
            }
            let (m, c) = x.terms()[0];
            // atom = c*(x - c0)
            let inv = |v: &P| v.addc(-x.c0()).scale(c);
            for (k, (l, h)) in fx.m.iter() {
                let kc = k.coef(&m);
                if kc == 0 || k.terms().len() < 2 || k.terms().len() > 4 {
                    continue;
                }
                let kp = k.addk(&inv(phi), kc).sub(&P::mk(vec![(m, kc)], 0));
                let ky = k.addk(&inv(y), kc).sub(&P::mk(vec![(m, kc)], 0));
                let (l2, h2) = fy.range(&ky);
                let (nl, nh) = ((*l).min(l2), (*h).max(h2));
                if nl > -(1 << 70) || nh < (1 << 70) {
                    extra.push((kp, nl, nh));
                }
            }
        }
    }
    for (p, l, h) in extra.into_iter().take(200) {
        f.add(&p, l, h);
    }
    f
}
