//! Symbolic integer expressions: polynomials over interned atoms, plus interval facts.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;

pub const INF: i128 = 1 << 118;
pub type Mono = [u32; 4];
pub type AtomId = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum P {
    C(i128),
    X(Rc<Px>),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Px {
    pub t: Vec<(Mono, i128)>,
    pub c: i128,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AK {
    Fresh(u32, Rc<str>),
    Div(P, i128),
    Ge0(P),
    Eq0(P),
    Load(u32, P, u32),
    Op(&'static str, Vec<P>),
}
pub struct AtomInfo {
    pub k: AK,
    pub lo: i128,
    pub hi: i128,
}
pub struct Interner {
    pub atoms: Vec<AtomInfo>,
    map: HashMap<AK, AtomId>,
    pub loads: HashMap<(u32, u32), (i128, i128)>,
    pub fresh: u32,
}
thread_local! {
    static IN: RefCell<Interner> = RefCell::new(Interner{atoms: vec![AtomInfo{k:AK::Fresh(0,"zero".into()),lo:0,hi:0}], map: HashMap::new(), loads: HashMap::new(), fresh:1});
}
fn with<R>(f: impl FnOnce(&mut Interner) -> R) -> R {
    IN.with(|i| f(&mut i.borrow_mut()))
}
pub fn atom_kind(a: AtomId) -> AK {
    with(|i| i.atoms[a as usize].k.clone())
}
pub fn reset() {
    with(|i| {
        i.atoms.truncate(1);
        i.map.clear();
        i.loads.clear();
        i.fresh = 1;
    })
}
pub fn n_atoms() -> usize {
    with(|i| i.atoms.len())
}
pub fn atom_intr(a: AtomId) -> (i128, i128) {
    with(|i| {
        let x = &i.atoms[a as usize];
        (x.lo, x.hi)
    })
}
fn intern(k: AK, lo: i128, hi: i128) -> AtomId {
    with(|i| {
        if let Some(&a) = i.map.get(&k) {
            return a;
        }
        let id = i.atoms.len() as u32;
        i.atoms.push(AtomInfo { k: k.clone(), lo, hi });
        i.map.insert(k, id);
        id
    })
}
pub fn fresh(label: &str, lo: i128, hi: i128) -> P {
    if lo == hi {
        return P::C(lo);
    }
    let a = with(|i| {
        i.fresh += 1;
        let id = i.atoms.len() as u32;
        let k = AK::Fresh(i.fresh, label.into());
        i.atoms.push(AtomInfo { k, lo, hi });
        id
    });
    P::atom(a)
}
pub fn load(ver: u32, idx: &P, leaf: u32) -> P {
    let (lo, hi) = with(|i| i.loads.get(&(ver, leaf)).cloned().unwrap_or((-INF, INF)));
    if lo == hi { return P::C(lo); }
    P::atom(intern(AK::Load(ver, idx.clone(), leaf), lo, hi))
}
pub fn set_load_range(ver: u32, leaf: u32, lo: i128, hi: i128) {
    with(|i| {
        i.loads.insert((ver, leaf), (lo, hi));
    })
}
pub fn sat(v: i128) -> i128 {
    v.clamp(-INF, INF)
}
fn smul(a: i128, b: i128) -> i128 {
    if a == 0 || b == 0 {
        return 0;
    }
    match a.checked_mul(b) {
        Some(v) => sat(v),
        None => {
            if (a > 0) == (b > 0) {
                INF
            } else {
                -INF
            }
        }
    }
}
fn sadd(a: i128, b: i128) -> i128 {
    if a <= -INF || b <= -INF {
        // caller handles one-sided use (lower bounds)
        return -INF;
    }
    sat(a.saturating_add(b))
}
fn sadd_hi(a: i128, b: i128) -> i128 {
    if a >= INF || b >= INF {
        return INF;
    }
    sat(a.saturating_add(b))
}
pub fn imul(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let v = [smul(a.0, b.0), smul(a.0, b.1), smul(a.1, b.0), smul(a.1, b.1)];
    (*v.iter().min().unwrap(), *v.iter().max().unwrap())
}
pub fn iadd(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    (sadd(a.0, b.0), sadd_hi(a.1, b.1))
}
pub fn fdiv(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}
pub fn cdiv(a: i128, b: i128) -> i128 {
    -((-a).div_euclid(b))
}
pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn mono_mul(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut v: Vec<u32> = a.iter().chain(b.iter()).cloned().filter(|x| *x != 0).collect();
    v.sort();
    // boolean atoms are idempotent
    let mut w: Vec<u32> = Vec::with_capacity(v.len());
    for x in v {
        if let Some(&l) = w.last() {
            if l == x {
                let (lo, hi) = atom_intr(x);
                if lo >= 0 && hi <= 1 {
                    continue;
                }
            }
        }
        w.push(x);
    }
    if w.len() > 4 {
        return None;
    }
    let mut m = [0u32; 4];
    for (i, x) in w.iter().enumerate() {
        m[i] = *x;
    }
    Some(m)
}

impl P {
    pub fn zero() -> P {
        P::C(0)
    }
    pub fn atom(a: AtomId) -> P {
        P::X(Rc::new(Px { t: vec![([a, 0, 0, 0], 1)], c: 0 }))
    }
    pub fn cst(&self) -> Option<i128> {
        match self {
            P::C(c) => Some(*c),
            _ => None,
        }
    }
    pub fn terms(&self) -> &[(Mono, i128)] {
        match self {
            P::C(_) => &[],
            P::X(x) => &x.t,
        }
    }
    pub fn c0(&self) -> i128 {
        match self {
            P::C(c) => *c,
            P::X(x) => x.c,
        }
    }
    pub fn mk(t: Vec<(Mono, i128)>, c: i128) -> P {
        if t.is_empty() {
            P::C(c)
        } else {
            P::X(Rc::new(Px { t, c }))
        }
    }
    pub fn as_atom(&self) -> Option<AtomId> {
        if let P::X(x) = self {
            if x.c == 0 && x.t.len() == 1 && x.t[0].1 == 1 && x.t[0].0[1] == 0 {
                return Some(x.t[0].0[0]);
            }
        }
        None
    }
    pub fn add(&self, o: &P) -> P {
        self.addk(o, 1)
    }
    pub fn sub(&self, o: &P) -> P {
        self.addk(o, -1)
    }
    pub fn addc(&self, c: i128) -> P {
        match self {
            P::C(a) => P::C(a + c),
            P::X(x) => {
                if c == 0 {
                    return self.clone();
                }
                P::X(Rc::new(Px { t: x.t.clone(), c: x.c + c }))
            }
        }
    }
    /// self + k*o
    pub fn addk(&self, o: &P, k: i128) -> P {
        if k == 0 {
            return self.clone();
        }
        if let P::C(c) = o {
            return self.addc(c * k);
        }
        let a = self.terms();
        let b = o.terms();
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                r.push((b[j].0, b[j].1 * k));
                j += 1;
            } else {
                let s = a[i].1 + b[j].1 * k;
                if s != 0 {
                    r.push((a[i].0, s));
                }
                i += 1;
                j += 1;
            }
        }
        P::mk(r, self.c0() + o.c0() * k)
    }
    pub fn scale(&self, k: i128) -> P {
        match self {
            P::C(c) => P::C(c * k),
            P::X(x) => {
                if k == 0 {
                    P::C(0)
                } else if k == 1 {
                    self.clone()
                } else {
                    P::mk(x.t.iter().map(|(m, c)| (*m, c * k)).collect(), x.c * k)
                }
            }
        }
    }
    pub fn max_coef(&self) -> i128 {
        self.terms().iter().map(|t| t.1.abs()).max().unwrap_or(0).max(self.c0().abs())
    }
    pub fn mul(&self, o: &P) -> Option<P> {
        let big = 1i128 << 62;
        match (self, o) {
            (P::C(a), b) | (b, P::C(a)) => {
                if b.max_coef() > (1i128 << 100) / a.abs().max(1) {
                    return None;
                }
                Some(b.scale(*a))
            }
            (P::X(a), P::X(b)) => {
                if a.t.len() * b.t.len() > 200 || self.max_coef() > big || o.max_coef() > (1i128 << 50) {
                    return None;
                }
                let mut m: std::collections::BTreeMap<Mono, i128> = Default::default();
                for (ma, ca) in a.t.iter() {
                    for (mb, cb) in b.t.iter() {
                        let mm = mono_mul(ma, mb)?;
                        *m.entry(mm).or_insert(0) += ca * cb;
                    }
                    if b.c != 0 {
                        *m.entry(*ma).or_insert(0) += ca * b.c;
                    }
                }
                if a.c != 0 {
                    for (mb, cb) in b.t.iter() {
                        *m.entry(*mb).or_insert(0) += a.c * cb;
                    }
                }
                Some(P::mk(m.into_iter().filter(|x| x.1 != 0).collect(), a.c * b.c))
            }
        }
    }
    pub fn neg(&self) -> P {
        self.scale(-1)
    }
    pub fn has_atom(&self, a: AtomId) -> bool {
        self.terms().iter().any(|(m, _)| m.contains(&a))
    }
    /// does the expression mention the atom anywhere, also inside compound atoms
    pub fn mentions(&self, a: AtomId) -> bool {
        let mut memo = HashMap::new();
        mentions(self, a, &mut memo)
    }
    pub fn atoms(&self) -> Vec<AtomId> {
        let mut v = vec![];
        for (m, _) in self.terms() {
            for x in m {
                if *x != 0 && !v.contains(x) {
                    v.push(*x);
                }
            }
        }
        v
    }
    /// normal form: (g, n, c) with self = g*n + c, n without constant, positive leading coef, content 1
    pub fn norm(&self) -> (i128, P, i128) {
        match self {
            P::C(c) => (1, P::C(0), *c),
            P::X(x) => {
                let mut g = 0;
                for (_, c) in x.t.iter() {
                    g = gcd(g, *c);
                }
                if x.t[0].1 < 0 {
                    g = -g;
                }
                if g == 1 && x.c == 0 {
                    return (1, self.clone(), 0);
                }
                (g, P::mk(x.t.iter().map(|(m, c)| (*m, c / g)).collect(), 0), x.c)
            }
        }
    }
    pub fn coef(&self, m: &Mono) -> i128 {
        let t = self.terms();
        match t.binary_search_by(|x| x.0.cmp(m)) {
            Ok(i) => t[i].1,
            Err(_) => 0,
        }
    }
}
fn mentions(p: &P, a: AtomId, memo: &mut HashMap<AtomId, bool>) -> bool {
    for (m, _) in p.terms() {
        for &x in m {
            if x == 0 {
                continue;
            }
            if x == a {
                return true;
            }
            if x < a {
                continue; // compound atoms are created after their parts
            }
            if let Some(&r) = memo.get(&x) {
                if r {
                    return true;
                }
                continue;
            }
            let r = match atom_kind(x) {
                AK::Fresh(..) => false,
                AK::Div(q, _) | AK::Ge0(q) | AK::Eq0(q) | AK::Load(_, q, _) => mentions(&q, a, memo),
                AK::Op(_, v) => v.iter().any(|q| mentions(q, a, memo)),
            };
            memo.insert(x, r);
            if r {
                return true;
            }
        }
    }
    false
}

impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            P::C(c) => write!(f, "{}", c),
            P::X(x) => {
                let mut first = true;
                for (m, c) in x.t.iter().take(8) {
                    if !first {
                        write!(f, "{}", if *c < 0 { " - " } else { " + " })?;
                    } else if *c < 0 {
                        write!(f, "-")?;
                    }
                    first = false;
                    if c.abs() != 1 {
                        write!(f, "{}*", c.abs())?;
                    }
                    let mut ff = true;
                    for a in m {
                        if *a != 0 {
                            if !ff {
                                write!(f, "*")?;
                            }
                            ff = false;
                            fmt_atom(*a, f)?;
                        }
                    }
                }
                if x.t.len() > 8 {
                    write!(f, " + ...({} terms)", x.t.len())?;
                }
                if x.c != 0 {
                    write!(f, " {} {}", if x.c < 0 { "-" } else { "+" }, x.c.abs())?;
                }
                Ok(())
            }
        }
    }
}
fn fmt_atom(a: AtomId, f: &mut fmt::Formatter) -> fmt::Result {
    match atom_kind(a) {
        AK::Fresh(n, l) => write!(f, "{}#{}", l, n),
        AK::Div(q, c) => write!(f, "({:?})/{}", q, c),
        AK::Ge0(q) => write!(f, "[{:?}>=0]", q),
        AK::Eq0(q) => write!(f, "[{:?}==0]", q),
        AK::Load(v, i, l) => write!(f, "M{}.{}[{:?}]", v, l, i),
        AK::Op(n, v) => write!(f, "{}{:?}", n, v),
    }
}

#[derive(Clone, Default)]
pub struct Facts {
    pub m: Rc<HashMap<P, (i128, i128)>>,
}

impl Facts {
    pub fn get(&self, n: &P) -> Option<(i128, i128)> {
        if self.m.is_empty() {
            return None;
        }
        self.m.get(n).cloned()
    }
    pub fn atom_range(&self, a: AtomId, depth: u32) -> (i128, i128) {
        let (mut lo, mut hi) = atom_intr(a);
        if lo == hi {
            return (lo, hi);
        }
        if self.m.is_empty() {
            return (lo, hi);
        }
        if let Some((l, h)) = self.m.get(&P::atom(a)) {
            lo = lo.max(*l);
            hi = hi.min(*h);
        }
        if depth > 0 {
            match atom_kind(a) {
                AK::Div(q, c) => {
                    let (l, h) = self.base(&q, depth - 1);
                    if l > -INF {
                        lo = lo.max(fdiv(l, c));
                    }
                    if h < INF {
                        hi = hi.min(fdiv(h, c));
                    }
                }
                AK::Ge0(q) => {
                    let (l, h) = self.base(&q, depth - 1);
                    if l >= 0 {
                        lo = 1;
                    }
                    if h < 0 {
                        hi = 0;
                    }
                }
                AK::Eq0(q) => {
                    let (l, h) = self.base(&q, depth - 1);
                    if l > 0 || h < 0 {
                        hi = 0;
                    }
                    if l == 0 && h == 0 {
                        lo = 1;
                    }
                }
                _ => {}
            }
        }
        (lo, hi)
    }
    fn mono_range(&self, m: &Mono, depth: u32) -> (i128, i128) {
        let mut r = self.atom_range(m[0], depth);
        for i in 1..4 {
            if m[i] == 0 {
                break;
            }
            let s = self.atom_range(m[i], depth);
            if m[i] == m[i - 1] && i == 1 {
                // square
                let (l, h) = s;
                let a = smul(l, l).max(smul(h, h));
                let b = if l <= 0 && h >= 0 { 0 } else { smul(l, l).min(smul(h, h)) };
                r = (b, a);
                continue;
            }
            r = imul(r, s);
        }
        if m[1] != 0 && !self.m.is_empty() {
            if let Some((l, h)) = self.m.get(&P::mk(vec![(*m, 1)], 0)) {
                r = (r.0.max(*l), r.1.min(*h));
            }
        }
        r
    }
    pub fn base(&self, p: &P, depth: u32) -> (i128, i128) {
        match p {
            P::C(c) => (*c, *c),
            P::X(x) => {
                let mut r = (x.c, x.c);
                for (m, c) in x.t.iter() {
                    let a = self.mono_range(m, depth);
                    r = iadd(r, imul(a, (*c, *c)));
                }
                if !self.m.is_empty() && x.t.len() > 1 {
                    let (g, n, c) = p.norm();
                    if let Some(f) = self.m.get(&n) {
                        let s = iadd(imul(*f, (g, g)), (c, c));
                        r = (r.0.max(s.0), r.1.min(s.1));
                    }
                }
                r
            }
        }
    }
    /// best lower bound we can find; stops early when >= goal
    pub fn lower(&self, p: &P, depth: u32, goal: i128) -> i128 {
        let b = self.base(p, 2);
        let mut best = b.0;
        if best >= goal || p.cst().is_some() || b.1 < goal {
            return best;
        }
        // interval division substitution
        if let Some(v) = self.divsub_lower(p, goal) {
            best = best.max(v);
            if best >= goal {
                return best;
            }
        }
        // common factor
        if let Some(v) = self.factor_lower(p, depth) {
            best = best.max(v);
            if best >= goal {
                return best;
            }
        }
        if depth == 0 {
            return best;
        }
        // fact combination: for every monomial with a bad contribution, use a fact g>=0 with the same sign there
        let mut tried: Vec<P> = vec![];
        for (m, cp) in p.terms().iter() {
            let r = self.mono_range(m, 2);
            let contrib = imul(r, (*cp, *cp)).0;
            let contrib_hi = imul(r, (*cp, *cp)).1;
            if contrib == contrib_hi { continue; }
            // candidate nonneg polys containing m with the same sign
            let mut cands: Vec<P> = vec![];
            for (f, (l, h)) in self.m.iter() {
                let c = f.coef(m);
                if c != 0 && (f.terms().len() > 1) {
                    if *l > -INF && c * cp.signum() > 0 {
                        cands.push(f.addc(-*l));
                    }
                    if *h < INF && -c * cp.signum() > 0 {
                        cands.push(f.neg().addc(*h));
                    }
                }
                // product with an atom of m (m = a*m')
                if m[1] != 0 {
                    for i in 0..4 {
                        if m[i] == 0 {
                            break;
                        }
                        let mut mm = [0u32; 4];
                        let mut k = 0;
                        for j in 0..4 {
                            if j != i && m[j] != 0 {
                                mm[k] = m[j];
                                k += 1;
                            }
                        }
                        let c = f.coef(&mm);
                        if c == 0 {
                            continue;
                        }
                        if self.atom_range(m[i], 1).0 < 0 {
                            continue;
                        }
                        let at = P::atom(m[i]);
                        if *l > -INF && c * cp.signum() > 0 {
                            if let Some(q) = f.addc(-*l).mul(&at) {
                                cands.push(q);
                            }
                        }
                        if *h < INF && -c * cp.signum() > 0 {
                            if let Some(q) = f.neg().addc(*h).mul(&at) {
                                cands.push(q);
                            }
                        }
                    }
                }
            }
            for &a in m.iter() {
                if a == 0 {
                    break;
                }
                for g in implicit(a) {
                    let gg = if m[1] == 0 {
                        Some(g)
                    } else {
                        // multiply by the rest of the monomial if non-negative
                        let mut q = Some(g);
                        let mut skipped = false;
                        for &b in m.iter() {
                            if b == 0 {
                                break;
                            }
                            if b == a && !skipped {
                                skipped = true;
                                continue;
                            }
                            if self.atom_range(b, 1).0 < 0 {
                                q = None;
                            }
                            q = q.and_then(|q| q.mul(&P::atom(b)));
                        }
                        q
                    };
                    if let Some(g) = gg {
                        if g.coef(m) * cp.signum() > 0 {
                            cands.push(g);
                        }
                    }
                }
            }
            for g in cands {
                let cg = g.coef(m);
                if cg == 0 {
                    continue;
                }
                let d = gcd(cg, *cp);
                let (kp, kg) = (cg.abs() / d, cp.abs() / d);
                if kp > (1 << 70) || kg > (1 << 70) || p.max_coef() > (1i128 << 110) / kp || g.max_coef() > (1i128 << 110) / kg {
                    continue;
                }
                let q = p.scale(kp).addk(&g, -kg);
                if tried.contains(&q) {
                    continue;
                }
                tried.push(q.clone());
                if tried.len() > 60 {
                    return best;
                }
                let gl = if goal <= -INF { -INF } else { goal.saturating_mul(kp) };
                let v = self.lower(&q, depth - 1, gl);
                if v > -INF {
                    best = best.max(cdiv(v, kp));
                    if best >= goal {
                        return best;
                    }
                }
            }
        }
        best
    }
    fn factor_lower(&self, p: &P, depth: u32) -> Option<i128> {
        if p.c0() != 0 {
            return None;
        }
        let t = p.terms();
        if t.len() < 2 {
            return None;
        }
        for &a in t[0].0.iter() {
            if a == 0 {
                break;
            }
            if t.iter().all(|(m, _)| m.contains(&a)) && self.atom_range(a, 1).0 >= 0 {
                let mut out: Vec<(Mono, i128)> = vec![];
                let mut c0 = 0;
                for (m, c) in t {
                    let mut mm = [0u32; 4];
                    let mut k = 0;
                    let mut skipped = false;
                    for &x in m.iter() {
                        if x == a && !skipped {
                            skipped = true;
                            continue;
                        }
                        if x != 0 {
                            mm[k] = x;
                            k += 1;
                        }
                    }
                    if k == 0 {
                        c0 += c;
                    } else {
                        out.push((mm, *c));
                    }
                }
                out.sort();
                let q = P::mk(out, c0);
                let l = self.lower(&q, depth, 0);
                let ar = self.atom_range(a, 1);
                if l >= 0 {
                    return Some(smul(l, ar.0));
                }
            }
        }
        None
    }
    fn divsub_lower(&self, p: &P, goal: i128) -> Option<i128> {
        let mut cur = p.clone();
        let mut scale: i128 = 1;
        let mut best: Option<i128> = None;
        for _ in 0..4 {
            let mut divs: Vec<(AtomId, i128, P, i128)> = vec![];
            for (m, c) in cur.terms() {
                if m[1] == 0 {
                    if let AK::Div(q, d) = atom_kind(m[0]) {
                        divs.push((m[0], *c, q, d));
                    }
                }
            }
            if divs.is_empty() {
                break;
            }
            let mut l = 1i128;
            for (_, _, _, d) in divs.iter() {
                l = l / gcd(l, *d) * d;
                if l > 1 << 70 {
                    return best;
                }
            }
            if scale > (1i128 << 100) / l || cur.max_coef() > (1i128 << 110) / l {
                return best;
            }
            let mut n = cur.clone();
            for (a, k, _, _) in divs.iter() {
                n = n.addk(&P::atom(*a), -k);
            }
            n = n.scale(l);
            for (_, k, q, d) in divs.iter() {
                let f = k * (l / d);
                if q.max_coef() > (1i128 << 116) / f.abs().max(1) { return best; }
                n = n.addk(q, f);
                if *k > 0 {
                    n = n.addc(-(f * (d - 1)));
                }
            }
            scale *= l;
            cur = n;
            let (lo, _) = self.base(&cur, 1);
            if lo > -INF {
                let v = cdiv(lo, scale);
                best = Some(best.map_or(v, |b: i128| b.max(v)));
                if v >= goal {
                    return best;
                }
            }
        }
        best
    }
    pub fn range(&self, p: &P) -> (i128, i128) {
        let b = self.base(p, 2);
        if b.0 == b.1 || p.cst().is_some() {
            return b;
        }
        let lo = self.lower(p, 1, INF).max(b.0);
        let hi = (-self.lower(&p.neg(), 1, INF)).min(b.1);
        (lo, hi)
    }
    /// cheap bounds
    pub fn range0(&self, p: &P) -> (i128, i128) {
        self.base(p, 2)
    }
    pub fn within(&self, p: &P, lo: i128, hi: i128) -> bool {
        let b = self.base(p, 2);
        if b.0 >= lo && b.1 <= hi {
            return true;
        }
        (b.0 >= lo || self.ge0(&p.addc(-lo))) && (b.1 <= hi || self.ge0(&p.neg().addc(hi)))
    }
    pub fn ge0(&self, p: &P) -> bool {
        let (lo, hi) = self.base(p, 2);
        if lo >= 0 {
            return true;
        }
        if hi < 0 {
            return false;
        }
        self.lower(p, 2, 0) >= 0
    }
    pub fn ge0_deep(&self, p: &P) -> bool {
        self.ge0(p) || self.lower(p, 3, 0) >= 0
    }
    /// three-valued p>=0
    pub fn cmp_ge0(&self, p: &P) -> Option<bool> {
        let (lo, hi) = self.base(p, 2);
        if lo >= 0 {
            return Some(true);
        }
        if hi < 0 {
            return Some(false);
        }
        if self.lower(p, 2, 0) >= 0 {
            return Some(true);
        }
        if self.lower(&p.neg().addc(-1), 2, 0) >= 0 {
            return Some(false);
        }
        None
    }
    pub fn is_zero(&self, p: &P) -> Option<bool> {
        if let P::C(c) = p {
            return Some(*c == 0);
        }
        let (lo, hi) = self.base(p, 2);
        if lo > 0 || hi < 0 {
            return Some(false);
        }
        if lo == 0 && hi == 0 {
            return Some(true);
        }
        // divisibility: all coefficients divisible by g but the constant is not
        let (g, _, c) = p.norm();
        if c % g != 0 {
            return Some(false);
        }
        let l = self.lower(p, 2, 1);
        if l >= 1 {
            return Some(false);
        }
        let h = -self.lower(&p.neg(), 2, 1);
        if h <= -1 {
            return Some(false);
        }
        if l >= 0 && h <= 0 {
            return Some(true);
        }
        None
    }
    /// returns false if contradictory
    pub fn add(&mut self, p: &P, lo: i128, hi: i128) -> bool {
        let (g, n, c) = p.norm();
        if n.cst().is_some() {
            return c >= lo && c <= hi;
        }
        let (mut l, mut h) = (if lo <= -INF { -INF } else { lo - c }, if hi >= INF { INF } else { hi - c });
        if g < 0 {
            let t = l;
            l = if h >= INF { -INF } else { -h };
            h = if t <= -INF { INF } else { -t };
        }
        let ga = g.abs();
        let l = if l <= -INF { -INF } else { cdiv(l, ga) };
        let h = if h >= INF { INF } else { fdiv(h, ga) };
        self.add_norm(n, l, h)
    }
    fn add_norm(&mut self, n: P, l: i128, h: i128) -> bool {
        let r = self.base(&n, 2);
        if l > r.1 || h < r.0 || l > h {
            return false;
        }
        let (l0, h0) = self.m.get(&n).cloned().unwrap_or((-INF, INF));
        if l <= l0 && h >= h0 {
            return true;
        }
        if l <= r.0 && h >= r.1 && self.m.contains_key(&n) {
            return true;
        }
        let nl = l.max(l0);
        let nh = h.min(h0);
        if nl <= r.0 && nh >= r.1 {
            return true; // nothing new
        }
        if nl > nh {
            return false;
        }
        Rc::make_mut(&mut self.m).insert(n.clone(), (nl, nh));
        // structural propagation
        let t = n.terms();
        if t.len() == 1 && n.c0() == 0 {
            let m = t[0].0;
            let (nl, nh) = (nl.max(r.0), nh.min(r.1));
            if m[1] == 0 {
                match atom_kind(m[0]) {
                    AK::Ge0(q) => {
                        if nl >= 1 {
                            return self.add(&q, 0, INF);
                        }
                        if nh <= 0 {
                            return self.add(&q, -INF, -1);
                        }
                    }
                    AK::Eq0(q) => {
                        if nl >= 1 {
                            return self.add(&q, 0, 0);
                        }
                        if nh <= 0 {
                            return self.add_ne0(&q);
                        }
                    }
                    AK::Div(q, d) => {
                        let a = if nl <= -INF { -INF } else { nl * d };
                        let b = if nh >= INF { INF } else { nh * d + d - 1 };
                        return self.add(&q, a, b);
                    }
                    _ => {}
                }
            } else if nl >= 1 {
                for &a in m.iter() {
                    if a != 0 {
                        let (x, y) = atom_intr(a);
                        if x >= 0 && y <= 1 && !self.add(&P::atom(a), 1, 1) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    }
    pub fn add_ne0(&mut self, p: &P) -> bool {
        match self.is_zero(p) {
            Some(true) => return false,
            Some(false) => return true,
            None => {}
        }
        let lo = self.lower(p, 2, 0);
        if lo >= 0 {
            return self.add(p, 1, INF);
        }
        let hi = -self.lower(&p.neg(), 2, 0);
        if hi <= 0 {
            return self.add(p, -INF, -1);
        }
        // remember disequality as a fact on the Eq0 atom
        let e = eq0_atom(p);
        self.add(&e, 0, 0)
    }
}
/// polys known >=0 by definition of the atom
pub fn implicit(a: AtomId) -> Vec<P> {
    match atom_kind(a) {
        AK::Div(q, c) => {
            let d = P::atom(a).scale(c);
            vec![d.sub(&q).addc(c - 1), q.sub(&d)]
        }
        AK::Op("min", v) => vec![v[0].sub(&P::atom(a)), v[1].sub(&P::atom(a))],
        AK::Op("max", v) => vec![P::atom(a).sub(&v[0]), P::atom(a).sub(&v[1])],
        _ => vec![],
    }
}
pub fn eq0_atom(p: &P) -> P {
    let (g, n, c) = p.norm();
    if let P::C(_) = n {
        return P::C((c == 0) as i128);
    }
    if c % g != 0 {
        return P::C(0);
    }
    let q = n.addc(c / g);
    P::atom(intern(AK::Eq0(q), 0, 1))
}
impl Facts {
    /// [p >= 0] as a 0/1 value
    pub fn mk_ge0(&self, p: &P) -> P {
        match self.cmp_ge0(p) {
            Some(b) => return P::C(b as i128),
            None => {}
        }
        // for a 0/1 atom expression k*b + c
        let t = p.terms();
        if t.len() == 1 && t[0].0[1] == 0 {
            let (l, h) = atom_intr(t[0].0[0]);
            if l >= 0 && h <= 1 {
                let b = P::atom(t[0].0[0]);
                let v1 = t[0].1 + p.c0() >= 0;
                return if v1 { b } else { P::C(1).sub(&b) };
            }
        }
        let (g, n, c) = p.norm();
        // g*n + c >= 0
        if g > 0 {
            // n >= ceil(-c/g)
            let q = n.addc(-cdiv(-c, g));
            P::atom(intern(AK::Ge0(q), 0, 1))
        } else {
            // n <= floor(c/|g|)  == 1 - [n >= floor+1]
            let k = fdiv(c, -g) + 1;
            let q = n.addc(-k);
            P::C(1).sub(&P::atom(intern(AK::Ge0(q), 0, 1)))
        }
    }
    pub fn mk_eq0(&self, p: &P) -> P {
        match self.is_zero(p) {
            Some(b) => return P::C(b as i128),
            None => {}
        }
        let t = p.terms();
        if t.len() == 1 && t[0].0[1] == 0 {
            let (l, h) = atom_intr(t[0].0[0]);
            if l >= 0 && h <= 1 {
                let b = P::atom(t[0].0[0]);
                let (c0, c1) = (p.c0(), p.c0() + t[0].1);
                return match (c0 == 0, c1 == 0) {
                    (true, false) => P::C(1).sub(&b),
                    (false, true) => b,
                    (true, true) => P::C(1),
                    _ => P::C(0),
                };
            }
        }
        // p in [0,h]: [p==0] = 1 - Div(p+h, h+1)
        let (lo, hi) = self.range(p);
        let (q, lo, hi) = if lo == 0 { (p.clone(), lo, hi) } else if hi == 0 { (p.neg(), 0, -lo) } else { (p.clone(), lo, hi) };
        if lo == 0 && hi < (1 << 40) {
            let d = self.mk_div(&q.addc(hi), hi + 1);
            return P::C(1).sub(&d);
        }
        eq0_atom(p)
    }
    pub fn mk_div(&self, p: &P, c: i128) -> P {
        debug_assert!(c > 0);
        if c == 1 {
            return p.clone();
        }
        if let P::C(v) = p {
            return P::C(fdiv(*v, c));
        }
        let mut out: Vec<(Mono, i128)> = vec![];
        let mut rest: Vec<(Mono, i128)> = vec![];
        for (m, k) in p.terms() {
            if k % c == 0 {
                out.push((*m, k / c));
            } else if *k >= c || *k <= -c {
                // whole multiples come out, the rest as small as possible
                let q = fdiv(k + c / 2, c);
                out.push((*m, q));
                rest.push((*m, k - q * c));
            } else {
                rest.push((*m, *k));
            }
        }
        let k0 = p.c0();
        let oc = fdiv(k0, c);
        let rc = k0 - oc * c;
        let o = P::mk(out, oc);
        if rest.is_empty() {
            return o;
        }
        let r = P::mk(rest, rc);
        let (lo, hi) = self.base(&r, 2);
        if lo > -INF && hi < INF && fdiv(lo, c) == fdiv(hi, c) {
            return o.addc(fdiv(lo, c));
        }
        // gcd
        let mut g = c;
        for (_, k) in r.terms() {
            g = gcd(g, *k);
        }
        let (r, c) = if g > 1 {
            (P::mk(r.terms().iter().map(|(m, k)| (*m, k / g)).collect(), fdiv(r.c0(), g)), c / g)
        } else {
            (r, c)
        };
        if g > 1 {
            // re-run: things may simplify further
            if c == 1 {
                return o.add(&r);
            }
            return o.add(&self.mk_div(&r, c));
        }
        // Div of Div
        if r.terms().len() == 1 && r.terms()[0].1 == 1 && r.terms()[0].0[1] == 0 {
            if let AK::Div(q, a) = atom_kind(r.terms()[0].0[0]) {
                if a < (1 << 70) && c < (1 << 50) {
                    let qq = q.addc(r.c0() * a);
                    return o.add(&self.mk_div(&qq, a * c));
                }
            }
        }
        // split low part: r = hi_part + low_part where hi_part multiple of d, low in [0,d), d | c
        let mut d = c;
        while d % 2 == 0 && d > 1 {
            d /= 2;
            if d == 1 {
                break;
            }
            let lowt: Vec<(Mono, i128)> = r.terms().iter().filter(|(_, k)| k % d != 0).cloned().collect();
            let hit: Vec<(Mono, i128)> = r.terms().iter().filter(|(_, k)| k % d == 0).cloned().collect();
            if hit.is_empty() {
                continue;
            }
            if lowt.is_empty() && r.c0() % d == 0 {
                break; // gcd would have caught it
            }
            let lc = r.c0().rem_euclid(d);
            let low = P::mk(lowt, lc);
            let (ll, lh) = self.base(&low, 2);
            if ll >= 0 && lh < d {
                let hip = P::mk(hit, r.c0() - lc);
                return o.add(&self.mk_div(&hip, c));
            }
        }
        let (mut lo, mut hi) = self_free_range(&r);
        lo = if lo > -INF { fdiv(lo, c) } else { -INF };
        hi = if hi < INF { fdiv(hi, c) } else { INF };
        if hi - lo > (1 << 16) || lo <= -INF || hi >= INF || r.terms().len() <= 80 {
            let f = Facts::default();
            let l2 = f.divsub_lower(&r, INF).unwrap_or(-INF);
            let h2 = -f.divsub_lower(&r.neg(), INF).unwrap_or(-INF);
            if l2 > -INF {
                lo = lo.max(fdiv(l2, c));
            }
            if h2 < INF {
                hi = hi.min(fdiv(h2, c));
            }
            if lo == hi {
                return o.addc(lo);
            }
        }
        let a = intern(AK::Div(r, c), lo, hi);
        o.add(&P::atom(a))
    }
    pub fn mk_mod(&self, p: &P, m: i128) -> P {
        let d = self.mk_div(p, m);
        p.addk(&d, -m)
    }
    /// lowest 2^k dividing every value of p (best known)
    pub fn pow2(&self, p: &P) -> u32 {
        let mut k = 100;
        for (_, c) in p.terms() {
            k = k.min(c.trailing_zeros());
        }
        if p.c0() != 0 {
            k = k.min(p.c0().trailing_zeros());
        }
        k
    }
    fn is_bool(&self, p: &P) -> bool {
        let (l, h) = self.range0(p);
        l >= 0 && h <= 1
    }
    /// p & mask (mask constant, possibly negative = infinite ones)
    pub fn and_const(&self, p: &P, mask: i128) -> P {
        if let P::C(c) = p {
            return P::C(c & mask);
        }
        if mask == 0 {
            return P::C(0);
        }
        if mask == -1 {
            return p.clone();
        }
        let mut r = P::C(0);
        let mut i = 0u32;
        let neg = mask < 0;
        while i < 120 {
            if (mask >> i) & 1 == 0 {
                i += 1;
                continue;
            }
            let s = i;
            while i < 120 && (mask >> i) & 1 == 1 {
                i += 1;
            }
            // bits [s,i)
            if i >= 120 && neg {
                let low = self.mk_mod(p, 1i128 << s);
                r = r.add(&p.sub(&low));
            } else {
                // 2^s * (Div(p,2^s) mod 2^(i-s)) = (p mod 2^i) - (p mod 2^s)
                let a = self.mk_mod(p, 1i128 << i);
                let b = self.mk_mod(p, 1i128 << s);
                r = r.add(&a.sub(&b));
            }
        }
        r
    }
    pub fn bit_and(&self, a: &P, b: &P) -> P {
        match (a, b) {
            (P::C(x), P::C(y)) => return P::C(x & y),
            (P::C(x), p) | (p, P::C(x)) => return self.and_const(p, *x),
            _ => {}
        }
        if a == b {
            return a.clone();
        }
        if self.is_bool(a) && self.is_bool(b) {
            if let Some(p) = a.mul(b) {
                return p;
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(r) = self.and_sparse(x, y) {
                return r;
            }
        }
        let (la, ha) = self_free_range(a);
        let (lb, hb) = self_free_range(b);
        let hi = match (la >= 0, lb >= 0) {
            (true, true) => ha.min(hb),
            (true, false) => ha,
            (false, true) => hb,
            _ => pow2up(ha.max(hb)),
        };
        let lo = if la >= 0 || lb >= 0 { 0 } else { -pow2up(-(la.min(lb))) - 1 };
        self.op2("and", a, b, lo, hi)
    }
    /// x & y where x is a sum of separate bits, each present or not: bit by bit
    fn and_sparse(&self, x: &P, y: &P) -> Option<P> {
        if x.terms().len() > 16 || x.c0() < 0 {
            return None;
        }
        let mut used = x.c0();
        for (m, k) in x.terms() {
            if *k <= 0 || k.count_ones() != 1 || used & k != 0 || !m.iter().all(|a| *a == 0 || { let (l, h) = atom_intr(*a); l >= 0 && h <= 1 }) {
                return None;
            }
            used |= k;
        }
        let mut r = self.and_const(y, x.c0());
        for (m, k) in x.terms() {
            let bit = self.mk_mod(&self.mk_div(y, *k), 2);
            let one = P::mk(vec![(*m, 1)], 0);
            let both = if let P::C(v) = bit { one.scale(v) } else { self.op2("and", &one, &bit, 0, 1) };
            r = r.addk(&both, *k);
        }
        Some(r)
    }
    fn op2(&self, n: &'static str, a: &P, b: &P, lo: i128, hi: i128) -> P {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        op(n, vec![a.clone(), b.clone()], lo, hi)
    }
    pub fn bit_or(&self, a: &P, b: &P) -> P {
        match (a, b) {
            (P::C(x), P::C(y)) => return P::C(x | y),
            (P::C(0), p) | (p, P::C(0)) => return p.clone(),
            (P::C(x), p) | (p, P::C(x)) => {
                return p.addc(*x).sub(&self.and_const(p, *x));
            }
            _ => {}
        }
        if a == b {
            return a.clone();
        }
        if self.is_bool(a) && self.is_bool(b) {
            if let Some(p) = a.mul(b) {
                return a.add(b).sub(&p);
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            let k = self.pow2(x);
            if k > 0 && k < 100 && self.within(y, 0, (1i128 << k) - 1) {
                return x.add(y);
            }
        }
        let (la, ha) = self_free_range(a);
        let (lb, hb) = self_free_range(b);
        let (lo, hi) = if la >= 0 && lb >= 0 { (la.max(lb), pow2up(ha.max(hb))) } else { (-INF, INF) };
        self.op2("or", a, b, lo, hi)
    }
    pub fn bit_xor(&self, a: &P, b: &P) -> P {
        match (a, b) {
            (P::C(x), P::C(y)) => return P::C(x ^ y),
            (P::C(x), p) | (p, P::C(x)) => {
                return p.addc(*x).addk(&self.and_const(p, *x), -2);
            }
            _ => {}
        }
        if a == b {
            return P::C(0);
        }
        if self.is_bool(a) && self.is_bool(b) {
            if let Some(p) = a.mul(b) {
                return a.add(b).addk(&p, -2);
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            let k = self.pow2(x);
            if k > 0 && k < 100 && self.within(y, 0, (1i128 << k) - 1) {
                return x.add(y);
            }
        }
        let (la, ha) = self_free_range(a);
        let (lb, hb) = self_free_range(b);
        let (lo, hi) = if la >= 0 && lb >= 0 { (0, pow2up(ha.max(hb))) } else { (-INF, INF) };
        self.op2("xor", a, b, lo, hi)
    }
    pub fn mk_min(&self, a: &P, b: &P, mx: bool) -> P {
        let d = if mx { a.sub(b) } else { b.sub(a) }; // >=0 => a
        match self.cmp_ge0(&d) {
            Some(true) => return a.clone(),
            Some(false) => return b.clone(),
            None => {}
        }
        let (ra, rb) = (self_free_range(a), self_free_range(b));
        let (lo, hi) = if mx { (ra.0.max(rb.0), ra.1.max(rb.1)) } else { (ra.0.min(rb.0), ra.1.min(rb.1)) };
        self.op2(if mx { "max" } else { "min" }, a, b, lo, hi)
    }
    pub fn mul(&self, a: &P, b: &P) -> P {
        if let Some(p) = a.mul(b) {
            if p.terms().len() <= 400 {
                return p;
            }
        }
        let r = imul(self_free_range(a), self_free_range(b));
        self.op2("mul", a, b, r.0, r.1)
    }
}
pub fn op(n: &'static str, v: Vec<P>, lo: i128, hi: i128) -> P {
    if lo == hi {
        return P::C(lo);
    }
    P::atom(intern(AK::Op(n, v), lo, hi))
}
pub fn pow2up(v: i128) -> i128 {
    let mut k = 1i128;
    while k - 1 < v {
        if k >= INF {
            return INF;
        }
        k <<= 1;
    }
    k - 1
}
pub fn self_free_range(p: &P) -> (i128, i128) {
    Facts::default().base(p, 0)
}

/// substitute atoms -> polys, rebuilding compound atoms
pub struct Subst<'a> {
    pub map: HashMap<AtomId, P>,
    pub facts: &'a Facts,
    memo: HashMap<AtomId, P>,
    min: AtomId,
}
impl<'a> Subst<'a> {
    pub fn new(map: HashMap<AtomId, P>, facts: &'a Facts) -> Self {
        let min = map.keys().cloned().min().unwrap_or(u32::MAX);
        Subst { map, facts, memo: HashMap::new(), min }
    }
    fn atom(&mut self, a: AtomId) -> Option<P> {
        if a < self.min {
            return None;
        }
        if let Some(p) = self.map.get(&a) {
            return Some(p.clone());
        }
        if let Some(p) = self.memo.get(&a) {
            if p.as_atom() == Some(a) {
                return None;
            }
            return Some(p.clone());
        }
        let r = match atom_kind(a) {
            AK::Fresh(..) => P::atom(a),
            AK::Div(q, c) => {
                let n = self.go(&q);
                if n == q { P::atom(a) } else { self.facts.mk_div(&n, c) }
            }
            AK::Ge0(q) => {
                let n = self.go(&q);
                if n == q { P::atom(a) } else { self.facts.mk_ge0(&n) }
            }
            AK::Eq0(q) => {
                let n = self.go(&q);
                if n == q { P::atom(a) } else { self.facts.mk_eq0(&n) }
            }
            AK::Load(v, q, l) => {
                let n = self.go(&q);
                if n == q { P::atom(a) } else { load(v, &n, l) }
            }
            AK::Op(o, v) => {
                let w: Vec<P> = v.iter().map(|q| self.go(q)).collect();
                if w == v {
                    P::atom(a)
                } else {
                    match o {
                        "and" => self.facts.bit_and(&w[0], &w[1]),
                        "or" => self.facts.bit_or(&w[0], &w[1]),
                        "xor" => self.facts.bit_xor(&w[0], &w[1]),
                        "min" => self.facts.mk_min(&w[0], &w[1], false),
                        "max" => self.facts.mk_min(&w[0], &w[1], true),
                        "mul" => self.facts.mul(&w[0], &w[1]),
                        _ => {
                            let (lo, hi) = atom_intr(a);
                            op(o, w, lo, hi)
                        }
                    }
                }
            }
        };
        self.memo.insert(a, r.clone());
        if r.as_atom() == Some(a) {
            None
        } else {
            Some(r)
        }
    }
    pub fn go(&mut self, p: &P) -> P {
        if p.terms().iter().all(|(m, _)| m.iter().all(|a| *a < self.min)) {
            return p.clone();
        }
        let mut keep: Vec<(Mono, i128)> = vec![];
        let mut acc = P::C(0);
        for (m, c) in p.terms() {
            let mut hit = false;
            for &a in m {
                if a != 0 && self.atom(a).is_some() {
                    hit = true;
                }
            }
            if !hit {
                keep.push((*m, *c));
            } else {
                let mut q = P::C(*c);
                for &a in m {
                    if a != 0 {
                        let v = self.atom(a).unwrap_or_else(|| P::atom(a));
                        q = self.facts.mul(&q, &v);
                    }
                }
                acc = acc.add(&q);
            }
        }
        acc.add(&P::mk(keep, p.c0()))
    }
}
