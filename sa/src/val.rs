//! Abstract values, types and memory.
use crate::poly::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum TI {
    Int { bits: u32, signed: bool },
    Bool,
    Char,
    Float,
    Ptr(Ty),
    Struct { fields: Vec<Ty>, name: String },
    Enum { variants: Vec<Vec<Ty>>, discr: Vec<i128>, dty: Ty, name: String },
    Transparent(Ty),
    Union(Vec<Ty>),
    Array(Ty, Option<u64>),
    Slice(Ty),
    Str,
    FnDef,
    FnPtr,
    Never,
    Dyn,
    Simd,
    Other,
}
thread_local! {
    static TIC: RefCell<HashMap<Ty, Rc<TI>>> = RefCell::new(HashMap::new());
    static SZC: RefCell<HashMap<Ty, Option<u64>>> = RefCell::new(HashMap::new());
}
pub fn ti(ty: Ty) -> Rc<TI> {
    if let Some(r) = TIC.with(|c| c.borrow().get(&ty).cloned()) {
        return r;
    }
    let r = Rc::new(ti0(ty));
    TIC.with(|c| c.borrow_mut().insert(ty, r.clone()));
    r
}
pub fn is_zst(ty: Ty) -> bool {
    size_of(ty) == Some(0)
}
fn ti0(ty: Ty) -> TI {
    match ty.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => TI::Bool,
            RigidTy::Char => TI::Char,
            RigidTy::Int(i) => TI::Int { bits: i.num_bytes() as u32 * 8, signed: true },
            RigidTy::Uint(i) => TI::Int { bits: i.num_bytes() as u32 * 8, signed: false },
            RigidTy::Float(_) => TI::Float,
            RigidTy::Str => TI::Str,
            RigidTy::Slice(t) => TI::Slice(t),
            RigidTy::Array(t, n) => TI::Array(t, n.eval_target_usize().ok()),
            RigidTy::Pat(t, _) => TI::Transparent(t),
            RigidTy::RawPtr(t, _) => TI::Ptr(t),
            RigidTy::Ref(_, t, _) => TI::Ptr(t),
            RigidTy::FnDef(..) => TI::FnDef,
            RigidTy::FnPtr(..) => TI::FnPtr,
            RigidTy::Never => TI::Never,
            RigidTy::Dynamic(..) => TI::Dyn,
            RigidTy::Tuple(v) => TI::Struct { fields: v, name: "()".into() },
            RigidTy::Closure(_, args) => {
                let mut f = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
                        f = v;
                    }
                }
                TI::Struct { fields: f, name: "{closure}".into() }
            }
            RigidTy::Adt(def, args) => {
                let name = def.name().to_string();
                if def.is_simd() {
                    return TI::Simd;
                }
                match def.kind() {
                    AdtKind::Struct => {
                        let v = def.variants().remove(0);
                        let fields: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        let short = name.rsplit("::").next().unwrap_or("").to_string();
                        if matches!(short.as_str(), "ManuallyDrop" | "MaybeDangling" | "UnsafeCell" | "Cell" | "SyncUnsafeCell") && name.contains("core") | name.contains("std") {
                            return TI::Transparent(fields[0]);
                        }
                        TI::Struct { fields, name }
                    }
                    AdtKind::Union => {
                        let v = def.variants().remove(0);
                        let fields: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        let nz: Vec<Ty> = fields.iter().cloned().filter(|t| !is_zst(*t)).collect();
                        if nz.len() == 1 {
                            return TI::Transparent(nz[0]);
                        }
                        if nz.is_empty() && fields.len() > 0 {
                            return TI::Transparent(*fields.last().unwrap());
                        }
                        TI::Union(fields)
                    }
                    AdtKind::Enum => {
                        let vs = def.variants();
                        let variants: Vec<Vec<Ty>> = vs.iter().map(|v| v.fields().iter().map(|f| f.ty_with_args(&args)).collect()).collect();
                        let discr: Vec<i128> = vs.iter().map(|v| def.discriminant_for_variant(v.idx())).map(|d| {
                            let t = ti(d.ty);
                            if let TI::Int { bits, signed: true } = &*t {
                                let m = 1i128 << bits;
                                let x = (d.val as i128) & (m - 1).max(0);
                                if x >= m / 2 { x - m } else { x }
                            } else {
                                d.val as i128
                            }
                        }).collect();
                        let dty = ty.kind().discriminant_ty().unwrap_or(Ty::usize_ty());
                        TI::Enum { variants, discr, dty, name }
                    }
                }
            }
            _ => TI::Other,
        },
        _ => TI::Other,
    }
}
pub fn strip(ty: Ty) -> Ty {
    let mut t = ty;
    loop {
        match &*ti(t) {
            TI::Transparent(i) => t = *i,
            _ => return t,
        }
    }
}
pub fn size_of(ty: Ty) -> Option<u64> {
    if let Some(r) = SZC.with(|c| c.borrow().get(&ty).cloned()) {
        return r;
    }
    let r = ty.layout().ok().and_then(|l| {
        let s = l.shape();
        if s.is_sized() { Some(s.size.bytes() as u64) } else { None }
    });
    SZC.with(|c| c.borrow_mut().insert(ty, r));
    r
}
pub fn int_range(ty: Ty) -> Option<(i128, i128)> {
    match &*ti(strip(ty)) {
        TI::Int { bits, signed } => Some(if *signed {
            if *bits >= 118 { (-INF, INF) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
        } else if *bits >= 118 {
            (0, INF)
        } else {
            (0, (1i128 << bits) - 1)
        }),
        TI::Bool => Some((0, 1)),
        TI::Char => Some((0, 0x10FFFF)),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Base {
    L(u32, u32),
    H(u32),
    G(u32),
    D(P),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pr {
    F(u32),
    V(u32),
    X(P),
}
#[derive(Clone, Debug)]
pub struct Step {
    pub p: Pr,
    pub ct: Option<Ty>,
}
impl PartialEq for Step {
    fn eq(&self, o: &Step) -> bool {
        self.p == o.p
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Meta {
    No,
    Len(P),
    Vt(Ty),
}
#[derive(Clone, Debug)]
pub struct PtrV {
    pub base: Base,
    pub path: Vec<Step>,
    pub pty: Option<Ty>,
    pub meta: Meta,
}
impl PartialEq for PtrV {
    fn eq(&self, o: &PtrV) -> bool {
        self.base == o.base && self.path == o.path && self.meta == o.meta
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum SV {
    Un,
    Const(V),
    /// element j (global index) is body with atom k := j
    Map(AtomId, V),
    /// summary: each element is some instance of the template
    Sum(V),
    /// `count` repetitions (implied by the extent) of a pattern of `stride` elements; `k` numbers the repetition.
    /// inner segments are relative to the start of the repetition
    Rep(AtomId, P, Rc<Vec<Seg>>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub s: P,
    pub e: P,
    pub v: SV,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ArrV {
    D(Vec<V>),
    S { len: P, segs: Vec<Seg> },
}
#[derive(Clone, Debug)]
pub enum V {
    U,
    T,
    I(P),
    Ptr(Rc<PtrV>),
    S(Rc<Vec<V>>),
    E(Rc<Vec<(u32, Rc<Vec<V>>)>>),
    A(Rc<ArrV>),
    FnP(Instance),
    /// vector register as 16-bit or 32-bit or 64-bit signed lanes
    Simd(Rc<Vec<(u8, P)>>),
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::U, V::U) | (V::T, V::T) => true,
            (V::I(a), V::I(b)) => a == b,
            (V::Ptr(a), V::Ptr(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::S(a), V::S(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::E(a), V::E(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::A(a), V::A(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::FnP(a), V::FnP(b)) => a == b,
            (V::Simd(a), V::Simd(b)) => a == b,
            _ => false,
        }
    }
}
impl V {
    pub fn unit() -> V {
        V::S(Rc::new(vec![]))
    }
    pub fn c(c: i128) -> V {
        V::I(P::C(c))
    }
    pub fn st(v: Vec<V>) -> V {
        V::S(Rc::new(v))
    }
    pub fn en(i: u32, v: Vec<V>) -> V {
        V::E(Rc::new(vec![(i, Rc::new(v))]))
    }
    pub fn ptr(p: PtrV) -> V {
        V::Ptr(Rc::new(p))
    }
    pub fn arr(v: Vec<V>) -> V {
        V::A(Rc::new(ArrV::D(v)))
    }
    pub fn sarr(len: P, segs: Vec<Seg>) -> V {
        V::A(Rc::new(ArrV::S { len, segs }))
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Vec<V>>>,
    pub heap: Rc<BTreeMap<u32, Rc<V>>>,
    pub keys: Rc<Vec<i64>>,
    pub dats: Rc<Vec<V>>,
    pub facts: Facts,
}
