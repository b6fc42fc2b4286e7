//! Per-function preprocessing: control-flow order, natural loops, liveness.
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::HashMap;

pub struct LoopInfo {
    pub header: usize,
    pub blocks: Vec<bool>,
    pub canon: Option<(usize, usize)>,
    pub exits: Vec<(usize, usize)>,
    pub small: bool,
}
pub struct FnBody {
    pub inst: Instance,
    pub body: Body,
    pub name: String,
    pub tys: Vec<Ty>,
    pub rpo: Vec<usize>,
    pub loops: HashMap<usize, LoopInfo>,
    pub live: Vec<Vec<bool>>,
    pub addr: Vec<bool>,
    pub argc: usize,
    pub local: bool,
    /// statements written in the crate that access memory through a raw pointer: (local, written)
    pub raw: HashMap<rustc_public::ty::Span, Vec<(usize, bool)>>,
    pub closure: bool,
}
fn succs(t: &TerminatorKind) -> Vec<usize> {
    use TerminatorKind::*;
    match t {
        Goto { target } => vec![*target],
        SwitchInt { targets, .. } => {
            let mut v: Vec<usize> = targets.branches().map(|x| x.1).collect();
            v.push(targets.otherwise());
            v
        }
        Drop { target, .. } => vec![*target],
        Call { target, .. } => target.iter().cloned().collect(),
        Assert { target, .. } => vec![*target],
        InlineAsm { destination, .. } => destination.iter().cloned().collect(),
        _ => vec![],
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in p.projection.iter() {
        if let ProjectionElem::Index(l) = e {
            f(*l);
        }
    }
}
fn op_uses(o: &Operand, f: &mut dyn FnMut(usize)) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, f),
        _ => {}
    }
}
fn rv_uses(r: &Rvalue, f: &mut dyn FnMut(usize)) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) => place_uses(p, f),
        Rvalue::Reborrow(_, _, p) => place_uses(p, f),
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| op_uses(o, f)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_uses(a, f);
            op_uses(b, f);
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) => op_uses(o, f),
        Rvalue::Use(o, _) => op_uses(o, f),
        Rvalue::ThreadLocalRef(_) => {}
    }
}
pub fn prepare(inst: Instance) -> Option<FnBody> {
    let body = inst.body()?;
    let n = body.blocks.len();
    let nl = body.locals().len();
    let tys: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
    let su: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator.kind)).collect();
    // postorder
    let mut post = vec![];
    let mut seen = vec![false; n];
    let mut stack = vec![(0usize, 0usize)];
    seen[0] = true;
    while let Some((b, i)) = stack.pop() {
        if i < su[b].len() {
            stack.push((b, i + 1));
            let s = su[b][i];
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            post.push(b);
        }
    }
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in post.iter().rev().enumerate() {
        rpo[*b] = i;
    }
    let order: Vec<usize> = post.iter().rev().cloned().collect();
    let mut preds = vec![vec![]; n];
    for b in 0..n {
        if seen[b] {
            for &s in &su[b] {
                preds[s].push(b);
            }
        }
    }
    // dominators (iterative)
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().skip(1) {
            let mut new = usize::MAX;
            for &p in &preds[b] {
                if idom[p] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = p;
                } else {
                    let (mut x, mut y) = (p, new);
                    while x != y {
                        while rpo[x] > rpo[y] {
                            x = idom[x];
                        }
                        while rpo[y] > rpo[x] {
                            y = idom[y];
                        }
                    }
                    new = x;
                }
            }
            if new != idom[b] {
                idom[b] = new;
                changed = true;
            }
        }
    }
    let dom = |a: usize, b: usize| {
        let mut x = b;
        loop {
            if x == a {
                return true;
            }
            if x == 0 {
                return false;
            }
            x = idom[x];
        }
    };
    let mut loops: HashMap<usize, LoopInfo> = HashMap::new();
    for &b in order.iter() {
        for &s in &su[b] {
            if dom(s, b) {
                let l = loops.entry(s).or_insert_with(|| {
                    let mut v = vec![false; n];
                    v[s] = true;
                    LoopInfo { header: s, blocks: v, canon: None, exits: vec![], small: false }
                });
                let mut st = vec![b];
                while let Some(x) = st.pop() {
                    if !l.blocks[x] {
                        l.blocks[x] = true;
                        st.extend(preds[x].iter().cloned());
                    }
                }
            }
        }
    }
    let headers: Vec<usize> = loops.keys().cloned().collect();
    // blocks that only lead to panics do not count as exits
    let mut reaches_ret = vec![false; n];
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().rev() {
            if !reaches_ret[b] && (matches!(body.blocks[b].terminator.kind, TerminatorKind::Return) || su[b].iter().any(|s| reaches_ret[*s])) {
                reaches_ret[b] = true;
                ch = true;
            }
        }
    }
    for l in loops.values_mut() {
        for &b in order.iter() {
            if l.blocks[b] {
                for &s in &su[b] {
                    if !l.blocks[s] && reaches_ret[s] {
                        l.exits.push((b, s));
                    }
                }
            }
        }
        l.canon = l.exits.first().cloned();
        let mut small = true;
        for b in 0..n {
            if !l.blocks[b] {
                continue;
            }
            if b != l.header && headers.contains(&b) {
                small = false;
            }
            if let TerminatorKind::Call { func, .. } = &body.blocks[b].terminator.kind {
                if let Operand::Constant(c) = func {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = c.ty().kind() {
                        if d.krate().is_local {
                            small = false;
                        }
                    }
                }
            }
        }
        l.small = small;
    }
    // address-taken
    let mut addr = vec![false; nl];
    for b in body.blocks.iter() {
        for s in b.statements.iter() {
            if let StatementKind::Assign(_, r) = &s.kind {
                match r {
                    Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                        if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                            addr[p.local] = true;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // liveness
    let mut live = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().rev() {
            let mut l = vec![false; nl];
            for &s in &su[b] {
                for i in 0..nl {
                    if live[s][i] {
                        l[i] = true;
                    }
                }
            }
            use TerminatorKind::*;
            match &body.blocks[b].terminator.kind {
                Return => l[0] = true,
                SwitchInt { discr, .. } => op_uses(discr, &mut |x| l[x] = true),
                Drop { place, .. } => place_uses(place, &mut |x| l[x] = true),
                Call { func, args, destination, .. } => {
                    if destination.projection.is_empty() {
                        l[destination.local] = false;
                    } else {
                        place_uses(destination, &mut |x| l[x] = true);
                    }
                    op_uses(func, &mut |x| l[x] = true);
                    for a in args {
                        op_uses(a, &mut |x| l[x] = true);
                    }
                }
                Assert { cond, .. } => op_uses(cond, &mut |x| l[x] = true),
                _ => {}
            }
            for s in body.blocks[b].statements.iter().rev() {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        if p.projection.is_empty() {
                            l[p.local] = false;
                        } else {
                            place_uses(p, &mut |x| l[x] = true);
                        }
                        rv_uses(r, &mut |x| l[x] = true);
                    }
                    StatementKind::SetDiscriminant { place, .. } => place_uses(place, &mut |x| l[x] = true),
                    StatementKind::StorageLive(x) | StatementKind::StorageDead(x) => l[*x] = false,
                    StatementKind::Intrinsic(i) => match i {
                        NonDivergingIntrinsic::Assume(o) => op_uses(o, &mut |x| l[x] = true),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            op_uses(&c.src, &mut |x| l[x] = true);
                            op_uses(&c.dst, &mut |x| l[x] = true);
                            op_uses(&c.count, &mut |x| l[x] = true);
                        }
                    },
                    _ => {}
                }
            }
            if l != live[b] {
                live[b] = l;
                ch = true;
            }
        }
    }
    let argc = body.arg_locals().len();
    let name = inst.name().to_string();
    let local = inst.def.krate().is_local;
    let closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
    let _ = is_zst;
    let mut raw: HashMap<rustc_public::ty::Span, Vec<(usize, bool)>> = HashMap::new();
    let leaf = !local && ["ptr::read", "ptr::write", "const_ptr::", "mut_ptr::"].iter().any(|x| name.contains(x));
    if leaf || (local && !name.contains("__jsa")) {
        let is_raw = |p: &Place| matches!(p.projection.first(), Some(ProjectionElem::Deref)) && matches!(tys[p.local].kind(), TyKind::RigidTy(RigidTy::RawPtr(..)));
        for b in body.blocks.iter() {
            for s in b.statements.iter() {
                if let StatementKind::Assign(p, r) = &s.kind {
                    let mut v = vec![];
                    if is_raw(p) {
                        v.push((p.local, true));
                    }
                    rv_places(r, &mut |p| {
                        if is_raw(p) {
                            v.push((p.local, false));
                        }
                    });
                    if !v.is_empty() && (leaf || !s.source_info.span.get_filename().to_string().contains("/rustlib/src/") && !s.source_info.span.get_filename().to_string().starts_with("/rustc/")) {
                        raw.insert(s.source_info.span, v);
                    }
                }
            }
        }
    }
    Some(FnBody { raw, inst, body, name, tys, rpo, loops, live, addr, argc, local, closure })
}

/// places a right-hand side reads (addresses taken without access excepted)
fn rv_places(r: &Rvalue, f: &mut dyn FnMut(&Place)) {
    let mut op = |o: &Operand| match o {
        Operand::Copy(p) | Operand::Move(p) => f(p),
        _ => {}
    };
    match r {
        Rvalue::Use(o, ..) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) => op(o),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op(a);
            op(b)
        }
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| op(o)),
        Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) => f(p),
        Rvalue::Ref(_, _, p) => f(p),
        _ => {}
    }
}
