//! Whole-crate rules that need no execution model: every body, static and public item of one
//! feature configuration is visited once.
use crate::js;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, BTreeSet};

struct Ev {
    id: String,
    detail: String,
    stack: Vec<String>,
}
struct Out {
    ev: Vec<Ev>,
    checks: BTreeMap<String, u64>,
    fns: BTreeSet<String>,
    calls: BTreeSet<String>,
}
impl Out {
    fn ok(&mut self, id: &str) {
        *self.checks.entry(id.into()).or_insert(0) += 1;
    }
    fn check(&mut self, id: &str, good: bool, at: &str, detail: String) {
        self.ok(id);
        if !good {
            self.ev.push(Ev { id: id.into(), detail, stack: vec![at.into()] });
        }
    }
}
fn at(tcx: TyCtxt<'_>, d: DefId, sp: rustc_span::Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let f = format!("{}", l.file.name.prefer_remapped_unconditionally());
    let f = f.rsplit_once("/src/").map(|x| format!("src/{}", x.1)).unwrap_or(f);
    format!("{} ({}:{})", tcx.def_path_str(d), f, l.line)
}
/// `crate::module::{impl#0}::name` without generic arguments
fn raw_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
const PURE_STD: &[&str] = &[
    "any", "array", "ascii", "borrow", "boxed", "cell", "char", "clone", "cmp", "collections", "convert", "default", "error", "f32", "f64", "ffi", "fmt", "future", "hash", "hint", "iter", "marker", "mem",
    "num", "ops", "option", "panicking", "path", "pin", "prelude", "primitive", "ptr", "rc", "result", "rt", "simd", "slice", "str", "string", "sync", "task", "vec", "io", "alloc", "i8", "i16", "i32", "i64",
    "u8", "u16", "u32", "u64", "bstr", "arch", "macros", "float", "keyword",
];
/// why a function outside the crate may not be used, if so
fn forbidden(path: &str, name: &str, pretty: &str, inside_file_ctor: bool) -> Option<&'static str> {
    let mut it = path.split("::");
    let krate = it.next().unwrap_or("");
    let m1 = it.next().unwrap_or("");
    let m2 = it.next().unwrap_or("");
    match krate {
        "core" | "alloc" => {
            if matches!(name, "addr" | "expose_provenance" | "align_offset" | "is_aligned" | "is_aligned_to" | "align_to" | "align_to_mut" | "as_simd" | "as_simd_mut") && (m1 == "ptr" || m1 == "slice") {
                return Some("its result depends on an address");
            }
            if path.contains("fmt::Pointer") || pretty.contains("fmt::Pointer") {
                return Some("it prints an address");
            }
            if name.starts_with("_rdtsc") || name.starts_with("__rdtsc") || name.starts_with("_rdrand") || name.starts_with("_rdseed") {
                return Some("it reads a clock or random source");
            }
            None
        }
        "std" => {
            if m1 == "io" && matches!(m2, "stdio" | "pipe") || matches!(name, "_print" | "_eprint") && m1 == "io" {
                return Some("it uses the standard streams");
            }
            if m1 == "hash" && m2 == "random" && pretty.contains("RandomState") {
                return None; // only iteration order is random, see below
            }
            if m1 == "collections" && m2 == "hash" && matches!(name, "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_keys" | "into_values" | "into_iter" | "drain" | "retain" | "extract_if") {
                return Some("the order of a hash table is random");
            }
            if m1 == "fs" {
                if inside_file_ctor && (name == "create" || name == "create_new" || name == "open" || path.contains("OpenOptions") || pretty.contains("OpenOptions")) {
                    return None;
                }
                return Some("it touches the file system");
            }
            if m1 == "thread" && pretty.contains("local") {
                return Some("it keeps state between encodes");
            }
            if PURE_STD.contains(&m1) || m1.starts_with('{') {
                return None;
            }
            Some("it reads or changes the process environment")
        }
        "std_detect" | "compiler_builtins" => None,
        _ => Some("it is outside the standard library"),
    }
}
struct Walk<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    caller: DefId,
    body: &'a Body<'tcx>,
    out: &'a mut Out,
    env: ty::TypingEnv<'tcx>,
}
impl<'a, 'tcx> Walk<'a, 'tcx> {
    fn mention(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, sp: rustc_span::Span) {
        let tcx = self.tcx;
        let mut ids = vec![d];
        if tcx.trait_of_assoc(d).is_some() {
            let args = tcx.erase_and_anonymize_regions(args);
            if !args.has_escaping_bound_vars() {
                if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
                    ids.push(i.def_id());
                }
            }
        }
        let ctor = self.file_ctor();
        for d in ids {
            if d.is_local() {
                continue;
            }
            let path = raw_path(tcx, d);
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let mut pretty = format!("{} {:?}", tcx.def_path_str(d), args);
            if let Some(i) = tcx.impl_of_assoc(d) {
                pretty = format!("{} {}", pretty, tcx.type_of(i).instantiate_identity().skip_norm_wip());
            }
            let f = forbidden(&path, &name, &pretty, ctor);
            self.out.calls.insert(format!("{} {}", if f.is_some() { "!" } else { " " }, path));
            let a = at(tcx, self.caller, sp);
            self.out.check("C21:only functions without outside inputs or effects are used", f.is_none(), &a, format!("{}: {}", pretty, f.unwrap_or("")));
        }
    }
    /// functions whose job is to open the one file the caller names
    fn file_ctor(&self) -> bool {
        let tcx = self.tcx;
        let sig = self.body.return_ty().to_string();
        let _ = tcx;
        sig.contains("std::fs::File") || sig.contains("fs::File")
    }
}
impl<'a, 'tcx> Visitor<'tcx> for Walk<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
        if let ty::FnDef(d, args) = c.const_.ty().kind() {
            self.mention(*d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), c.span);
        }
        if let Const::Val(v, _) = c.const_ {
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                    let a = at(self.tcx, self.caller, c.span);
                    self.out.check("C21:only statics of the crate are used", d.is_local(), &a, self.tcx.def_path_str(d));
                }
            }
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        let sp = self.body.source_info(l).span;
        match r {
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&self.body.local_decls, self.tcx);
                let bad = matches!(k, CastKind::PointerExposeProvenance) || matches!(k, CastKind::Transmute) && (from.is_raw_ptr() || from.is_ref() || from.is_fn_ptr()) && t.is_integral();
                let a = at(self.tcx, self.caller, sp);
                self.out.check("C21:no address becomes a number", !bad, &a, format!("{} to {}", from, t));
            }
            Rvalue::ThreadLocalRef(d) => {
                let a = at(self.tcx, self.caller, sp);
                self.out.check("C21:no mutable state outlives an encode", false, &a, self.tcx.def_path_str(*d));
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            let a = at(self.tcx, self.caller, t.source_info.span);
            self.out.check("C21:no inline assembly", false, &a, String::new());
        }
        self.super_terminator(t, l);
    }
}
/// in a body that opens files: the path handed to std::fs comes from an argument of the function
fn check_ctor<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, body: &Body<'tcx>, out: &mut Out) {
    let mut from: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); body.local_decls.len()];
    for a in body.args_iter() {
        from[a.as_usize()].insert(a.as_usize());
    }
    // 0 stands for anything that is not an argument
    let op = |from: &Vec<BTreeSet<usize>>, o: &Operand<'tcx>| -> BTreeSet<usize> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => from[p.local.as_usize()].clone(),
            _ => [0].into(),
        }
    };
    loop {
        let before = from.clone();
        for b in body.basic_blocks.iter() {
            for s in &b.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    let (p, r) = &**x;
                    let v = match r {
                        Rvalue::Use(o, ..) | Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) => op(&from, o),
                        Rvalue::Ref(_, _, q) | Rvalue::RawPtr(_, q) | Rvalue::CopyForDeref(q) => from[q.local.as_usize()].clone(),
                        Rvalue::Aggregate(_, os) => os.iter().flat_map(|o| op(&from, o)).collect(),
                        _ => [0].into(),
                    };
                    from[p.local.as_usize()].extend(v);
                }
            }
            if let TerminatorKind::Call { args, destination, .. } = &b.terminator().kind {
                let mut v: BTreeSet<usize> = args.iter().flat_map(|a| op(&from, &a.node)).collect();
                if args.is_empty() {
                    v.insert(0);
                }
                from[destination.local.as_usize()].extend(v);
            }
        }
        if before == from {
            break;
        }
    }
    for b in body.basic_blocks.iter() {
        if let TerminatorKind::Call { func, args, fn_span, .. } = &b.terminator().kind {
            if let Some((f, _)) = func.const_fn_def() {
                let p = raw_path(tcx, f);
                if p.starts_with("std::fs") && matches!(tcx.opt_item_name(f).map(|s| s.to_string()).as_deref(), Some("create" | "create_new" | "open")) {
                    let last = args.last().map(|a| op(&from, &a.node)).unwrap_or_default();
                    let good = !last.is_empty() && !last.contains(&0);
                    out.check("C21:the only file opened is the one the caller names", good, &at(tcx, d, *fn_span), format!("{}", p));
                }
            }
        }
    }
}
fn clean(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_str(d)
}
/// the public interface: path and signature of every reachable item
fn api(tcx: TyCtxt<'_>) -> BTreeMap<String, String> {
    let ev = tcx.effective_visibilities(());
    let mut m = BTreeMap::new();
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        let k = tcx.def_kind(d);
        if let DefKind::Impl { of_trait: true } = k {
            let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            if let ty::Adt(a, _) = t.self_ty().peel_refs().kind() {
                if a.did().as_local().map_or(false, |l| !ev.is_exported(l)) {
                    continue;
                }
            }
            if t.def_id.as_local().map_or(false, |l| !ev.is_exported(l)) {
                continue;
            }
            m.insert(format!("impl {}", t), format!("{:?}", tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| p.skip_norm_wip().to_string()).collect::<Vec<_>>()));
            continue;
        }
        if !ev.is_reachable(l) {
            continue;
        }
        let s = match k {
            DefKind::Fn | DefKind::AssocFn => {
                if let Some(p) = tcx.opt_parent(d) {
                    if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                        continue;
                    }
                }
                if !ev.is_exported(l) {
                    continue;
                }
                let preds = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| p.skip_norm_wip().to_string()).collect::<Vec<_>>();
                format!("{} where {:?}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip(), preds)
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                if !ev.is_exported(l) {
                    continue;
                }
                for v in tcx.adt_def(d).variants() {
                    let f: Vec<String> = v.fields.iter().filter(|f| f.vis.is_public()).map(|f| format!("{}: {}", f.name, tcx.type_of(f.did).instantiate_identity().skip_norm_wip())).collect();
                    m.insert(format!("variant {}::{}", clean(tcx, d), v.name), f.join(", "));
                }
                String::new()
            }
            DefKind::Trait | DefKind::TyAlias => {
                if !ev.is_exported(l) {
                    continue;
                }
                String::new()
            }
            _ if !ev.is_exported(l) => continue,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => tcx.type_of(d).instantiate_identity().skip_norm_wip().to_string(),
            _ => continue,
        };
        m.insert(format!("{} {}", k.descr(d), clean(tcx, d)), s);
    }
    // names re-exported at the crate root
    for c in tcx.module_children_local(rustc_hir::def_id::CRATE_DEF_ID) {
        if c.vis.is_public() {
            if let Res::Def(_, d) = c.res {
                m.insert(format!("use {}", c.ident), format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose()));
            }
        }
    }
    m
}
struct Uns<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
}
impl<'tcx> Uns<'tcx> {
    fn note(&mut self, what: &str, id: rustc_hir::HirId, sp: rustc_span::Span) {
        let d = self.tcx.hir_get_parent_item(id).to_def_id();
        let d = self.tcx.hir_enclosing_body_owner_or(id).unwrap_or(d);
        self.out.push(format!("{} in {}", what, at(self.tcx, d, sp)));
    }
}
trait Owner {
    fn hir_enclosing_body_owner_or(&self, id: rustc_hir::HirId) -> Option<DefId>;
}
impl<'tcx> Owner for TyCtxt<'tcx> {
    fn hir_enclosing_body_owner_or(&self, id: rustc_hir::HirId) -> Option<DefId> {
        self.hir_parent_iter(id).find_map(|(h, n)| if n.body_id().is_some() { h.as_owner().map(|o| o.to_def_id()) } else { None })
    }
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Uns<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.allows_unsafe() {
                self.note("unsafe block", b.hir_id, b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
/// every use of the `unsafe` keyword
fn unsafe_code(tcx: TyCtxt<'_>) -> Vec<String> {
    let mut v = Uns { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    for l in tcx.iter_local_def_id() {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                    v.out.push(format!("unsafe function {}", at(tcx, d, tcx.def_span(d))));
                }
            }
            DefKind::Trait => {
                if tcx.trait_def(d).safety.is_unsafe() {
                    v.out.push(format!("unsafe trait {}", at(tcx, d, tcx.def_span(d))));
                }
            }
            DefKind::Impl { of_trait: true } => {
                if tcx.impl_trait_header(d).safety.is_unsafe() && !tcx.def_span(d).from_expansion() {
                    v.out.push(format!("unsafe impl {}", at(tcx, d, tcx.def_span(d))));
                }
            }
            DefKind::ForeignMod => v.out.push(format!("foreign block {}", at(tcx, d, tcx.def_span(d)))),
            _ => {}
        }
    }
    v.out.sort();
    v.out.dedup();
    v.out
}
pub fn run(tcx: TyCtxt<'_>) -> String {
    let mut o = Out { ev: vec![], checks: BTreeMap::new(), fns: BTreeSet::new(), calls: BTreeSet::new() };
    let locals: Vec<LocalDefId> = tcx.iter_local_def_id().collect();
    for l in &locals {
        let d = l.to_def_id();
        let sp = tcx.def_span(d);
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::fully_monomorphized();
                let good = mutability.is_not() && t.is_freeze(tcx, env) && !tcx.is_thread_local_static(d);
                o.check("C21:no mutable state outlives an encode", good, &at(tcx, d, sp), format!("static of type {}", t));
            }
            DefKind::ForeignMod => {
                o.check("C21:no foreign functions", false, &at(tcx, d, sp), String::new());
            }
            _ => {}
        }
    }
    o.ok("C21:no foreign functions");
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        o.fns.insert(tcx.def_path_str(d));
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let mut w = Walk { tcx, caller: d, body, out: &mut o, env };
        w.visit_body(body);
        check_ctor(tcx, d, body, &mut o);
    }
    let crates: BTreeSet<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    let api = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(api(tcx)));
    let un = unsafe_code(tcx);
    let ev: Vec<String> = o
        .ev
        .iter()
        .map(|e| format!("{{\"kind\":\"structural\",\"id\":{},\"detail\":{},\"parts\":[],\"stack\":[{}]}}", js(&e.id), js(&e.detail), e.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")))
        .collect();
    format!(
        "{{\"entries\":[{{\"entry\":\"structural\",\"runs\":1,\"ends\":1,\"steps\":0,\"ms\":0,\"fails\":[],\"events\":[{}],\"checks\":{{{}}},\"fns\":[{}],\"models\":{{}}}}],\"crates\":[{}],\"api\":{{{}}},\"externals\":[{}],\"unsafe\":[{}]}}",
        ev.join(","),
        o.checks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        o.fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        crates.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        api.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","),
        o.calls.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        un.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    )
}
