#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

mod body;
mod exec;
mod join;
mod loops;
mod model;
mod poly;
mod structural;
mod val;

use exec::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;

struct Loader {
    lib: PathBuf,
    append: String,
}
impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, p: &Path) -> bool {
        p.exists()
    }
    fn read_file(&self, p: &Path) -> std::io::Result<String> {
        let s = std::fs::read_to_string(p)?;
        if p == self.lib {
            return Ok(s + &self.append);
        }
        Ok(s)
    }
    fn read_binary_file(&self, p: &Path) -> std::io::Result<std::sync::Arc<[u8]>> {
        Ok(std::fs::read(p)?.into())
    }
    fn current_directory(&self) -> std::io::Result<PathBuf> {
        std::env::current_dir()
    }
}
#[derive(Clone, Default)]
struct Opts {
    lib: PathBuf,
    edition: String,
    features: Vec<String>,
    harness: Vec<PathBuf>,
    entries: Vec<String>,
    shard: (i128, i128),
    out: Option<PathBuf>,
    secs: u64,
    parts: Option<Vec<i128>>,
    structural: bool,
    verbose: bool,
    overflow: bool,
}
struct Cb {
    o: Opts,
    result: String,
}
impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        let mut a = String::new();
        if !self.o.harness.is_empty() {
            a.push_str("\n#[allow(warnings)] #[doc(hidden)] pub mod __jsa {\n");
            for h in &self.o.harness {
                let n = h.file_stem().unwrap().to_str().unwrap();
                a.push_str(&format!("#[path=\"{}\"] pub mod {};\n", h.display(), n));
            }
            a.push_str("}\n");
        }
        c.file_loader = Some(Box::new(Loader { lib: self.o.lib.clone(), append: a }));
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: rustc_middle::ty::TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let o = self.o.clone();
        let r = rustc_public::rustc_internal::run(tcx, || analyse(tcx, &o));
        match r {
            Ok(s) => self.result = s,
            Err(e) => self.result = format!("{{\"error\":\"{:?}\"}}", e),
        }
        rustc_driver_impl::Compilation::Stop
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// target features a function of another crate is compiled for
pub fn target_features(inst: rustc_public::mir::mono::Instance) -> Vec<String> {
    rustc_middle::ty::tls::with(|tcx| {
        let did = rustc_public::rustc_internal::internal(tcx, inst.def.def_id());
        tcx.codegen_fn_attrs(did).target_features.iter().map(|f| f.name.to_string()).collect()
    })
}
fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>, o: &Opts) -> String {
    let items = rustc_public::all_local_items();
    let mut tf: HashMap<rustc_public::DefId, Vec<String>> = HashMap::new();
    for it in items.iter() {
        let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
        if !matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure) {
            continue;
        }
        let a = tcx.codegen_fn_attrs(did);
        let v: Vec<String> = a.target_features.iter().map(|f| f.name.to_string()).collect();
        tf.insert(it.def_id(), v);
    }
    if o.structural {
        return structural::run(tcx);
    }
    let mut models = HashMap::new();
    let mut entries = BTreeMap::new();
    for it in items.iter() {
        let n = it.name().to_string();
        if !n.contains("__jsa::") {
            continue;
        }
        let last = n.rsplit("::").next().unwrap().to_string();
        if let Some(m) = last.strip_prefix("m__") {
            models.insert(m.to_string(), it.clone());
        }
        if last.starts_with("h_") && matches!(it.ty().kind(), TyKind::RigidTy(RigidTy::FnDef(..))) {
            entries.insert(last, it.clone());
        }
    }
    let mut js_entries = vec![];
    for e in &o.entries {
        let it = match entries.get(e) {
            Some(i) => i.clone(),
            None => {
                js_entries.push(format!("{{\"entry\":{},\"missing\":true}}", js(e)));
                continue;
            }
        };
        let mut work: Vec<Vec<i128>> = vec![o.parts.clone().unwrap_or_default()];
        let mut runs = 0;
        let mut all: Vec<(Vec<i128>, Event)> = vec![];
        let mut seen: HashSet<(String, String, String)> = HashSet::new();
        let mut checks: BTreeMap<String, u64> = BTreeMap::new();
        let mut fns: HashSet<String> = HashSet::new();
        let mut hits: BTreeMap<String, u64> = BTreeMap::new();
        let mut fails: Vec<String> = vec![];
        let mut ends = 0usize;
        let mut steps = 0u64;
        let inst = match it.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).unwrap(),
            _ => continue,
        };
        let t0 = std::time::Instant::now();
        let mut bodies = HashMap::new();
        while let Some(p) = work.pop() {
            let mut en = Engine {
                bodies: std::mem::take(&mut bodies),
                globals: vec![],
                gtys: vec![],
                gmap: HashMap::new(),
                next_heap: 0,
                next_ver: 0,
                stack: vec![],
                events: vec![],
                seen_fns: HashSet::new(),
                checks: BTreeMap::new(),
                steps: 0,
                models: models.clone(),
                model_hits: BTreeMap::new(),
                quiet: 0,
                trace: o.verbose,
                stubs: vec![],
                parts: p.clone(),
                part_pos: 0,
                part_ns: vec![],
                avx2: None,
                merge_cap: 16,
                unroll_cap: 40,
                next_note: std::time::Instant::now(),
                drops: HashMap::new(),
                ite: true,
                deadline: std::time::Instant::now() + std::time::Duration::from_secs(o.secs.saturating_sub(t0.elapsed().as_secs()).max(1)),
                span_cache: HashMap::new(),
                names: HashMap::new(),
                prof: HashMap::new(),
                loop_marks: vec![],
                features: HashMap::new(),
                tf: tf.clone(),
            };
            poly::reset();
            let st = val::State { frames: vec![], heap: Rc::new(BTreeMap::new()), keys: Rc::new(vec![0; 8]), dats: Rc::new(vec![]), facts: poly::Facts::default() };
            let r = en.run_fn(inst, vec![], st);
            bodies = std::mem::take(&mut en.bodies);
            match r {
                Ok(v) => {
                    ends += v.len();
                    runs += 1;
                }
                Err(f) => {
                    if let Some(n) = f.0.strip_prefix("NEEDPART ") {
                        let n: i128 = n.parse().unwrap();
                        for i in (0..n).rev() {
                            if p.is_empty() && i.rem_euclid(o.shard.1) != o.shard.0 {
                                continue;
                            }
                            let mut q = p.clone();
                            q.push(i);
                            work.push(q);
                        }
                        continue;
                    }
                    runs += 1;
                    let st = en.stack_strs();
                    fails.push(format!("{} [parts {:?}] at {}", f.0, p, st.join(" > ")));
                }
            }
            if p.is_empty() && o.shard.0 != 0 && o.parts.is_none() {
                // an entry without partition is handled by the first shard only
                runs = 0;
                continue;
            }
            if o.verbose {
                let mut pr: Vec<_> = en.prof.iter().collect();
                pr.sort_by_key(|x| std::cmp::Reverse(*x.1));
                for (f, n) in pr.iter().take(12) {
                    eprintln!("  {:9} {}", n, f);
                }
                eprintln!("parts {:?} steps {} atoms {} t={:?}", p, en.steps, poly::n_atoms(), t0.elapsed());
            }
            steps += en.steps;
            for e in en.events {
                let k = (e.kind.clone(), e.id.clone(), e.stack.last().cloned().unwrap_or_default());
                if seen.insert(k) {
                    all.push((p.clone(), e));
                }
            }
            for (k, n) in en.checks {
                *checks.entry(k).or_insert(0) += n;
            }
            fns.extend(en.seen_fns);
            for (k, n) in en.model_hits {
                *hits.entry(k).or_insert(0) += n;
            }
        }
        let ev: Vec<String> = all
            .iter()
            .map(|(p, e)| {
                format!(
                    "{{\"kind\":{},\"id\":{},\"detail\":{},\"parts\":{:?},\"stack\":[{}]}}",
                    js(&e.kind),
                    js(&e.id),
                    js(&e.detail),
                    p,
                    e.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let mut fl: Vec<&String> = fns.iter().collect();
        fl.sort();
        js_entries.push(format!(
            "{{\"entry\":{},\"runs\":{},\"ends\":{},\"steps\":{},\"ms\":{},\"fails\":[{}],\"events\":[{}],\"checks\":{{{}}},\"fns\":[{}],\"models\":{{{}}}}}",
            js(e),
            runs,
            ends,
            steps,
            t0.elapsed().as_millis(),
            fails.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            ev.join(","),
            checks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            fl.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            hits.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        ));
    }
    format!("{{\"entries\":[{}]}}", js_entries.join(","))
}
fn main() {
    let mut o = Opts { edition: "2021".into(), shard: (0, 1), secs: 600, overflow: true, ..Default::default() };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--lib" => o.lib = v().into(),
            "--edition" => o.edition = v(),
            "--features" => o.features = v().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--harness" => o.harness = v().split(',').map(PathBuf::from).collect(),
            "--entry" => o.entries = v().split(',').map(|s| s.to_string()).collect(),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                o.shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--out" => o.out = Some(v().into()),
            "--secs" => o.secs = v().parse().unwrap(),
            "--parts" => o.parts = Some(v().split(',').map(|s| s.parse().unwrap()).collect()),
            "--structural" => o.structural = true,
            "--verbose" => o.verbose = true,
            _ => panic!("unknown option {}", a),
        }
    }
    let mut args: Vec<String> = vec!["rustc".into(), o.lib.display().to_string(), "--crate-type=lib".into(), "--crate-name=jpeg_encoder".into(), format!("--edition={}", o.edition)];
    for f in &o.features {
        args.push("--cfg".into());
        args.push(format!("feature=\"{}\"", f));
    }
    for a in ["-Cdebug-assertions=on", "-Coverflow-checks=on", "-Zmir-opt-level=0", "-Zalways-encode-mir", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "--cap-lints=allow", "-Cpanic=abort", "-Awarnings"] {
        args.push(a.into());
    }
    // std is compiled without overflow checks; the crate's own arithmetic is checked
    let out = o.out.clone();
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let mut cb = Cb { o, result: String::new() };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rustc_driver_impl::compiler_entrypoint(&args, &mut cb)));
            (cb.result, r.is_err())
        })
        .unwrap();
    let (res, bad) = h.join().unwrap();
    if bad || res.is_empty() {
        eprintln!("jsa: analysis did not complete");
        if let Some(p) = &out {
            let _ = std::fs::write(p, "{\"error\":\"the crate (with the harness) does not compile or the analyser stopped\"}");
        }
        std::process::exit(3);
    }
    match out {
        Some(p) => std::fs::write(p, res).unwrap(),
        None => println!("{}", res),
    }
}
