//! Loops: unrolling while the trip count is decided by the abstract state.
use crate::body::*;
use crate::exec::*;
use crate::val::*;

const MAX_UNROLL: usize = 80_000;

impl Engine {
    pub fn run_loop(&mut self, cx: &Ctx, header: usize, st: State) -> R<Vec<(usize, usize, State)>> {
        let fb = cx.fb.clone();
        let lp: &LoopInfo = &fb.loops[&header];
        let mut out: Vec<(usize, usize, State)> = vec![];
        let mut cur = vec![st];
        let mut iters = 0usize;
        let mut undecided = 0usize;
        while !cur.is_empty() {
            iters += 1;
            if iters > MAX_UNROLL {
                return Err(Fail(format!("loop in {} does not terminate within {} abstract iterations", fb.name, MAX_UNROLL)));
            }
            if iters & 63 == 0 && std::time::Instant::now() > self.deadline {
                return Err(Fail("time budget exhausted".into()));
            }
            let mut next = vec![];
            let n_before = out.len();
            for s in cur {
                let mut back = vec![];
                let mut ex = 0;
                for (src, t, s2) in self.run_region(cx, Some(lp), vec![(header, s)])? {
                    if t == header {
                        back.push(s2);
                    } else {
                        ex += 1;
                        out.push((src, t, s2));
                    }
                }
                if ex > 0 && !back.is_empty() {
                    undecided += 1;
                }
                next.extend(back);
            }
            let _ = n_before;
            if undecided > self.unroll_cap {
                return Err(Fail(format!("loop in {} is not bounded by the abstract state ({} undecided exits)", fb.name, undecided)));
            }
            cur = if next.len() > 1 { self.merge_at(cx, header, next) } else { next };
            // keep the exits small
            if out.len() > 64 {
                out = self.merge_exits(cx, out);
            }
        }
        Ok(out)
    }
    fn merge_exits(&mut self, cx: &Ctx, out: Vec<(usize, usize, State)>) -> Vec<(usize, usize, State)> {
        let mut by: std::collections::BTreeMap<(usize, usize), Vec<State>> = Default::default();
        for (a, b, s) in out {
            by.entry((b, a)).or_default().push(s);
        }
        let mut r = vec![];
        for ((b, a), v) in by {
            let v = if b == usize::MAX || v.len() == 1 { v } else { self.merge_at(cx, b, v) };
            for s in v {
                r.push((a, b, s));
            }
        }
        r
    }
}
