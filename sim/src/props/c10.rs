//! C10: window cells are drawn in bounds, at most once, and completely.

use super::common::*;
use super::*;
use crate::panes::*;
use crate::rng::Rng;
use crate::simdoc::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "a scene of up to 3 documents in a tree of panes up to 3 deep, every leaf in a style of its own, displayed in windows of several sizes (some wider or taller than 8 or 16 bits hold), each display complete and then cut short by window or document failures at several random points; bounds, pane membership, full-width flags, single drawing and completeness are monitored call by call; non-trivial: at least 10 cells drawn";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub docs: Vec<DocSpec>,
    pub scene: Scene,
    pub defaults: bool,
    pub sizes: Vec<(u16, u32)>,
    /// Window calls and document accesses that fail, one per extra display.
    pub win: Vec<u64>,
    pub doc: Vec<u64>,
}

pub fn gen(r: &mut Rng) -> Sc {
    let nd = r.range(1, 3);
    let docs = docs(r, nd, 1);
    let m = PaneMix {
        labels: r.range(1, 4) as u32,
        unique: false,
        bad_dynamic: if r.pct(5) { 20 } else { 0 },
        huge: r.pct(15),
    };
    let bad = if r.pct(5) { 10 } else { 0 };
    let none = if r.pct(30) { 20 } else { 0 };
    let mut scene = c11::scene(r, &docs, m, bad, none);
    scene.tags = r.pct(90);
    let n = r.range(0, 3);
    Sc {
        docs,
        scene,
        defaults: r.pct(50),
        sizes: (0..n).map(|_| size(r)).collect(),
        win: (0..r.below(3)).map(|_| r.skewed(600) as u64).collect(),
        doc: (0..r.below(3)).map(|_| r.skewed(300) as u64).collect(),
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let Some(owned) = stores(&sc.docs) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let stores: Vec<&Store> = owned.iter().collect();
    let mut models: Vec<Models> = owned.iter().map(Models::new).collect();
    let vers = vec![0; stores.len()];
    let cx = Ctx::default();
    let mut scene = sc.scene.clone();
    let mut sizes = vec![(scene.w, scene.h)];
    sizes.extend(sc.sizes.iter().copied());
    let mut cells = 0u64;
    for (w, h) in sizes {
        scene.w = w;
        scene.h = h;
        let frame = compose(&scene, &vers, &mut models).ok();
        let mut shots: Vec<(WinPlan, Option<u64>)> = vec![(WinPlan::default(), None)];
        for k in &sc.win {
            shots.push((
                WinPlan {
                    fail_at: Some(*k),
                    stay_down: k % 2 == 0,
                },
                None,
            ));
        }
        for k in &sc.doc {
            shots.push((WinPlan::default(), Some(*k)));
        }
        for (plan, doc) in shots {
            if let Some(k) = doc {
                cx.arm(cx.acc.get() + k, Fault::Err);
            }
            let s = display(&scene, &stores, &cx, sc.defaults, plan, 1_000_000, false);
            cx.plan.borrow_mut().clear();
            if let Err(PErr::Crash(c)) = &s.result {
                return fail(
                    "panic",
                    format!("{w}x{h}: {c:?} {}", cx.bad.borrow().clone().unwrap_or_default()),
                );
            }
            cells += s.events.iter().filter(|e| matches!(e, Ev::Char { .. })).count() as u64;
            if let Some(m) = monitor(&scene, frame.as_ref(), &s.events, s.result.is_ok()) {
                return fail(
                    "cell",
                    format!("{w}x{h}, window plan {plan:?}, document failure {doc:?}: {m}"),
                );
            }
            stats.add("displays", 1);
            if s.result.is_err() {
                stats.add("displays_cut_short", 1);
            }
        }
    }
    stats.add("cells_drawn", cells);
    stats.nontrivial = cells >= 10;
    stats.ctx(&cx);
    Ok(())
}
