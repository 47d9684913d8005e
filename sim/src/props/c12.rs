//! C12: a failed display reports its cause, stops, and a redraw repairs it.

use super::common::*;
use super::*;
use crate::panes::*;
use crate::rng::Rng;
use crate::session::RErr;
use crate::simdoc::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const RULE: &str = "a scene of up to 3 documents in a tree of panes displayed without failures, then once per failure point: every window call (size, character, focus) and every document access fails in turn (all when at most 150 of each, else a spread sample), once or for good, and documents go out of service as a whole; each failed display must report exactly that cause, stop, have drawn a prefix of the failure-free calls, nothing of the failing document, and the redraw must equal the failure-free frame; a tenth of the scenes carries exactly one defect of its own (invalid path, missing mark or text, misused dynamic pane) whose cause must be reported; non-trivial: at least 5 failures injected";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub docs: Vec<DocSpec>,
    pub scene: Scene,
    pub defaults: bool,
    pub all: u64,
    pub pick: u64,
}

pub fn gen(r: &mut Rng) -> Sc {
    let nd = r.range(1, 3);
    let mut docs = docs(r, nd, 1);
    while any_large(&docs) {
        // (every failure in turn would take too long)
        docs = crate::panes::docs(r, nd, 1);
    }
    let defect = r.below(10) == 0;
    let m = PaneMix {
        labels: 0,
        unique: true,
        bad_dynamic: if defect { 15 } else { 0 },
        huge: r.pct(8),
    };
    let none = if r.pct(30) { 20 } else { 0 };
    let mut scene = c11::scene(r, &docs, m, if defect { 20 } else { 0 }, none);
    if r.pct(70) {
        // keep the enumeration of window calls small
        scene.w = scene.w.min(r.range(3, 16) as u16);
        scene.h = scene.h.min(r.range(1, 7) as u32);
    }
    scene.tags = true;
    Sc {
        docs,
        scene,
        defaults: r.pct(50),
        all: 150,
        pick: r.next(),
    }
}

fn sample(n: u64, all: u64, r: &mut Rng) -> Vec<u64> {
    if n <= all {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..8.min(n)).collect();
    v.push(n - 1);
    while (v.len() as u64) < all {
        v.push(r.below(n as usize) as u64);
    }
    v.sort();
    v.dedup();
    v
}

fn win_events(e: &[Ev]) -> Vec<&Ev> {
    e.iter().filter(|e| e.is_window()).collect()
}

/// Leaf tokens used by document panes with this label.
fn leaf_of(p: &P, label: u32, next: &mut u32, out: &mut Vec<u32>) {
    match p {
        P::Fill(_) => *next += 1,
        P::Doc(l) => {
            if *l == label {
                out.push(LEAF_TOKEN + *next);
            }
            *next += 1;
        }
        P::Style(_, p) => leaf_of(p, label, next, out),
        P::Horz(v) | P::Vert(v) => v.iter().for_each(|x| leaf_of(&x.1, label, next, out)),
    }
}

/// What is wrong with the scene itself.
fn defects(p: &P, out: &mut usize) {
    match p {
        P::Horz(v) | P::Vert(v) => {
            for (s, p) in v {
                if *s == Sz::D {
                    let mut q = p;
                    while let P::Style(_, i) = q {
                        q = i;
                    }
                    if !matches!(q, P::Doc(_)) {
                        *out += 1;
                    }
                }
                defects(p, out);
            }
        }
        P::Style(_, p) => defects(p, out),
        _ => (),
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let Some(owned) = stores(&sc.docs) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let stores: Vec<&Store> = owned.iter().collect();
    let cx = Ctx::default();
    let scene = &sc.scene;
    let shot = |cx: &Ctx, plan: WinPlan| {
        display(scene, &stores, cx, sc.defaults, plan, 1_000_000, false)
    };
    let none = WinPlan::default();
    let base = shot(&cx, none);
    stats.ctx(&cx);
    if let Err(PErr::Crash(c)) = &base.result {
        return fail("panic", format!("without failures: {c:?}"));
    }
    let mut models: Vec<Models> = owned.iter().map(Models::new).collect();
    let vers = vec![0; stores.len()];
    if base.result.is_err() {
        // The scene itself is at fault: with exactly one cause, exactly that must be reported.
        let mut n = 0;
        defects(&scene.pane, &mut n);
        let m = compose(scene, &vers, &mut models);
        match (&m, &base.result) {
            (Err(Bad::Skip(w)), _) => return Err(Verdict::Skip(w)),
            (Ok(_), Err(e)) => {
                return fail("spurious", format!("nothing is wrong, but display reports {e:?}"))
            }
            (Err(Bad::Err(want)), Err(got)) => {
                stats.add("defective_scenes", 1);
                let exact = scene
                    .contents
                    .iter()
                    .flatten()
                    .filter(|c| broken(c, &mut models))
                    .count();
                let possible = matches!(
                    got,
                    PErr::Dynamic
                        | PErr::Print(
                            RErr::InvalidPath(_) | RErr::NoMark | RErr::NoText | RErr::Eol
                        )
                );
                // (with several causes, any of them may be the one reported)
                if (n + exact == 1 && want != got) || !possible {
                    return fail("cause", format!("reports {got:?} instead of {want:?}"));
                }
                if n + exact == 1 {
                    stats.add("single_cause_scenes", 1);
                }
                // the failing document draws nothing
                if let (PErr::Print(_), Some(Ev::Get(l))) = (
                    got,
                    base.events.iter().rev().find(|e| matches!(e, Ev::Get(_))),
                ) {
                    if let Some(m) = drawn_by(scene, *l, &base.events) {
                        return fail("drawn", format!("{got:?}: {m}"));
                    }
                }
            }
            (_, Ok(())) => unreachable!(),
        }
        return Ok(());
    }
    if let Err(Bad::Err(want)) = compose(scene, &vers, &mut models) {
        return fail("unreported", format!("display reports nothing although {want:?} is the case"));
    }
    let base_win = win_events(&base.events);
    let mut r = Rng::new(sc.pick);
    let mut injected = 0u64;
    for k in sample(base.calls, sc.all, &mut r) {
        let cx = Ctx::default();
        let plan = WinPlan {
            fail_at: Some(k),
            stay_down: k % 2 == 1,
        };
        let s = shot(&cx, plan);
        injected += 1;
        let at = || format!("window call {k} of {} fails", base.calls);
        match &s.result {
            Err(PErr::Window(j)) if *j == k => (),
            x => return fail("window_cause", format!("{}: display reports {x:?}", at())),
        }
        if s.calls != k + 1 {
            return fail(
                "window_stop",
                format!("{}: {} more window calls followed", at(), s.calls - k - 1),
            );
        }
        let w = win_events(&s.events);
        if w[..] != base_win[..w.len().min(base_win.len())] {
            return fail("prefix", format!("{}: the calls before it differ from a failure-free display", at()));
        }
        if r.pct(25) {
            redraw(&shot(&cx, none), &base, &at())?;
            stats.add("redraws", 1);
        }
        stats.ctx(&cx);
    }
    let total = cx.acc.get();
    let mut doc_faults: Vec<(Option<u64>, Option<u32>)> = sample(total, sc.all, &mut r)
        .into_iter()
        .map(|k| (Some(k), None))
        .collect();
    for _ in 0..3 {
        let n = r.below(8) as u32;
        doc_faults.push((None, Some(n)));
    }
    for (k, node) in doc_faults {
        let cx = Ctx::default();
        if let Some(k) = k {
            cx.arm(k, Fault::Err);
        }
        if let Some(n) = node {
            let mut d = vec![false; n as usize + 1];
            d[n as usize] = true;
            *cx.down.borrow_mut() = Some(Arc::new(d));
        }
        let s = shot(&cx, none);
        let fired = cx.fired.borrow().first().cloned();
        let at = || match k {
            Some(k) => format!("document access {k} of {total} fails"),
            None => format!("node {} of every document is out of service", node.unwrap()),
        };
        let Some(f) = fired else {
            if s.result.is_err() || s.events != base.events {
                return fail("spurious", format!("{}: nothing failed, but the frame differs", at()));
            }
            continue;
        };
        injected += 1;
        match &s.result {
            Err(PErr::Print(RErr::Doc(e))) if *e == f => (),
            x => return fail("doc_cause", format!("{}: display reports {x:?} instead of {f}", at())),
        }
        let w = win_events(&s.events);
        if w.len() > base_win.len() || w[..] != base_win[..w.len()] {
            return fail("prefix", format!("{}: the calls before it differ from a failure-free display", at()));
        }
        if let Some(Ev::Get(l)) = s.events.iter().rev().find(|e| matches!(e, Ev::Get(_))) {
            if let Some(m) = drawn_by(scene, *l, &s.events) {
                return fail("drawn", format!("{}: {m}", at()));
            }
        }
        *cx.down.borrow_mut() = None;
        cx.plan.borrow_mut().clear();
        if r.pct(30) {
            redraw(&shot(&cx, none), &base, &at())?;
            stats.add("redraws", 1);
        }
        stats.ctx(&cx);
    }
    // A document missing altogether is no failure, and the next frame shows it again.
    stats.add("failure_points", injected);
    stats.nontrivial = injected >= 5;
    Ok(())
}

/// Whether displaying this content somewhere could fail on its own account (any width).
fn broken(c: &Content, models: &mut [Models]) -> bool {
    for w in [0u16, 1, 5, 10, 20, 40, 80, 1000] {
        match models.get_mut(c.doc).and_then(|m| m.get(0, w, false)) {
            None => return true,
            Some(m) => {
                if m.locate(&c.path, c.tg).is_err() || m.eol_row.is_some() {
                    return true;
                }
            }
        }
    }
    false
}

fn redraw(s: &Shot, base: &Shot, at: &str) -> Result<(), Verdict> {
    if s.result.is_err() || s.events != base.events {
        return fail(
            "redraw",
            format!(
                "{at}: the redraw afterwards ({:?}) differs from the failure-free frame",
                s.result
            ),
        );
    }
    Ok(())
}

/// Whether a pane showing this label drew a character (or, where told apart, a focus).
fn drawn_by(scene: &Scene, label: u32, events: &[Ev]) -> Option<String> {
    let mut toks = Vec::new();
    leaf_of(&scene.pane, label, &mut 0, &mut toks);
    for e in events {
        if let Ev::Char {
            ch,
            row,
            col,
            style,
            ..
        } = e
        {
            if style.iter().any(|t| toks.contains(t)) {
                return Some(format!(
                    "the failing document (label {label}) drew {ch:?} at ({row},{col})"
                ));
            }
        }
    }
    // Its focus: every focus point reported must belong to another document.
    let others = scene
        .contents
        .iter()
        .enumerate()
        .filter(|(i, c)| *i as u32 != label && c.as_ref().is_some_and(|c| c.focus))
        .count();
    let seen = events.iter().filter(|e| matches!(e, Ev::Focus { .. })).count();
    if seen > others {
        return Some(format!(
            "{seen} focus points were reported although only {others} other documents have one"
        ));
    }
    None
}
