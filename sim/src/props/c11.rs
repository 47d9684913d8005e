//! C11: a displayed frame is a function of the current panes, documents and size.

use super::common::*;
use super::*;
use crate::panes::*;
use crate::rng::Rng;
use crate::simdoc::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "a window over time: 1 to 3 documents of up to 3 versions, a tree of panes up to 3 deep (sometimes with dozens of panes in a row), windows up to 65535 columns or 70000 rows, and a history of frames interleaved with resizes, document edits, focus and option changes, documents hidden and shown, pane tree changes, failed displays (window or document failure), frames shown through the simulated window and through PlainText; every frame is compared cell by cell (character, style, width) and focus by focus with an independently composed one; non-trivial: at least 2 frames compared with at least one document shown";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    Resize(u16, u32),
    Edit(usize, usize),
    Pane(P),
    Content(usize, Option<Content>),
    Show,
    /// Through the crate's own window; of unbounded height if `true`.
    Plain(bool),
    /// A display during which this window call fails.
    WinFail(u64),
    /// A display during which this document access fails.
    DocFail(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub docs: Vec<DocSpec>,
    pub scene: Scene,
    pub defaults: bool,
    pub steps: Vec<Step>,
}

pub fn scene(r: &mut Rng, docs: &[DocSpec], m: PaneMix, bad: usize, none: usize) -> Scene {
    let (mut w, mut h) = size(r);
    if any_large(docs) && r.pct(70) {
        // large windows for large documents
        match r.below(3) {
            0 => (w, h) = (w.min(90), r.range(200, 1200) as u32),
            1 => (w, h) = (r.range(200, 1500) as u16, h.min(40)),
            _ => (w, h) = (r.range(100, 400) as u16, r.range(100, 400) as u32),
        }
    }
    let mut used = 0;
    let depth = *r.pick(&[0, 1, 1, 2, 2, 3]);
    let pane = pane(r, m, depth, &mut used);
    let vers = vec![0; docs.len()];
    let n = used.max(m.labels);
    Scene {
        pane,
        contents: (0..n)
            .map(|_| {
                if r.pct(none) {
                    None
                } else {
                    Some(content(r, docs, &vers, bad))
                }
            })
            .collect(),
        w,
        h,
        tags: r.pct(50),
    }
}

pub fn gen(r: &mut Rng) -> Sc {
    let nd = r.range(1, 3);
    let nv = r.range(1, 3);
    let docs = docs(r, nd, nv);
    let m = PaneMix {
        labels: r.range(1, 4) as u32,
        unique: false,
        bad_dynamic: if r.pct(5) { 20 } else { 0 },
        huge: r.pct(15),
    };
    let bad = if r.pct(10) { 10 } else { 0 };
    let none = if r.pct(30) { 20 } else { 0 };
    let sc = scene(r, &docs, m, bad, none);
    let mut vers = vec![0; nd];
    let n = r.range(1, 10);
    let mut steps = vec![Step::Show];
    for _ in 0..n {
        match r.below(12) {
            0 | 1 => {
                let (w, h) = size(r);
                steps.push(Step::Resize(w, h));
            }
            2 => {
                let d = r.below(nd);
                vers[d] = r.below(docs[d].vers.len());
                steps.push(Step::Edit(d, vers[d]));
            }
            3 => {
                let depth = r.range(1, 3);
                steps.push(Step::Pane(pane(r, m, depth, &mut 0)));
            }
            4..=6 => {
                let l = r.below(m.labels as usize);
                let c = if r.pct(none) {
                    None
                } else {
                    Some(content(r, &docs, &vers, bad))
                };
                steps.push(Step::Content(l, c));
            }
            7 => steps.push(Step::WinFail(r.skewed(300) as u64)),
            8 => steps.push(Step::DocFail(r.skewed(300) as u64)),
            9 => steps.push(Step::Plain(r.pct(20))),
            _ => steps.push(Step::Show),
        }
        if r.pct(60) {
            steps.push(Step::Show);
        }
    }
    Sc {
        docs,
        scene: sc,
        defaults: r.pct(50),
        steps,
    }
}

pub fn has_doc(p: &P) -> bool {
    match p {
        P::Doc(_) => true,
        P::Fill(_) => false,
        P::Style(_, p) => has_doc(p),
        P::Horz(v) | P::Vert(v) => v.iter().any(|x| has_doc(&x.1)),
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let Some(owned) = stores(&sc.docs) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let stores: Vec<&Store> = owned.iter().collect();
    let mut models: Vec<Models> = owned.iter().map(Models::new).collect();
    let mut vers = vec![0; stores.len()];
    let mut scene = sc.scene.clone();
    let cx = Ctx::default();
    let mut frames = 0;
    for (i, step) in sc.steps.iter().enumerate() {
        let at = || format!("step {i} {step:?} ({}x{})", scene.w, scene.h);
        match step {
            Step::Resize(w, h) => {
                scene.w = *w;
                scene.h = *h;
                cx.count("resize");
            }
            Step::Edit(d, v) => {
                if let Some(st) = stores.get(*d) {
                    st.edit(*v);
                    vers[*d] = st.ver();
                    cx.count("edit_between_operations");
                }
            }
            Step::Pane(p) => scene.pane = p.clone(),
            Step::Content(l, c) => {
                if let Some(x) = scene.contents.get_mut(*l) {
                    *x = c.clone();
                }
                cx.count("content_change");
            }
            Step::WinFail(k) => {
                let _ = display(
                    &scene,
                    &stores,
                    &cx,
                    sc.defaults,
                    WinPlan {
                        fail_at: Some(*k),
                        stay_down: false,
                    },
                    1_000_000,
                    false,
                );
            }
            Step::DocFail(k) => {
                cx.arm(cx.acc.get() + k, Fault::Err);
                let _ = display(
                    &scene,
                    &stores,
                    &cx,
                    sc.defaults,
                    WinPlan::default(),
                    1_000_000,
                    false,
                );
                cx.plan.borrow_mut().clear();
            }
            Step::Show | Step::Plain(false) => {
                let want = match compose(&scene, &vers, &mut models) {
                    Err(Bad::Skip(w)) => {
                        stats.add(&format!("probe.not_modelled.{w}"), 1);
                        continue;
                    }
                    w => w,
                };
                let plain = *step != Step::Show;
                let (result, events, text) = if plain {
                    match display_plain(&scene, &stores, &cx, false) {
                        Ok(t) => (Ok(()), vec![], Some(t)),
                        Err(e) => (Err(e), vec![], None),
                    }
                } else {
                    let s = display(
                        &scene,
                        &stores,
                        &cx,
                        sc.defaults,
                        WinPlan::default(),
                        1_000_000,
                        false,
                    );
                    (s.result, s.events, None)
                };
                if let Err(PErr::Crash(c)) = &result {
                    return fail(
                        "panic",
                        format!("{}: {c:?} {}", at(), cx.bad.borrow().clone().unwrap_or_default()),
                    );
                }
                match (want, result) {
                    (Err(_), Err(PErr::Window(_))) | (Ok(_), Err(_)) | (Err(_), Ok(_)) => {
                        // An error where the frame exists, or the other way round, is C12's and
                        // C02's business unless the frame is simply missing.
                        return fail(
                            "error",
                            format!("{}: the display's result and the model disagree about failure", at()),
                        );
                    }
                    (Err(_), Err(_)) => stats.add("probe.error_frames", 1),
                    (Ok(f), Ok(())) => {
                        let d = match &text {
                            None => f.compare(&events),
                            Some((t, focus)) => {
                                if *t != f.plain() {
                                    Some(format!("PlainText shows {t:?} instead of {:?}", f.plain()))
                                } else {
                                    f.compare_focus(focus)
                                }
                            }
                        };
                        if let Some(d) = d {
                            return fail("frame", format!("{}: {d}", at()));
                        }
                        stats.add("frames_compared", 1);
                        stats.add("cells_compared", scene.w as u64 * scene.h as u64);
                        stats.add("focus_points", f.focus.len() as u64);
                        if plain {
                            stats.add("plain_frames", 1);
                        }
                        if f.leaves.iter().any(|l| {
                            l.label.is_some() && l.shows && l.rect.c1 > l.rect.c0 && l.rect.r1 > l.rect.r0
                        }) {
                            frames += 1;
                        }
                    }
                }
            }
            Step::Plain(true) => {
                // A window of unbounded height showing one document from its start: all of it.
                let Some(Some(c)) = scene.contents.first() else {
                    continue;
                };
                if scene.w == 0 {
                    continue;
                }
                let mut one = scene.clone();
                one.pane = P::Vert(vec![(Sz::D, P::Doc(0))]);
                one.contents[0] = Some(Content {
                    path: vec![],
                    tg: Target::Start,
                    fh: 0,
                    ..c.clone()
                });
                let pw = match c.ws {
                    Ws::Full => scene.w,
                    Ws::Fixed(n) => n,
                    Ws::NoMore(n) => n.min(scene.w),
                };
                let Some(m) = models
                    .get_mut(c.doc)
                    .and_then(|m| m.get(vers[c.doc], pw, false))
                else {
                    continue;
                };
                if m.eol_row.is_some() {
                    continue;
                }
                one.h = m.lines.len() as u32;
                let f = match compose(&one, &vers, &mut models) {
                    Ok(f) => f,
                    _ => continue,
                };
                match display_plain(&one, &stores, &cx, true) {
                    Ok((t, focus)) => {
                        if t != f.plain() {
                            return fail(
                                "frame",
                                format!("{}: unbounded PlainText shows {t:?} instead of {:?}", at(), f.plain()),
                            );
                        }
                        if let Some(d) = f.compare_focus(&focus) {
                            return fail("frame", format!("{}: {d}", at()));
                        }
                        stats.add("unbounded_frames", 1);
                    }
                    Err(e) => {
                        return fail("error", format!("{}: {e:?}", at()));
                    }
                }
            }
        }
    }
    stats.nontrivial = frames >= 2;
    stats.ctx(&cx);
    Ok(())
}
