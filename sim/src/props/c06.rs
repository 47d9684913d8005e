//! C06: after a document error the remaining output is true, ordered and recoverable.

use super::common::*;
use super::*;
use crate::gen;
use crate::model::{Model, RLine};
use crate::rng::{mix, Rng};
use crate::session::*;
use crate::simdoc::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use std::sync::Arc;

pub const RULE: &str = "a random document, up to three prints open at once, pulls up and down interleaved with transient failures of single accesses (several per run), outages of random sets of nodes (possibly of one kind of access only) that begin and heal between operations, slow nodes; every line delivered is matched against the failure-free layout; at the end everything is healed, every stream is drained, and a fresh print of the whole document is compared; non-trivial: at least one stream went on after a failure or one outage healed";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    Do(Op),
    /// The access that many accesses from now fails (during whatever operation that is).
    Fail(u64),
    /// Nodes chosen by this seed and percentage go out of service.
    Down { seed: u64, pct: u8, kinds: Vec<u8> },
    Heal,
    /// Nodes chosen by this seed become slow (0: none).
    Slow(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: DocSpec,
    pub defaults: bool,
    pub steps: Vec<Step>,
}

pub fn gen(r: &mut Rng) -> Sc {
    let doc = gen::doc(r, 1);
    let len = r.range(4, 36);
    let ops = gen::script(r, &doc, len, 0, 0);
    let mut steps = Vec::new();
    let fail = *r.pick(&[0, 8, 20, 45]);
    let down = *r.pick(&[0, 0, 8, 20]);
    let mut is_down = false;
    let kinds = |r: &mut Rng| -> Vec<u8> {
        if r.pct(60) {
            vec![]
        } else {
            (0..r.range(1, 3)).map(|_| r.below(10) as u8).collect()
        }
    };
    for op in ops {
        if r.pct(fail) {
            let n = if r.pct(80) { 1 } else { r.range(2, 4) };
            for _ in 0..n {
                let k = r.skewed(60) as u64;
                steps.push(Step::Fail(k));
            }
        }
        if is_down && r.pct(30) {
            steps.push(Step::Heal);
            is_down = false;
        } else if r.pct(down) {
            let k = kinds(r);
            steps.push(Step::Down {
                seed: r.next() >> 16,
                pct: *r.pick(&[3, 10, 30, 100]),
                kinds: k,
            });
            is_down = true;
        }
        if r.pct(2) {
            steps.push(Step::Slow(r.next() >> 16));
        }
        steps.push(Step::Do(op));
    }
    Sc {
        doc,
        defaults: r.pct(50),
        steps,
    }
}

struct Stream {
    /// The next row, if nothing failed so far.
    next: i64,
    failed: bool,
    ended: bool,
}
struct Slot {
    m: Rc<Model>,
    focus: i64,
    dir: [Stream; 2],
}

fn find_from(m: &Model, got: &RLine, from: i64, up: bool) -> Option<i64> {
    let mut r = from;
    while r >= 0 && (r as usize) < m.lines.len() {
        let l = &m.lines[r as usize];
        if l.text == got.text && l.runs == got.runs {
            return Some(r);
        }
        r += if up { -1 } else { 1 };
    }
    None
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let Some(st) = Store::build(&sc.doc, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let mut models = Models::new(&st);
    match models.get(0, 40, false) {
        None => return Err(Verdict::Skip("ill-formed or too big")),
        Some(m) if m.eol_row.is_some() => return Err(Verdict::Skip("text after end of line")),
        _ => (),
    }
    let n_nodes = st.vers[0].nodes.len();
    let cx = Ctx::default();
    let mut cl = Client::new(&st, &cx, sc.defaults);
    let mut slots: Vec<Option<Slot>> = (0..SLOTS).map(|_| None).collect();
    let mut armed: Vec<u64> = Vec::new();
    let mut reopen: Option<(u16, bool)> = None;
    let mut steps = sc.steps.clone();
    let healed_at = steps.len();
    steps.push(Step::Heal);
    let mut i = 0;
    let mut drains: u64 = 0;
    let mut after_failure = 0u64;
    let mut final_done = false;
    while i < steps.len() || !final_done {
        if i >= steps.len() {
            // All faults have stopped: drain every stream to its end, then print afresh.
            let mut more = None;
            for (s, sl) in slots.iter().enumerate() {
                if let Some(sl) = sl {
                    if !sl.dir[1].ended {
                        more = Some(Op::Down(s));
                    } else if !sl.dir[0].ended {
                        more = Some(Op::Up(s));
                    }
                }
            }
            match more {
                Some(op) => {
                    drains += 1;
                    let lines: usize = slots.iter().flatten().map(|s| s.m.lines.len()).sum();
                    if drains > 4 * lines as u64 + 50 {
                        return fail(
                            "endless",
                            format!("after all faults stopped, {drains} pulls did not drain {lines} lines"),
                        );
                    }
                    steps.push(Step::Do(op));
                }
                None => {
                    final_done = true;
                    let (w, root) = reopen.unwrap_or((40, false));
                    let Some(m) = models.get(0, w, root) else {
                        break;
                    };
                    if m.eol_row.is_some() {
                        break;
                    }
                    for _ in 0..m.lines.len() + 1 {
                        steps.push(Step::Do(Op::Down(0)));
                    }
                    steps.insert(
                        i,
                        Step::Do(Op::Open {
                            s: 0,
                            w,
                            path: vec![],
                            tg: Target::Start,
                            root,
                        }),
                    );
                    slots[0] = None;
                    stats.add("fresh_prints", 1);
                }
            }
        }
        let step = steps[i].clone();
        let n = i;
        let at = || {
            format!(
                "step {n} {step:?}{}",
                if n > healed_at { " (all faults healed)" } else { "" }
            )
        };
        let op = match &step {
            Step::Do(op) => op,
            Step::Fail(k) => {
                armed.push(cx.acc.get() + k);
                i += 1;
                continue;
            }
            Step::Down { seed, pct, kinds } => {
                let v: Vec<bool> = (0..n_nodes)
                    .map(|n| mix(seed.wrapping_mul(31) ^ n as u64) % 100 < *pct as u64)
                    .collect();
                *cx.down.borrow_mut() = Some(Arc::new(v));
                *cx.down_kinds.borrow_mut() =
                    kinds.iter().map(|k| c05::KINDS[*k as usize % 10]).collect();
                cx.count("outage_begins");
                i += 1;
                continue;
            }
            Step::Heal => {
                if cx.down.borrow_mut().take().is_some() {
                    cx.count("outage_heals");
                }
                armed.clear();
                i += 1;
                continue;
            }
            Step::Slow(s) => {
                cx.slow_seed.set(*s);
                cx.count("slow_nodes");
                i += 1;
                continue;
            }
        };
        i += 1;
        // Layouts too big to model are left out.
        let modelled = match op {
            Op::Open { w, root, .. } => models
                .get(0, *w, *root)
                .is_some_and(|m| m.eol_row.is_none()),
            Op::Str(w) => models.get(0, *w, false).is_some_and(|m| m.eol_row.is_none()),
            Op::Up(_) | Op::Down(_) | Op::Drop(_) => true,
            _ => false,
        };
        if !modelled {
            continue;
        }
        let before = cx.fired.borrow().len();
        for k in &armed {
            cx.arm(*k, Fault::Err);
        }
        let out = cl.step(op);
        armed.retain(|k| *k >= cx.acc.get());
        let fired = cx.fired.borrow().len() > before;
        if let Out::Crash(c) = &out {
            return fail(
                "panic",
                format!("{}: {c:?} {}", at(), cx.bad.borrow().clone().unwrap_or_default()),
            );
        }
        match op {
            Op::Open {
                s,
                w,
                path,
                tg,
                root,
            } => {
                let s = s % SLOTS;
                slots[s] = None;
                reopen = Some((*w, *root));
                let m = models.get(0, *w, *root).unwrap();
                if fired || m.ambiguous(path) {
                    cl.slots[s] = None;
                    continue;
                }
                match (m.locate(path, *tg), &out) {
                    (Ok((row, _)), Out::Focus(l, r)) => {
                        let mut all = l.clone();
                        all.append(r);
                        if all != m.lines[row] {
                            return fail(
                                "focus",
                                format!("{}: opened at {:?} instead of {:?}", at(), all.text, m.lines[row].text),
                            );
                        }
                        let mk = |next| Stream {
                            next,
                            failed: false,
                            ended: false,
                        };
                        slots[s] = Some(Slot {
                            m,
                            focus: row as i64,
                            dir: [mk(row as i64 - 1), mk(row as i64 + 1)],
                        });
                    }
                    (Err(_), Out::Err(e)) if !matches!(e, RErr::Doc(_)) => (),
                    (_, o) => {
                        return fail("focus", format!("{}: {}", at(), o.short()));
                    }
                }
            }
            Op::Str(w) => {
                if !fired {
                    let m = models.get(0, *w, false).unwrap();
                    if out != Out::Str(m.string()) {
                        return fail("string", format!("{}: {}", at(), out.short()));
                    }
                }
            }
            Op::Drop(s) => slots[*s % SLOTS] = None,
            Op::Up(s) | Op::Down(s) => {
                let up = matches!(op, Op::Up(_));
                let Some(sl) = slots[*s % SLOTS].as_mut() else {
                    continue;
                };
                let other_failed = sl.dir[if up { 1 } else { 0 }].failed;
                let m = sl.m.clone();
                let d = &mut sl.dir[if up { 0 } else { 1 }];
                if d.failed {
                    after_failure += 1;
                }
                match &out {
                    Out::Err(RErr::Doc(_)) if fired => {
                        d.failed = true;
                        stats.add("stream_failures", 1);
                    }
                    Out::Err(e) => {
                        return fail(
                            "error",
                            format!("{}: reports {e:?} although the document did not fail", at()),
                        );
                    }
                    // (an error that is swallowed is C05's business)
                    _ if fired => d.failed = true,
                    Out::End => {
                        let over = d.next < 0 || d.next as usize >= m.lines.len();
                        if !over && !d.failed {
                            return fail(
                                "missing",
                                format!(
                                    "{}: ended although row {} is still to come and this stream never failed{}",
                                    at(),
                                    d.next,
                                    if other_failed { " (the opposite one did)" } else { "" }
                                ),
                            );
                        }
                        d.ended = true;
                    }
                    Out::Line(l) => {
                        if d.ended {
                            return fail("revived", format!("{}: {} after the end", at(), out.short()));
                        }
                        let found = find_from(&m, l, d.next, up);
                        match found {
                            Some(r) if r == d.next || d.failed => {
                                if d.failed && r != d.next {
                                    stats.add("lines_skipped_after_failure", 1);
                                }
                                d.next = if up { r - 1 } else { r + 1 };
                                stats.add("lines_checked", 1);
                            }
                            _ => {
                                return fail(
                                    if d.failed { "corrupt" } else { "affected" },
                                    format!(
                                        "{}: {} is not {} (focus row {}, next row {}{})",
                                        at(),
                                        out.short(),
                                        if d.failed {
                                            "a true line beyond those already delivered"
                                        } else {
                                            "the line of a stream that never failed"
                                        },
                                        sl.focus,
                                        d.next,
                                        if other_failed { "; the opposite stream failed" } else { "" }
                                    ),
                                )
                            }
                        }
                    }
                    o => return fail("error", format!("{}: {}", at(), o.short())),
                }
            }
            _ => (),
        }
    }
    stats.add("pulls_after_failure", after_failure);
    let healed = cx.fired_kinds.borrow().get("outage_heals").copied().unwrap_or(0);
    stats.nontrivial = after_failure > 0 || healed > 0;
    drop(cl);
    stats.ctx(&cx);
    Ok(())
}
