//! C05: a document error surfaces at once, as itself, and is never swallowed.

use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::session::*;
use crate::simdoc::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const RULE: &str = "a random document and client script run once without failures, then once per failure point: every document access of the script fails in turn (all of them when there are at most 160, else 160 spread and random ones), plus runs in which one node is out of service for one or all kinds of access; the operation in which the failure happened must report exactly that error, and everything before must be what the failure-free run delivered; non-trivial: at least 5 failures injected";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: DocSpec,
    pub defaults: bool,
    pub ops: Vec<Op>,
    /// Which accesses fail: all up to this many, otherwise a sample drawn from `pick`.
    pub all: u64,
    pub pick: u64,
    /// Only these accesses (filled in when a failure is minimised).
    #[serde(default)]
    pub only: Vec<u64>,
    /// Nodes taken out of service (one run each), with the kinds of access affected.
    pub outages: Vec<(u32, Vec<u8>)>,
}

pub const KINDS: [Acc; 10] = [
    Acc::Id,
    Acc::Notation,
    Acc::Cond,
    Acc::Lookup,
    Acc::NodeStyle,
    Acc::NumKids,
    Acc::Text,
    Acc::Child,
    Acc::Last,
    Acc::Prev,
];

pub fn gen(r: &mut Rng) -> Sc {
    let nv = if r.pct(15) { 2 } else { 1 };
    let mut m = gen::Mix::random(r);
    m.max_nodes = m.max_nodes.min(50);
    let doc = gen::Gen::new(r, m).doc(nv);
    let len = r.range(1, 14);
    let mut ops = gen::script(r, &doc, len, 0, 10);
    if r.pct(30) {
        ops.push(Op::Str(gen::width(r, &doc, 0)));
    }
    let n = r.below(4);
    let size = gen::tree_size(&doc.vers[0]);
    let outages = (0..n)
        .map(|_| {
            let k = if r.pct(50) {
                vec![r.below(10) as u8]
            } else {
                vec![]
            };
            (r.below(size) as u32, k)
        })
        .collect();
    Sc {
        doc,
        defaults: r.pct(50),
        ops,
        all: 160,
        pick: r.next(),
        only: vec![],
        outages,
    }
}

struct Run {
    outs: Vec<Out>,
    /// Total accesses after each operation.
    ends: Vec<u64>,
}

/// Runs the script, up to and including the operation in which a failure happened.
fn play(
    sc: &Sc,
    st: &Store,
    cx: &Ctx,
    base: Option<&Run>,
    stats: &mut Stats,
) -> Result<Run, Verdict> {
    st.set_ver(0);
    let mut cl = Client::new(st, cx, sc.defaults);
    let mut run = Run {
        outs: vec![],
        ends: vec![],
    };
    for (i, op) in sc.ops.iter().enumerate() {
        if matches!(op, Op::Arm(_) | Op::ArmStyle(_) | Op::ArmPanic(_)) {
            run.outs.push(Out::Nothing);
            run.ends.push(cx.acc.get());
            continue;
        }
        // (`step` forgets the plan after each operation)
        let plan = cx.plan.borrow().clone();
        let out = cl.step(op);
        *cx.plan.borrow_mut() = plan;
        let fired = cx.fired.borrow().first().cloned();
        match (&fired, &out) {
            (_, Out::Crash(c)) => {
                return fail(
                    if fired.is_some() { "panic_after_error" } else { "panic" },
                    format!(
                        "operation {i} {op:?}: {c:?}{}{}",
                        fired
                            .map(|f| format!(" after the document failed with {f}"))
                            .unwrap_or_default(),
                        cx.bad.borrow().clone().map(|b| format!(": {b}")).unwrap_or_default()
                    ),
                )
            }
            (Some(f), Out::Err(RErr::Doc(e))) if e == f => {
                run.outs.push(out);
                run.ends.push(cx.acc.get());
                stats.add("failures_surfaced", 1);
                return Ok(run);
            }
            (Some(f), o) => {
                return fail(
                    "swallowed",
                    format!(
                        "operation {i} {op:?}: the document failed with {f}, but the result is {}",
                        o.short()
                    ),
                )
            }
            (None, Out::Err(RErr::Doc(e))) => {
                return fail(
                    "spurious",
                    format!("operation {i} {op:?}: reports {e}, but the document did not fail"),
                )
            }
            (None, o) => {
                if let Some(b) = base {
                    if b.outs.get(i) != Some(o) {
                        return fail(
                            "before",
                            format!(
                                "operation {i} {op:?}, before any failure: {} instead of {}",
                                o.short(),
                                b.outs[i].short()
                            ),
                        );
                    }
                }
            }
        }
        run.outs.push(out);
        run.ends.push(cx.acc.get());
    }
    Ok(run)
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let Some(st) = Store::build(&sc.doc, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    if !(0..st.vers.len()).all(|v| st.well_formed(v)) {
        return Err(Verdict::Skip("ill-formed"));
    }
    let cx = Ctx::default();
    cx.limit.set(400_000);
    let base = match play(sc, &st, &cx, None, stats) {
        Ok(b) => b,
        Err(Verdict::Fail(c, _)) if c == "panic" && cx.acc.get() + cx.spans.get() > 399_000 => {
            return Err(Verdict::Skip("too big"))
        }
        Err(e) => return Err(e),
    };
    let total = cx.acc.get();
    stats.ctx(&cx);
    let mut ks: Vec<u64> = Vec::new();
    if !sc.only.is_empty() {
        ks = sc.only.clone();
    } else if total <= sc.all {
        ks.extend(0..total);
    } else {
        let mut r = Rng::new(sc.pick);
        // the boundaries of operations, then random accesses
        for e in &base.ends {
            ks.push(e.saturating_sub(1));
            ks.push(*e);
        }
        while (ks.len() as u64) < sc.all {
            ks.push(r.below(total as usize) as u64);
        }
        ks.sort();
        ks.dedup();
    }
    let mut injected = 0;
    for k in ks {
        let cx = Ctx::default();
        cx.limit.set(800_000);
        cx.arm(k, Fault::Err);
        let r = play(sc, &st, &cx, Some(&base), stats);
        injected += cx.fired.borrow().len() as u64;
        stats.ctx(&cx);
        if let Err(Verdict::Fail(c, m)) = r {
            return fail(&c, format!("access {k} of {total} fails: {m}"));
        }
    }
    for (node, kinds) in &sc.outages {
        let cx = Ctx::default();
        cx.limit.set(800_000);
        let mut d = vec![false; *node as usize + 1];
        d[*node as usize] = true;
        *cx.down.borrow_mut() = Some(Arc::new(d));
        *cx.down_kinds.borrow_mut() = kinds.iter().map(|k| KINDS[*k as usize % 10]).collect();
        let r = play(sc, &st, &cx, Some(&base), stats);
        injected += cx.fired.borrow().len() as u64;
        stats.ctx(&cx);
        if let Err(Verdict::Fail(c, m)) = r {
            return fail(&c, format!("node {node} out of service {kinds:?}: {m}"));
        }
    }
    stats.add("failure_points", injected);
    stats.nontrivial = injected >= 5;
    Ok(())
}
