//! C07: the printer only asks the document what it is allowed to ask.

use super::common::*;
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::session::*;
use crate::simdoc::*;
use crate::spec::DocSpec;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "a document whose accessors check every documented precondition (text, child, last child, previous sibling with the true parent and index, conditions and labels the notations mention), with either the trait's default sibling methods or overriding ones, in a quarter of the runs with nodes their notations do not fit (wrong notation, missing child, text instead of children), under random histories of opens, pulls in both directions, failed and panicking accesses, abandonments, edits and string prints; non-trivial: at least 3 lines delivered";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: DocSpec,
    pub defaults: bool,
    /// Some notation does not fit its node.
    #[serde(default)]
    pub mismatched: bool,
    pub ops: Vec<Op>,
}

pub fn gen(r: &mut Rng) -> Sc {
    let nv = r.range(1, 3);
    let mut m = gen::Mix::random(r);
    m.large = gen::Large::random(r, 300);
    if r.pct(50) {
        m.check = r.range(20, 80);
        m.odd_join = r.range(0, 60);
    }
    let mut doc = gen::Gen::new(r, m).doc(nv);
    let mismatched = r.pct(25);
    if mismatched {
        super::c09::mismatch(r, &mut doc, 0, 3);
    }
    let len = r.range(2, 30);
    let fault = *r.pick(&[0, 15, 40]);
    let mut ops = gen::script(r, &doc, len, fault, 15);
    if r.pct(20) {
        let at = r.below(ops.len());
        ops.insert(at, Op::ArmPanic(r.skewed(60) as u64));
    }
    Sc {
        doc,
        defaults: r.pct(50),
        mismatched,
        ops,
    }
}

/// Documents whose notations do not fit them: no model, only the contract.
fn monitor(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let Some(st) = Store::build(&sc.doc, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let cx = Ctx::default();
    cx.limit.set(300_000);
    let mut cl = Client::new(&st, &cx, sc.defaults);
    let mut lines = 0;
    let mut ops = sc.ops.clone();
    for s in 0..SLOTS {
        for _ in 0..20 {
            ops.push(Op::Down(s));
            ops.push(Op::Up(s));
        }
    }
    for (i, op) in ops.iter().enumerate() {
        let out = cl.step(op);
        if let Some(b) = cx.bad.borrow().clone() {
            return fail("contract", format!("operation {i} {op:?}: {b}"));
        }
        match &out {
            Out::Crash(Caught::Injected) => (),
            Out::Crash(Caught::Steps) => break,
            Out::Crash(c) => return fail("panic", format!("operation {i} {op:?}: {c:?}")),
            Out::Line(_) | Out::Focus(..) => lines += 1,
            Out::Err(RErr::Other(e)) => {
                let name: String = e.chars().take_while(|c| c.is_alphanumeric()).collect();
                stats.add(&format!("probe.mismatch.{name}"), 1);
            }
            _ => (),
        }
    }
    stats.add("mismatched_documents", 1);
    stats.nontrivial = lines >= 3;
    drop(cl);
    stats.ctx(&cx);
    Ok(())
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    if sc.mismatched {
        return monitor(sc, stats);
    }
    let a = Aspects {
        contract: true,
        ..Aspects::default()
    };
    run_script(&sc.doc, &sc.ops, sc.defaults, a, stats)
}
