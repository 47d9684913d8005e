//! C03: every piece of text carries exactly its enclosing styles, everywhere.

use super::common::*;
use super::*;
use crate::gen;
use crate::session::Op;
use crate::spec::*;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "as C01 with style-heavy documents (node styles, nested style labels, styled indentation, neutral labels, full-width and zero-width characters), root styles, and style accesses that fail and are retried; styles are a free monoid compared per character; non-trivial: at least 3 lines compared";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: DocSpec,
    pub defaults: bool,
    pub ops: Vec<Op>,
}

pub fn gen(r: &mut Rng) -> Sc {
    let mut m = gen::Mix::random(r);
    m.large = gen::Large::random(r, 150);
    m.style = m.style.max(20);
    m.node_style = *r.pick(&[0, 50, 100, 100]);
    if r.pct(50) {
        m.indent = m.indent.max(30);
    }
    let nv = r.range(1, 2);
    let doc = gen::Gen::new(r, m).doc(nv);
    let len = r.range(2, 24);
    let fault = if r.pct(40) { 12 } else { 0 };
    let mut ops = gen::script(r, &doc, len, fault, 10);
    gen::other_pulls(r, &mut ops);
    if fault > 0 {
        // retry: repeat an open right after its failed attempt
        let mut i = 0;
        while i + 1 < ops.len() {
            if matches!(ops[i], Op::Arm(_) | Op::ArmStyle(_)) {
                if let Op::Open { .. } = ops[i + 1] {
                    let o = ops[i + 1].clone();
                    ops.insert(i + 2, o);
                    i += 1;
                }
            }
            i += 1;
        }
    }
    Sc {
        doc,
        defaults: r.pct(50),
        ops,
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let a = Aspects {
        styles: true,
        ..Aspects::default()
    };
    run_script(&sc.doc, &sc.ops, sc.defaults, a, stats)
}
