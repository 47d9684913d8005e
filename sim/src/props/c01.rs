//! C01: lines do not depend on the focus or on how they are pulled.

use super::common::*;
use super::*;
use crate::gen;
use crate::session::Op;
use crate::spec::DocSpec;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "a random document (random or realistic notations, 1 to 140 nodes, 1 or 2 versions), a random client script of opens at random focuses, pulls up and down one by one, by passing over lines or all at once, abandonments, re-opens, edits and string prints, widths biased to the borders where the layout changes, then both streams of every open print drained past their ends; non-trivial: at least 3 lines compared with the model and at least 2 nodes";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: DocSpec,
    pub defaults: bool,
    pub ops: Vec<Op>,
}

pub fn gen(r: &mut Rng) -> Sc {
    let nv = r.range(1, 2);
    let doc = gen::doc(r, nv);
    let len = r.range(2, 30);
    let fault = if r.pct(15) { 8 } else { 0 };
    let mut ops = gen::script(r, &doc, len, fault, 15);
    gen::other_pulls(r, &mut ops);
    Sc {
        doc,
        defaults: r.pct(50),
        ops,
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let a = Aspects {
        lines: true,
        ..Aspects::default()
    };
    run_script(&sc.doc, &sc.ops, sc.defaults, a, stats)
}
