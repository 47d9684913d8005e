//! C02: a print opens exactly at the requested focus, or fails saying why.

use super::common::*;
use super::*;
use crate::gen;
use crate::session::Op;
use crate::spec::*;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "an editing session: a random document with up to 4 versions, a history of focus moves (every node of small documents, all four targets, valid and invalid paths), width changes, edits and injected document failures followed by retries; non-trivial: at least 3 opened focuses compared with the model";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: DocSpec,
    pub defaults: bool,
    pub ops: Vec<Op>,
}

pub fn gen(r: &mut Rng) -> Sc {
    let nv = r.range(1, 4);
    let doc = gen::doc(r, nv);
    let mut ops = Vec::new();
    let mut v = 0;
    let mut w = gen::width(r, &doc, v);
    let fault = if r.pct(40) { 15 } else { 0 };
    let len = r.range(2, 28);
    let sweep = r.pct(25);
    let mut paths = gen::all_paths(&doc.vers[v]);
    let mut k = 0;
    while ops.len() < len {
        if r.pct(15) {
            w = gen::width(r, &doc, v);
        }
        if r.pct(12) {
            v = r.below(doc.vers.len());
            ops.push(Op::Edit(v));
            paths = gen::all_paths(&doc.vers[v]);
        }
        let (path, tg) = if sweep {
            // systematic: every target of one node after another
            let p = paths[(k / 4) % paths.len()].clone();
            let t = match k % 4 {
                0 => Target::Start,
                1 => Target::End,
                2 => Target::Mark,
                _ => Target::Text(r.skewed(12)),
            };
            k += 1;
            (p, t)
        } else {
            (gen::path(r, &doc.vers[v], 12), gen::target(r))
        };
        let open = Op::Open {
            s: 0,
            w,
            path,
            tg,
            root: gen::root_style(r),
        };
        if r.pct(fault) {
            ops.push(Op::Arm(r.skewed(80) as u64));
            ops.push(open.clone());
            if r.pct(70) {
                ops.push(open);
            }
        } else {
            ops.push(open);
        }
        if r.pct(15) {
            ops.push(Op::Up(0));
            ops.push(Op::Down(0));
        }
    }
    Sc {
        doc,
        defaults: r.pct(50),
        ops,
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let a = Aspects {
        split: true,
        ..Aspects::default()
    };
    run_script(&sc.doc, &sc.ops, sc.defaults, a, stats)
}
