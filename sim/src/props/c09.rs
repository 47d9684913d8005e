//! C09: printing always terminates without panicking, even while the document changes.

use super::common::*;
use super::*;
use crate::gen::{self, Arity};
use crate::model::layout;
use crate::panes::{self, compose, display, display_plain, PErr, Scene, WinPlan};
use crate::rng::{fold, Rng};
use crate::session::*;
use crate::simdoc::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};

pub const RULE: &str = "sessions and pane displays under documents that are edited between any two accesses (texts, child lists, notations, also to notations that do not fit); documents hundreds of thousands of levels deep or children wide, on a 512 KiB stack; lines of 65536 and more columns; windows of any size, weights of zero and of usize::MAX; non-trivial: at least 3 operations returned, and the extreme in question was reached (an edit fired, 1000 nodes or more, a line wider than the counter, a split divided)";

/// The stack everything extreme runs on.
const STACK: usize = 512 << 10;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sc {
    /// Edits in the middle of operations.
    Mid {
        doc: DocSpec,
        /// (access number, version)
        edits: Vec<(u64, usize)>,
        /// Additionally switch at pseudo-random accesses (0 = not).
        storm: u64,
        ops: Vec<Op>,
    },
    MidPane {
        docs: Vec<DocSpec>,
        scene: Scene,
        edits: Vec<(u64, usize)>,
        storm: u64,
        shows: usize,
    },
    /// A document built to a pattern.
    Big {
        notes: Vec<Note>,
        shape: Shape,
        ops: Vec<BOp>,
    },
    /// A document whose letters U+E000.. stand for runs of this many columns.
    Long {
        doc: DocSpec,
        runs: Vec<(char, u32)>,
        ops: Vec<Op>,
        scene: Option<Scene>,
    },
    /// Extreme splits and windows.
    Split {
        docs: Vec<DocSpec>,
        scene: Scene,
        plain: bool,
        budget: u64,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Shape {
    pub seed: u64,
    /// Number of nodes, roughly.
    pub n: usize,
    /// Many nodes below one instead of one below the other.
    pub wide: bool,
    /// Kinds of notations: `None` text, `Some(usize::MAX)` any number of children.
    pub ar: Vec<Option<usize>>,
    /// Use this notation for all nodes that have children.
    pub only: Option<usize>,
    pub style: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum BOp {
    /// Open at the node `d` per mille down the chain (or along the children).
    Open {
        d: u32,
        leaf: bool,
        w: u16,
        tg: Target,
    },
    Down(u32),
    Up(u32),
    Str(u16),
    Drop,
}

impl Shape {
    pub fn build(&self) -> Option<Version> {
        let texts: Vec<usize> = (0..self.ar.len()).filter(|i| self.ar[*i].is_none()).collect();
        let inner: Vec<usize> = (0..self.ar.len())
            .filter(|i| match self.ar[*i] {
                Some(k) if self.wide => k == usize::MAX,
                Some(k) => k > 0,
                None => false,
            })
            .collect();
        if texts.is_empty() || inner.is_empty() {
            return None;
        }
        let mut rnd = self.seed | 1;
        let mut below = |n: usize| {
            rnd = fold(rnd, 1);
            (rnd >> 11) as usize % n
        };
        const WORDS: [&str; 6] = ["a", "bc", "def", "漢", "", "ghijklm"];
        let mut nodes: Vec<Node> = Vec::new();
        let mut add = |parent: u32, index: usize, note: usize, text: Option<&str>, cond: usize| {
            nodes.push(Node {
                note,
                text: text.map(|t| t.to_string()),
                kids: vec![],
                parent,
                index: index as u32,
                cond: cond as u8,
                styled: self.style && cond & 8 != 0,
            });
            nodes.len() as u32 - 1
        };
        let (mut parent, mut index) = (NO_PARENT, 0);
        let mut made = 0;
        while made < self.n {
            let note = match self.only {
                Some(n) if inner.contains(&n) => n,
                _ => inner[below(inner.len())],
            };
            let id = add(parent, index, note, None, below(16));
            let k = match self.ar[note] {
                Some(usize::MAX) if self.wide => self.n,
                Some(usize::MAX) => 1 + below(3),
                k => k.unwrap_or(1),
            };
            let next = if self.wide { k } else { below(k) };
            for i in (0..k).filter(|i| *i != next) {
                let w = WORDS[below(WORDS.len())];
                add(id, i, texts[below(texts.len())], Some(w), below(16));
            }
            made += k.max(1);
            (parent, index) = (id, next);
        }
        if !self.wide {
            add(parent, index, texts[below(texts.len())], Some("end"), below(16));
        }
        // child lists
        let mut count = vec![0; nodes.len()];
        for n in &nodes {
            if n.parent != NO_PARENT {
                count[n.parent as usize] += 1;
            }
        }
        for (n, c) in nodes.iter_mut().zip(&count) {
            n.kids = vec![0; *c];
        }
        for i in 0..nodes.len() {
            let (p, k) = (nodes[i].parent, nodes[i].index);
            if p != NO_PARENT {
                nodes[p as usize].kids[k as usize] = i as u32;
            }
        }
        Some(Version { nodes })
    }
}

/// The path to the node `d` per mille down the chain of nodes that have children.
fn big_path(v: &Version, d: u32, leaf: bool) -> Vec<usize> {
    let spine: Vec<(usize, u32)> = {
        let mut out = vec![];
        let mut cur = 0u32;
        while let Some((i, k)) = v.nodes[cur as usize]
            .kids
            .iter()
            .enumerate()
            .find(|(_, k)| !v.nodes[**k as usize].kids.is_empty())
        {
            out.push((i, *k));
            cur = *k;
        }
        out
    };
    // (finding the focus takes time quadratic in what is on its line)
    let most = 100_000_000 / v.nodes.len().max(1);
    let n = (spine.len() * d.min(1000) as usize / 1000).min(most);
    let mut p: Vec<usize> = spine[..n].iter().map(|x| x.0).collect();
    let end = if n == 0 { 0 } else { spine[n - 1].1 };
    let kids = v.nodes[end as usize].kids.len();
    if kids > 0 && (leaf || spine.is_empty()) {
        p.push(((kids - 1) * (d as usize % 1001) / 1000).min(most));
    }
    p
}

// ---------------------------------------------------------------- generation

pub fn gen(r: &mut Rng) -> Sc {
    match r.below(100) {
        0..=39 => gen_mid(r),
        40..=59 => gen_mid_pane(r),
        60..=62 => gen_big(r),
        63..=81 => gen_long(r),
        _ => gen_split(r),
    }
}

/// Makes some notation not fit its node.
pub fn mismatch(r: &mut Rng, doc: &mut DocSpec, from: usize, times: usize) {
    let n = doc.notes.len();
    for t in &mut doc.vers[from..] {
        for _ in 0..r.range(1, times) {
            let mut cur = &mut *t;
            while cur.t.is_none() && !cur.k.is_empty() && !r.pct(25) {
                let i = r.below(cur.k.len());
                cur = &mut cur.k[i];
            }
            if r.pct(60) {
                cur.n = r.below(n);
            } else if cur.t.is_none() && !cur.k.is_empty() && r.pct(70) {
                cur.k.pop();
            } else if cur.t.is_some() {
                cur.t = None;
            } else {
                cur.t = Some("unexpected".into());
            }
        }
    }
}

fn versions(r: &mut Rng, nodes: usize) -> DocSpec {
    let mut m = gen::Mix::random(r);
    m.max_nodes = m.max_nodes.min(nodes);
    m.dup = 0;
    if r.pct(60) {
        m.check = r.range(20, 80);
    }
    let nv = r.range(2, 4);
    let mut d = gen::Gen::new(r, m).doc(nv);
    if r.pct(25) {
        // a wholly different document under the same identifiers
        let mut m = gen::Mix::random(r);
        m.max_nodes = m.max_nodes.min(nodes);
        m.dup = 0;
        let e = gen::Gen::new(r, m).doc(1);
        let off = d.notes.len();
        d.notes.extend(e.notes);
        fn shift(t: &mut Tree, off: usize) {
            t.n += off;
            t.k.iter_mut().for_each(|k| shift(k, off));
        }
        let mut t = e.vers.into_iter().next().unwrap();
        shift(&mut t, off);
        d.vers.push(t);
    }
    if r.pct(50) {
        let from = r.below(d.vers.len());
        mismatch(r, &mut d, from, 3);
    }
    d
}

fn edits(r: &mut Rng, vers: usize, span: usize) -> Vec<(u64, usize)> {
    let n = if r.pct(20) { 0 } else { r.range(1, 12) };
    (0..n)
        .map(|_| (r.skewed(span) as u64, r.below(vers)))
        .collect()
}

fn gen_mid(r: &mut Rng) -> Sc {
    let doc = versions(r, 60);
    let len = r.range(2, 30);
    let fault = *r.pick(&[0, 0, 15]);
    let ops = gen::script(r, &doc, len, fault, 10);
    let nv = doc.vers.len();
    let span = *r.pick(&[60, 300, 2000]);
    Sc::Mid {
        edits: edits(r, nv, span),
        storm: if r.pct(25) { r.next() } else { 0 },
        ops,
        doc,
    }
}

fn gen_mid_pane(r: &mut Rng) -> Sc {
    let nd = r.range(1, 2);
    let docs: Vec<DocSpec> = (0..nd).map(|_| versions(r, 40)).collect();
    let scene = scene(r, &docs, false);
    let span = *r.pick(&[60, 300, 1000]);
    Sc::MidPane {
        edits: edits(r, 5, span),
        storm: if r.pct(30) { r.next() } else { 0 },
        shows: r.range(1, 3),
        scene,
        docs,
    }
}

fn scene(r: &mut Rng, docs: &[DocSpec], huge: bool) -> Scene {
    let labels = r.range(1, 3) as u32;
    let mut used = 0;
    let pane = panes::pane(
        r,
        panes::PaneMix {
            labels,
            unique: false,
            bad_dynamic: 5,
            huge,
        },
        3,
        &mut used,
    );
    let vers = vec![0; docs.len()];
    let contents = (0..labels)
        .map(|_| r.pct(92).then(|| panes::content(r, docs, &vers, 5)))
        .collect();
    let (w, h) = panes::size(r);
    Scene {
        pane,
        contents,
        w,
        h,
        tags: r.pct(50),
    }
}

fn unstyle(n: &mut Note) {
    if let Note::Style(_, x) = n {
        let x = std::mem::replace(&mut **x, Note::Empty);
        *n = x;
        return unstyle(n);
    }
    match n {
        Note::Indent(_, l, n) => {
            *l = None;
            unstyle(n);
        }
        Note::Flat(n) => unstyle(n),
        Note::Cat(v) | Note::CatR(v) => v.iter_mut().for_each(unstyle),
        Note::Choice(a, b) | Note::Check(_, _, a, b) | Note::Fold(a, b) => {
            unstyle(a);
            unstyle(b);
        }
        Note::Count(a, b, c) => {
            unstyle(a);
            unstyle(b);
            unstyle(c);
        }
        _ => (),
    }
}

/// A notation that does next to nothing except passing on to the next level (of nodes, or of a
/// fold), in some wrapping.
fn repeated(r: &mut Rng, wide: bool, plain: bool) -> (Note, usize) {
    let mut n = if wide { Note::Left } else { Note::Child(0) };
    let mut lines = false;
    for _ in 0..r.range(0, 2) {
        let b = |n: Note| Box::new(n);
        n = match r.below(8) {
            0 | 1 if !lines => Note::Indent(r.pick(&["", " ", "    "]).to_string(), (!plain && r.pct(40)).then_some(2), b(n)),
            2 => Note::Flat(b(n)),
            3 => Note::Choice(b(n.clone()), b(cat(vec![lit("-"), n]))),
            4 if !plain => Note::Style(1, b(n)),
            5 if !wide => Note::Check(1, CPos::Child(0), b(n.clone()), b(n)),
            6 if wide => Note::Check(1, *r.pick(&[CPos::Left, CPos::Right]), b(n.clone()), b(n)),
            _ => {
                lines = r.pct(40);
                let x = if lines { Note::Nl } else { lit(*r.pick(&["", "."])) };
                cat(if r.pct(50) { vec![x, n] } else { vec![n, x] })
            }
        };
    }
    if !wide {
        return (n, 1);
    }
    let join = match r.below(5) {
        0 | 1 => n,
        2 => Note::Check(0, CPos::Right, Box::new(cat(vec![n, lit(","), Note::Right])), Box::new(Note::Left)),
        3 => Note::CatR(vec![n, Note::Right]),
        _ => Note::Cat(vec![n, Note::Choice(Box::new(lit(" ")), Box::new(Note::Nl)), Note::Right]),
    };
    let first = if r.pct(70) { Note::Child(0) } else { Note::Empty };
    (foldn(first, join), usize::MAX)
}

fn gen_big(r: &mut Rng) -> Sc {
    let mut m = gen::Mix::random(r);
    m.dup = 0;
    m.hide = if r.pct(25) { 60 } else { 0 };
    m.node_style = 0;
    if r.pct(25) {
        // levels of indentation that never see a line break
        m.indent = 90;
        m.nl = 0;
    }
    m.style = m.style.min(10);
    let n = match r.below(10) {
        0..=4 => r.range(1_000, 4_000),
        5..=7 => r.range(3_000, 12_000),
        8 => r.range(10_000, 30_000),
        _ if r.pct(30) => r.range(30_000, 200_000),
        _ => r.range(30_000, 60_000),
    };
    if n > 3_000 {
        // (a style combined n times over takes n² memory)
        m.style = 0;
    }
    let (mut notes, ars) = gen::Gen::new(r, m).table();
    if n > 3_000 {
        notes.iter_mut().for_each(unstyle);
    }
    let mut ar: Vec<Option<usize>> = ars
        .iter()
        .map(|a| match a {
            Arity::Text => None,
            Arity::Fixed(k) => Some(*k),
            Arity::Many => Some(usize::MAX),
        })
        .collect();
    let wide = r.pct(40);
    let mut only = r.pct(60).then(|| r.below(ar.len()));
    if r.pct(50) {
        let (note, a) = repeated(r, wide, n > 3_000);
        if note.to_real().validate().is_ok() {
            only = Some(notes.len());
            notes.push(note);
            ar.push(Some(a));
        }
    }
    let shape = Shape {
        seed: r.next(),
        n,
        wide,
        only,
        ar,
        style: n <= 3_000 && r.pct(20),
    };
    let mut ops = vec![];
    let w = *r.pick(&[0, 5, 20, 40, 80, 200, 1000]);
    for _ in 0..r.range(1, 4) {
        if r.pct(20) {
            ops.push(BOp::Str(w));
            continue;
        }
        ops.push(BOp::Open {
            d: *r.pick(&[0, 1, 500, 990, 1000, 1000]),
            leaf: r.pct(50),
            w,
            tg: gen::target(r),
        });
        for _ in 0..r.below(4) {
            let k = 1 + r.skewed(200) as u32;
            ops.push(if r.pct(50) { BOp::Down(k) } else { BOp::Up(k) });
        }
        if r.pct(30) {
            ops.push(BOp::Drop);
        }
    }
    Sc::Big { notes, shape, ops }
}

const RUN0: u32 = 0xE000;

fn inject(r: &mut Rng, s: &mut String, runs: usize) {
    let c = char::from_u32(RUN0 + r.below(runs) as u32).unwrap();
    let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    s.insert(*r.pick(&at), c);
}

fn strings<'a>(n: &'a mut Note, out: &mut Vec<&'a mut String>) {
    match n {
        Note::Lit(s) => out.push(s),
        Note::Indent(s, _, n) => {
            out.push(s);
            strings(n, out);
        }
        Note::Flat(n) | Note::Style(_, n) => strings(n, out),
        Note::Cat(v) | Note::CatR(v) => v.iter_mut().for_each(|n| strings(n, out)),
        Note::Choice(a, b) | Note::Check(_, _, a, b) | Note::Fold(a, b) => {
            strings(a, out);
            strings(b, out);
        }
        Note::Count(a, b, c) => {
            strings(a, out);
            strings(b, out);
            strings(c, out);
        }
        _ => (),
    }
}

fn texts<'a>(t: &'a mut Tree, out: &mut Vec<&'a mut String>) {
    if let Some(s) = &mut t.t {
        out.push(s);
    }
    t.k.iter_mut().for_each(|k| texts(k, out));
}

fn expand(doc: &DocSpec, runs: &[(char, u32)]) -> DocSpec {
    let mut d = doc.clone();
    let mut all = vec![];
    d.notes.iter_mut().for_each(|n| strings(n, &mut all));
    d.vers.iter_mut().for_each(|t| texts(t, &mut all));
    for s in all {
        if s.chars().any(|c| (0xE000..0xF8FF).contains(&(c as u32))) {
            let mut out = String::new();
            for c in s.chars() {
                match runs.get((c as u32).wrapping_sub(RUN0) as usize) {
                    Some((ch, n)) => {
                        let k = n / (char_cols(*ch).max(1) as u32);
                        out.extend(std::iter::repeat_n(*ch, k as usize));
                    }
                    None if (0xE000..0xF8FF).contains(&(c as u32)) => (),
                    None => out.push(c),
                }
            }
            *s = out;
        }
    }
    d
}

fn gen_long(r: &mut Rng) -> Sc {
    let mut m = gen::Mix::random(r);
    m.max_nodes = m.max_nodes.min(25);
    m.dup = 0;
    m.zero_width = 0;
    if r.pct(70) {
        m.choice = r.range(30, 80);
    }
    let mut doc = gen::Gen::new(r, m).doc(1);
    let nr = r.range(1, 3);
    let runs: Vec<(char, u32)> = (0..nr)
        .map(|_| {
            let n = match r.below(8) {
                0 => 65535,
                1 | 2 => 65536,
                3 => 65536 + r.below(12) as u32,
                4 => 131072 + r.below(12) as u32,
                5 => r.range(65000, 65535) as u32,
                6 => 32768 + r.below(20) as u32,
                _ => r.range(20_000, 70_000) as u32,
            };
            (*r.pick(&['x', 'x', '字']), n)
        })
        .collect();
    {
        let mut ss = vec![];
        if r.pct(60) {
            doc.notes.iter_mut().for_each(|n| strings(n, &mut ss));
        }
        if ss.is_empty() || r.pct(50) {
            doc.vers.iter_mut().for_each(|t| texts(t, &mut ss));
        }
        if !ss.is_empty() {
            for _ in 0..r.range(1, 3) {
                let i = r.below(ss.len());
                inject(r, ss[i], runs.len());
            }
        }
    }
    // Widths: also those the lines would have on a counter that wraps around.
    let full = expand(&doc, &runs);
    let mut ws: Vec<u64> = vec![0, 1, 10, 40, 80, 300, 60_000, 65_534];
    if let Some(st) = Store::build(&full, 0) {
        if st.well_formed(0) {
            for w in [0, 40, 100_000] {
                for l in layout(&st, 0, w, &[], 20_000).lines.iter().take(20) {
                    let c = cols(&l.text);
                    ws.extend([c, c % 65536, c % 65536 + 3, (c % 65536).saturating_sub(1)]);
                }
            }
        }
    }
    let pick = |r: &mut Rng| (*r.pick(&ws)).min(65_534) as u16;
    let len = r.range(2, 12);
    let mut ops = gen::script(r, &doc, len, 0, 0);
    for o in &mut ops {
        match o {
            Op::Open { w, .. } | Op::Str(w) => *w = pick(r),
            _ => (),
        }
    }
    let scene = r.pct(40).then(|| {
        let mut s = scene(r, std::slice::from_ref(&doc), false);
        for c in s.contents.iter_mut().flatten() {
            c.ws = match c.ws {
                panes::Ws::Full => panes::Ws::Full,
                panes::Ws::Fixed(_) => panes::Ws::Fixed(pick(r)),
                panes::Ws::NoMore(_) => panes::Ws::NoMore(pick(r)),
            };
        }
        if r.pct(15) {
            s.w = pick(r).max(60_000);
            s.h = s.h.min(3);
        }
        s
    });
    Sc::Long {
        doc,
        runs,
        ops,
        scene,
    }
}

fn gen_split(r: &mut Rng) -> Sc {
    let docs = panes::docs(r, 1, 1);
    let mut s = scene(r, &docs, true);
    if r.pct(40) {
        s.w = *r.pick(&[0, 1, 2, 65534, 65535]);
    }
    if r.pct(40) {
        s.h = *r.pick(&[0, 1, 2, 65535, 65536, 1 << 24, u32::MAX - 1, u32::MAX]);
    }
    Sc::Split {
        docs,
        scene: s,
        plain: r.pct(20),
        budget: *r.pick(&[0, 1, 500, 3000]),
    }
}

// ---------------------------------------------------------------- execution

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    match sc {
        Sc::Mid {
            doc,
            edits,
            storm,
            ops,
        } => mid(doc, edits, *storm, ops, stats),
        Sc::MidPane {
            docs,
            scene,
            edits,
            storm,
            shows,
        } => mid_pane(docs, scene, edits, *storm, *shows, stats),
        Sc::Big { notes, shape, ops } => small_stack(stats, |s| big(notes, shape, ops, s)),
        Sc::Long {
            doc,
            runs,
            ops,
            scene,
        } => long(doc, runs, ops, scene.as_ref(), stats),
        Sc::Split {
            docs,
            scene,
            plain,
            budget,
        } => split(docs, scene, *plain, *budget, stats),
    }
}

fn small_stack(
    stats: &mut Stats,
    f: impl FnOnce(&mut Stats) -> Result<(), Verdict> + Send,
) -> Result<(), Verdict> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                catch(|| f(stats)).unwrap_or_else(|c| fail("panic", format!("escaped panic: {c:?}")))
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// Plans the edits of one document's context.
fn plan(cx: &Ctx, edits: &[(u64, usize)], storm: u64, nv: usize) {
    if storm != 0 {
        let every = 1 + storm % 13;
        for i in 0..400 {
            let h = fold(storm, i);
            cx.arm(i * every + h % every, Fault::Edit((h >> 30) as usize % nv));
        }
    }
    for (at, v) in edits {
        cx.arm(*at, Fault::Edit(*v));
    }
}

fn crash(at: String, c: &Caught) -> Result<(), Verdict> {
    match c {
        Caught::Injected => Ok(()),
        Caught::Steps => fail("steps", format!("{at}: still going after the step budget")),
        Caught::Contract => fail("panic", format!("{at}: contract panic")),
        Caught::Panic(m) => fail("panic", format!("{at}: panicked: {m}")),
    }
}

fn mid(
    doc: &DocSpec,
    edits: &[(u64, usize)],
    storm: u64,
    ops: &[Op],
    stats: &mut Stats,
) -> Result<(), Verdict> {
    let Some(st) = Store::build(doc, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let cx = Ctx::default();
    cx.strict.set(false);
    plan(&cx, edits, storm, st.vers.len());
    let mut cl = Client::new(&st, &cx, false);
    let mut all = ops.to_vec();
    for s in 0..SLOTS {
        for _ in 0..25 {
            all.push(Op::Down(s));
            all.push(Op::Up(s));
        }
    }
    let mut returned = 0;
    for (i, op) in all.iter().enumerate() {
        cx.limit.set(cx.acc.get() + cx.spans.get() + 2_000_000);
        let out = cl.step(op);
        if let Out::Crash(c) = &out {
            crash(format!("operation {i} {op:?}"), c)?;
        }
        match out {
            Out::Nothing => (),
            Out::Err(RErr::Other(e)) => {
                let name: String = e.chars().take_while(|c| c.is_alphanumeric()).collect();
                stats.add(&format!("probe.mid_edit.{name}"), 1);
                returned += 1;
            }
            Out::Err(RErr::Doc(_)) => {
                stats.add("probe.mid_edit.PrettyDoc", 1);
                returned += 1;
            }
            _ => returned += 1,
        }
    }
    let fired = cx.fired_kinds.borrow().get("edit_mid_operation").copied();
    drop(cl);
    stats.ctx(&cx);
    stats.add("kind.mid_edit", 1);
    stats.nontrivial = returned >= 3 && fired.unwrap_or(0) > 0;
    // Whatever it went through, the document now prints as what it has become.
    let v = st.ver();
    let mut models = Models::new(&st);
    if models.get(v, 30, false).is_some() {
        let ops: Vec<Op> = vec![
            Op::Str(30),
            Op::Open {
                s: 0,
                w: 30,
                path: vec![],
                tg: Target::Start,
                root: false,
            },
        ];
        let a = Aspects {
            lines: true,
            ..Aspects::default()
        };
        let real = Stats {
            nontrivial: stats.nontrivial,
            ..Stats::default()
        };
        run_store(&st, &ops, false, a, Tuning::default(), stats)?;
        stats.nontrivial = real.nontrivial;
        stats.add("final_versions_compared", 1);
    }
    Ok(())
}

fn mid_pane(
    docs: &[DocSpec],
    scene: &Scene,
    edits: &[(u64, usize)],
    storm: u64,
    shows: usize,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    let Some(owned) = panes::stores(docs) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let stores: Vec<&Store> = owned.iter().collect();
    let cx = Ctx::default();
    cx.strict.set(false);
    plan(&cx, edits, storm, 5);
    let mut drawn = 0;
    for i in 0..shows.min(5) {
        cx.limit.set(cx.acc.get() + cx.spans.get() + 4_000_000);
        let s = display(scene, &stores, &cx, false, WinPlan::default(), 200_000, true);
        match &s.result {
            Err(PErr::Crash(c)) => crash(format!("display {i}"), c)?,
            Err(PErr::Print(_)) => stats.add("probe.mid_edit.display_error", 1),
            _ => (),
        }
        drawn += s.calls;
    }
    let fired = cx.fired_kinds.borrow().get("edit_mid_operation").copied();
    stats.add("kind.mid_edit_pane", 1);
    stats.nontrivial = drawn >= 3 && fired.unwrap_or(0) > 0;
    stats.ctx(&cx);
    Ok(())
}

fn big(notes: &[Note], shape: &Shape, ops: &[BOp], stats: &mut Stats) -> Result<(), Verdict> {
    if shape.ar.len() != notes.len() || shape.n > 300_000 {
        return Err(Verdict::Skip("shape"));
    }
    let Some(v) = shape.build() else {
        return Err(Verdict::Skip("shape"));
    };
    let Some(st) = Store::from_parts(notes.to_vec(), vec![v], 0, false) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let n = st.vers[0].nodes.len();
    let mut script = vec![];
    for o in ops {
        match o {
            BOp::Open { d, leaf, w, tg } => script.push(Op::Open {
                s: 0,
                w: *w,
                path: big_path(&st.vers[0], *d, *leaf),
                tg: *tg,
                root: false,
            }),
            BOp::Down(k) => script.extend((0..(*k).min(500)).map(|_| Op::Down(0))),
            BOp::Up(k) => script.extend((0..(*k).min(500)).map(|_| Op::Up(0))),
            BOp::Str(w) => script.push(Op::Str(*w)),
            BOp::Drop => script.push(Op::Drop(0)),
        }
    }
    let a = Aspects {
        lines: true,
        split: true,
        ..Aspects::default()
    };
    let tune = Tuning {
        cap: 700_000,
        unique: true,
        steps: Some(60),
        drain: 300,
    };
    run_store(&st, &script, false, a, tune, stats)?;
    stats.add(if shape.wide { "kind.wide" } else { "kind.deep" }, 1);
    stats.nontrivial = n >= 1000;
    Ok(())
}

fn long(
    doc: &DocSpec,
    runs: &[(char, u32)],
    ops: &[Op],
    scene: Option<&Scene>,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    if runs.iter().map(|r| r.1 as u64).sum::<u64>() > 1 << 20 {
        return Err(Verdict::Skip("too long"));
    }
    let full = expand(doc, runs);
    let Some(st) = Store::build(&full, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    for o in ops {
        if let Op::Open { w: 65535, .. } | Op::Str(65535) = o {
            return Err(Verdict::Skip("width is the counter's limit"));
        }
    }
    let a = Aspects {
        lines: true,
        split: true,
        styles: true,
        ..Aspects::default()
    };
    run_store(&st, ops, false, a, Tuning::default(), stats)?;
    let mut wide = 0;
    if let Some(sc) = scene {
        let stores = [&st];
        let cx = Ctx::default();
        let mut models = vec![Models::new(&st)];
        let want = compose(sc, &[0], &mut models);
        let s = display(sc, &stores, &cx, false, WinPlan::default(), 10_000_000, false);
        if let Err(PErr::Crash(c)) = &s.result {
            crash("display".into(), c)?;
        }
        if let (Ok(f), Ok(())) = (&want, &s.result) {
            if let Some(d) = f.compare(&s.events) {
                return fail("frame", format!("display: {d}"));
            }
            stats.add("frames_compared", 1);
        }
        stats.ctx(&cx);
    }
    if st.well_formed(0) {
        for l in layout(&st, 0, 65_534, &[], 60_000).lines {
            wide = wide.max(cols(&l.text));
        }
    }
    stats.add("kind.long_lines", 1);
    stats.nontrivial = wide > 65_535;
    Ok(())
}

fn split(
    docs: &[DocSpec],
    scene: &Scene,
    plain: bool,
    budget: u64,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    let Some(owned) = panes::stores(docs) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let stores: Vec<&Store> = owned.iter().collect();
    let cx = Ctx::default();
    cx.limit.set(4_000_000);
    let small = scene.w as u64 * scene.h as u64 <= 20_000 && scene.h <= 20_000;
    let calls = if plain && small {
        match display_plain(scene, &stores, &cx, false) {
            Err(PErr::Crash(c)) => crash("display".into(), &c)?,
            _ => (),
        }
        3
    } else {
        let budget = if small { 100_000 } else { budget };
        let s = display(scene, &stores, &cx, false, WinPlan::default(), budget, !small);
        if let Err(PErr::Crash(c)) = &s.result {
            crash("display".into(), c)?;
        }
        if small && s.result.is_ok() {
            let mut models: Vec<Models> = owned.iter().map(Models::new).collect();
            if let Ok(f) = compose(scene, &vec![0; stores.len()], &mut models) {
                if let Some(d) = f.compare(&s.events) {
                    return fail("frame", format!("display: {d}"));
                }
                stats.add("frames_compared", 1);
            }
        }
        s.calls
    };
    stats.add("kind.splits_and_windows", 1);
    stats.nontrivial = calls >= 3;
    stats.ctx(&cx);
    Ok(())
}
