//! C08: printing near a focus works only on what is near the focus.

use super::common::*;
use super::*;
use crate::model::{layout, Model};
use crate::panes::{self, display, Content, Ev, PErr, Scene, Sz, WinPlan, Ws, P};
use crate::rng::{mix, Rng};
use crate::session::*;
use crate::simdoc::*;
use crate::spec::*;
use partial_pretty_printer::pane::{
    display_pane, PaneNotation, PaneSize, PrintingOptions, WidthStrategy,
};
use partial_pretty_printer::{pretty_print, PrettyDoc, Size, ValidNotation};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::sync::Arc;

pub const RULE: &str = "either a well-behaved document of up to some 2000 nodes in which every node far from the focus path, the requested lines and the look-ahead is permanently out of service, printed at a focus (or displayed in a pane) must deliver exactly what the full document would without touching any of those nodes; or a document of 10^3 to 10^30 nodes that exists only where it is looked at, printed or displayed at a random deep focus, must deliver the right lines within an access budget that depends only on depth, fan-out, width and lines; or a small document displayed in a window of up to 4 billion rows, whose work must not depend on the window before the first cell is drawn; non-trivial: at least 3 lines delivered with at least 20 nodes out of service or not existing";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sc {
    Outage {
        doc: DocSpec,
        w: u16,
        path: Vec<usize>,
        tg: Target,
        /// `true` pulls a line upward.
        pulls: Vec<bool>,
        defaults: bool,
        /// Display it in a pane of this height and focus height instead of pulling.
        pane: Option<(u32, u16, PaneKind)>,
    },
    Huge {
        v: Virtual,
        w: u16,
        path: Vec<usize>,
        tg: Target,
        pulls: Vec<bool>,
        pane: Option<(u32, u16, PaneKind)>,
    },
    Tall {
        doc: DocSpec,
        w: u16,
        h: u32,
        fh: u16,
        path: Vec<usize>,
        kind: PaneKind,
    },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum PaneKind {
    Plain,
    VertDynamic,
    HorzDynamic,
}

// ---------------------------------------------------------------- well-behaved documents

const LEAF: usize = 0;
/// `[a, b]` or one item per line.
const SEQ: usize = 1;
/// Always one item per line, with brackets.
const HARD: usize = 2;
/// Always one item per line, without brackets.
const LINES: usize = 3;
/// `a: b`, the second on a line of its own if it does not fit.
const PAIR: usize = 4;
/// Always one item per line; a focus mark at the very end.
const MARKED: usize = 5;
/// Items filled into lines.
const SOFT_LEAF: usize = 6;
const VSEQ: usize = 7;
/// `a = b`, each with as many lines as it wants.
const INLINE: usize = 8;
/// One below the other, the second in the line of its title if it fits.
const TAIL: usize = 9;
/// The same item lists without brackets, with separators before the items.
const LED: usize = 10;

fn notes() -> Vec<Note> {
    let fold = |j: Note| foldn(Note::Child(0), j);
    let seq = |style: bool| {
        let single = cat(vec![
            lit("["),
            fold(cat(vec![Note::Left, lit(", "), Note::Right])),
            lit("]"),
        ]);
        let multi = cat(vec![
            lit("["),
            indent(
                "  ",
                None,
                cat(vec![
                    Note::Nl,
                    fold(cat(vec![Note::Left, lit(","), Note::Nl, Note::Right])),
                ]),
            ),
            Note::Nl,
            lit("]"),
        ]);
        let both = choice(flat(single), multi);
        count(
            lit("[]"),
            cat(vec![lit("["), Note::Mark, Note::Child(0), lit("]")]),
            if style { styled(1, both) } else { both },
        )
    };
    vec![
        cat(vec![Note::Mark, Note::Text]),
        seq(false),
        cat(vec![
            lit("("),
            Note::Mark,
            indent(
                " ",
                Some(2),
                cat(vec![
                    Note::Nl,
                    fold(cat(vec![Note::Left, Note::Nl, Note::Right])),
                ]),
            ),
            Note::Nl,
            lit(")"),
        ]),
        fold(cat(vec![Note::Left, Note::Nl, Note::Right])),
        cat(vec![
            Note::Child(0),
            lit(":"),
            choice(
                flat(cat(vec![lit(" "), Note::Child(1)])),
                indent("    ", None, cat(vec![Note::Nl, Note::Child(1)])),
            ),
        ]),
        cat(vec![
            lit("{"),
            indent(
                "| ",
                None,
                cat(vec![
                    Note::Nl,
                    fold(check(
                        1,
                        CPos::Left,
                        cat(vec![Note::Left, lit(";"), Note::Nl, Note::Right]),
                        cat(vec![Note::Left, Note::Nl, Note::Right]),
                    )),
                ]),
            ),
            Note::Nl,
            Note::Mark,
            lit("}"),
        ]),
        styled(3, Note::Text),
        seq(true),
        cat(vec![Note::Child(0), lit(" = "), Note::Mark, Note::Child(1)]),
        Note::CatR(vec![
            Note::Child(0),
            Note::Nl,
            lit("tail"),
            choice(
                flat(cat(vec![lit(" "), Note::Child(1)])),
                indent("  ", Some(1), cat(vec![Note::Nl, Note::Child(1)])),
            ),
            Note::Nl,
            lit("."),
        ]),
        Note::CatR(vec![
            lit("- "),
            fold(Note::CatR(vec![
                Note::Left,
                Note::Nl,
                check(1, CPos::Right, lit("+ "), lit("- ")),
                indent("  ", None, Note::Right),
            ])),
        ]),
    ]
}

fn leaf(r: &mut Rng) -> Tree {
    let n = r.range(1, 6);
    let t: String = (0..n)
        .map(|_| *r.pick(&['a', 'b', 'c', 'd', 'x', '1', '漢', 'é']))
        .collect();
    Tree {
        n: *r.pick(&[LEAF, LEAF, SOFT_LEAF]),
        t: Some(t),
        k: vec![],
        c: r.below(4) as u8,
        s: r.pct(30),
    }
}

/// `soft`: inside something that may be laid out on one line, where a hard line break would put
/// several items with lines of their own next to each other.
fn tree(r: &mut Rng, budget: usize, depth: usize, seq: usize, soft: bool) -> Tree {
    if budget <= 1 || depth == 0 {
        return leaf(r);
    }
    let n = *r.pick(&[SEQ, VSEQ, HARD, LINES, PAIR, MARKED, INLINE, TAIL, LED]);
    let n = if r.pct(seq) {
        SEQ
    } else if soft {
        *r.pick(&[SEQ, VSEQ, PAIR])
    } else {
        n
    };
    let inner = soft || matches!(n, SEQ | VSEQ | PAIR);
    let kids = if matches!(n, PAIR | INLINE | TAIL) {
        2
    } else {
        let m = *r.pick(&[2, 4, 8, 30]);
        r.range(1, m).min(budget)
    };
    let mut left = budget - 1;
    let mut k = Vec::new();
    for i in 0..kids {
        let b = if n == PAIR && i == 0 {
            1
        } else if i + 1 == kids || r.pct(20) {
            left
        } else {
            r.below(left.max(1)).max(left / (kids - i).max(1))
        };
        let b = b.clamp(1, left.max(1));
        left = left.saturating_sub(b);
        k.push(tree(r, b, depth - 1, seq, inner));
    }
    Tree {
        n,
        t: None,
        k,
        c: r.below(4) as u8,
        s: r.pct(30),
    }
}

// ---------------------------------------------------------------- documents that do not exist

/// A document of `depth` levels of lists above small trees, defined by its seed.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Virtual {
    pub seed: u64,
    pub depth: usize,
    pub min_fan: usize,
    pub max_fan: usize,
    /// Lists that would be put on one line if they were not so long, instead of lists that never
    /// are.
    pub soft: bool,
}

/// Levels of two-item lists at the bottom of a document of lists that could fit on one line: enough
/// of them that nothing above ever does.
const FULL_LEVELS: usize = 7;

impl Virtual {
    fn root(&self) -> u64 {
        mix(self.seed ^ 0x77)
    }
    fn kid(&self, s: u64, i: usize) -> u64 {
        mix(s ^ mix(i as u64 + 0x1234_5678))
    }
    fn fan(&self, s: u64) -> usize {
        self.min_fan + (mix(s ^ 0x99) % (self.max_fan - self.min_fan + 1) as u64) as usize
    }
    /// The tree at the bottom.
    fn bottom(&self, s: u64) -> Tree {
        fn go(r: &mut Rng, levels: usize) -> Tree {
            if levels == 0 {
                let b = r.range(1, 6);
                return tree(r, b, 3, 60, true);
            }
            Tree {
                n: VSEQ,
                t: None,
                k: vec![go(r, levels - 1), go(r, levels - 1)],
                c: 0,
                s: false,
            }
        }
        let mut r = Rng::new(s);
        go(&mut r, if self.soft { FULL_LEVELS } else { 0 })
    }
}

struct VNode {
    /// Its own description if it is part of a small tree.
    tree: Option<Tree>,
    seed: u64,
    level: usize,
    kids: Vec<Option<u32>>,
    parent: u32,
    index: usize,
}

/// The part of the document that has been looked at.
struct VStore {
    v: Virtual,
    nodes: RefCell<Vec<VNode>>,
    notes: Vec<ValidNotation<u8, u8>>,
    /// Texts live as long as the store.
    texts: RefCell<Vec<(u32, &'static str)>>,
    cx: Ctx,
    accesses: Cell<u64>,
    limit: u64,
}

impl VStore {
    fn new(v: &Virtual, limit: u64) -> Option<VStore> {
        let st = VStore {
            v: v.clone(),
            nodes: RefCell::default(),
            notes: notes()
                .iter()
                .map(|n| n.to_real().validate().ok())
                .collect::<Option<Vec<_>>>()?,
            texts: RefCell::default(),
            cx: Ctx::default(),
            accesses: Cell::new(0),
            limit,
        };
        st.make(v.root(), 0, u32::MAX, 0);
        Some(st)
    }
    fn make(&self, seed: u64, level: usize, parent: u32, index: usize) -> u32 {
        let (tree, n) = if level == self.v.depth {
            let t = self.v.bottom(seed);
            let n = t.k.len();
            (Some(t), n)
        } else {
            (None, self.v.fan(seed))
        };
        self.push(VNode {
            tree,
            seed,
            level,
            kids: vec![None; n],
            parent,
            index,
        })
    }
    fn push(&self, n: VNode) -> u32 {
        let mut v = self.nodes.borrow_mut();
        v.push(n);
        (v.len() - 1) as u32
    }
    fn kid(&self, of: u32, i: usize) -> Option<u32> {
        let (tree, seed, level);
        {
            let v = self.nodes.borrow();
            let n = &v[of as usize];
            match n.kids.get(i) {
                None => return None,
                Some(Some(k)) => return Some(*k),
                Some(None) => (),
            }
            tree = n.tree.as_ref().map(|t| t.k[i].clone());
            seed = n.seed;
            level = n.level;
        }
        let id = match tree {
            Some(t) => {
                let k = vec![None; t.k.len()];
                self.push(VNode {
                    tree: Some(t),
                    seed: 0,
                    level: level + 1,
                    kids: k,
                    parent: of,
                    index: i,
                })
            }
            None => self.make(self.v.kid(seed, i), level + 1, of, i),
        };
        self.nodes.borrow_mut()[of as usize].kids[i] = Some(id);
        Some(id)
    }
}

impl Drop for VStore {
    fn drop(&mut self) {
        for (_, t) in self.texts.borrow_mut().drain(..) {
            // SAFETY: leaked in `unwrap_text`; no handle outlives the store.
            unsafe { drop(Box::from_raw(t as *const str as *mut str)) };
        }
    }
}

#[derive(Clone, Copy)]
struct Vh<'d> {
    st: &'d VStore,
    node: u32,
}
impl std::fmt::Debug for Vh<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "v{}", self.node)
    }
}

impl<'d> Vh<'d> {
    fn hit(self, what: u64) {
        let st = self.st;
        st.accesses.set(st.accesses.get() + 1);
        st.cx.acc.set(st.cx.acc.get() + 1);
        st.cx.clock.set(st.cx.clock.get() + 1);
        st.cx.add_hash(what << 32 | self.node as u64);
        if st.accesses.get() > st.limit {
            std::panic::panic_any(StepLimit);
        }
    }
    fn bad(self, what: &str) -> ! {
        let mut b = self.st.cx.bad.borrow_mut();
        *b = Some(format!("{what} of {self:?}"));
        drop(b);
        std::panic::panic_any(ContractPanic)
    }
    fn get(self, i: usize) -> Self {
        match self.st.kid(self.node, i) {
            Some(node) => Vh { node, ..self },
            None => self.bad("nonexistent child"),
        }
    }
    fn tree<T>(self, f: impl FnOnce(Option<&Tree>, &VNode) -> T) -> T {
        let v = self.st.nodes.borrow();
        let n = &v[self.node as usize];
        f(n.tree.as_ref(), n)
    }
}

impl<'d> PrettyDoc<'d> for Vh<'d> {
    type Id = u64;
    type Style = SimStyle;
    type StyleLabel = u8;
    type Condition = u8;
    type Error = SimErr;
    fn id(self) -> Result<u64, SimErr> {
        self.hit(1);
        Ok(self.node as u64)
    }
    fn notation(self) -> Result<&'d ValidNotation<u8, u8>, SimErr> {
        self.hit(2);
        let v = &self.st.v;
        Ok(&self.st.notes[self.tree(|t, _| match t {
            Some(t) => t.n,
            None if v.soft => VSEQ,
            None => HARD,
        })])
    }
    fn condition(self, c: &u8) -> Result<bool, SimErr> {
        self.hit(3);
        Ok(self.tree(|t, _| t.map_or(0, |t| t.c)) >> (c % 8) & 1 == 1)
    }
    fn lookup_style(self, _: u8) -> Result<SimStyle, SimErr> {
        self.hit(4);
        Ok(SimStyle(vec![]))
    }
    fn node_style(self) -> Result<SimStyle, SimErr> {
        self.hit(5);
        Ok(SimStyle(vec![]))
    }
    fn num_children(self) -> Result<Option<usize>, SimErr> {
        self.hit(6);
        Ok(self.tree(|t, n| match t {
            Some(t) if t.t.is_some() => None,
            _ => Some(n.kids.len()),
        }))
    }
    fn unwrap_text(self) -> Result<&'d str, SimErr> {
        self.hit(7);
        let mut ts = self.st.texts.borrow_mut();
        if let Some(t) = ts.iter().find(|x| x.0 == self.node) {
            return Ok(t.1);
        }
        let Some(s) = self.tree(|t, _| t.and_then(|t| t.t.clone())) else {
            drop(ts);
            self.bad("text");
        };
        let s: &'static str = Box::leak(s.into_boxed_str());
        ts.push((self.node, s));
        Ok(s)
    }
    fn unwrap_child(self, i: usize) -> Result<Self, SimErr> {
        self.hit(8);
        Ok(self.get(i))
    }
    fn unwrap_last_child(self) -> Result<Self, SimErr> {
        self.hit(9);
        let n = self.tree(|_, n| n.kids.len());
        if n == 0 {
            self.bad("last child");
        }
        Ok(self.get(n - 1))
    }
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, SimErr> {
        self.hit(10);
        let ok = self.tree(|_, n| n.parent == parent.node && n.index == i + 1);
        if !ok {
            self.bad("previous sibling");
        }
        Ok(parent.get(i))
    }
}

/// The rows of a `Virtual`, computed from its definition.
struct Rows<'a> {
    v: &'a Virtual,
    w: u64,
    notes: Vec<Note>,
}

impl Rows<'_> {
    fn small(&self, seed: u64, indent_cols: usize) -> Option<(Model, Tree)> {
        let t = self.v.bottom(seed);
        let mut notes = self.notes.clone();
        notes.push(indent(
            " ".repeat(indent_cols),
            None,
            cat(vec![Note::Nl, Note::Child(0)]),
        ));
        let spec = DocSpec {
            vers: vec![Tree {
                n: notes.len() - 1,
                t: None,
                k: vec![t.clone()],
                c: 0,
                s: false,
            }],
            notes,
        };
        let st = Store::build(&spec, 0)?;
        let m = layout(&st, 0, self.w, &[], 100_000);
        (!m.too_big).then_some((m, t))
    }
    fn frame(&self) -> (&'static str, &'static str, usize) {
        if self.v.soft {
            ("[", "]", 2)
        } else {
            ("(", ")", 1)
        }
    }
    fn fwd(&self, seed: u64, level: usize, ind: usize, suffix: &str, out: &mut Vec<String>, k: usize) {
        if out.len() >= k {
            return;
        }
        if level == self.v.depth {
            if let Some((m, _)) = self.small(seed, ind) {
                let n = m.lines.len();
                for (i, l) in m.lines.iter().enumerate().skip(1) {
                    let s = if i + 1 == n { suffix } else { "" };
                    out.push(format!("{}{s}", l.text));
                }
            }
            return;
        }
        let (a, z, step) = self.frame();
        out.push(format!("{}{a}", " ".repeat(ind)));
        let n = self.v.fan(seed);
        for i in 0..n {
            if out.len() >= k {
                return;
            }
            let s = self.sep(i, n);
            self.fwd(self.v.kid(seed, i), level + 1, ind + step, s, out, k);
        }
        out.push(format!("{}{z}{suffix}", " ".repeat(ind)));
    }
    fn bwd(&self, seed: u64, level: usize, ind: usize, suffix: &str, out: &mut Vec<String>, k: usize) {
        if out.len() >= k {
            return;
        }
        if level == self.v.depth {
            if let Some((m, _)) = self.small(seed, ind) {
                let n = m.lines.len();
                for (i, l) in m.lines.iter().enumerate().skip(1).rev() {
                    let s = if i + 1 == n { suffix } else { "" };
                    out.push(format!("{}{s}", l.text));
                }
            }
            return;
        }
        let (a, z, step) = self.frame();
        out.push(format!("{}{z}{suffix}", " ".repeat(ind)));
        let n = self.v.fan(seed);
        for i in (0..n).rev() {
            if out.len() >= k {
                return;
            }
            let s = self.sep(i, n);
            self.bwd(self.v.kid(seed, i), level + 1, ind + step, s, out, k);
        }
        out.push(format!("{}{a}", " ".repeat(ind)));
    }
    fn sep(&self, i: usize, n: usize) -> &'static str {
        if self.v.soft && i + 1 < n {
            ","
        } else {
            ""
        }
    }

    /// (lines above, nearest first; left part; right part; lines below), or why not.
    #[allow(clippy::type_complexity)]
    fn around(
        &self,
        path: &[usize],
        tg: Target,
        up: usize,
        down: usize,
    ) -> Result<(Vec<String>, String, String, Vec<String>), Option<crate::model::Miss>> {
        use crate::model::Miss;
        let (mut seed, mut level, mut ind) = (self.v.root(), 0, 0);
        let mut suffix = "";
        // (seed, level, indentation, suffix, index taken)
        let mut above: Vec<(u64, usize, usize, &str, usize)> = Vec::new();
        let mut rest = path;
        while level < self.v.depth {
            let Some((i, more)) = rest.split_first() else {
                break;
            };
            let n = self.v.fan(seed);
            if *i >= n {
                return Err(Some(Miss::InvalidPath(*i)));
            }
            above.push((seed, level, ind, suffix, *i));
            suffix = self.sep(*i, n);
            ind += self.frame().2;
            seed = self.v.kid(seed, *i);
            level += 1;
            rest = more;
        }
        let (mut ups, mut downs) = (Vec::new(), Vec::new());
        let (l, r);
        if level < self.v.depth {
            let (a, z, step) = self.frame();
            let soft = self.v.soft;
            let sp = " ".repeat(ind);
            match tg {
                Target::Start | Target::Mark => {
                    if tg == Target::Mark {
                        if soft {
                            return Err(Some(Miss::Mark));
                        }
                        (l, r) = (format!("{sp}{a}"), String::new());
                    } else {
                        (l, r) = (sp, a.to_string());
                    }
                    let n = self.v.fan(seed);
                    for i in 0..n {
                        let s = self.sep(i, n);
                        self.fwd(self.v.kid(seed, i), level + 1, ind + step, s, &mut downs, down);
                    }
                    downs.push(format!("{}{z}{suffix}", " ".repeat(ind)));
                }
                Target::End => {
                    (l, r) = (format!("{sp}{z}"), suffix.to_string());
                    let n = self.v.fan(seed);
                    for i in (0..n).rev() {
                        let s = self.sep(i, n);
                        self.bwd(self.v.kid(seed, i), level + 1, ind + step, s, &mut ups, up);
                    }
                    ups.push(format!("{}{a}", " ".repeat(ind)));
                }
                Target::Text(_) => return Err(Some(Miss::Text)),
            }
        } else {
            let Some((m, _)) = self.small(seed, ind) else {
                return Err(None);
            };
            let mut p = vec![0];
            p.extend_from_slice(rest);
            let (row, byte) = m.locate(&p, tg).map_err(Some)?;
            let n = m.lines.len();
            let (a, b) = m.lines[row].text.split_at(byte);
            l = a.to_string();
            r = format!("{b}{}", if row + 1 == n { suffix } else { "" });
            for x in m.lines[1..row].iter().rev() {
                ups.push(x.text.clone());
            }
            for (i, x) in m.lines.iter().enumerate().skip(row + 1) {
                downs.push(format!("{}{}", x.text, if i + 1 == n { suffix } else { "" }));
            }
        }
        for (seed, level, ind, suffix, i) in above.into_iter().rev() {
            let (a, z, step) = self.frame();
            let n = self.v.fan(seed);
            for j in (0..i).rev() {
                let s = self.sep(j, n);
                self.bwd(self.v.kid(seed, j), level + 1, ind + step, s, &mut ups, up);
            }
            ups.push(format!("{}{a}", " ".repeat(ind)));
            for j in i + 1..n {
                let s = self.sep(j, n);
                self.fwd(self.v.kid(seed, j), level + 1, ind + step, s, &mut downs, down);
            }
            downs.push(format!("{}{z}{suffix}", " ".repeat(ind)));
        }
        ups.truncate(up);
        downs.truncate(down);
        Ok((ups, l, r, downs))
    }
}

// ---------------------------------------------------------------- generation

fn pane_kind(r: &mut Rng) -> PaneKind {
    *r.pick(&[
        PaneKind::Plain,
        PaneKind::Plain,
        PaneKind::VertDynamic,
        PaneKind::HorzDynamic,
    ])
}

fn some_pulls(r: &mut Rng, max: usize) -> Vec<bool> {
    let up = *r.pick(&[0, 30, 50, 70, 100]);
    let n = r.skewed(max);
    (0..n).map(|_| r.pct(up)).collect()
}

fn tgt(r: &mut Rng) -> Target {
    match r.below(10) {
        0..=3 => Target::Start,
        4 | 5 => Target::End,
        6 | 7 => Target::Mark,
        _ => Target::Text(r.skewed(6)),
    }
}

pub fn gen(r: &mut Rng) -> Sc {
    match r.below(20) {
        0..=10 => {
            let b = *r.pick(&[60, 150, 400, 1000, 2000]);
            let depth = r.range(2, 14);
            let seq = *r.pick(&[0, 30, 80]);
            let top = *r.pick(&[SEQ, HARD, LINES, MARKED, LED]);
            let listed = r.pct(50);
            let mut t = tree(r, b, depth, seq, listed && top == SEQ);
            if listed {
                // a long list of such things
                let n = r.range(2, 40);
                let mut k: Vec<Tree> = (0..n)
                    .map(|_| {
                        let (b, d) = (r.range(1, 60), r.range(1, 6));
                        tree(r, b, d, seq, top == SEQ)
                    })
                    .collect();
                let at = r.below(n);
                k[at] = t;
                t = Tree {
                    n: top,
                    t: None,
                    k,
                    c: 0,
                    s: false,
                };
            }
            let w = *r.pick(&[1, 5, 8, 10, 12, 16, 20, 30]);
            let bad = *r.pick(&[0, 3, 20]);
            let mut path = crate::gen::path(r, &t, bad);
            if r.pct(30) {
                path.truncate(r.below(path.len() + 1));
            }
            Sc::Outage {
                doc: DocSpec {
                    notes: notes(),
                    vers: vec![t],
                },
                w,
                path,
                tg: tgt(r),
                pulls: some_pulls(r, 30),
                defaults: r.pct(40),
                pane: r
                    .pct(25)
                    .then(|| (r.range(1, 12) as u32, r.below(1001) as u16, pane_kind(r))),
            }
        }
        11..=17 => {
            let dm = *r.pick(&[6, 12, 40]);
            let depth = r.range(2, dm);
            let soft = r.pct(50);
            let min_fan = if soft { 2 } else { *r.pick(&[1, 2, 2, 2, 3]) };
            let fm = *r.pick(&[2, 4, 12]);
            let v = Virtual {
                seed: r.next(),
                depth,
                min_fan,
                max_fan: min_fan + r.below(fm),
                soft,
            };
            let mut path = Vec::new();
            let mut s = v.root();
            let stop = r.range(0, depth);
            let way = r.below(4);
            for _ in 0..stop {
                let n = v.fan(s);
                let i = match way {
                    0 => 0,
                    1 => n - 1,
                    _ => r.below(n),
                };
                path.push(i);
                s = v.kid(s, i);
            }
            if stop == depth {
                let t = v.bottom(s);
                path.extend(crate::gen::path(r, &t, 3));
            } else if r.pct(3) {
                path.push(v.fan(s));
            }
            Sc::Huge {
                v,
                w: *r.pick(&[1, 5, 10, 20, 40, 80, 100]),
                path,
                tg: tgt(r),
                pulls: some_pulls(r, 60),
                pane: r
                    .pct(25)
                    .then(|| (r.range(1, 40) as u32, r.below(1001) as u16, pane_kind(r))),
            }
        }
        _ => {
            let (b, d) = (r.range(1, 30), r.range(1, 5));
            let t = tree(r, b, d, 30, false);
            let path = crate::gen::path(r, &t, 0);
            Sc::Tall {
                doc: DocSpec {
                    notes: notes(),
                    vers: vec![t],
                },
                w: *r.pick(&[1, 2, 10, 30, 80]),
                h: *r.pick(&[
                    1000,
                    65_535,
                    65_536,
                    1_000_000,
                    100_000_000,
                    u32::MAX - 1,
                    u32::MAX,
                ]),
                fh: *r.pick(&[0, 1, 500, 999, 1000]),
                path,
                kind: pane_kind(r),
            }
        }
    }
}

// ---------------------------------------------------------------- execution

/// Nodes that a print of these rows has no business with.
fn far(st: &Store, m: &Model, path: &[usize], rows: (i64, i64), w: u64) -> Vec<bool> {
    let nodes = &st.vers[0].nodes;
    let n = nodes.len();
    let mut near = vec![false; n];
    let mut cur = 0u32;
    let mut on_path = vec![0u32];
    for i in path {
        let kids = &nodes[cur as usize].kids;
        match kids.get(*i) {
            Some(k) => cur = *k,
            None => break,
        }
        on_path.push(cur);
    }
    // The second item hangs on a choice, which might hold what is looked for in this node.
    if nodes[cur as usize].note == TAIL {
        if let Some(k) = nodes[cur as usize].kids.get(1) {
            near[*k as usize] = true;
        }
    }
    let mut place = vec![(i64::MAX, i64::MIN); n];
    for i in &m.insts {
        place[i.node as usize] = (i.start.0 as i64, i.end.0 as i64);
    }
    for (i, (a, b)) in place.iter().enumerate() {
        near[i] |= *a <= rows.1 + 1 && *b >= rows.0 - 1;
    }
    for k in &on_path {
        near[*k as usize] = true;
    }
    // The second item hangs on a choice, which might hold what is looked for in this node.
    if nodes[cur as usize].note == TAIL {
        if let Some(k) = nodes[cur as usize].kids.get(1) {
            near[*k as usize] = true;
        }
    }
    let mut place = vec![(i64::MAX, i64::MIN); n];
    for i in &m.insts {
        place[i.node as usize] = (i.start.0 as i64, i.end.0 as i64);
    }
    // What is displayed in or next to the requested rows, or in the line in which a node on the
    // path starts.
    let starts: Vec<i64> = on_path.iter().map(|k| place[*k as usize].0).collect();
    for (i, (a, b)) in place.iter().enumerate() {
        near[i] |= *a <= rows.1 + 1 && *b >= rows.0 - 1;
        near[i] |= starts.iter().any(|s| (*a..=*b).contains(s));
    }
    for k in &on_path {
        near[*k as usize] = true;
    }
    // Where something starts in its line depends on what ends in that line.
    let mut known = std::collections::HashSet::new();
    loop {
        let new: Vec<i64> = (0..n)
            .filter(|i| near[*i] && place[*i].0 != i64::MAX && known.insert(place[*i].0))
            .map(|i| place[i].0)
            .collect();
        if new.is_empty() {
            break;
        }
        for (i, (_, b)) in place.iter().enumerate() {
            near[i] |= new.contains(b);
        }
    }
    // look-ahead from the start of anything near
    let ahead = 2 * w as i64 + 4;
    let mut starts: Vec<i64> = (0..n).filter(|i| near[*i]).map(|i| place[i].0).collect();
    starts.sort();
    starts.dedup();
    let look: Vec<bool> = (0..n)
        .map(|i| {
            let s = place[i].0;
            near[i] || {
                let k = starts.partition_point(|x| *x <= s);
                k > 0 && s - starts[k - 1] <= ahead
            }
        })
        .collect();
    (0..n)
        .map(|i| {
            let p = nodes[i].parent;
            !(near[i] || look[p as usize])
        })
        .collect()
}

fn pane_scene(w: u16, h: u32, fh: u16, path: &[usize], tg: Target, kind: PaneKind) -> Scene {
    Scene {
        pane: match kind {
            PaneKind::Plain => P::Doc(0),
            PaneKind::VertDynamic => P::Vert(vec![(Sz::D, P::Doc(0)), (Sz::P(1), P::Fill('.'))]),
            PaneKind::HorzDynamic => P::Horz(vec![(Sz::D, P::Doc(0)), (Sz::P(1), P::Fill('.'))]),
        },
        contents: vec![Some(Content {
            doc: 0,
            path: path.to_vec(),
            tg,
            fh,
            ws: Ws::Fixed(w),
            focus: true,
        })],
        w: w.max(4),
        h,
        tags: false,
    }
}

fn row_range(f: usize, n: usize, h: u32, fr: u32) -> (i64, i64) {
    let lo = (f as i64 - fr as i64).max(0);
    let hi = (f as i64 + h as i64 - 1 - fr as i64).min(n as i64 - 1);
    (lo, hi)
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    match sc {
        Sc::Outage {
            doc,
            w,
            path,
            tg,
            pulls,
            defaults,
            pane,
        } => outage(doc, *w, path, *tg, pulls, *defaults, *pane, stats),
        Sc::Huge {
            v,
            w,
            path,
            tg,
            pulls,
            pane,
        } => huge(v, *w, path, *tg, pulls, *pane, stats),
        Sc::Tall {
            doc,
            w,
            h,
            fh,
            path,
            kind,
        } => tall(doc, *w, *h, *fh, path, *kind, stats),
    }
}

#[allow(clippy::too_many_arguments)]
fn outage(
    doc: &DocSpec,
    w: u16,
    path: &[usize],
    tg: Target,
    pulls: &[bool],
    defaults: bool,
    pane: Option<(u32, u16, PaneKind)>,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    // (the argument about look-ahead is about these notations)
    if doc.notes != notes() || doc.vers.len() != 1 {
        return Err(Verdict::Skip("other notations"));
    }
    fn odd(t: &Tree) -> bool {
        let soft = matches!(t.n, SEQ | VSEQ | PAIR);
        let hard = |k: &Tree| matches!(k.n, HARD | LINES | MARKED | INLINE | TAIL | LED);
        (soft && t.t.is_none() && t.k.iter().any(hard))
            || t.t.as_ref().is_some_and(|t| cols(t) == 0)
            || (t.t.is_none() && t.k.is_empty())
            || t.k.iter().any(odd)
    }
    if odd(&doc.vers[0]) {
        return Err(Verdict::Skip("empty text"));
    }
    let Some(st) = Store::build(doc, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let mut models = Models::new(&st);
    let Some(m) = models.get(0, w, false) else {
        return Err(Verdict::Skip("no model"));
    };
    let cx = Ctx::default();
    let place = m.locate(path, tg);
    // Opening at a target that is not there is only allowed to look at what is near the path.
    let f = match &place {
        Ok(p) => *p,
        Err(_) => {
            let mut p = path.to_vec();
            loop {
                match m.locate(&p, Target::Start) {
                    Ok(x) => break x,
                    Err(_) => {
                        p.pop();
                    }
                }
            }
        }
    };
    let rows = if let (Some((h, fh, _)), Ok(_)) = (pane, &place) {
        let Some(fr) = panes::focus_row(fh, h) else {
            return Err(Verdict::Skip("near tie"));
        };
        row_range(f.0, m.lines.len(), h, fr)
    } else {
        let ups = pulls.iter().filter(|u| **u).count() as i64;
        let downs = pulls.len() as i64 - ups;
        if place.is_ok() {
            (f.0 as i64 - ups, f.0 as i64 + downs)
        } else {
            (f.0 as i64, f.0 as i64)
        }
    };
    let down = far(&st, &m, path, rows, w as u64);
    let n_down = down.iter().filter(|d| **d).count() as u64;
    *cx.down.borrow_mut() = Some(Arc::new(down));
    stats.add("nodes_out_of_service", n_down);
    let mut delivered = 0;
    if let Some((h, fh, kind)) = pane {
        let s = pane_scene(w, h, fh, path, tg, kind);
        let mut ms = vec![models];
        let want = panes::compose(&s, &[0], &mut ms);
        let shot = display(&s, &[&st], &cx, defaults, WinPlan::default(), 1_000_000, false);
        stats.ctx(&cx);
        match (&shot.result, want) {
            (Err(PErr::Print(RErr::Doc(e))), _) => {
                return fail(
                    "too-far",
                    format!("displaying rows {rows:?} of {} with the focus in row {} at width {w} asked node {} ({:?}), which is far away", m.lines.len(), f.0, e.node, e.what),
                );
            }
            (_, Err(panes::Bad::Skip(_))) => return Err(Verdict::Skip("frame not modelled")),
            (Err(e), Err(panes::Bad::Err(x))) if *e == x => (),
            (Ok(()), Ok(fr)) => {
                if let Some(d) = fr.compare(&shot.events) {
                    return fail("frame", d);
                }
                delivered = (rows.1 - rows.0 + 1) as u64;
            }
            (r, w) => {
                return fail(
                    "result",
                    format!("display gave {r:?}, expected {:?}", w.map(|_| "a frame")),
                )
            }
        }
        stats.add("pane_displays", 1);
    } else {
        let mut cl = Client::new(&st, &cx, defaults);
        let o = cl.step(&Op::Open {
            s: 0,
            w,
            path: path.to_vec(),
            tg,
            root: false,
        });
        let blame = |o: &Out, what: String| -> Result<(), Verdict> {
            match o {
                Out::Err(RErr::Doc(e)) => fail(
                    "too-far",
                    format!("{what} at width {w} asked node {} ({:?}), which is far away", e.node, e.what),
                ),
                Out::Crash(c) => fail("panic", format!("{what}: {c:?}")),
                o => fail("result", format!("{what}: {}", o.short())),
            }
        };
        match (&o, &place) {
            (Out::Focus(l, r), Ok(p)) => {
                let (a, b) = m.lines[p.0].split(p.1);
                if l.text != a.text || r.text != b.text {
                    return blame(&o, format!("opening at {path:?} {tg:?}"));
                }
                delivered += 1;
            }
            (Out::Err(e), Err(miss)) if *e == expected_error(miss) => {
                if let Some(e) = cx.fired.borrow().first() {
                    let (n, k) = (e.node, e.what);
                    return fail("too-far", format!("opening at {path:?} {tg:?} at width {w} asked node {n} ({k:?}), which is far away"));
                }
                stats.add("refused_opens", 1);
                stats.ctx(&cx);
                stats.nontrivial = n_down >= 20;
                return Ok(());
            }
            _ => {
                return blame(
                    &o,
                    format!("opening at {path:?} {tg:?} (row {} of {})", f.0, m.lines.len()),
                )
            }
        }
        let (mut u, mut d) = (f.0 as i64 - 1, f.0 as i64 + 1);
        for up in pulls {
            let (o, at) = if *up {
                (cl.step(&Op::Up(0)), &mut u)
            } else {
                (cl.step(&Op::Down(0)), &mut d)
            };
            let want = usize::try_from(*at).ok().and_then(|i| m.lines.get(i));
            match (&o, want) {
                (Out::Line(l), Some(x)) if l.text == x.text => delivered += 1,
                (Out::End, None) => continue,
                _ => {
                    return blame(
                        &o,
                        format!("pulling row {at} of {} with the focus in row {}", m.lines.len(), f.0),
                    )
                }
            }
            *at += if *up { -1 } else { 1 };
        }
        stats.ctx(&cx);
    }
    // (also when its failure made no difference to the result)
    if let Some(e) = cx.fired.borrow().first() {
        return fail(
            "too-far",
            format!("rows {rows:?} of {} with the focus in row {} at width {w}: asked node {} ({:?}), which is far away", m.lines.len(), f.0, e.node, e.what),
        );
    }
    stats.add("lines_checked", delivered);
    stats.nontrivial = delivered >= 3 && n_down >= 20;
    Ok(())
}

/// Accesses allowed for so many requested lines.
fn allowance(v: &Virtual, levels: u64, lines: u64, w: u64) -> u64 {
    // Every level entered expands one list; every line may enter a small tree, each of whose
    // choices may look ahead over the width.
    let per_level = 24 * (v.max_fan as u64 + 2) + 40 * (w + 4).min(40);
    let per_line = 4000;
    (levels + 1) * per_level + (lines + 4) * (per_line + per_level) + 2000
}

fn huge(
    v: &Virtual,
    w: u16,
    path: &[usize],
    tg: Target,
    pulls: &[bool],
    pane: Option<(u32, u16, PaneKind)>,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    if v.depth == 0 || v.min_fan == 0 || v.max_fan < v.min_fan || v.max_fan > 40 || v.depth > 60 || w > 120 || (v.soft && v.min_fan < 2) {
        return Err(Verdict::Skip("out of range"));
    }
    let (mut ups, mut downs) = (
        pulls.iter().filter(|u| **u).count(),
        pulls.iter().filter(|u| !**u).count(),
    );
    let mut fr = 0;
    if let Some((h, fh, _)) = pane {
        let Some(x) = panes::focus_row(fh, h) else {
            return Err(Verdict::Skip("near tie"));
        };
        fr = x;
        ups = fr as usize;
        downs = (h - 1 - fr) as usize;
    }
    let rows = Rows {
        v,
        w: w as u64,
        notes: notes(),
    };
    let want = rows.around(path, tg, ups, downs);
    if let Err(None) = want {
        return Err(Verdict::Skip("not modelled"));
    }
    // Levels that can be entered: the path, and downward into everything between the lines.
    let lines = (ups + downs) as u64;
    let limit = allowance(v, path.len() as u64, lines, w as u64);
    let Some(st) = VStore::new(v, limit) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    let doc = Vh { st: &st, node: 0 };
    let _scope = Scope::new(&st.cx);
    let over = |what: String| -> Result<(), Verdict> {
        fail(
            "work",
            format!("{what} took more than {limit} document accesses (depth {}, fan-out up to {}, width {w}, {lines} lines)", v.depth, v.max_fan),
        )
    };
    let mut delivered = 0u64;
    if let Some((h, fh, kind)) = pane {
        let log = RefCell::new(Vec::new());
        let mut win = panes::SimWindow {
            size: Size {
                width: w.max(4),
                height: h,
            },
            log: &log,
            calls: Default::default(),
            plan: WinPlan::default(),
            budget: 1_000_000,
            cx: &st.cx,
            forget: false,
        };
        let d = || PaneNotation::Doc { label: 0u32 };
        let f = || PaneNotation::Fill { ch: '.' };
        let note: PaneNotation<u32, SimStyle> = match kind {
            PaneKind::Plain => d(),
            PaneKind::VertDynamic => PaneNotation::Vert(vec![
                (PaneSize::Dynamic, d()),
                (PaneSize::Proportional(1), f()),
            ]),
            PaneKind::HorzDynamic => PaneNotation::Horz(vec![
                (PaneSize::Dynamic, d()),
                (PaneSize::Proportional(1), f()),
            ]),
        };
        let options = PrintingOptions {
            focus_path: path.to_vec(),
            focus_target: tg.real(),
            focus_height: fh.min(1000) as f32 / 1000.0,
            width_strategy: WidthStrategy::Fixed(w),
            set_focus: true,
        };
        let r = catch(|| {
            display_pane(&mut win, &note, &SimStyle(vec![]), &|_| {
                Some((doc, options.clone()))
            })
        });
        stats.ctx(&st.cx);
        match (r, want) {
            (Err(Caught::Steps), _) => return over(format!("displaying {path:?} {tg:?} in {h} rows")),
            (Err(c), _) => {
                return fail("panic", format!("{c:?} {:?}", st.cx.bad.borrow()));
            }
            (Ok(Ok(())), Ok((u, l, r, dn))) => {
                let mut text = vec![String::new(); h as usize];
                for e in log.borrow().iter() {
                    if let Ev::Char { ch, row, .. } = e {
                        if let Some(t) = text.get_mut(*row as usize) {
                            t.push(*ch);
                        }
                    }
                }
                let top = if kind == PaneKind::VertDynamic {
                    0
                } else {
                    fr as usize - u.len()
                };
                let mut all: Vec<String> = u.into_iter().rev().collect();
                all.push(format!("{l}{r}"));
                all.extend(dn);
                for (i, want) in all.iter().enumerate() {
                    let got = text[top + i].trim_end_matches([' ', '.']);
                    // clipped to the window
                    let ok = want.starts_with(got)
                        && (got.len() == want.len()
                            || want[got.len()..].trim().is_empty()
                            || panes::win_cols(want) > w.max(4) as u64);
                    if !ok {
                        return fail("frame", format!("row {} is {got:?} instead of {want:?}", top + i));
                    }
                    delivered += 1;
                }
            }
            (Ok(Err(_)), Err(_)) => stats.add("refused_opens", 1),
            (Ok(r), w) => {
                return fail("result", format!("display gave {r:?}, expected {w:?}"));
            }
        }
        stats.add("pane_displays", 1);
    } else {
        let r = catch(|| pretty_print(doc, w, path, tg.real(), None));
        let (mut u, f, mut d) = match (r, &want) {
            (Err(Caught::Steps), _) => return over(format!("opening at {path:?} {tg:?}")),
            (Err(c), _) => {
                return fail("panic", format!("{c:?} {:?}", st.cx.bad.borrow()));
            }
            (Ok(Err(e)), Err(Some(miss))) => {
                stats.ctx(&st.cx);
                let e = rerr(e);
                if e != expected_error(miss) {
                    return fail("result", format!("opening at {path:?} {tg:?} gave {e:?}"));
                }
                stats.add("refused_opens", 1);
                stats.nontrivial = true;
                return Ok(());
            }
            (Ok(Err(e)), _) => return fail("result", format!("opening at {path:?} {tg:?} gave {e:?}")),
            (Ok(Ok(_)), Err(e)) => {
                return fail("result", format!("opening at {path:?} {tg:?} worked, expected {e:?}"))
            }
            (Ok(Ok(x)), Ok(_)) => x,
        };
        let (wu, wl, wr, wd) = want.unwrap();
        if f.to_left_string() != wl || f.to_right_string() != wr {
            return fail(
                "result",
                format!("focus line {:?}/{:?} instead of {wl:?}/{wr:?}", f.to_left_string(), f.to_right_string()),
            );
        }
        delivered += 1;
        let (mut nu, mut nd) = (0, 0);
        for up in pulls {
            let (r, want, n) = if *up {
                (catch(|| u.next()), &wu, &mut nu)
            } else {
                (catch(|| d.next()), &wd, &mut nd)
            };
            let r = match r {
                Err(Caught::Steps) => return over(format!("pulling line {n} {} {path:?} {tg:?}", if *up { "above" } else { "below" })),
                Err(c) => return fail("panic", format!("{c:?} {:?}", st.cx.bad.borrow())),
                Ok(r) => r,
            };
            let w: Option<&String> = want.get(*n);
            match (r, w) {
                (None, None) => (),
                (Some(Ok(l)), Some(w)) if l.to_string() == *w => {
                    delivered += 1;
                    *n += 1;
                }
                (r, w) => {
                    let g = match r {
                        None => "the end".to_string(),
                        Some(Ok(l)) => format!("{:?}", l.to_string()),
                        Some(Err(e)) => format!("{e:?}"),
                    };
                    return fail("result", format!("line {n}: {g} instead of {w:?}"));
                }
            }
        }
        stats.ctx(&st.cx);
    }
    if std::env::var("C08_CAL").is_ok() {
        eprintln!("{} {}", st.accesses.get() * 1000 / limit, st.accesses.get());
    }
    stats.add("lines_checked", delivered);
    stats.add("virtual_documents", 1);
    stats.nontrivial = delivered >= 3;
    Ok(())
}

fn tall(
    doc: &DocSpec,
    w: u16,
    h: u32,
    fh: u16,
    path: &[usize],
    kind: PaneKind,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    let Some(st) = Store::build(doc, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    if !st.well_formed(0) || gen_size(&doc.vers[0]) > 60 {
        return Err(Verdict::Skip("ill-formed"));
    }
    let cx = Ctx::default();
    cx.limit.set(100_000);
    let mut s = pane_scene(w, h, fh, path, Target::Start, kind);
    if let P::Vert(v) | P::Horz(v) = &mut s.pane {
        v.pop();
    }
    let a0 = crate::alloc::bytes();
    let shot = display(&s, &[&st], &cx, false, WinPlan::default(), 500, true);
    let bytes = crate::alloc::bytes() - a0;
    stats.ctx(&cx);
    stats.add("tall_windows", 1);
    match &shot.result {
        Ok(()) | Err(PErr::Window(_)) => (),
        Err(PErr::Crash(Caught::Steps)) => {
            return fail("work", format!("displaying {} nodes in {h} rows took 100000 steps before 500 cells were drawn", gen_size(&doc.vers[0])));
        }
        Err(PErr::Print(RErr::InvalidPath(_))) => (),
        Err(e) => return fail("result", format!("{e:?}")),
    }
    if bytes > 4_000_000 {
        return fail("work", format!("displaying {} nodes in {h} rows allocated {bytes} bytes before 500 cells were drawn", gen_size(&doc.vers[0])));
    }
    stats.nontrivial = shot.calls >= 3;
    Ok(())
}

fn gen_size(t: &Tree) -> usize {
    crate::gen::tree_size(t)
}
