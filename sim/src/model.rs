//! The reference model: one straightforward left-to-right layout of the whole document, with
//! 64-bit columns, no laziness, no focus and no shared code with the crate under test.

use crate::simdoc::{label_token, node_token, Store, StyleTable};
use crate::spec::*;
use std::collections::HashMap;
use std::rc::Rc;

/// A line as the simulator sees it: its text and its maximal runs of equally styled characters.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RLine {
    pub text: String,
    /// (length in bytes, style)
    pub runs: Vec<(usize, Rc<Vec<u32>>)>,
}

impl RLine {
    pub fn push(&mut self, s: &str, style: &Rc<Vec<u32>>) {
        if s.is_empty() {
            return;
        }
        self.text.push_str(s);
        if let Some(last) = self.runs.last_mut() {
            if *last.1 == **style {
                last.0 += s.len();
                return;
            }
        }
        self.runs.push((s.len(), style.clone()));
    }

    pub fn append(&mut self, o: &RLine) {
        let mut at = 0;
        for (n, st) in &o.runs {
            self.push(&o.text[at..at + n], st);
            at += n;
        }
    }

    /// The part before and after byte `b`.
    pub fn split(&self, b: usize) -> (RLine, RLine) {
        let (mut l, mut r) = (RLine::default(), RLine::default());
        let mut at = 0;
        for (n, st) in &self.runs {
            let (s, e) = (at, at + n);
            at = e;
            if e <= b {
                l.push(&self.text[s..e], st);
            } else if s >= b {
                r.push(&self.text[s..e], st);
            } else {
                l.push(&self.text[s..b], st);
                r.push(&self.text[b..e], st);
            }
        }
        (l, r)
    }

    pub fn chars(&self) -> Vec<(char, Rc<Vec<u32>>)> {
        let mut v = Vec::new();
        let mut at = 0;
        for (n, st) in &self.runs {
            for c in self.text[at..at + n].chars() {
                v.push((c, st.clone()));
            }
            at += n;
        }
        v
    }
}

pub type Place = (usize, usize); // (row, byte in row)

#[derive(Clone, Debug)]
pub struct Inst {
    pub node: u32,
    pub parent: u32,
    pub index: usize,
    pub start: Place,
    pub end: Place,
    /// Sequence number of its start among all layout events.
    pub seq: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Miss {
    InvalidPath(usize),
    Mark,
    Text,
}

#[derive(Debug, Default)]
pub struct Model {
    pub lines: Vec<RLine>,
    /// The first row in which text follows an end-of-line mark, if any.
    pub eol_row: Option<usize>,
    /// All such rows.
    pub bad_rows: Vec<usize>,
    pub insts: Vec<Inst>,
    /// (node, place, seq)
    marks: Vec<(u32, Place, usize)>,
    texts: Vec<(u32, Place, usize, String)>,
    pub too_big: bool,
    /// Numbers of choices resolved each way (reach statistics).
    pub first_opts: u64,
    pub second_opts: u64,
    /// Elementary steps taken, looking ahead included.
    pub work: u64,
}

struct Ind<'a> {
    s: &'a str,
    style: u32,
    up: Option<Rc<Ind<'a>>>,
}

impl Drop for Ind<'_> {
    fn drop(&mut self) {
        // not recursively: documents may be deep
        let mut up = self.up.take();
        while let Some(n) = up {
            match Rc::try_unwrap(n) {
                Ok(mut n) => up = n.up.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Copy)]
struct Join<'a> {
    k: usize,
    first: &'a Note,
    join: &'a Note,
}

#[derive(Clone)]
struct Item<'a> {
    what: What<'a>,
    node: u32,
    flat: bool,
    ind: Option<Rc<Ind<'a>>>,
    style: u32,
    join: Option<Join<'a>>,
}

#[derive(Clone, Copy)]
enum What<'a> {
    Note(&'a Note),
    /// The node's own notation starts (a child instance of `parent`'s `index`th child).
    Node { parent: u32, index: usize },
    EndInst(usize),
}

/// The elementary steps both the layout and the look-ahead are made of.
enum Step<'a> {
    Nothing,
    Text(&'a str, bool),
    Newline,
    Eol,
    Mark,
    Pick(Item<'a>, Item<'a>),
    /// Continue with these, first one first.
    More(Vec<Item<'a>>),
}

struct M<'a> {
    st: &'a Store,
    ver: usize,
    styles: StyleTable,
    ahead: u64,
}

impl<'a> M<'a> {
    fn step(&mut self, it: &Item<'a>) -> Step<'a> {
        let with = |n: &'a Note| Item {
            what: What::Note(n),
            ..it.clone()
        };
        let nd = &self.st.vers[self.ver].nodes[it.node as usize];
        let kids = nd.kids.len();
        let norm = |i: i64| (if i < 0 { i + kids as i64 } else { i }) as usize;
        let note = match it.what {
            What::EndInst(_) => return Step::Nothing,
            What::Node { .. } => {
                let style = if nd.styled {
                    self.styles.push(it.style, node_token(it.node))
                } else {
                    it.style
                };
                return Step::More(vec![Item {
                    what: What::Note(&self.st.specs[nd.note]),
                    style,
                    join: None,
                    ..it.clone()
                }]);
            }
            What::Note(n) => n,
        };
        let child = |i: usize| Item {
            what: What::Node {
                parent: it.node,
                index: i,
            },
            node: nd.kids[i],
            join: None,
            ..it.clone()
        };
        match note {
            Note::Empty => Step::Nothing,
            Note::Nl => Step::Newline,
            Note::Eol => Step::Eol,
            Note::Lit(s) => Step::Text(s, false),
            Note::Text => Step::Text(nd.text.as_deref().unwrap(), true),
            Note::Mark => Step::Mark,
            Note::Flat(n) => Step::More(vec![Item {
                flat: true,
                ..with(n)
            }]),
            Note::Indent(s, l, n) => {
                let style = match l.and_then(|l| label_token(it.node, l)) {
                    Some(t) => self.styles.push(it.style, t),
                    None => it.style,
                };
                Step::More(vec![Item {
                    ind: Some(Rc::new(Ind {
                        s,
                        style,
                        up: it.ind.clone(),
                    })),
                    ..with(n)
                }])
            }
            Note::Cat(v) | Note::CatR(v) => Step::More(v.iter().map(with).collect()),
            Note::Choice(a, b) => {
                if it.flat {
                    Step::More(vec![with(a)])
                } else {
                    Step::Pick(with(a), with(b))
                }
            }
            Note::Check(c, p, a, b) => {
                let who = match p {
                    CPos::Here => it.node,
                    CPos::Child(i) => nd.kids[norm(*i)],
                    CPos::Right => nd.kids[it.join.unwrap().k],
                    CPos::Left => nd.kids[it.join.unwrap().k - 1],
                };
                let yes = self.st.vers[self.ver].nodes[who as usize].cond >> (c % 8) & 1 == 1;
                Step::More(vec![with(if yes { a } else { b })])
            }
            Note::Child(i) => Step::More(vec![child(norm(*i))]),
            Note::Style(l, n) => Step::More(vec![Item {
                style: match label_token(it.node, *l) {
                    Some(t) => self.styles.push(it.style, t),
                    None => it.style,
                },
                ..with(n)
            }]),
            Note::Count(z, o, m) => Step::More(vec![with(match kids {
                0 => z,
                1 => o,
                _ => m,
            })]),
            Note::Fold(first, join) => match kids {
                0 => Step::Nothing,
                1 => Step::More(vec![with(first)]),
                n => Step::More(vec![Item {
                    join: Some(Join {
                        k: n - 1,
                        first,
                        join,
                    }),
                    ..with(join)
                }]),
            },
            Note::Left => {
                let j = it.join.unwrap();
                Step::More(vec![if j.k == 1 {
                    Item {
                        join: None,
                        ..with(j.first)
                    }
                } else {
                    Item {
                        join: Some(Join { k: j.k - 1, ..j }),
                        ..with(j.join)
                    }
                }])
            }
            Note::Right => Step::More(vec![child(it.join.unwrap().k)]),
        }
    }

    /// Does what follows fit on the rest of the line? `rest` is the stack below (last is first).
    fn fits(&mut self, first: Item<'a>, rest: &[Item<'a>], room: u64, mut eol: bool) -> bool {
        let mut room = room;
        let mut below = rest.iter().rev();
        let mut over = vec![first];
        loop {
            self.ahead += 1;
            let it = match over.pop() {
                Some(i) => i,
                None => match below.next() {
                    Some(i) => i.clone(),
                    None => return true,
                },
            };
            match self.step(&it) {
                Step::Nothing | Step::Mark => (),
                Step::Text(s, _) => {
                    let w = cols(s);
                    if eol || w > room {
                        return false;
                    }
                    room -= w;
                }
                Step::Newline => return true,
                Step::Eol => eol = true,
                Step::Pick(_, b) => over.push(b),
                Step::More(v) => over.extend(v.into_iter().rev()),
            }
        }
    }
}

/// Lay out version `ver` of the document. `root` are the tokens of the root style. The document
/// must be well formed.
pub fn layout(st: &Store, ver: usize, width: u64, root: &[u32], cap: usize) -> Model {
    let mut m = M {
        st,
        ver,
        styles: StyleTable::new(),
        ahead: 0,
    };
    let mut style = 0;
    for t in root {
        style = m.styles.push(style, *t);
    }
    let mut out = Model::default();
    let mut rcs: HashMap<u32, Rc<Vec<u32>>> = HashMap::new();
    let mut line = RLine::default();
    let mut col = 0u64;
    let mut eol = false;
    let mut work = 0usize;
    let mut bytes = 0usize;
    let mut seq = 0usize;
    let mut stack = vec![Item {
        what: What::Node {
            parent: u32::MAX,
            index: 0,
        },
        node: 0,
        flat: false,
        ind: None,
        style,
        join: None,
    }];
    macro_rules! rc {
        ($m:expr, $id:expr) => {
            rcs.entry($id)
                .or_insert_with(|| Rc::new($m.styles.all[$id as usize].clone()))
                .clone()
        };
    }
    while let Some(it) = stack.pop() {
        work += 1;
        out.work = work as u64 + m.ahead;
        if work > cap || m.ahead > (4 * cap as u64).max(3_000_000) || bytes > 30_000_000 {
            out.too_big = true;
            return out;
        }
        let here = (out.lines.len(), line.text.len());
        match it.what {
            What::EndInst(i) => {
                out.insts[i].end = here;
                continue;
            }
            What::Node { parent, index } => {
                out.insts.push(Inst {
                    node: it.node,
                    parent,
                    index,
                    start: here,
                    end: here,
                    seq,
                });
                seq += 1;
                stack.push(Item {
                    what: What::EndInst(out.insts.len() - 1),
                    ..it.clone()
                });
            }
            What::Note(_) => (),
        }
        match m.step(&it) {
            Step::Nothing => (),
            Step::Text(s, own) => {
                if eol {
                    // There is no such line. What follows it can still be printed, by coming
                    // from elsewhere.
                    if out.eol_row.is_none() {
                        out.eol_row = Some(out.lines.len());
                    }
                    if out.bad_rows.last() != Some(&out.lines.len()) {
                        out.bad_rows.push(out.lines.len());
                    }
                }
                if own {
                    out.texts.push((it.node, here, seq, s.to_string()));
                    seq += 1;
                }
                line.push(s, &rc!(m, it.style));
                bytes += s.len();
                col += cols(s);
            }
            Step::Newline => {
                out.lines.push(std::mem::take(&mut line));
                eol = false;
                col = 0;
                let mut parts = Vec::new();
                let mut i = it.ind.as_ref();
                while let Some(n) = i {
                    bytes += n.s.len() + 1;
                    parts.push((n.s, n.style));
                    i = n.up.as_ref();
                }
                for (s, style) in parts.into_iter().rev() {
                    line.push(s, &rc!(m, style));
                    col += cols(s);
                }
            }
            Step::Eol => eol = true,
            Step::Mark => {
                out.marks.push((it.node, here, seq));
                seq += 1;
            }
            Step::Pick(a, b) => {
                if col <= width && m.fits(a.clone(), &stack, width - col, eol) {
                    out.first_opts += 1;
                    stack.push(a);
                } else {
                    out.second_opts += 1;
                    stack.push(b);
                }
            }
            Step::More(v) => stack.extend(v.into_iter().rev()),
        }
    }
    out.lines.push(line);
    out
}

impl Model {
    /// Index of the instance displayed at `path`.
    pub fn find(&self, path: &[usize]) -> Result<usize, usize> {
        let mut cur = 0;
        for i in path {
            let node = self.insts[cur].node;
            match (cur + 1..self.insts.len())
                .find(|j| self.insts[*j].parent == node && self.insts[*j].index == *i)
            {
                Some(j) => cur = j,
                None => return Err(*i),
            }
        }
        Ok(cur)
    }

    /// Does the path lead through a node that is displayed more than once? (Then "that node" is
    /// not one place.)
    pub fn ambiguous(&self, path: &[usize]) -> bool {
        let mut cur = 0;
        for i in path {
            let node = self.insts[cur].node;
            let mut it = (cur + 1..self.insts.len())
                .filter(|j| self.insts[*j].parent == node && self.insts[*j].index == *i);
            let Some(j) = it.next() else {
                return false;
            };
            if it.next().is_some() {
                return true;
            }
            cur = j;
        }
        false
    }

    /// Where the focus belongs.
    pub fn locate(&self, path: &[usize], target: Target) -> Result<Place, Miss> {
        let i = self.find(path).map_err(Miss::InvalidPath)?;
        let inst = &self.insts[i];
        match target {
            Target::Start => Ok(inst.start),
            Target::End => Ok(inst.end),
            Target::Mark => self
                .marks
                .iter()
                .find(|(n, _, s)| *n == inst.node && *s > inst.seq)
                .map(|m| m.1)
                .ok_or(Miss::Mark),
            Target::Text(n) => {
                let t = self
                    .texts
                    .iter()
                    .find(|(k, _, s, _)| *k == inst.node && *s > inst.seq)
                    .ok_or(Miss::Text)?;
                let off = t.3.char_indices().nth(n).map_or(t.3.len(), |x| x.0);
                Ok((t.1 .0, t.1 .1 + off))
            }
        }
    }

    pub fn string(&self) -> String {
        let v: Vec<&str> = self.lines.iter().map(|l| l.text.as_str()).collect();
        v.join("\n")
    }

}
