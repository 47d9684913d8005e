//! Scenario generators: documents, notations, widths, focuses. Swarm style: every document draws
//! its own mix of features.

use crate::rng::Rng;
use crate::spec::*;
use std::collections::HashSet;

/// Feature mix of one generated document (percentages).
#[derive(Clone, Debug)]
pub struct Mix {
    pub choice: usize,
    pub flat: usize,
    pub indent: usize,
    pub style: usize,
    pub check: usize,
    pub mark: usize,
    pub nl: usize,
    pub hide: usize,
    pub dup: usize,
    pub eol: usize,
    pub wide: usize,
    pub zero_width: usize,
    pub empty_text: usize,
    pub realistic: usize,
    pub node_style: usize,
    pub max_nodes: usize,
    pub odd_join: usize,
    pub neg: usize,
    /// Nothing between what is displayed next to each other.
    pub bare: usize,
    /// Nodes that display nothing but ends of lines, marks or emptiness around their children.
    pub hollow: usize,
    pub large: Large,
}

/// Now and then, something is larger than everything else ever is.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Large {
    No,
    /// A node with hundreds of children.
    Wide,
    /// A chain of a hundred nodes and more.
    Deep,
    /// Texts of hundreds of characters.
    Text,
}

impl Large {
    /// One document in `one_in`.
    pub fn random(r: &mut Rng, one_in: usize) -> Large {
        if r.below(one_in) > 0 {
            return Large::No;
        }
        *r.pick(&[Large::Wide, Large::Wide, Large::Deep, Large::Text])
    }
}

impl Mix {
    pub fn random(r: &mut Rng) -> Mix {
        let some = |r: &mut Rng, hi: usize| if r.pct(25) { 0 } else { r.range(1, hi) };
        Mix {
            choice: some(r, 70),
            flat: some(r, 35),
            indent: some(r, 50),
            style: some(r, 50),
            check: some(r, 35),
            mark: some(r, 50),
            nl: some(r, 60),
            hide: if r.pct(30) { r.range(1, 25) } else { 0 },
            dup: if r.pct(8) { r.range(1, 20) } else { 0 },
            eol: if r.pct(25) { r.range(1, 25) } else { 0 },
            wide: if r.pct(25) { r.range(5, 60) } else { 0 },
            zero_width: if r.pct(10) { r.range(5, 30) } else { 0 },
            empty_text: if r.pct(30) { r.range(1, 30) } else { 0 },
            realistic: r.range(0, 100),
            node_style: *r.pick(&[0, 0, 50, 100]),
            max_nodes: match r.below(10) {
                0 => 1,
                1 | 2 => r.range(2, 6),
                3..=6 => r.range(4, 20),
                7 | 8 => r.range(15, 50),
                _ => r.range(40, 140),
            },
            odd_join: if r.pct(25) { r.range(1, 40) } else { 0 },
            neg: if r.pct(40) { 40 } else { 0 },
            bare: if r.pct(50) { *r.pick(&[5, 20, 50]) } else { 0 },
            hollow: if r.pct(25) { *r.pick(&[3, 15, 50]) } else { 0 },
            large: Large::No,
        }
    }
}

const NARROW: &[char] = &[
    'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'm', 'n', 'p', 'q', 'r', 's', 't', 'u',
    'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', 'é', 'ß', 'λ', 'ж', '+', '=', '<', '>', '_',
    '…', '𝒳',
];
const WIDE: &[char] = &['漢', '字', '語', '한', '글', 'あ', 'ア', 'Ｗ', '😀', '𠮷'];
const ZERO: &[char] = &['\u{301}', '\u{308}', '\u{323}', '\u{200b}'];

/// Does the simulator know how wide these characters are?
pub fn in_alphabet(s: &str) -> bool {
    s.chars().all(|c| {
        (' '..='~').contains(&c) || NARROW.contains(&c) || WIDE.contains(&c) || ZERO.contains(&c)
    })
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub m: Mix,
    lits: usize,
}

/// What kind of node a notation is for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arity {
    Text,
    Fixed(usize),
    Many,
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, m: Mix) -> Gen<'r> {
        Gen { r, m, lits: 0 }
    }

    pub fn word(&mut self, max: usize) -> String {
        if self.r.pct(self.m.empty_text) {
            return String::new();
        }
        let n = 1 + self.r.skewed(max.max(1) - 1);
        let mut s = String::new();
        if self.m.zero_width > 0 && self.r.pct(6) {
            // nothing that takes up a column
            return self.r.pick(ZERO).to_string();
        }
        for i in 0..n {
            if self.r.pct(self.m.wide) {
                s.push(*self.r.pick(WIDE));
            } else {
                s.push(*self.r.pick(NARROW));
            }
            if (i > 0 || self.r.pct(30)) && self.r.pct(self.m.zero_width) {
                s.push(*self.r.pick(ZERO));
            }
        }
        s
    }

    /// A literal that is unlikely to occur elsewhere.
    fn tag(&mut self) -> Note {
        self.lits += 1;
        let w = match self.r.below(6) {
            0 => format!("T{}", self.lits),
            1 => format!("<{}>", self.lits),
            2 => self.word(9),
            3 => (*self.r.pick(&["{", "(", "[", ":", ";", "if ", "fn "])).to_string(),
            4 => String::new(),
            _ => {
                let w = self.word(4);
                format!("k{}{}", self.lits, w)
            }
        };
        lit(w)
    }

    fn label(&mut self) -> u8 {
        self.r.below(8) as u8
    }

    fn ind_str(&mut self) -> String {
        (*self
            .r
            .pick(&["  ", "    ", " ", "// ", "| ", "", "漢", ">>>>>>>>"]))
        .to_string()
    }

    fn cond(&mut self) -> u8 {
        self.r.below(4) as u8
    }

    /// What may separate two neighbours.
    fn glue(&mut self, pos: &[CPos]) -> Note {
        let sp = |s: &mut Self| lit(*s.r.pick(&["", " ", ", ", "", " + "]));
        if self.r.pct(self.m.check) && !pos.is_empty() {
            let p = *self.r.pick(pos);
            let a = self.glue(&[]);
            let b = self.glue(&[]);
            return check(self.cond(), p, a, b);
        }
        if self.r.pct(self.m.choice) {
            let a = sp(self);
            let b = if self.r.pct(80) {
                Note::Nl
            } else {
                let s = sp(self);
                cat(vec![s, Note::Nl])
            };
            return choice(a, b);
        }
        if self.r.pct(self.m.choice / 4) {
            // text that is there only if it fits, at the end of the line
            let a = sp(self);
            return cat(vec![choice(a, Note::Empty), Note::Nl]);
        }
        if self.r.pct(self.m.eol) {
            let t = *self.r.pick(&["", ",", ";", "\\"]);
            return match self.r.below(6) {
                // whatever follows: a fit test at the end of a closed line
                0 => cat(vec![Note::Eol, choice(lit(t), Note::Empty), Note::Nl]),
                1 => cat(vec![
                    Note::Eol,
                    choice(lit(t), cat(vec![choice(lit("."), Note::Empty), Note::Nl])),
                ]),
                2 => choice(
                    lit(t),
                    cat(vec![choice(lit("~"), Note::Empty), Note::Nl]),
                ),
                3 => cat(vec![choice(lit(t), Note::Eol), Note::Nl]),
                4 => Note::Eol,
                _ => cat(vec![Note::Eol, Note::Nl]),
            };
        }
        if self.r.pct(self.m.nl) {
            return Note::Nl;
        }
        sp(self)
    }

    fn wrap(&mut self, n: Note) -> Note {
        let mut n = n;
        if self.r.pct(self.m.flat) {
            n = flat(n);
        }
        if self.r.pct(self.m.indent) {
            let l = if self.r.pct(40) {
                Some(self.label())
            } else {
                None
            };
            let s = self.ind_str();
            n = if self.r.pct(60) {
                indent(s, l, cat(vec![Note::Nl, n]))
            } else {
                indent(s, l, n)
            };
        }
        if self.r.pct(self.m.style) {
            n = styled(self.label(), n);
        }
        n
    }

    /// Display `atoms` in order, with random glue, grouping, wrapping and choices.
    fn seq(&mut self, atoms: &[Note], pos: &[CPos], depth: usize) -> Note {
        if atoms.is_empty() {
            let t = self.tag();
            return if self.r.pct(30) { Note::Empty } else { t };
        }
        if self.r.pct(self.m.hide) {
            // these are not displayed in this layout
            return self.tag();
        }
        let n = if atoms.len() == 1 || depth == 0 {
            let mut v = Vec::new();
            for (i, a) in atoms.iter().enumerate() {
                if i > 0 && !self.r.pct(self.m.bare) {
                    let g = self.glue(pos);
                    v.push(g);
                }
                if self.r.pct(20) {
                    let t = self.tag();
                    v.push(t);
                }
                v.push(if self.r.pct(30) {
                    self.wrap(a.clone())
                } else {
                    a.clone()
                });
                if self.r.pct(self.m.dup) {
                    v.push(a.clone());
                }
            }
            if self.r.pct(20) {
                let t = self.tag();
                v.push(t);
            }
            if self.r.pct(50) {
                cat(v)
            } else {
                Note::CatR(v)
            }
        } else {
            let k = self.r.range(1, atoms.len() - 1);
            let a = self.seq(&atoms[..k], pos, depth - 1);
            let mut v = vec![a];
            if !self.r.pct(self.m.bare) {
                let g = self.glue(pos);
                v.push(g);
            }
            let b = self.seq(&atoms[k..], pos, depth - 1);
            v.push(b);
            if self.r.pct(50) {
                cat(v)
            } else {
                Note::CatR(v)
            }
        };
        let n = self.wrap(n);
        if depth > 0 && self.r.pct(self.m.choice / 2) {
            let other = self.seq(atoms, pos, 0);
            let a = if self.r.pct(70) { flat(n) } else { n };
            return choice(a, other);
        }
        if depth > 0 && self.r.pct(self.m.check / 2) && !pos.is_empty() {
            let p = *self.r.pick(pos);
            let other = self.seq(atoms, pos, 0);
            return check(self.cond(), p, n, other);
        }
        n
    }

    fn text_note(&mut self) -> Note {
        let l = self.label();
        match self.r.below(10) {
            0..=2 => Note::Text,
            3 => cat(vec![lit("\""), Note::Text, lit("\"")]),
            4 => styled(l, Note::Text),
            5 if self.m.mark > 0 => {
                if self.r.pct(50) {
                    cat(vec![Note::Mark, Note::Text])
                } else {
                    cat(vec![Note::Text, Note::Mark])
                }
            }
            6 if self.m.choice > 0 => {
                let t = self.tag();
                if self.r.pct(50) {
                    choice(Note::Text, t)
                } else {
                    choice(
                        cat(vec![t, Note::Text]),
                        indent("  ", None, cat(vec![Note::Nl, Note::Text])),
                    )
                }
            }
            7 if self.m.eol > 0 => cat(vec![lit("# "), Note::Text, Note::Eol]),
            8 if self.m.check > 0 => {
                let a = self.tag();
                let c = self.cond();
                check(c, CPos::Here, Note::Text, cat(vec![a, Note::Text]))
            }
            _ if self.r.pct(50) => {
                let a = self.tag();
                let b = self.tag();
                self.wrap(cat(vec![a, Note::Text, b]))
            }
            _ => {
                // lines before and behind the text
                let mut atoms = vec![Note::Text];
                for _ in 0..self.r.range(1, 3) {
                    let t = self.tag();
                    let at = self.r.range(0, atoms.len());
                    atoms.insert(at, t);
                }
                self.maybe_mark(&mut atoms);
                let d = self.r.below(3);
                self.seq(&atoms, &[CPos::Here], d)
            }
        }
    }

    fn maybe_mark(&mut self, atoms: &mut Vec<Note>) {
        if self.r.pct(self.m.mark) {
            let at = self.r.range(0, atoms.len());
            atoms.insert(at, Note::Mark);
        }
    }

    fn fixed_note(&mut self, k: usize) -> Note {
        let mut atoms: Vec<Note> = (0..k as i64)
            .map(|i| {
                if self.r.pct(self.m.neg) {
                    Note::Child(i - k as i64)
                } else {
                    Note::Child(i)
                }
            })
            .collect();
        if self.r.pct(15) && k > 1 {
            atoms.reverse();
        }
        self.maybe_mark(&mut atoms);
        let mut pos = vec![CPos::Here];
        for i in 0..k as i64 {
            pos.push(CPos::Child(if self.r.pct(self.m.neg) {
                i - k as i64
            } else {
                i
            }));
        }
        let d = self.r.below(4);
        self.seq(&atoms, &pos, d)
    }

    /// Nothing that needs a column.
    fn hollow(&mut self) -> Note {
        match self.r.below(12) {
            0..=3 => Note::Nl,
            4 => cat(vec![Note::Nl, Note::Nl]),
            5 => Note::Empty,
            6 if self.m.mark > 0 => Note::Mark,
            7 if self.m.mark > 0 => cat(vec![Note::Nl, Note::Mark, Note::Nl]),
            8 if self.m.choice > 0 => choice(Note::Empty, Note::Nl),
            9 if self.m.eol > 0 => cat(vec![Note::Eol, Note::Nl]),
            10 => {
                let s = self.ind_str();
                indent(s, None, Note::Nl)
            }
            11 => lit(""),
            _ => Note::Nl,
        }
    }

    fn hollow_note(&mut self, a: Arity) -> Note {
        let atoms: Vec<Note> = match a {
            Arity::Text => vec![Note::Text],
            Arity::Fixed(k) => (0..k as i64).map(Note::Child).collect(),
            Arity::Many => {
                let g = self.hollow();
                vec![foldn(Note::Child(0), cat(vec![Note::Left, g, Note::Right]))]
            }
        };
        let mut v = vec![];
        for x in atoms {
            if self.r.pct(30) {
                let h = self.hollow();
                v.push(h);
            }
            v.push(x);
        }
        if v.is_empty() || self.r.pct(30) {
            let h = self.hollow();
            v.push(h);
        }
        let n = if v.len() == 1 { v.remove(0) } else { cat(v) };
        if self.r.pct(20) {
            self.wrap(n)
        } else {
            n
        }
    }

    fn join_note(&mut self) -> Note {
        let pos = [CPos::Left, CPos::Right, CPos::Here];
        if self.r.pct(self.m.odd_join) {
            return match self.r.below(8) {
                0 => {
                    let g = self.glue(&pos);
                    cat(vec![Note::Right, g, Note::Left])
                }
                1 => {
                    let l = self.label();
                    cat(vec![styled(l, Note::Left), lit("."), Note::Right])
                }
                2 => {
                    let s = self.ind_str();
                    cat(vec![Note::Left, indent(s, None, cat(vec![Note::Nl, Note::Right]))])
                }
                3 => {
                    let s = self.ind_str();
                    cat(vec![indent(s, Some(1), Note::Left), Note::Nl, Note::Right])
                }
                4 => cat(vec![flat(Note::Left), choice(lit(" "), Note::Nl), Note::Right]),
                5 => check(
                    self.cond(),
                    CPos::Right,
                    cat(vec![Note::Left, choice(lit(","), Note::Nl), Note::Right]),
                    Note::Left,
                ),
                6 => Note::Right,
                _ => check(
                    self.cond(),
                    CPos::Left,
                    cat(vec![Note::Left, lit("&"), Note::Right]),
                    cat(vec![Note::Left, Note::Nl, flat(Note::Right)]),
                ),
            };
        }
        let g = self.glue(&pos);
        let right = if self.r.pct(25) {
            self.wrap(Note::Right)
        } else {
            Note::Right
        };
        let mut v = vec![Note::Left];
        if self.r.pct(self.m.check) {
            v.push(check(self.cond(), CPos::Left, lit(","), Note::Empty));
        }
        v.push(g);
        v.push(right);
        if self.r.pct(10) && self.m.choice > 0 {
            // e.g. method chains: all on one line, or the last one indented
            return choice(
                cat(vec![Note::Left, lit(" "), flat(Note::Right)]),
                cat(vec![
                    Note::Left,
                    indent("  ", None, cat(vec![Note::Nl, Note::Right])),
                ]),
            );
        }
        if self.r.pct(50) {
            cat(v)
        } else {
            Note::CatR(v)
        }
    }

    fn fold_note(&mut self) -> Note {
        let first = if self.r.pct(20) {
            self.wrap(Note::Child(0))
        } else {
            Note::Child(0)
        };
        let join = self.join_note();
        foldn(first, join)
    }

    fn many_note(&mut self) -> Note {
        let (open, close) = *self.r.pick(&[("[", "]"), ("{", "}"), ("(", ")"), ("", ""), ("begin ", " end")]);
        match self.r.below(100) {
            // like the JSON example: all on one line, or one per line
            x if x < self.m.realistic / 2 => {
                let single = cat(vec![
                    lit(open),
                    foldn(
                        flat(Note::Child(0)),
                        cat(vec![Note::Left, lit(", "), flat(Note::Right)]),
                    ),
                    lit(close),
                ]);
                let sep = check(0, CPos::Left, lit(","), Note::Empty);
                let multi = cat(vec![
                    lit(open),
                    indent(
                        "    ",
                        None,
                        cat(vec![
                            Note::Nl,
                            foldn(
                                Note::Child(0),
                                cat(vec![Note::Left, sep, Note::Nl, Note::Right]),
                            ),
                        ]),
                    ),
                    Note::Nl,
                    lit(close),
                ]);
                let both = choice(single, multi);
                if self.r.pct(60) {
                    count(
                        cat(vec![lit(open), Note::Mark, lit(close)]),
                        both.clone(),
                        both,
                    )
                } else {
                    both
                }
            }
            // flow wrap
            x if x < self.m.realistic * 3 / 4 => {
                let body = foldn(
                    Note::Child(0),
                    cat(vec![Note::Left, choice(lit(" "), Note::Nl), Note::Right]),
                );
                if self.m.eol > 0 && self.r.pct(50) {
                    styled(
                        2,
                        cat(vec![lit("// "), indent("// ", None, body), Note::Eol]),
                    )
                } else if self.r.pct(50) {
                    cat(vec![lit(open), body, lit(close)])
                } else {
                    body
                }
            }
            // statements
            x if x < self.m.realistic => {
                let body = foldn(
                    Note::Child(0),
                    cat(vec![Note::Left, Note::Nl, Note::Right]),
                );
                if self.r.pct(50) {
                    body
                } else {
                    let l = self.label();
                    cat(vec![
                        lit("do {"),
                        indent("  ", Some(l), cat(vec![Note::Nl, body])),
                        Note::Nl,
                        lit("}"),
                    ])
                }
            }
            _ => {
                let mut atoms = vec![self.fold_note()];
                if self.r.pct(40) {
                    let t = self.tag();
                    atoms.insert(0, t);
                }
                if self.r.pct(40) {
                    let t = self.tag();
                    atoms.push(t);
                }
                self.maybe_mark(&mut atoms);
                let d = self.r.below(3);
                let many = self.seq(&atoms, &[CPos::Here], d);
                if self.r.pct(40) {
                    let z = {
                        let t = self.tag();
                        if self.r.pct(50) {
                            cat(vec![t, Note::Mark])
                        } else {
                            t
                        }
                    };
                    let many = if self.r.pct(25) {
                        // only some of the children
                        let (i, j) = *self.r.pick(&[(0, -1), (0, 1), (-2, -1), (1, -1)]);
                        let mut a = vec![Note::Child(i)];
                        if i != 1 {
                            a.push(Note::Child(j));
                        }
                        if self.r.pct(20) {
                            a.reverse();
                        }
                        self.maybe_mark(&mut a);
                        let d = self.r.below(3);
                        self.seq(&a, &[CPos::Here, CPos::Child(-1), CPos::Child(1), CPos::Child(-2)], d)
                    } else if self.r.pct(30) {
                        self.seq(&atoms, &[CPos::Here, CPos::Child(0), CPos::Child(-1), CPos::Child(1)], 2)
                    } else {
                        many
                    };
                    let one = {
                        let mut a = vec![Note::Child(if self.r.pct(50) { 0 } else { -1 })];
                        self.maybe_mark(&mut a);
                        self.seq(&a, &[CPos::Here, CPos::Child(0)], 1)
                    };
                    count(z, one, many)
                } else {
                    many
                }
            }
        }
    }

    fn valid(n: &Note) -> bool {
        n.to_real().validate().is_ok()
    }

    pub fn note(&mut self, a: Arity) -> Note {
        for _ in 0..12 {
            let n = match a {
                _ if self.r.pct(self.m.hollow) => self.hollow_note(a),
                Arity::Text => self.text_note(),
                Arity::Fixed(k) => self.fixed_note(k),
                Arity::Many => self.many_note(),
            };
            if Self::valid(&n) {
                return n;
            }
        }
        match a {
            Arity::Text => Note::Text,
            Arity::Fixed(k) => cat((0..k as i64).map(Note::Child).collect()),
            Arity::Many => foldn(
                Note::Child(0),
                cat(vec![Note::Left, Note::Nl, Note::Right]),
            ),
        }
    }

    /// A table of notations, with what each is for.
    pub fn table(&mut self) -> (Vec<Note>, Vec<Arity>) {
        let mut notes = Vec::new();
        let mut ars = Vec::new();
        let nt = self.r.range(1, 3);
        for _ in 0..nt {
            notes.push(self.note(Arity::Text));
            ars.push(Arity::Text);
        }
        let nf = self.r.range(0, 4);
        for _ in 0..nf {
            let k = self.r.below(5);
            notes.push(self.note(Arity::Fixed(k)));
            ars.push(Arity::Fixed(k));
        }
        let least = (nf == 0 || self.m.large == Large::Wide) as usize;
        let nm = self.r.range(least, 3);
        for _ in 0..nm {
            notes.push(self.note(Arity::Many));
            ars.push(Arity::Many);
        }
        (notes, ars)
    }

    pub fn tree(&mut self, ars: &[Arity], budget: usize) -> Tree {
        let mut left = budget as i64;
        let shape = self.r.below(4);
        self.tree_rec(ars, &mut left, 0, shape)
    }

    /// A document that is larger than others.
    fn large_tree(&mut self, ars: &[Arity]) -> Tree {
        let many: Vec<usize> = (0..ars.len()).filter(|i| ars[*i] == Arity::Many).collect();
        let inner: Vec<usize> = (0..ars.len())
            .filter(|i| matches!(ars[*i], Arity::Many | Arity::Fixed(1..)))
            .collect();
        let node = |g: &mut Self, n: usize, k: Vec<Tree>| Tree {
            n,
            t: None,
            k,
            c: g.r.below(16) as u8,
            s: g.r.pct(g.m.node_style),
        };
        match self.m.large {
            Large::Wide if !many.is_empty() => {
                let n = *self.r.pick(&[100, 200, 255, 256, 257, 300, 511, 513, 700, 1100]);
                let small = *self.r.pick(&[0, 0, 10, 30]);
                let k = (0..n)
                    .map(|_| {
                        let b = if self.r.pct(small) { 3 } else { 0 };
                        self.tree_rec(ars, &mut { b }, 1, 2)
                    })
                    .collect();
                let n = *self.r.pick(&many);
                let mut t = node(self, n, k);
                for _ in 0..self.r.below(3) {
                    // not always at the top
                    let n = *self.r.pick(&inner);
                    let mut k = self.siblings(ars, n);
                    let at = self.r.below(k.len());
                    k[at] = t;
                    t = node(self, n, k);
                }
                t
            }
            Large::Deep if !inner.is_empty() => {
                let depth = self.r.range(45, 300);
                let only = if self.r.pct(50) { Some(*self.r.pick(&inner)) } else { None };
                let lean = self.r.pct(60);
                let mut t = self.tree_rec(ars, &mut 4, 1, 1);
                for _ in 0..depth {
                    let n = only.unwrap_or_else(|| *self.r.pick(&inner));
                    let mut k = self.siblings(ars, n);
                    let at = if lean { k.len() - 1 } else { self.r.below(k.len()) };
                    k[at] = t;
                    t = node(self, n, k);
                }
                t
            }
            _ => self.tree(ars, 12),
        }
    }

    /// Leaves for all the children of a node with this notation, at least one.
    fn siblings(&mut self, ars: &[Arity], n: usize) -> Vec<Tree> {
        let k = match ars[n] {
            Arity::Fixed(k) => k,
            _ => self.r.range(1, 3),
        };
        (0..k).map(|_| self.tree_rec(ars, &mut 0, 1, 2)).collect()
    }

    fn tree_rec(&mut self, ars: &[Arity], left: &mut i64, depth: usize, shape: usize) -> Tree {
        *left -= 1;
        let texts: Vec<usize> = (0..ars.len()).filter(|i| ars[*i] == Arity::Text).collect();
        let others: Vec<usize> = (0..ars.len()).filter(|i| ars[*i] != Arity::Text).collect();
        let p_branch = match shape {
            0 => 60,
            1 => 80usize.saturating_sub(depth * 6),
            2 => 45,
            _ => 92usize.saturating_sub(depth * 14),
        };
        let branch = !others.is_empty() && *left > 0 && (depth == 0 || self.r.pct(p_branch));
        let c = self.r.below(16) as u8;
        let s = self.r.pct(self.m.node_style);
        if !branch || depth > 40 {
            let n = *self.r.pick(&texts);
            let long = self.m.large == Large::Text && self.r.pct(30);
            let max = if self.r.pct(85) { 8 } else { 30 };
            let t = if long {
                let w = self.r.range(2, 30);
                let w = self.word(w);
                let n = self.r.range(100, 700);
                w.chars().cycle().take(if w.is_empty() { 0 } else { n }).collect()
            } else {
                self.word(max)
            };
            return Tree {
                n,
                t: Some(t),
                k: vec![],
                c,
                s,
            };
        }
        let n = *self.r.pick(&others);
        let k = match ars[n] {
            Arity::Fixed(k) => k,
            _ => match self.r.below(10) {
                0 => 0,
                1 => 1,
                2..=5 => self.r.range(2, 4),
                6..=8 => self.r.range(3, 8),
                _ => self.r.range(5, 25),
            },
        };
        let mut kids: Vec<Tree> = Vec::new();
        for i in 0..k {
            if *left <= 0 && kids.len() > 24 {
                break;
            }
            // over budget: fill up with leaves
            let sh = if i + 1 == k && shape == 2 { 1 } else { shape };
            kids.push(self.tree_rec(ars, left, depth + 1, sh));
        }
        Tree {
            n,
            t: None,
            k: kids,
            c,
            s,
        }
    }

    /// A document with `versions` versions; later ones are edits of earlier ones.
    pub fn doc(&mut self, versions: usize) -> DocSpec {
        let (notes, ars) = self.table();
        let budget = self.m.max_nodes;
        let first = match self.m.large {
            Large::No => self.tree(&ars, budget),
            _ => self.large_tree(&ars),
        };
        let mut vers = vec![first];
        while vers.len() < versions {
            let mut t = if self.r.pct(85) {
                vers[self.r.below(vers.len())].clone()
            } else {
                self.tree(&ars, budget)
            };
            let edits = 1 + self.r.below(3);
            for _ in 0..edits {
                self.edit(&mut t, &ars);
            }
            vers.push(t);
        }
        DocSpec { notes, vers }
    }

    /// One random edit: change a text, insert/delete/replace a child, change the notation or the
    /// conditions of a node.
    fn edit(&mut self, t: &mut Tree, ars: &[Arity]) {
        let mut cur = t;
        loop {
            if cur.t.is_some() || cur.k.is_empty() || self.r.pct(30) {
                break;
            }
            let i = self.r.below(cur.k.len());
            cur = &mut cur.k[i];
        }
        match self.r.below(6) {
            0 => cur.c = self.r.below(16) as u8,
            1 => cur.s = !cur.s,
            2 | 3 => {
                if cur.t.is_some() {
                    cur.t = Some(self.word(14));
                } else if ars[cur.n] == Arity::Many {
                    let at = self.r.range(0, cur.k.len());
                    let k = self.tree(ars, 3);
                    if self.r.pct(50) || cur.k.is_empty() {
                        cur.k.insert(at, k);
                    } else {
                        cur.k.remove(at.min(cur.k.len() - 1));
                    }
                } else if !cur.k.is_empty() {
                    let at = self.r.below(cur.k.len());
                    cur.k[at] = self.tree(ars, 3);
                }
            }
            4 => {
                // another notation of the same kind
                let same: Vec<usize> = (0..ars.len()).filter(|i| ars[*i] == ars[cur.n]).collect();
                cur.n = *self.r.pick(&same);
            }
            _ => *cur = self.tree(ars, 4),
        }
    }
}

pub fn doc(r: &mut Rng, versions: usize) -> DocSpec {
    let mut m = Mix::random(r);
    m.large = Large::random(r, 150);
    Gen::new(r, m).doc(versions)
}

pub fn tree_size(t: &Tree) -> usize {
    1 + t.k.iter().map(tree_size).sum::<usize>()
}

pub fn all_paths(t: &Tree) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    let mut stack: Vec<(&Tree, Vec<usize>)> = vec![(t, vec![])];
    while let Some((t, p)) = stack.pop() {
        if t.t.is_none() {
            for (i, k) in t.k.iter().enumerate() {
                let mut q = p.clone();
                q.push(i);
                stack.push((k, q));
            }
        }
        out.push(p);
    }
    out.sort();
    out
}

/// A path into `t`: usually to an existing node, sometimes past one.
pub fn path(r: &mut Rng, t: &Tree, bad: usize) -> Vec<usize> {
    let mut p = Vec::new();
    let mut cur = t;
    let stop = *r.pick(&[1, 5, 15, 30]);
    while cur.t.is_none() && !cur.k.is_empty() && !r.pct(stop) {
        let inner = if p.len() > 5 && r.pct(90) {
            cur.k.iter().rposition(|k| !k.k.is_empty())
        } else {
            None
        };
        let i = if let Some(i) = inner {
            i
        } else if r.pct(20) {
            cur.k.len() - 1
        } else if r.pct(15) {
            0
        } else {
            r.below(cur.k.len())
        };
        p.push(i);
        cur = &cur.k[i];
    }
    if r.pct(bad) {
        let i = match r.below(40) {
            0 => *r.pick(&[255, 256, 257, 65535, 65536, 1 << 31, 1 << 32, usize::MAX]),
            1 => r.below(100_000),
            _ => cur.k.len() + r.below(2),
        };
        p.push(i.max(cur.k.len()));
        if r.pct(30) {
            p.push(0);
        }
    }
    p
}

pub fn target(r: &mut Rng) -> Target {
    match r.below(9) {
        0..=3 => Target::Start,
        4 | 5 => Target::End,
        6 => Target::Mark,
        _ => Target::Text(match r.below(100) {
            0..=3 => r.below(700),
            4 => *r.pick(&[255, 256, 65535, 65536, usize::MAX]),
            _ => r.skewed(12),
        }),
    }
}

/// Widths near which the layout of the document changes.
pub fn width(r: &mut Rng, spec: &DocSpec, v: usize) -> u16 {
    match r.below(10) {
        0 => r.below(4) as u16,
        1 | 2 => r.below(30) as u16,
        3 => *r.pick(&[80u16, 100, 120, 1000, 65534, 65535]),
        4 => r.below(120) as u16,
        _ => {
            // at, just above or just below the width of some line of some layout
            let w0 = *r.pick(&[0u64, 10, 20, 40, 80, 200, 100_000]);
            let Some(st) = crate::simdoc::Store::build(spec, 0) else {
                return 20;
            };
            if !st.well_formed(v) {
                return 20;
            }
            let m = crate::model::layout(&st, v, w0, &[], 20_000);
            let mut ws: Vec<u64> = m
                .lines
                .iter()
                .map(|l| cols(&l.text))
                .collect::<HashSet<_>>()
                .into_iter()
                .collect();
            ws.sort();
            if ws.is_empty() {
                return 20;
            }
            let w = *r.pick(&ws) as i64 + *r.pick(&[-2i64, -1, -1, 0, 0, 0, 1, 3]);
            w.clamp(0, 60_000) as u16
        }
    }
}

/// Number of different ids/ops names used for statistics.
pub fn root_style(r: &mut Rng) -> bool {
    r.pct(40)
}

/// A client script over the document's first version(s). `fault` is the percentage of operations
/// preceded by an injected failure.
pub fn script(r: &mut Rng, spec: &DocSpec, len: usize, fault: usize, edits: usize) -> Vec<crate::session::Op> {
    use crate::session::Op;
    let mut ops = Vec::new();
    let mut v = 0;
    let mut w = width(r, spec, v);
    let mut open = vec![];
    let bad = *r.pick(&[0, 5, 15]);
    let pull = *r.pick(&[50, 75, 90]);
    let up = *r.pick(&[0, 30, 50, 70, 100]);
    let slots = r.range(1, crate::session::SLOTS);
    while ops.len() < len {
        if r.pct(fault) {
            let k = r.skewed(60) as u64;
            ops.push(if r.pct(50) { Op::Arm(k) } else { Op::ArmStyle(k / 3) });
        }
        if open.is_empty() || !r.pct(pull) {
            if r.pct(20) {
                w = width(r, spec, v);
            }
            if r.pct(edits) {
                v = r.below(spec.vers.len());
                open.clear();
                ops.push(Op::Edit(v));
            }
            match r.below(12) {
                0 => ops.push(Op::Str(w)),
                1 if !open.is_empty() => {
                    let i = r.below(open.len());
                    ops.push(Op::Drop(open.remove(i)));
                }
                _ => {
                    let s = r.below(slots);
                    if !open.contains(&s) {
                        open.push(s);
                    }
                    ops.push(Op::Open {
                        s,
                        w,
                        path: path(r, &spec.vers[v], bad),
                        tg: target(r),
                        root: root_style(r),
                    });
                }
            }
        } else {
            let s = *r.pick(&open);
            let n = if r.pct(70) { 1 } else { r.range(1, 8) };
            let u = r.pct(up);
            for _ in 0..n {
                ops.push(if u { Op::Up(s) } else { Op::Down(s) });
            }
        }
    }
    ops
}

/// Now and then pass over lines, or take all that are left, instead of pulling one line.
pub fn other_pulls(r: &mut Rng, ops: &mut [crate::session::Op]) {
    use crate::session::Op;
    if !r.pct(30) {
        return;
    }
    for op in ops {
        let (s, up) = match op {
            Op::Up(s) => (*s, true),
            Op::Down(s) => (*s, false),
            _ => continue,
        };
        match r.below(20) {
            0..=3 => *op = Op::Skip { s, up, n: r.skewed(6) },
            4 => *op = Op::Skip { s, up, n: r.below(60) },
            5 | 6 => *op = Op::Rest { s, up },
            _ => (),
        }
    }
}
