//! Plain-data descriptions of notations, documents and panes. These are the simulator's own types:
//! they are what the reference model reads, what is shrunk, and what replay files contain.

use partial_pretty_printer::{CheckPos, Notation};
use serde::{Deserialize, Serialize};

pub type Note0 = Notation<u8, u8>;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Note {
    Empty,
    Nl,
    Eol,
    Lit(String),
    Text,
    Flat(Box<Note>),
    Indent(String, Option<u8>, Box<Note>),
    /// Concatenation, nested to the left.
    Cat(Vec<Note>),
    /// Concatenation, nested to the right.
    CatR(Vec<Note>),
    Choice(Box<Note>, Box<Note>),
    Check(u8, CPos, Box<Note>, Box<Note>),
    Child(i64),
    Style(u8, Box<Note>),
    Mark,
    Count(Box<Note>, Box<Note>, Box<Note>),
    Fold(Box<Note>, Box<Note>),
    Left,
    Right,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum CPos {
    Here,
    Child(i64),
    Left,
    Right,
}

pub fn lit(s: impl Into<String>) -> Note {
    Note::Lit(s.into())
}
pub fn cat(v: Vec<Note>) -> Note {
    Note::Cat(v)
}
pub fn choice(a: Note, b: Note) -> Note {
    Note::Choice(Box::new(a), Box::new(b))
}
pub fn flat(a: Note) -> Note {
    Note::Flat(Box::new(a))
}
pub fn indent(s: impl Into<String>, l: Option<u8>, n: Note) -> Note {
    Note::Indent(s.into(), l, Box::new(n))
}
pub fn styled(l: u8, n: Note) -> Note {
    Note::Style(l, Box::new(n))
}
pub fn check(c: u8, p: CPos, a: Note, b: Note) -> Note {
    Note::Check(c, p, Box::new(a), Box::new(b))
}
pub fn count(a: Note, b: Note, c: Note) -> Note {
    Note::Count(Box::new(a), Box::new(b), Box::new(c))
}
pub fn foldn(a: Note, b: Note) -> Note {
    Note::Fold(Box::new(a), Box::new(b))
}

impl Note {
    pub fn to_real(&self) -> Note0 {
        use Notation as R;
        match self {
            Note::Empty => R::Empty,
            Note::Nl => R::Newline,
            Note::Eol => R::EndOfLine,
            Note::Lit(s) => R::Literal(s.clone()),
            Note::Text => R::Text,
            Note::Flat(n) => R::Flat(Box::new(n.to_real())),
            Note::Indent(s, l, n) => R::Indent(s.clone(), *l, Box::new(n.to_real())),
            Note::Cat(v) => {
                let mut it = v.iter();
                let Some(first) = it.next() else {
                    return R::Empty;
                };
                it.fold(first.to_real(), |a, b| {
                    R::Concat(Box::new(a), Box::new(b.to_real()))
                })
            }
            Note::CatR(v) => {
                let mut it = v.iter().rev();
                let Some(last) = it.next() else {
                    return R::Empty;
                };
                it.fold(last.to_real(), |b, a| {
                    R::Concat(Box::new(a.to_real()), Box::new(b))
                })
            }
            Note::Choice(a, b) => R::Choice(Box::new(a.to_real()), Box::new(b.to_real())),
            Note::Check(c, p, a, b) => R::Check(
                *c,
                match p {
                    CPos::Here => CheckPos::Here,
                    CPos::Child(i) => CheckPos::Child(*i as isize),
                    CPos::Left => CheckPos::LeftChild,
                    CPos::Right => CheckPos::RightChild,
                },
                Box::new(a.to_real()),
                Box::new(b.to_real()),
            ),
            Note::Child(i) => R::Child(*i as isize),
            Note::Style(l, n) => R::Style(*l, Box::new(n.to_real())),
            Note::Mark => R::FocusMark,
            Note::Count(z, o, m) => R::Count {
                zero: Box::new(z.to_real()),
                one: Box::new(o.to_real()),
                many: Box::new(m.to_real()),
            },
            Note::Fold(f, j) => R::Fold {
                first: Box::new(f.to_real()),
                join: Box::new(j.to_real()),
            },
            Note::Left => R::Left,
            Note::Right => R::Right,
        }
    }

    /// Visit every sub-notation (including self).
    pub fn walk(&self, f: &mut impl FnMut(&Note)) {
        f(self);
        match self {
            Note::Flat(n) | Note::Indent(_, _, n) | Note::Style(_, n) => n.walk(f),
            Note::Cat(v) | Note::CatR(v) => v.iter().for_each(|n| n.walk(f)),
            Note::Choice(a, b) | Note::Check(_, _, a, b) | Note::Fold(a, b) => {
                a.walk(f);
                b.walk(f);
            }
            Note::Count(a, b, c) => {
                a.walk(f);
                b.walk(f);
                c.walk(f);
            }
            _ => (),
        }
    }
}

/// A document node. `t` is its text (then `k` is ignored); otherwise `k` are its children.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tree {
    /// Index into the notation table.
    pub n: usize,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub t: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub k: Vec<Tree>,
    /// Bit i is the answer to condition i.
    #[serde(default)]
    pub c: u8,
    /// Whether the node has a style of its own.
    #[serde(default)]
    pub s: bool,
}

/// A document over its history: one notation table and successive versions.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DocSpec {
    pub notes: Vec<Note>,
    pub vers: Vec<Tree>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Target {
    Start,
    End,
    Mark,
    Text(usize),
}

impl Target {
    pub fn real(self) -> partial_pretty_printer::FocusTarget {
        use partial_pretty_printer::FocusTarget as F;
        match self {
            Target::Start => F::Start,
            Target::End => F::End,
            Target::Mark => F::Mark,
            Target::Text(n) => F::Text(n),
        }
    }
}

/// Number of columns, for the alphabet used by the simulator (see `gen::ALPHABET`), independent of
/// the crate's own notion.
pub fn cols(s: &str) -> u64 {
    s.chars().map(char_cols).sum()
}

pub fn char_cols(c: char) -> u64 {
    match c as u32 {
        0x0300..=0x036F | 0x200B => 0,
        0x1100..=0x115F | 0x3000..=0x303E | 0x3041..=0x33FF | 0x3400..=0x4DBF => 2,
        0x4E00..=0x9FFF | 0xAC00..=0xD7A3 | 0xFF01..=0xFF60 => 2,
        0x1F600..=0x1F64F | 0x20000..=0x2FFFD => 2,
        _ => 1,
    }
}
