//! C13: example documents built concurrently keep per-thread ids and content.

use super::*;
use crate::rng::{fold, hash_str, Rng};
use crate::sched::Sched;
use crate::simdoc::*;
use partial_pretty_printer::doc_examples::json::*;
use partial_pretty_printer::doc_examples::tree::{Contents, Tree, TreeCondition, TreeNotation};
use partial_pretty_printer::doc_examples::{BasicStyle, Color};
use partial_pretty_printer::{pretty_print, pretty_print_to_string, CheckPos, FocusTarget, Segment};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const RULE: &str = "1 to 4 simulated threads build, clone, style, take apart and rebuild, print and re-read (text and styles) JSON-with-comments documents and reset their id counters, scheduled at every construction step and inside every print; threads die and are replaced at arbitrary points; non-trivial: at least 3 nodes built and one document read back, and with several threads at least one switch between them";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    /// Pairs and comments.
    Obj(Vec<J>),
    Pair(String, Box<J>),
    Comment(String),
    /// A string with another notation, in the style with this label.
    Lab(u8, String),
    /// A node that was given a style, and styles for labels.
    Styled(Option<u8>, Vec<(u8, u8)>, Box<J>),
}

impl J {
    fn plain(&self) -> &J {
        match self {
            J::Styled(_, _, j) => j.plain(),
            j => j,
        }
    }
    /// Does everything in it stand where such a thing may stand?
    fn proper(&self) -> bool {
        match self.plain() {
            J::Arr(v) => v.iter().all(|j| !matches!(j.plain(), J::Pair(..)) && j.proper()),
            J::Obj(v) => v
                .iter()
                .all(|j| matches!(j.plain(), J::Pair(..) | J::Comment(_)) && j.proper()),
            J::Pair(_, j) => !matches!(j.plain(), J::Pair(..) | J::Comment(_)) && j.proper(),
            _ => true,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum AOp {
    /// Build a document in slot `0..SLOTS`.
    Build(usize, Vec<J>, bool),
    Reset,
    /// Print a slot at this width, also from a focus chosen with these numbers, and read it back.
    Print(usize, u16, Vec<usize>, u8),
    /// Take the document in the first slot apart and build another from copies of some of its
    /// top-level items (or the children of its first branch), in the second slot.
    Rebuild(usize, usize, Vec<usize>, bool),
    /// The thread dies (its documents survive); another one takes over.
    Die,
}

pub const SLOTS: usize = 3;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub actors: Vec<Vec<AOp>>,
    pub plan: Vec<(u64, usize)>,
    pub seed: u64,
    pub every: u64,
}

// ---------------------------------------------------------------- generation

const WORDS: &[&str] = &[
    "a", "the", "comment", "//", "[1,", "2]", "漢字", "{", "\"x\"", ":", "end.", "é", ",", "null",
    "supercalifragilistic",
];
const STRS: &[&str] = &[
    "", "a", "hello, world", "[", "// no comment", "漢字", "{}", "key", "é", " ", "1,2", "]", "x y z",
];

fn string(r: &mut Rng) -> String {
    if r.pct(70) {
        return r.pick(STRS).to_string();
    }
    (0..r.below(12))
        .map(|_| *r.pick(&['a', 'b', ',', '[', ' ', '/', '漢', ':', '}', 'é', '😀']))
        .collect()
}

fn comment(r: &mut Rng) -> J {
    let n = if r.pct(15) { 0 } else { r.skewed(14) };
    let w: Vec<&str> = (0..n).map(|_| *r.pick(WORDS)).collect();
    J::Comment(w.join(*r.pick(&[" ", "  ", "\n", " \t"])))
}

fn number(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => *r.pick(&[0.0, 1.0, -1.5, 3.25, 1e21, 1e-7, 123456789.0]),
        1 => r.below(1 << 20) as f64 / 8.0 - 9999.0,
        2 => (r.next() % (1 << 53)) as f64,
        _ => {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                f
            } else {
                16777217.0
            }
        }
    }
}

/// A document with something large in it.
fn large(r: &mut Rng) -> J {
    let n = r.range(200, 1100);
    let c = *r.pick(&[0, 0, 2]);
    match r.below(6) {
        0 | 1 => J::Arr(
            (0..n)
                .map(|i| if r.pct(c) { comment(r) } else { J::Num(i as f64) })
                .collect(),
        ),
        2 => J::Obj(
            (0..n)
                .map(|i| match r.pct(c) {
                    true => comment(r),
                    false => J::Pair(format!("k{i}"), Box::new(J::Bool(i % 3 == 0))),
                })
                .collect(),
        ),
        3 => {
            let w: Vec<&str> = (0..r.range(50, 700)).map(|_| *r.pick(WORDS)).collect();
            J::Arr(vec![J::Null, J::Comment(w.join(" ")), J::Bool(true)])
        }
        4 => {
            let n = r.range(100, 700);
            J::Arr(vec![J::Str((0..n).map(|_| *r.pick(&['a', 'b', ' ', '漢', '😀'])).collect())])
        }
        _ => {
            let mut j = J::Str("core".into());
            for i in 0..r.range(30, 150) {
                j = match i % 3 {
                    0 => J::Obj(vec![J::Pair("k".into(), Box::new(j))]),
                    1 => J::Arr(vec![J::Null, j]),
                    _ => J::Arr(vec![j, J::Null]),
                };
            }
            j
        }
    }
}

/// Perhaps gives the node styles.
fn styled(r: &mut Rng, j: J) -> J {
    if !r.pct(12) {
        return j;
    }
    let node = if r.pct(70) { Some(r.below(16) as u8) } else { None };
    let mut over: Vec<(u8, u8)> = vec![];
    while r.pct(45) {
        let l = r.below(JSON_LABELS.len()) as u8;
        if !over.iter().any(|(m, _)| *m == l) {
            over.push((l, r.below(16) as u8));
        }
    }
    J::Styled(node, over, Box::new(j))
}

fn value(r: &mut Rng, depth: usize, com: usize) -> J {
    let j = value_of(r, depth, com);
    styled(r, j)
}

fn value_of(r: &mut Rng, depth: usize, com: usize) -> J {
    match r.below(if depth == 0 { 5 } else { 10 }) {
        0 => J::Null,
        1 => J::Bool(r.pct(50)),
        2 => J::Num(number(r)),
        3 if r.pct(25) => J::Lab(r.below(LABELS.len()) as u8, string(r)),
        3 | 4 => J::Str(string(r)),
        5..=7 => J::Arr(items(r, depth - 1, com, false)),
        _ => J::Obj(items(r, depth - 1, com, true)),
    }
}

fn items(r: &mut Rng, depth: usize, com: usize, pairs: bool) -> Vec<J> {
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 6]);
    (0..n)
        .map(|_| {
            if r.pct(com) {
                let c = comment(r);
                styled(r, c)
            } else if pairs {
                let p = J::Pair(string(r), Box::new(value(r, depth, com)));
                styled(r, p)
            } else {
                value(r, depth, com)
            }
        })
        .collect()
}

pub fn gen(r: &mut Rng) -> Sc {
    let n = *r.pick(&[1, 2, 2, 3, 4]);
    let actors = (0..n)
        .map(|_| {
            let com = *r.pick(&[0, 15, 40, 80]);
            let mut ops = vec![];
            let len = r.range(2, 9);
            while ops.len() < len {
                ops.push(match r.below(12) {
                    0 | 1 => AOp::Reset,
                    2 => AOp::Die,
                    3 | 4 => AOp::Rebuild(
                        r.below(SLOTS),
                        r.below(SLOTS),
                        (0..r.below(5)).map(|_| r.below(8)).collect(),
                        r.pct(50),
                    ),
                    5..=7 => {
                        let d = r.range(0, 4);
                        let one = r.pct(40);
                        let v = if r.below(1500) == 0 {
                            // now and then, something much larger
                            vec![large(r)]
                        } else if one {
                            vec![value(r, d, com)]
                        } else {
                            items(r, d, com, false)
                        };
                        AOp::Build(r.below(SLOTS), v, one)
                    }
                    _ => AOp::Print(
                        r.below(SLOTS),
                        match r.below(4) {
                            0 => r.below(6) as u16,
                            1 | 2 => r.range(5, 60) as u16,
                            _ => *r.pick(&[80, 120, 1000]),
                        },
                        (0..r.below(6)).map(|_| r.below(8)).collect(),
                        r.below(4) as u8,
                    ),
                });
            }
            ops.push(AOp::Print(0, r.range(0, 70) as u16, vec![], 0));
            ops
        })
        .collect();
    Sc {
        actors,
        plan: vec![],
        seed: r.next() | 1,
        every: *r.pick(&[1, 2, 5, 20, 100]),
    }
}

// ---------------------------------------------------------------- what documents must read as

#[derive(Clone, Debug, PartialEq)]
enum V {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<V>),
    Pair(String, Box<V>),
    /// The words of adjacent comments.
    Words(Vec<String>),
}

fn meaning(items: &[J]) -> Vec<V> {
    let mut out = vec![];
    for j in items {
        let v = match j.plain() {
            J::Null => V::Null,
            J::Bool(b) => V::Bool(*b),
            J::Num(f) => V::Num(*f),
            J::Str(s) | J::Lab(_, s) => V::Str(s.clone()),
            J::Styled(..) => unreachable!(),
            J::Arr(v) => V::Arr(meaning(v)),
            J::Obj(v) => V::Obj(meaning(v)),
            J::Pair(k, v) => V::Pair(
                k.clone(),
                Box::new(meaning(std::slice::from_ref(v)).pop().unwrap()),
            ),
            J::Comment(c) => V::Words(c.split_whitespace().map(|w| w.to_string()).collect()),
        };
        match (out.last_mut(), v) {
            (Some(V::Words(a)), V::Words(b)) => a.extend(b),
            (_, v) => out.push(v),
        }
    }
    out
}

// ---------------------------------------------------------------- what styles it must be shown in

/// (color, bold)
type Sty = (u8, bool);

const COLORS: [&str; 8] = [
    "white", "black", "red", "green", "yellow", "blue", "magenta", "cyan",
];

/// Labels of `BasicStyle`s, in the order of their numbers, and one it does not know.
const LABELS: [&str; 17] = [
    "white", "bold_white", "black", "bold_black", "red", "bold_red", "green", "bold_green",
    "yellow", "bold_yellow", "blue", "bold_blue", "magenta", "bold_magenta", "cyan", "bold_cyan",
    "bold",
];

/// Labels that the notations of JSON use.
const JSON_LABELS: [&str; 5] = ["open", "close", "magenta", "blue", "yellow"];

fn style_no(n: u8) -> Sty {
    (n / 2 % 8, n % 2 == 1)
}

fn label_style(l: &str) -> Sty {
    match LABELS.iter().position(|m| *m == l) {
        Some(n) if n < 16 => style_no(n as u8),
        _ => (0, false),
    }
}

fn basic(s: Sty) -> BasicStyle {
    use Color::*;
    let b = BasicStyle::new().color(
        [White, Black, Red, Green, Yellow, Blue, Magenta, Cyan][s.0 as usize],
    );
    if s.1 {
        b.bold()
    } else {
        b
    }
}

fn sty(b: &BasicStyle) -> Sty {
    let c = match b.color {
        Color::White => 0,
        Color::Black => 1,
        Color::Red => 2,
        Color::Green => 3,
        Color::Yellow => 4,
        Color::Blue => 5,
        Color::Magenta => 6,
        Color::Cyan => 7,
    };
    (c, b.bold)
}

fn show_style(s: Sty) -> String {
    format!("{}{}", if s.1 { "bold " } else { "" }, COLORS[s.0 as usize])
}

fn under(outer: Sty, inner: Sty) -> Sty {
    (inner.0, outer.1 || inner.1)
}

struct Token {
    ch: char,
    /// `None`: not looked at.
    style: Option<Sty>,
    /// A new line may begin here, with the marker of comments in this style.
    wrap: Option<Sty>,
}

/// The characters that display these items, leaving out spaces, with their styles.
fn tokens(items: &[J], outer: Sty, separated: bool, out: &mut Vec<Token>) {
    let put = |out: &mut Vec<Token>, s: &str, style: Option<Sty>| {
        for ch in s.chars().filter(|c| *c != ' ') {
            let wrap = None;
            out.push(Token { ch, style, wrap });
        }
    };
    let last = items
        .iter()
        .rposition(|j| !matches!(j.plain(), J::Comment(_)));
    for (i, j) in items.iter().enumerate() {
        let (mut here, mut over, mut at) = ((0, false), vec![], j);
        while let J::Styled(n, o, j) = at {
            here = n.map(style_no).unwrap_or(here);
            over = o.iter().chain(&over).copied().collect();
            at = j;
        }
        let here = under(outer, here);
        let label = |l: &str| {
            let over = over
                .iter()
                .rfind(|(m, _)| JSON_LABELS.get(*m as usize) == Some(&l));
            under(here, over.map(|(_, n)| style_no(*n)).unwrap_or(label_style(l)))
        };
        match at {
            J::Null => put(out, "null", None),
            J::Bool(b) => put(out, if *b { "true" } else { "false" }, None),
            J::Num(f) => put(out, &format!("{f}"), Some(label("blue"))),
            J::Str(s) => put(out, &format!("\"{s}\""), Some(label("magenta"))),
            J::Lab(l, s) => put(
                out,
                &format!("\"{s}\""),
                Some(label(LABELS[*l as usize % LABELS.len()])),
            ),
            J::Arr(v) | J::Obj(v) => {
                let b = if matches!(at, J::Arr(_)) { ["[", "]"] } else { ["{", "}"] };
                put(out, b[0], Some(label("open")));
                tokens(v, here, true, out);
                put(out, b[1], Some(label("close")));
            }
            J::Pair(k, v) => {
                tokens(&[J::Str(k.clone())], here, false, out);
                put(out, ":", Some(here));
                tokens(std::slice::from_ref(v), here, false, out);
            }
            J::Comment(c) => {
                let mark = label("yellow");
                put(out, "//", Some(mark));
                for (i, w) in c.split_whitespace().enumerate() {
                    let at = out.len();
                    put(out, w, Some(under(mark, (0, false))));
                    if i > 0 {
                        out[at].wrap = Some(mark);
                    }
                }
            }
            J::Styled(..) => unreachable!(),
        }
        if separated && !matches!(at, J::Comment(_)) && last.is_some_and(|l| i < l) {
            put(out, ",", Some(outer));
        }
    }
}

/// Are these lines, of styled characters, these tokens?
fn compare_styles(want: &[Token], lines: &[Vec<(char, Sty)>]) -> Result<(), String> {
    let mut want = want.iter();
    for line in lines {
        let mut cs = line.iter().filter(|(c, _)| *c != ' ').peekable();
        let mut first = true;
        while let Some((c, s)) = cs.next() {
            let Some(t) = want.next() else {
                return Err(format!("{c:?} after the end of the document"));
            };
            let (mut c, mut s) = (c, s);
            if let (true, Some(mark)) = (first, t.wrap) {
                let two = cs.next();
                for (d, z) in [Some(&(*c, *s)), two].into_iter().flatten() {
                    if *d != '/' || *z != mark {
                        return Err(format!(
                            "a line of a comment begins with {d:?} in {} instead of '/' in {}",
                            show_style(*z),
                            show_style(mark)
                        ));
                    }
                }
                match cs.next() {
                    Some((d, z)) => (c, s) = (d, z),
                    None => return Err("a line of a comment ends early".into()),
                }
            }
            first = false;
            if *c != t.ch || t.style.is_some_and(|w| w != *s) {
                return Err(format!(
                    "{c:?} in {} instead of {:?} in {}",
                    show_style(*s),
                    t.ch,
                    t.style.map(show_style).unwrap_or_default()
                ));
            }
        }
    }
    match want.next() {
        Some(t) => Err(format!("{:?} is missing", t.ch)),
        None => Ok(()),
    }
}

/// A notation for strings in the style with this label.
fn lab_notation(l: u8) -> &'static TreeNotation {
    use partial_pretty_printer::notation_constructors::{check, lit, style, text};
    static ALL: std::sync::OnceLock<Vec<TreeNotation>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        LABELS
            .iter()
            .map(|l| {
                check(
                    TreeCondition::IsEmptyText,
                    CheckPos::Here,
                    style(*l, lit("\"\"")),
                    style(*l, lit("\"") + text() + lit("\"")),
                )
                .validate()
                .unwrap()
            })
            .collect()
    });
    &all[l as usize % all.len()]
}

struct Parser<'s> {
    s: &'s str,
}

impl Parser<'_> {
    fn ws(&mut self) {
        self.s = self.s.trim_start_matches([' ', '\n']);
    }

    /// Items up to the closing bracket (`None`: the end of the text, and no separators).
    fn items(&mut self, close: Option<char>, pairs: bool) -> Result<Vec<V>, String> {
        let mut out: Vec<V> = vec![];
        // Has a value been read, and a comma after it?
        let (mut any, mut comma) = (false, false);
        loop {
            self.ws();
            if let Some(c) = self.s.strip_prefix("//") {
                let (line, rest) = c.split_once('\n').unwrap_or((c, ""));
                self.s = rest;
                let w: Vec<String> = line.split_whitespace().map(|w| w.to_string()).collect();
                if let Some(V::Words(a)) = out.last_mut() {
                    a.extend(w);
                } else {
                    out.push(V::Words(w));
                }
                continue;
            }
            match close {
                None if self.s.is_empty() => return Ok(out),
                Some(c) => {
                    if let Some(rest) = self.s.strip_prefix(c) {
                        self.s = rest;
                        if comma {
                            return Err("a separator after the last value".into());
                        }
                        return Ok(out);
                    }
                    if any && !comma {
                        return Err(format!("no separator before {:?}", short(self.s)));
                    }
                }
                None => (),
            }
            let v = self.value(pairs)?;
            out.push(v);
            any = true;
            comma = false;
            if close.is_some() {
                if let Some(rest) = self.s.strip_prefix(',') {
                    self.s = rest;
                    comma = true;
                }
            }
        }
    }

    fn string(&mut self) -> Result<String, String> {
        let rest = self
            .s
            .strip_prefix('"')
            .ok_or_else(|| format!("expected a string at {:?}", short(self.s)))?;
        let (a, b) = rest.split_once('"').ok_or("unclosed string")?;
        self.s = b;
        Ok(a.to_string())
    }

    fn value(&mut self, pairs: bool) -> Result<V, String> {
        if pairs {
            let k = self.string()?;
            self.s = self
                .s
                .strip_prefix(':')
                .ok_or_else(|| format!("expected a colon at {:?}", short(self.s)))?;
            self.ws();
            return Ok(V::Pair(k, Box::new(self.value(false)?)));
        }
        for (w, v) in [
            ("null", V::Null),
            ("true", V::Bool(true)),
            ("false", V::Bool(false)),
        ] {
            if let Some(rest) = self.s.strip_prefix(w) {
                self.s = rest;
                return Ok(v);
            }
        }
        match self.s.chars().next() {
            Some('"') => Ok(V::Str(self.string()?)),
            Some('[') => {
                self.s = &self.s[1..];
                Ok(V::Arr(self.items(Some(']'), false)?))
            }
            Some('{') => {
                self.s = &self.s[1..];
                Ok(V::Obj(self.items(Some('}'), true)?))
            }
            Some(c) if c == '-' || c.is_ascii_digit() => {
                let n = self
                    .s
                    .find(|c: char| !"+-.eE0123456789".contains(c))
                    .unwrap_or(self.s.len());
                let f = self.s[..n].parse().map_err(|e| format!("{e}"))?;
                self.s = &self.s[n..];
                Ok(V::Num(f))
            }
            _ => Err(format!("expected a value at {:?}", short(self.s))),
        }
    }
}

fn short(s: &str) -> String {
    s.chars().take(30).collect()
}

// ---------------------------------------------------------------- execution

struct Built {
    tree: Json,
    /// What it is made of.
    items: Vec<J>,
    /// `json_roots` around the items.
    roots: bool,
    made_by: usize,
}

struct Actor<'a> {
    me: usize,
    sched: &'a Sched,
    cx: &'a Ctx,
    slots: &'a mut Vec<Option<Built>>,
    next: u32,
    nodes: &'a mut u64,
    read: &'a mut u64,
}

type Res<T> = Result<T, Verdict>;

impl Actor<'_> {
    fn point(&self) {
        self.sched.point(self.me);
    }

    fn expect_id(&mut self, t: &Json, what: &str) -> Res<()> {
        self.expect_ids(&[t], what)
    }

    /// One constructor made these nodes: in whatever order, they got the next ids.
    fn expect_ids(&mut self, ts: &[&Json], what: &str) -> Res<()> {
        let mut ids: Vec<u32> = ts.iter().map(|t| t.id).collect();
        ids.sort();
        if ts.last().is_some_and(|t| t.needs_separator) {
            return fail("separator", format!("a new {what} needs a separator, in no branch"));
        }
        for id in ids {
            *self.nodes += 1;
            self.cx.add_hash(id as u64);
            if id != self.next {
                return fail(
                    "id",
                    format!(
                        "thread {}: {what} got id {id} where this thread's next id is {}",
                        self.me, self.next
                    ),
                );
            }
            self.next += 1;
        }
        Ok(())
    }

    fn make(&mut self, j: &J) -> Res<Json> {
        let all = |a: &mut Self, v: &[J]| -> Res<Vec<Json>> { v.iter().map(|x| a.make(x)).collect() };
        let (t, what) = match j {
            J::Null => (json_null(), "null"),
            J::Bool(b) => (json_bool(*b), "bool"),
            J::Num(f) => (json_number(*f), "number"),
            J::Str(s) => (json_string(s), "string"),
            J::Lab(l, s) => (Tree::new_text(lab_notation(*l), s.clone()), "text"),
            J::Styled(n, over, j) => {
                let mut t = self.make(j)?;
                let (id, sep) = (t.id, t.needs_separator);
                if let Some(n) = n {
                    t = t.with_style(basic(style_no(*n)));
                }
                for (l, n) in over {
                    let l = JSON_LABELS[*l as usize % JSON_LABELS.len()];
                    t = t.with_style_override(l, basic(style_no(*n)));
                }
                if t.id != id || t.needs_separator != sep {
                    return fail("styled", "giving a node a style changed its id or separator");
                }
                self.cx.count("styled_node");
                return Ok(t);
            }
            J::Arr(v) => {
                let v = all(self, v)?;
                (json_array(v), "array")
            }
            J::Obj(v) => {
                let v = all(self, v)?;
                (json_object(v), "object")
            }
            J::Pair(k, v) => {
                let v = self.make(v)?;
                let t = json_object_pair(k, v);
                let new: Vec<&Json> = kids(&t).iter().take(1).chain([&t]).collect();
                self.expect_ids(&new, "pair")?;
                self.point();
                return Ok(t);
            }
            J::Comment(c) => {
                let t = json_comment(c);
                let new: Vec<&Json> = kids(&t).iter().chain([&t]).collect();
                self.expect_ids(&new, "comment")?;
                self.point();
                return Ok(t);
            }
        };
        self.expect_id(&t, what)?;
        self.point();
        Ok(t)
    }

    fn op(&mut self, op: &AOp) -> Res<()> {
        match op {
            AOp::Reset => {
                Tree::<BasicStyle>::reset_id();
                self.next = 0;
                self.cx.count("id_counter_reset");
                self.point();
            }
            AOp::Build(s, items, one) => {
                let roots = !(*one && items.len() == 1 && !matches!(items[0].plain(), J::Comment(_)));
                let mut ts = vec![];
                for i in items {
                    ts.push(self.make(i)?);
                }
                let tree = if roots {
                    let t = json_roots(ts);
                    self.expect_id(&t, "roots")?;
                    t
                } else {
                    ts.pop().unwrap()
                };
                self.slots[s % SLOTS] = Some(Built {
                    tree,
                    items: items.clone(),
                    roots,
                    made_by: self.me,
                });
                self.point();
            }
            AOp::Rebuild(from, to, pick, array) => {
                let Some(b) = &self.slots[from % SLOTS] else {
                    return Ok(());
                };
                // the branch to take apart, and what its children stand for
                let (tree, items) = if b.roots {
                    (&b.tree, b.items.clone())
                } else {
                    match b.items[0].plain() {
                        J::Arr(v) | J::Obj(v) => (&b.tree, v.clone()),
                        _ => return Ok(()),
                    }
                };
                let kids: Vec<Json> = match &tree.contents {
                    Contents::Children(c) => c.clone(),
                    _ => return Ok(()),
                };
                if kids.len() != items.len() || kids.is_empty() {
                    return Ok(());
                }
                let idx: Vec<usize> = {
                    let mut seen = vec![];
                    for p in pick {
                        let i = p % kids.len();
                        if !seen.contains(&i) {
                            seen.push(i);
                        }
                    }
                    seen
                };
                let ts: Vec<Json> = idx.iter().map(|i| kids[*i].clone()).collect();
                let js: Vec<J> = idx.iter().map(|i| items[*i].clone()).collect();
                let pairs = js.iter().any(|j| matches!(j.plain(), J::Pair(..)));
                let (tree, items, roots) = if pairs {
                    let t = json_object(ts);
                    self.expect_id(&t, "rebuilt object")?;
                    (t, vec![J::Obj(js)], false)
                } else if *array {
                    let t = json_array(ts);
                    self.expect_id(&t, "rebuilt array")?;
                    (t, vec![J::Arr(js)], false)
                } else {
                    let t = json_roots(ts);
                    self.expect_id(&t, "rebuilt roots")?;
                    (t, js, true)
                };
                self.slots[to % SLOTS] = Some(Built {
                    tree,
                    items,
                    roots,
                    made_by: self.me,
                });
                self.cx.count("node_reused_in_another_branch");
                self.point();
            }
            AOp::Print(s, w, path, tg) => {
                let Some(b) = &self.slots[s % SLOTS] else {
                    return Ok(());
                };
                read_back(b, *w, path, *tg, self.cx).map_err(|v| match v {
                    Verdict::Fail(c, m) => Verdict::Fail(c, format!("thread {}: {m}", self.me)),
                    v => v,
                })?;
                *self.read += 1;
            }
            AOp::Die => (),
        }
        Ok(())
    }
}

fn kids(t: &Json) -> &[Json] {
    match &t.contents {
        Contents::Children(c) => c,
        Contents::Text(_) => &[],
    }
}

fn distinct_ids(t: &Json, seen: &mut std::collections::HashSet<u32>) -> bool {
    seen.insert(t.id) && kids(t).iter().all(|k| distinct_ids(k, seen))
}

fn separators(t: &Json) -> Result<(), String> {
    if let Contents::Children(c) = &t.contents {
        let last = c.iter().rposition(|k| !k.is_comment);
        for (i, k) in c.iter().enumerate() {
            let want = !k.is_comment && last.is_some_and(|l| i < l);
            if k.needs_separator != want {
                return Err(format!(
                    "child {i} of {} (a {}) {} marked as needing a separator",
                    c.len(),
                    if k.is_comment { "comment" } else { "value" },
                    if want { "is not" } else { "is" }
                ));
            }
            separators(k)?;
        }
    }
    Ok(())
}

/// Prints the document and compares what it reads as with what it was made of.
fn read_back(b: &Built, w: u16, path: &[usize], tg: u8, cx: &Ctx) -> Res<()> {
    let _scope = Scope::new(cx);
    if let Err(m) = separators(&b.tree) {
        return fail("separator", m);
    }
    let text = match catch(|| pretty_print_to_string(&b.tree, w)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return fail("print", format!("printing at width {w} failed: {e}")),
        Err(c) => return fail("panic", format!("printing at width {w}: {c:?}")),
    };
    cx.add_hash(hash_str(&text));
    let mut p = Parser { s: &text };
    let want = meaning(&b.items);
    match p.items(None, false) {
        Err(m) => {
            return fail(
                "unreadable",
                format!("at width {w}, {text:?} does not read back: {m}"),
            )
        }
        Ok(got) if got != want => {
            return fail(
                "meaning",
                format!("at width {w}, {text:?} reads back as {got:?} instead of {want:?}"),
            )
        }
        Ok(_) => (),
    }
    // From a focus anywhere in it, it is the same text. (A node taken from another document may
    // have been made before the last reset, and share its id with one made since: then there is
    // no telling where a path leads, and the focus stays at the start.)
    let mut ids = std::collections::HashSet::new();
    let distinct = distinct_ids(&b.tree, &mut ids);
    let (path, tg) = if distinct { (path, tg) } else { (&[][..], 0) };
    let mut t = &b.tree;
    let mut full = vec![];
    for i in path {
        match &t.contents {
            Contents::Children(c) if !c.is_empty() => {
                full.push(i % c.len());
                t = &c[i % c.len()];
            }
            _ => break,
        }
    }
    let target = match (tg, &t.contents) {
        (1, _) => FocusTarget::End,
        // (the notation of the labelled strings does not have their text when it is empty)
        (2, Contents::Text(s))
            if !s.is_empty() || !(0..LABELS.len()).any(|l| std::ptr::eq(t.notation, lab_notation(l as u8))) =>
        {
            FocusTarget::Text(path.len())
        }
        _ => FocusTarget::Start,
    };
    let lines = catch(|| {
        let (up, focus, down) = pretty_print(&b.tree, w, &full, target, None)?;
        fn chars<'d>(segs: &[Segment<'d, &'d Json>]) -> Vec<(char, Sty)> {
            segs.iter()
                .flat_map(|g| g.str.chars().map(|c| (c, sty(&g.style))))
                .collect()
        }
        let (mut v, mut st) = (vec![], vec![]);
        for l in up {
            let l = l?;
            st.push(chars(&l.segments));
            v.push(l.to_string());
        }
        v.reverse();
        st.reverse();
        v.push(focus.to_string());
        let mut mid = chars(&focus.left_segments);
        mid.extend(chars(&focus.right_segments));
        st.push(mid);
        for l in down {
            let l = l?;
            st.push(chars(&l.segments));
            v.push(l.to_string());
        }
        Ok::<_, partial_pretty_printer::PrintingError<std::convert::Infallible>>((v.join("\n"), st))
    });
    if let Ok(Ok((_, st))) = &lines {
        let mut want = vec![];
        tokens(&b.items, (0, false), false, &mut want);
        if let Err(m) = compare_styles(&want, st) {
            return fail("style", format!("at width {w} around {full:?}, {text:?} shows {m}"));
        }
    }
    match lines {
        Ok(Ok((l, _))) if l == text => Ok(()),
        Ok(Ok((l, _))) => fail(
            "lines",
            format!("at width {w}, the lines around {full:?} are {l:?}, the string {text:?}"),
        ),
        Ok(Err(e)) => fail("print", format!("opening at {full:?} {target:?}, width {w}: {e}")),
        Err(c) => fail("panic", format!("printing around {full:?}, width {w}: {c:?}")),
    }
}

struct ActorOut {
    res: Res<()>,
    stats: Stats,
    slots: Vec<Option<Built>>,
    nodes: u64,
    read: u64,
}

/// One actor is a succession of threads, each taking over where the one before died.
fn actor(sc: &Sc, me: usize, sched: &Arc<Sched>) -> ActorOut {
    let mut out = ActorOut {
        res: Ok(()),
        stats: Stats::default(),
        slots: (0..SLOTS).map(|_| None).collect(),
        nodes: 0,
        read: 0,
    };
    let ops = &sc.actors[me];
    let mut at = 0;
    while at < ops.len() && out.res.is_ok() {
        let end = (at..ops.len())
            .find(|i| ops[*i] == AOp::Die)
            .unwrap_or(ops.len());
        let life = &ops[at..end];
        let died = end < ops.len();
        at = end + 1;
        let o = &mut out;
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    let cx = Ctx::default();
                    *cx.actor.borrow_mut() = Some((sched.clone(), me));
                    let mut a = Actor {
                        me,
                        sched,
                        cx: &cx,
                        slots: &mut o.slots,
                        next: 0,
                        nodes: &mut o.nodes,
                        read: &mut o.read,
                    };
                    for op in life {
                        if let Err(v) = a.op(op) {
                            o.res = Err(v);
                            break;
                        }
                    }
                    if died {
                        cx.count("thread_replaced");
                    }
                    *cx.actor.borrow_mut() = None;
                    o.stats.ctx(&cx);
                })
                .unwrap()
                .join()
                .unwrap_or_else(|_| std::process::abort())
        });
    }
    out
}

impl PartialEq for AOp {
    fn eq(&self, o: &AOp) -> bool {
        matches!((self, o), (AOp::Die, AOp::Die))
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let n = sc.actors.len();
    if n == 0 || n > 6 {
        return Err(Verdict::Skip("actors"));
    }
    for op in sc.actors.iter().flatten() {
        if let AOp::Build(_, items, _) = op {
            if !items.iter().all(|j| !matches!(j.plain(), J::Pair(..)) && j.proper()) {
                // (only ever tried while minimising)
                return Err(Verdict::Skip("not a JSON document"));
            }
        }
    }
    let sched = Arc::new(Sched::new(n, &sc.plan, sc.seed, sc.every));
    let outs: Vec<ActorOut> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|me| {
                let sched = sched.clone();
                s.spawn(move || {
                    struct Fin(Arc<Sched>, usize);
                    impl Drop for Fin {
                        fn drop(&mut self) {
                            self.0.finish(self.1);
                        }
                    }
                    let _fin = Fin(sched.clone(), me);
                    sched.start(me);
                    match catch(|| actor(sc, me, &sched)) {
                        Ok(o) => o,
                        Err(c) => ActorOut {
                            res: fail("panic", format!("thread {me}: {c:?}")),
                            stats: Stats::default(),
                            slots: vec![],
                            nodes: 0,
                            read: 0,
                        },
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (points, switches, hash) = sched.summary();
    stats.mix(hash);
    stats.add("scheduling_points", points);
    stats.add("thread_switches", switches);
    let (mut nodes, mut read) = (0, 0);
    let cx = Ctx::default();
    let mut first = Ok(());
    for o in outs {
        for (k, v) in &o.stats.counters {
            stats.add(k, *v);
        }
        stats.sim_time += o.stats.sim_time + points / n as u64;
        stats.spans += o.stats.spans;
        stats.hash = fold(stats.hash, o.stats.hash);
        nodes += o.nodes;
        read += o.read;
        if first.is_ok() {
            first = o.res;
        }
        // Documents outlive the threads that made them, and read the same from elsewhere.
        for b in o.slots.iter().flatten() {
            if first.is_ok() {
                first = read_back(b, 30, &[], 0, &cx).map_err(|v| match v {
                    Verdict::Fail(c, m) => {
                        Verdict::Fail(c, format!("made by thread {}, printed by another: {m}", b.made_by))
                    }
                    v => v,
                });
            }
            stats.add("documents_printed_by_another_thread", 1);
        }
    }
    stats.add("nodes_built", nodes);
    stats.add("documents_read_back", read);
    stats.ctx(&cx);
    stats.nontrivial = nodes >= 3 && read >= 1 && (n == 1 || switches > 0);
    first
}
