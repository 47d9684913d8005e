//! C14: stored notations survive storage intact, and damaged ones are contained.

use super::common::*;
use super::*;
use crate::gen;
use crate::rng::{fold, hash_str, Rng};
use crate::session::Op as Script;
use crate::simdoc::*;
use crate::spec::*;
use partial_pretty_printer::{pretty_print, pretty_print_to_string, CheckPos, Notation};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::{self, Read, Write};

pub const RULE: &str = "a simulated disk of several files holding notations (well-formed and random ones, as JSON or in binary), written and read in pieces of random size with interrupted calls, I/O errors and a full disk; crashes keep any subset of the unsynced sectors; sectors are lost, bits flip, byte ranges are lost, repeated or misdirected into other files; whatever can be read back is validated and printed with matching and mismatching documents; non-trivial: at least one file read back whole and one that had been damaged was read";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum DOp {
    /// Write this notation over this file, in pieces drawn from this seed, failing at this byte.
    Save {
        f: usize,
        note: usize,
        seed: u64,
        fail: Option<usize>,
        /// Into a new file that replaces the old one once it is on disk.
        atomic: bool,
    },
    Sync(usize),
    /// Power failure: every unsynced file keeps the sectors in the mask, and its old or new length.
    Crash {
        keep: u64,
        lens: u64,
    },
    /// A power failure while unsynced sectors were in flight leaves them zeroed.
    CrashZero(u64),
    Truncate(usize, usize),
    Flip(usize, usize, u8),
    /// A byte of the file becomes another byte of the same file.
    Smear(usize, usize, usize),
    ZeroSector(usize, usize),
    LoseRange(usize, usize, usize),
    RepeatRange(usize, usize, usize),
    /// A range of one file is written over a range of another one; both ranges hold whole values if
    /// the files hold JSON.
    Misdirect {
        from: usize,
        at: usize,
        to: usize,
        over: usize,
    },
    Load {
        f: usize,
        seed: u64,
        fail: Option<usize>,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub doc: DocSpec,
    /// Notations that need not be well-formed.
    pub wild: Vec<Note>,
    /// Each file's format: JSON, indented JSON, or binary.
    pub formats: Vec<u8>,
    pub sector: usize,
    pub ops: Vec<DOp>,
    pub widths: Vec<u16>,
    pub script: Vec<Script>,
}

// ---------------------------------------------------------------- generation

/// Any string at all.
fn odd(r: &mut Rng) -> String {
    const ENDS: &[char] = &[
        ' ', '\t', '\n', '\r', '\0', '\u{1b}', '\u{7f}', '\u{a0}', '\u{200b}', '\u{feff}', '\u{2028}',
        '\u{fffd}', '\u{ffff}', '\u{10ffff}', '"', '\\', '/', '\'', '\u{301}', '\u{d7ff}', '\u{1f468}',
    ];
    let n = match r.below(12) {
        0 => r.range(200, 700),
        _ => r.range(1, 6),
    };
    (0..n)
        .map(|_| match r.below(4) {
            0 => *r.pick(ENDS),
            1 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
            2 => char::from(r.below(256) as u8),
            _ => 'a',
        })
        .collect()
}

/// Any notation at all.
fn wild(r: &mut Rng, depth: usize) -> Note {
    let b = |r: &mut Rng| Box::new(wild(r, depth - 1));
    let idx = |r: &mut Rng| {
        if r.pct(10) {
            // around the sizes of the integer types
            let at = (1i64 << *r.pick(&[7, 8, 15, 16, 31, 32, 53, 62])) - r.range(0, 2) as i64;
            return if r.pct(50) { at } else { -at };
        }
        *r.pick(&[0i64, 0, 0, 1, 1, -1, -1, 2, -2, 7, -7, i64::MAX, i64::MIN, 1 << 40])
    };
    match r.below(if depth == 0 { 9 } else { 22 }) {
        0 => Note::Empty,
        1 => Note::Nl,
        2 => Note::Eol,
        3 if r.pct(30) => lit(odd(r)),
        3 | 4 => lit(*r.pick(&["", "a", "hello", "\"", "\\", "漢字", "e\u{301}", "\t", "a\u{0}b", "\u{1F600}", ", "])),
        5 => Note::Text,
        6 => Note::Mark,
        7 => Note::Child(idx(r)),
        8 => r.pick(&[Note::Left, Note::Right]).clone(),
        9..=12 => cat((0..r.range(2, 4)).map(|_| wild(r, depth - 1)).collect()),
        13 => Note::CatR((0..r.range(2, 3)).map(|_| wild(r, depth - 1)).collect()),
        14 => Note::Flat(b(r)),
        15 if r.pct(15) => Note::Indent(odd(r), r.pct(40).then(|| r.below(8) as u8), b(r)),
        15 => Note::Indent(r.pick(&["", "  ", "// "]).to_string(), r.pct(40).then(|| r.below(8) as u8), b(r)),
        16 => Note::Choice(b(r), b(r)),
        17 => Note::Check(
            r.below(8) as u8,
            match r.below(5) {
                0 => CPos::Here,
                1 => CPos::Left,
                2 => CPos::Right,
                _ => CPos::Child(idx(r)),
            },
            b(r),
            b(r),
        ),
        18 => Note::Style(r.below(256) as u8, b(r)),
        19 => Note::Count(b(r), b(r), b(r)),
        _ => Note::Fold(b(r), b(r)),
    }
}

/// Replaces a random part of `n`.
fn mutate(r: &mut Rng, n: &mut Note) {
    let mut cur = n;
    loop {
        let leaf = match cur {
            Note::Cat(v) | Note::CatR(v) => v.is_empty(),
            Note::Flat(_) | Note::Indent(..) | Note::Style(..) => false,
            Note::Choice(..) | Note::Check(..) | Note::Fold(..) | Note::Count(..) => false,
            _ => true,
        };
        if leaf || r.pct(25) {
            *cur = wild(r, 2);
            return;
        }
        cur = match cur {
            Note::Flat(x) | Note::Indent(_, _, x) | Note::Style(_, x) => x,
            Note::Choice(a, b) | Note::Check(_, _, a, b) | Note::Fold(a, b) => {
                if r.pct(50) {
                    a
                } else {
                    b
                }
            }
            Note::Count(a, b, c) => match r.below(3) {
                0 => a,
                1 => b,
                _ => c,
            },
            Note::Cat(v) | Note::CatR(v) => {
                let i = r.below(v.len());
                &mut v[i]
            }
            _ => return,
        };
    }
}

pub fn gen(r: &mut Rng) -> Sc {
    let mut doc = gen::doc(r, 1);
    let mut small = gen::Mix::random(r);
    small.max_nodes = small.max_nodes.min(15);
    if r.pct(70) {
        doc = gen::Gen::new(r, small).doc(1);
    }
    let nw = r.range(1, 5);
    let wild = (0..nw)
        .map(|_| match r.below(3) {
            0 => {
                let d = r.range(1, 5);
                wild(r, d)
            }
            1 => {
                // a well-formed one with flaws
                let mut n = r.pick(&doc.notes).clone();
                for _ in 0..r.range(1, 2) {
                    mutate(r, &mut n);
                }
                n
            }
            _ => {
                let d = r.range(1, 3);
                wild(r, d)
            }
        })
        .collect::<Vec<_>>();
    let n = doc.notes.len();
    let files = n + r.range(0, 3);
    let one = r.below(3) as u8;
    let mixed = r.pct(20);
    let formats = (0..files)
        .map(|_| if mixed { r.below(3) as u8 } else { one })
        .collect();
    let mut ops = vec![];
    for f in 0..files {
        let note = if f < n || r.pct(30) { f } else { n + r.below(nw) };
        ops.push(DOp::Save {
            f,
            note,
            seed: r.next(),
            fail: None,
            atomic: r.pct(50),
        });
        ops.push(DOp::Sync(f));
    }
    let len = r.range(0, 8);
    for _ in 0..len {
        let f = r.below(files);
        let fail = |r: &mut Rng| r.pct(15).then(|| r.below(300));
        let any = |r: &mut Rng| r.below(1 << 20);
        ops.push(match r.below(20) {
            0..=4 => DOp::Save {
                f,
                note: r.below(n + nw),
                seed: r.next(),
                fail: fail(r),
                atomic: r.pct(30),
            },
            5 => DOp::Sync(f),
            6 | 7 => DOp::Crash {
                keep: r.next() & r.next(),
                lens: r.next(),
            },
            8 => DOp::CrashZero(r.next()),
            9 => DOp::Truncate(f, any(r)),
            10 | 11 => DOp::Flip(f, any(r), r.below(8) as u8),
            12 => DOp::Smear(f, any(r), any(r)),
            13 => DOp::ZeroSector(f, any(r)),
            14 => DOp::LoseRange(f, any(r), any(r)),
            15 => DOp::RepeatRange(f, any(r), any(r)),
            16..=18 => DOp::Misdirect {
                from: r.below(files),
                at: any(r),
                to: f,
                over: any(r),
            },
            _ => DOp::Load {
                f,
                seed: r.next(),
                fail: fail(r),
            },
        });
    }
    let script = gen::script(r, &doc, 6, 0, 0);
    Sc {
        widths: (0..r.range(1, 3)).map(|_| gen::width(r, &doc, 0)).collect(),
        doc,
        wild,
        formats,
        sector: *r.pick(&[1, 4, 16, 64, 512]),
        ops,
        script,
    }
}

// ---------------------------------------------------------------- what validation must say

fn from_real(n: &Note0) -> Note {
    let b = |n: &Note0| Box::new(from_real(n));
    match n {
        Notation::Empty => Note::Empty,
        Notation::Newline => Note::Nl,
        Notation::EndOfLine => Note::Eol,
        Notation::Literal(s) => Note::Lit(s.clone()),
        Notation::Text => Note::Text,
        Notation::Flat(x) => Note::Flat(b(x)),
        Notation::Indent(s, l, x) => Note::Indent(s.clone(), *l, b(x)),
        Notation::Concat(x, y) => Note::Cat(vec![from_real(x), from_real(y)]),
        Notation::Choice(x, y) => Note::Choice(b(x), b(y)),
        Notation::Check(c, p, x, y) => Note::Check(
            *c,
            match p {
                CheckPos::Here => CPos::Here,
                CheckPos::Child(i) => CPos::Child(*i as i64),
                CheckPos::LeftChild => CPos::Left,
                CheckPos::RightChild => CPos::Right,
            },
            b(x),
            b(y),
        ),
        Notation::Child(i) => Note::Child(*i as i64),
        Notation::Style(l, x) => Note::Style(*l, b(x)),
        Notation::FocusMark => Note::Mark,
        Notation::Count { zero, one, many } => Note::Count(b(zero), b(one), b(many)),
        Notation::Fold { first, join } => Note::Fold(b(first), b(join)),
        Notation::Left => Note::Left,
        Notation::Right => Note::Right,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kids {
    Any,
    Zero,
    One,
    More,
}

#[derive(Clone, Copy, PartialEq)]
enum InFold {
    No,
    First,
    Join,
}

/// The state of one way through the notation: did it just pass an end-of-line, has it passed a mark?
/// (Numbered 0 to 3.) Sets of them are bit masks.
type Ways = u8;
const EOL: u8 = 1;
const MARK: u8 = 2;

fn each(w: Ways, f: impl Fn(u8) -> u8) -> Ways {
    (0..4).filter(|s| w >> s & 1 == 1).fold(0, |a, s| a | 1 << f(s))
}

/// Collects the documented flaws of a notation, by the names of their errors, from all the ways there
/// are through it up to here; returns them from there on.
fn flaws(n: &Note, w: Ways, kids: Kids, fold: InFold, out: &mut BTreeSet<String>) -> Ways {
    let mut past_text = |w: Ways| {
        if (0..4).any(|s| w >> s & 1 == 1 && s & EOL != 0) {
            out.insert("TextAfterEol".into());
        }
        each(w, |s| s & !EOL)
    };
    match n {
        Note::Empty => w,
        Note::Nl => each(w, |s| s & !EOL),
        Note::Eol => each(w, |s| s | EOL),
        Note::Lit(_) => past_text(w),
        Note::Text => {
            let w = past_text(w);
            if kids != Kids::Any {
                out.insert("TextInsideCount".into());
            }
            if fold != InFold::No {
                out.insert("TextInsideFold".into());
            }
            w
        }
        Note::Flat(x) | Note::Indent(_, _, x) | Note::Style(_, x) => flaws(x, w, kids, fold, out),
        Note::Cat(v) | Note::CatR(v) => v.iter().fold(w, |w, x| flaws(x, w, kids, fold, out)),
        Note::Choice(x, y) => flaws(x, w, kids, fold, out) | flaws(y, w, kids, fold, out),
        Note::Check(_, p, x, y) => {
            match p {
                CPos::Child(_) if kids == Kids::Zero => {
                    out.insert("CountZeroCheckPosChild".into());
                }
                CPos::Child(i) if kids == Kids::One && *i != 0 && *i != -1 => {
                    out.insert(format!("CountOneCheckPosChildIndex({i})"));
                }
                CPos::Left if fold != InFold::Join => {
                    out.insert("CheckPosLeftOutsideJoin".into());
                }
                CPos::Right if fold != InFold::Join => {
                    out.insert("CheckPosRightOutsideJoin".into());
                }
                _ => (),
            }
            flaws(x, w, kids, fold, out) | flaws(y, w, kids, fold, out)
        }
        Note::Child(i) => {
            if kids == Kids::Zero {
                out.insert("CountZeroChild".into());
            } else if kids == Kids::One && *i != 0 && *i != -1 {
                out.insert(format!("CountOneChildIndex({i})"));
            }
            each(w, |s| s & !EOL)
        }
        Note::Mark => {
            if (0..4).all(|s| w >> s & 1 == 0 || s & MARK != 0) {
                out.insert("MultipleFocusMarks".into());
            }
            each(w, |s| s | MARK)
        }
        Note::Count(x, y, z) => {
            if kids != Kids::Any {
                out.insert("NestedCount".into());
            }
            flaws(x, w, Kids::Zero, fold, out)
                | flaws(y, w, Kids::One, fold, out)
                | flaws(z, w, Kids::More, fold, out)
        }
        // (what a fold or a placeholder displays is not looked into: neither its marks nor its ends of lines)
        Note::Fold(x, y) => {
            if fold != InFold::No {
                out.insert("NestedFold".into());
            }
            flaws(x, 1, kids, InFold::First, out);
            flaws(y, 1, kids, InFold::Join, out);
            each(w, |s| s & !EOL)
        }
        Note::Left | Note::Right => {
            if fold != InFold::Join {
                let l = matches!(n, Note::Left);
                out.insert(if l { "LeftOutsideJoin" } else { "RightOutsideJoin" }.into());
            }
            each(w, |s| s & !EOL)
        }
    }
}

// ---------------------------------------------------------------- the disk

/// Takes (or gives) what it is handed in pieces, with interruptions, up to a failing byte.
struct Pieces {
    r: Rng,
    fail: Option<usize>,
    done: usize,
    interrupted: u64,
    short: u64,
    failed: bool,
}

impl Pieces {
    fn new(seed: u64, fail: Option<usize>) -> Pieces {
        Pieces {
            r: Rng::new(seed),
            fail,
            done: 0,
            interrupted: 0,
            short: 0,
            failed: false,
        }
    }
    fn next(&mut self, n: usize) -> io::Result<usize> {
        if n == 0 {
            return Ok(0);
        }
        if self.r.pct(10) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut k = if self.r.pct(60) { n } else { self.r.range(1, n) };
        if let Some(f) = self.fail {
            if self.done >= f {
                self.failed = true;
                return Err(io::Error::other("simulated I/O error"));
            }
            k = k.min(f - self.done);
        }
        if k < n {
            self.short += 1;
        }
        self.done += k;
        Ok(k)
    }
}

struct W<'a>(Pieces, &'a mut Vec<u8>);
impl Write for W<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.0.next(buf.len())?;
        self.1.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct R<'a>(Pieces, &'a [u8]);
impl Read for R<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.0.next(buf.len().min(self.1.len()))?;
        buf[..n].copy_from_slice(&self.1[..n]);
        self.1 = &self.1[n..];
        Ok(n)
    }
}

fn write(w: impl Write, n: &Note0, format: u8) -> Result<(), String> {
    match format {
        0 => serde_json::to_writer(w, n).map_err(|e| e.to_string()),
        1 => serde_json::to_writer_pretty(w, n).map_err(|e| e.to_string()),
        _ => bincode::serialize_into(w, n).map_err(|e| e.to_string()),
    }
}

fn read(r: impl Read, format: u8) -> Result<Note0, String> {
    match format {
        0 | 1 => {
            let mut d = serde_json::Deserializer::from_reader(r);
            d.disable_recursion_limit();
            let n = Note0::deserialize(&mut d).map_err(|e| e.to_string())?;
            d.end().map_err(|e| e.to_string())?;
            Ok(n)
        }
        _ => {
            use bincode::Options;
            bincode::DefaultOptions::new()
                .with_fixint_encoding()
                .allow_trailing_bytes()
                .with_limit(1 << 20)
                .deserialize_from(r)
                .map_err(|e| e.to_string())
        }
    }
}

#[derive(Default, Clone)]
struct File {
    disk: Vec<u8>,
    /// What is in the page cache, and whether it is to replace the file as a whole.
    cache: Option<(Vec<u8>, bool)>,
}

impl File {
    fn now(&self) -> &[u8] {
        self.cache.as_ref().map_or(&self.disk, |c| &c.0)
    }
    fn edit(&mut self, f: impl FnOnce(&mut Vec<u8>)) {
        f(match &mut self.cache {
            Some((c, _)) => c,
            None => &mut self.disk,
        });
    }
    fn sync(&mut self) {
        if let Some((c, _)) = self.cache.take() {
            self.disk = c;
        }
    }
    fn crash(&mut self, keep: u64, new_len: bool, zero: bool, sector: usize) -> bool {
        let Some((c, atomic)) = self.cache.take() else {
            return false;
        };
        if atomic {
            // The new file never replaced the old one.
            return true;
        }
        let len = if new_len { c.len() } else { self.disk.len() };
        let mut out = vec![0; len];
        for (i, o) in out.iter_mut().enumerate() {
            let kept = keep >> (i / sector % 64) & 1 == 1;
            let src = if kept { &c } else { &self.disk };
            *o = match src.get(i) {
                Some(b) if kept || !zero => *b,
                _ => 0,
            };
        }
        self.disk = out;
        true
    }
}

/// Where whole JSON values start and end.
fn values(b: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut open = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'{' | b'[' => open.push(i),
            b'}' | b']' => {
                if let Some(s) = open.pop() {
                    out.push((s, i + 1));
                }
            }
            b'"' => {
                let s = i;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += 1 + (b[i] == b'\\') as usize;
                }
                // not the name of a field
                let mut j = i + 1;
                while j < b.len() && b[j] == b' ' {
                    j += 1;
                }
                if j < b.len() && b[j] != b':' {
                    out.push((s, i + 1));
                }
            }
            b'-' | b'0'..=b'9' => {
                let s = i;
                while i < b.len() && (b[i] == b'-' || b[i].is_ascii_digit()) {
                    i += 1;
                }
                out.push((s, i));
                continue;
            }
            _ => (),
        }
        i += 1;
    }
    out.sort();
    out
}

// ---------------------------------------------------------------- execution

struct Loaded {
    note: Note0,
    spec: Note,
}

fn load(bytes: &[u8], format: u8, p: Pieces, cx: &Ctx) -> Result<Result<Loaded, String>, Verdict> {
    let mut r = R(p, bytes);
    let out = match catch(|| read(&mut r, format)) {
        Ok(o) => o,
        Err(c) => return fail("panic", format!("loading {} bytes: {c:?}", bytes.len())),
    };
    for (k, n) in [("interrupted_read", r.0.interrupted), ("short_read", r.0.short)] {
        if n > 0 {
            cx.count(k);
        }
    }
    if r.0.failed {
        cx.count("read_error");
    }
    Ok(out.map(|note| Loaded {
        spec: from_real(&note),
        note,
    }))
}

fn clip(s: &str) -> String {
    s.chars().take(400).collect()
}

/// Validates it; `None` if it is rejected.
fn judge(
    n: &Note0,
    spec: &Note,
    kinds: &mut BTreeMap<String, u64>,
) -> Result<Option<partial_pretty_printer::ValidNotation<u8, u8>>, Verdict> {
    let got = match catch(|| n.clone().validate()) {
        Ok(v) => v,
        Err(c) => return fail("panic", format!("validating {}: {c:?}", clip(&n.to_string()))),
    };
    let mut want = BTreeSet::new();
    flaws(spec, 1, Kids::Any, InFold::No, &mut want);
    let text = || clip(&n.to_string());
    match got {
        Ok(v) if want.is_empty() => Ok(Some(v)),
        Ok(_) => fail("accepted", format!("validation accepted {}, which has {want:?}", text())),
        Err(e) => {
            let e = format!("{e:?}");
            if want.contains(&e) {
                *kinds.entry(e.split('(').next().unwrap_or(&e).to_string()).or_insert(0) += 1;
                Ok(None)
            } else if want.is_empty() {
                fail("rejected", format!("validation rejected {} for no reason: {e}", text()))
            } else {
                fail("reason", format!("validation rejected {} as {e}, which has {want:?}", text()))
            }
        }
    }
}

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    let nf = sc.formats.len();
    let all: Vec<&Note> = sc.doc.notes.iter().chain(&sc.wild).collect();
    if nf == 0 || sc.doc.notes.is_empty() || sc.sector == 0 || sc.doc.vers.len() != 1 {
        return Err(Verdict::Skip("empty"));
    }
    let cx = Ctx::default();
    let out = storage(sc, &all, nf, &cx, stats);
    stats.ctx(&cx);
    out
}

fn storage(sc: &Sc, all: &[&Note], nf: usize, cx: &Ctx, stats: &mut Stats) -> Result<(), Verdict> {
    let real: Vec<Note0> = all.iter().map(|n| n.to_real()).collect();
    let specs: Vec<Note> = real.iter().map(from_real).collect();
    let mut kinds = BTreeMap::new();
    let accepted: Vec<bool> = real
        .iter()
        .zip(&specs)
        .map(|(n, s)| Ok(judge(n, s, &mut kinds)?.is_some()))
        .collect::<Result<_, Verdict>>()?;
    // Everything that was ever written completely: bytes, format, notation.
    let mut written: Vec<(Vec<u8>, u8, usize)> = vec![];
    let mut files: Vec<File> = vec![File::default(); nf];
    let (mut whole, mut damaged) = (0u64, 0u64);
    let mut table: Vec<Option<Loaded>> = (0..nf).map(|_| None).collect();
    let mut touched = vec![false; nf];

    let mut ops: Vec<DOp> = sc.ops.clone();
    for f in 0..nf {
        ops.push(DOp::Load {
            f,
            seed: f as u64,
            fail: None,
        });
    }
    let n_ops = ops.len();
    for (i, op) in ops.iter().enumerate() {
        cx.clock.set(cx.clock.get() + 1);
        match op {
            DOp::Save { f, note, seed, fail: bad, atomic } => {
                let (f, note) = (f % nf, note % all.len());
                let mut buf = vec![];
                let mut w = W(Pieces::new(*seed, *bad), &mut buf);
                let res = match catch(|| write(&mut w, &real[note], sc.formats[f])) {
                    Ok(r) => r,
                    Err(c) => return fail("panic", format!("storing {}: {c:?}", clip(&real[note].to_string()))),
                };
                if w.0.interrupted > 0 {
                    cx.count("interrupted_write");
                }
                if w.0.short > 0 {
                    cx.count("short_write");
                }
                let failed = w.0.failed;
                if failed {
                    cx.count("disk_full");
                }
                if res.is_ok() == failed {
                    return fail("save", format!("storing {}: {res:?}, I/O error: {failed}", clip(&real[note].to_string())));
                }
                if res.is_ok() {
                    cx.add_hash(buf.len() as u64);
                    written.push((buf.clone(), sc.formats[f], note));
                    touched[f] = false;
                } else if *atomic {
                    continue; // the old file stays
                } else {
                    touched[f] = true;
                }
                files[f].cache = Some((buf, *atomic));
            }
            DOp::Sync(f) => files[f % nf].sync(),
            DOp::Crash { keep, lens } => {
                for (k, f) in files.iter_mut().enumerate() {
                    if f.crash(keep.rotate_left(k as u32 * 7), lens >> (k % 64) & 1 == 1, false, sc.sector) {
                        cx.count("crash_with_unsynced_writes");
                        touched[k] = true;
                    }
                }
            }
            DOp::CrashZero(keep) => {
                for (k, f) in files.iter_mut().enumerate() {
                    if f.crash(keep.rotate_left(k as u32 * 7), true, true, sc.sector) {
                        cx.count("crash_losing_sectors");
                        touched[k] = true;
                    }
                }
            }
            DOp::Truncate(f, n) => {
                touched[f % nf] = true;
                cx.count("truncated");
                files[f % nf].edit(|b| b.truncate(n % (b.len() + 1)));
            }
            DOp::Flip(f, n, bit) => {
                touched[f % nf] = true;
                cx.count("bit_flip");
                files[f % nf].edit(|b| {
                    if !b.is_empty() {
                        let n = n % b.len();
                        b[n] ^= 1 << (bit % 8);
                    }
                });
            }
            DOp::Smear(f, n, m) => {
                touched[f % nf] = true;
                cx.count("byte_smeared");
                files[f % nf].edit(|b| {
                    if !b.is_empty() {
                        let (n, m) = (n % b.len(), m % b.len());
                        b[n] = b[m];
                    }
                });
            }
            DOp::ZeroSector(f, n) => {
                touched[f % nf] = true;
                cx.count("sector_lost");
                files[f % nf].edit(|b| {
                    if !b.is_empty() {
                        let s = n % b.len() / sc.sector * sc.sector;
                        let e = (s + sc.sector).min(b.len());
                        b[s..e].fill(0);
                    }
                });
            }
            DOp::LoseRange(f, n, m) | DOp::RepeatRange(f, n, m) => {
                let lose = matches!(op, DOp::LoseRange(..));
                touched[f % nf] = true;
                cx.count(if lose { "range_lost" } else { "range_repeated" });
                let json = sc.formats[f % nf] < 2;
                files[f % nf].edit(|b| {
                    let v = if json { values(b) } else { vec![] };
                    let (mut x, mut y) = if v.is_empty() || m % 3 == 0 {
                        (n % (b.len() + 1), m % (b.len() + 1))
                    } else {
                        v[n % v.len()]
                    };
                    if x > y {
                        (x, y) = (y, x);
                    }
                    if lose {
                        b.drain(x..y);
                    } else if b.len() < 100_000 {
                        let part = b[x..y].to_vec();
                        b.splice(y..y, part);
                    }
                });
            }
            DOp::Misdirect { from, at, to, over } => {
                let (from, to) = (from % nf, to % nf);
                let (j, k) = (sc.formats[from] < 2, sc.formats[to] < 2);
                if j != k {
                    continue;
                }
                touched[to] = true;
                cx.count("misdirected_write");
                let src = files[from].now().to_vec();
                files[to].edit(|b| {
                    if src.is_empty() || b.is_empty() || b.len() > 100_000 {
                        return;
                    }
                    if j {
                        let (v, w) = (values(&src), values(b));
                        if v.is_empty() || w.is_empty() {
                            return;
                        }
                        let (s, e) = v[at % v.len()];
                        let (x, y) = w[over % w.len()];
                        b.splice(x..y, src[s..e].iter().copied());
                    } else {
                        // from one tag to another
                        let (s, x) = (at % src.len(), over % b.len());
                        let n = (src.len() - s).min(b.len() - x).min(sc.sector);
                        b[x..x + n].copy_from_slice(&src[s..s + n]);
                    }
                });
            }
            DOp::Load { f, seed, fail: bad } => {
                let f = f % nf;
                let format = sc.formats[f];
                let bytes = files[f].now();
                cx.add_hash(hash_str(&String::from_utf8_lossy(bytes)));
                let is: Vec<usize> = written
                    .iter()
                    .filter(|(b, g, _)| *g == format && b == bytes)
                    .map(|x| x.2)
                    .collect();
                let fails = bad.is_some_and(|k| k < bytes.len());
                let got = load(bytes, format, Pieces::new(*seed, *bad), cx)?;
                cx.add_hash(got.is_ok() as u64);
                if fails && format < 2 && got.is_ok() {
                    return fail("load", "an I/O error while loading went unnoticed");
                }
                for note in &is {
                    match &got {
                        Err(_) if fails => (),
                        Err(e) => {
                            return fail(
                                "lost",
                                format!("{} does not load: {e}", clip(&real[*note].to_string())),
                            )
                        }
                        Ok(l) if l.spec != specs[*note] => {
                            return fail(
                                "changed",
                                format!(
                                    "stored {}, loaded {}",
                                    clip(&format!("{:?}", specs[*note])),
                                    clip(&format!("{:?}", l.spec))
                                ),
                            )
                        }
                        Ok(_) => (),
                    }
                }
                if !is.is_empty() && got.is_ok() {
                    whole += 1;
                }
                if is.is_empty() && touched[f] {
                    damaged += 1;
                    stats.add("damaged_files_read", 1);
                }
                let last = i + nf >= n_ops;
                if let Ok(l) = got {
                    let v = judge(&l.note, &l.spec, &mut kinds)?;
                    if let Some(n) = is.first() {
                        if v.is_some() != accepted[*n] {
                            return fail("verdict", "validation changed its mind after a reload");
                        }
                    } else {
                        stats.add(
                            if v.is_some() { "damaged_files_accepted" } else { "damaged_files_rejected" },
                            1,
                        );
                    }
                    // What loads can be stored again.
                    let mut again = vec![];
                    if write(&mut again, &l.note, format).is_err() {
                        return fail("save", format!("{} cannot be stored", clip(&l.note.to_string())));
                    }
                    match load(&again, format, Pieces::new(*seed, None), cx)? {
                        Ok(m) if m.spec == l.spec => (),
                        _ => return fail("changed", format!("{} does not survive being stored", clip(&format!("{:?}", l.spec)))),
                    }
                    if v.is_some() && last {
                        table[f] = Some(l);
                    }
                }
            }
        }
    }
    for (k, n) in kinds {
        stats.add(&format!("rejected.{k}"), n);
    }
    stats.add("files_read_back_whole", whole);
    stats.nontrivial = whole > 0 && damaged > 0;

    // Print with what could be read back: what belongs to the document, where it survived.
    let mut notes: Vec<Note> = vec![];
    let mut valid = vec![];
    let mut index: Vec<Option<usize>> = vec![None; sc.doc.notes.len()];
    for (f, l) in table.into_iter().enumerate() {
        if let Some(l) = l {
            if f < index.len() {
                index[f] = Some(notes.len());
            }
            notes.push(l.spec);
            valid.push(l.note.validate().ok());
        }
    }
    if notes.is_empty() {
        return Ok(());
    }
    let mut tree = sc.doc.vers[0].clone();
    fn renumber(t: &mut Tree, index: &[Option<usize>], n: usize) {
        t.n = index.get(t.n).copied().flatten().unwrap_or(t.n % n);
        t.k.iter_mut().for_each(|k| renumber(k, index, n));
    }
    renumber(&mut tree, &index, notes.len());
    let Some(mut st) = Store::from_parts(notes, vec![Version::from_tree(&tree)], 0, true) else {
        return Ok(());
    };
    st.notes = valid.into_iter().flatten().collect();
    if st.notes.len() != st.specs.len() {
        return fail("verdict", "validation changed its mind");
    }
    let mut known = true;
    for n in &st.specs {
        n.walk(&mut |n| {
            if let Note::Lit(s) | Note::Indent(s, _, _) = n {
                known &= gen::in_alphabet(s);
            }
        });
    }
    if known && st.well_formed(0) {
        let a = Aspects {
            lines: true,
            split: true,
            styles: true,
            ..Aspects::default()
        };
        stats.add("printed_like_the_model", 1);
        let was = stats.nontrivial;
        let r = run_store(
            &st,
            &sc.script,
            true,
            a,
            Tuning {
                cap: 50_000,
                ..Tuning::default()
            },
            stats,
        );
        stats.nontrivial = was;
        return match r {
            Err(Verdict::Skip(_)) => Ok(()),
            r => r,
        };
    }
    // Documents that do not match: no panic.
    stats.add("printed_with_a_mismatching_document", 1);
    let n = st.vers[0].nodes.len();
    for w in &sc.widths {
        for k in 0..4usize {
            let cx2 = Ctx::default();
            cx2.limit.set(100_000);
            let _scope = Scope::new(&cx2);
            let mut path = vec![];
            let mut t = &tree;
            let mut z = k * 7919 + n;
            while k > 0 && !t.k.is_empty() && t.t.is_none() && z % 5 != 0 {
                path.push(z % t.k.len());
                t = &t.k[z % t.k.len()];
                z /= 2;
            }
            let tg = [Target::Start, Target::End, Target::Mark, Target::Text(0)][k];
            let res = catch(|| {
                let root = Hd::<true>::root(&st, &cx2);
                let mut h = 0u64;
                if k == 0 {
                    if let Ok(s) = pretty_print_to_string(root, *w) {
                        h = hash_str(&s);
                    }
                }
                if let Ok((mut up, line, mut down)) = pretty_print(root, *w, &path, tg.real(), None) {
                    h = fold(h, hash_str(&line.to_string()));
                    for i in 0..60 {
                        let l = if i % 2 == 0 { up.next() } else { down.next() };
                        match l {
                            Some(Ok(l)) => h = fold(h, hash_str(&l.to_string())),
                            Some(Err(_)) => h = fold(h, 1),
                            None => h = fold(h, 2),
                        }
                    }
                }
                h
            });
            let bad = cx2.bad.borrow().clone();
            match res {
                Ok(h) => cx.add_hash(h),
                Err(Caught::Steps) => {
                    stats.add("too_big_to_print", 1);
                    return Ok(());
                }
                Err(c) => {
                    return fail(
                        "print_panic",
                        format!("printing an accepted notation at width {w}, path {path:?}, {tg:?}: {c:?} {bad:?}"),
                    )
                }
            }
            cx.acc.set(cx.acc.get() + cx2.acc.get());
            cx.spans.set(cx.spans.get() + cx2.spans.get());
        }
    }
    Ok(())
}
