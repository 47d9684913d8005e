//! A simulated client of the printer: opens prints, pulls lines in any order, abandons them.

use crate::model::RLine;
use crate::rng::{fold, hash_str};
use crate::simdoc::*;
use crate::spec::*;
use partial_pretty_printer::{
    pretty_print, pretty_print_to_string, Line, PrettyDoc, PrintingError, Segment,
};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// Open a print in slot `s` (replacing, i.e. abandoning, what was open there).
    Open {
        s: usize,
        w: u16,
        path: Vec<usize>,
        tg: Target,
        root: bool,
    },
    Up(usize),
    Down(usize),
    /// Pass over n lines and take the next one (`Iterator::nth`).
    Skip { s: usize, up: bool, n: usize },
    /// Take all the rest at once (`Iterator::fold`).
    Rest { s: usize, up: bool },
    /// Abandon the print in this slot.
    Drop(usize),
    Str(u16),
    /// Edit the document: switch to this version (all open prints are abandoned first).
    Edit(usize),
    /// The k-th document access of the next operation fails.
    Arm(u64),
    /// The k-th style access of the next operation fails.
    ArmStyle(u64),
    /// The k-th document access of the next operation panics.
    ArmPanic(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RErr {
    Doc(SimErr),
    Eol,
    InvalidPath(usize),
    NoMark,
    NoText,
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Focus(RLine, RLine),
    Line(RLine),
    End,
    Rest(Vec<Out>),
    Hint(usize, Option<usize>),
    Str(String),
    Err(RErr),
    Crash(Caught),
    /// The operation did not apply (nothing open in that slot).
    Nothing,
}

impl Out {
    pub fn short(&self) -> String {
        match self {
            Out::Focus(l, r) => format!("focus {:?} / {:?}", l.text, r.text),
            Out::Line(l) => format!("line {:?}", l.text),
            Out::Str(s) => format!("string {s:?}"),
            o => format!("{o:?}"),
        }
    }
    pub fn hash(&self) -> u64 {
        match self {
            Out::Focus(l, r) => fold(line_hash(l), line_hash(r)),
            Out::Line(l) => line_hash(l),
            Out::Str(s) => hash_str(s),
            o => hash_str(&format!("{o:?}")),
        }
    }
}

fn line_hash(l: &RLine) -> u64 {
    let mut h = hash_str(&l.text);
    for (n, st) in &l.runs {
        h = fold(h, *n as u64);
        for t in st.iter() {
            h = fold(h, *t as u64);
        }
    }
    h
}

pub fn rerr(e: PrintingError<SimErr>) -> RErr {
    match e {
        PrintingError::PrettyDoc(e) => RErr::Doc(e),
        PrintingError::TextAfterEndOfLine => RErr::Eol,
        PrintingError::InvalidPath(i) => RErr::InvalidPath(i),
        PrintingError::MissingFocusMark => RErr::NoMark,
        PrintingError::MissingText => RErr::NoText,
        e => RErr::Other(format!("{e:?}")),
    }
}

/// Receives complaints about reported widths.
pub type WidthLog = Rc<std::cell::RefCell<Option<String>>>;

pub fn conv<'d, D: PrettyDoc<'d, Style = SimStyle>>(
    segs: &[Segment<'d, D>],
    log: &WidthLog,
) -> RLine {
    let mut l = RLine::default();
    let mut memo: HashMap<Vec<u32>, Rc<Vec<u32>>> = HashMap::new();
    for s in segs {
        let st = memo
            .entry(s.style.0.clone())
            .or_insert_with(|| Rc::new(s.style.0.clone()))
            .clone();
        l.push(s.str, &st);
        let w = cols(s.str).min(65535);
        if w != s.width as u64 {
            let mut b = log.borrow_mut();
            if b.is_none() {
                *b = Some(format!(
                    "segment {:?} occupies {w} columns but reports width {}",
                    s.str, s.width
                ));
            }
        }
    }
    l
}

fn width_check(log: &WidthLog, what: &str, text: &str, w: u16) {
    let c = cols(text).min(65535);
    if c != w as u64 {
        let mut b = log.borrow_mut();
        if b.is_none() {
            *b = Some(format!(
                "{what} {text:?} occupies {c} columns but reports width {w}"
            ));
        }
    }
}

/// How to consume a line stream.
#[derive(Clone, Copy)]
pub enum Take {
    Next,
    Nth(usize),
    Rest,
    /// Only ask how many lines it may still deliver, at least and at most.
    Hint,
}

pub struct Print<'d> {
    pub up: Box<dyn FnMut(Take) -> Out + 'd>,
    pub down: Box<dyn FnMut(Take) -> Out + 'd>,
}

pub fn root_style(on: bool) -> Option<SimStyle> {
    on.then(|| SimStyle(vec![ROOT_TOKEN]))
}

fn open_<'d, D>(
    doc: D,
    w: u16,
    path: &[usize],
    tg: Target,
    root: Option<&SimStyle>,
    log: &WidthLog,
) -> (Out, Option<Print<'d>>)
where
    D: PrettyDoc<'d, Style = SimStyle, Error = SimErr> + 'd,
{
    match pretty_print(doc, w, path, tg.real(), root) {
        Err(e) => (Out::Err(rerr(e)), None),
        Ok((up, f, down)) => {
            let l = conv(&f.left_segments, log);
            let r = conv(&f.right_segments, log);
            width_check(log, "left part", &l.text, f.left_width());
            width_check(log, "right part", &r.text, f.right_width());
            let mut all = l.clone();
            all.append(&r);
            width_check(log, "focused line", &all.text, f.width());
            let same = f.to_left_string() == l.text
                && f.to_right_string() == r.text
                && f.to_string() == all.text
                && Line::from(f).to_string() == all.text;
            if !same {
                *log.borrow_mut() = Some("focused line's strings disagree with its segments".into());
            }
            let one = |x: Option<Result<Line<'d, D>, PrintingError<SimErr>>>, log: &WidthLog| match x {
                None => Out::End,
                Some(Err(e)) => Out::Err(rerr(e)),
                Some(Ok(line)) => {
                    let l = conv(&line.segments, log);
                    width_check(log, "line", &l.text, line.width());
                    if line.to_string() != l.text {
                        *log.borrow_mut() =
                            Some("line's string disagrees with its segments".into());
                    }
                    Out::Line(l)
                }
            };
            (
                Out::Focus(l, r),
                Some(Print {
                    up: stream(up, log.clone(), one),
                    down: stream(down, log.clone(), one),
                }),
            )
        }
    }
}

fn stream<'d, T, I: Iterator<Item = T> + 'd>(
    lines: I,
    log: WidthLog,
    one: impl Fn(Option<T>, &WidthLog) -> Out + 'd,
) -> Box<dyn FnMut(Take) -> Out + 'd> {
    let mut lines = Some(lines);
    Box::new(move |how| {
        let Some(it) = lines.as_mut() else {
            return Out::Nothing;
        };
        match how {
            Take::Next => one(it.next(), &log),
            Take::Nth(n) => one(it.nth(n), &log),
            Take::Hint => {
                let (lo, hi) = it.size_hint();
                Out::Hint(lo, hi)
            }
            Take::Rest => {
                let it = lines.take().unwrap();
                Out::Rest(it.fold(vec![], |mut v, x| {
                    v.push(one(Some(x), &log));
                    v
                }))
            }
        }
    })
}

/// Open a print at the root `node` 0 of the store's current version.
#[allow(clippy::too_many_arguments)]
pub fn open<'d>(
    st: &'d Store,
    cx: &'d Ctx,
    defaults: bool,
    w: u16,
    path: &[usize],
    tg: Target,
    root: bool,
    log: &WidthLog,
) -> (Out, Option<Print<'d>>) {
    let rs = root_style(root);
    if defaults {
        open_(Hd::<true>::root(st, cx), w, path, tg, rs.as_ref(), log)
    } else {
        open_(Hd::<false>::root(st, cx), w, path, tg, rs.as_ref(), log)
    }
}

pub fn to_string(st: &Store, cx: &Ctx, defaults: bool, w: u16) -> Out {
    let r = if defaults {
        pretty_print_to_string(Hd::<true>::root(st, cx), w)
    } else {
        pretty_print_to_string(Hd::<false>::root(st, cx), w)
    };
    match r {
        Ok(s) => Out::Str(s),
        Err(e) => Out::Err(rerr(e)),
    }
}

pub const SLOTS: usize = 3;

pub struct Client<'d> {
    pub st: &'d Store,
    pub cx: &'d Ctx,
    pub defaults: bool,
    pub slots: Vec<Option<Print<'d>>>,
    pub log: WidthLog,
}

impl<'d> Client<'d> {
    pub fn new(st: &'d Store, cx: &'d Ctx, defaults: bool) -> Client<'d> {
        Client {
            st,
            cx,
            defaults,
            slots: (0..SLOTS).map(|_| None).collect(),
            log: WidthLog::default(),
        }
    }

    /// Perform one operation. A print whose operation panicked is torn down.
    pub fn step(&mut self, op: &Op) -> Out {
        let cx = self.cx;
        let _scope = Scope::new(cx);
        let out = match op {
            Op::Open {
                s,
                w,
                path,
                tg,
                root,
            } => {
                let s = s % SLOTS;
                self.slots[s] = None;
                let (st, d, log) = (self.st, self.defaults, self.log.clone());
                match catch(|| open(st, cx, d, *w, path, *tg, *root, &log)) {
                    Ok((o, p)) => {
                        self.slots[s] = p;
                        o
                    }
                    Err(c) => Out::Crash(c),
                }
            }
            Op::Up(s) | Op::Down(s) => {
                let s = s % SLOTS;
                let up = matches!(op, Op::Up(_));
                match self.slots[s].as_mut() {
                    None => Out::Nothing,
                    Some(p) => match catch(|| if up { (p.up)(Take::Next) } else { (p.down)(Take::Next) }) {
                        Ok(o) => o,
                        Err(c) => {
                            self.slots[s] = None;
                            Out::Crash(c)
                        }
                    },
                }
            }
            Op::Skip { s, up, .. } | Op::Rest { s, up } => {
                let s = s % SLOTS;
                let how = match op {
                    Op::Skip { n, .. } => Take::Nth(*n),
                    _ => Take::Rest,
                };
                match self.slots[s].as_mut() {
                    None => Out::Nothing,
                    Some(p) => match catch(|| if *up { (p.up)(how) } else { (p.down)(how) }) {
                        Ok(o) => o,
                        Err(c) => {
                            self.slots[s] = None;
                            Out::Crash(c)
                        }
                    },
                }
            }
            Op::Drop(s) => {
                self.slots[s % SLOTS] = None;
                Out::Nothing
            }
            Op::Str(w) => {
                let (st, d) = (self.st, self.defaults);
                match catch(|| to_string(st, cx, d, *w)) {
                    Ok(o) => o,
                    Err(c) => Out::Crash(c),
                }
            }
            Op::Edit(v) => {
                for s in &mut self.slots {
                    *s = None;
                }
                self.st.edit(*v);
                cx.count("edit_between_operations");
                Out::Nothing
            }
            Op::Arm(k) => {
                cx.arm(cx.acc.get() + k, Fault::Err);
                return Out::Nothing;
            }
            Op::ArmPanic(k) => {
                cx.arm(cx.acc.get() + k, Fault::Panic);
                return Out::Nothing;
            }
            Op::ArmStyle(k) => {
                cx.style_fail.set(Some(*k));
                return Out::Nothing;
            }
        };
        // (nested prints and edits are planned for the whole run, failures for one operation)
        cx.plan
            .borrow_mut()
            .retain(|_, f| matches!(f, Fault::Nest | Fault::Edit(_)));
        cx.style_fail.set(None);
        cx.add_hash(out.hash());
        out
    }
}
