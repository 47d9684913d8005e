//! Panes: scenes as plain data, a simulated window, a reference model of the composed frame, and
//! generators.

use crate::gen;
use crate::model::{Miss, RLine};
use crate::props::common::Models;
use crate::rng::Rng;
use crate::session::{rerr, RErr};
use crate::simdoc::*;
use crate::spec::*;
use partial_pretty_printer::pane::{
    display_pane, PaneError, PaneNotation, PaneSize, PlainText, PrettyWindow, PrintingOptions,
    WidthStrategy,
};
use partial_pretty_printer::{Pos, Size};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub const LEAF_TOKEN: u32 = 0xFFFE_0000;
pub const USER_TOKEN: u32 = 0xFFFD_0000;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum P {
    Fill(char),
    Doc(u32),
    Style(u8, Box<P>),
    Horz(Vec<(Sz, P)>),
    Vert(Vec<(Sz, P)>),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Sz {
    F(usize),
    D,
    P(usize),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Ws {
    Full,
    Fixed(u16),
    NoMore(u16),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Content {
    pub doc: usize,
    pub path: Vec<usize>,
    pub tg: Target,
    /// Focus height in thousandths.
    pub fh: u16,
    pub ws: Ws,
    pub focus: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Scene {
    pub pane: P,
    /// What each label shows, if anything.
    pub contents: Vec<Option<Content>>,
    pub w: u16,
    pub h: u32,
    /// Give every leaf a style token of its own.
    pub tags: bool,
}

impl P {
    pub fn to_real(&self, tags: bool, next: &mut u32) -> PaneNotation<u32, SimStyle> {
        let leaf = |n: PaneNotation<u32, SimStyle>, next: &mut u32| {
            let i = *next;
            *next += 1;
            if tags {
                PaneNotation::Style {
                    style: SimStyle(vec![LEAF_TOKEN + i]),
                    notation: Box::new(n),
                }
            } else {
                n
            }
        };
        let size = |s: &Sz| match s {
            Sz::F(n) => PaneSize::Fixed(*n),
            Sz::D => PaneSize::Dynamic,
            Sz::P(n) => PaneSize::Proportional(*n),
        };
        match self {
            P::Fill(ch) => leaf(PaneNotation::Fill { ch: *ch }, next),
            P::Doc(l) => leaf(PaneNotation::Doc { label: *l }, next),
            P::Style(k, p) => PaneNotation::Style {
                style: SimStyle(vec![USER_TOKEN + *k as u32]),
                notation: Box::new(p.to_real(tags, next)),
            },
            P::Horz(v) => PaneNotation::Horz(
                v.iter()
                    .map(|(s, p)| (size(s), p.to_real(tags, next)))
                    .collect(),
            ),
            P::Vert(v) => PaneNotation::Vert(
                v.iter()
                    .map(|(s, p)| (size(s), p.to_real(tags, next)))
                    .collect(),
            ),
        }
    }

    fn leaves(&self) -> u32 {
        match self {
            P::Fill(_) | P::Doc(_) => 1,
            P::Style(_, p) => p.leaves(),
            P::Horz(v) | P::Vert(v) => v.iter().map(|x| x.1.leaves()).sum(),
        }
    }
}

impl Content {
    pub fn options(&self) -> PrintingOptions {
        PrintingOptions {
            focus_path: self.path.clone(),
            focus_target: self.tg.real(),
            focus_height: self.fh.min(1000) as f32 / 1000.0,
            width_strategy: match self.ws {
                Ws::Full => WidthStrategy::Full,
                Ws::Fixed(n) => WidthStrategy::Fixed(n),
                Ws::NoMore(n) => WidthStrategy::NoMoreThan(n),
            },
            set_focus: self.focus,
        }
    }
}

// ---------------------------------------------------------------- the simulated window

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WErr(pub u64);
impl fmt::Display for WErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "window error #{}", self.0)
    }
}
impl std::error::Error for WErr {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    Size,
    Get(u32),
    Char {
        ch: char,
        row: u32,
        col: u16,
        style: Vec<u32>,
        fw: bool,
    },
    Focus {
        row: u32,
        col: u16,
    },
}

impl Ev {
    pub fn is_window(&self) -> bool {
        !matches!(self, Ev::Get(_))
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Default, PartialEq)]
pub struct WinPlan {
    /// This window call (0 is `size`) fails.
    pub fail_at: Option<u64>,
    /// ... and so do all later ones.
    pub stay_down: bool,
}

pub struct SimWindow<'a> {
    pub size: Size,
    pub log: &'a RefCell<Vec<Ev>>,
    pub calls: std::cell::Cell<u64>,
    pub plan: WinPlan,
    pub budget: u64,
    pub cx: &'a Ctx,
    /// Do not keep the events, only count them.
    pub forget: bool,
}

impl SimWindow<'_> {
    fn call(&self, ev: Ev) -> Result<(), WErr> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        self.cx.clock.set(self.cx.clock.get() + 1);
        if !self.forget || n < 4 {
            self.log.borrow_mut().push(ev);
        }
        if let Some((sched, me)) = self.cx.actor.borrow().clone() {
            sched.point(me);
        }
        if n >= self.budget {
            self.cx.count("window_out_of_budget");
            return Err(WErr(n));
        }
        match self.plan.fail_at {
            Some(k) if k == n || (self.plan.stay_down && n > k) => {
                self.cx.count("window_error");
                Err(WErr(n))
            }
            _ => Ok(()),
        }
    }
}

impl PrettyWindow for SimWindow<'_> {
    type Error = WErr;
    type Style = SimStyle;
    fn size(&self) -> Result<Size, WErr> {
        self.call(Ev::Size)?;
        Ok(self.size)
    }
    fn display_char(
        &mut self,
        ch: char,
        pos: Pos,
        style: &SimStyle,
        full_width: bool,
    ) -> Result<(), WErr> {
        self.call(Ev::Char {
            ch,
            row: pos.row,
            col: pos.col,
            style: style.0.clone(),
            fw: full_width,
        })
    }
    fn set_focus(&mut self, pos: Pos) -> Result<(), WErr> {
        self.call(Ev::Focus {
            row: pos.row,
            col: pos.col,
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PErr {
    Window(u64),
    Print(RErr),
    Dynamic,
    Crash(Caught),
}

pub struct Shot {
    pub result: Result<(), PErr>,
    pub events: Vec<Ev>,
    pub calls: u64,
}

fn perr(e: PaneError<WErr, SimErr>) -> PErr {
    match e {
        PaneError::InvalidUseOfDynamic => PErr::Dynamic,
        PaneError::PrettyWindowError(w) => PErr::Window(w.0),
        PaneError::PrintingError(e) => PErr::Print(rerr(e)),
    }
}

pub fn root_pane_style() -> SimStyle {
    SimStyle(vec![ROOT_TOKEN])
}

fn display_<const X: bool>(
    sc: &Scene,
    stores: &[&Store],
    cx: &Ctx,
    win: &mut SimWindow,
    log: &RefCell<Vec<Ev>>,
) -> Result<(), PErr>
where
    for<'d> Hd<'d, X>: partial_pretty_printer::PrettyDoc<'d, Style = SimStyle, Error = SimErr>,
{
    let note = sc.pane.to_real(sc.tags, &mut 0);
    let r = catch(|| {
        display_pane(win, &note, &root_pane_style(), &|l: u32| {
            log.borrow_mut().push(Ev::Get(l));
            let c = sc.contents.get(l as usize)?.as_ref()?;
            let st = stores.get(c.doc)?;
            Some((Hd::<X>::root(st, cx), c.options()))
        })
    });
    match r {
        Err(c) => Err(PErr::Crash(c)),
        Ok(Err(e)) => Err(perr(e)),
        Ok(Ok(())) => Ok(()),
    }
}

/// Displays the scene once in a simulated window.
pub fn display(
    sc: &Scene,
    stores: &[&Store],
    cx: &Ctx,
    defaults: bool,
    plan: WinPlan,
    budget: u64,
    forget: bool,
) -> Shot {
    let _scope = Scope::new(cx);
    let log = RefCell::new(Vec::new());
    let mut win = SimWindow {
        size: Size {
            width: sc.w,
            height: sc.h,
        },
        log: &log,
        calls: Default::default(),
        plan,
        budget,
        cx,
        forget,
    };
    let result = if defaults {
        display_::<true>(sc, stores, cx, &mut win, &log)
    } else {
        display_::<false>(sc, stores, cx, &mut win, &log)
    };
    let calls = win.calls.get();
    let events = log.into_inner();
    for e in &events {
        if let Ev::Char { ch, row, col, .. } = e {
            cx.add_hash((*ch as u64) << 40 ^ (*row as u64) << 16 ^ *col as u64);
        }
    }
    Shot {
        result,
        events,
        calls,
    }
}

/// Displays the scene in the crate's own `PlainText` window: its text and focus points.
#[allow(clippy::type_complexity)]
pub fn display_plain(
    sc: &Scene,
    stores: &[&Store],
    cx: &Ctx,
    unbounded: bool,
) -> Result<(String, Vec<(u32, u16)>), PErr> {
    let _scope = Scope::new(cx);
    let note = sc.pane.to_real(sc.tags, &mut 0);
    let mut win = if unbounded {
        PlainText::new_unbounded_height(sc.w)
    } else {
        PlainText::new(sc.w, sc.h)
    };
    let r = catch(|| {
        display_pane(&mut win, &note, &root_pane_style(), &|l: u32| {
            let c = sc.contents.get(l as usize)?.as_ref()?;
            let st = stores.get(c.doc)?;
            Some((Hd::<false>::root(st, cx), c.options()))
        })
    });
    match r {
        Err(c) => Err(PErr::Crash(c)),
        Ok(Err(PaneError::InvalidUseOfDynamic)) => Err(PErr::Dynamic),
        Ok(Err(PaneError::PrintingError(e))) => Err(PErr::Print(rerr(e))),
        Ok(Err(PaneError::PrettyWindowError(e))) => match e {},
        Ok(Ok(())) => Ok((
            win.to_string(),
            win.focus_points().iter().map(|p| (p.row, p.col)).collect(),
        )),
    }
}

// ---------------------------------------------------------------- the reference frame

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rect {
    pub r0: u32,
    pub r1: u32,
    pub c0: u32,
    pub c1: u32,
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub rect: Rect,
    /// The label, if it is a document.
    pub label: Option<u32>,
    /// It shows something (a fill, or a document that is there).
    pub shows: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Undrawn,
    Ch(char, Rc<Vec<u32>>),
    /// The right half of a full-width character.
    Right,
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub cells: Vec<Vec<Cell>>,
    /// Focus points that are inside their pane.
    pub focus: Vec<(u32, u16)>,
    /// Number of focus points that fall outside their pane (where they are reported is open).
    pub free_focus: usize,
    pub leaves: Vec<Leaf>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// Displaying must fail with this error.
    Err(PErr),
    /// The model has no opinion.
    Skip(&'static str),
}

struct View {
    lines: Vec<RLine>,
    first_row: u32,
    focus: Option<(u32, u64)>,
    style: Rc<Vec<u32>>,
}

struct Composer<'a, 's> {
    sc: &'a Scene,
    vers: &'a [usize],
    models: &'a mut Vec<Models<'s>>,
    out: Frame,
    next_leaf: u32,
}

/// Columns as a window counts them: every character takes up at least one.
pub fn win_cols(s: &str) -> u64 {
    s.chars().map(|c| char_cols(c).max(1)).sum()
}

pub fn focus_row(fh: u16, h: u32) -> Option<u32> {
    let n = (h as u64 - 1) * fh.min(1000) as u64;
    let frac = n % 1000;
    if fh % 250 != 0 && frac.abs_diff(500) < 20 {
        // too close to a tie for a statement about `f32` arithmetic
        return None;
    }
    Some(((n + 500) / 1000) as u32)
}

pub fn divide(total: u64, sizes: &[Sz], dynamic: &[u64]) -> Vec<u64> {
    let mut left = total;
    let mut out = vec![0; sizes.len()];
    for (i, s) in sizes.iter().enumerate() {
        if let Sz::F(n) = s {
            out[i] = left.min(*n as u64);
            left -= out[i];
        }
    }
    let mut d = dynamic.iter();
    for (i, s) in sizes.iter().enumerate() {
        if *s == Sz::D {
            out[i] = *d.next().unwrap_or(&0);
            left -= out[i];
        }
    }
    let weights: u128 = sizes
        .iter()
        .map(|s| if let Sz::P(n) = s { *n as u128 } else { 0 })
        .sum();
    if weights > 0 {
        let mut rest: Vec<(u128, usize)> = Vec::new();
        let mut given = 0;
        for (i, s) in sizes.iter().enumerate() {
            if let Sz::P(n) = s {
                let x = left as u128 * *n as u128;
                out[i] = (x / weights) as u64;
                given += out[i];
                rest.push((x % weights, i));
            }
        }
        let mut extra = left - given;
        while extra > 0 {
            // largest remainder, leftmost first
            let mut best = 0;
            for j in 1..rest.len() {
                if rest[j].0 > rest[best].0 {
                    best = j;
                }
            }
            out[rest[best].1] += 1;
            rest.remove(best);
            extra -= 1;
        }
    }
    out
}

impl<'a, 's> Composer<'a, 's> {
    fn view(
        &mut self,
        label: u32,
        w: u64,
        h: u32,
        style: &Rc<Vec<u32>>,
    ) -> Result<Option<View>, Bad> {
        let Some(Some(c)) = self.sc.contents.get(label as usize) else {
            return Ok(None);
        };
        let mut v = View {
            lines: vec![],
            first_row: 0,
            focus: None,
            style: style.clone(),
        };
        if w == 0 || h == 0 {
            return Ok(Some(v));
        }
        let pw = match c.ws {
            Ws::Full => w as u16,
            Ws::Fixed(n) => n,
            Ws::NoMore(n) => n.min(w as u16),
        };
        let Some(models) = self.models.get_mut(c.doc) else {
            return Ok(None);
        };
        let Some(m) = models.get(self.vers[c.doc], pw, false) else {
            return Err(Bad::Skip("too big or ill-formed"));
        };
        if m.ambiguous(&c.path) {
            return Err(Bad::Skip("ambiguous path"));
        }
        let place = m.locate(&c.path, c.tg);
        if let Some(first) = m.eol_row {
            // Searching beyond such a row may stumble over it.
            match &place {
                Ok((row, _)) if m.bad_rows.contains(row) => {
                    return Err(Bad::Err(PErr::Print(RErr::Eol)))
                }
                Ok((row, _)) if *row < first => (),
                _ => return Err(Bad::Skip("text after end of line")),
            }
        }
        let (row, byte) = place.map_err(|e| {
            Bad::Err(PErr::Print(match e {
                Miss::InvalidPath(i) => RErr::InvalidPath(i),
                Miss::Mark => RErr::NoMark,
                Miss::Text => RErr::NoText,
            }))
        })?;
        let fr = focus_row(c.fh, h).ok_or(Bad::Skip("focus height is a near tie"))?;
        let above = row.min(fr as usize);
        let below = (m.lines.len() - 1 - row).min((h - 1 - fr) as usize);
        if m.eol_row.is_some_and(|first| first <= row + below) {
            return Err(Bad::Err(PErr::Print(RErr::Eol)));
        }
        v.lines = m.lines[row - above..=row + below].to_vec();
        // the layout knows nothing of the pane's style: it goes in front
        for l in &mut v.lines {
            for r in &mut l.runs {
                let mut s = (**style).clone();
                s.extend_from_slice(&r.1);
                r.1 = Rc::new(s);
            }
        }
        v.first_row = fr - above as u32;
        if c.focus {
            v.focus = Some((fr, win_cols(&m.lines[row].text[..byte])));
        }
        Ok(Some(v))
    }

    fn leaf(&mut self, p: &P, rect: Rect, shows: bool) -> u32 {
        let i = self.next_leaf;
        self.next_leaf += 1;
        self.out.leaves.push(Leaf {
            rect,
            label: if let P::Doc(l) = p { Some(*l) } else { None },
            shows,
        });
        i
    }

    fn put(&mut self, row: u32, col: u32, ch: char, style: &Rc<Vec<u32>>) {
        let line = &mut self.out.cells[row as usize];
        line[col as usize] = Cell::Ch(ch, style.clone());
        if char_cols(ch) == 2 {
            line[col as usize + 1] = Cell::Right;
        }
    }

    fn draw(&mut self, v: View, rect: Rect) {
        for row in rect.r0..rect.r1 {
            let mut col = rect.c0;
            let i = (row - rect.r0) as i64 - v.first_row as i64;
            if i >= 0 && (i as usize) < v.lines.len() {
                for (ch, st) in v.lines[i as usize].chars() {
                    let w = if char_cols(ch) == 2 { 2 } else { 1 };
                    if col + w > rect.c1 {
                        break;
                    }
                    self.put(row, col, ch, &st);
                    col += w;
                }
            }
            while col < rect.c1 {
                self.put(row, col, ' ', &v.style);
                col += 1;
            }
        }
        if let Some((r, c)) = v.focus {
            let (row, col) = (rect.r0 + r, rect.c0 as u64 + c);
            if row < rect.r1 && col < rect.c1 as u64 {
                self.out.focus.push((row, col as u16));
            } else {
                self.out.free_focus += 1;
            }
        }
    }

    fn leaf_style(&self, style: &Rc<Vec<u32>>, leaf: u32) -> Rc<Vec<u32>> {
        if !self.sc.tags {
            return style.clone();
        }
        let mut s = (**style).clone();
        s.push(LEAF_TOKEN + leaf);
        Rc::new(s)
    }

    fn rec(&mut self, p: &P, rect: Rect, style: &Rc<Vec<u32>>) -> Result<(), Bad> {
        let (w, h) = (rect.c1 - rect.c0, rect.r1 - rect.r0);
        match p {
            P::Fill(ch) => {
                let i = self.leaf(p, rect, true);
                let st = self.leaf_style(style, i);
                let cw = if char_cols(*ch) == 2 { 2 } else { 1 };
                for row in rect.r0..rect.r1 {
                    let mut col = rect.c0;
                    while col + cw <= rect.c1 {
                        self.put(row, col, *ch, &st);
                        col += cw;
                    }
                    while col < rect.c1 {
                        self.put(row, col, ' ', &st);
                        col += 1;
                    }
                }
            }
            P::Doc(l) => {
                let st = self.leaf_style(style, self.next_leaf);
                let v = self.view(*l, w as u64, h, &st)?;
                self.leaf(p, rect, v.is_some());
                if let Some(v) = v {
                    self.draw(v, rect);
                }
            }
            P::Style(k, p) => {
                let mut s = (**style).clone();
                s.push(USER_TOKEN + *k as u32);
                self.rec(p, rect, &Rc::new(s))?;
            }
            P::Horz(v) | P::Vert(v) => {
                let horz = matches!(p, P::Horz(_));
                let total = if horz { w } else { h } as u64;
                let sizes: Vec<Sz> = v.iter().map(|x| x.0).collect();
                let fixed: u64 = divide(total, &sizes.iter().map(|s| if let Sz::F(_) = s { *s } else { Sz::F(0) }).collect::<Vec<_>>(), &[]).iter().sum();
                let mut left = total - fixed;
                let mut views: Vec<Option<View>> = Vec::new();
                let mut dynamic = Vec::new();
                let mut leaf = self.next_leaf;
                for (s, p) in v {
                    let n = p.leaves();
                    if *s == Sz::D {
                        // find the document inside any styles
                        let mut q = p;
                        let mut st = (**style).clone();
                        while let P::Style(k, inner) = q {
                            st.push(USER_TOKEN + *k as u32);
                            q = inner;
                        }
                        let P::Doc(l) = q else {
                            return Err(Bad::Err(PErr::Dynamic));
                        };
                        let st = self.leaf_style(&Rc::new(st), leaf);
                        let (dw, dh) = if horz { (left, h) } else { (w as u64, left as u32) };
                        let mut view = self.view(*l, dw, dh, &st)?;
                        let need = match &view {
                            None => 0,
                            Some(v) if horz => v
                                .lines
                                .iter()
                                .map(|l| win_cols(&l.text))
                                .max()
                                .unwrap_or(0)
                                .min(left),
                            Some(v) => v.lines.len() as u64,
                        };
                        if let (false, Some(v)) = (horz, view.as_mut()) {
                            if let Some(f) = v.focus.as_mut() {
                                f.0 -= v.first_row;
                            }
                            v.first_row = 0;
                        }
                        left -= need;
                        dynamic.push(need);
                        views.push(view);
                    }
                    leaf += n;
                }
                let each = divide(total, &sizes, &dynamic);
                let mut at = if horz { rect.c0 } else { rect.r0 };
                let mut views = views.into_iter();
                for ((s, p), n) in v.iter().zip(each) {
                    let to = at + n as u32;
                    let r = if horz {
                        Rect {
                            c0: at,
                            c1: to,
                            ..rect
                        }
                    } else {
                        Rect {
                            r0: at,
                            r1: to,
                            ..rect
                        }
                    };
                    at = to;
                    if *s == Sz::D {
                        let mut q = p;
                        while let P::Style(_, inner) = q {
                            q = inner;
                        }
                        let view = views.next().unwrap();
                        self.leaf(q, r, view.is_some());
                        if let Some(view) = view {
                            self.draw(view, r);
                        }
                    } else {
                        self.rec(p, r, style)?;
                    }
                }
            }
        }
        Ok(())
    }
}

/// The frame that displaying the scene must produce, with document `i` at version `vers[i]`.
pub fn compose(sc: &Scene, vers: &[usize], models: &mut Vec<Models>) -> Result<Frame, Bad> {
    let rect = Rect {
        r0: 0,
        r1: sc.h,
        c0: 0,
        c1: sc.w as u32,
    };
    let mut c = Composer {
        sc,
        vers,
        models,
        out: Frame {
            cells: vec![vec![Cell::Undrawn; sc.w as usize]; sc.h as usize],
            focus: vec![],
            free_focus: 0,
            leaves: vec![],
        },
        next_leaf: 0,
    };
    let style = Rc::new(vec![ROOT_TOKEN]);
    c.rec(&sc.pane, rect, &style)?;
    Ok(c.out)
}

impl Frame {
    pub fn row_text(&self, r: usize) -> String {
        let mut s = String::new();
        for c in &self.cells[r] {
            match c {
                Cell::Undrawn => s.push('\u{b7}'),
                Cell::Ch(c, _) => s.push(*c),
                Cell::Right => (),
            }
        }
        s
    }

    /// What `PlainText` shows of this frame.
    pub fn plain(&self) -> String {
        let mut rows = Vec::new();
        for line in &self.cells {
            let last = line.iter().rposition(|c| *c != Cell::Undrawn);
            rows.push(last.map(|l| {
                let mut s = String::new();
                for c in &line[..=l] {
                    match c {
                        Cell::Undrawn => s.push(' '),
                        Cell::Ch(c, _) => s.push(*c),
                        Cell::Right => (),
                    }
                }
                s
            }));
        }
        let n = rows.iter().rposition(|r| r.is_some()).map_or(0, |i| i + 1);
        let mut s = String::new();
        for r in &rows[..n] {
            s.push_str(r.as_deref().unwrap_or(""));
            s.push('\n');
        }
        s
    }

    /// `None` if the events draw exactly this frame.
    pub fn compare(&self, events: &[Ev]) -> Option<String> {
        let h = self.cells.len();
        let w = self.cells.first().map_or(0, |r| r.len());
        let mut got = vec![vec![Cell::Undrawn; w]; h];
        let mut focus = Vec::new();
        for e in events {
            match e {
                Ev::Char {
                    ch,
                    row,
                    col,
                    style,
                    fw,
                } => {
                    let (r, c) = (*row as usize, *col as usize);
                    if r >= h || c >= w || (*fw && c + 1 >= w) {
                        return Some(format!("{ch:?} drawn at ({row},{col}), outside the window"));
                    }
                    got[r][c] = Cell::Ch(*ch, Rc::new(style.clone()));
                    if *fw {
                        got[r][c + 1] = Cell::Right;
                    }
                }
                Ev::Focus { row, col } => focus.push((*row, *col)),
                _ => (),
            }
        }
        for r in 0..h {
            for c in 0..w {
                if got[r][c] != self.cells[r][c] {
                    let show = |x: &Cell| match x {
                        Cell::Ch(c, s) => format!("{c:?} in style {s:x?}"),
                        o => format!("{o:?}"),
                    };
                    let f = Frame {
                        cells: got.clone(),
                        focus: vec![],
                        free_focus: 0,
                        leaves: vec![],
                    };
                    return Some(format!(
                        "cell ({r},{c}) is {} instead of {} (row {:?} instead of {:?})",
                        show(&got[r][c]),
                        show(&self.cells[r][c]),
                        f.row_text(r),
                        self.row_text(r)
                    ));
                }
            }
        }
        self.compare_focus(&focus)
    }

    pub fn compare_focus(&self, got: &[(u32, u16)]) -> Option<String> {
        let mut rest = got.to_vec();
        for f in &self.focus {
            match rest.iter().position(|g| g == f) {
                Some(i) => {
                    rest.remove(i);
                }
                None => {
                    return Some(format!(
                        "focus points are {got:?}, but {:?} were expected",
                        self.focus
                    ))
                }
            }
        }
        if rest.len() > self.free_focus {
            return Some(format!(
                "focus points are {got:?}, but only {:?} (and {} outside their panes) were expected",
                self.focus, self.free_focus
            ));
        }
        None
    }
}

/// The monitors of C10 over a sequence of window calls, complete or cut short.
pub fn monitor(sc: &Scene, frame: Option<&Frame>, events: &[Ev], complete: bool) -> Option<String> {
    let (w, h) = (sc.w as usize, sc.h as usize);
    let mut drawn = vec![false; w * h];
    for e in events {
        let Ev::Char {
            ch,
            row,
            col,
            style,
            fw,
        } = e
        else {
            continue;
        };
        let (r, c) = (*row as usize, *col as usize);
        let n = if char_cols(*ch) == 2 { 2 } else { 1 };
        if *fw != (n == 2) {
            return Some(format!("{ch:?} at ({r},{c}) is flagged full_width={fw}"));
        }
        if r >= h || c + n > w {
            return Some(format!(
                "{ch:?} ({n} columns) at ({r},{c}) is not inside the {w}x{h} window"
            ));
        }
        if let (Some(f), true) = (frame, sc.tags) {
            let leaf = style
                .iter()
                .find(|t| **t >= LEAF_TOKEN && **t < LEAF_TOKEN + 0x8000)
                .map(|t| (*t - LEAF_TOKEN) as usize);
            match leaf.and_then(|l| f.leaves.get(l)) {
                None => return Some(format!("{ch:?} at ({r},{c}) belongs to no pane: {style:x?}")),
                Some(l) => {
                    let q = l.rect;
                    if (r as u32) < q.r0
                        || r as u32 >= q.r1
                        || (c as u32) < q.c0
                        || c as u32 + n as u32 > q.c1
                    {
                        return Some(format!(
                            "{ch:?} at ({r},{c}) is outside its pane, which is {q:?}"
                        ));
                    }
                }
            }
        }
        for i in 0..n {
            if drawn[r * w + c + i] {
                return Some(format!("cell ({r},{}) is drawn twice", c + i));
            }
            drawn[r * w + c + i] = true;
        }
    }
    if let (Some(f), true) = (frame, complete) {
        for l in &f.leaves {
            if !l.shows {
                continue;
            }
            for r in l.rect.r0..l.rect.r1 {
                for c in l.rect.c0..l.rect.c1 {
                    if !drawn[r as usize * w + c as usize] {
                        return Some(format!(
                            "cell ({r},{c}) of the pane {:?} was never drawn",
                            l.rect
                        ));
                    }
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- generators

pub const FILLS: &[char] = &[' ', '.', '-', '|', '#', '漢', 'あ', 'é', '\u{301}'];

/// What a generated pane may contain.
#[derive(Clone, Copy)]
pub struct PaneMix {
    pub labels: u32,
    /// Every document pane gets a label of its own.
    pub unique: bool,
    /// Percentage of dynamic panes that are (wrongly) not documents.
    pub bad_dynamic: usize,
    pub huge: bool,
}

pub fn pane(r: &mut Rng, m: PaneMix, depth: usize, used: &mut u32) -> P {
    let doc = |r: &mut Rng, used: &mut u32| {
        if m.unique {
            *used += 1;
            P::Doc(*used - 1)
        } else {
            P::Doc(r.below(m.labels as usize) as u32)
        }
    };
    let x = r.below(100);
    if depth == 0 || x < 15 {
        return match r.below(10) {
            0..=5 => doc(r, used),
            6 => {
                let d = doc(r, used);
                P::Style(r.below(3) as u8, Box::new(d))
            }
            _ => P::Fill(*r.pick(FILLS)),
        };
    }
    if x < 25 {
        let p = pane(r, m, depth - 1, used);
        return P::Style(r.below(3) as u8, Box::new(p));
    }
    let n = match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => 2,
        7 | 8 => 3,
        _ => 5,
    };
    // (now and then so many that even their order is worth checking)
    let many = r.pct(4);
    let n = if many { r.range(21, 45) } else { n };
    let dynamic = if many { 3 } else { *r.pick(&[10, 30, 60, 100]) };
    let mut v = Vec::new();
    for _ in 0..n {
        let s = if r.pct(dynamic) {
            Sz::D
        } else if r.pct(40) {
            Sz::F(if m.huge && r.pct(20) {
                *r.pick(&[65535, 65536, 70000, usize::MAX])
            } else {
                r.skewed(12)
            })
        } else {
            Sz::P(if m.huge && r.pct(25) {
                *r.pick(&[0, usize::MAX, usize::MAX / 2, 1 << 40])
            } else if r.pct(10) {
                0
            } else {
                r.range(1, 5)
            })
        };
        let s = match s {
            Sz::F(n) if many => Sz::F(n.min(1)),
            s => s,
        };
        let p = if s == Sz::D && !r.pct(m.bad_dynamic) {
            let d = doc(r, used);
            if r.pct(25) {
                P::Style(r.below(3) as u8, Box::new(d))
            } else {
                d
            }
        } else {
            pane(r, m, if many { 0 } else { depth - 1 }, used)
        };
        v.push((s, p));
    }
    if r.pct(50) {
        P::Horz(v)
    } else {
        P::Vert(v)
    }
}

pub fn content(r: &mut Rng, docs: &[DocSpec], vers: &[usize], bad: usize) -> Content {
    let doc = r.below(docs.len());
    let t = &docs[doc].vers[vers[doc]];
    let safe = r.pct(70);
    Content {
        doc,
        path: gen::path(r, t, bad),
        tg: if safe {
            if r.pct(70) {
                Target::Start
            } else {
                Target::End
            }
        } else {
            gen::target(r)
        },
        fh: if r.pct(85) {
            *r.pick(&[0, 250, 500, 500, 750, 1000])
        } else {
            r.below(1001) as u16
        },
        ws: match r.below(6) {
            0..=2 => Ws::Full,
            3 => Ws::Fixed(gen::width(r, &docs[doc], vers[doc])),
            _ => Ws::NoMore(gen::width(r, &docs[doc], vers[doc])),
        },
        focus: r.pct(60),
    }
}

pub fn size(r: &mut Rng) -> (u16, u32) {
    // Beyond a byte, a few thousand, and 16 bits.
    if r.pct(2) {
        let long = *r.pick(&[256, 257, 400, 1001, 5000, 65535, 70000]);
        let short = r.range(1, 3) as u16;
        return if r.pct(50) {
            (long.min(65535) as u16, short as u32)
        } else {
            (short, long)
        };
    }
    let w = match r.below(10) {
        0 => r.below(4),
        1..=6 => r.range(5, 40),
        7 | 8 => r.range(20, 90),
        _ => 1,
    };
    let h = match r.below(10) {
        0 => r.below(3),
        1..=7 => r.range(2, 14),
        8 => r.range(10, 40),
        _ => 1,
    };
    (w as u16, h as u32)
}

/// Documents for panes: no text after end-of-line marks most of the time, moderately small.
pub fn docs(r: &mut Rng, n: usize, vers: usize) -> Vec<DocSpec> {
    (0..n)
        .map(|_| {
            let mut m = gen::Mix::random(r);
            m.max_nodes = m.max_nodes.min(40);
            m.dup = 0;
            m.large = gen::Large::random(r, 200);
            if r.pct(80) {
                m.eol = 0;
            }
            gen::Gen::new(r, m).doc(vers)
        })
        .collect()
}

/// Is there a document larger than the others ever are?
pub fn any_large(docs: &[DocSpec]) -> bool {
    docs.iter().any(|d| {
        fn large(t: &Tree, depth: usize) -> bool {
            t.k.len() >= 100
                || depth > 45
                || t.t.as_ref().is_some_and(|t| t.len() >= 100)
                || t.k.iter().any(|k| large(k, depth + 1))
        }
        large(&d.vers[0], 0)
    })
}

pub fn stores(docs: &[DocSpec]) -> Option<Vec<Store>> {
    docs.iter()
        .enumerate()
        .map(|(i, d)| {
            // (ids need only be unique within a document)
            let mut st = Store::build(d, (i as u64) << 32)?;
            st.id_base = 0;
            Some(st)
        })
        .collect()
}
