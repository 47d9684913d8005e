//! Executes a client script and judges every output against the reference model.

use super::*;
use crate::model::{layout, Miss, Model, RLine};
use crate::session::*;
use crate::simdoc::*;
use crate::spec::*;
use std::collections::HashMap;
use std::rc::Rc;

/// What is being judged.
#[derive(Clone, Copy, Default)]
pub struct Aspects {
    /// The text of whole lines and the ends of the streams.
    pub lines: bool,
    /// Where the focused line is split, and why opening fails.
    pub split: bool,
    /// Styles and widths.
    pub styles: bool,
    /// The contract of the document accessors.
    pub contract: bool,
}

pub struct Models<'s> {
    st: &'s Store,
    memo: HashMap<(usize, u16, bool), Rc<Model>>,
    wf: HashMap<usize, bool>,
    cap: usize,
}

pub const MODEL_CAP: usize = 60_000;

impl<'s> Models<'s> {
    pub fn new(st: &'s Store) -> Self {
        Models {
            st,
            memo: HashMap::new(),
            wf: HashMap::new(),
            cap: MODEL_CAP,
        }
    }
    /// `None` if the document version is not well formed or too big to model.
    pub fn get(&mut self, ver: usize, w: u16, root: bool) -> Option<Rc<Model>> {
        let st = self.st;
        if !*self.wf.entry(ver).or_insert_with(|| st.well_formed(ver)) {
            return None;
        }
        let cap = self.cap;
        let m = self
            .memo
            .entry((ver, w, root))
            .or_insert_with(|| {
                let rs: &[u32] = if root { &[ROOT_TOKEN] } else { &[] };
                Rc::new(layout(st, ver, w as u64, rs, cap))
            })
            .clone();
        (!m.too_big).then_some(m)
    }
}

struct Slot {
    m: Rc<Model>,
    /// Rows of the next lines, or `None` once that direction is no longer predicted.
    up: Option<i64>,
    down: Option<i64>,
}

pub fn same_line(a: Aspects, got: &RLine, want: &RLine) -> bool {
    // Styles are judged only where the text is right: other text is not C03's business.
    (!a.lines || got.text == want.text)
        && (!a.styles || got.text != want.text || got.runs == want.runs)
}

pub fn diff(a: Aspects, got: &RLine, want: &RLine) -> String {
    if a.styles && got.text == want.text {
        let show = |l: &RLine| {
            let mut at = 0;
            let mut v = Vec::new();
            for (n, s) in &l.runs {
                v.push(format!("{:?}:{}", &l.text[at..at + n], tokens(s)));
                at += n;
            }
            v.join(" ")
        };
        format!("styles are {} instead of {}", show(got), show(want))
    } else {
        format!("{:?} instead of {:?}", got.text, want.text)
    }
}

fn tokens(s: &[u32]) -> String {
    let v: Vec<String> = s
        .iter()
        .map(|t| {
            if *t >= ROOT_TOKEN {
                "root".into()
            } else if t % 32 == 31 {
                format!("node{}", t / 32)
            } else {
                format!("label{}@{}", t % 32, t / 32)
            }
        })
        .collect();
    format!("[{}]", v.join(","))
}

pub fn expected_error(m: &Miss) -> RErr {
    match m {
        Miss::InvalidPath(i) => RErr::InvalidPath(*i),
        Miss::Mark => RErr::NoMark,
        Miss::Text => RErr::NoText,
    }
}

/// Runs the script, then drains what is still open.
pub fn run_script(
    doc: &DocSpec,
    ops: &[Op],
    defaults: bool,
    a: Aspects,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    let Some(st) = Store::build(doc, 0) else {
        return Err(Verdict::Skip("invalid notation"));
    };
    run_store(&st, ops, defaults, a, Tuning::default(), stats)
}

#[derive(Clone, Copy)]
pub struct Tuning {
    /// Layouts taking more steps than this are not modelled, and not printed.
    pub cap: usize,
    /// No node is displayed more than once (saves looking for such nodes).
    pub unique: bool,
    /// Allow every operation this many steps per step of the model's layout.
    pub steps: Option<u64>,
    /// Pull at most this many lines in each direction in the end.
    pub drain: usize,
}

impl Default for Tuning {
    fn default() -> Tuning {
        Tuning {
            cap: MODEL_CAP,
            unique: false,
            steps: None,
            drain: usize::MAX,
        }
    }
}

pub fn run_store(
    st: &Store,
    ops: &[Op],
    defaults: bool,
    a: Aspects,
    tune: Tuning,
    stats: &mut Stats,
) -> Result<(), Verdict> {
    let cx = Ctx::default();
    let mut models = Models::new(st);
    models.cap = tune.cap;
    if models.get(0, 40, false).is_none() {
        return Err(Verdict::Skip("ill-formed or too big"));
    }
    let mut cl = Client::new(st, &cx, defaults);
    let mut slots: Vec<Option<Slot>> = (0..SLOTS).map(|_| None).collect();
    let mut lines_checked = 0u64;
    let mut armed = false;
    let mut all_ops: Vec<Op> = ops.to_vec();
    let n_script = all_ops.len();
    let mut i = 0;
    let mut drain = 0;
    loop {
        if i == all_ops.len() {
            // drain what is open, alternating directions, until both ends were seen twice
            let mut more = false;
            for (s, sl) in slots.iter().enumerate() {
                if let Some(sl) = sl {
                    if drain == 0 {
                        let (nu, nd) = (
                            sl.up.map_or(0, |u| u + 1 + 2) as usize,
                            sl.down.map_or(0, |d| (sl.m.lines.len() as i64 - d) + 2).max(0) as usize,
                        );
                        for k in 0..nu.max(nd).min(tune.drain) {
                            if k < nu {
                                all_ops.push(Op::Up(s));
                            }
                            if k < nd {
                                all_ops.push(Op::Down(s));
                            }
                        }
                        more = true;
                    }
                }
            }
            drain += 1;
            if !more || i == all_ops.len() {
                break;
            }
        }
        let op = all_ops[i].clone();
        i += 1;
        // A layout too big to model (children displayed many times over) is too big to print.
        let modelled = match &op {
            Op::Open { w, root, .. } => models.get(st.ver(), *w, *root).is_some(),
            Op::Str(w) => models.get(st.ver(), *w, false).is_some(),
            _ => true,
        };
        if !modelled {
            stats.add("operations_left_out", 1);
            continue;
        }
        if let Some(k) = tune.steps {
            // (a layout that ends in an error is only modelled up to there)
            let steps = |m: Rc<Model>| if m.eol_row.is_some() { 20_000_000 } else { k * m.work };
            let work = match &op {
                Op::Open { w, root, .. } => models.get(st.ver(), *w, *root).map(&steps),
                Op::Str(w) => models.get(st.ver(), *w, false).map(&steps),
                Op::Up(s) | Op::Down(s) => slots[s % SLOTS].as_ref().map(|s| steps(s.m.clone())),
                _ => None,
            };
            cx.limit
                .set(cx.acc.get() + cx.spans.get() + 5_000 + work.unwrap_or(0));
        }
        let fired_before = cx.fired.borrow().len();
        let mut hint = None;
        if let Op::Skip { s, up, .. } | Op::Rest { s, up } = &op {
            if let (Some(p), Some(sl)) = (cl.slots[s % SLOTS].as_mut(), &slots[s % SLOTS]) {
                let left = if *up {
                    sl.up.map(|r| r + 1)
                } else {
                    sl.down.map(|r| sl.m.lines.len() as i64 - r)
                };
                let h = catch(|| if *up { (p.up)(Take::Hint) } else { (p.down)(Take::Hint) });
                if let (Some(left), Ok(Out::Hint(lo, hi)), None) = (left, h, sl.m.eol_row) {
                    let left = left.max(0) as usize;
                    if a.lines && (lo > left || hi.is_some_and(|hi| hi < left)) {
                        hint = Some(format!("size_hint is ({lo}, {hi:?}) although {left} lines are left"));
                    }
                }
            }
        }
        let out = cl.step(&op);
        if matches!(op, Op::Arm(_) | Op::ArmStyle(_) | Op::ArmPanic(_)) {
            armed = true;
            continue;
        }
        let fired = armed && cx.fired.borrow().len() > fired_before;
        armed = false;
        let at = || {
            let mut o = format!("{op:?}");
            if o.len() > 300 {
                let end = (0..=300).rev().find(|i| o.is_char_boundary(*i)).unwrap_or(0);
                o.truncate(end);
                o.push_str("...");
            }
            format!(
                "operation {} {o}{}",
                i - 1,
                if i > n_script { " (drain)" } else { "" }
            )
        };
        if let Some(h) = hint {
            return fail("hint", format!("{}: {h}", at()));
        }
        if let Out::Crash(c) = &out {
            match c {
                Caught::Injected => {
                    // The document panicked, as told to; whatever was open is torn down.
                    if let Op::Open { s, .. } | Op::Up(s) | Op::Down(s) | Op::Skip { s, .. } | Op::Rest { s, .. } = &op {
                        slots[*s % SLOTS] = None;
                        cl.slots[*s % SLOTS] = None;
                    }
                    stats.add("failed_attempts", 1);
                    armed = false;
                    continue;
                }
                Caught::Contract => {
                    return fail(
                        "contract",
                        format!("{}: {}", at(), cx.bad.borrow().clone().unwrap_or_default()),
                    )
                }
                Caught::Steps => return fail("steps", format!("{}: step budget exhausted", at())),
                Caught::Panic(m) => return fail("panic", format!("{}: panicked: {m}", at())),
            }
        }
        if a.contract {
            if let Some(b) = cx.bad.borrow().clone() {
                return fail("contract", format!("{}: {b}", at()));
            }
        }
        if a.styles {
            if let Some(b) = cl.log.borrow().clone() {
                return fail("width", format!("{}: {b}", at()));
            }
        }
        if fired {
            // The attempt failed (C05 says how it must fail); whatever was open is abandoned.
            if let Op::Open { s, .. } | Op::Up(s) | Op::Down(s) | Op::Skip { s, .. } | Op::Rest { s, .. } = &op {
                slots[*s % SLOTS] = None;
                cl.slots[*s % SLOTS] = None;
            }
            stats.add("failed_attempts", 1);
            continue;
        }
        match &op {
            Op::Open {
                s,
                w,
                path,
                tg,
                root,
            } => {
                let s = s % SLOTS;
                if slots[s].is_some() {
                    cx.count("abandoned_print");
                }
                slots[s] = None;
                let Some(m) = models.get(st.ver(), *w, *root) else {
                    cl.slots[s] = None;
                    continue;
                };
                if !tune.unique && m.ambiguous(path) {
                    stats.add("probe.ambiguous_path", 1);
                    cl.slots[s] = None;
                    continue;
                }
                let place = m.locate(path, *tg);
                if let (Some(first), true) = (m.eol_row, a.lines || a.split) {
                    // In some rows, text follows an end-of-line mark. Those can't be printed, and
                    // searching may stumble over them, but only over those before the target.
                    stats.add("probe.layout_error", 1);
                    let row = place.as_ref().map_or(usize::MAX, |p| p.0);
                    let inside = m.bad_rows.contains(&row);
                    if out == Out::Err(RErr::Eol) && (inside || row > first) {
                        cl.slots[s] = None;
                        continue;
                    }
                    if inside {
                        return fail(
                            "line",
                            format!("{}: {}; text follows an end-of-line mark in row {row}", at(), out.short()),
                        );
                    }
                }
                match (place, &out) {
                    (Ok((row, byte)), Out::Focus(l, r)) => {
                        let want = &m.lines[row];
                        let mut all = l.clone();
                        all.append(r);
                        lines_checked += 1;
                        if !same_line(a, &all, want) {
                            return fail(
                                if a.styles { "style" } else { "line" },
                                format!("{}: focused line is {}", at(), diff(a, &all, want)),
                            );
                        }
                        if a.split && (l.text != want.text[..byte] || r.text != want.text[byte..]) {
                            return fail(
                                "split",
                                format!(
                                    "{}: split is {:?} / {:?} instead of {:?} / {:?} (row {row})",
                                    at(),
                                    l.text,
                                    r.text,
                                    &want.text[..byte],
                                    &want.text[byte..]
                                ),
                            );
                        }
                        if a.styles && l.text.len() == byte {
                            let (wl, wr) = want.split(byte);
                            if !same_line(a, l, &wl) || !same_line(a, r, &wr) {
                                return fail(
                                    "style",
                                    format!(
                                        "{}: left {} right {}",
                                        at(),
                                        diff(a, l, &wl),
                                        diff(a, r, &wr)
                                    ),
                                );
                            }
                        }
                        stats.add(&format!("open.{}", tname(*tg)), 1);
                        slots[s] = Some(Slot {
                            m,
                            up: Some(row as i64 - 1),
                            down: Some(row as i64 + 1),
                        });
                    }
                    (Err(miss), Out::Err(e)) => {
                        stats.add("probe.open_refused", 1);
                        if a.split && *e != expected_error(&miss) {
                            return fail(
                                "cause",
                                format!("{}: failed with {e:?} instead of {:?}", at(), expected_error(&miss)),
                            );
                        }
                    }
                    (Err(miss), o) => {
                        if a.split {
                            return fail(
                                "landed",
                                format!("{}: {} instead of failing with {:?}", at(), o.short(), expected_error(&miss)),
                            );
                        }
                        cl.slots[s] = None;
                    }
                    (Ok(_), _) if !a.split && !a.lines => cl.slots[s] = None,
                    (Ok((row, byte)), o) => {
                        return fail(
                            "refused",
                            format!(
                                "{}: {} instead of opening at row {row} byte {byte} of {:?}",
                                at(),
                                o.short(),
                                m.lines[row].text
                            ),
                        );
                    }
                }
            }
            Op::Rest { s, up } => {
                let Some(sl) = slots[s % SLOTS].as_mut() else {
                    continue;
                };
                let row = if *up { sl.up.take() } else { sl.down.take() };
                let (Some(row), Out::Rest(got), None) = (row, &out, sl.m.eol_row) else {
                    continue;
                };
                let n = sl.m.lines.len() as i64;
                let rows: Vec<i64> = if *up { (0..=row).rev().collect() } else { (row..n).collect() };
                for (i, row) in rows.iter().enumerate() {
                    let w = &sl.m.lines[*row as usize];
                    match got.get(i) {
                        Some(Out::Line(l)) if same_line(a, l, w) => lines_checked += 1,
                        Some(Out::Line(l)) => {
                            return fail(
                                if a.styles { "style" } else { "line" },
                                format!("{}: row {row} is {}", at(), diff(a, l, w)),
                            )
                        }
                        _ if !a.lines => break,
                        o => {
                            return fail(
                                "line",
                                format!("{}: {:?} instead of row {row} {:?}", at(), o.map(Out::short), w.text),
                            )
                        }
                    }
                }
                if a.lines && got.len() > rows.len() {
                    return fail("end", format!("{}: lines beyond the last one", at()));
                }
                stats.add("probe.rest_taken_at_once", 1);
            }
            Op::Up(s) | Op::Down(s) | Op::Skip { s, .. } => {
                let s = s % SLOTS;
                let up = matches!(op, Op::Up(_) | Op::Skip { up: true, .. });
                let Some(sl) = slots[s].as_mut() else {
                    continue;
                };
                let row = if up { sl.up } else { sl.down };
                let Some(mut row) = row else {
                    continue;
                };
                if let Op::Skip { n, .. } = &op {
                    if sl.m.eol_row.is_some() {
                        // (errors are passed over like lines)
                        if up {
                            sl.up = None;
                        } else {
                            sl.down = None;
                        }
                        continue;
                    }
                    let n = (*n).min(1 << 40) as i64;
                    let len = sl.m.lines.len() as i64;
                    row = if up { (row - n).max(-1) } else { (row + n).min(len) };
                    if up {
                        sl.up = Some(row);
                    } else {
                        sl.down = Some(row);
                    }
                    stats.add("probe.lines_passed_over", 1);
                }
                if sl.m.eol_row.is_some() && row >= 0 {
                    let bad = &sl.m.bad_rows;
                    let inside = bad.contains(&(row as usize));
                    let hit = out == Out::Err(RErr::Eol);
                    if a.lines && inside && !hit {
                        return fail(
                            "line",
                            format!("{}: {} although text follows an end-of-line mark in row {row}", at(), out.short()),
                        );
                    }
                    // (Going up, the rows between a bad one and this one may be lost with it.)
                    if inside || (hit && up && bad[0] < row as usize) {
                        stats.add("probe.layout_error_reported", 1);
                        if up {
                            sl.up = None;
                        } else {
                            sl.down = None;
                        }
                        continue;
                    }
                }
                let want = if row < 0 {
                    None
                } else {
                    sl.m.lines.get(row as usize)
                };
                match (want, &out) {
                    (None, Out::End) => {
                        stats.add("probe.end_reached", 1);
                    }
                    (Some(w), Out::Line(l)) => {
                        lines_checked += 1;
                        if !same_line(a, l, w) {
                            return fail(
                                if a.styles { "style" } else { "line" },
                                format!("{}: row {row} is {}", at(), diff(a, l, w)),
                            );
                        }
                        if up {
                            sl.up = Some(row - 1);
                        } else {
                            sl.down = Some(row + 1);
                        }
                    }
                    _ if !a.lines => {
                        // Not this property's business; this direction is no longer predicted.
                        if up {
                            sl.up = None;
                        } else {
                            sl.down = None;
                        }
                    }
                    (Some(w), o) => {
                        return fail(
                            "line",
                            format!("{}: {} instead of row {row} {:?}", at(), o.short(), w.text),
                        )
                    }
                    (None, o) => {
                        return fail(
                            "end",
                            format!("{}: {} beyond the {} line", at(), o.short(), if up { "first" } else { "last" }),
                        )
                    }
                }
            }
            Op::Str(w) => {
                let Some(m) = models.get(st.ver(), *w, false) else {
                    continue;
                };
                if !a.lines {
                    continue;
                }
                if m.eol_row.is_some() {
                    if out != Out::Err(RErr::Eol) {
                        return fail("line", format!("{}: {} although text follows an end-of-line mark", at(), out.short()));
                    }
                } else if out != Out::Str(m.string()) {
                    return fail(
                        "string",
                        format!("{}: {} instead of {:?}", at(), out.short(), m.string()),
                    );
                }
                stats.add("strings", 1);
            }
            Op::Drop(s) => {
                if slots[*s % SLOTS].is_some() {
                    cx.count("abandoned_print");
                }
                slots[*s % SLOTS] = None;
            }
            Op::Edit(_) => {
                for s in &mut slots {
                    *s = None;
                }
            }
            _ => (),
        }
    }
    let (mut f1, mut f2) = (0, 0);
    for m in models.memo.values() {
        f1 += m.first_opts;
        f2 += m.second_opts;
    }
    stats.add("probe.choice_first", f1);
    stats.add("probe.choice_second", f2);
    stats.add("lines_checked", lines_checked);
    stats.nontrivial = lines_checked >= 3 && cl.st.vers[0].nodes.len() >= 2;
    drop(cl);
    stats.ctx(&cx);
    Ok(())
}

pub fn tname(t: Target) -> &'static str {
    match t {
        Target::Start => "start",
        Target::End => "end",
        Target::Mark => "mark",
        Target::Text(_) => "text",
    }
}
