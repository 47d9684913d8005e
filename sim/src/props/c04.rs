//! C04: concurrent, nested and abandoned prints never influence each other.

use super::*;
use crate::gen;
use crate::panes::{self, display, Ev, PErr, Scene, WinPlan};
use crate::rng::Rng;
use crate::sched::Sched;
use crate::session::*;
use crate::simdoc::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub const RULE: &str = "2 to 4 client sessions (opens, pulls, abandonments, edits, strings, pane displays, failing and panicking accesses) over documents that use the same node ids, shared or separate stores, on one to three threads; operations of sessions on the same thread are interleaved and also run nested inside one another's document callbacks; threads are switched at document accesses, span markers and window calls by a sparse plan or pseudo-randomly; every print, string and display (and sometimes 300 to 70,000 prints and displays of a small document done on the thread beforehand) is compared with the same one done alone on a fresh store with ids of its own in a fresh thread; non-trivial: at least 2 sessions whose operations really overlapped (interleaved, switched or nested) and at least 3 lines delivered";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum SOp {
    Do(Op),
    Show(Scene),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Session {
    pub doc: usize,
    pub defaults: bool,
    pub ops: Vec<SOp>,
    /// At this access of the session's own count, run so many operations of that session, if it
    /// lives on the same thread and is not itself in the middle of an operation.
    pub nest: Vec<(u64, usize, usize)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sc {
    pub docs: Vec<DocSpec>,
    pub share: bool,
    pub sessions: Vec<Session>,
    pub threads: usize,
    pub order: Vec<usize>,
    pub plan: Vec<(u64, usize)>,
    pub seed: u64,
    pub every: u64,
    /// So many prints are done on each thread beforehand.
    #[serde(default)]
    pub before: u32,
}

/// Prints and displays a small document again and again; returns what went wrong.
fn many_before(n: u32) -> Option<String> {
    use partial_pretty_printer::doc_examples::{json::*, BasicStyle};
    use partial_pretty_printer::pane::{
        display_pane, PaneNotation, PaneSize, PlainText, PrintingOptions, WidthStrategy,
    };
    use partial_pretty_printer::{pretty_print, pretty_print_to_string, FocusTarget};
    let doc = json_array(vec![json_bool(true), json_string("a b"), json_array(vec![json_number(1.0), json_null()])]);
    let pane: PaneNotation<u8, BasicStyle> = PaneNotation::Vert(vec![
        (PaneSize::Dynamic, PaneNotation::Doc { label: 0 }),
        (PaneSize::Proportional(1), PaneNotation::Fill { ch: '.' }),
    ]);
    let options = |path: Vec<usize>| PrintingOptions {
        focus_path: path,
        focus_target: FocusTarget::End,
        focus_height: 0.5,
        width_strategy: WidthStrategy::Full,
        set_focus: true,
    };
    let one = |i: u32| -> String {
        match i % 7 {
            0 => format!("{:?}", pretty_print(&doc, 9, &[3], FocusTarget::Start, None).is_err()),
            1 => format!("{:?}", pretty_print(&doc, 9, &[1], FocusTarget::Mark, None).is_err()),
            2 => match pretty_print(&doc, 14, &[2, 1], FocusTarget::Start, None) {
                // abandoned
                Ok((mut up, l, _)) => format!("{} {:?}", l.to_string(), up.next().map(|l| l.map(|l| l.to_string()))),
                Err(e) => e.to_string(),
            },
            3 | 4 => {
                let mut w = PlainText::<BasicStyle>::new(16, 6);
                let path = if i % 7 == 3 { vec![1] } else { vec![5] };
                let r = display_pane(&mut w, &pane, &BasicStyle::new(), &|_| Some((&doc, options(path.clone()))));
                format!("{} {:?} {w}", r.is_ok(), w.focus_points())
            }
            k => format!("{:?}", pretty_print_to_string(&doc, k as u16 * 8 - 16)),
        }
    };
    let mut first: Vec<String> = vec![];
    for i in 0..n {
        match catch(|| one(i)) {
            Err(c) => return Some(format!("print {i} of the small document: {c:?}")),
            Ok(s) => match first.get(i as usize % 7) {
                None => first.push(s),
                Some(f) if *f != s => {
                    return Some(format!("print {i} of the small document: {s:?} instead of {f:?} as before"))
                }
                Some(_) => (),
            },
        }
    }
    None
}

pub fn gen(r: &mut Rng) -> Sc {
    let mut m = gen::Mix::random(r);
    m.max_nodes = m.max_nodes.min(40);
    m.dup = 0;
    m.large = gen::Large::random(r, 300);
    let nv = r.range(1, 3);
    let first = gen::Gen::new(r, m).doc(nv);
    let mut docs = vec![first];
    for _ in 0..r.below(3) {
        if r.pct(60) {
            // the same ids and notations, other content
            let mut d = docs[0].clone();
            let n = d.vers.len();
            d.vers.rotate_left(1 % n);
            if r.pct(50) {
                fn retext(r: &mut Rng, t: &mut Tree) {
                    if let Some(x) = &mut t.t {
                        if r.pct(40) {
                            *x = format!("{}{}", x, r.below(100));
                        }
                    }
                    for k in &mut t.k {
                        retext(r, k);
                    }
                }
                for t in &mut d.vers {
                    retext(r, t);
                }
            }
            docs.push(d);
        } else {
            let mut m = gen::Mix::random(r);
            m.max_nodes = m.max_nodes.min(30);
            // a chain of nodes that each show a child twice is exponential
            m.dup = 0;
            let nv = r.range(1, 2);
            docs.push(gen::Gen::new(r, m).doc(nv));
        }
    }
    let share = r.pct(30);
    let threads = *r.pick(&[1, 1, 2, 2, 3]);
    let ns = r.range(2, 4).max(threads);
    let fault = *r.pick(&[0, 0, 10]);
    let same_width = if r.pct(50) {
        Some(gen::width(r, &docs[0], 0))
    } else {
        None
    };
    let mut sessions = Vec::new();
    for i in 0..ns {
        let doc = r.below(docs.len());
        let len = r.range(2, 16);
        let mut ops = gen::script(r, &docs[doc], len, fault, if share { 0 } else { 12 });
        gen::other_pulls(r, &mut ops);
        let mut ops: Vec<SOp> = ops
            .into_iter()
            .map(SOp::Do)
            .collect();
        if let Some(sw) = same_width {
            for o in &mut ops {
                if let SOp::Do(Op::Open { w, .. }) = o {
                    *w = sw;
                }
            }
        }
        if r.pct(20) {
            let at = r.below(ops.len() + 1);
            ops.insert(at, SOp::Do(Op::ArmPanic(r.skewed(60) as u64)));
        }
        if r.pct(30) {
            let m = panes::PaneMix {
                labels: 2,
                unique: false,
                bad_dynamic: 0,
                huge: false,
            };
            let mut s = c11::scene(r, &docs[doc..doc + 1], m, 5, 5);
            s.w = s.w.min(30);
            s.h = s.h.min(8);
            let at = r.below(ops.len() + 1);
            ops.insert(at, SOp::Show(s));
        }
        let mut nest = Vec::new();
        if r.pct(50) {
            for _ in 0..r.range(1, 4) {
                let t = r.below(ns);
                nest.push((r.skewed(400) as u64, t, r.range(1, 4)));
            }
        }
        let _ = i;
        sessions.push(Session {
            doc,
            defaults: r.pct(50),
            ops,
            nest,
        });
    }
    let order = (0..r.range(0, 60)).map(|_| r.below(ns)).collect();
    let random = r.pct(50);
    let plan = if threads > 1 && (!random || r.pct(30)) {
        (0..r.range(1, 12))
            .map(|_| (r.skewed(1500) as u64, r.below(threads)))
            .collect()
    } else {
        vec![]
    };
    Sc {
        docs,
        share,
        sessions,
        threads,
        order,
        plan,
        seed: if threads > 1 && random { r.next() | 1 } else { 0 },
        every: *r.pick(&[1, 3, 10, 40]),
        before: match r.below(2500) {
            0 => 70_000,
            1..=4 => 5_000,
            5..=50 => 300,
            _ => 0,
        },
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Out(Out),
    Show(Result<(), PErr>, Vec<Ev>),
}

impl Res {
    fn short(&self) -> String {
        match self {
            Res::Out(o) => o.short(),
            Res::Show(r, e) => format!("display {r:?} after {} events", e.len()),
        }
    }
}

/// Results without what legitimately depends on history: serial numbers and document ids.
fn plain(r: Res) -> Res {
    let fix = |e: RErr| match e {
        RErr::Doc(e) => RErr::Doc(SimErr {
            serial: 0,
            doc: 0,
            ..e
        }),
        e => e,
    };
    match r {
        Res::Out(Out::Err(e)) => Res::Out(Out::Err(fix(e))),
        Res::Out(Out::Rest(v)) => Res::Out(Out::Rest(
            v.into_iter()
                .map(|o| match o {
                    Out::Err(e) => Out::Err(fix(e)),
                    o => o,
                })
                .collect(),
        )),
        Res::Show(Err(PErr::Print(e)), v) => Res::Show(Err(PErr::Print(fix(e))), v),
        r => r,
    }
}

struct Live<'d> {
    client: Client<'d>,
    next: usize,
    outs: Vec<(usize, Res)>,
}

fn do_op(cl: &mut Client, st: &Store, cx: &Ctx, defaults: bool, op: &SOp, shared: bool) -> Res {
    match op {
        SOp::Do(Op::Edit(_)) if shared => Res::Out(Out::Nothing),
        SOp::Do(op) => Res::Out(cl.step(op)),
        SOp::Show(s) => {
            let sh = display(
                s,
                &[st],
                cx,
                defaults,
                WinPlan::default(),
                100_000,
                false,
            );
            cx.plan
                .borrow_mut()
                .retain(|_, f| matches!(f, Fault::Nest));
            cx.style_fail.set(None);
            Res::Show(sh.result, sh.events)
        }
    }
}

/// What a thread hands over as a whole when it ends.
struct Over<T>(T);
// SAFETY: the thread has ended; nothing of it is left that could share the `Rc`s inside.
unsafe impl<T> Send for Over<T> {}

type Cells<'d> = Rc<Vec<RefCell<Option<Live<'d>>>>>;

struct ThreadOut {
    /// Per session: (operation, result).
    outs: Vec<Vec<(usize, Res)>>,
    stats: Stats,
    overlapped: bool,
    bad: Option<String>,
}

/// Runs the sessions of one thread, interleaved and nested.
fn thread_main(
    sc: &Sc,
    stores: &[Arc<Store>],
    t: usize,
    sched: Option<Arc<Sched>>,
) -> ThreadOut {
    let early = many_before(sc.before.min(100_000));
    let n = sc.sessions.len();
    let mine = |i: usize| i % sc.threads == t;
    let ctxs: Vec<Ctx> = (0..n).map(|_| Ctx::default()).collect();
    let nested = Rc::new(std::cell::Cell::new(0u64));
    let live: Cells = Rc::new(
        (0..n)
            .map(|i| {
                RefCell::new(mine(i).then(|| {
                    let c = &ctxs[i];
                    if let Some(s) = &sched {
                        *c.actor.borrow_mut() = Some((s.clone(), t));
                    }
                    Live {
                        client: Client::new(&stores[i], c, sc.sessions[i].defaults),
                        next: 0,
                        outs: vec![],
                    }
                }))
            })
            .collect(),
    );
    let step = {
        let live = Rc::clone(&live);
        let ctxs = &ctxs;
        move |i: usize| -> bool {
            let Some(cell) = live.get(i) else {
                return false;
            };
            // In the middle of an operation: its cell is empty.
            let Some(mut l) = cell.borrow_mut().take() else {
                return false;
            };
            let s = &sc.sessions[i];
            let ran = l.next < s.ops.len();
            if ran {
                let at = l.next;
                l.next += 1;
                let r = do_op(
                    &mut l.client,
                    &stores[i],
                    &ctxs[i],
                    s.defaults,
                    &s.ops[at],
                    sc.share,
                );
                l.outs.push((at, r));
            }
            *cell.borrow_mut() = Some(l);
            ran
        }
    };
    let step = Rc::new(step);
    for i in (0..n).filter(|i| mine(*i)) {
        let s = &sc.sessions[i];
        for (k, ..) in &s.nest {
            ctxs[i].arm(*k, Fault::Nest);
        }
        let (st, ne) = (Rc::clone(&step), Rc::clone(&nested));
        let hook = move |k: u64| {
            for (at, to, count) in &s.nest {
                if *at == k {
                    for _ in 0..*count {
                        if st(*to) {
                            ne.set(ne.get() + 1);
                        }
                    }
                }
            }
        };
        let hook: Box<dyn Fn(u64) + '_> = Box::new(hook);
        // SAFETY: the hook is removed below, before anything it borrows goes away.
        let hook: Box<dyn Fn(u64) + 'static> = unsafe { std::mem::transmute(hook) };
        *ctxs[i].nest.borrow_mut() = Some(hook);
    }
    let mut last = usize::MAX;
    let mut alternations = 0;
    let mut go = |i: usize| -> bool {
        if let Some(s) = &sched {
            s.point(t);
        }
        let r = mine(i) && step(i);
        if r {
            if last != usize::MAX && last != i {
                alternations += 1;
            }
            last = i;
        }
        r
    };
    for i in &sc.order {
        go(*i);
    }
    loop {
        let mut any = false;
        for i in 0..n {
            any |= go(i);
        }
        if !any {
            break;
        }
    }
    let mut stats = Stats::default();
    let mut outs = vec![Vec::new(); n];
    let mut bad = early;
    for i in (0..n).filter(|i| mine(*i)) {
        *ctxs[i].nest.borrow_mut() = None;
        let l = live[i].borrow_mut().take();
        if let Some(l) = l {
            outs[i] = l.outs;
        }
        if bad.is_none() {
            bad = ctxs[i].bad.borrow().clone().map(|b| format!("session {i}: {b}"));
        }
        stats.ctx(&ctxs[i]);
    }
    stats.add("nested_operations", nested.get());
    stats.add("interleaved_operations", alternations);
    ThreadOut {
        outs,
        stats,
        overlapped: alternations > 0 || nested.get() > 0,
        bad,
    }
}

/// One print, string or display of a session with everything that belongs to it.
struct Unit {
    ver: usize,
    ops: Vec<(usize, SOp)>,
}

/// Splits a session into units that must be independent of each other.
fn units(s: &Session, share: bool, outs: &[(usize, Res)]) -> Vec<Unit> {
    let mut done: Vec<Unit> = Vec::new();
    let mut open: Vec<Option<Unit>> = (0..SLOTS).map(|_| None).collect();
    let mut ver = 0;
    let mut arms: Vec<(usize, SOp)> = Vec::new();
    for (i, op) in s.ops.iter().enumerate() {
        let crashed = matches!(
            outs.iter().find(|o| o.0 == i).map(|o| &o.1),
            Some(Res::Out(Out::Crash(_)))
        );
        match op {
            SOp::Do(Op::Arm(_) | Op::ArmStyle(_) | Op::ArmPanic(_)) => arms.push((i, op.clone())),
            SOp::Do(Op::Open { s, .. }) => {
                let s = s % SLOTS;
                done.extend(open[s].take());
                let mut ops = std::mem::take(&mut arms);
                ops.push((i, op.clone()));
                open[s] = Some(Unit { ver, ops });
            }
            SOp::Do(Op::Up(s) | Op::Down(s) | Op::Skip { s, .. } | Op::Rest { s, .. }) => {
                let s = s % SLOTS;
                let a = std::mem::take(&mut arms);
                if let Some(u) = &mut open[s] {
                    u.ops.extend(a);
                    u.ops.push((i, op.clone()));
                }
                if crashed {
                    done.extend(open[s].take());
                }
            }
            SOp::Do(Op::Drop(s)) => {
                arms.clear();
                done.extend(open[*s % SLOTS].take());
            }
            SOp::Do(Op::Str(_)) | SOp::Show(_) => {
                let mut ops = std::mem::take(&mut arms);
                ops.push((i, op.clone()));
                done.push(Unit { ver, ops });
            }
            SOp::Do(Op::Edit(v)) => {
                if !share {
                    arms.clear();
                    for o in &mut open {
                        done.extend(o.take());
                    }
                    ver = *v;
                }
            }
        }
    }
    for o in &mut open {
        done.extend(o.take());
    }
    done
}

static UNIQUE: AtomicU64 = AtomicU64::new(1);

pub fn run(sc: &Sc, stats: &mut Stats) -> Result<(), Verdict> {
    if sc.threads == 0 || sc.docs.is_empty() || sc.sessions.is_empty() {
        return Err(Verdict::Skip("empty"));
    }
    let mut stores: Vec<Arc<Store>> = Vec::new();
    let mut by_doc: Vec<Option<Arc<Store>>> = vec![None; sc.docs.len()];
    for s in &sc.sessions {
        let d = s.doc % sc.docs.len();
        if !sc.share || by_doc[d].is_none() {
            match Store::build(&sc.docs[d], 0) {
                None => return Err(Verdict::Skip("invalid notation")),
                Some(st) => {
                    if !(0..st.vers.len()).all(|v| st.well_formed(v)) {
                        return Err(Verdict::Skip("ill-formed"));
                    }
                    by_doc[d] = Some(Arc::new(st));
                }
            }
        }
        stores.push(by_doc[d].clone().unwrap());
    }
    let mut outs: Vec<Vec<(usize, Res)>> = vec![Vec::new(); sc.sessions.len()];
    let mut overlapped = false;
    let mut take = |o: ThreadOut, stats: &mut Stats| -> Result<(), Verdict> {
        for (i, v) in o.outs.into_iter().enumerate() {
            if !v.is_empty() {
                outs[i] = v;
            }
        }
        overlapped |= o.overlapped;
        for (k, n) in &o.stats.counters {
            stats.add(k, *n);
        }
        stats.sim_time += o.stats.sim_time;
        stats.accesses += o.stats.accesses;
        stats.spans += o.stats.spans;
        stats.mix(o.stats.hash);
        stats.add("prints_on_the_thread_before", sc.before as u64);
        if let Some(b) = o.bad {
            return fail("contract", b);
        }
        Ok(())
    };
    if sc.threads == 1 {
        let o = std::thread::scope(|scope| {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(scope, || Over(thread_main(sc, &stores, 0, None)))
                .unwrap()
                .join()
        });
        match o {
            Ok(o) => take(o.0, stats)?,
            Err(_) => return fail("panic", "a session's thread panicked"),
        }
    } else {
        let sched = Arc::new(Sched::new(sc.threads, &sc.plan, sc.seed, sc.every));
        let res: Vec<std::thread::Result<Over<ThreadOut>>> = std::thread::scope(|scope| {
            let hs: Vec<_> = (0..sc.threads)
                .map(|t| {
                    let (sched, stores) = (sched.clone(), &stores);
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(scope, move || {
                            struct Fin(Arc<Sched>, usize);
                            impl Drop for Fin {
                                fn drop(&mut self) {
                                    self.0.finish(self.1);
                                }
                            }
                            let _fin = Fin(sched.clone(), t);
                            sched.start(t);
                            Over(thread_main(sc, stores, t, Some(sched)))
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for r in res {
            match r {
                Ok(o) => take(o.0, stats)?,
                Err(_) => return fail("panic", "a session's thread panicked"),
            }
        }
        let (points, switches, hash) = sched.summary();
        stats.mix(hash);
        stats.add("scheduling_points", points);
        stats.add("thread_switches", switches);
        overlapped |= switches > 0;
    }
    let mut lines = 0;
    for (i, s) in sc.sessions.iter().enumerate() {
        for u in units(s, sc.share, &outs[i]) {
            // the same, alone
            let base = UNIQUE.fetch_add(1, Ordering::Relaxed) << 32;
            let doc = &sc.docs[s.doc % sc.docs.len()];
            let alone: Over<Vec<(usize, Res)>> = std::thread::scope(|scope| {
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(scope, || {
                        let st = Store::build(doc, base).unwrap();
                        st.set_ver(u.ver);
                        let cx = Ctx::default();
                        let mut cl = Client::new(&st, &cx, s.defaults);
                        let mut v = Vec::new();
                        for (k, op) in &u.ops {
                            v.push((
                                *k,
                                do_op(&mut cl, &st, &cx, s.defaults, op, sc.share),
                            ));
                        }
                        Over(v)
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            stats.add("units_compared", 1);
            for (k, want) in alone.0 {
                let Some(got) = outs[i].iter().find(|o| o.0 == k).map(|o| o.1.clone()) else {
                    return fail("missing", format!("session {i}: operation {k} never ran"));
                };
                if let Res::Out(Out::Line(_) | Out::Focus(..)) = got {
                    lines += 1;
                }
                if let Res::Out(Out::Crash(c)) = &got {
                    if *c == Caught::Steps
                        && matches!(&want, Res::Out(Out::Crash(Caught::Steps)))
                    {
                        // the budget is too small for it alone too
                        return Err(Verdict::Skip("too big"));
                    }
                    if *c != Caught::Injected {
                        return fail(
                            "panic",
                            format!("session {i}, operation {k} {:?}: {c:?}", s.ops[k]),
                        );
                    }
                }
                let (g, w) = (plain(got), plain(want));
                if g != w {
                    return fail(
                        "influence",
                        format!(
                            "session {i}, operation {k} {:?}: {} instead of {}, which is what it delivers alone",
                            s.ops[k],
                            g.short(),
                            w.short()
                        ),
                    );
                }
            }
        }
    }
    stats.add("lines_checked", lines);
    stats.nontrivial = overlapped && lines >= 3;
    Ok(())
}
