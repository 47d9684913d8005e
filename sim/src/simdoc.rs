//! The simulated document store behind the crate's `PrettyDoc` seam.
//!
//! Every accessor call is one event: it advances the virtual clock, is checked against the
//! contract of the trait, may switch the document to another version, may run a nested print, may
//! fail or panic as the fault plan says, and is a point where the scheduler may run someone else.

use crate::rng::{fold, mix};
use crate::sched::Sched;
use crate::spec::*;
use partial_pretty_printer::{PrettyDoc, Style, ValidNotation};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

// ---------------------------------------------------------------- styles

/// The free monoid of style tokens: combining records the operands in order, so any lost,
/// duplicated, misplaced or reordered combination is visible.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SimStyle(pub Vec<u32>);

impl Style for SimStyle {
    fn combine(outer: &Self, inner: &Self) -> Self {
        if inner.0.is_empty() {
            return outer.clone();
        }
        let mut v = Vec::with_capacity(outer.0.len() + inner.0.len());
        v.extend_from_slice(&outer.0);
        v.extend_from_slice(&inner.0);
        SimStyle(v)
    }
}

pub const ROOT_TOKEN: u32 = 0xFFFF_FF00;

pub fn node_token(node: u32) -> u32 {
    node * 32 + 31
}
/// The style of `label` in the context of `node`. Label 7 is the neutral style everywhere.
pub fn label_token(node: u32, label: u8) -> Option<u32> {
    if label == 7 {
        None
    } else {
        Some(node * 32 + (label as u32 % 31))
    }
}

// ---------------------------------------------------------------- store

#[derive(Clone, Debug)]
pub struct Node {
    pub note: usize,
    pub text: Option<String>,
    pub kids: Vec<u32>,
    pub parent: u32,
    pub index: u32,
    pub cond: u8,
    pub styled: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Version {
    pub nodes: Vec<Node>,
}

/// What a notation may legitimately ask, per `PrettyDoc`'s documentation.
#[derive(Clone, Debug, Default)]
pub struct NoteInfo {
    pub labels: u32,
    /// (condition, position) pairs tested.
    pub checks: Vec<(u8, CPos)>,
}

pub struct Store {
    pub specs: Vec<Note>,
    pub notes: Vec<ValidNotation<u8, u8>>,
    pub info: Vec<NoteInfo>,
    pub vers: Vec<Version>,
    pub cur: AtomicUsize,
    /// External node ids are `id_base + index`.
    pub id_base: u64,
    /// Which document this is, in its errors.
    pub doc: u64,
    /// One buffer per node, which holds its text in the version `bufs_ver`: documents that are
    /// edited in place show another text at the same address.
    bufs: Vec<Buf>,
    bufs_ver: AtomicUsize,
}

struct Buf(UnsafeCell<String>);
// SAFETY: only written by `Store::edit`, while the store belongs to one session and no print of
// it is open.
unsafe impl Sync for Buf {}

pub const NO_PARENT: u32 = u32::MAX;

impl Version {
    pub fn from_tree(t: &Tree) -> Version {
        // Iterative preorder numbering.
        let mut nodes: Vec<Node> = Vec::new();
        let mut stack: Vec<(&Tree, u32, u32)> = vec![(t, NO_PARENT, 0)];
        while let Some((t, parent, index)) = stack.pop() {
            let id = nodes.len() as u32;
            nodes.push(Node {
                note: t.n,
                text: t.t.clone(),
                kids: Vec::new(),
                parent,
                index,
                cond: t.c,
                styled: t.s,
            });
            if parent != NO_PARENT {
                nodes[parent as usize].kids.push(id);
            }
            if t.t.is_none() {
                for (i, k) in t.k.iter().enumerate().rev() {
                    stack.push((k, id, i as u32));
                }
            }
        }
        Version { nodes }
    }
}

pub fn note_info(n: &Note) -> NoteInfo {
    let mut info = NoteInfo::default();
    n.walk(&mut |n| match n {
        Note::Style(l, _) | Note::Indent(_, Some(l), _) => info.labels |= 1 << (l % 32),
        Note::Check(c, p, _, _) => info.checks.push((*c, *p)),
        _ => (),
    });
    info
}

impl Store {
    /// `None` if some notation is not accepted by validation or an index is out of range.
    pub fn build(spec: &DocSpec, id_base: u64) -> Option<Store> {
        let vers = spec.vers.iter().map(Version::from_tree).collect();
        Store::from_parts(spec.notes.clone(), vers, id_base, false)
    }

    pub fn from_parts(
        specs: Vec<Note>,
        vers: Vec<Version>,
        id_base: u64,
        cheat: bool,
    ) -> Option<Store> {
        if vers.is_empty() || specs.is_empty() {
            return None;
        }
        let mut notes = Vec::new();
        for n in &specs {
            let r = n.to_real();
            if cheat {
                notes.push(r.cheat_validation_for_testing_only());
            } else {
                notes.push(r.validate().ok()?);
            }
        }
        for v in &vers {
            for n in &v.nodes {
                if n.note >= specs.len() {
                    return None;
                }
                if let Some(t) = &n.text {
                    if t.contains('\n') {
                        return None;
                    }
                }
            }
        }
        let info = specs.iter().map(note_info).collect();
        let most = if vers.len() > 1 {
            vers.iter().map(|v: &Version| v.nodes.len()).max().unwrap_or(0)
        } else {
            0
        };
        let bufs = (0..most)
            .map(|i| {
                let text = |v: &Version| Some(v.nodes.get(i)?.text.as_ref()?.len());
                let room = vers.iter().filter_map(text).max().unwrap_or(0);
                Buf(UnsafeCell::new(String::with_capacity(room)))
            })
            .collect();
        let st = Store {
            specs,
            notes,
            info,
            vers,
            cur: AtomicUsize::new(0),
            id_base,
            doc: id_base,
            bufs,
            bufs_ver: AtomicUsize::new(usize::MAX),
        };
        st.edit(0);
        Some(st)
    }

    pub fn ver(&self) -> usize {
        self.cur.load(Ordering::Relaxed)
    }
    pub fn set_ver(&self, v: usize) {
        self.cur.store(v % self.vers.len(), Ordering::Relaxed);
    }
    /// Switch to version `v` in place: the texts of all nodes are overwritten where they are. No
    /// print of this store may be open.
    pub fn edit(&self, v: usize) {
        self.set_ver(v);
        let nodes = &self.vers[self.ver()].nodes;
        for (node, buf) in nodes.iter().zip(&self.bufs) {
            // SAFETY: nobody holds a text of this store (see above).
            let buf = unsafe { &mut *buf.0.get() };
            buf.clear();
            buf.push_str(node.text.as_deref().unwrap_or(""));
        }
        self.bufs_ver.store(self.ver(), Ordering::Relaxed);
    }
    fn text<'a>(&'a self, n: u32, text: &'a str) -> &'a str {
        match self.bufs.get(n as usize) {
            Some(buf) if self.bufs_ver.load(Ordering::Relaxed) == self.ver() => {
                // SAFETY: not written while prints are open (see `edit`).
                let buf = unsafe { &*buf.0.get() };
                debug_assert_eq!(buf, text);
                buf
            }
            _ => text,
        }
    }
    fn node(&self, n: u32) -> Option<&Node> {
        self.vers[self.ver()].nodes.get(n as usize)
    }

    /// Is every node's notation applicable to the node (so that a correct print cannot report a
    /// notation/document mismatch)?
    pub fn well_formed(&self, ver: usize) -> bool {
        let v = &self.vers[ver];
        v.nodes.iter().all(|n| {
            let mut ok = true;
            fn go(note: &Note, n: &Node, ok: &mut bool) {
                let k = n.kids.len() as i64;
                let is_text = n.text.is_some();
                let idx = |i: i64| !is_text && i < k && i >= -k;
                match note {
                    Note::Text => *ok &= is_text,
                    Note::Child(i) => *ok &= idx(*i),
                    Note::Check(_, CPos::Child(i), a, b) => {
                        *ok &= idx(*i);
                        go(a, n, ok);
                        go(b, n, ok);
                    }
                    Note::Check(_, _, a, b) | Note::Choice(a, b) => {
                        go(a, n, ok);
                        go(b, n, ok);
                    }
                    Note::Count(z, o, m) => {
                        *ok &= !is_text;
                        go(
                            match k {
                                0 => z,
                                1 => o,
                                _ => m,
                            },
                            n,
                            ok,
                        );
                    }
                    Note::Fold(f, j) => {
                        *ok &= !is_text;
                        if k >= 1 {
                            go(f, n, ok);
                        }
                        if k >= 2 {
                            go(j, n, ok);
                        }
                    }
                    Note::Flat(x) | Note::Indent(_, _, x) | Note::Style(_, x) => go(x, n, ok),
                    Note::Cat(v) | Note::CatR(v) => v.iter().for_each(|x| go(x, n, ok)),
                    _ => (),
                }
            }
            go(&self.specs[n.note], n, &mut ok);
            ok
        })
    }
}

// ---------------------------------------------------------------- errors, faults

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Acc {
    Id,
    Notation,
    Cond,
    Lookup,
    NodeStyle,
    NumKids,
    Text,
    Child,
    Last,
    Prev,
}

/// The error type of simulated documents. Every injected failure has its own serial number, so
/// "exactly that error" is checkable.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimErr {
    pub serial: u64,
    pub what: Acc,
    pub node: u32,
    /// Which document (its `id_base`).
    pub doc: u64,
    /// The document was edited under the printer's feet (not an injected fault).
    pub stale: bool,
}
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(
            f,
            "doc error #{} in {:?} of node {}{}",
            self.serial,
            self.what,
            self.node,
            if self.stale { " (stale)" } else { "" }
        )
    }
}
impl std::error::Error for SimErr {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The access fails once.
    Err,
    /// The access panics.
    Panic,
    /// The document switches to this version just before the access.
    Edit(usize),
    /// The nested-print callback runs inside the access.
    Nest,
}

/// Panic payloads of the simulator itself.
pub struct SimPanic(#[allow(dead_code)] pub u64);
pub struct StepLimit;
pub struct ContractPanic;

// ---------------------------------------------------------------- per-session context

type NestHook = Box<dyn Fn(u64)>;

pub struct Ctx {
    pub acc: Cell<u64>,
    pub spans: Cell<u64>,
    pub clock: Cell<u64>,
    pub hash: Cell<u64>,
    /// Total events (accesses + spans) allowed before the run counts as not terminating.
    pub limit: Cell<u64>,
    /// Faults by absolute access number.
    pub plan: RefCell<BTreeMap<u64, Fault>>,
    /// Nodes that are out of service (every access to them fails).
    pub down: RefCell<Option<Arc<Vec<bool>>>>,
    /// Only these accesses fail on nodes that are down (empty = all).
    pub down_kinds: RefCell<Vec<Acc>>,
    /// What the injected failures were: (access, error).
    pub fired: RefCell<Vec<SimErr>>,
    pub fired_kinds: RefCell<BTreeMap<&'static str, u64>>,
    /// First contract violation seen.
    pub bad: RefCell<Option<String>>,
    pub strict: Cell<bool>,
    pub touched: RefCell<Option<Vec<u32>>>,
    pub kinds: RefCell<Option<Vec<Acc>>>,
    pub latency: Cell<u64>,
    pub slow_seed: Cell<u64>,
    pub nest: RefCell<Option<NestHook>>,
    pub actor: RefCell<Option<(Arc<Sched>, usize)>>,
    pub in_nest: Cell<bool>,
    /// Countdown to a failing style access.
    pub style_fail: Cell<Option<u64>>,
}

impl Default for Ctx {
    fn default() -> Ctx {
        Ctx {
            acc: Cell::new(0),
            spans: Cell::new(0),
            clock: Cell::new(0),
            hash: Cell::new(0x1234_5678),
            limit: Cell::new(20_000_000),
            plan: RefCell::default(),
            down: RefCell::default(),
            down_kinds: RefCell::default(),
            fired: RefCell::default(),
            fired_kinds: RefCell::default(),
            bad: RefCell::default(),
            strict: Cell::new(true),
            touched: RefCell::default(),
            kinds: RefCell::default(),
            latency: Cell::new(1),
            slow_seed: Cell::new(0),
            nest: RefCell::default(),
            actor: RefCell::default(),
            in_nest: Cell::new(false),
            style_fail: Cell::new(None),
        }
    }
}

thread_local! {
    static CUR: Cell<*const Ctx> = const { Cell::new(std::ptr::null()) };
}

/// Makes `ctx` the context that span markers on this thread are charged to.
pub struct Scope(*const Ctx, Option<fn(&'static str)>);
impl Scope {
    pub fn new(ctx: &Ctx) -> Scope {
        let old = CUR.with(|c| c.replace(ctx));
        let hook = crate::set_span_hook(Some(on_span));
        Scope(old, hook)
    }
}
impl Drop for Scope {
    fn drop(&mut self) {
        CUR.with(|c| c.set(self.0));
        crate::set_span_hook(self.1);
    }
}

fn on_span(name: &'static str) {
    let p = CUR.with(|c| c.get());
    if p.is_null() || std::thread::panicking() {
        return;
    }
    // SAFETY: set by `Scope::new` from a reference that outlives the scope.
    let ctx = unsafe { &*p };
    ctx.spans.set(ctx.spans.get() + 1);
    ctx.hash
        .set(fold(ctx.hash.get(), name.len() as u64 + 1000));
    ctx.tick();
}

impl Ctx {
    pub fn count(&self, kind: &'static str) {
        *self.fired_kinds.borrow_mut().entry(kind).or_insert(0) += 1;
    }

    fn tick(&self) {
        if self.acc.get() + self.spans.get() > self.limit.get() {
            std::panic::panic_any(StepLimit);
        }
        let a = self.actor.borrow().clone();
        if let Some((sched, me)) = a {
            sched.point(me);
        }
    }

    pub fn arm(&self, at: u64, f: Fault) {
        self.plan.borrow_mut().insert(at, f);
    }

    pub fn add_hash(&self, x: u64) {
        self.hash.set(fold(self.hash.get(), x));
    }

    fn violation(&self, msg: String) -> ! {
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(msg);
        }
        drop(b);
        std::panic::panic_any(ContractPanic)
    }

    fn note_bad(&self, msg: String) {
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(msg);
        }
    }

    fn fail(&self, st: &Store, serial: u64, what: Acc, node: u32) -> SimErr {
        let e = SimErr {
            serial,
            what,
            node,
            doc: st.doc,
            stale: false,
        };
        self.fired.borrow_mut().push(e.clone());
        e
    }

    /// Common part of every accessor.
    fn access(&self, st: &Store, what: Acc, node: u32) -> Result<(), SimErr> {
        let n = self.acc.get();
        self.acc.set(n + 1);
        self.clock.set(
            self.clock.get()
                + self.latency.get()
                + if self.slow_seed.get() != 0
                    && mix(self.slow_seed.get() ^ node as u64) % 5 == 0
                {
                    100
                } else {
                    0
                },
        );
        self.hash.set(fold(
            self.hash.get(),
            (what as u64) << 32 | node as u64,
        ));
        if let Some(t) = self.touched.borrow_mut().as_mut() {
            t.push(node);
        }
        if let Some(t) = self.kinds.borrow_mut().as_mut() {
            t.push(what);
        }
        self.tick();
        let f = self.plan.borrow().get(&n).copied();
        match f {
            None => (),
            Some(Fault::Err) => {
                self.count("access_error");
                return Err(self.fail(st, n, what, node));
            }
            Some(Fault::Panic) => {
                self.count("access_panic");
                std::panic::panic_any(SimPanic(n))
            }
            Some(Fault::Edit(v)) => {
                self.count("edit_mid_operation");
                st.set_ver(v);
            }
            Some(Fault::Nest) => {
                if !self.in_nest.get() {
                    self.in_nest.set(true);
                    self.count("nested_print");
                    let h = self.nest.borrow();
                    if let Some(h) = h.as_ref() {
                        h(n);
                    }
                    self.in_nest.set(false);
                }
            }
        }
        if matches!(what, Acc::Lookup | Acc::NodeStyle) {
            match self.style_fail.get() {
                Some(0) => {
                    self.style_fail.set(None);
                    self.count("style_access_error");
                    return Err(self.fail(st, n, what, node));
                }
                Some(k) => self.style_fail.set(Some(k - 1)),
                None => (),
            }
        }
        let d = self.down.borrow().clone();
        if let Some(d) = d {
            if d.get(node as usize).copied().unwrap_or(false) {
                let dk = self.down_kinds.borrow();
                if dk.is_empty() || dk.contains(&what) {
                    self.count("node_outage_hit");
                    return Err(self.fail(st, n, what, node));
                }
            }
        }
        Ok(())
    }

    fn stale(&self, what: Acc, node: u32) -> SimErr {
        self.count("stale_access");
        SimErr {
            serial: self.acc.get(),
            what,
            node,
            doc: 0,
            stale: true,
        }
    }
}

// ---------------------------------------------------------------- handles

/// A document handle. With `DEFAULTS` the trait's default sibling methods are used.
pub struct Hd<'d, const DEFAULTS: bool> {
    pub st: &'d Store,
    pub cx: &'d Ctx,
    pub node: u32,
}
impl<const X: bool> Clone for Hd<'_, X> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<const X: bool> Copy for Hd<'_, X> {}
impl<const X: bool> fmt::Debug for Hd<'_, X> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "node{}", self.node)
    }
}

impl<'d, const X: bool> Hd<'d, X> {
    pub fn root(st: &'d Store, cx: &'d Ctx) -> Self {
        Hd { st, cx, node: 0 }
    }

    fn get(self, what: Acc) -> Result<&'d Node, SimErr> {
        match self.st.node(self.node) {
            Some(n) => Ok(n),
            None => {
                if self.cx.strict.get() {
                    self.cx
                        .violation(format!("{what:?} of nonexistent node {}", self.node))
                }
                Err(self.cx.stale(what, self.node))
            }
        }
    }

    fn kid(self, what: Acc, i: usize) -> Result<Self, SimErr> {
        let n = self.get(what)?;
        if n.text.is_none() {
            if let Some(k) = n.kids.get(i) {
                return Ok(Hd { node: *k, ..self });
            }
        }
        if self.cx.strict.get() {
            self.cx.violation(format!(
                "{what:?}({i}) of node {} which {}",
                self.node,
                if n.text.is_some() {
                    "holds text".to_string()
                } else {
                    format!("has {} children", n.kids.len())
                }
            ))
        }
        Err(self.cx.stale(what, self.node))
    }

    fn id_(self) -> Result<u64, SimErr> {
        self.cx.access(self.st, Acc::Id, self.node)?;
        Ok(self.st.id_base + self.node as u64)
    }
    fn notation_(self) -> Result<&'d ValidNotation<u8, u8>, SimErr> {
        self.cx.access(self.st, Acc::Notation, self.node)?;
        Ok(&self.st.notes[self.get(Acc::Notation)?.note])
    }
    fn condition_(self, c: &u8) -> Result<bool, SimErr> {
        self.cx.access(self.st, Acc::Cond, self.node)?;
        let n = self.get(Acc::Cond)?;
        if self.cx.strict.get() {
            let own = self.st.info[n.note]
                .checks
                .iter()
                .any(|(cc, p)| cc == c && *p == CPos::Here);
            let via_parent = n.parent != NO_PARENT && {
                let p = &self.st.vers[self.st.ver()].nodes[n.parent as usize];
                let k = p.kids.len() as i64;
                self.st.info[p.note].checks.iter().any(|(cc, pos)| {
                    cc == c
                        && match pos {
                            CPos::Here => false,
                            CPos::Child(i) => (if *i < 0 { *i + k } else { *i }) == n.index as i64,
                            CPos::Left => (n.index as i64) < k - 1,
                            CPos::Right => n.index >= 1,
                        }
                })
            };
            if !own && !via_parent {
                self.cx.note_bad(format!(
                    "condition {c} asked of node {}, but no notation that can see it tests that",
                    self.node
                ));
            }
        }
        Ok(n.cond >> (c % 8) & 1 == 1)
    }
    fn lookup_(self, l: u8) -> Result<SimStyle, SimErr> {
        self.cx.access(self.st, Acc::Lookup, self.node)?;
        let n = self.get(Acc::Lookup)?;
        if self.cx.strict.get() && self.st.info[n.note].labels >> (l % 32) & 1 == 0 {
            self.cx.note_bad(format!(
                "style label {l} looked up in node {}, whose notation does not use it",
                self.node
            ));
        }
        Ok(SimStyle(label_token(self.node, l).into_iter().collect()))
    }
    fn node_style_(self) -> Result<SimStyle, SimErr> {
        self.cx.access(self.st, Acc::NodeStyle, self.node)?;
        let n = self.get(Acc::NodeStyle)?;
        Ok(if n.styled {
            SimStyle(vec![node_token(self.node)])
        } else {
            SimStyle(vec![])
        })
    }
    fn num_children_(self) -> Result<Option<usize>, SimErr> {
        self.cx.access(self.st, Acc::NumKids, self.node)?;
        let n = self.get(Acc::NumKids)?;
        Ok(if n.text.is_some() {
            None
        } else {
            Some(n.kids.len())
        })
    }
    fn text_(self) -> Result<&'d str, SimErr> {
        self.cx.access(self.st, Acc::Text, self.node)?;
        let n = self.get(Acc::Text)?;
        match &n.text {
            Some(t) => Ok(self.st.text(self.node, t)),
            None => {
                if self.cx.strict.get() {
                    self.cx.violation(format!(
                        "unwrap_text of node {}, which does not hold text",
                        self.node
                    ))
                }
                Err(self.cx.stale(Acc::Text, self.node))
            }
        }
    }
    fn child_(self, i: usize) -> Result<Self, SimErr> {
        self.cx.access(self.st, Acc::Child, self.node)?;
        self.kid(Acc::Child, i)
    }
    fn last_(self) -> Result<Self, SimErr> {
        self.cx.access(self.st, Acc::Last, self.node)?;
        let n = self.get(Acc::Last)?.kids.len();
        if n == 0 {
            return self.kid(Acc::Last, 0);
        }
        self.kid(Acc::Last, n - 1)
    }
    fn prev_(self, parent: Self, i: usize) -> Result<Self, SimErr> {
        self.cx.access(self.st, Acc::Prev, self.node)?;
        let p = parent.get(Acc::Prev)?;
        let fits = p.text.is_none()
            && i + 1 < p.kids.len()
            && p.kids[i + 1] == self.node
            && std::ptr::eq(parent.st, self.st);
        if !fits {
            if self.cx.strict.get() {
                self.cx.violation(format!(
                    "unwrap_prev_sibling of node {} with parent {} and index {i}, but the parent's children are {:?}",
                    self.node, parent.node, p.kids
                ))
            }
            return Err(self.cx.stale(Acc::Prev, self.node));
        }
        parent.kid(Acc::Prev, i)
    }
}

macro_rules! common {
    () => {
        type Id = u64;
        type Style = SimStyle;
        type StyleLabel = u8;
        type Condition = u8;
        type Error = SimErr;
        fn id(self) -> Result<u64, SimErr> {
            self.id_()
        }
        fn notation(self) -> Result<&'d ValidNotation<u8, u8>, SimErr> {
            self.notation_()
        }
        fn condition(self, c: &u8) -> Result<bool, SimErr> {
            self.condition_(c)
        }
        fn lookup_style(self, l: u8) -> Result<SimStyle, SimErr> {
            self.lookup_(l)
        }
        fn node_style(self) -> Result<SimStyle, SimErr> {
            self.node_style_()
        }
        fn num_children(self) -> Result<Option<usize>, SimErr> {
            self.num_children_()
        }
        fn unwrap_text(self) -> Result<&'d str, SimErr> {
            self.text_()
        }
        fn unwrap_child(self, i: usize) -> Result<Self, SimErr> {
            self.child_(i)
        }
    };
}

impl<'d> PrettyDoc<'d> for Hd<'d, false> {
    common!();
    fn unwrap_last_child(self) -> Result<Self, SimErr> {
        self.last_()
    }
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, SimErr> {
        self.prev_(parent, i)
    }
}
impl<'d> PrettyDoc<'d> for Hd<'d, true> {
    common!();
}

// ---------------------------------------------------------------- panics

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Caught {
    /// An injected panic came back out.
    Injected,
    /// The step budget ran out.
    Steps,
    /// The document was asked something it must not be asked.
    Contract,
    /// The code under test panicked.
    Panic(String),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => Err(if p.is::<SimPanic>() {
            Caught::Injected
        } else if p.is::<StepLimit>() {
            Caught::Steps
        } else if p.is::<ContractPanic>() {
            Caught::Contract
        } else {
            Caught::Panic(last_panic())
        }),
    }
}

/// Memo used by models to intern styles.
#[derive(Default)]
pub struct StyleTable {
    pub all: Vec<Vec<u32>>,
    memo: HashMap<(u32, u32), u32>,
}
impl StyleTable {
    pub fn new() -> StyleTable {
        StyleTable {
            all: vec![vec![]],
            memo: HashMap::new(),
        }
    }
    pub fn push(&mut self, base: u32, tok: u32) -> u32 {
        if let Some(i) = self.memo.get(&(base, tok)) {
            return *i;
        }
        let mut v = self.all[base as usize].clone();
        v.push(tok);
        self.all.push(v);
        let i = (self.all.len() - 1) as u32;
        self.memo.insert((base, tok), i);
        i
    }
}
