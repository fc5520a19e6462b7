//! The observed world: what programmable builders are told to do, and everything they saw.
//!
//! One world per worker thread. Builders, artifacts and states report here; the oracles in
//! `model.rs` read only this and what the public API of the cache answers.

use crate::pbt::mix;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Uid = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    A,
    A2,
    B,
    C,
}

pub const NONE8: u8 = 255;

/// The part of a dynamic state that is the same in every flavour.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StCore {
    pub gen: u64,
    pub add: u64,
    pub sel: u32,
    pub fail_at: u8,
    pub panic_at: u8,
    pub ctr: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StSnap {
    pub core: StCore,
    pub extra: Option<Uid>,
}

/// A dynamic state as the public API shows it: `()` or a snapshot.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum StObs {
    Unit,
    Snap(StSnap),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    /// Resolve static dependency `dep`.
    Res { dep: usize, mode: u8, swallow: bool, keep: bool, catch: bool },
    /// Resolve the blueprint held by the dynamic state, if any.
    ResExtra { mode: u8, swallow: bool },
    /// Change the own state through `my_state` in a way that affects the next build.
    Mutate,
    /// Change the own state in a way that does not affect values.
    Count,
    /// Read the own state again.
    Read,
    /// Create a fresh leaf builder, resolve it, and maybe keep it in the artifact.
    Spawn { kind: Kind, base: u64, keep: bool, fails: bool, mode: u8 },
    /// Resolve what the outside world's registry has at that place, if it is an older builder.
    Pool { k: usize, mode: u8, swallow: bool },
    /// Use another cache (unless it is in use itself); does not affect values.
    Foreign { cache: usize, dep: usize, act: FAct },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FAct {
    Get,
    Lookup,
    Invalidate,
    Purge,
    Write,
    ClearArt,
    ClearAll,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FOut {
    Unit,
    Res(Res),
    Found(Option<ArtObs>),
    Edited(StObs, StObs),
    Panicked,
}

#[derive(Clone, Debug)]
pub struct NodeSpec {
    pub uid: Uid,
    pub kind: Kind,
    pub base: u64,
    pub deps: Vec<Uid>,
    pub steps: Vec<Step>,
    pub add: u64,
    pub sel: u32,
    pub fail_at: u8,
    pub panic_at: u8,
    pub spawned: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ArtObs {
    pub serial: u64,
    pub val: u64,
    pub owner: Uid,
    pub kind: Kind,
    pub clone: bool,
    pub addr: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ErrObs {
    pub eid: u64,
    pub code: u64,
    pub owner: Uid,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok(ArtObs),
    Err(ErrObs),
    Panicked,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BuildRes {
    Ok { serial: u64, val: u64 },
    Err { eid: u64, code: u64 },
    Panic,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Init { uid: Uid, st: StSnap },
    /// The state initialiser panicked on demand.
    InitPanic { uid: Uid },
    /// A running builder starts, ends using another cache.
    Enter { by: Uid, cache: usize, dep: Uid, act: FAct },
    Leave { by: Uid, cache: usize, out: FOut },
    BuildStart { uid: Uid, st: StObs },
    ResStart { user: Uid, dep: Uid, mode: u8 },
    ResEnd { user: Uid, dep: Uid, mode: u8, res: Res },
    StWrite { uid: Uid, st: StSnap },
    StRead { uid: Uid, st: StObs },
    Spawned { by: Uid, uid: Uid },
    BuildEnd { uid: Uid, res: BuildRes },
    DocResolve { user: Uid, dep: Uid },
    DocBuild { uid: Uid, serial: u64, addr: usize },
    DocInvalidate { uid: Uid },
    DocClear,
    /// A doctor callback whose handle contents were wrong.
    DocBad(String),
}

impl Ev {
    pub fn is_doc(&self) -> bool {
        matches!(
            self,
            Ev::DocResolve { .. } | Ev::DocBuild { .. } | Ev::DocInvalidate { .. } | Ev::DocClear | Ev::DocBad(_)
        )
    }
}

#[derive(Default)]
pub struct World {
    pub specs: Vec<Rc<NodeSpec>>,
    pub ids: Vec<Option<daab::BuilderId>>,
    pub log: Vec<Ev>,
    pub next_serial: u64,
    pub next_gen: u64,
    pub next_err: u64,
    /// strong objects alive
    pub b_alive: Vec<i32>,
    pub art_alive: BTreeMap<u64, i32>,
    pub clone_alive: BTreeMap<u64, i32>,
    pub st_alive: BTreeMap<u64, i32>,
    /// what an artifact instance holds: builders, artifacts
    pub art_holds: BTreeMap<u64, (Vec<Uid>, Vec<u64>)>,
    pub ext_fail: BTreeMap<Uid, u8>,
    pub ext_panic: BTreeMap<Uid, u8>,
    pub ext_init: std::collections::BTreeSet<Uid>,
    pub err_alive: i32,
    pub no_foreign: bool,
    pub fuel: u64,
    pub fuel_out: bool,
    pub clones_made: u64,
    pub bad: Vec<String>,
    /// Digest-relevant: number of nested levels of building.
    pub depth: u32,
    pub max_depth: u32,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

pub fn reset() {
    // Take the old world out before dropping it.
    let old = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
    drop(old);
}

pub fn log(e: Ev) {
    w(|w| w.log.push(e));
}

pub fn spec(uid: Uid) -> Rc<NodeSpec> {
    w(|w| w.specs[uid].clone())
}

pub fn ext(uid: Uid) -> (u8, u8) {
    w(|w| (w.ext_fail.get(&uid).copied().unwrap_or(NONE8), w.ext_panic.get(&uid).copied().unwrap_or(NONE8)))
}

/// The payload of a panic injected by a builder.
pub struct Injected;

pub fn inject() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}

/// Liveness token of a builder.
pub struct BTok(pub Uid);
impl BTok {
    pub fn new(uid: Uid) -> Self {
        w(|w| {
            while w.b_alive.len() <= uid {
                w.b_alive.push(0);
            }
            w.b_alive[uid] += 1;
        });
        BTok(uid)
    }
}
impl Drop for BTok {
    fn drop(&mut self) {
        let _ = W.try_with(|w| {
            if let Some(c) = w.borrow_mut().b_alive.get_mut(self.0) {
                *c -= 1;
            }
        });
    }
}

/// Liveness token of a dynamic state.
pub struct STok(pub u64);
impl STok {
    pub fn new(gen: u64) -> Self {
        w(|w| *w.st_alive.entry(gen).or_insert(0) += 1);
        STok(gen)
    }
}
impl Drop for STok {
    fn drop(&mut self) {
        let _ = W.try_with(|w| *w.borrow_mut().st_alive.entry(self.0).or_insert(0) -= 1);
    }
}

/// Liveness token of an error.
pub struct ETok(());
impl ETok {
    pub fn new() -> Self {
        w(|w| w.err_alive += 1);
        ETok(())
    }
}
impl Drop for ETok {
    fn drop(&mut self) {
        let _ = W.try_with(|w| w.borrow_mut().err_alive -= 1);
    }
}

/// Logs the end of the use of another cache even when it unwinds.
pub struct ForeignGuard {
    pub by: Uid,
    pub cache: usize,
    pub done: bool,
}
impl ForeignGuard {
    pub fn start(by: Uid, cache: usize, dep: Uid, act: FAct) -> Self {
        log(Ev::Enter { by, cache, dep, act });
        ForeignGuard { by, cache, done: false }
    }
    pub fn finish(mut self, out: FOut) {
        self.done = true;
        log(Ev::Leave { by: self.by, cache: self.cache, out });
    }
}
impl Drop for ForeignGuard {
    fn drop(&mut self) {
        if !self.done {
            let _ = W.try_with(|w| {
                w.borrow_mut().log.push(Ev::Leave { by: self.by, cache: self.cache, out: FOut::Panicked })
            });
        }
    }
}

/// Liveness token of an artifact (or of a clone of one).
pub struct ATok {
    pub serial: u64,
    pub clone: bool,
}
impl ATok {
    pub fn new(serial: u64) -> Self {
        w(|w| *w.art_alive.entry(serial).or_insert(0) += 1);
        ATok { serial, clone: false }
    }
}
impl Clone for ATok {
    fn clone(&self) -> Self {
        w(|w| {
            *w.clone_alive.entry(self.serial).or_insert(0) += 1;
            w.clones_made += 1;
        });
        ATok { serial: self.serial, clone: true }
    }
}
impl Drop for ATok {
    fn drop(&mut self) {
        let (s, c) = (self.serial, self.clone);
        let _ = W.try_with(|w| {
            let mut w = w.borrow_mut();
            let m = if c { &mut w.clone_alive } else { &mut w.art_alive };
            *m.entry(s).or_insert(0) -= 1;
        });
    }
}

// ---- the value semantics shared by builders and the reference evaluator ----

pub fn val_start(base: u64, add: u64) -> u64 {
    mix(base, add)
}
pub fn val_ok(acc: u64, i: usize, v: u64) -> u64 {
    mix(mix(acc, i as u64 * 4 + 1), v)
}
pub fn val_err(acc: u64, i: usize, code: u64) -> u64 {
    mix(mix(acc, i as u64 * 4 + 2), code)
}
pub fn val_panic(acc: u64, i: usize) -> u64 {
    mix(acc, i as u64 * 4 + 3)
}
pub fn code_own(base: u64, i: usize) -> u64 {
    mix(mix(base, 0xFA11), i as u64)
}
pub fn code_prop(base: u64, code: u64) -> u64 {
    mix(mix(base, 0xF0), code)
}

/// What one build computed.
pub struct Outcome<BP, KA> {
    pub serial: u64,
    pub val: u64,
    pub keep_bp: Vec<BP>,
    pub keep_art: Vec<KA>,
}

/// Logs the end of a build even when it unwinds.
pub struct BuildGuard {
    pub uid: Uid,
    pub done: bool,
}
impl BuildGuard {
    pub fn start(uid: Uid, st: StObs) -> Self {
        w(|w| {
            w.log.push(Ev::BuildStart { uid, st });
            w.depth += 1;
            w.max_depth = w.max_depth.max(w.depth);
            if w.fuel == 0 {
                w.fuel_out = true;
            } else {
                w.fuel -= 1;
            }
        });
        BuildGuard { uid, done: false }
    }
    pub fn finish(mut self, res: BuildRes) {
        self.done = true;
        w(|w| w.log.push(Ev::BuildEnd { uid: self.uid, res }));
    }
}
impl Drop for BuildGuard {
    fn drop(&mut self) {
        let _ = W.try_with(|w| {
            let mut w = w.borrow_mut();
            w.depth -= 1;
            if !self.done {
                w.log.push(Ev::BuildEnd { uid: self.uid, res: BuildRes::Panic });
            }
        });
    }
}

/// Logs the end of a resolve even when it unwinds.
pub struct ResGuard {
    pub user: Uid,
    pub dep: Uid,
    pub mode: u8,
    pub done: bool,
}
impl ResGuard {
    pub fn start(user: Uid, dep: Uid, mode: u8) -> Self {
        log(Ev::ResStart { user, dep, mode });
        ResGuard { user, dep, mode, done: false }
    }
    pub fn finish(mut self, res: Res) {
        self.done = true;
        log(Ev::ResEnd { user: self.user, dep: self.dep, mode: self.mode, res });
    }
}
impl Drop for ResGuard {
    fn drop(&mut self) {
        if !self.done {
            let _ = W.try_with(|w| {
                w.borrow_mut().log.push(Ev::ResEnd {
                    user: self.user,
                    dep: self.dep,
                    mode: self.mode,
                    res: Res::Panicked,
                })
            });
        }
    }
}

pub trait ArtInfo {
    fn art_obs(&self) -> ArtObs;
}
pub trait ErrInfo {
    fn err_obs(&self) -> ErrObs;
}
impl ErrInfo for daab::Never {
    fn err_obs(&self) -> ErrObs {
        match *self {}
    }
}

// ---- operations at the level of the history driver ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Edit {
    pub add: Option<u64>,
    pub sel: Option<u32>,
    pub fail_at: Option<u8>,
    pub panic_at: Option<u8>,
    /// Some(None): drop the held blueprint; Some(Some(slot)): hold a clone of that handle.
    pub extra: Option<Option<usize>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    New { uid: Uid, dep_slots: Vec<usize>, slot: usize, ctor: u8 },
    CloneH { from: usize, to: usize },
    DropH { slot: usize },
    /// Convert a handle into another form of blueprint for the same builder.
    Conv { from: usize, to: usize, form: u8 },
    Get { c: usize, slot: usize, mode: u8, hold: bool },
    Lookup { c: usize, slot: usize, mode: u8 },
    GetMut { c: usize, slot: usize, val: u64 },
    LookupMut { c: usize, slot: usize, val: u64 },
    DynState { c: usize, slot: usize },
    GetDynState { c: usize, slot: usize },
    DynStateMut { c: usize, slot: usize, edit: Edit },
    Invalidate { c: usize, slot: usize },
    Purge { c: usize, slot: usize },
    ClearArt { c: usize },
    ClearAll { c: usize },
    Gc { c: usize },
    GcFix { c: usize },
    DropCache { c: usize },
    Ext { uid: Uid, fail_at: u8, panic_at: u8, init: bool },
    /// The outside world's registry gets (a clone of) that handle at place `k`, or nothing.
    Pool { k: usize, slot: Option<usize>, give: bool },
    DropHold { i: usize },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Held {
    Nothing,
    Primary(u64),
    CloneOf(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Unit,
    Res(Res),
    Found(Option<ArtObs>),
    State(Option<StObs>),
    /// before edit, after edit
    Edited(StObs, StObs),
    /// injected panic came through
    Injected,
    /// the library panicked
    Panic(String),
    Cycles(u32),
}

#[derive(Clone, Debug)]
pub struct OpRes {
    pub out: Out,
    pub held: Held,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HandleObs {
    pub slot: usize,
    pub uid: Uid,
    pub known: bool,
    pub art: Option<ArtObs>,
    pub st: Option<StObs>,
    /// Disagreement between the accessors, when looked at.
    pub clash: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct CacheObs {
    pub count: usize,
    pub handles: Vec<HandleObs>,
}

pub trait Exec {
    fn exec(&mut self, op: &Op) -> OpRes;
    /// Looks at all handles, or (without `full`) just counts the known builders.
    fn observe(&mut self, c: usize, deep: bool, full: bool) -> CacheObs;
    /// Checks ==, Hash and id among all live handles; returns the first disagreement.
    fn identity(&mut self) -> Option<String>;
    fn slot_uid(&self, slot: usize) -> Option<Uid>;
    /// Does the flavour hand out the shared artifact itself (bin)?
    fn can_share(&self) -> bool;
    fn has_mut(&self) -> bool;
    fn has_dyn(&self) -> bool;
    fn forms(&self) -> u8;
    /// Drops everything this executor holds.
    fn teardown(&mut self);
    fn name(&self) -> &'static str;
}
