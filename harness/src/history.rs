//! Random histories of public API calls against a reference model.
//!
//! The model is *driven by what builders report*: it does not simulate builds, it checks that
//! every reported step is the one the documented semantics allow (a request of a cached
//! artifact hands it out, a request of an absent one runs exactly that builder, ...), keeps the
//! resulting expectation, and compares it after every call with what the public accessors show.

use crate::flavors;
use crate::pbt::{mix, CaseCfg, CaseOut, Source};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ArtRec {
    pub serial: u64,
    pub val: u64,
    pub addr: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Used {
    Pending,
    Ok(u64),
    Failed,
}

/// Expectation for one cache.
#[derive(Clone, Debug, Default)]
pub struct Cm {
    pub art: BTreeMap<Uid, ArtRec>,
    pub st: BTreeMap<Uid, StObs>,
    /// What the latest build attempt of a builder resolved, until it is invalidated.
    pub uses: BTreeMap<Uid, BTreeMap<Uid, Used>>,
    pub mutated: BTreeSet<Uid>,
    /// Known builders without a state: those whose initialisation panicked.
    pub bare: BTreeSet<Uid>,
    /// Builders that were unknown until an initialisation that panicked just now: whether they
    /// are known is left open (and settled by looking).
    pub maybe: BTreeSet<Uid>,
    /// Builders without an artifact whose `uses` may have been dropped or not (see `tolerate`).
    /// That makes a difference to what a collection finds, and to nothing else.
    pub doubt: BTreeSet<Uid>,
}

impl Cm {
    pub fn known(&self) -> BTreeSet<Uid> {
        self.st.keys().chain(self.bare.iter()).copied().collect()
    }
    fn n_known(&self) -> usize {
        self.st.len() + self.bare.len()
    }
    fn forget(&mut self, uid: Uid) {
        self.drop_art(uid);
        self.st.remove(&uid);
        self.bare.remove(&uid);
        self.maybe.remove(&uid);
    }
    /// All builders whose latest attempt used `uid`, directly or not (without `uid` itself,
    /// unless it is its own dependent).
    pub fn dependents(&self, uid: Uid) -> BTreeSet<Uid> {
        let mut out = BTreeSet::new();
        let mut todo = vec![uid];
        while let Some(x) = todo.pop() {
            for (u, d) in &self.uses {
                if d.contains_key(&x) && out.insert(*u) {
                    todo.push(*u);
                }
            }
        }
        out
    }
    fn drop_art(&mut self, uid: Uid) -> bool {
        self.uses.remove(&uid);
        self.doubt.remove(&uid);
        self.mutated.remove(&uid);
        self.art.remove(&uid).is_some()
    }
}

/// Calls `f` in a destructor that runs because of a panic.
fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Guard<F: FnMut()>(F);
    impl<F: FnMut()> Drop for Guard<F> {
        fn drop(&mut self) {
            (self.0)();
        }
    }
    let mut f = Some(f);
    let mut out = None;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _guard = Guard(|| out = Some((f.take().unwrap())()));
        std::panic::resume_unwind(Box::new(()));
    }));
    out.unwrap()
}

#[derive(Clone, Debug)]
pub struct Disc {
    pub what: &'static str,
    pub op: &'static str,
    pub detail: String,
    /// says nothing about what the caches hold, so that the model goes on to describe them
    pub benign: bool,
}

#[derive(Clone)]
pub struct Profile {
    pub w: [u32; 20],
    pub fail: bool,
    pub panic: bool,
    pub ext: bool,
    /// values are a function of recipes and states alone
    pub pure: bool,
    pub mutate: bool,
    pub spawn: bool,
    pub extra: bool,
    pub share: bool,
    /// builders look into a registry of the outside world
    pub pool: bool,
    /// running builders use other caches
    pub foreign: bool,
    pub caches: usize,
    pub deep: bool,
    /// The handles are looked at after few of the calls only.
    pub blind: bool,
    /// Values have debug texts that do not tell them apart (unless the doctor needs them).
    pub opaque: bool,
    pub max_forms: u64,
    pub flavors: &'static [usize],
    pub doc: u8,
    pub min_ops: usize,
    pub max_ops: usize,
    pub max_handles: usize,
}

// order of the op weights (index 0 is the simplest when shrinking)
pub const W_GET: usize = 0;
pub const W_NEW: usize = 1;
pub const W_INVALIDATE: usize = 2;
pub const W_DSM: usize = 3;
pub const W_PURGE: usize = 4;
pub const W_LOOKUP: usize = 5;
pub const W_DYN: usize = 6;
pub const W_GETDYN: usize = 7;
pub const W_DROPH: usize = 8;
pub const W_CLONEH: usize = 9;
pub const W_CONV: usize = 10;
pub const W_GC: usize = 11;
pub const W_GCFIX: usize = 12;
pub const W_CLEARART: usize = 13;
pub const W_CLEARALL: usize = 14;
pub const W_EXT: usize = 15;
pub const W_GETMUT: usize = 16;
pub const W_LOOKUPMUT: usize = 17;
pub const W_DROPHOLD: usize = 18;
pub const W_DROPCACHE: usize = 19;

pub fn base_profile() -> Profile {
    let mut w = [0u32; 20];
    w[W_GET] = 34;
    w[W_NEW] = 14;
    w[W_INVALIDATE] = 7;
    w[W_DSM] = 9;
    w[W_PURGE] = 4;
    w[W_LOOKUP] = 3;
    w[W_DYN] = 3;
    w[W_GETDYN] = 1;
    w[W_DROPH] = 5;
    w[W_CLONEH] = 2;
    w[W_CONV] = 3;
    w[W_GC] = 4;
    w[W_GCFIX] = 1;
    w[W_CLEARART] = 1;
    w[W_CLEARALL] = 1;
    w[W_EXT] = 3;
    w[W_GETMUT] = 3;
    w[W_LOOKUPMUT] = 2;
    w[W_DROPHOLD] = 2;
    w[W_DROPCACHE] = 1;
    Profile {
        w,
        fail: true,
        panic: false,
        ext: true,
        pure: false,
        mutate: true,
        spawn: true,
        extra: true,
        share: true,
        pool: false,
        foreign: false,
        caches: 2,
        deep: false,
        blind: false,
        opaque: false,
        max_forms: 5,
        flavors: &[0, 1, 2, 3, 4],
        doc: 0,
        min_ops: 10,
        max_ops: 45,
        max_handles: 14,
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub builds: u64,
    pub hits: u64,
    pub nested_hits: u64,
    pub fails: u64,
    pub swallowed: u64,
    pub panics: u64,
    pub unwinding: u64,
    pub caught: u64,
    pub inv_ops: u64,
    pub inv_dependents: u64,
    pub inv_survivors: u64,
    pub inv_deep: u64,
    pub blind: u64,
    pub state_writes: u64,
    pub state_survived: u64,
    pub self_writes: u64,
    pub clears: u64,
    pub clear_removed: u64,
    pub gcs: u64,
    pub gc_removed: u64,
    pub gc_kept_live: u64,
    pub gc_held_dead: u64,
    pub gc_multi: u64,
    pub drops: u64,
    pub purges: u64,
    pub muts: u64,
    pub mut_dependents: u64,
    pub convs: u64,
    pub reused_addr: u64,
    pub two_caches: u64,
    pub spawned: u64,
    pub rebuilt: u64,
    pub doc_events: u64,
    pub coherent: u64,
    pub max_depth: u64,
    pub foreign: u64,
    pub pooled: u64,
    pub tolerated: u64,
    pub doubt_ends: u64,
}

pub struct Hist<'a> {
    pub src: &'a mut Source,
    pub prof: Profile,
    pub ex: Box<dyn Exec>,
    pub m: Vec<Cm>,
    slots: Vec<Option<Uid>>,
    pool: [Option<Uid>; 2],
    holds: Vec<Held>,
    pub discs: Vec<Disc>,
    pub trace: String,
    want_trace: bool,
    pub stats: Stats,
    pub digest: u64,
    pub digests: Vec<u64>,
    pub key: u64,
    pub ops: u64,
    opname: &'static str,
    cur: usize,
    expect_doc: bool,
    broken: bool,
    seen_ids: BTreeSet<daab::BuilderId>,
    tolerate: BTreeSet<Uid>,
    last_failed: Vec<BTreeSet<Uid>>,
    per_cache_ops: Vec<u64>,
    pub had: BTreeSet<&'static str>,
    /// Only execute the operations on this cache (for telling what one does alone).
    pub only: Option<usize>,
    pub ablate: &'static str,
    /// Every how many-th call is made by a destructor while a panic unwinds (0: none).
    pub unwinding: u64,
    pub last_cache: Option<usize>,
    touched: BTreeSet<usize>,
}

enum Exp {
    Ok(ArtRec),
    Err { eid: u64, code: u64, owner: Uid },
    Panic,
    Unknown,
}

fn kind_of_art(k: Kind) -> Kind {
    if k == Kind::A2 {
        Kind::A
    } else {
        k
    }
}

impl<'a> Hist<'a> {
    pub fn new(src: &'a mut Source, prof: Profile, flavor: usize, want_trace: bool) -> Self {
        reset();
        let n = prof.caches;
        let ex = flavors::make(flavor, n, prof.doc);
        let expect_doc = cfg!(feature = "diagnostics") && prof.doc % 4 == 0;
        let name = ex.name();
        let mut h = Hist {
            src,
            prof,
            ex,
            m: vec![Cm::default(); n],
            slots: vec![],
            pool: [None; 2],
            holds: vec![],
            discs: vec![],
            trace: String::new(),
            want_trace,
            stats: Stats::default(),
            digest: 1,
            digests: vec![],
            key: 2,
            ops: 0,
            opname: "start",
            cur: 0,
            expect_doc,
            broken: false,
            seen_ids: BTreeSet::new(),
            tolerate: BTreeSet::new(),
            last_failed: vec![BTreeSet::new(); n],
            per_cache_ops: vec![0; n],
            had: BTreeSet::new(),
            only: None,
            ablate: "",
            unwinding: 0,
            last_cache: None,
            touched: BTreeSet::new(),
        };
        h.note(|| format!("flavour {}\n", name));
        h
    }

    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace {
            let s = f();
            self.trace.push_str(&s);
        }
    }

    fn disc(&mut self, what: &'static str, detail: String) {
        let op = self.opname;
        if self.want_trace {
            let _ = write!(self.trace, "    !! {} ({}): {}\n", what, op, detail);
        }
        self.discs.push(Disc { what, op, detail, benign: false });
    }

    /// A discrepancy which leaves the model right about all else: something stays alive that
    /// keeps nothing else alive.
    fn benign(&mut self, what: &'static str, detail: String) {
        if self.discs.iter().any(|d| d.detail == detail) {
            return;
        }
        self.disc(what, detail);
        self.discs.last_mut().unwrap().benign = true;
    }

    /// Whether a discrepancy put the model in doubt.
    fn off(&self) -> bool {
        self.discs.iter().any(|d| !d.benign)
    }

    fn live_slots(&self) -> Vec<usize> {
        (0..self.slots.len()).filter(|i| self.slots[*i].is_some()).collect()
    }

    fn free_slot(&mut self) -> usize {
        if let Some(i) = self.slots.iter().position(|s| s.is_none()) {
            i
        } else {
            self.slots.push(None);
            self.slots.len() - 1
        }
    }

    fn pick(&mut self) -> usize {
        let l = self.live_slots();
        let i = self.src.below(l.len());
        l[i]
    }

    // ---------------------------------------------------------------- generation

    fn gen_new(&mut self) -> Op {
        let live = self.live_slots();
        let kind = [Kind::A, Kind::B, Kind::C, Kind::A2][self.src.weighted(&[5, 3, 3, 2])];
        let nd = self.src.weighted(&[4, 5, 5, 3, 1, 1]).min(if live.is_empty() { 0 } else { 6 });
        let mut dep_slots = vec![];
        for _ in 0..nd {
            // recent handles are picked more often: deep graphs
            let i = if self.src.chance(1, 2) {
                live.len() - 1 - self.src.below(live.len().min(3))
            } else {
                self.src.below(live.len())
            };
            dep_slots.push(live[i]);
        }
        let deps: Vec<Uid> = dep_slots.iter().map(|s| self.slots[*s].unwrap()).collect();
        let mut steps = vec![];
        for i in 0..deps.len() {
            let mode = self.src.draw(3) as u8;
            let swallow = self.src.chance(1, 3);
            let keep = self.prof.share && self.src.chance(1, 5);
            let catch = self.prof.panic && self.src.chance(1, 6);
            steps.push(Step::Res { dep: i, mode, swallow, keep, catch });
            if self.src.chance(1, 8) {
                // resolve it again, differently
                let mode = self.src.draw(3) as u8;
                steps.push(Step::Res { dep: i, mode, swallow: true, keep: false, catch: false });
            }
        }
        if self.prof.extra && kind != Kind::C && self.src.chance(1, 4) {
            let mode = self.src.draw(3) as u8;
            let swallow = self.src.chance(1, 3);
            let at = self.src.below(steps.len() + 1);
            steps.insert(at, Step::ResExtra { mode, swallow });
        }
        if self.prof.spawn && self.src.chance(1, 6) {
            let k = [Kind::A, Kind::C, Kind::B, Kind::A2][self.src.below(4)];
            let base = self.src.draw(1 << 20);
            let keep = self.src.chance(1, 2);
            let fails = self.prof.fail && self.src.chance(1, 8);
            let mode = self.src.draw(3) as u8;
            let at = self.src.below(steps.len() + 1);
            steps.insert(at, Step::Spawn { kind: k, base, keep, fails, mode });
        }
        if self.prof.pool && self.src.chance(1, 2) {
            let k = self.src.below(2);
            let mode = self.src.draw(3) as u8;
            let swallow = self.src.chance(1, 3);
            let at = self.src.below(steps.len() + 1);
            steps.insert(at, Step::Pool { k, mode, swallow });
        }
        if self.src.chance(1, 6) {
            let s = match self.src.below(if self.prof.mutate && !self.prof.pure { 3 } else { 2 }) {
                0 => Step::Read,
                1 => Step::Count,
                _ => Step::Mutate,
            };
            let at = self.src.below(steps.len() + 1);
            steps.insert(at, s);
        }
        if self.prof.foreign && self.prof.caches > 1 && !deps.is_empty() && self.src.chance(1, 3) {
            let cache = self.src.draw(self.prof.caches as u64) as usize;
            let dep = self.src.below(deps.len());
            let act = [
                FAct::Get,
                FAct::Lookup,
                FAct::Invalidate,
                FAct::Purge,
                FAct::Write,
                FAct::ClearArt,
                FAct::ClearAll,
            ][self.src.weighted(&[8, 2, 4, 2, 2, 1, 1])];
            let at = self.src.below(steps.len() + 1);
            steps.insert(at, Step::Foreign { cache, dep, act });
        }
        let n = steps.len() as u64;
        let sel = if self.src.chance(1, 6) { self.src.draw(1 << 8) as u32 } else { !0 };
        let fail_at = if self.prof.fail && self.src.chance(1, 9) { self.src.draw(n + 1) as u8 } else { NONE8 };
        let panic_at = if self.prof.panic && self.src.chance(1, 9) { self.src.draw(n + 1) as u8 } else { NONE8 };
        let add = self.src.draw(8);
        let ctor = if self.src.chance(1, 4) { 1 + self.src.draw(4) as u8 } else { 0 };
        let slot = self.free_slot();
        let uid = w(|w| {
            let uid = w.specs.len();
            w.specs.push(Rc::new(NodeSpec {
                uid,
                kind,
                base: 1000 + uid as u64,
                deps,
                steps,
                add,
                sel,
                fail_at,
                panic_at,
                spawned: false,
            }));
            w.ids.push(None);
            uid
        });
        Op::New { uid, dep_slots, slot, ctor }
    }

    fn gen_edit(&mut self, slot: usize) -> Edit {
        let uid = self.slots[slot].unwrap();
        let n = spec(uid).steps.len() as u64;
        let mut e = Edit { add: None, sel: None, fail_at: None, panic_at: None, extra: None };
        match self.src.weighted(&[3, 2, 5, 2, 3, 2]) {
            0 => {}
            1 => e.sel = Some(self.src.draw(1 << 8) as u32),
            2 => e.add = Some(self.src.draw(64)),
            3 => {
                if self.prof.fail {
                    e.fail_at = Some(self.src.draw(n + 1) as u8)
                }
            }
            4 => {
                if self.prof.extra {
                    let c: Vec<usize> =
                        self.live_slots().into_iter().filter(|s| self.slots[*s].unwrap() < uid).collect();
                    e.extra = if c.is_empty() || self.src.chance(1, 4) {
                        Some(None)
                    } else {
                        Some(Some(c[self.src.below(c.len())]))
                    };
                }
            }
            _ => {
                e.fail_at = Some(NONE8);
                e.panic_at = Some(NONE8);
                e.sel = Some(!0);
            }
        }
        if self.prof.panic && self.src.chance(1, 8) {
            e.panic_at = Some(self.src.draw(n + 1) as u8);
        }
        e
    }

    pub fn gen_op(&mut self) -> Op {
        let live = self.live_slots();
        if live.is_empty() {
            return self.gen_new();
        }
        let mut wt = self.prof.w;
        if live.len() >= self.prof.max_handles {
            wt[W_NEW] = 0;
            wt[W_CLONEH] = 0;
            wt[W_CONV] = 0;
        } else if live.len() < 3 {
            wt[W_NEW] *= 4;
        }
        if self.holds.is_empty() {
            wt[W_DROPHOLD] = 0;
        }
        if !self.ex.has_mut() {
            wt[W_GETMUT] = 0;
            wt[W_LOOKUPMUT] = 0;
        }
        if !self.prof.ext {
            wt[W_EXT] = 0;
        }
        if self.prof.pool {
            wt[W_EXT] += 6;
        }
        let k = self.src.weighted(&wt);
        let nc = self.prof.caches as u64;
        match k {
            W_NEW => self.gen_new(),
            W_GET => {
                let c = self.src.draw(nc) as usize;
                let slot = self.pick();
                let mode = self.src.draw(3) as u8;
                let hold = self.prof.share && self.holds.len() < 4 && self.src.chance(1, 6);
                Op::Get { c, slot, mode, hold }
            }
            W_LOOKUP => {
                let c = self.src.draw(nc) as usize;
                let slot = self.pick();
                Op::Lookup { c, slot, mode: self.src.draw(3) as u8 }
            }
            W_GETMUT | W_LOOKUPMUT => {
                let c = self.src.draw(nc) as usize;
                let slot = self.pick();
                let val = 1_000_000 + self.src.draw(1000);
                if k == W_GETMUT {
                    Op::GetMut { c, slot, val }
                } else {
                    Op::LookupMut { c, slot, val }
                }
            }
            W_INVALIDATE | W_PURGE | W_DYN | W_GETDYN => {
                let c = self.src.draw(nc) as usize;
                let slot = self.pick();
                match k {
                    W_INVALIDATE => Op::Invalidate { c, slot },
                    W_PURGE => Op::Purge { c, slot },
                    W_DYN => Op::DynState { c, slot },
                    _ => Op::GetDynState { c, slot },
                }
            }
            W_DSM => {
                let c = self.src.draw(nc) as usize;
                let slot = self.pick();
                let edit = self.gen_edit(slot);
                Op::DynStateMut { c, slot, edit }
            }
            W_DROPH => Op::DropH { slot: self.pick() },
            W_CLONEH => {
                let from = self.pick();
                let to = self.free_slot();
                Op::CloneH { from, to }
            }
            W_CONV => {
                let from = self.pick();
                let form = self.src.draw(self.prof.max_forms.min(self.ex.forms() as u64)) as u8;
                let to = self.free_slot();
                Op::Conv { from, to, form }
            }
            W_GC => Op::Gc { c: self.src.draw(nc) as usize },
            W_GCFIX => Op::GcFix { c: self.src.draw(nc) as usize },
            W_CLEARART => Op::ClearArt { c: self.src.draw(nc) as usize },
            W_CLEARALL => Op::ClearAll { c: self.src.draw(nc) as usize },
            W_DROPCACHE => Op::DropCache { c: self.src.draw(nc) as usize },
            W_EXT if self.prof.pool && self.src.chance(1, 2) => {
                let k = self.src.below(2);
                let slot = if self.pool[k].is_some() && self.src.chance(1, 2) { None } else { Some(self.pick()) };
                let give = slot.is_some() && self.src.chance(1, 2);
                Op::Pool { k, slot, give }
            }
            W_EXT => {
                let slot = self.pick();
                let uid = self.slots[slot].unwrap();
                let n = spec(uid).steps.len() as u64;
                let fail_at =
                    if self.prof.fail && self.src.chance(1, 2) { self.src.draw(n + 1) as u8 } else { NONE8 };
                let panic_at =
                    if self.prof.panic && self.src.chance(1, 3) { self.src.draw(n + 1) as u8 } else { NONE8 };
                let init = self.prof.panic && self.src.chance(1, 6);
                Op::Ext { uid, fail_at, panic_at, init }
            }
            _ => Op::DropHold { i: self.src.below(self.holds.len()) },
        }
    }

    // ---------------------------------------------------------------- reading the log

    /// Returns true if the initialisation panicked.
    fn check_init(&mut self, ev: &[Ev], i: &mut usize, uid: Uid) -> bool {
        if let Some(Ev::InitPanic { uid: u }) = ev.get(*i) {
            *i += 1;
            let c = self.cur;
            if *u != uid {
                self.disc("spurious.init", format!("state of {} initialised while {} was asked for", u, uid));
            }
            if self.m[c].st.contains_key(u) {
                self.disc("state.reinit", format!("dynamic state of {} initialised although it exists", u));
            } else if !self.m[c].bare.contains(u) {
                self.m[c].maybe.insert(*u);
            }
            self.last_failed[c].insert(*u);
            self.stats.panics += 1;
            self.had.insert("panic");
            return true;
        }
        if let Some(Ev::Init { uid: u, st }) = ev.get(*i) {
            *i += 1;
            if *u != uid {
                self.disc("spurious.init", format!("state of {} initialised while {} was asked for", u, uid));
            }
            if self.m[self.cur].st.contains_key(u) {
                self.disc("state.reinit", format!("dynamic state of {} initialised although it exists", u));
            }
            self.m[self.cur].st.insert(*u, StObs::Snap(st.clone()));
            self.m[self.cur].bare.remove(u);
            self.m[self.cur].maybe.remove(u);
        }
        false
    }

    fn request(&mut self, ev: &[Ev], i: &mut usize, uid: Uid, nested: bool) -> Exp {
        let starts = matches!(
            ev.get(*i),
            Some(Ev::Init { uid: u, .. }) | Some(Ev::InitPanic { uid: u }) | Some(Ev::BuildStart { uid: u, .. })
                if *u == uid
        );
        if let Some(a) = self.m[self.cur].art.get(&uid).cloned() {
            if starts {
                self.disc("rebuild", format!("builder {} was run although its artifact #{} is cached", uid, a.serial));
                return self.build(ev, i, uid);
            }
            self.stats.hits += 1;
            if nested {
                self.stats.nested_hits += 1;
            }
            return Exp::Ok(a);
        }
        if !starts {
            if self.last_failed[self.cur].contains(&uid) {
                self.disc("noretry", format!("builder {} failed before and was not run again", uid));
            } else {
                self.disc("nobuild", format!("builder {} has no artifact but was not run", uid));
            }
            return Exp::Unknown;
        }
        self.build(ev, i, uid)
    }

    fn build(&mut self, ev: &[Ev], i: &mut usize, uid: Uid) -> Exp {
        let c = self.cur;
        if self.check_init(ev, i, uid) {
            return Exp::Panic;
        }
        match ev.get(*i) {
            Some(Ev::BuildStart { uid: u, st }) if *u == uid => {
                *i += 1;
                self.stats.builds += 1;
                if spec(uid).kind == Kind::C {
                    self.m[c].st.entry(uid).or_insert(StObs::Unit);
                }
                let want = self.m[c].st.get(&uid).cloned();
                if want.as_ref() != Some(st) {
                    self.disc(
                        "state.mismatch",
                        format!("build of {} sees state {:?}, expected {:?}", uid, st, want),
                    );
                    self.m[c].st.insert(uid, st.clone());
                }
                if let Some(StObs::Snap(s)) = want {
                    if s.core.ctr > 0 || s.core.add != spec(uid).add {
                        self.stats.state_survived += 1;
                    }
                }
            }
            _ => {
                self.disc("nobuild", format!("builder {} was initialised but not run", uid));
                return Exp::Unknown;
            }
        }
        self.m[c].uses.insert(uid, BTreeMap::new());
        self.m[c].doubt.remove(&uid);
        loop {
            let e = match ev.get(*i) {
                Some(e) => e.clone(),
                None => {
                    self.disc("log.truncated", format!("build of {} did not end", uid));
                    self.broken = true;
                    return Exp::Unknown;
                }
            };
            *i += 1;
            match e {
                Ev::ResStart { user, dep, .. } if user == uid => {
                    self.m[c].uses.get_mut(&uid).unwrap().insert(dep, Used::Pending);
                    let exp = self.request(ev, i, dep, true);
                    if self.broken {
                        return Exp::Unknown;
                    }
                    match ev.get(*i).cloned() {
                        Some(Ev::ResEnd { user, dep: d, mode, res }) if user == uid && d == dep => {
                            *i += 1;
                            let u = match &res {
                                Res::Ok(a) => Used::Ok(a.serial),
                                Res::Err(_) => Used::Failed,
                                Res::Panicked => {
                                    self.stats.caught += 1;
                                    Used::Failed
                                }
                            };
                            if u == Used::Failed {
                                self.stats.swallowed += 1;
                            }
                            self.m[c].uses.entry(uid).or_default().insert(dep, u);
                            self.judge(dep, mode, exp, &res);
                        }
                        x => {
                            self.disc(
                                "spurious.build",
                                format!("resolving {} for {} also caused {:?}", dep, uid, x),
                            );
                            self.broken = true;
                            return Exp::Unknown;
                        }
                    }
                }
                Ev::StWrite { uid: u, st } if u == uid => {
                    self.stats.self_writes += 1;
                    self.m[c].st.insert(uid, StObs::Snap(st));
                }
                Ev::StRead { uid: u, st } if u == uid => {
                    if self.m[c].st.get(&uid) != Some(&st) {
                        let want = self.m[c].st.get(&uid).cloned();
                        self.disc(
                            "state.mismatch",
                            format!("{} reads its state as {:?} during its build, expected {:?}", uid, st, want),
                        );
                    }
                }
                Ev::Enter { by, cache, dep, act } if by == uid => {
                    self.stats.foreign += 1;
                    self.had.insert("foreign");
                    self.touched.insert(cache);
                    self.cur = cache;
                    self.foreign(ev, i, by, cache, dep, act);
                    self.cur = c;
                    if self.broken {
                        return Exp::Unknown;
                    }
                }
                Ev::Spawned { by, .. } if by == uid => {
                    self.stats.spawned += 1;
                }
                Ev::BuildEnd { uid: u, res } if u == uid => {
                    return match res {
                        BuildRes::Ok { serial, val } => {
                            let a = ArtRec { serial, val, addr: None };
                            self.m[c].art.insert(uid, a.clone());
                            self.m[c].mutated.remove(&uid);
                            self.last_failed[c].remove(&uid);
                            Exp::Ok(a)
                        }
                        BuildRes::Err { eid, code } => {
                            self.stats.fails += 1;
                            self.had.insert("fail");
                            self.last_failed[c].insert(uid);
                            Exp::Err { eid, code, owner: uid }
                        }
                        BuildRes::Panic => {
                            self.stats.panics += 1;
                            self.had.insert("panic");
                            self.last_failed[c].insert(uid);
                            Exp::Panic
                        }
                    };
                }
                other => {
                    self.disc("spurious.build", format!("during the build of {}: {:?}", uid, other));
                    self.broken = true;
                    return Exp::Unknown;
                }
            }
        }
    }

    /// A running builder uses another cache (which is `self.cur` meanwhile).
    fn foreign(&mut self, ev: &[Ev], i: &mut usize, by: Uid, k: usize, uid: Uid, act: FAct) {
        let mut exp = None;
        let mut panics = false;
        let mut unclear = false;
        let mut before = None;
        match act {
            FAct::Get => {
                let e = self.request(ev, i, uid, false);
                panics = matches!(e, Exp::Panic);
                exp = Some(e);
            }
            FAct::Lookup => {}
            FAct::Invalidate => {
                self.invalidate_model(uid, true);
            }
            FAct::Purge => {
                self.invalidate_model(uid, true);
                self.m[k].forget(uid);
                self.last_failed[k].remove(&uid);
                self.had.insert("purge");
            }
            FAct::Write => {
                if spec(uid).kind == Kind::C {
                    self.m[k].st.entry(uid).or_insert(StObs::Unit);
                } else {
                    panics = self.check_init(ev, i, uid);
                }
                if !panics {
                    self.invalidate_model(uid, true);
                } else {
                    // (see `apply`: there is no telling whether they were invalidated)
                    let deps = self.m[k].dependents(uid);
                    unclear = deps.iter().any(|d| self.m[k].art.contains_key(d) || self.m[k].uses.contains_key(d));
                }
                before = self.m[k].st.get(&uid).cloned();
            }
            FAct::ClearArt => {
                self.clear_model(k);
            }
            FAct::ClearAll => {
                self.clear_model(k);
                self.m[k] = Cm::default();
                self.last_failed[k].clear();
            }
        }
        if self.broken {
            return;
        }
        let out = match ev.get(*i) {
            Some(Ev::Leave { by: b, cache, out }) if *b == by && *cache == k => {
                *i += 1;
                out.clone()
            }
            x => {
                let m = format!("{:?} of {} in cache {} from builder {} also caused {:?}", act, uid, k, by, x);
                self.disc("spurious.build", m);
                self.broken = true;
                return;
            }
        };
        match out {
            FOut::Unit => {}
            FOut::Panicked if panics => self.broken |= unclear,
            FOut::Panicked => {
                // a panic that no builder caused: the operation as a whole reports it
                self.broken = true;
            }
            FOut::Res(r) => {
                if let Some(e) = exp {
                    self.judge(uid, 1, e, &r);
                }
            }
            FOut::Found(f) => {
                let want = self.m[k].art.get(&uid).cloned();
                let ok = match (&want, &f) {
                    (None, None) => true,
                    (Some(a), Some(g)) => a.serial == g.serial && a.val == g.val && g.owner == uid,
                    _ => false,
                };
                if !ok {
                    self.disc("lookup.mismatch", format!("lookup of {} gave {:?}, expected {:?}", uid, f, want));
                }
            }
            FOut::Edited(b, a) => {
                if before.as_ref() != Some(&b) {
                    self.disc("state.mismatch", format!("state of {} is {:?}, expected {:?}", uid, b, before));
                }
                self.m[k].st.insert(uid, a);
            }
        }
    }

    fn clear_model(&mut self, c: usize) {
        self.had.insert("clear");
        self.stats.clears += 1;
        self.stats.clear_removed += self.m[c].art.len() as u64;
        self.m[c].art.clear();
        self.m[c].uses.clear();
        self.m[c].doubt.clear();
        self.m[c].mutated.clear();
    }

    /// Compares what a requester got with what it had to get.
    fn judge(&mut self, uid: Uid, mode: u8, exp: Exp, got: &Res) {
        let share = self.ex.can_share();
        match (exp, got) {
            (Exp::Ok(a), Res::Ok(g)) => {
                if g.owner != uid || g.kind != kind_of_art(spec(uid).kind) {
                    self.disc("res.foreign", format!("asked for {}, got the artifact of {}", uid, g.owner));
                } else if g.serial != a.serial {
                    self.disc(
                        "res.mismatch",
                        format!("asked for {}, expected artifact #{}, got #{}", uid, a.serial, g.serial),
                    );
                } else if g.val != a.val {
                    self.disc(
                        "res.value",
                        format!("artifact #{} of {} has value {}, expected {}", g.serial, uid, g.val, a.val),
                    );
                }
                let is_clone = mode == 2;
                if g.clone != is_clone {
                    self.disc("res.clone", format!("mode {} of {} handed out clone={}", mode, uid, g.clone));
                }
                let _ = share;
                if !is_clone {
                    self.see_addr(uid, g);
                }
            }
            (Exp::Err { eid, code, owner }, Res::Err(g)) => {
                if g.eid != eid || g.code != code || g.owner != owner {
                    self.disc(
                        "err.mismatch",
                        format!("builder {} returned error #{}, the requester got {:?}", uid, eid, g),
                    );
                }
            }
            (Exp::Panic, Res::Panicked) => {}
            (Exp::Unknown, _) => {}
            (Exp::Ok(a), g) => {
                self.disc("res.mismatch", format!("asked for {}, expected artifact #{}, got {:?}", uid, a.serial, g));
            }
            (Exp::Err { eid, .. }, g) => {
                self.disc("err.mismatch", format!("builder {} returned error #{}, the requester got {:?}", uid, eid, g));
            }
            (Exp::Panic, g) => {
                self.disc("err.mismatch", format!("builder {} panicked, the requester got {:?}", uid, g));
            }
        }
    }

    fn see_addr(&mut self, uid: Uid, g: &ArtObs) {
        let c = self.cur;
        let mut moved = None;
        if let Some(a) = self.m[c].art.get_mut(&uid) {
            if a.serial == g.serial {
                match a.addr {
                    None => a.addr = Some(g.addr),
                    Some(x) if x != g.addr => moved = Some((x, g.addr)),
                    _ => {}
                }
            }
        }
        if let Some((x, y)) = moved {
            self.disc(
                "res.moved",
                format!("artifact #{} of {} was at {:#x}, is now at {:#x}", g.serial, uid, x, y),
            );
        }
    }

    /// Doctor callbacks interleaved with what the builders saw.
    fn check_doc(&mut self, log: &[Ev], op: &Op, out: &Out, slots: &[Option<Uid>]) {
        let mut want: Vec<Ev> = vec![];
        let mut got: Vec<Ev> = vec![];
        for (k, e) in log.iter().enumerate() {
            match e {
                Ev::ResStart { user, dep, .. } => {
                    want.push(e.clone());
                    want.push(Ev::DocResolve { user: *user, dep: *dep });
                    got.push(e.clone());
                }
                Ev::BuildEnd { uid, res } => {
                    want.push(e.clone());
                    got.push(e.clone());
                    if let BuildRes::Ok { serial, .. } = res {
                        want.push(Ev::DocBuild { uid: *uid, serial: *serial, addr: 0 });
                    }
                }
                Ev::Enter { by, dep, act, .. } => {
                    want.push(e.clone());
                    got.push(e.clone());
                    // (see `apply`: perhaps not invalidated, if the initialisation panicked)
                    let rest = &log[k + 1..];
                    let end = rest.iter().position(|x| matches!(x, Ev::Leave { by: b, .. } if b == by));
                    let unclear = end.map_or(false, |n| {
                        matches!(rest[n], Ev::Leave { out: FOut::Panicked, .. })
                            && !rest[..n].iter().any(|x| matches!(x, Ev::DocInvalidate { uid } if uid == dep))
                    });
                    match act {
                        FAct::Write if unclear => {}
                        FAct::Invalidate | FAct::Purge | FAct::Write => want.push(Ev::DocInvalidate { uid: *dep }),
                        FAct::ClearAll => want.push(Ev::DocClear),
                        _ => {}
                    }
                }
                Ev::BuildStart { .. } | Ev::ResEnd { .. } | Ev::Leave { .. } => {
                    want.push(e.clone());
                    got.push(e.clone());
                }
                Ev::DocBuild { uid, serial, addr } => {
                    got.push(Ev::DocBuild { uid: *uid, serial: *serial, addr: 0 });
                    // the handed artifact is the one that ends up in the cache
                    let mut bad = None;
                    for m in &self.m {
                        if let Some(a) = m.art.get(uid) {
                            if a.serial == *serial && a.addr.map_or(false, |x| x != *addr) {
                                bad = Some(format!(
                                    "build({}) was given an artifact at {:#x}, it is at {:?}",
                                    uid, addr, a.addr
                                ));
                            }
                        }
                    }
                    if let Some(m) = bad {
                        self.disc("doc.artifact", m);
                    }
                    self.stats.doc_events += 1;
                }
                x if x.is_doc() => {
                    if let Ev::DocBad(m) = x {
                        self.disc("doc.handle", m.clone());
                    }
                    got.push(x.clone());
                    self.stats.doc_events += 1;
                }
                _ => {}
            }
        }
        match op {
            // (see `apply`: perhaps not invalidated)
            Op::DynStateMut { .. } if *out == Out::Injected && !got.iter().any(|e| matches!(e, Ev::DocInvalidate { .. })) => {}
            Op::Invalidate { slot, .. } | Op::Purge { slot, .. } | Op::DynStateMut { slot, .. } => {
                want.push(Ev::DocInvalidate { uid: slots[*slot].unwrap() });
            }
            Op::ClearAll { .. } => want.push(Ev::DocClear),
            _ => {}
        }
        if want != got {
            let k = want.iter().zip(got.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            self.disc(
                "doc.events",
                format!("event {}: expected {:?}, doctor heard {:?}", k, want.get(k), got.get(k)),
            );
        }
    }

    // ---------------------------------------------------------------- expectations per call

    fn invalidate_model(&mut self, uid: Uid, with_self: bool) -> usize {
        let c = self.cur;
        let deps = self.m[c].dependents(uid);
        let before = self.m[c].art.len();
        let mut removed = 0;
        for d in &deps {
            if self.m[c].drop_art(*d) && *d != uid {
                removed += 1;
            }
        }
        let mut selfrem = 0;
        if with_self && self.m[c].drop_art(uid) {
            selfrem = 1;
        }
        self.stats.inv_ops += 1;
        self.stats.inv_dependents += removed as u64;
        if removed >= 2 {
            self.stats.inv_deep += 1;
        }
        if removed + selfrem > 0 && before > removed + selfrem {
            self.stats.inv_survivors += 1;
        }
        removed
    }

    /// Which builders' strong references are reachable from what the test still holds.
    fn expected_live(&self, models: &[Cm]) -> (BTreeSet<Uid>, BTreeMap<u64, i32>, BTreeMap<u64, i32>, BTreeSet<u64>) {
        let mut builders = BTreeSet::new();
        let mut arts: BTreeMap<u64, i32> = BTreeMap::new();
        let mut clones: BTreeMap<u64, i32> = BTreeMap::new();
        let mut states = BTreeSet::new();
        let mut bq: Vec<Uid> = self.slots.iter().chain(&self.pool).filter_map(|s| *s).collect();
        let mut aq: Vec<u64> = vec![];
        let mut held_clone_serials: Vec<u64> = vec![];
        for h in &self.holds {
            match h {
                Held::Primary(s) => aq.push(*s),
                Held::CloneOf(s) => {
                    *clones.entry(*s).or_insert(0) += 1;
                    held_clone_serials.push(*s);
                }
                Held::Nothing => {}
            }
        }
        for m in models {
            for a in m.art.values() {
                aq.push(a.serial);
            }
            for s in m.st.values() {
                if let StObs::Snap(s) = s {
                    states.insert(s.core.gen);
                    bq.extend(s.extra);
                }
            }
        }
        w(|w| {
            for s in &held_clone_serials {
                if let Some((b, a)) = w.art_holds.get(s) {
                    bq.extend(b);
                    aq.extend(a);
                }
            }
            loop {
                if let Some(u) = bq.pop() {
                    if builders.insert(u) {
                        bq.extend(&w.specs[u].deps);
                    }
                } else if let Some(s) = aq.pop() {
                    if arts.insert(s, 1).is_none() {
                        if let Some((b, a)) = w.art_holds.get(&s) {
                            bq.extend(b);
                            aq.extend(a);
                        }
                    }
                } else {
                    break;
                }
            }
        });
        (builders, arts, clones, states)
    }

    fn check_live(&mut self) {
        let (b, a, c, s) = self.expected_live(&self.m);
        let (mut over, mut under) = (vec![], vec![]);
        // nothing but values that own no handle and no other value
        let mut benign = true;
        w(|w| {
            for (u, n) in w.b_alive.iter().enumerate() {
                let want = b.contains(&u) as i32;
                if *n > want {
                    benign = false;
                    over.push(format!("builder {}", u));
                } else if *n < want {
                    under.push(format!("builder {}", u));
                }
            }
            for (k, n) in &w.art_alive {
                let want = a.get(k).copied().unwrap_or(0);
                if *n > want {
                    benign &= w.art_holds.get(k).map_or(true, |(b, a)| b.is_empty() && a.is_empty());
                    over.push(format!("artifact #{}", k));
                } else if *n < want {
                    under.push(format!("artifact #{}", k));
                }
            }
            for (k, n) in &w.clone_alive {
                let want = c.get(k).copied().unwrap_or(0);
                if *n > want {
                    benign &= w.art_holds.get(k).map_or(true, |(b, a)| b.is_empty() && a.is_empty());
                    over.push(format!("a clone of artifact #{}", k));
                } else if *n < want {
                    under.push(format!("a clone of artifact #{}", k));
                }
            }
            for (k, n) in &w.st_alive {
                let want = s.contains(k) as i32;
                if *n > want {
                    benign = false;
                    over.push(format!("state {}", k));
                } else if *n < want {
                    under.push(format!("state {}", k));
                }
            }
        });
        if !over.is_empty() {
            let d = format!("nothing should own these, but they are alive: {}", over.join(", "));
            if benign {
                self.benign("leak", d);
            } else {
                self.disc("leak", d);
            }
        }
        if !under.is_empty() {
            self.disc("early", format!("these should be alive, but are gone: {}", under.join(", ")));
        }
    }

    /// Dead builders that a complete garbage collection has to drop: those on which no builder
    /// that stays depends. Dropping them may free further builders.
    fn collectable(&self, c: usize) -> (BTreeSet<Uid>, BTreeSet<Uid>) {
        let mut models = self.m.clone();
        let mut removed: BTreeSet<Uid> = BTreeSet::new();
        let mut first: Option<BTreeSet<Uid>> = None;
        loop {
            let (alive, ..) = self.expected_live(&models);
            let m = &models[c];
            let used: BTreeSet<Uid> = m.uses.values().flat_map(|d| d.keys().copied()).collect();
            let cand: BTreeSet<Uid> =
                m.known().into_iter().filter(|u| !alive.contains(u)).filter(|u| !used.contains(u)).collect();
            if first.is_none() {
                first = Some(cand.clone());
            }
            if cand.is_empty() {
                return (first.unwrap(), removed);
            }
            let m = &mut models[c];
            for u in &cand {
                m.forget(*u);
                removed.insert(*u);
            }
        }
    }

    fn apply(&mut self, op: &Op, res: &OpRes, log: &[Ev], obs_count: usize) {
        let ev: Vec<Ev> = log.iter().filter(|e| !e.is_doc()).cloned().collect();
        let mut i = 0;
        let c = self.cur;
        let uid_of = |s: &usize, me: &Self| me.slots[*s].unwrap();
        match op {
            Op::New { uid, slot, .. } => {
                self.slots[*slot] = Some(*uid);
            }
            Op::CloneH { from, to } | Op::Conv { from, to, .. } => {
                let u = uid_of(from, self);
                self.slots[*to] = Some(u);
                if matches!(op, Op::Conv { .. }) {
                    self.stats.convs += 1;
                }
            }
            Op::DropH { slot } => {
                self.slots[*slot] = None;
                self.stats.drops += 1;
            }
            Op::Get { slot, mode, .. } => {
                let uid = uid_of(slot, self);
                let mode = if *mode == 0 && !self.ex.can_share() { 1 } else { *mode };
                let was = self.stats.builds;
                let exp = self.request(&ev, &mut i, uid, false);
                match &exp {
                    Exp::Err { .. } => self.opname = "get!err",
                    Exp::Panic => self.opname = "get!panic",
                    _ => {}
                }
                let _ = was;
                match &res.out {
                    Out::Res(r) => self.judge(uid, mode, exp, r),
                    Out::Injected => self.judge(uid, mode, exp, &Res::Panicked),
                    _ => {}
                }
            }
            Op::Lookup { slot, .. } => {
                let uid = uid_of(slot, self);
                let want = self.m[c].art.get(&uid).cloned();
                if let Out::Found(f) = &res.out {
                    let ok = match (&want, f) {
                        (None, None) => true,
                        (Some(a), Some(g)) => a.serial == g.serial && a.val == g.val && g.owner == uid,
                        _ => false,
                    };
                    if !ok {
                        self.disc("lookup.mismatch", format!("lookup of {} gave {:?}, expected {:?}", uid, f, want));
                    }
                }
            }
            Op::GetMut { slot, val, .. } | Op::LookupMut { slot, val, .. } => {
                let uid = uid_of(slot, self);
                self.had.insert("mut");
                self.stats.muts += 1;
                let absent = !self.m[c].art.contains_key(&uid);
                if !absent {
                    let n = self.invalidate_model(uid, false);
                    self.stats.mut_dependents += n as u64;
                } else {
                    // Dependents of an artifact that does not exist can only be ones that
                    // coped with its builder failing; the documentation does not say
                    // whether asking for `mut` drops those too if there is nothing to mutate.
                    let deps = self.m[c].dependents(uid);
                    for d in deps {
                        if self.m[c].art.contains_key(&d) || self.m[c].uses.contains_key(&d) {
                            self.tolerate.insert(d);
                        }
                    }
                }
                match op {
                    Op::GetMut { .. } => {
                        let exp = self.request(&ev, &mut i, uid, false);
                        match &exp {
                            Exp::Ok(a) => {
                                if absent {
                                    self.tolerate.clear();
                                    let n = self.invalidate_model(uid, false);
                                    self.stats.mut_dependents += n as u64;
                                }
                                // the call has already written the new value
                                let mut a = a.clone();
                                a.val = *val;
                                let s = a.serial;
                                if let Some(x) = self.m[c].art.get_mut(&uid) {
                                    if x.serial == s {
                                        x.val = *val;
                                    }
                                }
                                self.m[c].mutated.insert(uid);
                                if let Out::Res(r) = &res.out {
                                    self.judge(uid, 1, Exp::Ok(a), r);
                                }
                            }
                            _ => match &res.out {
                                Out::Res(r) => self.judge(uid, 1, exp, r),
                                Out::Injected => self.judge(uid, 1, exp, &Res::Panicked),
                                _ => {}
                            },
                        }
                    }
                    _ => {
                        if let Some(a) = self.m[c].art.get_mut(&uid) {
                            a.val = *val;
                        }
                        if self.m[c].art.contains_key(&uid) {
                            self.m[c].mutated.insert(uid);
                        }
                        let want = self.m[c].art.get(&uid).cloned();
                        if let Out::Found(f) = &res.out {
                            let ok = match (&want, f) {
                                (None, None) => true,
                                (Some(a), Some(g)) => a.serial == g.serial && a.val == g.val && g.owner == uid,
                                _ => false,
                            };
                            if !ok {
                                self.disc(
                                    "lookup.mismatch",
                                    format!("lookup_mut of {} gave {:?}, expected {:?}", uid, f, want),
                                );
                            }
                        }
                    }
                }
            }
            Op::DynState { slot, .. } | Op::DynStateMut { slot, .. } => {
                let uid = uid_of(slot, self);
                let is_mut = matches!(op, Op::DynStateMut { .. });
                if is_mut && matches!(res.out, Out::Injected) {
                    // The initialisation panicked, nobody got hold of the state: whether the
                    // dependents (of a builder that never had an artifact) were invalidated
                    // before, is not documented.
                    for d in self.m[c].dependents(uid) {
                        if self.m[c].art.contains_key(&d) || self.m[c].uses.contains_key(&d) {
                            self.tolerate.insert(d);
                        }
                    }
                } else if is_mut {
                    self.invalidate_model(uid, true);
                    self.stats.state_writes += 1;
                }
                if spec(uid).kind == Kind::C {
                    self.m[c].st.entry(uid).or_insert(StObs::Unit);
                } else {
                    let had = self.m[c].st.contains_key(&uid);
                    if self.check_init(&ev, &mut i, uid) && !matches!(res.out, Out::Injected) {
                        let m = format!("initialising the state of {} panicked, the requester got {:?}", uid, res.out);
                        self.disc("err.mismatch", m);
                    }
                    if !had && i == 0 {
                        self.disc("state.noinit", format!("state of {} appeared without being initialised", uid));
                    }
                }
                let want = self.m[c].st.get(&uid).cloned();
                let got = match &res.out {
                    Out::State(s) => s.clone(),
                    Out::Edited(b, _) => Some(b.clone()),
                    _ => want.clone(),
                };
                if got != want {
                    self.disc("state.mismatch", format!("state of {} is {:?}, expected {:?}", uid, got, want));
                }
                if let Out::Edited(_, a) = &res.out {
                    self.m[c].st.insert(uid, a.clone());
                }
            }
            Op::GetDynState { slot, .. } => {
                let uid = uid_of(slot, self);
                let want = self.m[c].st.get(&uid).cloned();
                if let Out::State(s) = &res.out {
                    if *s != want {
                        self.disc(
                            "state.mismatch",
                            format!("get_dyn_state of {} gave {:?}, expected {:?}", uid, s, want),
                        );
                    }
                }
            }
            Op::Invalidate { slot, .. } => {
                let uid = uid_of(slot, self);
                self.invalidate_model(uid, true);
            }
            Op::Purge { slot, .. } => {
                let uid = uid_of(slot, self);
                self.invalidate_model(uid, true);
                self.m[c].forget(uid);
                self.last_failed[c].remove(&uid);
                self.stats.purges += 1;
                self.had.insert("purge");
            }
            Op::ClearArt { .. } => {
                self.clear_model(c);
            }
            Op::ClearAll { .. } | Op::DropCache { .. } => {
                if matches!(op, Op::ClearAll { .. }) {
                    self.clear_model(c);
                }
                self.m[c] = Cm::default();
                self.last_failed[c].clear();
            }
            Op::Gc { .. } | Op::GcFix { .. } => {
                self.had.insert("gc");
                self.stats.gcs += 1;
                let (first, all) = self.collectable(c);
                if all.len() > first.len() {
                    self.stats.gc_multi += 1;
                }
                let known = self.m[c].n_known();
                let (alive, ..) = self.expected_live(&self.m);
                if self.m[c].art.keys().any(|u| alive.contains(u)) && !all.is_empty() {
                    self.stats.gc_kept_live += 1;
                }
                let dead = self.m[c].known().iter().filter(|u| !alive.contains(u)).count();
                if dead > all.len() {
                    self.stats.gc_held_dead += 1;
                }
                if !self.m[c].doubt.is_empty() {
                    // No telling which builders are leafs: this case ends here.
                    self.stats.doubt_ends += 1;
                    self.broken = true;
                    return;
                }
                if matches!(op, Op::Gc { .. }) && !all.is_empty() && obs_count >= known {
                    self.disc(
                        "gc.noprogress",
                        format!("a collection dropped nothing, although {:?} are unreachable", first),
                    );
                }
                if matches!(op, Op::GcFix { .. }) && obs_count > known - all.len() {
                    self.disc(
                        "gc.incomplete",
                        format!(
                            "{} builders known after repeated collections, {} of the {} before could be dropped: {:?}",
                            obs_count,
                            all.len(),
                            known,
                            all
                        ),
                    );
                }
                // Which ones went? One collection need not find all of them.
                let mut gone: BTreeSet<Uid> = if obs_count == known - first.len() && !matches!(op, Op::GcFix { .. }) {
                    first.clone()
                } else if obs_count == known - all.len() {
                    all.clone()
                } else {
                    let dead: Vec<Uid> = self.m[c].known().into_iter().filter(|u| !alive.contains(u)).collect();
                    let m = &self.m[c];
                    w(|w| {
                        dead.into_iter()
                            .filter(|u| match m.st.get(u) {
                                Some(StObs::Snap(s)) => w.st_alive.get(&s.core.gen).copied().unwrap_or(0) == 0,
                                _ => match m.art.get(u) {
                                    Some(a) => w.art_alive.get(&a.serial).copied().unwrap_or(0) == 0,
                                    None => false,
                                },
                            })
                            .collect()
                    })
                };
                let mut extra = known.saturating_sub(gone.len()).saturating_sub(obs_count);
                for u in all.iter() {
                    if extra == 0 {
                        break;
                    }
                    if gone.insert(*u) {
                        extra -= 1;
                    }
                }
                self.stats.gc_removed += gone.len() as u64;
                for u in gone {
                    self.m[c].forget(u);
                }
            }
            Op::Ext { .. } => {}
            Op::Pool { k, slot, give } => {
                self.pool[*k] = slot.and_then(|s| self.slots[s]);
                if let (Some(s), true) = (slot, *give) {
                    self.slots[*s] = None;
                }
                self.stats.pooled += 1;
            }
            Op::DropHold { i } => {
                self.holds.remove(*i);
            }
        }
        if res.held != Held::Nothing {
            self.holds.push(res.held.clone());
        }
        if !self.broken && i < ev.len() && !matches!(res.out, Out::Panic(_)) {
            self.disc("spurious.build", format!("{} caused {:?}", self.opname, &ev[i]));
        }
    }

    fn compare(&mut self, c: usize, obs: &CacheObs, other: bool) {
        let mut seen: BTreeMap<Uid, HandleObs> = BTreeMap::new();
        for h in &obs.handles {
            if let Some(x) = &h.clash {
                self.disc("clash", format!("builder {}: {}", h.uid, x));
            }
            if let Some(f) = seen.get(&h.uid) {
                if (f.known, &f.art, &f.st) != (h.known, &h.art, &h.st) {
                    self.disc(
                        "handles.disagree",
                        format!("two handles of builder {} show {:?} and {:?}", h.uid, f, h),
                    );
                }
                continue;
            }
            seen.insert(h.uid, h.clone());
            let uid = h.uid;
            let want = self.m[c].art.get(&uid).cloned();
            let tol = self.last_cache == Some(c) && self.tolerate.contains(&uid);
            match (&want, &h.art) {
                (None, None) => {}
                (Some(a), Some(g)) => {
                    if g.owner != uid {
                        self.disc("art.foreign", format!("builder {} is listed with the artifact of {}", uid, g.owner));
                    } else if a.serial != g.serial {
                        self.disc(
                            if other { "other.art" } else { "art.changed" },
                            format!("builder {}: artifact #{} became #{}", uid, a.serial, g.serial),
                        );
                    } else if a.val != g.val {
                        self.disc(
                            if other { "other.art" } else { "art.value" },
                            format!("builder {}: artifact #{} value {} became {}", uid, a.serial, a.val, g.val),
                        );
                    }
                    let cur = self.cur;
                    self.cur = c;
                    self.see_addr(uid, g);
                    self.cur = cur;
                }
                (None, Some(g)) => {
                    self.disc(
                        if other { "other.art" } else { "art.stale" },
                        format!("builder {} should have no artifact, but has #{}", uid, g.serial),
                    );
                }
                (Some(_), None) if tol => {
                    self.stats.tolerated += 1;
                }
                (Some(a), None) => {
                    self.disc(
                        if other { "other.art" } else { "art.lost" },
                        format!("builder {} lost its artifact #{}", uid, a.serial),
                    );
                }
            }
            match &h.art {
                Some(g) => {
                    let addr = self.m[c].art.get(&uid).and_then(|a| a.addr);
                    self.m[c].art.insert(uid, ArtRec { serial: g.serial, val: g.val, addr: addr.or(Some(g.addr)) });
                }
                None => {
                    if self.m[c].art.contains_key(&uid) {
                        self.m[c].drop_art(uid);
                    } else if tol && self.m[c].uses.contains_key(&uid) {
                        self.m[c].doubt.insert(uid);
                    }
                }
            }
            let want = self.m[c].st.get(&uid).cloned();
            if want != h.st {
                let what = if other {
                    "other.state"
                } else if want.is_none() {
                    "state.stale"
                } else if h.st.is_none() {
                    "state.lost"
                } else {
                    "state.changed"
                };
                self.disc(what, format!("state of builder {}: expected {:?}, is {:?}", uid, want, h.st));
                match &h.st {
                    Some(s) => {
                        self.m[c].st.insert(uid, s.clone());
                    }
                    None => {
                        self.m[c].st.remove(&uid);
                    }
                }
            }
            if self.m[c].maybe.remove(&uid) && h.known {
                self.m[c].bare.insert(uid);
            }
            let known = want.is_some() || self.m[c].bare.contains(&uid);
            if h.known != known {
                self.disc(
                    if other { "other.known" } else { "known" },
                    format!("is_builder_known of {} is {}, expected {}", uid, h.known, known),
                );
            }
        }
        // Builders without a handle cannot be looked up; in a tolerated case ask the tokens.
        if self.last_cache == Some(c) && !self.tolerate.is_empty() {
            let t: Vec<Uid> = self.tolerate.iter().copied().filter(|u| !seen.contains_key(u)).collect();
            for u in t {
                match self.m[c].art.get(&u) {
                    Some(a) => {
                        if w(|w| w.art_alive.get(&a.serial).copied().unwrap_or(0) == 0) {
                            self.m[c].drop_art(u);
                        } else {
                            // perhaps alive only because something else holds it: there is no telling
                            self.broken = true;
                        }
                    }
                    None => {
                        if self.m[c].uses.contains_key(&u) {
                            self.m[c].doubt.insert(u);
                        }
                    }
                }
            }
        }
        let open = std::mem::take(&mut self.m[c].maybe);
        if !open.is_empty() {
            // those without a handle: the count tells, unless only some of them are known
            let more = obs.count.saturating_sub(self.m[c].n_known());
            if more >= open.len() {
                self.m[c].bare.extend(open);
            } else if more > 0 {
                self.broken = true;
                return;
            }
        }
        if obs.count != self.m[c].n_known() {
            let want: Vec<Uid> = self.m[c].known().into_iter().collect();
            self.disc(
                if other { "other.count" } else { "count" },
                format!("number_of_known_builders is {}, expected {} {:?}", obs.count, want.len(), want),
            );
        }
        // A cached artifact's ingredients are still the cached ones.
        let mut gone = vec![];
        for (u, _) in &seen {
            if self.m[c].art.contains_key(u) {
                if let Some(d) = self.m[c].uses.get(u) {
                    for (x, used) in d {
                        if let (Used::Ok(s), true) = (used, seen.contains_key(x)) {
                            if self.m[c].art.get(x).map(|a| a.serial) != Some(*s) {
                                gone.push((*u, *x, *s));
                            }
                        }
                    }
                }
            }
        }
        for (u, x, s) in gone {
            self.disc(
                "dep.gone",
                format!("artifact of {} is cached, but artifact #{} of {} it was built from is not", u, s, x),
            );
        }
    }

    // ---------------------------------------------------------------- from-scratch evaluation

    fn eval(&self, c: usize, uid: Uid, memo: &mut BTreeMap<Uid, Result<u64, u64>>) -> Result<u64, u64> {
        if let Some(r) = memo.get(&uid) {
            return *r;
        }
        if self.m[c].mutated.contains(&uid) {
            if let Some(a) = self.m[c].art.get(&uid) {
                memo.insert(uid, Ok(a.val));
                return Ok(a.val);
            }
        }
        let sp = spec(uid);
        let (core, extra) = match self.m[c].st.get(&uid) {
            Some(StObs::Snap(s)) => (s.core.clone(), s.extra),
            _ => (
                StCore { gen: 0, add: sp.add, sel: sp.sel, fail_at: sp.fail_at, panic_at: NONE8, ctr: 0 },
                None,
            ),
        };
        let can_fail = sp.kind != Kind::C;
        let mut acc = val_start(sp.base, core.add);
        let mut out = None;
        for i in 0..=sp.steps.len() {
            if can_fail && core.fail_at as usize == i {
                out = Some(Err(code_own(sp.base, i)));
                break;
            }
            if i == sp.steps.len() || (core.sel >> (i % 32)) & 1 == 0 {
                continue;
            }
            let (r, swallow) = match &sp.steps[i] {
                Step::Res { dep, swallow, .. } => (Some(self.eval(c, sp.deps[*dep], memo)), *swallow),
                Step::ResExtra { swallow, .. } => (extra.map(|x| self.eval(c, x, memo)), *swallow),
                Step::Spawn { kind, base, fails, .. } => {
                    let r = if *fails && *kind != Kind::C { Err(code_own(*base, 0)) } else { Ok(val_start(*base, 1)) };
                    (Some(r), true)
                }
                _ => (None, true),
            };
            match r {
                None => {}
                Some(Ok(v)) => acc = val_ok(acc, i, v),
                Some(Err(code)) => {
                    if swallow || !can_fail {
                        acc = val_err(acc, i, code);
                    } else {
                        out = Some(Err(code_prop(sp.base, code)));
                        break;
                    }
                }
            }
        }
        let out = out.unwrap_or(Ok(acc));
        memo.insert(uid, out);
        out
    }

    fn check_coherence(&mut self, op: &Op, res: &OpRes) {
        if w(|w| w.fuel_out) {
            return;
        }
        for c in 0..self.m.len() {
            let mut memo = BTreeMap::new();
            let cached: Vec<(Uid, u64)> = self.m[c].art.iter().map(|(u, a)| (*u, a.val)).collect();
            for (u, v) in cached {
                if spec(u).spawned {
                    continue;
                }
                let want = self.eval(c, u, &mut memo);
                self.stats.coherent += 1;
                if want != Ok(v) {
                    self.disc(
                        "coherence",
                        format!("cached value of {} is {}, computing it afresh gives {:?}", u, v, want),
                    );
                }
            }
            if let (Op::Get { c: oc, slot, .. }, Out::Res(r)) = (op, &res.out) {
                if *oc == c {
                    let u = self.slots[*slot].unwrap();
                    let want = self.eval(c, u, &mut memo);
                    let got = match r {
                        Res::Ok(a) => Ok(a.val),
                        Res::Err(e) => Err(e.code),
                        Res::Panicked => continue,
                    };
                    if want != got {
                        self.disc(
                            "coherence",
                            format!("get of {} gave {:?}, computing it afresh gives {:?}", u, got, want),
                        );
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- one step

    pub fn step(&mut self, op: Op) {
        let op = match (self.ablate, op) {
            ("inv", Op::Invalidate { .. }) | ("inv", Op::Purge { .. }) | ("inv", Op::DynStateMut { .. }) => return,
            ("lookup", Op::Lookup { .. }) | ("look", Op::Lookup { .. }) => return,
            ("conv", Op::Conv { from, to, .. }) => Op::CloneH { from, to },
            ("conv", Op::New { uid, dep_slots, slot, .. }) => Op::New { uid, dep_slots, slot, ctor: 0 },
            (_, op) => op,
        };
        self.opname = op_name(&op);
        self.cur = op_cache(&op).unwrap_or(0);
        if let Some(c) = op_cache(&op) {
            self.per_cache_ops[c] += 1;
        }
        self.last_cache = op_cache(&op);
        if let (Some(o), Some(c)) = (self.only, op_cache(&op)) {
            if o != c {
                return;
            }
        }
        self.tolerate.clear();
        self.touched.clear();
        self.ops += 1;
        w(|w| {
            w.log.clear();
            w.fuel = 2000;
            w.fuel_out = false;
            w.depth = 0;
        });
        // Make room for the slots the operation fills.
        if self.want_trace {
            let t = self.describe(&op);
            self.trace.push_str(&t);
        }
        let res = if self.unwinding > 0 && self.ops as u64 % self.unwinding == 0 {
            self.stats.unwinding += 1;
            while_unwinding(|| self.ex.exec(&op))
        } else {
            self.ex.exec(&op)
        };
        let log = w(|w| std::mem::take(&mut w.log));
        self.stats.max_depth = self.stats.max_depth.max(w(|w| w.max_depth) as u64);
        let panicked = match &res.out {
            Out::Panic(m) => Some(m.clone()),
            _ => None,
        };
        if self.want_trace {
            let short = format!("{:?}", res.out);
            let b: Vec<String> = log
                .iter()
                .filter_map(|e| match e {
                    Ev::BuildStart { uid, .. } => Some(format!("build {}", uid)),
                    Ev::BuildEnd { uid, res } => Some(match res {
                        BuildRes::Ok { serial, .. } => format!("{} => #{}", uid, serial),
                        BuildRes::Err { .. } => format!("{} => error", uid),
                        BuildRes::Panic => format!("{} => panic", uid),
                    }),
                    Ev::ResStart { user, dep, mode } => Some(format!("{} resolves {} (mode {})", user, dep, mode)),
                    _ => None,
                })
                .collect();
            let _ = write!(self.trace, "    -> {}{}{}\n", short, if b.is_empty() { "" } else { "   log: " }, b.join("; "));
        }
        let c = self.cur;
        if let (Some(m), true) = (&panicked, !self.had.contains("foreign")) {
            if log.iter().any(|e| matches!(e, Ev::Enter { .. })) {
                self.had.insert("foreign");
            }
            let _ = m;
        }
        if let Some(m) = panicked {
            // Let the handles settle, then stop: the cache is in an unknown condition.
            self.disc("panic", m);
            self.broken = true;
            return;
        }
        let mut full = true;
        if self.prof.blind && !matches!(op, Op::New { .. } | Op::CloneH { .. } | Op::Conv { .. }) {
            full = self.src.chance(1, 5);
        }
        if self.ablate == "look" {
            full = false;
        }
        let deep = self.prof.deep;
        let mut obs: Vec<CacheObs> = (0..self.m.len()).map(|k| self.ex.observe(k, deep, full)).collect();
        let own_count = obs.get(c).map_or(0, |o| o.count);
        // the handles as they are when the doctor is told
        let slots = if self.expect_doc { self.slots.clone() } else { vec![] };
        self.apply(&op, &res, &log, own_count);
        if self.broken {
            return;
        }
        if !full {
            self.stats.blind += 1;
            if !self.tolerate.is_empty() || !self.touched.is_empty() || self.m.iter().any(|m| !m.maybe.is_empty()) {
                // the model needs to know which of the permitted outcomes it was
                obs = (0..self.m.len()).map(|k| self.ex.observe(k, deep, true)).collect();
            }
        }
        for k in 0..self.m.len() {
            let other = op_cache(&op) != Some(k) && !self.touched.contains(&k);
            self.compare(k, &obs[k], other);
        }
        if self.expect_doc {
            self.check_doc(&log, &op, &res.out, &slots);
        }
        let errs = w(|w| w.err_alive);
        if errs != 0 {
            self.benign("leak", format!("{} errors are still alive", errs));
        }
        match &op {
            Op::New { uid, .. } => {
                let id = w(|w| w.ids[*uid]).unwrap();
                if !self.seen_ids.insert(id) {
                    self.stats.reused_addr += 1;
                }
                for k in 0..self.m.len() {
                    if let Some(h) = obs[k].handles.iter().find(|h| h.uid == *uid) {
                        if h.known || h.art.is_some() || h.st.is_some() {
                            self.disc(
                                "fresh.dirty",
                                format!("the new builder {} is already known to cache {}: {:?}", uid, k, h),
                            );
                        }
                    }
                }
                if let Some(x) = self.ex.identity() {
                    self.disc("identity", x);
                }
            }
            Op::CloneH { .. } | Op::Conv { .. } => {
                if let Some(x) = self.ex.identity() {
                    self.disc("identity", x);
                }
            }
            _ => {}
        }
        if self.prof.pure {
            self.check_coherence(&op, &res);
        }
        if !w(|w| w.fuel_out) || true {
            self.check_live();
        }
        if self.m.iter().filter(|m| !m.art.is_empty()).count() >= 2 {
            self.stats.two_caches += 1;
        }
        // observable behaviour, for the differential checks
        self.digest = mix(self.digest, digest_out(&res.out));
        for o in &obs {
            self.digest = mix(self.digest, o.count as u64);
            for h in &o.handles {
                let a = h.art.as_ref().map_or(3, |a| mix(a.serial, a.val));
                let s = match &h.st {
                    None => 5,
                    Some(StObs::Unit) => 7,
                    Some(StObs::Snap(s)) => mix(mix(s.core.add, s.core.ctr), s.core.gen),
                };
                self.digest = mix(self.digest, mix(mix(h.uid as u64, a), mix(s, h.known as u64)));
            }
        }
        self.key = mix(self.key, op_key(&op));
        for e in &log {
            if let Ev::BuildEnd { uid, res } = e {
                let r = match res {
                    BuildRes::Ok { .. } => 1,
                    BuildRes::Err { .. } => 2,
                    BuildRes::Panic => 3,
                };
                self.key = mix(self.key, mix(*uid as u64, r));
                self.digest = mix(self.digest, mix(*uid as u64, r));
            }
        }
        self.digests.push(self.digest);
    }

    pub fn describe(&self, op: &Op) -> String {
        let u = |s: &usize| self.slots.get(*s).and_then(|x| *x).map_or("?".into(), |x| format!("{}", x));
        match op {
            Op::New { uid, ctor, slot, .. } => {
                let s = spec(*uid);
                format!(
                    "new builder {} (slot {}): {:?}{} deps {:?} steps {:?} add {} sel {:#x} fail_at {} panic_at {}\n",
                    uid,
                    slot,
                    s.kind,
                    ["", " as trait object", " as unsized", " from", " as unsized trait object"][*ctor as usize],
                    s.deps,
                    s.steps,
                    s.add,
                    s.sel,
                    s.fail_at,
                    s.panic_at
                )
            }
            Op::CloneH { from, to } => format!("clone handle of {} (slot {} -> {})\n", u(from), from, to),
            Op::Conv { from, to, form } => {
                format!("convert handle of {} (slot {} -> {}, form {})\n", u(from), from, to, form)
            }
            Op::DropH { slot } => format!("drop handle of {} (slot {})\n", u(slot), slot),
            Op::Get { c, slot, mode, hold } => format!(
                "cache {}: get{} {}{}\n",
                c,
                ["", "_ref", "_cloned"][*mode as usize],
                u(slot),
                if *hold { " and keep it" } else { "" }
            ),
            Op::Lookup { c, slot, mode } => {
                format!("cache {}: lookup{} {}\n", c, ["", "_ref", "_cloned"][*mode as usize], u(slot))
            }
            Op::GetMut { c, slot, val } => format!("cache {}: get_mut {} := {}\n", c, u(slot), val),
            Op::LookupMut { c, slot, val } => format!("cache {}: lookup_mut {} := {}\n", c, u(slot), val),
            Op::DynState { c, slot } => format!("cache {}: dyn_state {}\n", c, u(slot)),
            Op::GetDynState { c, slot } => format!("cache {}: get_dyn_state {}\n", c, u(slot)),
            Op::DynStateMut { c, slot, edit } => format!("cache {}: dyn_state_mut {} {:?}\n", c, u(slot), edit),
            Op::Invalidate { c, slot } => format!("cache {}: invalidate {}\n", c, u(slot)),
            Op::Purge { c, slot } => format!("cache {}: purge {}\n", c, u(slot)),
            Op::ClearArt { c } => format!("cache {}: clear_artifacts\n", c),
            Op::ClearAll { c } => format!("cache {}: clear_all\n", c),
            Op::Gc { c } => format!("cache {}: garbage_collection\n", c),
            Op::GcFix { c } => format!("cache {}: garbage_collection until nothing changes\n", c),
            Op::DropCache { c } => format!("cache {}: replaced by a new one\n", c),
            Op::Ext { uid, fail_at, panic_at, init } => {
                format!(
                    "outside world: builder {} fails at {} panics at {} (255: not){}\n",
                    uid,
                    fail_at,
                    panic_at,
                    if *init { " and when initialising its state" } else { "" }
                )
            }
            Op::Pool { k, slot, give } => format!(
                "outside world: registry place {} gets {}\n",
                k,
                slot.map_or("nothing".into(), |s| format!(
                    "{} handle of {} (slot {})",
                    ["a copy of the", "the"][*give as usize],
                    u(&s),
                    s
                ))
            ),
            Op::DropHold { i } => format!("drop kept artifact {}\n", i),
        }
    }

    pub fn run(&mut self) {
        let span = (self.prof.max_ops - self.prof.min_ops + 1) as u64;
        let n = self.prof.min_ops + self.src.draw(span) as usize;
        if self.src.chance(1, 40) {
            self.unwinding = 1 + self.src.draw(3);
        }
        for _ in 0..n {
            if self.src.exhausted() {
                break;
            }
            self.src.begin();
            let op = self.gen_op();
            self.src.end();
            self.step(op);
            // After a discrepancy the expectation is only resynchronised as far as the public
            // accessors reach, so a history ends with the first call that shows one, unless it
            // is about nothing but values left alive.
            if self.broken || self.off() {
                break;
            }
        }
    }

    pub fn is_broken(&self) -> bool {
        self.broken
    }

    /// Drops everything and checks that nothing stays alive.
    pub fn finish(&mut self) {
        self.opname = "teardown";
        self.ex.teardown();
        if self.broken || !self.discs.is_empty() {
            return;
        }
        for s in self.slots.iter_mut() {
            *s = None;
        }
        self.holds.clear();
        self.pool = [None; 2];
        for m in self.m.iter_mut() {
            *m = Cm::default();
        }
        self.check_live();
    }
}

pub fn op_cache(op: &Op) -> Option<usize> {
    match op {
        Op::Get { c, .. }
        | Op::Lookup { c, .. }
        | Op::GetMut { c, .. }
        | Op::LookupMut { c, .. }
        | Op::DynState { c, .. }
        | Op::GetDynState { c, .. }
        | Op::DynStateMut { c, .. }
        | Op::Invalidate { c, .. }
        | Op::Purge { c, .. }
        | Op::ClearArt { c }
        | Op::ClearAll { c }
        | Op::Gc { c }
        | Op::GcFix { c }
        | Op::DropCache { c } => Some(*c),
        _ => None,
    }
}

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::New { .. } => "new",
        Op::CloneH { .. } => "cloneh",
        Op::DropH { .. } => "droph",
        Op::Conv { .. } => "conv",
        Op::Get { .. } => "get",
        Op::Lookup { .. } => "lookup",
        Op::GetMut { .. } => "getmut",
        Op::LookupMut { .. } => "lookupmut",
        Op::DynState { .. } => "dynstate",
        Op::GetDynState { .. } => "getdynstate",
        Op::DynStateMut { .. } => "dynstatemut",
        Op::Invalidate { .. } => "invalidate",
        Op::Purge { .. } => "purge",
        Op::ClearArt { .. } => "clearart",
        Op::ClearAll { .. } => "clearall",
        Op::Gc { .. } => "gc",
        Op::GcFix { .. } => "gcfix",
        Op::DropCache { .. } => "dropcache",
        Op::Ext { .. } => "ext",
        Op::Pool { .. } => "pool",
        Op::DropHold { .. } => "drophold",
    }
}

fn op_key(op: &Op) -> u64 {
    let mut h = crate::pbt::mix_str(9, op_name(op));
    let mut s = String::new();
    match op {
        Op::New { uid, .. } => {
            let sp = spec(*uid);
            let _ = write!(s, "{:?} {:?} {:?} {} {}", sp.kind, sp.deps, sp.steps, sp.fail_at, sp.panic_at);
        }
        o => {
            let _ = write!(s, "{:?}", o);
        }
    }
    h = crate::pbt::mix_str(h, &s);
    h
}

fn digest_out(o: &Out) -> u64 {
    match o {
        Out::Unit => 1,
        Out::Res(Res::Ok(a)) => mix(mix(a.serial, a.val), a.clone as u64),
        Out::Res(Res::Err(e)) => mix(e.eid, e.code),
        Out::Res(Res::Panicked) => 2,
        Out::Found(None) => 3,
        Out::Found(Some(a)) => mix(mix(a.serial, a.val), 4),
        Out::State(s) => crate::pbt::mix_str(5, &format!("{:?}", s)),
        Out::Edited(a, b) => crate::pbt::mix_str(6, &format!("{:?}{:?}", a, b)),
        Out::Injected => 7,
        Out::Panic(_) => 8,
        Out::Cycles(_) => 9,
    }
}

pub type Judge = fn(&Disc, &Hist) -> bool;
pub type NonTrivial = fn(&Stats) -> bool;

/// Runs one history for a property.
pub fn run_history(
    src: &mut Source,
    cfg: &CaseCfg,
    prof: Profile,
    flavor: usize,
    judge: Judge,
    nontrivial: NonTrivial,
) -> CaseOut {
    crate::pbt::set_opaque(prof.opaque && prof.doc % 4 != 0);
    let mut h = Hist::new(src, prof, flavor, cfg.want_trace);
    h.only = cfg.only;
    h.ablate = cfg.ablate;
    if cfg.only.is_some() {
        w(|w| w.no_foreign = true);
    }
    if cfg.no_reuse {
        crate::quarantine::on();
    }
    h.run();
    h.finish();
    let mut out = CaseOut {
        key: h.key,
        ops: h.ops,
        trace: std::mem::take(&mut h.trace),
        digest: h.digest,
        digests: std::mem::take(&mut h.digests),
        nontrivial: nontrivial(&h.stats),
        labels: labels(&h.stats),
        ..Default::default()
    };
    let hit = h.discs.iter().find(|d| judge(d, &h)).cloned();
    if let Some(d) = hit {
        out.fail = Some(format!("{} at {}: {}", d.what, d.op, d.detail));
    }
    out.unjudged = out.fail.is_none() && !h.discs.is_empty();
    out.discs = h.discs.iter().map(|d| (d.what, d.op)).collect();
    out.convs = h.stats.convs > 0;
    out.last_cache = h.last_cache;
    drop(h);
    reset();
    if cfg.no_reuse {
        crate::quarantine::off();
    }
    out
}

pub fn labels(s: &Stats) -> Vec<&'static str> {
    let mut l = vec![];
    let mut add = |c: bool, n: &'static str| {
        if c {
            l.push(n)
        }
    };
    add(s.nested_hits > 0, "shared dependency");
    add(s.inv_dependents > 0, "invalidation reached dependents");
    add(s.blind > 0, "calls not followed by a look at all handles");
    add(s.inv_deep > 0, "invalidation removed two or more dependents");
    add(s.inv_survivors > 0, "unrelated artifacts survived an invalidation");
    add(s.fails > 0, "failed build");
    add(s.swallowed > 0, "builder coped with a failed dependency");
    add(s.panics > 0, "panicking build");
    add(s.unwinding > 0, "calls made while a panic unwinds");
    add(s.caught > 0, "builder caught a dependency's panic");
    add(s.state_writes > 0, "state edited");
    add(s.state_survived > 0, "edited state seen by a later build");
    add(s.clear_removed > 0, "cleared artifacts");
    add(s.gc_removed > 0, "garbage collected builders");
    add(s.gc_multi > 0, "garbage needing several cycles");
    add(s.gc_held_dead > 0, "dead builder kept for a live dependent");
    add(s.purges > 0, "purge");
    add(s.muts > 0, "mutable access");
    add(s.mut_dependents > 0, "mutable access dropped dependents");
    add(s.convs > 0, "blueprint conversion");
    add(s.reused_addr > 0, "builder address reused");
    add(s.spawned > 0, "builder created during a build");
    add(s.two_caches > 0, "two caches filled");
    add(s.pooled > 0, "registry of the outside world edited");
    add(s.foreign > 0, "builder used another cache");
    add(s.max_depth >= 4, "builds nested 4 or deeper");
    l
}
