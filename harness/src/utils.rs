//! C24, C25, C26: the ready-made builders of the library, against a model of what each does.
use crate::pbt::{CaseCfg, CaseOut, Source};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

thread_local! {
    static SERIAL: Cell<u64> = const { Cell::new(1) };
    static RUNS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}

/// An artifact with an identity of its own; a clone is another one that knows its origin.
pub struct Art {
    pub val: i64,
    pub serial: u64,
    pub orig: u64,
}
impl std::fmt::Debug for Art {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if crate::pbt::opaque() {
            return f.write_str("Art");
        }
        write!(f, "Art {} #{} of #{}", self.val, self.serial, self.orig)
    }
}
impl Art {
    pub fn new(val: i64) -> Self {
        Art { val, serial: next(), orig: 0 }
    }
}
impl Clone for Art {
    fn clone(&self) -> Self {
        Art { val: self.val, serial: next(), orig: self.serial }
    }
}
fn next() -> u64 {
    SERIAL.with(|s| {
        let v = s.get();
        s.set(v + 1);
        v
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Seen {
    pub serial: u64,
    pub val: i64,
    pub ptr: usize,
    pub orig: u64,
}
pub fn see(a: &Art) -> Seen {
    Seen { serial: a.serial, val: a.val, ptr: a as *const Art as usize, orig: a.orig }
}
pub fn built(id: u32) {
    RUNS.with(|r| r.borrow_mut().push(id))
}
pub fn begin() {
    RUNS.with(|r| r.borrow_mut().clear())
}
/// The source builders that ran since `begin`.
pub fn end() -> Vec<u32> {
    RUNS.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

#[derive(Clone, Copy, Debug)]
pub struct SrcState {
    pub val: i64,
    pub fail: i64,
}
#[derive(Clone, Copy, Debug)]
pub struct FnState {
    pub n: i64,
    pub step: i64,
}
#[derive(Clone, Copy, Debug)]
pub enum StRep {
    Unit,
    Pair(i64, i64),
    Bin(Option<Seen>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Src,
    Fun,
    Cfg,
    Con,
    Cloned,
    Fwd,
    Feign,
    Redeem,
    Flav,
    Simple,
    Stateless,
}
pub const KINDS: [Kind; 11] = [
    Kind::Src, Kind::Fun, Kind::Cfg, Kind::Con, Kind::Cloned, Kind::Fwd, Kind::Feign, Kind::Redeem, Kind::Flav,
    Kind::Simple, Kind::Stateless,
];
impl Kind {
    pub fn base(self) -> bool {
        (self as u32) < 4 || (self as u32) > 7
    }
}

pub struct ModelNode {
    pub kind: Kind,
    pub inner: Option<usize>,
    pub val: i64,
    pub default: Option<usize>,
    pub fixed: Option<usize>,
    /// Runs of a stateless function so far, in whatever cache.
    pub count: std::cell::Cell<i64>,
}

/// Artifacts as the model sees them: it knows which are the same, not where they are.
#[derive(Default)]
pub struct Cells {
    v: Vec<CellM>,
    by_serial: BTreeMap<u64, usize>,
}
struct CellM {
    val: i64,
    seen: Option<Seen>,
    clone_of: Option<usize>,
}
impl Cells {
    pub fn fresh(&mut self, val: i64, clone_of: Option<usize>) -> usize {
        self.v.push(CellM { val, seen: None, clone_of });
        self.v.len() - 1
    }
    pub fn known(&mut self, s: Seen) -> usize {
        self.v.push(CellM { val: s.val, seen: Some(s), clone_of: None });
        self.by_serial.insert(s.serial, self.v.len() - 1);
        self.v.len() - 1
    }
    pub fn observe(&mut self, c: usize, s: Seen) -> Result<(), String> {
        if self.v[c].val != s.val {
            return Err(format!("the artifact {:?} should have the value {}", s, self.v[c].val));
        }
        match self.v[c].seen {
            Some(o) => {
                if o.serial != s.serial || (o.ptr != s.ptr && o.ptr != 0) {
                    return Err(format!("the artifact is {:?} and should be {:?}", s, o));
                }
                self.v[c].seen = Some(s);
            }
            None => {
                if let Some(o) = self.by_serial.insert(s.serial, c) {
                    if o != c {
                        return Err(format!("{:?} should be an artifact of its own, but is one seen before", s));
                    }
                }
                self.v[c].seen = Some(s);
                if let Some(o) = self.v[c].clone_of {
                    if let Some(os) = self.v[o].seen {
                        if s.orig != os.serial {
                            return Err(format!("{:?} should be a clone of {:?}", s, os));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn val(&self, c: usize) -> i64 {
        self.v[c].val
    }
}

#[derive(Clone, Copy, Debug)]
pub enum MSt {
    Unit,
    Pair(i64, i64),
    Cell(Option<usize>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Err(u32),
    Panic,
}

#[derive(Default)]
pub struct Stats {
    pub kinds: u32,
    pub builds: u64,
    pub fails: u64,
    pub panics: u64,
    pub redeemed: u64,
    pub recovered: u64,
    pub writes: u64,
    pub dependents: u64,
    pub stacked: u64,
    pub wrapped: u64,
    pub state_builds: u64,
    pub kept: u64,
    pub collected: u64,
}

impl Stats {
    pub fn label(&self, o: &mut CaseOut) {
        const NAMES: [&str; 11] = [
            "source", "functional", "configurable", "constant", "cloned", "forwarding", "feigning", "redeeming",
            "flavour trait", "simple trait", "stateless function",
        ];
        for (i, n) in NAMES.iter().enumerate() {
            if self.kinds & (1 << i) != 0 {
                o.labels.push(n);
            }
        }
        for (n, v) in [
            ("failed build", self.fails),
            ("panicked function", self.panics),
            ("redeemed failure", self.redeemed),
            ("success after redeemed failure", self.recovered),
            ("dependents dropped", self.dependents),
            ("wrapper of a wrapper", self.stacked),
            ("handle dropped, builder kept by a wrapper", self.kept),
            ("collection dropped builders", self.collected),
        ] {
            if v > 0 {
                o.labels.push(n);
            }
        }
    }
}

/// Whether a function panics once it arrived at this value.
pub fn panics(v: i64) -> bool {
    v % 8 == 6
}

/// The model of one cache.
#[derive(Default)]
pub struct Cm {
    pub art: BTreeMap<usize, usize>,
    pub st: BTreeMap<usize, MSt>,
    pub runs: Vec<u32>,
    redeemed: BTreeMap<usize, bool>,
}
impl Cm {
    pub fn ensure(&mut self, n: usize, mk: &[ModelNode]) {
        let m = &mk[n];
        self.st.entry(n).or_insert(match m.kind {
            Kind::Src | Kind::Flav => MSt::Pair(0, -1),
            Kind::Fun => MSt::Pair(m.val, 1),
            Kind::Cfg => MSt::Pair(m.val, 0),
            Kind::Redeem => MSt::Cell(m.default),
            _ => MSt::Unit,
        });
    }
    pub fn set(&mut self, n: usize, a: i64, b: i64, mk: &[ModelNode], cells: &mut Cells) {
        self.ensure(n, mk);
        let v = match mk[n].kind {
            Kind::Src | Kind::Flav => MSt::Pair(a, b),
            Kind::Fun => MSt::Pair(a, b.max(0)),
            Kind::Cfg => MSt::Pair(a, 0),
            Kind::Redeem => MSt::Cell(if b >= 0 { None } else { Some(cells.fresh(a, None)) }),
            _ => MSt::Unit,
        };
        self.st.insert(n, v);
    }
    /// Drops the artifact of `n` and of everything built upon it; the number of the latter.
    pub fn invalidate(&mut self, n: usize, mk: &[ModelNode]) -> u64 {
        let mut d = 0;
        self.art.remove(&n);
        for o in n + 1..mk.len() {
            let mut i = mk[o].inner;
            while let Some(k) = i {
                if k == n {
                    if self.art.remove(&o).is_some() {
                        d += 1;
                    }
                    break;
                }
                i = mk[k].inner;
            }
        }
        d
    }
    pub fn get(&mut self, n: usize, mk: &[ModelNode], cells: &mut Cells, s: &mut Stats, shares: bool) -> Result<(), Fail> {
        self.runs.clear();
        self.build(n, mk, cells, s, shares)
    }
    fn build(&mut self, n: usize, mk: &[ModelNode], cells: &mut Cells, s: &mut Stats, shares: bool) -> Result<(), Fail> {
        if self.art.contains_key(&n) {
            return Ok(());
        }
        self.ensure(n, mk);
        let m = &mk[n];
        let cell = match m.kind {
            Kind::Src | Kind::Flav => {
                self.runs.push(n as u32);
                match self.st[&n] {
                    MSt::Pair(v, f) if f < 0 => cells.fresh(v, None),
                    MSt::Pair(_, f) => {
                        s.fails += 1;
                        return Err(Fail::Err(f as u32));
                    }
                    _ => unreachable!(),
                }
            }
            Kind::Fun => match self.st[&n] {
                MSt::Pair(v, step) => {
                    let v = v + step;
                    self.st.insert(n, MSt::Pair(v, step));
                    s.state_builds += 1;
                    if panics(v) {
                        s.panics += 1;
                        return Err(Fail::Panic);
                    }
                    if v % 4 == 3 {
                        s.fails += 1;
                        return Err(Fail::Err(v as u32));
                    }
                    cells.fresh(v, None)
                }
                _ => unreachable!(),
            },
            Kind::Stateless => {
                self.runs.push(n as u32);
                m.count.set(m.count.get() + 1);
                let v = m.val + m.count.get();
                if panics(v) {
                    s.panics += 1;
                    return Err(Fail::Panic);
                }
                if v % 4 == 3 {
                    s.fails += 1;
                    return Err(Fail::Err(v as u32));
                }
                cells.fresh(v, None)
            }
            Kind::Cfg => match self.st[&n] {
                MSt::Pair(v, _) => {
                    s.state_builds += 1;
                    cells.fresh(v, None)
                }
                _ => unreachable!(),
            },
            Kind::Con => {
                let f = m.fixed.unwrap();
                if shares {
                    f
                } else {
                    let v = cells.val(f);
                    cells.fresh(v, Some(f))
                }
            }
            Kind::Simple => {
                self.runs.push(n as u32);
                let mut v = m.val;
                if let Some(i) = m.inner {
                    self.build(i, mk, cells, s, shares)?;
                    v += 2 * cells.val(self.art[&i]);
                    s.wrapped += 1;
                }
                cells.fresh(v, None)
            }
            Kind::Cloned => {
                let i = m.inner.unwrap();
                self.build(i, mk, cells, s, shares)?;
                let c = self.art[&i];
                let v = cells.val(c);
                s.wrapped += 1;
                cells.fresh(v, Some(c))
            }
            Kind::Fwd | Kind::Feign => {
                let i = m.inner.unwrap();
                self.build(i, mk, cells, s, shares)?;
                s.wrapped += 1;
                self.art[&i]
            }
            Kind::Redeem => {
                let i = m.inner.unwrap();
                match self.build(i, mk, cells, s, shares) {
                    Ok(()) => {
                        let c = self.art[&i];
                        self.st.insert(n, MSt::Cell(Some(c)));
                        if self.redeemed.insert(n, false) == Some(true) {
                            s.recovered += 1;
                        }
                        c
                    }
                    Err(Fail::Panic) => return Err(Fail::Panic),
                    Err(Fail::Err(_)) => match self.st[&n] {
                        MSt::Cell(Some(c)) => {
                            s.redeemed += 1;
                            self.redeemed.insert(n, true);
                            c
                        }
                        _ => return Err(Fail::Panic),
                    },
                }
            }
        };
        s.builds += 1;
        self.art.insert(n, cell);
        Ok(())
    }
}

pub struct Prof {
    pub caches: usize,
    pub max_ops: usize,
    pub max_nodes: usize,
    pub focus: bool,
    /// make, get, get, invalidate, purge, dyn_state_mut, dyn_state, clear_artifacts, clear_all, collect, drop a handle
    pub ops: [u32; 11],
    pub kinds: [u32; 11],
    pub bases: [u32; 11],
    pub nontrivial: fn(&Stats) -> bool,
}

mod rc {
    use daab::rc as flav;
    pub type ArtCan = daab::rc::CanType;
    pub type BCan = daab::rc::BuilderCan;
    pub type Bin<T> = std::rc::Rc<T>;
    pub const CLONE_CAN: bool = true;
    pub type FwS = Bp<ForwardingBuilder<Bp<Source>>>;
    pub type FwCf = Bp<ForwardingBuilder<Bp<Cf>>>;
    pub type RdS = Bp<RedeemingBuilder<Bp<Source>, Bin<Art>>>;
    pub type DynE = daab::rc::DynamicBlueprint<Art, u32, ()>;
    pub type DynN = daab::rc::DynamicBlueprint<Art, Never, ()>;
    pub type DynR = daab::rc::DynamicBlueprint<Art, Never, Option<Bin<Art>>>;
    macro_rules! if_clone { ($b:block) => { $b } }
    macro_rules! get_bin { ($s:ident, $c:ident) => { $c.get(&$s.0).map(|a| see(&a)).map_err(|e| e.code()) } }
    macro_rules! erase_e { ($b:expr) => { Some(H::E($b.into())) } }
    macro_rules! erase_n { ($b:expr) => { Some(H::Nv($b.into())) } }
    macro_rules! erase_r { ($b:expr) => { Some(H::RdD($b.into())) } }
    include!("utils_engine.rs");
}
mod arc {
    use daab::arc as flav;
    pub type ArtCan = daab::arc::CanType;
    pub type BCan = daab::arc::BuilderCan;
    pub type Bin<T> = std::sync::Arc<T>;
    pub const CLONE_CAN: bool = true;
    pub type FwS = Bp<ForwardingBuilder<Bp<Source>>>;
    pub type FwCf = Bp<ForwardingBuilder<Bp<Cf>>>;
    pub type RdS = Bp<RedeemingBuilder<Bp<Source>, Bin<Art>>>;
    // There are no dynamic blueprints for Arc: never constructed.
    pub type DynE = Bp<Source>;
    pub type DynN = Bp<Cf>;
    pub type DynR = RdS;
    macro_rules! if_clone { ($b:block) => { $b } }
    macro_rules! get_bin { ($s:ident, $c:ident) => { $c.get(&$s.0).map(|a| see(&a)).map_err(|e| e.code()) } }
    macro_rules! erase_e { ($b:expr) => { None } }
    macro_rules! erase_n { ($b:expr) => { None } }
    macro_rules! erase_r { ($b:expr) => { None } }
    include!("utils_engine.rs");
}
mod boxed {
    use daab::boxed as flav;
    pub type ArtCan = daab::boxed::CanType;
    pub type BCan = daab::boxed::BuilderCan;
    pub type Bin<T> = Box<T>;
    pub const CLONE_CAN: bool = false;
    // These need a can that can be cloned: never constructed.
    pub type FwS = Bp<ClonedBuilder<Bp<Source>>>;
    pub type FwCf = Bp<ClonedBuilder<Bp<Cf>>>;
    pub type RdS = FwCf;
    pub type DynE = daab::boxed::DynamicBlueprint<Art, u32, ()>;
    pub type DynN = daab::boxed::DynamicBlueprint<Art, Never, ()>;
    pub type DynR = DynN;
    macro_rules! if_clone { ($b:block) => { None } }
    macro_rules! get_bin { ($s:ident, $c:ident) => { $c.get_ref(&$s.0).map(|a| see(a)).map_err(|e| e.code()) } }
    macro_rules! erase_e { ($b:expr) => { Some(H::E($b.into())) } }
    macro_rules! erase_n { ($b:expr) => { Some(H::Nv($b.into())) } }
    #[allow(unused_macros)]
    macro_rules! erase_r { ($b:expr) => { None } }
    include!("utils_engine.rs");
}

fn run(src: &mut Source, cfg: &CaseCfg, mut p: Prof, flavors: usize) -> CaseOut {
    if cfg.thorough && src.chance(1, 4) {
        p.max_ops *= 4;
    }
    if src.chance(1, 300) {
        // now and then very many calls, on more builders
        p.max_ops = 800;
        p.max_nodes *= 2;
    }
    crate::pbt::set_opaque(src.chance(1, 3));
    match src.below(flavors) {
        0 => rc::run(src, cfg, &p),
        1 => arc::run(src, cfg, &p),
        _ => boxed::run(src, cfg, &p),
    }
}

pub fn c24(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let p = Prof {
        caches: 2,
        max_ops: 40,
        max_nodes: 4,
        focus: true,
        ops: [6, 14, 14, 6, 2, 12, 1, 1, 1, 2, 2],
        kinds: [3, 1, 1, 0, 1, 2, 1, 10, 0, 0, 1],
        bases: [4, 2, 1, 0, 0, 0, 0, 0, 0, 0, 2],
        nontrivial: |s| s.redeemed > 0 && s.recovered > 0,
    };
    run(src, cfg, p, 2)
}
pub fn c25(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let p = Prof {
        caches: 2,
        max_ops: 40,
        max_nodes: 10,
        focus: false,
        ops: [8, 14, 14, 8, 3, 8, 1, 1, 1, 2, 2],
        kinds: [1, 1, 1, 1, 6, 6, 6, 2, 0, 0, 1],
        bases: [3, 2, 3, 1, 0, 0, 0, 0, 0, 0, 1],
        nontrivial: |s| s.wrapped >= 2 && s.dependents > 0,
    };
    run(src, cfg, p, 3)
}
pub fn c26(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let p = Prof {
        caches: 3,
        max_ops: 40,
        max_nodes: 6,
        focus: false,
        ops: [5, 14, 14, 7, 4, 10, 4, 1, 1, 2, 2],
        kinds: [0, 5, 5, 4, 1, 1, 0, 0, 0, 0, 2],
        bases: [0, 5, 5, 4, 0, 0, 0, 0, 0, 0, 2],
        nontrivial: |s| s.state_builds >= 2 && s.writes > 0,
    };
    run(src, cfg, p, 3)
}
/// The simplified traits of the flavours.
pub fn c30(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let p = Prof {
        caches: 2,
        max_ops: 40,
        max_nodes: 8,
        focus: false,
        ops: [8, 14, 14, 7, 3, 10, 3, 1, 1, 2, 2],
        kinds: [1, 0, 3, 1, 2, 2, 1, 1, 6, 8, 0],
        bases: [1, 0, 4, 2, 0, 0, 0, 0, 6, 4, 0],
        nontrivial: |s| s.kinds & 0x300 != 0 && s.dependents > 0 && s.builds > 2,
    };
    run(src, cfg, p, 3)
}
