// Included once per can flavour; see utils.rs.
use super::super::utils::*;
use daab::blueprint::Promise;
use daab::cache::{CacheOwned, Resolver};
use daab::canning::{Can, CanSized};
use daab::prelude::*;
use daab::utils::*;
use daab::{Builder, Never};
use std::fmt::Debug;
use crate::pbt::{last_panic, mix, CaseCfg, CaseOut, Source as Src};
use std::collections::BTreeMap;

pub type Bp<B> = daab::blueprint::Blueprint<B, BCan>;
pub type C = CacheOwned<ArtCan, BCan>;
pub type Cf = ConfigurableBuilder<ArtCan, BCan, Art>;
pub type Co = ConstBuilder<ArtCan, BCan, Bin<Art>, Art>;

/// The instrumented builder at the bottom: fails or yields a fresh artifact as its state says.
#[derive(Debug)]
pub struct Source(pub u32);
impl Builder<ArtCan, BCan> for Source {
    type Artifact = Art;
    type DynState = SrcState;
    type Err = u32;
    fn build(&self, r: &mut Resolver<ArtCan, BCan, SrcState>) -> Result<Bin<Art>, u32> {
        built(self.0);
        let s = *r.my_state();
        if s.fail >= 0 {
            return Err(s.fail as u32);
        }
        Ok(Bin::new(Art::new(s.val)))
    }
    fn init_dyn_state(&self) -> SrcState {
        SrcState { val: 0, fail: -1 }
    }
}

/// The same, written against the simplified trait of the flavour.
#[derive(Debug)]
pub struct FlavSource(pub u32);
impl flav::Builder for FlavSource {
    type Artifact = Art;
    type DynState = SrcState;
    type Err = u32;
    fn build(&self, r: &mut flav::Resolver<SrcState>) -> Result<Bin<Art>, u32> {
        built(self.0);
        let s = *r.my_state();
        if s.fail >= 0 {
            return Err(s.fail as u32);
        }
        Ok(Bin::new(Art::new(s.val)))
    }
    fn init_dyn_state(&self) -> SrcState {
        SrcState { val: 0, fail: -1 }
    }
}

/// Written against the simplest trait: neither state nor errors; it may resolve another one.
#[derive(Debug)]
pub struct Simple {
    pub id: u32,
    pub val: i64,
    pub inner: Option<SimpleIn>,
}
#[derive(Debug)]
pub enum SimpleIn {
    Cf(Bp<Cf>),
    Co(Bp<Co>),
    Si(Bp<Simple>),
}
impl flav::SimpleBuilder for Simple {
    type Artifact = Art;
    fn build(&self, r: &mut flav::Resolver) -> Art {
        built(self.id);
        let v = match &self.inner {
            None => 0,
            Some(SimpleIn::Cf(p)) => r.resolve_ref(p).unpack().val,
            Some(SimpleIn::Co(p)) => r.resolve_ref(p).unpack().val,
            Some(SimpleIn::Si(p)) => r.resolve_ref(p).unpack().val,
        };
        Art::new(self.val + 2 * v)
    }
}

/// A builder known to the history.
pub struct N<AP>(pub AP);

pub trait ErrCode {
    fn code(self) -> u32;
}
impl ErrCode for u32 {
    fn code(self) -> u32 {
        self
    }
}
impl ErrCode for Never {
    fn code(self) -> u32 {
        match self {}
    }
}

/// What the history does with a builder, whatever its type.
pub trait Node {
    fn get(&self, c: &mut C, form: usize) -> Result<Seen, u32>;
    fn lookup(&self, c: &C) -> Option<Seen>;
    fn invalidate(&self, c: &mut C);
    fn purge(&self, c: &mut C);
    fn known(&self, c: &C) -> bool;
    fn get_state(&self, c: &C) -> Option<StRep>;
    fn state(&self, c: &mut C) -> StRep;
    fn set_state(&self, c: &mut C, a: i64, b: i64);
    fn id(&self) -> daab::BuilderId;
}

pub trait StateRep: 'static + Debug {
    fn rep(&self) -> StRep;
    fn set(&mut self, a: i64, b: i64);
}
impl StateRep for () {
    fn rep(&self) -> StRep {
        StRep::Unit
    }
    fn set(&mut self, _: i64, _: i64) {}
}
impl StateRep for SrcState {
    fn rep(&self) -> StRep {
        StRep::Pair(self.val, self.fail)
    }
    fn set(&mut self, a: i64, b: i64) {
        *self = SrcState { val: a, fail: b };
    }
}
impl StateRep for FnState {
    fn rep(&self) -> StRep {
        StRep::Pair(self.n, self.step)
    }
    fn set(&mut self, a: i64, b: i64) {
        *self = FnState { n: a, step: b.max(0) };
    }
}
impl StateRep for Art {
    fn rep(&self) -> StRep {
        StRep::Pair(self.val, 0)
    }
    fn set(&mut self, a: i64, _: i64) {
        self.val = a;
    }
}
impl StateRep for Option<Bin<Art>> {
    fn rep(&self) -> StRep {
        StRep::Bin(self.as_ref().map(|b| see(b)))
    }
    fn set(&mut self, a: i64, b: i64) {
        *self = if b >= 0 { None } else { Some(Bin::new(Art::new(a))) };
    }
}

impl<AP, B, E, S> Node for N<AP>
where
    AP: Promise<Builder = B, BCan = BCan>,
    B: ?Sized + Builder<ArtCan, BCan, Artifact = Art, Err = E, DynState = S> + 'static,
    BCan: Can<B>,
    ArtCan: CanSized<Art, Bin = Bin<Art>>,
    E: ErrCode + Debug + 'static,
    S: StateRep,
{
    fn get(&self, c: &mut C, form: usize) -> Result<Seen, u32> {
        match form {
            #[allow(unused)]
            1 => get_bin!(self, c),
            2 => match c.get_cloned(&self.0) {
                Ok(a) => {
                    // a clone of what is cached
                    let mut s = see(c.lookup_ref(&self.0).expect("cached after get_cloned"));
                    if a.orig != s.serial || a.val != s.val {
                        s.val = i64::MIN;
                    }
                    Ok(s)
                }
                Err(e) => Err(e.code()),
            },
            _ => c.get_ref(&self.0).map(|a| see(a)).map_err(|e| e.code()),
        }
    }
    fn lookup(&self, c: &C) -> Option<Seen> {
        c.lookup_ref(&self.0).map(|a| see(a))
    }
    fn invalidate(&self, c: &mut C) {
        c.invalidate(&self.0)
    }
    fn purge(&self, c: &mut C) {
        c.purge(&self.0)
    }
    fn known(&self, c: &C) -> bool {
        c.is_builder_known(&self.0)
    }
    fn get_state(&self, c: &C) -> Option<StRep> {
        c.get_dyn_state(&self.0).map(|s| s.rep())
    }
    fn state(&self, c: &mut C) -> StRep {
        c.dyn_state(&self.0).rep()
    }
    fn set_state(&self, c: &mut C, a: i64, b: i64) {
        c.dyn_state_mut(&self.0).set(a, b)
    }
    fn id(&self) -> daab::BuilderId {
        self.0.id()
    }
}


pub type FnP = fn(&mut FnState) -> Result<Bin<Art>, u32>;
pub type Fu = FunctionalBuilder<ArtCan, BCan, FnP, Art, FnState>;

/// The function of the functional builders: it keeps what it did to the state, also when it fails
/// or panics.
fn fun(s: &mut FnState) -> Result<Bin<Art>, u32> {
    s.n += s.step;
    if panics(s.n) {
        crate::world::inject()
    } else if s.n % 4 == 3 {
        Err(s.n as u32)
    } else {
        Ok(Bin::new(Art::new(s.n)))
    }
}

/// A function without a state; it counts its runs by itself.
pub type FnU = Box<dyn Fn(&mut ()) -> Result<Bin<Art>, u32> + Send + Sync>;
pub type Fs = FunctionalBuilder<ArtCan, BCan, FnU, Art>;
fn stateless(id: u32, val: i64) -> FnU {
    let n = std::sync::atomic::AtomicI64::new(val);
    Box::new(move |_| {
        built(id);
        let v = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
        if panics(v) {
            crate::world::inject()
        } else if v % 4 == 3 {
            Err(v as u32)
        } else {
            Ok(Bin::new(Art::new(v)))
        }
    })
}

/// What can be wrapped; the static type decides which wrappers fit.
pub enum H {
    Src(Bp<Source>),
    Fl(Bp<FlavSource>),
    Fun(Bp<Fu>),
    FunS(Bp<Fs>),
    ClS(Bp<ClonedBuilder<Bp<Source>>>),
    FwS(FwS),
    E(DynE),
    Cf(Bp<Cf>),
    Co(Bp<Co>),
    Si(Bp<Simple>),
    FwCf(FwCf),
    Nv(DynN),
    Rd(RdS),
    RdD(DynR),
}

type Made = (Option<H>, Box<dyn Node>);

/// Matches the builders that can fail and those that cannot.
macro_rules! by_err {
    ($h:expr, $p:ident, $e:expr, $n:expr) => {
        match $h {
            H::Src($p) => $e,
            H::Fl($p) => $e,
            H::Fun($p) => $e,
            H::FunS($p) => $e,
            H::ClS($p) => $e,
            H::FwS($p) => $e,
            H::E($p) => $e,
            H::Cf($p) => $n,
            H::Co($p) => $n,
            H::Si($p) => $n,
            H::FwCf($p) => $n,
            H::Nv($p) => $n,
            H::Rd($p) => $n,
            H::RdD($p) => $n,
        }
    };
}

fn wrap(kind: Kind, h: &H, default: Option<Bin<Art>>) -> Option<Made> {
    match kind {
        Kind::Cloned => Some(match h {
            H::Src(p) => {
                let b = Bp::new(ClonedBuilder::new::<ArtCan, BCan, _>(p.clone()));
                (Some(H::ClS(b.clone())), Box::new(N(b)))
            }
            h => by_err!(
                h,
                p,
                {
                    let b = Bp::new(ClonedBuilder::new::<ArtCan, BCan, _>(p.clone()));
                    (erase_e!(b.clone()), Box::new(N(b)))
                },
                {
                    let b = Bp::new(ClonedBuilder::new::<ArtCan, BCan, _>(p.clone()));
                    (erase_n!(b.clone()), Box::new(N(b)))
                }
            ),
        }),
        Kind::Fwd => if_clone!({
            Some(match h {
                H::Src(p) => {
                    let b = Bp::new(ForwardingBuilder::new::<ArtCan, BCan, _>(p.clone()));
                    (Some(H::FwS(b.clone())), Box::new(N(b)))
                }
                H::Cf(p) => {
                    let b = Bp::new(ForwardingBuilder::new::<ArtCan, BCan, _>(p.clone()));
                    (Some(H::FwCf(b.clone())), Box::new(N(b)))
                }
                h => by_err!(
                    h,
                    p,
                    {
                        let b = Bp::new(ForwardingBuilder::new::<ArtCan, BCan, _>(p.clone()));
                        (erase_e!(b.clone()), Box::new(N(b)))
                    },
                    {
                        let b = Bp::new(ForwardingBuilder::new::<ArtCan, BCan, _>(p.clone()));
                        (erase_n!(b.clone()), Box::new(N(b)))
                    }
                ),
            })
        }),
        Kind::Feign => if_clone!({
            macro_rules! feign {
                ($p:expr) => {{
                    let b = Bp::new(FeigningBuilder::<_, u32>::new::<ArtCan, BCan, _>($p.clone()));
                    Some((erase_e!(b.clone()), Box::new(N(b)) as Box<dyn Node>))
                }};
            }
            match h {
                H::Cf(p) => feign!(p),
                H::Co(p) => feign!(p),
                H::Si(p) => feign!(p),
                H::FwCf(p) => feign!(p),
                H::Rd(p) => feign!(p),
                _ => None,
            }
        }),
        Kind::Redeem => if_clone!({
            Some(match h {
                H::Src(p) => {
                    let b = Bp::new(RedeemingBuilder::new::<ArtCan, BCan, _, Art>(p.clone(), default));
                    (Some(H::Rd(b.clone())), Box::new(N(b)))
                }
                h => by_err!(
                    h,
                    p,
                    {
                        let b = Bp::new(RedeemingBuilder::new::<ArtCan, BCan, _, Art>(p.clone(), default));
                        (erase_r!(b.clone()), Box::new(N(b)))
                    },
                    {
                        let b = Bp::new(RedeemingBuilder::new::<ArtCan, BCan, _, Art>(p.clone(), default));
                        (erase_r!(b.clone()), Box::new(N(b)))
                    }
                ),
            })
        }),
        _ => None,
    }
}

pub fn run(src: &mut Src, cfg: &CaseCfg, prof: &Prof) -> CaseOut {
    let mut m = Machine {
        nodes: vec![],
        hs: vec![],
        mk: vec![],
        caches: vec![],
        ms: vec![],
        cells: Cells::default(),
        out: CaseOut::default(),
        trace: cfg.want_trace,
        stats: Stats::default(),
    };
    begin();
    let nc = 1 + src.below(prof.caches);
    for _ in 0..nc {
        m.caches.push(C::new());
        m.ms.push(Cm::default());
    }
    let n = 4 + src.below(prof.max_ops);
    for _ in 0..n {
        if src.exhausted() {
            break;
        }
        src.begin();
        let f = m.step(src, prof);
        src.end();
        m.out.ops += 1;
        if let Err(e) = f {
            m.out.fail = Some(e);
            break;
        }
    }
    let mut o = m.out;
    o.nontrivial = (prof.nontrivial)(&m.stats);
    m.stats.label(&mut o);
    o
}

struct Machine {
    nodes: Vec<Option<Box<dyn Node>>>,
    hs: Vec<Option<H>>,
    mk: Vec<ModelNode>,
    caches: Vec<C>,
    ms: Vec<Cm>,
    cells: Cells,
    out: CaseOut,
    trace: bool,
    stats: Stats,
}

impl Machine {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            self.out.trace.push_str(&f());
            self.out.trace.push('\n');
        }
    }

    fn step(&mut self, src: &mut Src, prof: &Prof) -> Result<(), String> {
        let held: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].is_some()).collect();
        let op = if held.len() < 2 { 0 } else { src.weighted(&prof.ops) };
        let op = if op == 0 && held.len() >= 2 && self.nodes.len() >= prof.max_nodes { 1 } else { op };
        self.out.key = mix(self.out.key, op as u64);
        if op == 0 {
            return self.make(src, prof);
        }
        let mut n = held[src.below(held.len())];
        let c = src.below(self.caches.len());
        if prof.focus {
            // often at a redeeming builder, or at what it redeems
            let r = held.iter().copied().rev().find(|i| self.mk[*i].kind == Kind::Redeem);
            if let (Some(r), true) = (r, src.chance(2, 3)) {
                let i = self.mk[r].inner.unwrap();
                if op != 10 {
                    n = if op == 5 && self.nodes[i].is_some() { i } else { r };
                }
            }
        }
        self.out.key = mix(self.out.key, (n * 8 + c) as u64);
        begin();
        match op {
            1 | 2 => {
                let form = src.below(3);
                let want = self.ms[c].get(n, &self.mk, &mut self.cells, &mut self.stats, CLONE_CAN);
                let (node, cache) = (self.nodes[n].as_ref().unwrap(), &mut self.caches[c]);
                let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| node.get(cache, form)));
                self.say(|| format!("cache {}: get {} (form {}) -> {:?}, the model says {:?}", c, n, form, got.as_ref().map_err(|_| ()), want));
                match (got, want) {
                    (Ok(Ok(s)), Ok(())) => {
                        let cell = self.ms[c].art[&n];
                        self.cells.observe(cell, s).map_err(|e| format!("get of builder {}: {}", n, e))?;
                    }
                    (Ok(Err(e)), Err(Fail::Err(w))) if e == w => {}
                    (Err(_), Err(Fail::Panic)) => {}
                    (g, w) => {
                        return Err(format!(
                            "get of builder {} in cache {} gave {:?} instead of {:?}{}",
                            n,
                            c,
                            g.as_ref().map_err(|_| "a panic"),
                            w,
                            if g.is_err() { format!(" ({})", last_panic()) } else { String::new() }
                        ))
                    }
                }
                let runs = end();
                if runs != self.ms[c].runs {
                    return Err(format!("the request ran the source builders {:?} instead of {:?}", runs, self.ms[c].runs));
                }
            }
            3 => {
                self.say(|| format!("cache {}: invalidate {}", c, n));
                self.nodes[n].as_ref().unwrap().invalidate(&mut self.caches[c]);
                let d = self.ms[c].invalidate(n, &self.mk);
                self.stats.dependents += d;
            }
            4 => {
                self.say(|| format!("cache {}: purge {}", c, n));
                self.nodes[n].as_ref().unwrap().purge(&mut self.caches[c]);
                let d = self.ms[c].invalidate(n, &self.mk);
                self.stats.dependents += d;
                self.ms[c].st.remove(&n);
            }
            5 => {
                let a = src.below(6) as i64;
                let b = if src.chance(1, 2) { -1 } else { src.below(4) as i64 };
                self.say(|| format!("cache {}: dyn_state_mut {} := ({}, {})", c, n, a, b));
                self.nodes[n].as_ref().unwrap().set_state(&mut self.caches[c], a, b);
                let d = self.ms[c].invalidate(n, &self.mk);
                self.stats.dependents += d;
                self.ms[c].set(n, a, b, &self.mk, &mut self.cells);
                self.stats.writes += 1;
            }
            6 => {
                let s = self.nodes[n].as_ref().unwrap().state(&mut self.caches[c]);
                self.say(|| format!("cache {}: dyn_state {} -> {:?}", c, n, s));
                self.ms[c].ensure(n, &self.mk);
                self.state_is(c, n, Some(s))?;
            }
            7 => {
                self.say(|| format!("cache {}: clear_artifacts", c));
                self.caches[c].clear_artifacts();
                self.ms[c].art.clear();
            }
            8 => {
                self.say(|| format!("cache {}: clear_all", c));
                self.caches[c].clear_all();
                self.ms[c].art.clear();
                self.ms[c].st.clear();
            }
            10 => {
                self.say(|| format!("drop the handle of {}", n));
                self.nodes[n] = None;
                self.hs[n] = None;
                if self.alive()[n] {
                    self.stats.kept += 1;
                }
            }
            _ => {
                // until nothing changes any more
                self.say(|| format!("cache {}: garbage_collection", c));
                let mut k = usize::MAX;
                while self.caches[c].number_of_known_builders() < k {
                    k = self.caches[c].number_of_known_builders();
                    self.caches[c].garbage_collection();
                }
                let alive = self.alive();
                let before = self.ms[c].st.len();
                self.ms[c].st.retain(|i, _| alive[*i]);
                self.ms[c].art.retain(|i, _| alive[*i]);
                self.stats.collected += (before - self.ms[c].st.len()) as u64;
            }
        }
        let runs = end();
        if !runs.is_empty() {
            return Err(format!("the call ran the source builders {:?}", runs));
        }
        self.compare()
    }

    fn state_is(&mut self, c: usize, n: usize, got: Option<StRep>) -> Result<(), String> {
        let want = self.ms[c].st.get(&n).copied();
        match (want, got) {
            (None, None) => Ok(()),
            (Some(MSt::Unit), Some(StRep::Unit)) => Ok(()),
            (Some(MSt::Pair(a, b)), Some(StRep::Pair(x, y))) if (a, b) == (x, y) => Ok(()),
            (Some(MSt::Cell(None)), Some(StRep::Bin(None))) => Ok(()),
            (Some(MSt::Cell(Some(k))), Some(StRep::Bin(Some(s)))) => {
                self.cells.observe(k, s).map_err(|e| format!("state of builder {}: {}", n, e))
            }
            (w, g) => Err(format!("the state of builder {} in cache {} is {:?} instead of {:?}", n, c, g, w)),
        }
    }

    /// The builders that a handle or another such builder holds.
    fn alive(&self) -> Vec<bool> {
        let mut a: Vec<bool> = self.nodes.iter().map(|n| n.is_some()).collect();
        for o in (0..a.len()).rev() {
            if let (true, Some(i)) = (a[o], self.mk[o].inner) {
                a[i] = true;
            }
        }
        a
    }

    /// Everything observable of every cache is as the model says.
    fn compare(&mut self) -> Result<(), String> {
        for c in 0..self.caches.len() {
            let (k, want) = (self.caches[c].number_of_known_builders(), self.ms[c].st.len());
            if k != want {
                return Err(format!("cache {} knows {} builders instead of {}", c, k, want));
            }
            for n in 0..self.nodes.len() {
                let node = match &self.nodes[n] {
                    Some(node) => node,
                    None => continue,
                };
                if node.known(&self.caches[c]) != self.ms[c].st.contains_key(&n) {
                    return Err(format!("builder {} of cache {} is known, or is not, against expectation", n, c));
                }
                let got = node.lookup(&self.caches[c]);
                match (self.ms[c].art.get(&n).copied(), got) {
                    (None, None) => {}
                    (Some(k), Some(s)) => {
                        self.cells.observe(k, s).map_err(|e| format!("lookup of builder {} in cache {}: {}", n, c, e))?
                    }
                    (Some(_), None) => return Err(format!("cache {} lost the artifact of builder {}", c, n)),
                    (None, Some(s)) => return Err(format!("cache {} has the stale artifact {:?} of builder {}", c, s, n)),
                }
                let st = node.get_state(&self.caches[c]);
                self.state_is(c, n, st)?;
            }
        }
        Ok(())
    }

    fn make(&mut self, src: &mut Src, prof: &Prof) -> Result<(), String> {
        let id = self.nodes.len();
        let wrappable: Vec<usize> = (0..id).filter(|i| self.hs[*i].is_some()).collect();
        let mut k = KINDS[src.weighted(if wrappable.is_empty() { &prof.bases } else { &prof.kinds })];
        let val = src.below(5) as i64;
        let mut inner = None;
        let mut default = None;
        let mut made: Option<Made> = None;
        if !k.base() {
            let i = wrappable[src.below(wrappable.len())];
            let d = if src.chance(1, 2) { Some(Bin::new(Art::new(100 + val))) } else { None };
            let seen = d.as_ref().map(|b| see(b));
            made = wrap(k, self.hs[i].as_ref().unwrap(), if k == Kind::Redeem { d } else { None });
            if made.is_none() {
                // this wrapper does not exist for that builder or flavour
                k = Kind::Cloned;
                made = wrap(k, self.hs[i].as_ref().unwrap(), None);
            }
            if k == Kind::Redeem {
                default = seen.map(|s| self.cells.known(s));
            }
            inner = Some(i);
        }
        let viafrom = src.chance(1, 2);
        let mut fixed = None;
        let (h, node): Made = match made {
            Some(m) => m,
            None => match k {
                Kind::Src => {
                    let b = Bp::new(Source(id as u32));
                    (Some(H::Src(b.clone())), Box::new(N(b)))
                }
                Kind::Flav => {
                    let b = Bp::new(FlavSource(id as u32));
                    (Some(H::Fl(b.clone())), Box::new(N(b)))
                }
                Kind::Simple => {
                    let of: Vec<usize> =
                        (0..id).filter(|i| matches!(self.hs[*i], Some(H::Cf(_)) | Some(H::Co(_)) | Some(H::Si(_)))).collect();
                    let mut h = None;
                    if !of.is_empty() && src.chance(3, 4) {
                        let i = of[src.below(of.len())];
                        inner = Some(i);
                        h = match self.hs[i].as_ref().unwrap() {
                            H::Cf(p) => Some(SimpleIn::Cf(p.clone())),
                            H::Co(p) => Some(SimpleIn::Co(p.clone())),
                            H::Si(p) => Some(SimpleIn::Si(p.clone())),
                            _ => unreachable!(),
                        };
                    }
                    let b = Bp::new(Simple { id: id as u32, val, inner: h });
                    (Some(H::Si(b.clone())), Box::new(N(b)))
                }
                Kind::Fun => {
                    let b = Bp::new(Fu::with_state(FnState { n: val, step: 1 }, fun as FnP));
                    (Some(H::Fun(b.clone())), Box::new(N(b)))
                }
                Kind::Stateless => {
                    let b = Bp::new(Fs::new(stateless(id as u32, val)));
                    (Some(H::FunS(b.clone())), Box::new(N(b)))
                }
                Kind::Cfg => {
                    let a = Art::new(val);
                    let b: Bp<Cf> = if viafrom { a.into() } else { Bp::new(Cf::new(a)) };
                    (Some(H::Cf(b.clone())), Box::new(N(b)))
                }
                _ => {
                    let a = Art::new(val);
                    let b: Bp<Co> = if viafrom {
                        let s = Seen { serial: a.serial, val, ptr: 0, orig: a.orig };
                        fixed = Some(self.cells.known(s));
                        a.into()
                    } else {
                        let bin = Bin::new(a);
                        fixed = Some(self.cells.known(see(&bin)));
                        Bp::new(Co::new(bin))
                    };
                    (Some(H::Co(b.clone())), Box::new(N(b)))
                }
            },
        };
        self.out.key = mix(self.out.key, mix(k as u64, inner.map_or(99, |i| i as u64)) ^ val as u64);
        self.say(|| format!("builder {}: {:?} over {:?}, value {}, default {}", id, k, inner, val, default.is_some()));
        self.stats.kinds |= 1 << (k as u32);
        if inner.map_or(false, |i| !self.mk[i].kind.base()) {
            self.stats.stacked += 1;
        }
        self.mk.push(ModelNode { kind: k, inner, val, default, fixed, count: Default::default() });
        self.nodes.push(Some(node));
        self.hs.push(h);
        Ok(())
    }
}
