//! C27: builders that are produced by builders (feature `unsized`, nightly).
use crate::pbt::{last_panic, mix, CaseCfg, CaseOut, Source};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// What the instrumented builders report.
#[derive(Default)]
pub struct World {
    /// The value of every produced builder (leaf), in the order of their making.
    made: Vec<i64>,
    dropped: Vec<usize>,
    super_runs: Vec<usize>,
    leaf_runs: Vec<usize>,
    arts: u64,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SKind {
    /// Produces a fresh builder.
    Fresh,
    /// Produces the very builder another super builder produced.
    Same,
    /// Produces a builder that resolves the one another super builder produced.
    Over,
}

#[derive(Clone, Debug)]
pub struct SState {
    pub val: i64,
    pub fail: bool,
}

/// An artifact of a produced builder.
#[derive(Clone, PartialEq)]
pub struct Art {
    pub leaf: usize,
    pub val: i64,
    pub serial: u64,
}
impl std::fmt::Debug for Art {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if crate::pbt::opaque() {
            return f.write_str("Art");
        }
        write!(f, "Art {} #{} of {}", self.val, self.serial, self.leaf)
    }
}

struct SbM {
    kind: SKind,
    sized: bool,
    inner: Option<usize>,
}
struct LeafM {
    val: i64,
    inner: Option<usize>,
}
/// Model of a super cache.
#[derive(Default)]
struct Sup {
    art: BTreeMap<usize, usize>,
    st: BTreeMap<usize, SState>,
}
impl Sup {
    fn ensure(&mut self, n: usize) {
        self.st.entry(n).or_insert(SState { val: n as i64, fail: false });
    }
    fn get(&mut self, n: usize, sbs: &[SbM], leaves: &mut Vec<LeafM>, runs: &mut Vec<usize>) -> Result<usize, String> {
        if let Some(l) = self.art.get(&n) {
            return Ok(*l);
        }
        self.ensure(n);
        runs.push(n);
        let st = self.st[&n].clone();
        if st.fail {
            return Err(format!("failure {}", n));
        }
        let inner = match sbs[n].inner {
            None => None,
            Some(i) => Some((self.get(i, sbs, leaves, runs)?, sbs[i].sized)),
        };
        let l = match (sbs[n].kind, inner) {
            (SKind::Same, Some((l, z))) if z == sbs[n].sized => l,
            (SKind::Over, Some((l, true))) => {
                leaves.push(LeafM { val: st.val, inner: Some(l) });
                leaves.len() - 1
            }
            _ => {
                leaves.push(LeafM { val: st.val, inner: None });
                leaves.len() - 1
            }
        };
        self.art.insert(n, l);
        Ok(l)
    }
    fn invalidate(&mut self, n: usize, sbs: &[SbM]) {
        self.art.remove(&n);
        for o in n + 1..sbs.len() {
            let mut i = sbs[o].inner;
            while let Some(k) = i {
                if k == n {
                    self.art.remove(&o);
                    break;
                }
                i = sbs[k].inner;
            }
        }
    }
}

/// Model of an ordinary cache.
#[derive(Default)]
struct Ordn {
    /// The value, and the artifact's serial number once it was seen.
    art: BTreeMap<usize, (i64, Option<u64>)>,
    st: BTreeMap<usize, i64>,
    known: BTreeSet<usize>,
}
impl Ordn {
    fn get(&mut self, l: usize, leaves: &[LeafM], runs: &mut Vec<usize>) -> i64 {
        if let Some((v, _)) = self.art.get(&l) {
            return *v;
        }
        self.known.insert(l);
        runs.push(l);
        let mut v = leaves[l].val + *self.st.entry(l).or_insert(0);
        if let Some(i) = leaves[l].inner {
            v += self.get(i, leaves, runs) * 10;
        }
        self.art.insert(l, (v, None));
        v
    }
    fn invalidate(&mut self, l: usize, leaves: &[LeafM]) {
        self.art.remove(&l);
        for o in l + 1..leaves.len() {
            let mut i = leaves[o].inner;
            while let Some(k) = i {
                if k == l {
                    self.art.remove(&o);
                    break;
                }
                i = leaves[k].inner;
            }
        }
    }
}

fn see(o: &mut Ordn, l: usize, a: &Art) -> Result<(), String> {
    let (v, s) = o.art.get_mut(&l).ok_or("artifact not expected")?;
    if a.leaf != l || a.val != *v || s.map_or(false, |s| s != a.serial) {
        return Err(format!("the artifact {:?} should be of builder #{} with value {} and serial {:?}", a, l, v, s));
    }
    *s = Some(a.serial);
    Ok(())
}

macro_rules! flavour {
    ($name:ident, $can:ty, $bin:ident, [$($mark:tt)*]) => {
        pub mod $name {
            use super::*;
            use daab::blueprint::{Blueprint, BlueprintUnsized};
            use daab::cache::{CacheOwned, Resolver};
            use daab::canning::*;
            use daab::Builder;
            #[allow(unused_imports)]
            use std::{any::Any, rc::Rc, sync::Arc};
            type BC = $can;
            type SC = BuilderArtifact<BC>;
            type Bp<B> = Blueprint<B, BC>;
            type Bpu<B> = BlueprintUnsized<B, BC>;
            type DynSb = dyn Builder<SC, BC, Artifact = Bp<Leaf>, DynState = SState, Err = String> $($mark)*;
            type DynLeaf = dyn Builder<BC, BC, Artifact = Art, DynState = i64, Err = daab::Never> $($mark)*;

            /// A produced builder.
            pub struct Leaf {
                id: usize,
                val: i64,
                inner: Option<Bp<Leaf>>,
            }
            impl std::fmt::Debug for Leaf {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    if crate::pbt::opaque() {
                        return f.write_str("Leaf");
                    }
                    f.debug_struct("Leaf").field("id", &self.id).field("val", &self.val).field("inner", &self.inner).finish()
                }
            }
            #[derive(Debug)]
            pub struct Other(#[allow(unused)] i64);
            impl Leaf {
                fn make(val: i64, inner: Option<Bp<Leaf>>) -> Leaf {
                    let id = w(|w| {
                        w.made.push(val);
                        w.made.len() - 1
                    });
                    Leaf { id, val, inner }
                }
            }
            impl Drop for Leaf {
                fn drop(&mut self) {
                    let _ = W.try_with(|w| w.borrow_mut().dropped.push(self.id));
                }
            }
            impl Builder<BC, BC> for Leaf {
                type Artifact = Art;
                type DynState = i64;
                type Err = daab::Never;
                fn build(&self, r: &mut Resolver<BC, BC, i64>) -> Result<$bin<Art>, daab::Never> {
                    w(|w| w.leaf_runs.push(self.id));
                    let mut val = self.val + *r.my_state();
                    if let Some(i) = &self.inner {
                        val += r.resolve_ref(i)?.val * 10;
                    }
                    let serial = w(|w| {
                        w.arts += 1;
                        w.arts
                    });
                    Ok($bin::new(Art { leaf: self.id, val, serial }))
                }
                fn init_dyn_state(&self) -> i64 {
                    0
                }
            }

            /// A super builder whose artifact is a `Blueprint`; and one with `BlueprintUnsized`.
            #[derive(Debug)]
            pub struct Sb {
                id: usize,
                kind: SKind,
                inner: Option<H>,
            }
            #[derive(Debug)]
            pub struct Sbu(Sb);
            /// A handle of a super builder.
            #[derive(Clone, Debug)]
            pub enum H {
                S(Bp<Sb>),
                SU(Bpu<Sb>),
                SD(Bpu<DynSb>),
                U(Bp<Sbu>),
                UU(Bpu<Sbu>),
            }
            /// A handle of a produced builder.
            #[derive(Clone, Debug)]
            pub enum L {
                S(Bp<Leaf>),
                U(Bpu<Leaf>),
                D(Bpu<DynLeaf>),
            }
            macro_rules! each_h {
                ($h:expr, $b:ident, $e:expr) => {
                    match $h {
                        H::S($b) => $e,
                        H::SU($b) => $e,
                        H::SD($b) => $e,
                        H::U($b) => $e,
                        H::UU($b) => $e,
                    }
                };
            }
            macro_rules! each_l {
                ($h:expr, $b:ident, $e:expr) => {
                    match $h {
                        L::S($b) => $e,
                        L::U($b) => $e,
                        L::D($b) => $e,
                    }
                };
            }
            macro_rules! produced {
                ($h:expr, $x:ident . $f:ident) => {
                    match $h {
                        H::S(b) => $x.$f(b).map(L::S),
                        H::SU(b) => $x.$f(b).map(L::S),
                        H::SD(b) => $x.$f(b).map(L::S),
                        H::U(b) => $x.$f(b).map(L::U),
                        H::UU(b) => $x.$f(b).map(L::U),
                    }
                };
            }
            impl L {
                fn id(&self) -> daab::BuilderId {
                    each_l!(self, b, b.id())
                }
                fn vary(self, form: usize) -> L {
                    match (self, form) {
                        (L::S(b), 1) => L::U(b.into()),
                        (L::S(b), 2) => L::D(b.into_unsized()),
                        (L::U(b), 2) => L::D(b.into_unsized()),
                        (h, _) => h,
                    }
                }
            }
            impl Sb {
                fn produce(&self, r: &mut Resolver<SC, BC, SState>, sized: bool) -> Result<L, String> {
                    w(|w| w.super_runs.push(self.id));
                    let st = r.my_state().clone();
                    if st.fail {
                        return Err(format!("failure {}", self.id));
                    }
                    let inner = match &self.inner {
                        None => None,
                        Some(h) => Some(produced!(h, r.resolve)?),
                    };
                    let l = match (self.kind, inner) {
                        (SKind::Same, Some(e)) if matches!(e, L::S(_)) == sized => return Ok(e),
                        (SKind::Over, Some(L::S(b))) => Leaf::make(st.val, Some(b)),
                        _ => Leaf::make(st.val, None),
                    };
                    // (the bin of a produced builder is the blueprint itself)
                    Ok(if sized {
                        L::S(<SC as CanSized<Bp<Leaf>>>::into_bin(Bp::new(l)))
                    } else {
                        L::U(<SC as CanSized<Bpu<Leaf>>>::into_bin(Bpu::new(l)))
                    })
                }
            }
            impl Builder<SC, BC> for Sb {
                type Artifact = Bp<Leaf>;
                type DynState = SState;
                type Err = String;
                fn build(&self, r: &mut Resolver<SC, BC, SState>) -> Result<Bp<Leaf>, String> {
                    match self.produce(r, true)? {
                        L::S(b) => Ok(b),
                        _ => unreachable!(),
                    }
                }
                fn init_dyn_state(&self) -> SState {
                    SState { val: self.id as i64, fail: false }
                }
            }
            impl Builder<SC, BC> for Sbu {
                type Artifact = Bpu<Leaf>;
                type DynState = SState;
                type Err = String;
                fn build(&self, r: &mut Resolver<SC, BC, SState>) -> Result<Bpu<Leaf>, String> {
                    match self.0.produce(r, false)? {
                        L::U(b) => Ok(b),
                        _ => unreachable!(),
                    }
                }
                fn init_dyn_state(&self) -> SState {
                    SState { val: self.0.id as i64, fail: false }
                }
            }

            struct M {
                sbs: Vec<SbM>,
                hs: Vec<H>,
                sups: Vec<(CacheOwned<SC, BC>, Sup)>,
                ords: Vec<(CacheOwned<BC, BC>, Ordn)>,
                leaves: Vec<LeafM>,
                held: Vec<(usize, L)>,
                out: CaseOut,
                want: bool,
                replaced: u64,
                used: u64,
                kept: u64,
            }

            pub fn run(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
                W.with(|w| *w.borrow_mut() = World::default());
                let mut m = M {
                    sbs: vec![],
                    hs: vec![],
                    sups: vec![],
                    ords: vec![],
                    leaves: vec![],
                    held: vec![],
                    out: CaseOut::default(),
                    want: cfg.want_trace,
                    replaced: 0,
                    used: 0,
                    kept: 0,
                };
                m.say(|| format!("cans: {}", stringify!($can)));
                for _ in 0..1 + src.below(2) {
                    m.sups.push((CacheOwned::new(), Sup::default()));
                }
                for _ in 0..1 + src.below(2) {
                    m.ords.push((CacheOwned::default(), Ordn::default()));
                }
                let n = src.length(4, if cfg.thorough { 100 } else { 36 }, 600);
                for _ in 0..n {
                    if src.exhausted() {
                        break;
                    }
                    src.begin();
                    let r = m.step(src).and_then(|_| m.audit());
                    src.end();
                    m.out.ops += 1;
                    if let Err(e) = r {
                        m.out.fail = Some(e);
                        break;
                    }
                }
                if m.out.fail.is_none() {
                    m.held.clear();
                    m.sups.clear();
                    if let Err(e) = m.audit() {
                        m.out.fail = Some(format!("after dropping the super caches: {}", e));
                    }
                }
                m.out.nontrivial = m.replaced > 0 && m.used > 1;
                for (l, k) in [("replaced", m.replaced), ("used in an ordinary cache", m.used), ("kept alive by a super cache", m.kept)] {
                    if k > 0 {
                        m.out.labels.push(l);
                    }
                }
                m.out
            }

            impl M {
                fn say(&mut self, f: impl FnOnce() -> String) {
                    if self.want {
                        let s = f();
                        self.out.trace.push_str(&s);
                        self.out.trace.push('\n');
                    }
                }

                fn step(&mut self, src: &mut Source) -> Result<(), String> {
                    let op = if self.hs.is_empty() { 0 } else { src.weighted(&[3, 10, 4, 5, 2, 1, 8, 5, 3, 4, 3, 3]) };
                    self.out.key = mix(self.out.key, op as u64);
                    if op == 0 && self.hs.len() < 6 {
                        return self.make(src);
                    }
                    let n = src.below(self.hs.len());
                    let c = src.below(self.sups.len());
                    let o = src.below(self.ords.len());
                    self.out.key = mix(self.out.key, (n * 4 + c * 2 + o) as u64);
                    let h = self.hs[n].clone();
                    w(|w| {
                        w.super_runs.clear();
                        w.leaf_runs.clear();
                    });
                    let (mut sruns, mut lruns) = (vec![], vec![]);
                    match op {
                        // a request of a produced builder
                        0 | 1 => {
                            let (cache, model) = &mut self.sups[c];
                            let old = model.art.get(&n).copied();
                            let before = self.leaves.len();
                            let want = model.get(n, &self.sbs, &mut self.leaves, &mut sruns);
                            let got = produced!(&h, cache.get);
                            self.say(|| format!("super cache {}: get {} -> {:?} should be {:?}", c, n, got, want));
                            match (got, want) {
                                (Ok(l), Ok(k)) => {
                                    // every handle of the same produced builder is the same
                                    for (j, x) in &self.held {
                                        if (*j == k) != (x.id() == l.id()) {
                                            return Err(format!("the request of super builder {} should give #{}: {:?}; #{} is {:?}", n, k, l, j, x));
                                        }
                                    }
                                    let v = self.leaves[k].val;
                                    if old.is_none() && before < self.leaves.len() {
                                        self.replaced += self.held.iter().any(|(j, _)| *j < before) as u64;
                                    }
                                    // it refers to what was produced: as shown by a cache of its own
                                    let mut fresh = CacheOwned::<BC, BC>::new();
                                    let a = each_l!(&l, b, fresh.get_ref(b).map(|a| a.clone())).unwrap_or_else(|e| match e {});
                                    if a.leaf != k || (self.leaves[k].inner.is_none() && a.val != v) {
                                        return Err(format!("the request of super builder {} should give #{}, but it builds {:?}", n, k, a));
                                    }
                                    w(|w| w.leaf_runs.clear());
                                    let form = src.below(3);
                                    self.held.push((k, l.vary(form)));
                                }
                                (Err(e), Err(f)) if e == f => {}
                                (g, k) => return Err(format!("the request of super builder {} gave {:?} instead of {:?}", n, g, k)),
                            }
                        }
                        // lookup
                        2 => {
                            let (cache, model) = &self.sups[c];
                            let got = match &h {
                                H::S(b) => cache.lookup(b).map(L::S),
                                H::SU(b) => cache.lookup(b).map(L::S),
                                H::SD(b) => cache.lookup(b).map(L::S),
                                H::U(b) => cache.lookup(b).map(L::U),
                                H::UU(b) => cache.lookup(b).map(L::U),
                            };
                            let want = model.art.get(&n).copied();
                            match (got, want) {
                                (None, None) => {}
                                (Some(l), Some(k)) => {
                                    for (j, x) in &self.held {
                                        if (*j == k) != (x.id() == l.id()) {
                                            return Err(format!("lookup of super builder {} should give #{}: {:?}; #{} is {:?}", n, k, l, j, x));
                                        }
                                    }
                                }
                                (g, k) => return Err(format!("lookup of super builder {} gave {:?} instead of {:?}", n, g, k)),
                            }
                        }
                        // drop what super builders produced
                        3 => {
                            self.say(|| format!("super cache {}: invalidate {}", c, n));
                            let (cache, model) = &mut self.sups[c];
                            each_h!(&h, b, cache.invalidate(b));
                            model.invalidate(n, &self.sbs);
                        }
                        4 => {
                            let val = src.below(5) as i64;
                            let fail = src.chance(1, 4);
                            self.say(|| format!("super cache {}: state {} := {}, fail {}", c, n, val, fail));
                            let (cache, model) = &mut self.sups[c];
                            each_h!(&h, b, *cache.dyn_state_mut(b) = SState { val, fail });
                            model.invalidate(n, &self.sbs);
                            model.st.insert(n, SState { val, fail });
                        }
                        5 => {
                            let (cache, model) = &mut self.sups[c];
                            match src.below(4) {
                                0 => cache.garbage_collection(),
                                1 => {
                                    cache.clear_artifacts();
                                    model.art.clear();
                                }
                                2 => {
                                    each_h!(&h, b, cache.purge(b));
                                    model.invalidate(n, &self.sbs);
                                    model.st.remove(&n);
                                }
                                _ => {
                                    cache.clear_all();
                                    *model = Sup::default();
                                }
                            }
                            self.say(|| format!("super cache {}: collected, cleared or purged {}", c, n));
                        }
                        // use of produced builders
                        _ if self.held.is_empty() => {}
                        _ => {
                            let i = src.below(self.held.len());
                            self.out.key = mix(self.out.key, i as u64);
                            let (k, l) = self.held[i].clone();
                            let (cache, model) = &mut self.ords[o];
                            match op {
                                6 => {
                                    let v = model.get(k, &self.leaves, &mut lruns);
                                    let a = each_l!(&l, b, cache.get(b)).unwrap_or_else(|e| match e {});
                                    see(model, k, &a).map_err(|e| format!("get of #{}: {}", k, e))?;
                                    self.used += 1;
                                    self.say(|| format!("cache {}: get #{} -> {}", o, k, v));
                                }
                                7 => {
                                    let got = each_l!(&l, b, cache.lookup_ref(b)).cloned();
                                    if got.is_some() != model.art.contains_key(&k) {
                                        return Err(format!("lookup of #{} gave {:?} instead of {:?}", k, got, model.art.get(&k)));
                                    }
                                    if let Some(a) = got {
                                        see(model, k, &a).map_err(|e| format!("lookup of #{}: {}", k, e))?;
                                    }
                                }
                                8 => {
                                    each_l!(&l, b, cache.invalidate(b));
                                    model.invalidate(k, &self.leaves);
                                    self.say(|| format!("cache {}: invalidate #{}", o, k));
                                }
                                9 => {
                                    let x = src.below(5) as i64;
                                    each_l!(&l, b, *cache.dyn_state_mut(b) = x);
                                    model.invalidate(k, &self.leaves);
                                    model.st.insert(k, x);
                                    model.known.insert(k);
                                    self.say(|| format!("cache {}: state #{} := {}", o, k, x));
                                }
                                10 => {
                                    self.held.swap_remove(i);
                                    drop(l);
                                    self.say(|| format!("drop a handle of #{}", k));
                                }
                                _ => {
                                    drop(l);
                                    self.can_laws(i)?;
                                    self.say(|| format!("cache {}: collect", o));
                                    let alive = self.alive();
                                    let (cache, model) = &mut self.ords[o];
                                    loop {
                                        let n = cache.number_of_known_builders();
                                        cache.garbage_collection();
                                        if cache.number_of_known_builders() == n {
                                            break;
                                        }
                                    }
                                    let dead: Vec<usize> = model.known.iter().copied().filter(|k| !alive.contains(k)).collect();
                                    for k in dead {
                                        model.known.remove(&k);
                                        model.st.remove(&k);
                                        model.art.remove(&k);
                                    }
                                }
                            }
                        }
                    }
                    let (s, l) = w(|w| (w.super_runs.clone(), w.leaf_runs.clone()));
                    if s != sruns {
                        return Err(format!("the call ran the super builders {:?} instead of {:?}", s, sruns));
                    }
                    if l != lruns {
                        return Err(format!("the call ran the produced builders {:?} instead of {:?}", l, lruns));
                    }
                    Ok(())
                }

                fn make(&mut self, src: &mut Source) -> Result<(), String> {
                    let id = self.hs.len();
                    let inner = if id > 0 && src.chance(2, 3) { Some(src.below(id)) } else { None };
                    let kind = match inner {
                        None => SKind::Fresh,
                        Some(_) => [SKind::Over, SKind::Same, SKind::Fresh][src.below(3)],
                    };
                    let sized = src.chance(2, 3);
                    let form = src.below(3);
                    self.say(|| format!("super builder {}: {:?} over {:?}, {}", id, kind, inner, if sized { "Blueprint" } else { "BlueprintUnsized" }));
                    self.out.key = mix(self.out.key, (kind as u64) << 8 | inner.map_or(9, |i| i as u64) << 4 | sized as u64);
                    let b = Sb { id, kind, inner: inner.map(|i| self.hs[i].clone()) };
                    let h = if sized {
                        let b = Bp::new(b);
                        match form {
                            0 => H::S(b),
                            1 => H::SU(b.into()),
                            _ => H::SD(b.into_unsized()),
                        }
                    } else {
                        match form {
                            0 => H::U(Bp::new(Sbu(b))),
                            _ => H::UU(Bpu::new(Sbu(b))),
                        }
                    };
                    self.sbs.push(SbM { kind, sized, inner });
                    self.hs.push(h);
                    Ok(())
                }

                /// A produced builder survives being canned and uncanned as an artifact.
                fn can_laws(&mut self, i: usize) -> Result<(), String> {
                    match self.held[i].1.clone() {
                        L::S(b) => {
                            let p = <SC as Can<Bp<Leaf>>>::bin_as_ptr(&b) as usize;
                            let id = b.id();
                            let c = <SC as CanSized<Bp<Leaf>>>::from_bin(b);
                            let q = c.can_as_ptr() as *const () as usize;
                            if <SC as CanSized<Bp<Other>>>::downcast_can(c.clone()).is_some() {
                                return Err("a can of a produced builder can be taken for another type".into());
                            }
                            match <SC as CanSized<Bp<Leaf>>>::downcast_can(c) {
                                Some(b) if b.id() == id && p == q => {}
                                r => return Err(format!("canning {:?} at {:#x} gives a can at {:#x} and {:?}", id, p, q, r)),
                            }
                        }
                        L::U(b) => {
                            let p = <SC as Can<Bpu<Leaf>>>::bin_as_ptr(&b) as usize;
                            let id = b.id();
                            let c = <SC as CanSized<Bpu<Leaf>>>::from_bin(b);
                            let q = c.can_as_ptr() as *const () as usize;
                            if <SC as CanSized<Bpu<Other>>>::downcast_can(c.clone()).is_some() {
                                return Err("a can of a produced builder can be taken for another type".into());
                            }
                            match <SC as CanSized<Bpu<Leaf>>>::downcast_can(c) {
                                Some(b) if b.id() == id && p == q => {}
                                r => return Err(format!("canning {:?} at {:#x} gives a can at {:#x} and {:?}", id, p, q, r)),
                            }
                        }
                        L::D(_) => {}
                    }
                    Ok(())
                }

                /// The produced builders that a handle can reach.
                fn alive(&self) -> BTreeSet<usize> {
                    let mut a = BTreeSet::new();
                    let roots = self.held.iter().map(|h| h.0).chain(self.sups.iter().flat_map(|s| s.1.art.values().copied()));
                    for r in roots {
                        let mut i = Some(r);
                        while let Some(k) = i {
                            a.insert(k);
                            i = self.leaves[k].inner;
                        }
                    }
                    a
                }

                fn audit(&mut self) -> Result<(), String> {
                    let made = w(|w| w.made.clone());
                    if made != self.leaves.iter().map(|l| l.val).collect::<Vec<_>>() {
                        return Err(format!("{} builders were produced instead of {}", made.len(), self.leaves.len()));
                    }
                    let alive = self.alive();
                    let dropped = w(|w| w.dropped.clone());
                    for k in 0..self.leaves.len() {
                        let d = dropped.iter().filter(|x| **x == k).count();
                        if d != !alive.contains(&k) as usize {
                            return Err(format!("produced builder #{} was dropped {} times and should {}", k, d,
                                if alive.contains(&k) { "be alive" } else { "have been dropped" }));
                        }
                    }
                    if alive.iter().any(|k| !self.held.iter().any(|h| h.0 == *k)) {
                        self.kept += 1;
                    }
                    for (o, (cache, model)) in self.ords.iter().enumerate() {
                        if cache.number_of_known_builders() != model.known.len() {
                            return Err(format!("cache {} knows {} builders instead of {}", o, cache.number_of_known_builders(), model.known.len()));
                        }
                        for (k, l) in &self.held {
                            let got = each_l!(l, b, cache.lookup_ref(b)).map(|a| a.val);
                            let want = model.art.get(k).map(|a| a.0);
                            if got != want {
                                return Err(format!("cache {} has {:?} for #{} instead of {:?}", o, got, k, want));
                            }
                            let got = each_l!(l, b, cache.get_dyn_state(b)).copied();
                            if got != model.st.get(k).copied() {
                                return Err(format!("cache {} has the state {:?} for #{} instead of {:?}", o, got, k, model.st.get(k)));
                            }
                        }
                    }
                    for (c, (cache, model)) in self.sups.iter().enumerate() {
                        for (n, h) in self.hs.iter().enumerate() {
                            let got = match h {
                                H::S(b) => cache.lookup(b).is_some(),
                                H::SU(b) => cache.lookup(b).is_some(),
                                H::SD(b) => cache.lookup(b).is_some(),
                                H::U(b) => cache.lookup(b).is_some(),
                                H::UU(b) => cache.lookup(b).is_some(),
                            };
                            if got != model.art.contains_key(&n) {
                                return Err(format!("super cache {}: super builder {} has {} artifact", c, n, if got { "an" } else { "no" }));
                            }
                            let st = each_h!(h, b, cache.get_dyn_state(b)).cloned();
                            if st.as_ref().map(|s| (s.val, s.fail)) != model.st.get(&n).map(|s| (s.val, s.fail)) {
                                return Err(format!("super cache {}: super builder {} has the state {:?} instead of {:?}", c, n, st, model.st.get(&n)));
                            }
                        }
                    }
                    Ok(())
                }
            }
        }
    };
}

flavour!(rc, Rc<dyn Any>, Rc, []);
flavour!(arc, Arc<dyn Any + Send + Sync>, Arc, [+ Send + Sync]);

pub fn c27(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let _ = last_panic;
    crate::pbt::set_opaque(src.chance(1, 3));
    match src.below(2) {
        0 => rc::run(src, cfg),
        _ => arc::run(src, cfg),
    }
}
