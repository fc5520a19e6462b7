// Included once per can flavour (see `flavors.rs`); the surrounding module supplies
// `ArtCan`, `BCan`, the `if_*!` switches and `impl_b!` / `impl_c!`.

use crate::world::*;
use daab::blueprint::{Blueprint, Promise};
#[allow(unused_imports)]
use daab::canning::{Can, CanRef, CanSized};
use daab::cache::Resolver;
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Bin<T> = <ArtCan as Can<T>>::Bin;

fn mk_bin<T>(t: T) -> Bin<T>
where
    ArtCan: CanSized<T>,
{
    <ArtCan as CanSized<T>>::into_bin(t)
}

// ---- artifacts ----

#[derive(Clone)]
pub struct Bps(pub Vec<Bp>);
// Worlds never leave their thread; the markers are only here to fit the Arc flavours.
unsafe impl Send for Bps {}
unsafe impl Sync for Bps {}

#[derive(Clone)]
pub struct Kept(pub Vec<KeptArt>);
unsafe impl Send for Kept {}
unsafe impl Sync for Kept {}

#[allow(dead_code)]
#[derive(Clone)]
pub enum KeptArt {
    A(Bin<ArtA>),
    B(Bin<ArtB>),
    C(Bin<ArtC>),
}

macro_rules! def_art {
    ($art:ident, $kind:expr, $pad:ty) => {
        #[allow(dead_code)]
        #[derive(Clone)]
        pub struct $art {
            pad: $pad,
            owner: Uid,
            val: u64,
            bps: Bps,
            arts: Kept,
            tok: ATok,
        }
        impl $art {
            fn make(owner: Uid, o: Outcome<Bp, KeptArt>) -> Self {
                let holds_b = o.keep_bp.iter().map(|b| b.uid).collect();
                let holds_a = o.keep_art.iter().map(|a| a.serial()).collect();
                w(|w| w.art_holds.insert(o.serial, (holds_b, holds_a)));
                $art {
                    pad: Default::default(),
                    owner,
                    val: o.val,
                    bps: Bps(o.keep_bp),
                    arts: Kept(o.keep_art),
                    tok: ATok::new(o.serial),
                }
            }
        }
        impl fmt::Debug for $art {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                if crate::pbt::opaque() {
                    return f.write_str(stringify!($art));
                }
                write!(f, "{}#{}", stringify!($art), self.tok.serial)
            }
        }
        impl ArtInfo for $art {
            fn art_obs(&self) -> ArtObs {
                ArtObs {
                    serial: self.tok.serial,
                    val: self.val,
                    owner: self.owner,
                    kind: $kind,
                    clone: self.tok.clone,
                    addr: self as *const $art as usize,
                }
            }
        }
    };
}
def_art!(ArtA, Kind::A, ());
def_art!(ArtB, Kind::B, [u64; 3]);
def_art!(ArtC, Kind::C, u8);

impl KeptArt {
    fn serial(&self) -> u64 {
        match self {
            KeptArt::A(b) => AsRef::<ArtA>::as_ref(b).tok.serial,
            KeptArt::B(b) => AsRef::<ArtB>::as_ref(b).tok.serial,
            KeptArt::C(b) => AsRef::<ArtC>::as_ref(b).tok.serial,
        }
    }
}

// ---- errors ----

macro_rules! def_err {
    ($err:ident, $kind:expr) => {
        pub struct $err {
            eid: u64,
            code: u64,
            owner: Uid,
            #[allow(dead_code)]
            tok: ETok,
        }
        impl $err {
            fn make(owner: Uid, code: u64) -> Self {
                let eid = w(|w| {
                    w.next_err += 1;
                    w.next_err
                });
                $err { eid, code, owner, tok: ETok::new() }
            }
        }
        impl fmt::Debug for $err {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                if crate::pbt::opaque() {
                    return f.write_str(stringify!($err));
                }
                write!(f, "{}#{}", stringify!($err), self.eid)
            }
        }
        impl ErrInfo for $err {
            fn err_obs(&self) -> ErrObs {
                ErrObs { eid: self.eid, code: self.code, owner: self.owner, kind: $kind }
            }
        }
    };
}
def_err!(ErrA, Kind::A);
def_err!(ErrB, Kind::B);

// ---- dynamic states ----

pub trait StLike {
    fn obs(&self) -> StObs;
    fn ctl(&self, sp: &NodeSpec) -> StCore;
    fn extra(&self) -> Option<Bp>;
    fn touch(&mut self, _f: &mut dyn FnMut(&mut StCore)) -> bool {
        false
    }
    fn apply(&mut self, _e: &Edit, _extra: Option<Option<Bp>>) {}
}

impl StLike for () {
    fn obs(&self) -> StObs {
        StObs::Unit
    }
    fn ctl(&self, sp: &NodeSpec) -> StCore {
        StCore { gen: 0, add: sp.add, sel: sp.sel, fail_at: NONE8, panic_at: sp.panic_at, ctr: 0 }
    }
    fn extra(&self) -> Option<Bp> {
        None
    }
}

macro_rules! def_st {
    ($st:ident, $pad:ty) => {
        #[allow(dead_code)]
        pub struct $st {
            pad: $pad,
            core: StCore,
            extra: Bps,
            tok: STok,
        }
        impl $st {
            fn init(uid: Uid) -> Self {
                if w(|w| w.ext_init.contains(&uid)) {
                    log(Ev::InitPanic { uid });
                    inject();
                }
                let sp = spec(uid);
                let gen = w(|w| {
                    w.next_gen += 1;
                    w.next_gen
                });
                let core = StCore {
                    gen,
                    add: sp.add,
                    sel: sp.sel,
                    fail_at: sp.fail_at,
                    panic_at: sp.panic_at,
                    ctr: 0,
                };
                log(Ev::Init { uid, st: StSnap { core: core.clone(), extra: None } });
                $st { pad: Default::default(), core, extra: Bps(vec![]), tok: STok::new(gen) }
            }
        }
        impl fmt::Debug for $st {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                if crate::pbt::opaque() {
                    return f.write_str(stringify!($st));
                }
                write!(f, "{}#{}", stringify!($st), self.tok.0)
            }
        }
        impl StLike for $st {
            fn obs(&self) -> StObs {
                StObs::Snap(StSnap { core: self.core.clone(), extra: self.extra.0.first().map(|b| b.uid) })
            }
            fn ctl(&self, _sp: &NodeSpec) -> StCore {
                self.core.clone()
            }
            fn extra(&self) -> Option<Bp> {
                self.extra.0.first().cloned()
            }
            fn touch(&mut self, f: &mut dyn FnMut(&mut StCore)) -> bool {
                f(&mut self.core);
                true
            }
            fn apply(&mut self, e: &Edit, extra: Option<Option<Bp>>) {
                if let Some(v) = e.add {
                    self.core.add = v;
                }
                if let Some(v) = e.sel {
                    self.core.sel = v;
                }
                if let Some(v) = e.fail_at {
                    self.core.fail_at = v;
                }
                if let Some(v) = e.panic_at {
                    self.core.panic_at = v;
                }
                if let Some(x) = extra {
                    self.extra.0 = x.into_iter().collect();
                }
            }
        }
    };
}
def_st!(StA, ());
def_st!(StB, [u32; 5]);

// ---- builders ----

macro_rules! def_node {
    ($node:ident, $pad:ty) => {
        #[allow(dead_code)]
        pub struct $node {
            pad: $pad,
            uid: Uid,
            deps: Bps,
            tok: BTok,
        }
        impl $node {
            fn make(uid: Uid, deps: Vec<Bp>) -> Self {
                $node { pad: Default::default(), uid, deps: Bps(deps), tok: BTok::new(uid) }
            }
        }
        impl fmt::Debug for $node {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                if crate::pbt::opaque() {
                    return f.write_str(stringify!($node));
                }
                write!(f, "{}#{}", stringify!($node), self.uid)
            }
        }
    };
}
def_node!(NodeA, ());
def_node!(NodeA2, u64);
def_node!(NodeB, [u64; 2]);
def_node!(NodeC, u16);

macro_rules! impl_generic {
    ($node:ident, $art:ident, $st:ident, $err:ident) => {
        impl daab::Builder<ArtCan, BCan> for $node {
            type Artifact = $art;
            type DynState = $st;
            type Err = $err;
            fn build(&self, r: &mut Resolver<ArtCan, BCan, $st>) -> Result<Bin<$art>, $err> {
                fallible!(self, r, $art, $err)
            }
            fn init_dyn_state(&self) -> $st {
                $st::init(self.uid)
            }
        }
    };
}
macro_rules! fallible {
    ($self:ident, $r:ident, $art:ident, $err:ident) => {{
        let (g, out) = run_build($self.uid, &$self.deps.0, $r);
        match out {
            Ok(o) => {
                let (serial, val) = (o.serial, o.val);
                let b = mk_bin($art::make($self.uid, o));
                g.finish(BuildRes::Ok { serial, val });
                Ok(b)
            }
            Err(code) => {
                let e = $err::make($self.uid, code);
                g.finish(BuildRes::Err { eid: e.eid, code });
                Err(e)
            }
        }
    }};
}
macro_rules! infallible {
    ($self:ident, $r:ident) => {{
        let (g, out) = run_build($self.uid, &$self.deps.0, $r);
        match out {
            Ok(o) => {
                let (serial, val) = (o.serial, o.val);
                let a = ArtC::make($self.uid, o);
                g.finish(BuildRes::Ok { serial, val });
                a
            }
            Err(_) => unreachable!("infallible builders swallow"),
        }
    }};
}
impl_generic!(NodeA, ArtA, StA, ErrA);
impl_generic!(NodeA2, ArtA, StA, ErrA);
impl_b!();
impl_c!();

#[derive(Clone)]
pub struct Bp {
    pub uid: Uid,
    pub form: Form,
}

if_dyn! {
    #[cfg(feature = "unsized")]
    type DynA = dyn daab::Builder<ArtCan, BCan, Artifact = ArtA, Err = ErrA, DynState = StA>;
}
if_not_dyn! {
    // Arc builder cans want Send + Sync trait objects
    #[cfg(feature = "unsized")]
    type DynA = dyn daab::Builder<ArtCan, BCan, Artifact = ArtA, Err = ErrA, DynState = StA> + Send + Sync;
}

#[allow(dead_code)]
#[derive(Clone)]
pub enum Form {
    A(Blueprint<NodeA, BCan>),
    A2(Blueprint<NodeA2, BCan>),
    B(Blueprint<NodeB, BCan>),
    C(Blueprint<NodeC, BCan>),
    Dyn(DynBp),
    #[cfg(feature = "unsized")]
    UA(daab::blueprint::BlueprintUnsized<NodeA, BCan>),
    #[cfg(feature = "unsized")]
    UB(daab::blueprint::BlueprintUnsized<NodeB, BCan>),
    #[cfg(feature = "unsized")]
    UDyn(daab::blueprint::BlueprintUnsized<DynA, BCan>),
}

if_dyn! {
    type DynBp = daab::blueprint::BlueprintDyn<ArtCan, BCan, ArtA, ErrA, StA>;
}
if_not_dyn! {
    type DynBp = Blueprint<NodeA, BCan>;
}

/// Evaluates `$body` with `$p` bound to the concrete blueprint.
macro_rules! with_bp {
    ($form:expr, $p:ident => $body:expr) => {
        match $form {
            Form::A($p) => $body,
            Form::A2($p) => $body,
            Form::B($p) => $body,
            Form::C($p) => $body,
            Form::Dyn($p) => $body,
            #[cfg(feature = "unsized")]
            Form::UA($p) => $body,
            #[cfg(feature = "unsized")]
            Form::UB($p) => $body,
            #[cfg(feature = "unsized")]
            Form::UDyn($p) => $body,
        }
    };
}

/// Same, with `$k` bound to the `KeptArt` constructor of its artifact type.
#[allow(unused_macros)]
macro_rules! with_bp_kept {
    ($form:expr, $p:ident, $k:ident => $body:expr) => {
        match $form {
            Form::A($p) => { let $k = KeptArt::A; $body }
            Form::A2($p) => { let $k = KeptArt::A; $body }
            Form::B($p) => { let $k = KeptArt::B; $body }
            Form::C($p) => { let $k = KeptArt::C; $body }
            Form::Dyn($p) => { let $k = KeptArt::A; $body }
            #[cfg(feature = "unsized")]
            Form::UA($p) => { let $k = KeptArt::A; $body }
            #[cfg(feature = "unsized")]
            Form::UB($p) => { let $k = KeptArt::B; $body }
            #[cfg(feature = "unsized")]
            Form::UDyn($p) => { let $k = KeptArt::A; $body }
        }
    };
}

fn to_res<A: ArtInfo + ?Sized, E: ErrInfo>(r: Result<&A, E>) -> Res {
    match r {
        Ok(a) => Res::Ok(a.art_obs()),
        Err(e) => Res::Err(e.err_obs()),
    }
}

fn do_resolve<S: 'static>(user: Uid, bp: &Bp, mode: u8, r: &mut Resolver<ArtCan, BCan, S>) -> (Res, Option<KeptArt>) {
    let g = ResGuard::start(user, bp.uid, mode);
    let out: (Res, Option<KeptArt>) = match mode {
        #[allow(unreachable_patterns)]
        0 if CLONE_CAN => {
            if_clone! {
                with_bp_kept!(&bp.form, p, k => match r.resolve(p) {
                    Ok(b) => (Res::Ok(b.as_ref().art_obs()), Some(k(b))),
                    Err(e) => (Res::Err(e.err_obs()), None),
                })
            }
            if_not_clone! { unreachable!() }
        }
        2 => with_bp!(&bp.form, p => match r.resolve_cloned(p) {
            Ok(a) => (Res::Ok(a.art_obs()), None),
            Err(e) => (Res::Err(e.err_obs()), None),
        }),
        _ => with_bp!(&bp.form, p => (to_res(r.resolve_ref(p)), None)),
    };
    g.finish(out.0.clone());
    out
}

/// The body of every programmable builder.
fn run_build<S: StLike + 'static>(
    uid: Uid,
    deps: &[Bp],
    r: &mut Resolver<ArtCan, BCan, S>,
) -> (BuildGuard, Result<Outcome<Bp, KeptArt>, u64>) {
    let st0 = r.my_state().obs();
    let g = BuildGuard::start(uid, st0);
    let sp = spec(uid);
    let ctl = r.my_state().ctl(&sp);
    let (ef, ep) = ext(uid);
    let can_fail = sp.kind != Kind::C;
    let mut acc = val_start(sp.base, ctl.add);
    let mut keep_bp = vec![];
    let mut keep_art = vec![];
    let out_of_fuel = w(|w| w.fuel_out);
    for i in 0..=sp.steps.len() {
        if ctl.panic_at as usize == i || ep as usize == i {
            inject();
        }
        if can_fail && (ctl.fail_at as usize == i || ef as usize == i) {
            return (g, Err(code_own(sp.base, i)));
        }
        if i == sp.steps.len() || out_of_fuel || (ctl.sel >> (i % 32)) & 1 == 0 {
            continue;
        }
        match &sp.steps[i] {
            Step::Res { dep, mode, swallow, keep, catch } => {
                let bp = &deps[*dep];
                let got = if *catch {
                    match catch_unwind(AssertUnwindSafe(|| do_resolve(uid, bp, *mode, r))) {
                        Ok(x) => Some(x),
                        Err(p) => {
                            if p.downcast_ref::<Injected>().is_none() {
                                std::panic::resume_unwind(p);
                            }
                            None
                        }
                    }
                } else {
                    Some(do_resolve(uid, bp, *mode, r))
                };
                match got {
                    None => acc = val_panic(acc, i),
                    Some((Res::Ok(a), k)) => {
                        acc = val_ok(acc, i, a.val);
                        if *keep {
                            keep_art.extend(k);
                        }
                    }
                    Some((Res::Err(e), _)) => {
                        if *swallow || !can_fail {
                            acc = val_err(acc, i, e.code);
                        } else {
                            return (g, Err(code_prop(sp.base, e.code)));
                        }
                    }
                    Some((Res::Panicked, _)) => unreachable!(),
                }
            }
            Step::ResExtra { mode, swallow } => {
                if let Some(bp) = r.my_state().extra() {
                    match do_resolve(uid, &bp, *mode, r).0 {
                        Res::Ok(a) => acc = val_ok(acc, i, a.val),
                        Res::Err(e) => {
                            if *swallow || !can_fail {
                                acc = val_err(acc, i, e.code);
                            } else {
                                return (g, Err(code_prop(sp.base, e.code)));
                            }
                        }
                        Res::Panicked => unreachable!(),
                    }
                }
            }
            Step::Pool { k, mode, swallow } => {
                let bp = POOL.with(|p| p.borrow().get(*k).cloned().flatten());
                // (only older ones: no builder may come to depend upon itself)
                if let Some(bp) = bp.filter(|b| b.uid < uid) {
                    match do_resolve(uid, &bp, *mode, r).0 {
                        Res::Ok(a) => acc = val_ok(acc, i, a.val),
                        Res::Err(e) => {
                            if *swallow || !can_fail {
                                acc = val_err(acc, i, e.code);
                            } else {
                                return (g, Err(code_prop(sp.base, e.code)));
                            }
                        }
                        Res::Panicked => unreachable!(),
                    }
                }
            }
            Step::Mutate | Step::Count => {
                let m = sp.steps[i] == Step::Mutate;
                let st = r.my_state();
                let ok = st.touch(&mut |c| {
                    if m {
                        c.add = crate::pbt::mix(c.add, 77);
                    } else {
                        c.ctr += 1;
                    }
                });
                if ok {
                    if let StObs::Snap(s) = r.my_state().obs() {
                        log(Ev::StWrite { uid, st: s });
                    }
                }
            }
            Step::Foreign { cache, dep, act } => {
                if !w(|w| w.no_foreign) {
                    foreign(uid, *cache, &deps[*dep], *act);
                }
            }
            Step::Read => {
                let st = r.my_state().obs();
                log(Ev::StRead { uid, st });
            }
            Step::Spawn { kind, base, keep, fails, mode } => {
                let child = w(|w| {
                    let u = w.specs.len();
                    w.specs.push(std::rc::Rc::new(NodeSpec {
                        uid: u,
                        kind: *kind,
                        base: *base,
                        deps: vec![],
                        steps: vec![],
                        add: 1,
                        sel: !0,
                        fail_at: if *fails { 0 } else { NONE8 },
                        panic_at: NONE8,
                        spawned: true,
                    }));
                    w.ids.push(None);
                    w.log.push(Ev::Spawned { by: uid, uid: u });
                    u
                });
                let bp = new_bp(child, *kind, vec![], 0);
                match do_resolve(uid, &bp, *mode, r).0 {
                    Res::Ok(a) => acc = val_ok(acc, i, a.val),
                    Res::Err(e) => acc = val_err(acc, i, e.code),
                    Res::Panicked => unreachable!(),
                }
                if *keep {
                    keep_bp.push(bp);
                }
            }
        }
    }
    let serial = w(|w| {
        w.next_serial += 1;
        w.next_serial
    });
    (g, Ok(Outcome { serial, val: acc, keep_bp, keep_art }))
}

thread_local! {
    /// The caches that are not in use while an operation on another one runs.
    static OTHERS: std::cell::RefCell<Vec<Option<TheCache>>> = std::cell::RefCell::new(vec![]);
    /// A registry of builders that builders look into while they run.
    static POOL: std::cell::RefCell<Vec<Option<Bp>>> = std::cell::RefCell::new(vec![]);
}

fn set_pool(v: Vec<Option<Bp>>) {
    let old = POOL.with(|p| std::mem::replace(&mut *p.borrow_mut(), v));
    drop(old);
}

/// Takes a cache out of `OTHERS`, and puts it back even when unwinding.
struct Borrowed {
    k: usize,
    cache: Option<TheCache>,
}
impl Borrowed {
    fn take(k: usize) -> Option<Self> {
        OTHERS
            .with(|o| o.borrow_mut().get_mut(k).and_then(|c| c.take()))
            .map(|c| Borrowed { k, cache: Some(c) })
    }
}
impl Drop for Borrowed {
    fn drop(&mut self) {
        OTHERS.with(|o| o.borrow_mut()[self.k] = self.cache.take());
    }
}

/// What a running builder does to another cache.
fn foreign(by: Uid, k: usize, bp: &Bp, act: FAct) {
    let mut lent = match Borrowed::take(k) {
        Some(l) => l,
        None => return,
    };
    let g = ForeignGuard::start(by, k, bp.uid, act);
    let cache = lent.cache.as_mut().unwrap();
    let out = match act {
        FAct::Get => FOut::Res(with_bp!(&bp.form, p => to_res(cache.get_ref(p)))),
        FAct::Lookup => FOut::Found(with_bp!(&bp.form, p => cache.lookup_ref(p).map(|a| a.art_obs()))),
        FAct::Invalidate => {
            with_bp!(&bp.form, p => cache.invalidate(p));
            FOut::Unit
        }
        FAct::Purge => {
            with_bp!(&bp.form, p => cache.purge(p));
            FOut::Unit
        }
        FAct::Write => with_bp!(&bp.form, p => {
            let st = cache.dyn_state_mut(p);
            let before = st.obs();
            st.touch(&mut |c| c.add = crate::pbt::mix(c.add, 99));
            FOut::Edited(before, st.obs())
        }),
        FAct::ClearArt => {
            cache.clear_artifacts();
            FOut::Unit
        }
        FAct::ClearAll => {
            cache.clear_all();
            FOut::Unit
        }
    };
    g.finish(out);
}

#[allow(unused_variables)]
fn new_bp(uid: Uid, kind: Kind, deps: Vec<Bp>, ctor: u8) -> Bp {
    // the ways of creating a blueprint
    macro_rules! make {
        ($node:ident, $plain:path, $uns:ident) => {
            match ctor {
                #[cfg(feature = "unsized")]
                2 => make!(@$uns new $node),
                #[cfg(feature = "unsized")]
                3 => make!(@$uns from $node),
                3 => $plain(Blueprint::from($node::make(uid, deps))),
                _ => $plain(Blueprint::new($node::make(uid, deps))),
            }
        };
        (@UA $f:ident $node:ident) => { Form::UA(daab::blueprint::BlueprintUnsized::$f($node::make(uid, deps))) };
        (@UB $f:ident $node:ident) => { Form::UB(daab::blueprint::BlueprintUnsized::$f($node::make(uid, deps))) };
        (@UD $f:ident $node:ident) => {{
            if_dyn! {
                if stringify!($f) == "new" {
                    Form::UDyn(daab::blueprint::BlueprintUnsized::<DynA, BCan>::new_unsized($node::make(uid, deps)))
                } else {
                    Form::UDyn(daab::blueprint::BlueprintUnsized::<DynA, BCan>::from_sized_bp(Blueprint::new($node::make(uid, deps))))
                }
            }
            if_not_dyn! { Form::UDyn(daab::blueprint::BlueprintUnsized::$f($node::make(uid, deps)).into_unsized::<DynA>()) }
        }};
    }
    let form = match kind {
        Kind::A => {
            if ctor == 1 {
                if_dyn! { Form::Dyn(DynBp::new(NodeA::make(uid, deps))) }
                if_not_dyn! { Form::A(Blueprint::new(NodeA::make(uid, deps))) }
            } else if ctor == 4 {
                #[cfg(feature = "unsized")]
                {
                    make!(@UD new NodeA)
                }
                #[cfg(not(feature = "unsized"))]
                {
                    Form::A(Blueprint::new(NodeA::make(uid, deps)))
                }
            } else {
                make!(NodeA, Form::A, UA)
            }
        }
        Kind::A2 => {
            if ctor == 1 {
                if_dyn! { Form::Dyn(DynBp::new(NodeA2::make(uid, deps))) }
                if_not_dyn! { Form::A2(Blueprint::new(NodeA2::make(uid, deps))) }
            } else {
                make!(NodeA2, Form::A2, UD)
            }
        }
        Kind::B => make!(NodeB, Form::B, UB),
        Kind::C => {
            if ctor == 3 {
                Form::C(Blueprint::from(NodeC::make(uid, deps)))
            } else {
                Form::C(Blueprint::new(NodeC::make(uid, deps)))
            }
        }
    };
    let id = with_bp!(&form, p => p.id());
    w(|w| w.ids[uid] = Some(id));
    Bp { uid, form }
}

fn convert(bp: Bp, form: u8) -> Bp {
    let _ = form;
    let uid = bp.uid;
    let f = match bp.form {
        Form::A(p) => {
            #[cfg(feature = "unsized")]
            {
                match form {
                    2 => return Bp { uid, form: Form::UA(p.into()) },
                    3 => return Bp { uid, form: Form::UDyn(p.into_unsized::<DynA>()) },
                    4 => {
                        let u: daab::blueprint::BlueprintUnsized<NodeA, BCan> = p.into();
                        if_dyn! {
                            if uid % 2 == 0 {
                                return Bp { uid, form: Form::UDyn(u.into()) };
                            }
                            return Bp { uid, form: Form::UDyn(daab::blueprint::BlueprintUnsized::<DynA, BCan>::from_sized(u)) };
                        }
                        if_not_dyn! { return Bp { uid, form: Form::UDyn(u.into_unsized::<DynA>()) }; }
                    }
                    _ => {}
                }
            }
            if_dyn! { if form % 2 == 0 { Form::Dyn(DynBp::from_bp(p)) } else { Form::Dyn(p.into()) } }
            if_not_dyn! { Form::A(p) }
        }
        Form::A2(p) => {
            #[cfg(feature = "unsized")]
            {
                if form >= 2 {
                    if_dyn! { return Bp { uid, form: Form::UDyn(p.into()) }; }
                    if_not_dyn! { return Bp { uid, form: Form::UDyn(p.into_unsized::<DynA>()) }; }
                }
            }
            if_dyn! { if form % 2 == 0 { Form::Dyn(DynBp::from_bp(p)) } else { Form::Dyn(p.into()) } }
            if_not_dyn! { Form::A2(p) }
        }
        Form::B(p) => {
            #[cfg(feature = "unsized")]
            {
                if form >= 2 {
                    return Bp { uid, form: Form::UB(p.into()) };
                }
            }
            Form::B(p)
        }
        #[cfg(feature = "unsized")]
        Form::Dyn(p) => {
            if_dyn! { Form::UDyn(p.into_unsized()) }
            if_not_dyn! { Form::A(p) }
        }
        #[cfg(feature = "unsized")]
        Form::UA(p) => Form::UDyn(p.into_unsized::<DynA>()),
        other => other,
    };
    Bp { uid, form: f }
}

// ---- the cache, with a recording doctor when diagnostics are on ----

#[cfg(not(feature = "diagnostics"))]
type TheCache = daab::cache::Cache<ArtCan, BCan>;
#[cfg(feature = "diagnostics")]
type TheCache = daab::cache::Cache<ArtCan, BCan, AnyDoc>;

#[cfg(not(feature = "diagnostics"))]
fn new_cache(doc: u8) -> TheCache {
    if doc % 2 == 0 {
        daab::cache::CacheOwned::<ArtCan, BCan>::new()
    } else {
        Default::default()
    }
}
#[cfg(feature = "diagnostics")]
fn new_cache(doc: u8) -> TheCache {
    daab::cache::Cache::new_with_doctor(AnyDoc::new(doc))
}

#[cfg(feature = "diagnostics")]
pub enum AnyDoc {
    Rec,
    Noop(daab::diagnostics::NoopDoctor),
    Vis(daab::diagnostics::VisgraphDoc<Vec<u8>>),
    Text(daab::diagnostics::TextualDoc<Vec<u8>>),
}

#[cfg(feature = "diagnostics")]
impl fmt::Debug for AnyDoc {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("doctor")
    }
}

#[cfg(feature = "diagnostics")]
impl AnyDoc {
    fn new(k: u8) -> Self {
        use daab::diagnostics::*;
        match k % 4 {
            0 => AnyDoc::Rec,
            1 => AnyDoc::Noop(NoopDoctor::new()),
            2 => AnyDoc::Vis(VisgraphDoc::new(
                VisgraphDocOptions { show_builder_values: true, show_artifact_values: true },
                vec![],
            )),
            _ => AnyDoc::Text(TextualDoc::new(
                TextualDocOptions {
                    show_builder_values: false,
                    show_artifact_values: true,
                    show_addresses: true,
                    ..Default::default()
                },
                vec![],
            )),
        }
    }
}

#[cfg(feature = "diagnostics")]
fn doc_uid(h: &daab::diagnostics::BuilderHandle<BCan>) -> Uid {
    let mut it = h.dbg_text.split('#');
    let name = it.next().unwrap_or("").to_string();
    let uid: Option<Uid> = it.next().and_then(|s| s.parse().ok());
    match uid {
        Some(u) => {
            let (known_id, kind) = w(|w| (w.ids[u], w.specs[u].kind));
            if known_id != Some(h.id) || h.id() != h.id {
                log(Ev::DocBad(format!("handle of {} has id {:p}, builder has {:?}", h.dbg_text, h.id, known_id)));
            }
            let want = match kind {
                Kind::A => "NodeA",
                Kind::A2 => "NodeA2",
                Kind::B => "NodeB",
                Kind::C => "NodeC",
            };
            if name != want || !(h.type_name.ends_with(want) || h.type_name.starts_with("dyn ")) {
                log(Ev::DocBad(format!("handle of {} has type name {}", h.dbg_text, h.type_name)));
            }
            u
        }
        None => {
            log(Ev::DocBad(format!("builder handle text {:?} is not the builder's Debug text", h.dbg_text)));
            usize::MAX
        }
    }
}

#[cfg(feature = "diagnostics")]
impl daab::diagnostics::Doctor<ArtCan, BCan> for AnyDoc {
    fn resolve(
        &mut self,
        b: &daab::diagnostics::BuilderHandle<BCan>,
        u: &daab::diagnostics::BuilderHandle<BCan>,
    ) {
        match self {
            AnyDoc::Rec => {
                let (user, dep) = (doc_uid(b), doc_uid(u));
                if (b == u) != (user == dep) || b != b || u != u {
                    log(Ev::DocBad(format!("handles of {} and {} compare equal = {}", user, dep, b == u)));
                }
                log(Ev::DocResolve { user, dep });
            }
            AnyDoc::Noop(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::resolve(d, b, u),
            AnyDoc::Vis(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::resolve(d, b, u),
            AnyDoc::Text(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::resolve(d, b, u),
        }
    }
    fn build(
        &mut self,
        b: &daab::diagnostics::BuilderHandle<BCan>,
        a: &daab::diagnostics::ArtifactHandle<ArtCan>,
    ) {
        match self {
            AnyDoc::Rec => {
                use daab::canning::CanBase;
                let uid = doc_uid(b);
                let mut it = a.dbg_text.split('#');
                let name = it.next().unwrap_or("").to_string();
                let serial = it.next().and_then(|s| s.parse().ok());
                let addr = a.value.can_as_ptr() as *const () as usize;
                if !a.type_name.ends_with(&name) || serial.is_none() {
                    log(Ev::DocBad(format!("artifact handle {:?} of type {:?}", a.dbg_text, a.type_name)));
                }
                log(Ev::DocBuild { uid, serial: serial.unwrap_or(0), addr });
            }
            AnyDoc::Noop(d) => d.build(b, a),
            AnyDoc::Vis(d) => d.build(b, a),
            AnyDoc::Text(d) => d.build(b, a),
        }
    }
    fn clear(&mut self) {
        match self {
            AnyDoc::Rec => log(Ev::DocClear),
            AnyDoc::Noop(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::clear(d),
            AnyDoc::Vis(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::clear(d),
            AnyDoc::Text(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::clear(d),
        }
    }
    fn invalidate(&mut self, b: &daab::diagnostics::BuilderHandle<BCan>) {
        match self {
            AnyDoc::Rec => {
                let uid = doc_uid(b);
                log(Ev::DocInvalidate { uid });
            }
            AnyDoc::Noop(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::invalidate(d, b),
            AnyDoc::Vis(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::invalidate(d, b),
            AnyDoc::Text(d) => daab::diagnostics::Doctor::<ArtCan, BCan>::invalidate(d, b),
        }
    }
}

// ---- executor ----

#[allow(dead_code)]
enum Hold {
    Bin(KeptArt),
    A(ArtA),
    B(ArtB),
    C(ArtC),
}

pub struct TheExec {
    caches: Vec<Option<TheCache>>,
    handles: Vec<Option<Bp>>,
    holds: Vec<Hold>,
    doc: u8,
}

impl TheExec {
    pub fn new(n_caches: usize, doc: u8) -> Self {
        set_pool(vec![]);
        TheExec { caches: (0..n_caches).map(|_| Some(new_cache(doc))).collect(), handles: vec![], holds: vec![], doc }
    }
    fn put(&mut self, slot: usize, bp: Bp) {
        while self.handles.len() <= slot {
            self.handles.push(None);
        }
        self.handles[slot] = Some(bp);
    }

    fn run(&mut self, op: &Op) -> (Out, Held) {
        match op {
            Op::New { uid, dep_slots, slot, ctor } => {
                let deps = dep_slots.iter().map(|s| self.handles[*s].clone().unwrap()).collect();
                let kind = spec(*uid).kind;
                let bp = new_bp(*uid, kind, deps, *ctor);
                self.put(*slot, bp);
                (Out::Unit, Held::Nothing)
            }
            Op::CloneH { from, to } => {
                let b = self.handles[*from].clone().unwrap();
                self.put(*to, b);
                (Out::Unit, Held::Nothing)
            }
            Op::Conv { from, to, form } => {
                let b = self.handles[*from].clone().unwrap();
                let b = convert(b, *form);
                self.put(*to, b);
                (Out::Unit, Held::Nothing)
            }
            Op::DropH { slot } => {
                let b = self.handles[*slot].take();
                drop(b);
                (Out::Unit, Held::Nothing)
            }
            Op::Get { c, slot, mode, hold } => {
                let bp = self.handles[*slot].as_ref().unwrap();
                let cache = self.caches[*c].as_mut().unwrap();
                match *mode {
                    0 if CLONE_CAN => {
                        if_clone! {
                            with_bp_kept!(&bp.form, p, k => match cache.get(p) {
                                Ok(b) => {
                                    let o = b.as_ref().art_obs();
                                    let s = o.serial;
                                    let mut held = Held::Nothing;
                                    if *hold {
                                        self.holds.push(Hold::Bin(k(b)));
                                        held = Held::Primary(s);
                                    }
                                    (Out::Res(Res::Ok(o)), held)
                                }
                                Err(e) => (Out::Res(Res::Err(e.err_obs())), Held::Nothing),
                            })
                        }
                        if_not_clone! { unreachable!() }
                    }
                    2 => {
                        macro_rules! cl {
                            ($p:expr, $h:path) => {
                                match cache.get_cloned($p) {
                                    Ok(a) => {
                                        let o = a.art_obs();
                                        let s = o.serial;
                                        let mut held = Held::Nothing;
                                        if *hold {
                                            self.holds.push($h(a));
                                            held = Held::CloneOf(s);
                                        }
                                        (Out::Res(Res::Ok(o)), held)
                                    }
                                    Err(e) => (Out::Res(Res::Err(e.err_obs())), Held::Nothing),
                                }
                            };
                        }
                        match &bp.form {
                            Form::A(p) => cl!(p, Hold::A),
                            Form::A2(p) => cl!(p, Hold::A),
                            Form::B(p) => cl!(p, Hold::B),
                            Form::C(p) => cl!(p, Hold::C),
                            Form::Dyn(p) => cl!(p, Hold::A),
                            #[cfg(feature = "unsized")]
                            Form::UA(p) => cl!(p, Hold::A),
                            #[cfg(feature = "unsized")]
                            Form::UB(p) => cl!(p, Hold::B),
                            #[cfg(feature = "unsized")]
                            Form::UDyn(p) => cl!(p, Hold::A),
                        }
                    }
                    _ => (Out::Res(with_bp!(&bp.form, p => to_res(cache.get_ref(p)))), Held::Nothing),
                }
            }
            Op::Lookup { c, slot, mode } => {
                let bp = self.handles[*slot].as_ref().unwrap();
                let cache = self.caches[*c].as_ref().unwrap();
                let o = match *mode {
                    0 if CLONE_CAN => {
                        if_clone! { with_bp!(&bp.form, p => cache.lookup(p).map(|b| b.as_ref().art_obs())) }
                        if_not_clone! { unreachable!() }
                    }
                    2 => with_bp!(&bp.form, p => cache.lookup_cloned(p).map(|a| a.art_obs())),
                    _ => with_bp!(&bp.form, p => cache.lookup_ref(p).map(|a| a.art_obs())),
                };
                (Out::Found(o), Held::Nothing)
            }
            Op::GetMut { c, slot, val } => {
                let _ = (c, slot, val);
                if_mut! {
                    let bp = self.handles[*slot].as_ref().unwrap();
                    let cache = self.caches[*c].as_mut().unwrap();
                    let r = with_bp!(&bp.form, p => match cache.get_mut(p) {
                        Ok(a) => { a.val = *val; Res::Ok(a.art_obs()) }
                        Err(e) => Res::Err(e.err_obs()),
                    });
                    return (Out::Res(r), Held::Nothing);
                }
                #[allow(unreachable_code)]
                {
                    unreachable!()
                }
            }
            Op::LookupMut { c, slot, val } => {
                let _ = (c, slot, val);
                if_mut! {
                    let bp = self.handles[*slot].as_ref().unwrap();
                    let cache = self.caches[*c].as_mut().unwrap();
                    let r = with_bp!(&bp.form, p => cache.lookup_mut(p).map(|a| { a.val = *val; a.art_obs() }));
                    return (Out::Found(r), Held::Nothing);
                }
                #[allow(unreachable_code)]
                {
                    unreachable!()
                }
            }
            Op::DynState { c, slot } => {
                let bp = self.handles[*slot].as_ref().unwrap();
                let cache = self.caches[*c].as_mut().unwrap();
                (Out::State(Some(with_bp!(&bp.form, p => cache.dyn_state(p).obs()))), Held::Nothing)
            }
            Op::GetDynState { c, slot } => {
                let bp = self.handles[*slot].as_ref().unwrap();
                let cache = self.caches[*c].as_ref().unwrap();
                (Out::State(with_bp!(&bp.form, p => cache.get_dyn_state(p).map(|s| s.obs()))), Held::Nothing)
            }
            Op::DynStateMut { c, slot, edit } => {
                let extra = match &edit.extra {
                    None => None,
                    Some(None) => Some(None),
                    Some(Some(s)) => Some(Some(self.handles[*s].clone().unwrap())),
                };
                let bp = self.handles[*slot].as_ref().unwrap();
                let cache = self.caches[*c].as_mut().unwrap();
                let r = with_bp!(&bp.form, p => {
                    let st = cache.dyn_state_mut(p);
                    let before = st.obs();
                    st.apply(edit, extra);
                    Out::Edited(before, st.obs())
                });
                (r, Held::Nothing)
            }
            Op::Invalidate { c, slot } => {
                let bp = self.handles[*slot].as_ref().unwrap();
                let cache = self.caches[*c].as_mut().unwrap();
                // `invalidate` takes sized builders' blueprints and trait objects alike
                with_bp!(&bp.form, p => cache.invalidate(p));
                (Out::Unit, Held::Nothing)
            }
            Op::Purge { c, slot } => {
                let bp = self.handles[*slot].as_ref().unwrap();
                let cache = self.caches[*c].as_mut().unwrap();
                with_bp!(&bp.form, p => cache.purge(p));
                (Out::Unit, Held::Nothing)
            }
            Op::ClearArt { c } => {
                self.caches[*c].as_mut().unwrap().clear_artifacts();
                (Out::Unit, Held::Nothing)
            }
            Op::ClearAll { c } => {
                self.caches[*c].as_mut().unwrap().clear_all();
                (Out::Unit, Held::Nothing)
            }
            Op::Gc { c } => {
                self.caches[*c].as_mut().unwrap().garbage_collection();
                (Out::Unit, Held::Nothing)
            }
            Op::GcFix { c } => {
                // A cycle that removes nothing may still be followed by one that does only
                // if something else changed in between; nothing does here.
                let mut cycles = 0;
                let mut last = self.caches[*c].as_mut().unwrap().number_of_known_builders();
                let mut same = 0;
                while cycles < 200 && same < 2 {
                    self.caches[*c].as_mut().unwrap().garbage_collection();
                    cycles += 1;
                    let n = self.caches[*c].as_mut().unwrap().number_of_known_builders();
                    if n == last {
                        same += 1;
                    } else {
                        same = 0;
                    }
                    last = n;
                }
                (Out::Cycles(cycles), Held::Nothing)
            }
            Op::DropCache { c } => {
                self.caches[*c] = Some(new_cache(self.doc));
                (Out::Unit, Held::Nothing)
            }
            Op::Ext { uid, fail_at, panic_at, init } => {
                w(|w| {
                    if *init {
                        w.ext_init.insert(*uid);
                    } else {
                        w.ext_init.remove(uid);
                    }
                    w.ext_fail.insert(*uid, *fail_at);
                    w.ext_panic.insert(*uid, *panic_at);
                });
                (Out::Unit, Held::Nothing)
            }
            Op::Pool { k, slot, give } => {
                let mut v = POOL.with(|p| p.borrow().clone());
                while v.len() <= *k {
                    v.push(None);
                }
                v[*k] = slot.map(|s| self.handles[s].clone().unwrap());
                if let (Some(s), true) = (slot, *give) {
                    self.handles[*s] = None;
                }
                set_pool(v);
                (Out::Unit, Held::Nothing)
            }
            Op::DropHold { i } => {
                let h = self.holds.remove(*i);
                drop(h);
                (Out::Unit, Held::Nothing)
            }
        }
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Exec for TheExec {
    fn exec(&mut self, op: &Op) -> OpRes {
        // builders that run may use the caches that are not in use themselves
        let own = crate::history::op_cache(op);
        if own.is_some() {
            let n = self.caches.len();
            let rest: Vec<Option<TheCache>> =
                (0..n).map(|k| if Some(k) == own { None } else { self.caches[k].take() }).collect();
            OTHERS.with(|o| *o.borrow_mut() = rest);
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.run(op)));
        if own.is_some() {
            let rest = OTHERS.with(|o| std::mem::take(&mut *o.borrow_mut()));
            for (k, c) in rest.into_iter().enumerate() {
                if c.is_some() {
                    self.caches[k] = c;
                }
            }
        }
        match r {
            Ok((out, held)) => OpRes { out, held },
            Err(p) => {
                if p.downcast_ref::<Injected>().is_some() {
                    OpRes { out: Out::Injected, held: Held::Nothing }
                } else {
                    OpRes { out: Out::Panic(crate::pbt::last_panic()), held: Held::Nothing }
                }
            }
        }
    }

    fn observe(&mut self, c: usize, deep: bool, full: bool) -> CacheObs {
        let cache = self.caches[c].as_ref().unwrap();
        let mut o = CacheObs { count: cache.number_of_known_builders(), handles: vec![] };
        if deep {
            let _ = format!("{:?}", cache);
        }
        if !full {
            return o;
        }
        for (slot, h) in self.handles.iter().enumerate() {
            if let Some(bp) = h {
                let mut ho = with_bp!(&bp.form, p => HandleObs {
                    slot,
                    uid: bp.uid,
                    known: cache.is_builder_known(p),
                    art: cache.lookup_ref(p).map(|a| a.art_obs()),
                    st: cache.get_dyn_state(p).map(|s| s.obs()),
                    clash: None,
                });
                if deep {
                    let cl = with_bp!(&bp.form, p => cache.lookup_cloned(p).map(|a| a.art_obs()));
                    let a = cl.as_ref().map(|x| (x.serial, x.val, x.owner, x.kind));
                    let b = ho.art.as_ref().map(|x| (x.serial, x.val, x.owner, x.kind));
                    if a != b {
                        ho.clash = Some(format!("lookup_cloned gives {:?}, lookup_ref {:?}", a, b));
                    }
                    if let Some(x) = &cl {
                        if !x.clone {
                            ho.clash = Some("lookup_cloned handed out the artifact itself".into());
                        }
                    }
                    if_clone! {
                        let bn = with_bp!(&bp.form, p => cache.lookup(p).map(|b| b.as_ref().art_obs()));
                        if bn != ho.art {
                            ho.clash = Some(format!("lookup gives {:?}, lookup_ref {:?}", bn, ho.art));
                        }
                    }
                }
                o.handles.push(ho);
            }
        }
        o
    }

    fn identity(&mut self) -> Option<String> {
        let live: Vec<&Bp> = self.handles.iter().filter_map(|h| h.as_ref()).collect();
        for x in &live {
            let want = w(|w| w.ids[x.uid]);
            let id = with_bp!(&x.form, p => p.id());
            if Some(id) != want {
                return Some(format!("builder {} had id {:?}, a handle of it now says {:?}", x.uid, want, id));
            }
            // the id as the blueprint prints it
            let text = with_bp!(&x.form, p => format!("{:?}", p));
            if !text.contains(&format!("{:p}", id)) {
                return Some(format!("Debug of the blueprint of {} is {:?}, id {:p}", x.uid, text, id));
            }
            let h = with_bp!(&x.form, p => hash_of(p));
            if h != hash_of(&id) {
                return Some(format!("hash of the blueprint of {} is not the hash of its id", x.uid));
            }
            // (that of a trait object may have its metadata next to the address)
            let ptr = with_bp!(&x.form, p => format!("{:p}", *p));
            if !ptr.contains(&format!("{:p}", id)) {
                return Some(format!("the blueprint of {} prints as {:?}, its id as {:p}", x.uid, ptr, id));
            }
            // Promise::id agrees with the inherent id
            let pid = with_bp!(&x.form, p => Promise::id(p));
            if pid != id {
                return Some(format!("Promise::id of {} is {:?}, id() is {:?}", x.uid, pid, id));
            }
        }
        for (i, x) in live.iter().enumerate() {
            for y in &live[i..] {
                let (ix, iy) = (with_bp!(&x.form, p => p.id()), with_bp!(&y.form, p => p.id()));
                if (ix == iy) != (ix.cmp(&iy) == std::cmp::Ordering::Equal) || ix.cmp(&iy) != iy.cmp(&ix).reverse() {
                    return Some(format!("ids {:?} and {:?} are not ordered consistently", ix, iy));
                }
                if (ix == iy) != (x.uid == y.uid) {
                    return Some(format!("handles of builders {} and {}: ids equal = {}", x.uid, y.uid, ix == iy));
                }
                let eq = match (&x.form, &y.form) {
                    (Form::A(p), Form::A(q)) => Some(p == q),
                    (Form::A2(p), Form::A2(q)) => Some(p == q),
                    (Form::B(p), Form::B(q)) => Some(p == q),
                    (Form::C(p), Form::C(q)) => Some(p == q),
                    (Form::Dyn(p), Form::Dyn(q)) => Some(p == q),
                    #[cfg(feature = "unsized")]
                    (Form::UA(p), Form::UA(q)) => Some(p == q),
                    #[cfg(feature = "unsized")]
                    (Form::UB(p), Form::UB(q)) => Some(p == q),
                    #[cfg(feature = "unsized")]
                    (Form::UDyn(p), Form::UDyn(q)) => Some(p == q),
                    _ => None,
                };
                if let Some(eq) = eq {
                    if eq != (x.uid == y.uid) {
                        return Some(format!("handles of builders {} and {} compare equal = {}", x.uid, y.uid, eq));
                    }
                }
            }
        }
        None
    }

    fn slot_uid(&self, slot: usize) -> Option<Uid> {
        self.handles.get(slot).and_then(|h| h.as_ref()).map(|b| b.uid)
    }
    fn can_share(&self) -> bool {
        CLONE_CAN
    }
    fn has_mut(&self) -> bool {
        #[allow(unused_mut, unused_assignments)]
        let mut m = false;
        if_mut! { m = true; }
        m
    }
    fn has_dyn(&self) -> bool {
        #[allow(unused_mut, unused_assignments)]
        let mut m = false;
        if_dyn! { m = true; }
        m
    }
    fn forms(&self) -> u8 {
        if cfg!(feature = "unsized") {
            5
        } else {
            2
        }
    }
    fn teardown(&mut self) {
        set_pool(vec![]);
        self.caches.clear();
        self.handles.clear();
        self.holds.clear();
    }
    fn name(&self) -> &'static str {
        FLAVOR
    }
}
