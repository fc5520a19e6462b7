//! Histories over builders of many types: artifacts, states and errors that are zero-sized, over-aligned, large,
//! owning, or themselves type-erased. The graphs are small and the builders plain; for the history properties, in a
//! share of the cases.
use crate::pbt::{last_panic, mix, mix_str, CaseCfg, CaseOut, Source};
use std::any::Any;
use std::cell::RefCell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct World {
    ran: Vec<usize>,
    inits: Vec<usize>,
    fails: Vec<bool>,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

/// Types made of a number, of which they keep as much as they can.
pub trait Val: Debug + 'static {
    const ANY: bool = true;
    fn of(v: u64) -> Self;
    fn digest(&self) -> u64;
}
macro_rules! val {
    ($t:ty, $v:pat => $of:expr, $s:ident => $d:expr) => {
        impl Val for $t {
            fn of($v: u64) -> Self {
                $of
            }
            fn digest(&self) -> u64 {
                let $s = self;
                $d
            }
        }
    };
}
#[derive(Debug, Clone)]
pub struct Big([u64; 40]);
#[derive(Debug, Clone)]
#[repr(align(128))]
pub struct Al(u64);
#[derive(Debug, Clone)]
#[repr(align(64))]
pub struct Zal;
val!((), _ => (), _s => 0);
val!(u8, v => v as u8, s => *s as u64);
val!(bool, v => v & 1 == 1, s => *s as u64);
val!(String, v => if v % 4 == 0 { String::new() } else { v.to_string() }, s => mix_str(3, s));
val!(Box<str>, v => v.to_string().into(), s => mix_str(4, s));
val!(Big, v => Big([v; 40]), s => s.0.iter().fold(0, |a, x| mix(a, *x)));
val!(Al, v => Al(v), s => mix(s.0, (s as *const Al as usize % 128) as u64));
val!(Zal, _ => Zal, s => (s as *const Zal as usize % 64) as u64);
val!(Vec<u64>, v => vec![v; (v % 3) as usize], s => s.iter().fold(7, |a, x| mix(a, *x)));
val!(Box<u64>, v => Box::new(v), s => **s);
val!(Option<u64>, v => if v % 2 == 0 { None } else { Some(v) }, s => s.unwrap_or(1 << 40));
val!(Box<dyn Any>, v => Box::new(v), s => any(s.as_ref()));
val!(std::rc::Rc<dyn Any>, v => std::rc::Rc::new(v), s => any(s.as_ref()));
val!(std::sync::Arc<dyn Any + Send + Sync>, v => std::sync::Arc::new(v), s => any(s.as_ref() as &dyn Any));
fn any(a: &dyn Any) -> u64 {
    a.downcast_ref::<u64>().map(|v| mix(*v, 1)).unwrap_or(0)
}
impl Val for daab::Never {
    const ANY: bool = false;
    fn of(_: u64) -> Self {
        unreachable!("a builder that cannot fail was to fail")
    }
    fn digest(&self) -> u64 {
        match *self {}
    }
}

/// How the model sees the types of a builder.
#[derive(Clone, Copy)]
struct Kind {
    name: &'static str,
    art: fn(u64) -> u64,
    st: fn(u64) -> u64,
    err: Option<fn(u64) -> u64>,
}
fn kind<A: Val, S: Val, E: Val>(name: &'static str) -> Kind {
    Kind {
        name,
        art: |v| A::of(v).digest(),
        st: |v| S::of(v).digest(),
        err: if E::ANY { Some(|v| E::of(v).digest()) } else { None },
    }
}

struct M {
    kind: Kind,
    deps: Vec<usize>,
    /// copes with errors of what it uses
    copes: bool,
    /// writes its state in each build
    writes: bool,
    handle: bool,
    fails: bool,
    /// value and address (0: built since the last look)
    art: Option<(u64, usize)>,
    uses: Vec<usize>,
    st: Option<u64>,
    known: bool,
}
struct Model {
    n: Vec<M>,
    ran: Vec<usize>,
    inits: Vec<usize>,
}
impl Model {
    fn closure(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            for u in 0..self.n.len() {
                if !out.contains(&u) && self.n[u].uses.contains(&x) {
                    out.push(u);
                    todo.push(u);
                }
            }
        }
        out
    }
    fn drop_dependents(&mut self, i: usize) -> usize {
        let mut hit = 0;
        for u in self.closure(i) {
            hit += self.n[u].art.is_some() as usize;
            self.n[u].art = None;
            self.n[u].uses.clear();
        }
        hit
    }
    fn invalidate(&mut self, i: usize) -> usize {
        let h = self.drop_dependents(i);
        self.n[i].art = None;
        self.n[i].uses.clear();
        h
    }
    fn state(&mut self, i: usize) -> u64 {
        self.n[i].known = true;
        if self.n[i].st.is_none() {
            self.n[i].st = Some(0);
            self.inits.push(i);
        }
        self.n[i].st.unwrap()
    }
    fn request(&mut self, i: usize) -> Result<u64, u64> {
        if let Some((v, _)) = self.n[i].art {
            return Ok((self.n[i].kind.art)(v));
        }
        let st = self.state(i);
        self.n[i].uses.clear();
        self.ran.push(i);
        let mut acc = mix(i as u64, (self.n[i].kind.st)(st));
        for k in 0..self.n[i].deps.len() {
            let d = self.n[i].deps[k];
            self.n[i].uses.push(d);
            self.n[d].known = true;
            match self.request(d) {
                Ok(v) => acc = mix(acc, v),
                Err(e) => match self.n[i].kind.err {
                    Some(f) if !self.n[i].copes => return Err(f(mix(e, i as u64))),
                    _ => acc = mix(acc, e ^ 77),
                },
            }
        }
        if self.n[i].writes {
            self.n[i].st = Some(acc);
        }
        if let (true, Some(f)) = (self.n[i].fails, self.n[i].kind.err) {
            return Err(f(i as u64));
        }
        self.n[i].art = Some((acc, 0));
        Ok((self.n[i].kind.art)(acc))
    }
    fn alive(&self) -> Vec<bool> {
        let mut a: Vec<bool> = self.n.iter().map(|m| m.handle).collect();
        for i in (0..self.n.len()).rev() {
            if a[i] {
                for &d in &self.n[i].deps {
                    a[d] = true;
                }
            }
        }
        a
    }
}

/// Which discrepancies count against a property.
fn judge(prop: &str, what: &str, op: &str, h: &Had) -> bool {
    let inv = matches!(op, "invalidate" | "state" | "purge");
    match prop {
        "C01" | "C12" => matches!(what, "rebuild" | "value" | "identity") || (what == "lost" && op == "get"),
        "C28" => matches!(what, "rebuild" | "init"),
        "C02" => matches!(what, "stale" | "panic") && inv || what == "nobuild",
        "C03" => matches!(what, "lost" | "state" | "known" | "count") && inv,
        "C04" => what == "value" || what == "nobuild",
        "C05" => matches!(what, "state" | "init"),
        "C06" => what == "error" || (h.failed && what != "panic"),
        "C08" => h.cleared,
        "C09" => h.collected && what != "incomplete",
        "C10" => what == "incomplete",
        "C11" => matches!(what, "known" | "count"),
        "C17" => op == "mutate",
        "C18" => what == "panic",
        _ => false,
    }
}
pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C17", "C18", "C28",
];

#[derive(Default)]
struct Had {
    failed: bool,
    cleared: bool,
    collected: bool,
    mutated: bool,
}

macro_rules! guard {
    ($panicked:ident, $x:expr) => {
        match catch_unwind(AssertUnwindSafe(|| $x)) {
            Ok(v) => Some(v),
            Err(_) => {
                $panicked = true;
                None
            }
        }
    };
}

macro_rules! flavour {
    ($name:ident, $art:ty, $bc:ty, $bin:ident, $clone:ident, $mut:ident; $($k:ident: $a:ty, $s:ty, $e:ty);+) => {
        mod $name {
            use super::*;
            use daab::blueprint::*;
            use daab::cache::{CacheOwned, Resolver};
            use daab::Builder;
            use std::marker::PhantomData;
            #[allow(unused_imports)]
            use std::{rc::Rc, sync::Arc};
            type AC = $art;
            type BC = $bc;
            type Bp<A, S, E> = Blueprint<B<A, S, E>, BC>;

            pub struct B<A, S, E> {
                i: usize,
                deps: Vec<H>,
                copes: bool,
                writes: bool,
                _p: PhantomData<fn() -> (A, S, E)>,
            }
            impl<A, S, E> Debug for B<A, S, E> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "B {}", self.i)
                }
            }
                    #[derive(Clone)]
                    pub enum H { $($k(Bp<$a, $s, $e>)),+ }
                    impl H {
                        fn make(kind: usize, i: usize, deps: Vec<H>, copes: bool, writes: bool) -> (H, Kind) {
                            let mut n = 0;
                            $(
                                if kind == n {
                                    let b: B<$a, $s, $e> = B { i, deps, copes, writes, _p: PhantomData };
                                    return (H::$k(Blueprint::new(b)), super::kind::<$a, $s, $e>(stringify!($a; $s; $e)));
                                }
                                n += 1;
                            )+
                            unreachable!("kind {} of {}", kind, n)
                        }
                        fn resolve<S2: Debug + 'static>(&self, r: &mut Resolver<AC, BC, S2>, form: usize) -> Result<u64, u64> {
                            match self {
                                $(H::$k(bp) => match form {
                                    1 => r.resolve_cloned(bp).map(|a| a.digest()).map_err(|e| e.digest()),
                                    2 if $clone!(true, false) => $clone!(r.resolve(bp).map(|a| <$a as Val>::digest(&a)).map_err(|e| e.digest()), unreachable!()),
                                    _ => r.resolve_ref(bp).map(|a| a.digest()).map_err(|e| e.digest()),
                                }),+
                            }
                        }
                        fn get(&self, c: &mut CacheOwned<AC, BC>, form: usize) -> Result<u64, u64> {
                            match self {
                                $(H::$k(bp) => match form {
                                    1 => c.get_cloned(bp).map(|a| a.digest()).map_err(|e| e.digest()),
                                    2 if $clone!(true, false) => $clone!(c.get(bp).map(|a| <$a as Val>::digest(&a)).map_err(|e| e.digest()), unreachable!()),
                                    _ => c.get_ref(bp).map(|a| a.digest()).map_err(|e| e.digest()),
                                }),+
                            }
                        }
                        /// Overwrites a cached artifact in place.
                        #[allow(unused_variables)]
                        fn mutate(&self, c: &mut CacheOwned<AC, BC>, v: u64, get: bool) -> Option<u64> {
                            $mut!({
                                match self {
                                    $(H::$k(bp) => {
                                        let x = if get { c.get_mut(bp).ok() } else { c.lookup_mut(bp) };
                                        x.map(|x| { let d = x.digest(); *x = <$a as Val>::of(v); d })
                                    }),+
                                }
                            })
                        }
                        fn see(&self, c: &CacheOwned<AC, BC>, form: usize) -> Option<(u64, usize)> {
                            match self {
                                $(H::$k(bp) => {
                                    let a = c.lookup_ref(bp).map(|a| (a.digest(), a as *const $a as usize));
                                    match form {
                                        0 => a,
                                        1 => c.lookup_cloned(bp).map(|x| (x.digest(), a.map_or(1, |a| a.1))),
                                        _ => $clone!(c.lookup(bp).map(|x| (<$a as Val>::digest(&x), &*x as *const $a as usize)), a),
                                    }
                                }),+
                            }
                        }
                        fn state(&self, c: &CacheOwned<AC, BC>) -> Option<u64> {
                            match self { $(H::$k(bp) => c.get_dyn_state(bp).map(|s| s.digest())),+ }
                        }
                        fn look(&self, c: &mut CacheOwned<AC, BC>) -> u64 {
                            match self { $(H::$k(bp) => c.dyn_state(bp).digest()),+ }
                        }
                        fn set(&self, c: &mut CacheOwned<AC, BC>, v: u64) -> u64 {
                            match self {
                                $(H::$k(bp) => {
                                    let s = c.dyn_state_mut(bp);
                                    let d = s.digest();
                                    *s = <$s as Val>::of(v);
                                    d
                                }),+
                            }
                        }
                        fn invalidate(&self, c: &mut CacheOwned<AC, BC>) {
                            match self { $(H::$k(bp) => c.invalidate(bp)),+ }
                        }
                        fn purge(&self, c: &mut CacheOwned<AC, BC>) {
                            match self { $(H::$k(bp) => c.purge(bp)),+ }
                        }
                        fn known(&self, c: &CacheOwned<AC, BC>) -> bool {
                            match self { $(H::$k(bp) => c.is_builder_known(bp)),+ }
                        }
                    }
                    $(
                        impl Builder<AC, BC> for B<$a, $s, $e> {
                            type Artifact = $a;
                            type DynState = $s;
                            type Err = $e;
                            fn build(&self, r: &mut Resolver<AC, BC, $s>) -> Result<$bin<$a>, $e> {
                                W.with(|w| w.borrow_mut().ran.push(self.i));
                                let mut acc = mix(self.i as u64, r.my_state().digest());
                                for (k, d) in self.deps.iter().enumerate() {
                                    match d.resolve(r, (self.i + k) % 3) {
                                        Ok(v) => acc = mix(acc, v),
                                        Err(e) => {
                                            if <$e as Val>::ANY && !self.copes {
                                                return Err(<$e as Val>::of(mix(e, self.i as u64)));
                                            }
                                            acc = mix(acc, e ^ 77);
                                        }
                                    }
                                }
                                if self.writes {
                                    *r.my_state() = <$s as Val>::of(acc);
                                }
                                if <$e as Val>::ANY && W.with(|w| w.borrow().fails[self.i]) {
                                    return Err(<$e as Val>::of(self.i as u64));
                                }
                                Ok($bin::new(<$a as Val>::of(acc)))
                            }
                            fn init_dyn_state(&self) -> $s {
                                W.with(|w| w.borrow_mut().inits.push(self.i));
                                <$s as Val>::of(0)
                            }
                        }
                    )+

            pub fn run(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
                let mut out = CaseOut::default();
                out.labels.push("many types");
                let n = 2 + src.below(7);
                W.with(|w| *w.borrow_mut() = World { fails: vec![false; n], ..World::default() });
                let mut m = Model { n: vec![], ran: vec![], inits: vec![] };
                let mut hs: Vec<Option<H>> = vec![];
                for i in 0..n {
                    src.begin();
                    let k = src.below(10);
                    let mut deps = vec![];
                    if i > 0 {
                        for _ in 0..src.below(4) {
                            deps.push(i - 1 - src.below(i));
                        }
                    }
                    let copes = src.chance(1, 3);
                    let writes = src.chance(1, 4);
                    let d = deps.iter().map(|d| hs[*d].clone().unwrap()).collect();
                    let (h, kind) = H::make(k, i, d, copes, writes);
                    if cfg.want_trace {
                        out.trace.push_str(&format!("builder {}: <{}>, uses {:?}{}{}\n", i, kind.name, deps,
                            if copes { ", copes" } else { "" }, if writes { ", writes its state" } else { "" }));
                    }
                    out.key = mix(mix(out.key, k as u64), deps.len() as u64);
                    hs.push(Some(h));
                    m.n.push(M {
                        kind, deps, copes, writes, handle: true, fails: false, art: None, uses: vec![], st: None, known: false,
                    });
                    src.end();
                }
                let mut cache = CacheOwned::<AC, BC>::new();
                let mut had = Had::default();
                let mut hits = 0usize;
                for step in 0..8 + src.below(if cfg.thorough { 60 } else { 25 }) {
                    if src.exhausted() && step > 0 {
                        break;
                    }
                    src.begin();
                    let op = src.weighted(&[10, 4, 5, 2, 2, 2, 3, 1, 1, 1, 2]);
                    out.ops += 1;
                    let start = src.below(n);
                    let Some(i) = (start..n).chain(0..start).find(|i| hs[*i].is_some()) else {
                        src.end();
                        break;
                    };
                    let h = hs[i].clone().unwrap();
                    W.with(|w| {
                        let mut w = w.borrow_mut();
                        w.ran.clear();
                        w.inits.clear();
                    });
                    m.ran.clear();
                    m.inits.clear();
                    let mut disc: Option<(&'static str, String)> = None;
                    let mut got_panic = false;
                    let mut text = format!(" {}", i);
                    let name = match op {
                        0 => {
                            let form = src.below(3);
                            text = format!(" {} (form {})", i, form);
                            let want = m.request(i);
                            had.failed |= want.is_err();
                            if let Some(got) = guard!(got_panic, h.get(&mut cache, form)) {
                                if got != want {
                                    disc = Some((if got.is_err() || want.is_err() { "error" } else { "value" },
                                        format!("request of {} gave {:?} instead of {:?}", i, got, want)));
                                }
                            }
                            "get"
                        }
                        1 => {
                            hits += m.invalidate(i);
                            guard!(got_panic, h.invalidate(&mut cache));
                            "invalidate"
                        }
                        2 => {
                            let v = src.draw(9);
                            text = format!(" {} := {}", i, v);
                            hits += m.invalidate(i);
                            let was = (m.n[i].kind.st)(m.state(i));
                            m.n[i].st = Some(v);
                            if let Some(s) = guard!(got_panic, h.set(&mut cache, v)) {
                                if s != was {
                                    disc = Some(("state", format!("the state of {} was {} instead of {}", i, s, was)));
                                }
                            }
                            "state"
                        }
                        3 => {
                            hits += m.invalidate(i);
                            m.n[i].st = None;
                            m.n[i].known = false;
                            guard!(got_panic, h.purge(&mut cache));
                            "purge"
                        }
                        4 => {
                            let was = (m.n[i].kind.st)(m.state(i));
                            if let Some(s) = guard!(got_panic, h.look(&mut cache)) {
                                if s != was {
                                    disc = Some(("state", format!("the state of {} is {} instead of {}", i, s, was)));
                                }
                            }
                            "look"
                        }
                        5 => {
                            let f = !m.n[i].fails;
                            text = format!(" {} {}", i, f);
                            m.n[i].fails = f;
                            W.with(|w| w.borrow_mut().fails[i] = f);
                            "fail"
                        }
                        6 if $mut!(true) && m.n[i].art.is_some() => {
                            let (v, get) = (src.draw(9), src.chance(1, 2));
                            text = format!(" {} := {} ({})", i, v, if get { "get_mut" } else { "lookup_mut" });
                            hits += m.drop_dependents(i);
                            had.mutated = true;
                            let (old, at) = m.n[i].art.unwrap();
                            m.n[i].art = Some((v, at));
                            if let Some(d) = guard!(got_panic, h.mutate(&mut cache, v, get)) {
                                if d != Some((m.n[i].kind.art)(old)) {
                                    disc = Some(("value", format!("the artifact of {} to mutate was {:?} instead of {}", i, d, (m.n[i].kind.art)(old))));
                                }
                            }
                            "mutate"
                        }
                        7 => {
                            had.cleared = true;
                            text.clear();
                            for x in &mut m.n {
                                x.art = None;
                                x.uses.clear();
                            }
                            guard!(got_panic, cache.clear_artifacts());
                            "clear_artifacts"
                        }
                        8 => {
                            had.cleared = true;
                            text.clear();
                            for x in &mut m.n {
                                x.art = None;
                                x.uses.clear();
                                x.st = None;
                                x.known = false;
                            }
                            guard!(got_panic, cache.clear_all());
                            "clear_all"
                        }
                        9 => {
                            hs[i] = None;
                            m.n[i].handle = false;
                            "drop"
                        }
                        _ => {
                            text.clear();
                            had.collected = true;
                            guard!(got_panic, for _ in 0..n + 1 {
                                let c = cache.number_of_known_builders();
                                cache.garbage_collection();
                                if cache.number_of_known_builders() == c {
                                    break;
                                }
                            });
                            let alive = m.alive();
                            for (x, a) in m.n.iter_mut().zip(alive) {
                                if !a {
                                    x.art = None;
                                    x.uses.clear();
                                    x.st = None;
                                    x.known = false;
                                }
                            }
                            "collect"
                        }
                    };
                    src.end();
                    if cfg.want_trace {
                        out.trace.push_str(&format!("{}{}\n", name, text));
                    }
                    out.key = mix_str(mix(out.key, op as u64), &text);
                    if got_panic {
                        disc = Some(("panic", format!("{} panicked: {}", name, last_panic())));
                    }
                    if disc.is_none() {
                        let (ran, inits) = W.with(|w| {
                            let w = w.borrow();
                            (w.ran.clone(), w.inits.clone())
                        });
                        if ran != m.ran {
                            disc = Some((if ran.len() > m.ran.len() { "rebuild" } else { "nobuild" },
                                format!("{} ran {:?} instead of {:?}", name, ran, m.ran)));
                        } else if inits != m.inits {
                            disc = Some(("init", format!("{} initialised the states {:?} instead of {:?}", name, inits, m.inits)));
                        }
                    }
                    if disc.is_none() {
                        disc = catch_unwind(AssertUnwindSafe(|| {
                            for i in 0..n {
                                let Some(h) = &hs[i] else { continue };
                                for form in 0..3 {
                                    let a = h.see(&cache, form);
                                    let k = m.n[i].kind;
                                    match (a, &mut m.n[i].art) {
                                        (None, None) => (),
                                        (Some(_), None) => return Some(("stale", format!("{} has an artifact (form {})", i, form))),
                                        (None, Some(_)) => return Some(("lost", format!("{} has no artifact (form {})", i, form))),
                                        (Some(a), Some(b)) => {
                                            if a.0 != (k.art)(b.0) {
                                                return Some(("value", format!("{} has the value {} instead of {} (form {})", i, a.0, (k.art)(b.0), form)));
                                            }
                                            if b.1 != 0 && a.1 != b.1 {
                                                return Some(("identity", format!("{} has another artifact than before (form {})", i, form)));
                                            }
                                            b.1 = a.1;
                                        }
                                    }
                                }
                                let s = h.state(&cache);
                                let want = m.n[i].st.map(m.n[i].kind.st);
                                if s != want {
                                    return Some(("state", format!("{} has the state {:?} instead of {:?}", i, s, want)));
                                }
                                if h.known(&cache) != m.n[i].known {
                                    return Some(("known", format!("{} is known: {}", i, !m.n[i].known)));
                                }
                            }
                            let known = m.n.iter().filter(|x| x.known).count();
                            let is = cache.number_of_known_builders();
                            if is != known {
                                let what = if name == "collect" && is > known { "incomplete" } else { "count" };
                                return Some((what, format!("{} known builders instead of {}", is, known)));
                            }
                            None
                        }))
                        .unwrap_or_else(|_| Some(("panic", format!("reading after {} panicked: {}", name, last_panic()))));
                    }
                    if let Some((what, d)) = disc {
                        if cfg.want_trace {
                            out.trace.push_str(&format!("    !! {} ({}): {}\n", what, name, d));
                        }
                        if cfg.prop == "ALL" || judge(&cfg.prop, what, name, &had) {
                            out.fail = Some(format!("many types: {} at {}: {}", what, name, d));
                        } else {
                            out.unjudged = true;
                        }
                        break;
                    }
                }
                out.nontrivial = match cfg.prop.as_str() {
                    "C06" => had.failed,
                    "C08" => had.cleared,
                    "C09" | "C10" => had.collected && hits > 0,
                    "C17" => had.mutated,
                    _ => hits > 0,
                };
                out
            }
        }
    };
}

macro_rules! yes {
    ($a:expr, $b:expr) => {
        $a
    };
}
macro_rules! no {
    ($a:expr, $b:expr) => {
        $b
    };
}
macro_rules! imm {
    (true) => {
        false
    };
    ($b:block) => {
        None
    };
}
#[cfg(feature = "mut_box")]
macro_rules! mutable {
    (true) => {
        true
    };
    ($b:block) => {
        $b
    };
}
#[cfg(not(feature = "mut_box"))]
macro_rules! mutable {
    (true) => {
        false
    };
    ($b:block) => {
        None
    };
}

macro_rules! with_kinds {
    ($any:ty; $($x:tt)*) => {
        flavour! { $($x)*;
            K0: (), (), daab::Never;
            K1: u8, (), ();
            K2: String, u8, String;
            K3: Big, Vec<u64>, ();
            K4: Al, Al, Option<u64>;
            K5: (), String, String;
            K6: Zal, Zal, Al;
            K7: Box<u64>, (), Box<str>;
            K8: $any, Box<dyn Any>, daab::Never;
            K9: bool, Option<u64>, Zal
        }
    };
}

mod all {
    use super::*;
    use std::{rc::Rc, sync::Arc};
    with_kinds!(Rc<dyn Any>; rc, Rc<dyn Any>, Rc<dyn Any>, Rc, yes, imm);
    with_kinds!(Arc<dyn Any + Send + Sync>; arc, Arc<dyn Any + Send + Sync>, Arc<dyn Any + Send + Sync>, Arc, yes, imm);
    with_kinds!(Rc<dyn Any>; boxed, Box<dyn Any>, Rc<dyn Any>, Box, no, mutable);
    pub fn run(f: usize, src: &mut Source, cfg: &CaseCfg) -> CaseOut {
        match f {
            0 => rc::run(src, cfg),
            1 => arc::run(src, cfg),
            _ => boxed::run(src, cfg),
        }
    }
}

pub fn case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let f = if cfg.prop == "C17" { 2 } else { src.below(3) };
    all::run(f, src, cfg)
}
