//! C32: what the handles given to doctors carry, while doctor and user keep them.
use crate::pbt::{mix, mix_str, CaseCfg, CaseOut, Source};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

thread_local! {
    static SERIAL: Cell<u64> = const { Cell::new(0) };
    static NODES: RefCell<BTreeSet<usize>> = const { RefCell::new(BTreeSet::new()) };
    static ARTS: RefCell<BTreeSet<u64>> = const { RefCell::new(BTreeSet::new()) };
    static TEXTS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    /// How many builders or artifacts look the same.
    static ALIKE: Cell<u64> = const { Cell::new(1) };
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn name(kind: char, n: u64, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    // the pretty form differs
    TEXTS.with(|t| {
        let t = t.borrow();
        let n = n / ALIKE.with(|a| a.get());
        let extra = t.get(n as usize % t.len().max(1)).map_or("", |s| s.as_str());
        write!(f, "{}#{}#{}", kind, n, extra)?;
        if f.alternate() {
            write!(f, "\n\tpretty")?;
        }
        Ok(())
    })
}
/// Whether something of that kind and number has the given text.
fn reads(text: &str, kind: char, n: u64) -> bool {
    struct T(char, u64);
    impl std::fmt::Debug for T {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            name(self.0, self.1, f)
        }
    }
    let t = T(kind, n);
    text == format!("{:?}", t) || text == format!("{:#?}", t)
}

macro_rules! art {
    ($t:ident, $k:literal) => {
        pub struct $t(pub u64);
        impl $t {
            fn new() -> $t {
                let n = SERIAL.with(|s| {
                    s.set(s.get() + 1);
                    s.get()
                });
                ARTS.with(|a| a.borrow_mut().insert(n));
                $t(n)
            }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                name($k, self.0, f)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                ARTS.with(|a| a.borrow_mut().remove(&self.0));
            }
        }
    };
}
art!(ArtA, 'a');
art!(ArtB, 'b');

macro_rules! flavour {
    ($name:ident, $art:ty, $bc:ty, $bin:ident, dynb: $dynb:tt, unsize: $unsize:tt, clone: $clone:tt, far: $fa:ident, $fb:ident) => {
        mod $name {
            use super::*;
            use daab::blueprint::*;
            use daab::cache::{Cache, Resolver};
            #[allow(unused_imports)]
            use daab::canning::{CanBase, CanSized, CanRef};
            use daab::diagnostics::{ArtifactHandle, BuilderHandle, Doctor};
            use daab::Builder;
            #[allow(unused_imports)]
            use std::{any::Any, rc::Rc, sync::Arc};
            type AC = $art;
            type BC = $bc;
            macro_rules! node {
                ($t:ident, $a:ident, $k:literal) => {
                    pub struct $t {
                        uid: usize,
                        deps: Vec<H>,
                    }
                    impl std::fmt::Debug for $t {
                        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                            super::name($k, self.uid as u64, f)
                        }
                    }
                    impl $t {
                        fn new(uid: usize, deps: Vec<H>) -> $t {
                            NODES.with(|a| a.borrow_mut().insert(uid));
                            $t { uid, deps }
                        }
                    }
                    impl Drop for $t {
                        fn drop(&mut self) {
                            NODES.with(|a| a.borrow_mut().remove(&self.uid));
                        }
                    }
                    impl Builder<AC, BC> for $t {
                        type Artifact = $a;
                        type DynState = u8;
                        type Err = daab::Never;
                        fn build(&self, r: &mut Resolver<AC, BC, u8>) -> Result<$bin<$a>, daab::Never> {
                            for d in &self.deps {
                                each!(d, b, r.resolve_ref(b).map(|_| ())).unwrap();
                            }
                            Ok($bin::new($a::new()))
                        }
                        fn init_dyn_state(&self) -> u8 {
                            0
                        }
                    }
                };
            }
            #[derive(Debug)]
            pub enum H {
                A(Blueprint<Na, BC>),
                B(Blueprint<Nb, BC>),
                D(flavour!(@dyn $dynb)),
                U(flavour!(@uns $unsize)),
            }
            macro_rules! each {
                ($h:expr, $b:ident, $e:expr) => {
                    match $h {
                        H::A($b) => $e,
                        H::B($b) => $e,
                        H::D($b) => $e,
                        H::U($b) => $e,
                    }
                };
            }
            node!(Na, ArtA, 'A');
            node!(Nb, ArtB, 'B');
            impl Clone for H {
                fn clone(&self) -> H {
                    match self {
                        H::A(b) => H::A(b.clone()),
                        H::B(b) => H::B(b.clone()),
                        H::D(b) => H::D(b.clone()),
                        H::U(b) => H::U(b.clone()),
                    }
                }
            }
            fn convert(h: H) -> H {
                match h {
                    H::A(b) => flavour!(@if $dynb { H::D(b.into()) } else { H::A(b) }),
                    H::B(b) => flavour!(@if $unsize { H::U(b.into()) } else { H::B(b) }),
                    h => h,
                }
            }

            /// Keeps what it is given.
            #[derive(Default)]
            pub struct Keeper {
                keep: u64,
                builders: Vec<BuilderHandle<BC>>,
                arts: Vec<ArtifactHandle<AC>>,
                bad: Option<String>,
            }
            impl Keeper {
                fn b(&mut self, h: &BuilderHandle<BC>) -> Option<usize> {
                    match see_builder(h) {
                        Ok(u) => {
                            if self.keep != 0 && u as u64 % self.keep == 0 && self.builders.len() < 30 {
                                self.builders.push(h.clone());
                            }
                            Some(u)
                        }
                        Err(e) => {
                            self.bad = self.bad.take().or(Some(e));
                            None
                        }
                    }
                }
            }
            impl Doctor<AC, BC> for Keeper {
                fn resolve(&mut self, b: &BuilderHandle<BC>, u: &BuilderHandle<BC>) {
                    if let (Some(x), Some(y)) = (self.b(b), self.b(u)) {
                        if (b == u) != (x == y) {
                            self.bad = Some(format!("handles of builder {} and {} are equal: {}", x, y, b == u));
                        }
                    }
                }
                fn build(&mut self, b: &BuilderHandle<BC>, a: &ArtifactHandle<AC>) {
                    self.b(b);
                    match see_art(a) {
                        Ok(_s) => {
                            flavour!(@if $clone {
                                if self.keep != 0 && _s % self.keep == 0 && self.arts.len() < 30 {
                                    self.arts.push(a.clone());
                                }
                            } else {});
                        }
                        Err(e) => self.bad = self.bad.take().or(Some(e)),
                    }
                }
            }
            thread_local! {
                static IDS: RefCell<BTreeMap<usize, (char, daab::BuilderId)>> = RefCell::new(BTreeMap::new());
            }
            fn see_builder(h: &BuilderHandle<BC>) -> Result<usize, String> {
                // of those alive only one has that id
                let live = NODES.with(|n| n.borrow().clone());
                let (u, kind, id) = IDS
                    .with(|i| i.borrow().iter().filter(|(u, x)| live.contains(u) && x.1 == h.id).map(|(u, x)| (*u, x.0, x.1)).next())
                    .ok_or_else(|| format!("no builder has the id {:p} of a handle", h.id))?;
                if h.id() != id {
                    return Err(format!("the handle of builder {} has the ids {:p} and {:p}", u, id, h.id()));
                }
                if !super::reads(&h.dbg_text, kind, u as u64) {
                    return Err(format!("the handle of builder {} has the text {:?}", u, h.dbg_text));
                }
                let t = if kind == 'A' { std::any::type_name::<Na>() } else { std::any::type_name::<Nb>() };
                let dy = flavour!(@if $dynb {
                    kind == 'A' && h.type_name == std::any::type_name::<dyn Builder<AC, BC, Artifact = ArtA, DynState = u8, Err = daab::Never>>()
                } else { false });
                if h.type_name != t && !dy {
                    return Err(format!("the handle of builder {} has the type name {}", u, h.type_name));
                }
                Ok(u)
            }
            fn see_art(h: &ArtifactHandle<AC>) -> Result<u64, String> {
                let a: Option<&ArtA> = h.value.downcast_can_ref();
                let b: Option<&ArtB> = h.value.downcast_can_ref();
                let (k, t, s, p) = match (a, b) {
                    (Some(v), None) => ('a', std::any::type_name::<ArtA>(), v.0, v as *const ArtA as *const ()),
                    (None, Some(v)) => ('b', std::any::type_name::<ArtB>(), v.0, v as *const ArtB as *const ()),
                    _ => return Err(format!("a handle with the text {:?} carries no artifact", h.dbg_text)),
                };
                if h.type_name != t {
                    return Err(format!("the handle of artifact {} has the type name {}", s, h.type_name));
                }
                if !super::reads(&h.dbg_text, k, s) {
                    return Err(format!("the handle of artifact {} has the text {:?}", s, h.dbg_text));
                }
                if p != h.value.can_as_ptr() as *const () {
                    return Err(format!("the handle of artifact {} carries something at another place", s));
                }
                Ok(s)
            }

            pub fn run(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
                let mut out = CaseOut::default();
                NODES.with(|n| n.borrow_mut().clear());
                ARTS.with(|n| n.borrow_mut().clear());
                IDS.with(|i| i.borrow_mut().clear());
                let nt = src.below(4);
                let texts: Vec<String> = (0..nt).map(|_| ["", "x", "#", "\"\\\n", "ÄÖ", "{}"][src.below(6)].to_string()).collect();
                TEXTS.with(|t| *t.borrow_mut() = texts);
                SERIAL.with(|s| s.set(0));
                ALIKE.with(|a| a.set([1, 1, 2, 1000][src.below(4)]));
                let keep = src.draw(4);
                let mut cache = Cache::<AC, BC, Keeper>::new_with_doctor(Keeper { keep, ..Default::default() });
                let mut hs: Vec<(usize, H)> = vec![];
                let mut deps: Vec<BTreeSet<usize>> = vec![];
                let mut bhs: Vec<BuilderHandle<BC>> = vec![];
                let mut ahs: Vec<ArtifactHandle<AC>> = vec![];
                let len = src.length(3, if cfg.thorough { 60 } else { 25 }, 600);
                let (mut pairs, mut gone, mut builds) = (0u64, 0u64, 0u64);
                for step in 0..len {
                    if src.exhausted() && step > 0 {
                        break;
                    }
                    src.begin();
                    let op = if hs.is_empty() { 0 } else { src.weighted(&[5, 6, 2, 3, 2, 1, 2, 1, 3, 3, 2, 2, 1, 2]) };
                    out.ops += 1;
                    let mut text = String::new();
                    let mut fail: Option<String> = None;
                    let alive_before = ARTS.with(|a| a.borrow().len());
                    match op {
                        0 => {
                            let uid = deps.len();
                            let mut ds = vec![];
                            let mut du = BTreeSet::new();
                            if !hs.is_empty() {
                                for _ in 0..src.below(4) {
                                    let (u, h) = &hs[src.below(hs.len())];
                                    ds.push(h.clone());
                                    du.insert(*u);
                                }
                            }
                            let k = src.below(2);
                            text = format!("builder {} {} on {:?}", uid, ["A", "B"][k], du);
                            deps.push(du);
                            let h = if k == 0 { H::A(Blueprint::new(Na::new(uid, ds))) } else { H::B(Blueprint::new(Nb::new(uid, ds))) };
                            let id = each!(&h, b, b.id());
                            IDS.with(|i| i.borrow_mut().insert(uid, (['A', 'B'][k], id)));
                            hs.push((uid, h));
                        }
                        1 => {
                            let (u, h) = &hs[src.below(hs.len())];
                            text = format!("get {}", u);
                            each!(h, b, cache.get_ref(b).map(|_| ())).unwrap();
                        }
                        2 => {
                            let i = src.below(hs.len());
                            let (u, h) = hs[i].clone();
                            text = format!("convert {}", u);
                            hs[i] = (u, convert(h));
                        }
                        3 => {
                            let i = src.below(hs.len());
                            text = format!("drop {}", hs[i].0);
                            hs.remove(i);
                        }
                        4 => {
                            let (u, h) = &hs[src.below(hs.len())];
                            text = format!("invalidate {}", u);
                            each!(h, b, cache.invalidate(b));
                        }
                        5 => {
                            let (u, h) = &hs[src.below(hs.len())];
                            text = format!("purge {}", u);
                            each!(h, b, cache.purge(b));
                        }
                        6 => {
                            text = "collect".into();
                            cache.garbage_collection();
                        }
                        7 => {
                            text = "clear".into();
                            cache.clear_all();
                            let kept: BTreeSet<u64> = cache.doctor().arts.iter().chain(&ahs).filter_map(|h| see_art(h).ok()).collect();
                            let now = ARTS.with(|a| a.borrow().clone());
                            if now != kept {
                                fail = Some(format!("the artifacts {:?} are alive in an empty cache, handles exist of {:?}", now, kept));
                            }
                        }
                        8 => {
                            let d = cache.doctor();
                            let n = 1 + src.below(4);
                            text = format!("the doctor forgets {} of {} and {}", n, d.builders.len(), d.arts.len());
                            for _ in 0..n {
                                if !d.builders.is_empty() {
                                    let i = src.below(d.builders.len());
                                    d.builders.swap_remove(i);
                                    gone += 1;
                                }
                                if !d.arts.is_empty() {
                                    let i = src.below(d.arts.len());
                                    d.arts.swap_remove(i);
                                    gone += 1;
                                }
                            }
                        }
                        9 => {
                            let (u, h) = &hs[src.below(hs.len())];
                            text = format!("handle of {}", u);
                            let b = each!(h, b, BuilderHandle::new(b));
                            let t = match h {
                                H::A(_) => Some(std::any::type_name::<Na>()),
                                H::B(_) => Some(std::any::type_name::<Nb>()),
                                _ => None,
                            };
                            match see_builder(&b) {
                                Ok(x) if x == *u && t.map_or(true, |t| t == b.type_name) => (),
                                x => fail = Some(format!("the handle made of builder {} is of {:?}, type name {}", u, x, b.type_name)),
                            }
                            if bhs.len() < 30 {
                                bhs.push(b);
                            }
                            flavour!(@if $clone {
                                // and of its artifact
                                let far = src.chance(1, 3);
                                let a = match h {
                                    H::A(b) if far => cache.lookup(b).map(|x| {
                                        let (dbg_text, type_name) = (format!("{:?}", x), std::any::type_name::<ArtA>());
                                        ArtifactHandle { value: crate::handles_far::$fa(x), type_name, dbg_text }
                                    }),
                                    H::B(b) if far => cache.lookup(b).map(|x| {
                                        let (dbg_text, type_name) = (format!("{:?}", x), std::any::type_name::<ArtB>());
                                        ArtifactHandle { value: crate::handles_far::$fb(x), type_name, dbg_text }
                                    }),
                                    H::A(b) => cache.lookup(b).map(|x| ArtifactHandle::new::<ArtA>(x)),
                                    H::B(b) => cache.lookup(b).map(|x| ArtifactHandle::new::<ArtB>(x)),
                                    H::D(_) | H::U(_) => None,
                                };
                                if let Some(a) = a {
                                    fail = fail.or(see_art(&a).err());
                                    ahs.push(a);
                                }
                            } else {});
                        }
                        10 => {
                            text = "handle of a new artifact".into();
                            let (a, s) = if src.chance(1, 2) {
                                let a = ArtB::new();
                                let s = a.0;
                                (ArtifactHandle::new::<ArtB>($bin::new(a)), s)
                            } else {
                                let a = ArtA::new();
                                let s = a.0;
                                (ArtifactHandle::new::<ArtA>($bin::new(a)), s)
                            };
                            match see_art(&a) {
                                Ok(x) if x == s => (),
                                x => fail = Some(format!("the handle made of artifact {} is of {:?}", s, x)),
                            }
                            if ahs.len() < 30 {
                                ahs.push(a);
                            }
                        }
                        11 => {
                            text = "clones of handles".into();
                            let d = cache.doctor();
                            if let Some(b) = d.builders.first().or(bhs.first()).cloned() {
                                bhs.insert(0, b);
                            }
                            flavour!(@if $clone {
                                if let Some(a) = d.arts.first().or(ahs.first()).cloned() {
                                    ahs.insert(0, a);
                                }
                            } else {});
                            bhs.truncate(30);
                            ahs.truncate(30);
                        }
                        12 => {
                            text = "drop handles".into();
                            gone += (bhs.len() + ahs.len()) as u64;
                            bhs.clear();
                            ahs.clear();
                        }
                        _ => {
                            if !ahs.is_empty() {
                                let i = src.below(ahs.len());
                                let h = ahs.swap_remove(i);
                                text = format!("open {}", h.dbg_text);
                                let s = see_art(&h).unwrap_or(0);
                                let a = h.dbg_text.starts_with('a');
                                let can: AC = h.into_inner();
                                let got = if a {
                                    let b: Option<$bin<ArtA>> = can.downcast_can();
                                    b.map(|b| b.0)
                                } else {
                                    let b: Option<$bin<ArtB>> = can.downcast_can();
                                    b.map(|b| b.0)
                                };
                                if got != Some(s) {
                                    fail = Some(format!("{:?} was in the handle of artifact {}", got, s));
                                }
                            }
                        }
                    }
                    src.end();
                    builds += (op == 1 && ARTS.with(|a| a.borrow().len()) > alive_before) as u64;
                    out.key = mix_str(mix(out.key, op as u64), &text);
                    if cfg.want_trace {
                        out.trace.push_str(&text);
                        out.trace.push('\n');
                    }
                    let d = cache.doctor();
                    fail = fail.or(d.bad.take());
                    // all handles that are kept, against each other
                    let mut want = BTreeSet::new();
                    let mut bs = vec![];
                    for h in d.builders.iter().chain(&bhs) {
                        match see_builder(h) {
                            Ok(u) => {
                                bs.push((u, h, hash(h)));
                                want.insert(u);
                            }
                            Err(e) => fail = fail.or(Some(e)),
                        }
                    }
                    for (i, (u, a, x)) in bs.iter().enumerate() {
                        for (v, b, y) in &bs[..i] {
                            pairs += (u == v) as u64;
                            if (a == b) != (u == v) || (b == a) != (u == v) || (u == v && x != y) {
                                fail = fail.or(Some(format!("handles of builder {} and {}: equal {}, same hash {}", u, v, a == b, x == y)));
                            }
                        }
                    }
                    let mut ars = vec![];
                    for h in d.arts.iter().chain(&ahs) {
                        match see_art(h) {
                            Ok(s) => ars.push((s, h, hash(h))),
                            Err(e) => fail = fail.or(Some(e)),
                        }
                    }
                    let alive = ARTS.with(|a| a.borrow().clone());
                    for (i, (u, a, x)) in ars.iter().enumerate() {
                        if !alive.contains(u) {
                            fail = fail.or(Some(format!("artifact {} is gone, a handle is not", u)));
                        }
                        for (v, b, y) in &ars[..i] {
                            pairs += (u == v) as u64;
                            if (a == b) != (u == v) || (b == a) != (u == v) || (u == v && x != y) {
                                fail = fail.or(Some(format!("handles of artifact {} and {}: equal {}, same hash {}", u, v, a == b, x == y)));
                            }
                        }
                    }
                    // builders live as long as something of the user or a handle refers to them
                    want.extend(hs.iter().map(|h| h.0));
                    let mut todo: Vec<usize> = want.iter().copied().collect();
                    while let Some(u) = todo.pop() {
                        for d in &deps[u] {
                            if want.insert(*d) {
                                todo.push(*d);
                            }
                        }
                    }
                    let is = NODES.with(|n| n.borrow().clone());
                    if is != want {
                        fail = fail.or(Some(format!("the builders {:?} are alive instead of {:?}", is, want)));
                    }
                    if fail.is_some() {
                        out.fail = fail;
                        break;
                    }
                }
                let d = cache.into_doctor();
                if out.fail.is_none() {
                    let kept: BTreeSet<u64> = d.arts.iter().chain(&ahs).filter_map(|h| see_art(h).ok()).collect();
                    let now = ARTS.with(|a| a.borrow().clone());
                    if now != kept {
                        out.fail = Some(format!("the artifacts {:?} are alive without the cache, handles exist of {:?}", now, kept));
                    }
                }
                drop((d, bhs, ahs, hs));
                let left = (NODES.with(|n| n.borrow().len()), ARTS.with(|n| n.borrow().len()));
                if out.fail.is_none() && left != (0, 0) {
                    out.fail = Some(format!("{:?} builders and artifacts are left at the end", left));
                }
                out.nontrivial = pairs > 0 && gone > 0 && builds > 1;
                if pairs > 0 {
                    out.labels.push("two handles of the same");
                }
                if gone > 0 {
                    out.labels.push("handles dropped");
                }
                out
            }
        }
    };
    (@dyn true) => { BlueprintDyn<AC, BC, ArtA, daab::Never, u8> };
    (@dyn false) => { Blueprint<Na, BC> };
    (@uns true) => { BlueprintUnsized<Nb, BC> };
    (@uns false) => { Blueprint<Nb, BC> };
    (@if true { $($a:tt)* } else { $($b:tt)* }) => { { $($a)* } };
    (@if false { $($a:tt)* } else { $($b:tt)* }) => { { $($b)* } };
}
macro_rules! flavours {
    ($u:tt) => {
        flavour!(rc, Rc<dyn Any>, Rc<dyn Any>, Rc, dynb: true, unsize: $u, clone: true, far: rc_a, rc_b);
        flavour!(arc, Arc<dyn Any + Send + Sync>, Arc<dyn Any + Send + Sync>, Arc, dynb: false, unsize: $u, clone: true, far: arc_a, arc_b);
        flavour!(boxed, Box<dyn Any>, Rc<dyn Any>, Box, dynb: true, unsize: $u, clone: false, far: none, none);
    };
}
#[cfg(feature = "unsized")]
flavours!(true);
#[cfg(not(feature = "unsized"))]
flavours!(false);

pub fn c32(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    match src.below(3) {
        0 => rc::run(src, cfg),
        1 => arc::run(src, cfg),
        _ => boxed::run(src, cfg),
    }
}
