//! A part of C14: identities of zero-sized and equal builders.
use crate::pbt::{mix, CaseCfg, CaseOut, Source};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(1) };
}
fn next() -> u64 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct CacheM {
    art: BTreeMap<usize, Option<u64>>,
    st: BTreeMap<usize, i64>,
}

macro_rules! flavour {
    ($name:ident, $art:ty, $bc:ty, $bin:ident, dynb: $dynb:tt, unsize: $unsize:tt) => {
        mod $name {
            use super::*;
            use daab::blueprint::*;
            use daab::cache::{CacheOwned, Resolver};
            use daab::Builder;
            #[allow(unused_imports)]
            use std::{any::Any, rc::Rc, sync::Arc};
            type AC = $art;
            type BC = $bc;
            #[derive(Debug)]
            pub struct Z1;
            #[derive(Debug)]
            pub struct Z2;
            #[derive(Debug)]
            pub struct One(#[allow(unused)] u8);
            macro_rules! builder {
                ($t:ty) => {
                    impl Builder<AC, BC> for $t {
                        type Artifact = (u64, i64);
                        type DynState = i64;
                        type Err = daab::Never;
                        fn build(&self, r: &mut Resolver<AC, BC, i64>) -> Result<$bin<(u64, i64)>, daab::Never> {
                            Ok($bin::new((next(), *r.my_state())))
                        }
                        fn init_dyn_state(&self) -> i64 {
                            0
                        }
                    }
                };
            }
            builder!(Z1);
            builder!(Z2);
            builder!(One);
            #[derive(Debug)]
            enum H {
                A(Blueprint<Z1, BC>),
                B(Blueprint<Z2, BC>),
                C(Blueprint<One, BC>),
                D(flavour!(@dyn $dynb)),
                U(flavour!(@uns $unsize)),
            }
            macro_rules! each {
                ($h:expr, $b:ident, $e:expr) => {
                    match $h {
                        H::A($b) => $e,
                        H::B($b) => $e,
                        H::C($b) => $e,
                        H::D($b) => $e,
                        H::U($b) => $e,
                    }
                };
            }
            impl Clone for H {
                fn clone(&self) -> H {
                    match self {
                        H::A(b) => H::A(b.clone()),
                        H::B(b) => H::B(b.clone()),
                        H::C(b) => H::C(b.clone()),
                        H::D(b) => H::D(b.clone()),
                        H::U(b) => H::U(b.clone()),
                    }
                }
            }
            fn convert(h: H, form: usize) -> H {
                match (h, form) {
                    (H::A(b), 0) => flavour!(@if $dynb { H::D(b.into()) } else { H::A(b) }),
                    (H::B(b), 0) => flavour!(@if $dynb { H::D(b.into()) } else { H::B(b) }),
                    (H::C(b), 0) => flavour!(@if $dynb { H::D(b.into()) } else { H::C(b) }),
                    (H::A(b), _) => flavour!(@if $unsize { H::U(b.into()) } else { H::A(b) }),
                    (h, _) => h,
                }
            }

            pub fn run(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
                let mut out = CaseOut::default();
                let mut cache = CacheOwned::<AC, BC>::default();
                let mut m = CacheM::default();
                let mut hs: Vec<(usize, H)> = vec![];
                let mut n = 0;
                let (mut conv, mut pairs) = (0, 0);
                let len = 4 + src.below(if cfg.thorough { 80 } else { 30 });
                let mut say = |out: &mut CaseOut, f: &dyn Fn() -> String| {
                    if cfg.want_trace {
                        out.trace.push_str(&f());
                        out.trace.push('\n');
                    }
                };
                for _ in 0..len {
                    if src.exhausted() {
                        break;
                    }
                    src.begin();
                    let op = if hs.is_empty() { 0 } else { src.weighted(&[8, 3, 3, 4, 6, 4, 2, 1]) };
                    out.key = mix(out.key, op as u64);
                    out.ops += 1;
                    let mut fail = None;
                    if op == 0 {
                        let t = src.below(3);
                        out.key = mix(out.key, t as u64);
                        let h = match t {
                            0 => H::A(Blueprint::new(Z1)),
                            1 => H::B(Blueprint::new(Z2)),
                            _ => H::C(Blueprint::new(One(1))),
                        };
                        say(&mut out, &|| format!("builder {} of type {}", n, t));
                        if each!(&h, b, cache.lookup_ref(b)).is_some() || each!(&h, b, cache.get_dyn_state(b)).is_some() || each!(&h, b, cache.is_builder_known(b)) {
                            fail = Some(format!("the new builder {} is not new to the cache", n));
                        }
                        hs.push((n, h));
                        n += 1;
                    } else {
                        let i = src.below(hs.len());
                        out.key = mix(out.key, i as u64);
                        let k = hs[i].0;
                        match op {
                            1 => {
                                let h = hs[i].1.clone();
                                hs.push((k, h));
                                say(&mut out, &|| format!("clone of {}", k));
                            }
                            2 => {
                                let form = src.below(2);
                                let h = hs[i].1.clone();
                                hs.push((k, convert(h, form)));
                                conv += 1;
                                say(&mut out, &|| format!("conversion {} of {}", form, k));
                            }
                            3 => {
                                hs.swap_remove(i);
                                say(&mut out, &|| format!("drop a handle of {}", k));
                            }
                            4 => {
                                let a = *each!(&hs[i].1, b, cache.get_ref(b)).unwrap_or_else(|e| match e {});
                                say(&mut out, &|| format!("get {} -> {:?}", k, a));
                                let st = *m.st.entry(k).or_insert(0);
                                let e = m.art.entry(k).or_insert(None);
                                let dup = e.is_none() && m.art.iter().any(|(o, s)| *o != k && *s == Some(a.0));
                                let e = m.art.get_mut(&k).unwrap();
                                if e.map_or(false, |s| s != a.0) || dup || a.1 != st {
                                    fail = Some(format!("builder {} in state {} has the artifact {:?}, before {:?}", k, st, a, e));
                                }
                                *e = Some(a.0);
                            }
                            5 => {
                                let v = 1 + src.below(5) as i64;
                                each!(&hs[i].1, b, *cache.dyn_state_mut(b) = v);
                                m.st.insert(k, v);
                                m.art.remove(&k);
                                say(&mut out, &|| format!("state {} := {}", k, v));
                            }
                            6 => {
                                each!(&hs[i].1, b, cache.invalidate(b));
                                m.art.remove(&k);
                                say(&mut out, &|| format!("invalidate {}", k));
                            }
                            _ => {
                                cache.garbage_collection();
                                say(&mut out, &|| "collect".to_string());
                            }
                        }
                    }
                    src.end();
                    for (i, (k, a)) in hs.iter().enumerate() {
                        let got = each!(a, b, cache.lookup_ref(b)).map(|a| a.0);
                        let want = m.art.get(k).copied();
                        if got.is_some() != want.is_some() || (want.flatten().is_some() && want.flatten() != got) {
                            fail = fail.or(Some(format!("builder {}: artifact {:?} instead of {:?}", k, got, want)));
                        }
                        let got = each!(a, b, cache.get_dyn_state(b)).copied();
                        if got != m.st.get(k).copied() {
                            fail = fail.or(Some(format!("builder {}: state {:?} instead of {:?}", k, got, m.st.get(k))));
                        }
                        for (l, b) in &hs[..i] {
                            let same = k == l;
                            pairs += !same as u64;
                            let ids = each!(a, x, x.id()) == each!(b, x, x.id());
                            let hashes = each!(a, x, hash(x)) == each!(b, x, hash(x));
                            let eq = match (a, b) {
                                (H::A(a), H::A(b)) => a == b,
                                (H::B(a), H::B(b)) => a == b,
                                (H::C(a), H::C(b)) => a == b,
                                (H::D(a), H::D(b)) => a == b,
                                (H::U(a), H::U(b)) => a == b,
                                _ => same,
                            };
                            // (different builders may share a hash, though hardly)
                            if ids != same || eq != same || (same && !hashes) {
                                fail = fail.or(Some(format!(
                                    "handles of builder {} and {}: same id {}, equal {}, same hash {}", k, l, ids, eq, hashes)));
                            }
                        }
                    }
                    if fail.is_some() {
                        out.fail = fail;
                        break;
                    }
                }
                out.nontrivial = conv > 0 && pairs > 0;
                out
            }
        }
    };
    (@dyn true) => { BlueprintDyn<AC, BC, (u64, i64), daab::Never, i64> };
    (@dyn false) => { Blueprint<Z1, BC> };
    (@uns true) => { BlueprintUnsized<Z1, BC> };
    (@uns false) => { Blueprint<Z1, BC> };
    (@if true { $($a:tt)* } else { $($b:tt)* }) => { { $($a)* } };
    (@if false { $($a:tt)* } else { $($b:tt)* }) => { { $($b)* } };
}
#[cfg(feature = "unsized")]
mod all {
    use super::*;
    flavour!(rc, Rc<dyn Any>, Rc<dyn Any>, Rc, dynb: true, unsize: true);
    flavour!(arc, Arc<dyn Any + Send + Sync>, Arc<dyn Any + Send + Sync>, Arc, dynb: false, unsize: true);
    flavour!(boxed, Box<dyn Any>, Rc<dyn Any>, Box, dynb: true, unsize: true);
    pub fn run(f: usize, src: &mut Source, cfg: &CaseCfg) -> CaseOut {
        match f {
            0 => rc::run(src, cfg),
            1 => arc::run(src, cfg),
            _ => boxed::run(src, cfg),
        }
    }
}
#[cfg(not(feature = "unsized"))]
mod all {
    use super::*;
    flavour!(rc, Rc<dyn Any>, Rc<dyn Any>, Rc, dynb: true, unsize: false);
    flavour!(arc, Arc<dyn Any + Send + Sync>, Arc<dyn Any + Send + Sync>, Arc, dynb: false, unsize: false);
    flavour!(boxed, Box<dyn Any>, Rc<dyn Any>, Box, dynb: true, unsize: false);
    pub fn run(f: usize, src: &mut Source, cfg: &CaseCfg) -> CaseOut {
        match f {
            0 => rc::run(src, cfg),
            1 => arc::run(src, cfg),
            _ => boxed::run(src, cfg),
        }
    }
}

pub fn case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let f = src.below(3);
    all::run(f, src, cfg)
}
