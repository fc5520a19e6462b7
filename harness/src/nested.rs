//! C16: caches used from within the calls of other caches. The code a cache runs for its user
//! (building, initialising and dropping states, dropping and cloning artifacts, dropping builders,
//! formatting, the doctor) makes calls to other caches in the middle of a call. Each cache must
//! behave exactly as if its calls, in the same order, had been made one after another and alone:
//! the calls are recorded per cache and repeated on a cache of its own, with other builders.
use crate::pbt::{last_panic, mix, mix_str, CaseCfg, CaseOut, Source};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    New,
    DropHandle,
    Get,
    GetCloned,
    Lookup,
    LookupCloned,
    State,
    Write,
    Fail,
    Invalidate,
    Purge,
    ClearArtifacts,
    ClearAll,
    Collect,
    Renew,
}
/// What a user's code does when it is called: which code, after how many calls of it, and the call.
#[derive(Clone, Debug)]
struct Plan {
    site: usize,
    skip: u64,
    cache: usize,
    act: Act,
    slot: usize,
    val: i64,
}
pub const SITES: [&str; 8] =
    ["build", "init_dyn_state", "artifact drop", "artifact clone", "state drop", "builder drop", "debug text", "doctor"];
const BUILDER_DROP: usize = 5;

#[derive(Clone, Debug, Default, PartialEq)]
struct Seen {
    /// 0 nothing, 1 a value, 2 an error
    kind: u8,
    val: i64,
    known: bool,
    count: usize,
    ran: Vec<usize>,
}
#[derive(Clone, Debug)]
struct Entry {
    act: Act,
    slot: usize,
    val: i64,
    deps: Vec<usize>,
    site: Option<usize>,
    seen: Option<Seen>,
}
#[derive(Default)]
struct World {
    on: bool,
    plan: Vec<Plan>,
    logs: Vec<Vec<Entry>>,
    active: Vec<usize>,
    /// calls made by builders being dropped, within one another
    builder_drops: usize,
    runs: Vec<(usize, usize)>,
    fired: [u64; 8],
    call: Option<fn(usize, Act, usize, i64, Option<usize>)>,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
/// The user's code `site` is called.
fn fire(site: usize) {
    let due = W.try_with(|w| {
        let mut w = match w.try_borrow_mut() {
            Ok(w) => w,
            Err(_) => return None,
        };
        if !w.on || w.active.len() >= 4 {
            return None;
        }
        let i = w.plan.iter().position(|p| p.site == site)?;
        if w.plan[i].skip > 0 {
            w.plan[i].skip -= 1;
            return None;
        }
        let p = w.plan.remove(i);
        Some((w.call?, p))
    });
    if let Ok(Some((call, p))) = due {
        // (what a builder being dropped holds is still alive, alone it is gone already)
        let in_drop = w(|w| {
            w.builder_drops += (site == BUILDER_DROP) as usize;
            w.builder_drops > 0
        });
        if !(in_drop && p.act == Act::Collect) {
            call(p.cache, p.act, p.slot, p.val, Some(site));
        }
        if site == BUILDER_DROP {
            w(|w| w.builder_drops = w.builder_drops.saturating_sub(1));
        }
    }
}

pub struct Art {
    val: i64,
}
impl std::fmt::Debug for Art {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fire(6);
        write!(f, "Art {}", self.val)
    }
}
impl Clone for Art {
    fn clone(&self) -> Self {
        fire(3);
        Art { val: self.val }
    }
}
impl Drop for Art {
    fn drop(&mut self) {
        fire(2);
    }
}
#[derive(Debug)]
pub struct St {
    add: i64,
    fail: bool,
}
impl Drop for St {
    fn drop(&mut self) {
        fire(4);
    }
}

macro_rules! flavour {
    ($name:ident, $art:ty, $bc:ty, $bin:ident) => {
        mod $name {
            use super::*;
            use daab::blueprint::*;
            use daab::cache::Resolver;
            use daab::Builder;
            #[allow(unused_imports)]
            use std::{any::Any, rc::Rc, sync::Arc};
            type AC = $art;
            type BC = $bc;
            type Bp = Blueprint<Node, BC>;
            #[cfg(not(feature = "diagnostics"))]
            type TheCache = daab::cache::Cache<AC, BC>;
            #[cfg(feature = "diagnostics")]
            type TheCache = daab::cache::Cache<AC, BC, Doc>;
            thread_local! {
                static CACHES: RefCell<Vec<Rc<RefCell<TheCache>>>> = const { RefCell::new(vec![]) };
                static HANDLES: RefCell<Vec<Option<Bp>>> = const { RefCell::new(vec![]) };
            }
            #[cfg(feature = "diagnostics")]
            pub struct Doc;
            #[cfg(feature = "diagnostics")]
            impl daab::diagnostics::Doctor<AC, BC> for Doc {
                fn resolve(&mut self, _: &daab::diagnostics::BuilderHandle<BC>, _: &daab::diagnostics::BuilderHandle<BC>) {
                    fire(7);
                }
                fn build(&mut self, _: &daab::diagnostics::BuilderHandle<BC>, _: &daab::diagnostics::ArtifactHandle<AC>) {
                    fire(7);
                }
                fn invalidate(&mut self, _: &daab::diagnostics::BuilderHandle<BC>) {
                    fire(7);
                }
                fn clear(&mut self) {
                    fire(7);
                }
            }
            fn new_cache() -> TheCache {
                #[cfg(feature = "diagnostics")]
                return daab::cache::Cache::new_with_doctor(Doc);
                #[cfg(not(feature = "diagnostics"))]
                return daab::cache::CacheOwned::new();
            }

            pub struct Node {
                i: usize,
                deps: Vec<Bp>,
            }
            impl std::fmt::Debug for Node {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    fire(6);
                    write!(f, "Node {}", self.i)
                }
            }
            impl Drop for Node {
                fn drop(&mut self) {
                    fire(BUILDER_DROP);
                }
            }
            impl Builder<AC, BC> for Node {
                type Artifact = Art;
                type DynState = St;
                type Err = i64;
                fn build(&self, r: &mut Resolver<AC, BC, St>) -> Result<$bin<Art>, i64> {
                    w(|w| {
                        let c = *w.active.last().expect("built outside of a call");
                        w.runs.push((c, self.i));
                    });
                    fire(0);
                    let mut v = self.i as i64 * 3 + r.my_state().add;
                    for (k, d) in self.deps.iter().enumerate() {
                        match (self.i + k) % 4 {
                            // one that copes with the failure of a dependency
                            0 => v = v.wrapping_mul(5).wrapping_add(r.resolve_ref(d).map_or(-1, |a| a.val)),
                            1 => v = v.wrapping_mul(5).wrapping_add(r.resolve_cloned(d)?.val),
                            _ => v = v.wrapping_mul(5).wrapping_add(r.resolve_ref(d)?.val),
                        }
                        fire(0);
                    }
                    if r.my_state().fail {
                        return Err(self.i as i64);
                    }
                    Ok($bin::new(Art { val: v }))
                }
                fn init_dyn_state(&self) -> St {
                    fire(1);
                    St { add: 0, fail: false }
                }
            }

            fn handle(slot: usize) -> Option<Bp> {
                HANDLES.with(|h| h.borrow().get(slot).cloned().flatten())
            }

            /// Makes and records a call to cache `c`, unless that one is just in use.
            fn call(c: usize, act: Act, slot: usize, val: i64, site: Option<usize>) {
                let rc = match CACHES.with(|x| x.borrow().get(c).cloned()) {
                    Some(x) => x,
                    None => return,
                };
                if rc.try_borrow_mut().is_err() {
                    return;
                }
                let bp = match act {
                    Act::ClearArtifacts | Act::ClearAll | Act::Collect | Act::Renew => None,
                    _ => match handle(slot) {
                        Some(b) => Some(b),
                        None => return,
                    },
                };
                let at = w(|w| {
                    if let Some(s) = site {
                        w.fired[s] += 1;
                    }
                    w.logs[c].push(Entry { act, slot, val, deps: vec![], site, seen: None });
                    w.logs[c].len() - 1
                });
                let seen = perform(&rc, c, act, bp.as_ref(), val);
                // (the handle made for this call is not the last one)
                w(|w| w.logs[c][at].seen = Some(seen));
            }

            fn perform(rc: &Rc<RefCell<TheCache>>, c: usize, act: Act, bp: Option<&Bp>, val: i64) -> Seen {
                let mut s = Seen::default();
                let first = w(|w| {
                    w.active.push(c);
                    w.runs.len()
                });
                let mut some = |r: Option<Result<i64, i64>>| match r {
                    None => {}
                    Some(Ok(v)) => {
                        s.kind = 1;
                        s.val = v;
                    }
                    Some(Err(e)) => {
                        s.kind = 2;
                        s.val = e;
                    }
                };
                let mut old = None;
                {
                    let mut cache = rc.borrow_mut();
                    match (act, bp) {
                        (Act::Get, Some(b)) => some(Some(cache.get_ref(b).map(|a| a.val))),
                        (Act::GetCloned, Some(b)) => some(Some(cache.get_cloned(b).map(|a| a.val))),
                        (Act::Lookup, Some(b)) => some(cache.lookup_ref(b).map(|a| Ok(a.val))),
                        (Act::LookupCloned, Some(b)) => some(cache.lookup_cloned(b).map(|a| Ok(a.val))),
                        (Act::State, Some(b)) => some(cache.get_dyn_state(b).map(|s| Ok(s.add * 2 + s.fail as i64))),
                        (Act::Write, Some(b)) => *cache.dyn_state_mut(b) = St { add: val, fail: false },
                        (Act::Fail, Some(b)) => cache.dyn_state_mut(b).fail = true,
                        (Act::Invalidate, Some(b)) => cache.invalidate(b),
                        (Act::Purge, Some(b)) => cache.purge(b),
                        (Act::ClearArtifacts, _) => cache.clear_artifacts(),
                        (Act::ClearAll, _) => cache.clear_all(),
                        (Act::Collect, _) => {
                            // (one collection need not find all)
                            let mut n = cache.number_of_known_builders();
                            loop {
                                cache.garbage_collection();
                                let m = cache.number_of_known_builders();
                                if m == n {
                                    break;
                                }
                                n = m;
                            }
                        }
                        (Act::Renew, _) => old = Some(std::mem::replace(&mut *cache, new_cache())),
                        _ => unreachable!(),
                    }
                    s.count = cache.number_of_known_builders();
                    if let Some(b) = bp {
                        s.known = cache.is_builder_known(b);
                    }
                }
                w(|w| {
                    w.active.pop();
                    s.ran = w.runs[first..].iter().filter(|r| r.0 == c).map(|r| r.1).collect();
                });
                // (what the old one holds may already use the new one)
                drop(old);
                s
            }

            fn create(i: usize, deps: &[usize]) {
                let deps = HANDLES.with(|h| deps.iter().filter_map(|d| h.borrow()[*d].clone()).collect());
                let b = Blueprint::new(Node { i, deps });
                HANDLES.with(|h| h.borrow_mut().push(Some(b)));
            }
            fn clear() {
                let h = HANDLES.with(|h| std::mem::take(&mut *h.borrow_mut()));
                drop(h);
                let c = CACHES.with(|c| std::mem::take(&mut *c.borrow_mut()));
                drop(c);
            }

            pub fn run(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
                let mut out = CaseOut::default();
                w(|w| *w = World::default());
                clear();
                let n_caches = 2 + src.below(2);
                CACHES.with(|c| *c.borrow_mut() = (0..n_caches).map(|_| Rc::new(RefCell::new(new_cache()))).collect());
                let plans = 1 + src.below(16);
                let draw_act = |src: &mut Source| {
                    [
                        Act::Get, Act::Invalidate, Act::GetCloned, Act::Write, Act::Purge, Act::Collect, Act::Fail, Act::Lookup,
                        Act::LookupCloned, Act::State, Act::ClearArtifacts, Act::ClearAll, Act::Renew,
                    ][src.weighted(&[30, 12, 8, 12, 6, 8, 5, 4, 3, 3, 3, 2, 2])]
                };
                w(|w| {
                    w.logs = vec![vec![]; n_caches];
                    w.on = true;
                    w.call = Some(call);
                });
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let mut made = 0;
                    let ops = src.length(4, 40, 400);
                    for k in 0..ops {
                        if src.exhausted() {
                            break;
                        }
                        src.begin();
                        if k % 2 == 0 && w(|w| w.plan.len()) < plans {
                            // (planned ahead of the call, while the list is short)
                            let (site, skip) = (src.weighted(&[8, 4, 8, 4, 4, 2, 2, 2]), src.draw(4));
                            let p = Plan {
                                site,
                                skip,
                                cache: src.below(n_caches),
                                act: draw_act(src),
                                slot: src.below(made.max(1)),
                                val: src.below(4) as i64,
                            };
                            w(|w| w.plan.push(p));
                        }
                        if made < 3 || made < 24 && src.chance(1, 6) {
                            let n = src.below(4).min(made);
                            let mut deps: Vec<usize> = vec![];
                            for _ in 0..n {
                                let d = src.below(made);
                                if HANDLES.with(|h| h.borrow()[d].is_some()) && !deps.contains(&d) {
                                    deps.push(d);
                                }
                            }
                            w(|w| {
                                for l in &mut w.logs {
                                    l.push(Entry { act: Act::New, slot: made, val: 0, deps: deps.clone(), site: None, seen: None });
                                }
                            });
                            create(made, &deps);
                            made += 1;
                        } else if src.chance(1, 8) {
                            let slot = src.below(made);
                            if handle(slot).is_some() {
                                w(|w| {
                                    for l in &mut w.logs {
                                        l.push(Entry { act: Act::DropHandle, slot, val: 0, deps: vec![], site: None, seen: None });
                                    }
                                });
                                let b = HANDLES.with(|h| h.borrow_mut()[slot].take());
                                drop(b);
                            }
                        } else {
                            let c = src.below(n_caches);
                            let act = draw_act(src);
                            let slot = src.below(made);
                            let val = src.below(4) as i64;
                            call(c, act, slot, val, None);
                        }
                        src.end();
                    }
                    // how everything is in the end
                    w(|w| w.on = false);
                    for c in 0..n_caches {
                        for s in 0..made {
                            call(c, Act::Lookup, s, 0, None);
                            call(c, Act::State, s, 0, None);
                        }
                    }
                }));
                w(|w| w.on = false);
                if res.is_err() {
                    out.fail = Some(format!("panic while caches are used within calls of others: {}", last_panic()));
                }
                clear();
                let (logs, fired) = w(|w| (std::mem::take(&mut w.logs), w.fired));
                let mut trace = String::new();
                // each cache alone
                for (c, log) in logs.iter().enumerate() {
                    if out.fail.is_some() && !cfg.want_trace {
                        break;
                    }
                    let rc = Rc::new(RefCell::new(new_cache()));
                    let _ = writeln!(trace, "cache {}:", c);
                    for e in log {
                        out.ops += 1;
                        if cfg.want_trace {
                            let from = e.site.map_or(String::new(), |s| format!(" (within {} of another cache's call)", SITES[s]));
                            let _ = writeln!(trace, "  {:?} {} deps {:?} val {}{} -> {:?}", e.act, e.slot, e.deps, e.val, from, e.seen);
                        }
                        if let Some(k) = &e.seen {
                            out.key = mix(out.key, mix(mix(e.act as u64, k.val as u64), mix(k.count as u64, k.ran.len() as u64)));
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| match e.act {
                            Act::New => {
                                create(e.slot, &e.deps);
                                None
                            }
                            Act::DropHandle => {
                                let b = HANDLES.with(|h| h.borrow_mut()[e.slot].take());
                                drop(b);
                                None
                            }
                            _ => {
                                let b = handle(e.slot);
                                Some(perform(&rc, c, e.act, b.as_ref(), e.val))
                            }
                        }));
                        match r {
                            Err(_) => {
                                out.unjudged = true;
                                break;
                            }
                            Ok(Some(mut alone)) => {
                                // those without a blueprint say nothing about one
                                if matches!(e.act, Act::ClearArtifacts | Act::ClearAll | Act::Collect | Act::Renew) {
                                    alone.known = false;
                                }
                                let is = match &e.seen {
                                    Some(s) => s.clone(),
                                    None => break,
                                };
                                let is = Seen {
                                    known: is.known && !matches!(e.act, Act::ClearArtifacts | Act::ClearAll | Act::Collect | Act::Renew),
                                    ..is
                                };
                                if is != alone && out.fail.is_none() {
                                    out.fail = Some(format!(
                                        "cache {}: {:?} {}{} had {:?}, the same calls without the other caches have {:?}",
                                        c,
                                        e.act,
                                        e.slot,
                                        e.site.map_or(String::new(), |s| format!(" within {} of another", SITES[s])),
                                        is,
                                        alone
                                    ));
                                }
                            }
                            Ok(None) => {}
                        }
                    }
                    let h = HANDLES.with(|h| std::mem::take(&mut *h.borrow_mut()));
                    drop(h);
                }
                w(|w| *w = World::default());
                for (i, n) in fired.iter().enumerate() {
                    if *n > 0 {
                        out.labels.push(LABELS[i]);
                        out.key = mix_str(out.key, SITES[i]);
                    }
                }
                out.nontrivial = fired.iter().sum::<u64>() >= 2 && logs.iter().filter(|l| l.iter().any(|e| e.seen.as_ref().map_or(false, |s| !s.ran.is_empty()))).count() >= 2;
                out.trace = trace;
                out
            }
        }
    };
}
const LABELS: [&str; 8] = [
    "another cache called while building",
    "another cache called while initialising a state",
    "another cache called while dropping an artifact",
    "another cache called while cloning an artifact",
    "another cache called while dropping a state",
    "another cache called while dropping a builder",
    "another cache called while formatting",
    "another cache called by a doctor",
];

mod all {
    use super::*;
    flavour!(rc, Rc<dyn Any>, Rc<dyn Any>, Rc);
    flavour!(arc, Arc<dyn Any + Send + Sync>, Arc<dyn Any + Send + Sync>, Arc);
    flavour!(boxed, Box<dyn Any>, Rc<dyn Any>, Box);
    pub fn run(f: usize, src: &mut Source, cfg: &CaseCfg) -> CaseOut {
        match f {
            0 => rc::run(src, cfg),
            1 => arc::run(src, cfg),
            _ => boxed::run(src, cfg),
        }
    }
}

pub fn case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let f = src.below(3);
    all::run(f, src, cfg)
}
