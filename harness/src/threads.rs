//! C31: threads with caches of their own that share builders and artifacts in `Arc`s.
use crate::pbt::{last_panic, mix, CaseCfg, CaseOut, Source};
use daab::blueprint::Promise;
use daab::arc::{BuilderCan, CanType, Resolver};
use daab::cache::CacheOwned;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex, RwLock};

type Bp = daab::blueprint::Blueprint<Node, BuilderCan>;

#[derive(Default, Debug)]
struct Count {
    builders: AtomicI64,
    arts: Vec<AtomicI64>,
    serial: AtomicU64,
}

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static RUNS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}

/// A builder: with the state 13 it fails at once, with 14 it panics after it resolved everything.
struct Node {
    id: usize,
    deps: Vec<Bp>,
    /// how long a build takes
    pause: usize,
    count: Arc<Count>,
}
impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Node {}", self.id)
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        self.count.builders.fetch_sub(1, SeqCst);
    }
}
pub struct Art {
    node: usize,
    val: i64,
    serial: u64,
    /// The thread it was built in.
    of: usize,
    count: Arc<Count>,
}
impl std::fmt::Debug for Art {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Art {} of {} = {}", self.serial, self.node, self.val)
    }
}
impl Clone for Art {
    fn clone(&self) -> Art {
        self.count.arts[self.of].fetch_add(1, SeqCst);
        Art { node: self.node, val: self.val, serial: self.serial, of: self.of, count: self.count.clone() }
    }
}
impl Drop for Art {
    fn drop(&mut self) {
        self.count.arts[self.of].fetch_sub(1, SeqCst);
    }
}
fn pause(n: usize) {
    match n {
        0 => (),
        1 => std::thread::yield_now(),
        _ => {
            for _ in 0..n {
                std::hint::spin_loop();
            }
        }
    }
}
impl daab::Builder<CanType, BuilderCan> for Node {
    type Artifact = Art;
    type DynState = i64;
    type Err = String;
    fn build(&self, r: &mut Resolver<i64>) -> Result<Arc<Art>, String> {
        RUNS.with(|x| x.borrow_mut().push(self.id));
        let st = *r.my_state();
        let mut val = st;
        pause(self.pause);
        if st == 13 {
            return Err(format!("failure {}", self.id));
        }
        for (i, d) in self.deps.iter().enumerate() {
            val = val * 3 + match (self.id + i) % 3 {
                0 => r.resolve_ref(d)?.val,
                1 => r.resolve(d)?.val,
                _ => r.resolve_cloned(d)?.val,
            };
        }
        pause(self.pause);
        if st == 14 {
            std::panic::resume_unwind(Box::new(Injected));
        }
        let of = ME.with(|m| m.get());
        self.count.arts[of].fetch_add(1, SeqCst);
        let serial = self.count.serial.fetch_add(1, SeqCst);
        Ok(Arc::new(Art { node: self.id, val, serial, of, count: self.count.clone() }))
    }
    fn init_dyn_state(&self) -> i64 {
        pause(self.pause);
        self.id as i64 % 11
    }
}
struct Injected;

#[derive(Clone, Copy, Debug)]
enum Op {
    /// The form: get, get_ref, get_cloned, get by a clone of the handle.
    Get(usize, u8),
    Lookup(usize),
    State(usize, i64),
    Invalidate(usize),
    Purge(usize),
    DropHandle(usize),
    CloneHandle(usize),
    Gc,
    ClearArtifacts,
    ClearAll,
    /// Hands an artifact to the other threads; or takes one of theirs and drops it.
    Give(usize),
    Take,
    /// Puts a new builder in a place, which uses the one of another place; hands one to the other
    /// threads; or puts one of theirs in a place.
    New(usize, usize),
    GiveHandle(usize),
    TakeHandle(usize),
}

#[derive(PartialEq, Debug)]
enum Fail {
    Err(String),
    Panic,
}
#[derive(Default)]
struct Model {
    art: BTreeMap<usize, (i64, Option<u64>)>,
    st: BTreeMap<usize, i64>,
}
impl Model {
    fn get(&mut self, n: usize, deps: &[Vec<usize>], runs: &mut Vec<usize>) -> Result<i64, Fail> {
        if let Some(a) = self.art.get(&n) {
            return Ok(a.0);
        }
        runs.push(n);
        let st = *self.st.entry(n).or_insert(n as i64 % 11);
        let mut val = st;
        if st == 13 {
            return Err(Fail::Err(format!("failure {}", n)));
        }
        for d in &deps[n] {
            val = val * 3 + self.get(*d, deps, runs)?;
        }
        if st == 14 {
            return Err(Fail::Panic);
        }
        self.art.insert(n, (val, None));
        Ok(val)
    }
    fn invalidate(&mut self, n: usize, deps: &[Vec<usize>]) {
        // deps point to smaller indexes
        let mut gone = vec![n];
        self.art.remove(&n);
        for o in n + 1..deps.len() {
            if deps[o].iter().any(|d| gone.contains(d)) {
                gone.push(o);
                self.art.remove(&o);
            }
        }
    }
}

/// What the threads share.
struct Shared {
    arts: Mutex<Vec<(Arc<Art>, i64)>>,
    handles: Mutex<Vec<(usize, Bp)>>,
    deps: RwLock<Vec<Vec<usize>>>,
    count: Arc<Count>,
}
/// The place of a builder: which one, and some handles of it.
type Slot = (usize, Vec<Bp>);

fn program(me: usize, ops: &[Op], mut hs: Vec<Slot>, sh: &Shared,
           cache: &mut CacheOwned<CanType, BuilderCan>) -> Result<(), String> {
    let mut m = Model::default();
    for (i, op) in ops.iter().enumerate() {
        RUNS.with(|r| r.borrow_mut().clear());
        let mut runs = vec![];
        let at = |e: String| format!("thread {}, call {} ({:?}): {}", me, i, op, e);
        let seen = |m: &mut Model, n: usize, a: &Art| -> Result<(), String> {
            let (v, s) = m.art.get_mut(&n).ok_or("an artifact where none should be")?;
            if a.node != n || a.val != *v || s.map_or(false, |s| s != a.serial) || a.of != me {
                return Err(format!("got {:?} (of thread {}) instead of value {} serial {:?}", a, a.of, v, s));
            }
            *s = Some(a.serial);
            Ok(())
        };
        match *op {
            Op::Get(b, _) | Op::Give(b) => {
                let n = hs[b].0;
                if let Some(h) = hs[b].1.last() {
                    let want = m.get(n, &sh.deps.read().unwrap(), &mut runs);
                    let form = if let Op::Get(_, f) = op { *f } else { 0 };
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match form {
                        0 => cache.get(h).map(Ok),
                        1 => cache.get_ref(h).map(|a| Err(a.clone())),
                        2 => cache.get_cloned(h).map(Err),
                        _ => cache.get(&h.clone()).map(Ok),
                    }));
                    let got = match got {
                        Ok(r) => r.map_err(Fail::Err),
                        Err(p) if p.is::<Injected>() => Err(Fail::Panic),
                        Err(_) => return Err(at(format!("panic {}", last_panic()))),
                    };
                    match (got, want) {
                        (Ok(a), Ok(v)) => {
                            let r: &Art = match &a {
                                Ok(a) => a,
                                Err(a) => a,
                            };
                            seen(&mut m, n, r).map_err(at)?;
                            if let (Op::Give(_), Ok(a)) = (op, a) {
                                sh.arts.lock().unwrap().push((a, v));
                            }
                        }
                        (Err(e), Err(f)) if e == f => {}
                        (g, w) => return Err(at(format!("{:?} instead of {:?}", g, w))),
                    }
                }
            }
            Op::Take => {
                let x = sh.arts.lock().unwrap().pop();
                if let Some((a, v)) = x {
                    if a.val != v {
                        return Err(at(format!("{:?} should have the value {}", a, v)));
                    }
                }
            }
            Op::Lookup(b) => {
                let n = hs[b].0;
                if let Some(h) = hs[b].1.last() {
                    match cache.lookup(h) {
                        Some(a) => seen(&mut m, n, &a).map_err(at)?,
                        None if m.art.contains_key(&n) => return Err(at("the artifact is lost".into())),
                        None => {}
                    }
                }
            }
            Op::State(b, v) => {
                let n = hs[b].0;
                if let Some(h) = hs[b].1.last() {
                    *cache.dyn_state_mut(h) = v;
                    m.invalidate(n, &sh.deps.read().unwrap());
                    m.st.insert(n, v);
                }
            }
            Op::Invalidate(b) => {
                let n = hs[b].0;
                if let Some(h) = hs[b].1.last() {
                    cache.invalidate(h);
                    m.invalidate(n, &sh.deps.read().unwrap());
                }
            }
            Op::Purge(b) => {
                let n = hs[b].0;
                if let Some(h) = hs[b].1.last() {
                    cache.purge(h);
                    m.invalidate(n, &sh.deps.read().unwrap());
                    m.st.remove(&n);
                }
            }
            Op::DropHandle(b) => {
                hs[b].1.pop();
            }
            Op::CloneHandle(b) => {
                if let Some(h) = hs[b].1.last().cloned() {
                    hs[b].1.push(h);
                }
            }
            Op::New(b, d) => {
                let uses = hs[d].1.last().filter(|_| b != d).map(|h| (hs[d].0, h.clone()));
                // (the old one goes first, so that the new one may get its place)
                hs[b].1.clear();
                let id = {
                    let mut deps = sh.deps.write().unwrap();
                    deps.push(uses.iter().map(|u| u.0).collect());
                    deps.len() - 1
                };
                sh.count.builders.fetch_add(1, SeqCst);
                let p = [0, 0, 1, 200][id % 4];
                let node = Node { id, deps: uses.into_iter().map(|u| u.1).collect(), pause: p, count: sh.count.clone() };
                hs[b] = (id, vec![Bp::new(node)]);
            }
            Op::GiveHandle(b) => {
                if let Some(h) = hs[b].1.last() {
                    sh.handles.lock().unwrap().push((hs[b].0, h.clone()));
                }
            }
            Op::TakeHandle(b) => {
                let x = sh.handles.lock().unwrap().pop();
                if let Some((id, h)) = x {
                    // (never two places of the same builder)
                    let b = hs.iter().position(|s| s.0 == id).unwrap_or(b);
                    if hs[b].0 == id {
                        hs[b].1.push(h);
                    } else {
                        hs[b] = (id, vec![h]);
                    }
                }
            }
            Op::Gc => cache.garbage_collection(),
            Op::ClearArtifacts => {
                cache.clear_artifacts();
                m.art.clear();
            }
            Op::ClearAll => {
                cache.clear_all();
                m.art.clear();
                m.st.clear();
            }
        }
        let got = RUNS.with(|r| r.borrow().clone());
        if got != runs {
            return Err(at(format!("ran {:?} instead of {:?}", got, runs)));
        }
        for (n, h) in hs.iter() {
            let n = *n;
            if let Some(h) = h.last() {
                match cache.lookup(h) {
                    Some(a) => seen(&mut m, n, &a).map_err(|e| at(format!("builder {}: {}", n, e)))?,
                    None if m.art.contains_key(&n) => return Err(at(format!("the artifact of {} is lost", n))),
                    None => {}
                }
                let st = cache.get_dyn_state(h).copied();
                if st != m.st.get(&n).copied() {
                    return Err(at(format!("builder {}: state {:?} instead of {:?}", n, st, m.st.get(&n))));
                }
                if cache.is_builder_known(h) != st.is_some() {
                    return Err(at(format!("builder {} is known: {}", n, st.is_none())));
                }
            }
        }
    }
    Ok(())
}

pub fn c31(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut out = CaseOut::default();
    let nt = src.length(2, 2, 7);
    let nb = 2 + src.below(6);
    let mut deps: Vec<Vec<usize>> = vec![];
    for i in 0..nb {
        let mut d = vec![];
        if i > 0 {
            for _ in 0..src.below(3) {
                let k = src.below(i);
                if !d.contains(&k) {
                    d.push(k);
                }
            }
        }
        deps.push(d);
    }
    let mut progs = vec![];
    for _ in 0..nt {
        let n = src.length(3, if cfg.thorough { 60 } else { 25 }, 400);
        let mut p = vec![];
        for _ in 0..n {
            if src.exhausted() {
                break;
            }
            src.begin();
            let op = src.weighted(&[8, 3, 4, 3, 2, 6, 2, 5, 1, 2, 2, 1, 3, 3, 3]);
            let b = src.below(nb);
            let c = src.below(nb);
            let v = [0, 1, 2, 13, 14][src.below(5)];
            let f = src.draw(3) as u8;
            src.end();
            p.push([
                Op::Get(b, f), Op::Lookup(b), Op::State(b, v), Op::Invalidate(b), Op::Purge(b), Op::DropHandle(b),
                Op::CloneHandle(b), Op::Gc, Op::ClearArtifacts, Op::Give(b), Op::Take, Op::ClearAll,
                Op::New(b, c), Op::GiveHandle(b), Op::TakeHandle(b),
            ][op]);
            out.key = mix(out.key, (op * 64 + b) as u64);
        }
        out.ops += p.len() as u64;
        progs.push(p);
    }
    let count = Arc::new(Count { arts: (0..nt).map(|_| AtomicI64::new(0)).collect(), ..Default::default() });
    let mut bps: Vec<Bp> = vec![];
    for i in 0..nb {
        count.builders.fetch_add(1, SeqCst);
        let pause = [0, 1, 30, 500][src.below(4)];
        let b = Node { id: i, deps: deps[i].iter().map(|d| bps[*d].clone()).collect(), pause, count: count.clone() };
        bps.push(Bp::new(b));
    }
    if cfg.want_trace {
        out.trace = format!("dependencies {:?}\n", deps);
        for (t, p) in progs.iter().enumerate() {
            out.trace.push_str(&format!("thread {}: {:?}\n", t, p));
        }
    }
    let sh = Shared { arts: Mutex::new(vec![]), handles: Mutex::new(vec![]), deps: RwLock::new(deps), count: count.clone() };
    let (b0, b1, b2) = (Barrier::new(nt), Barrier::new(nt), Barrier::new(nt));
    let handles: Vec<Vec<Slot>> = (0..nt).map(|_| bps.iter().enumerate().map(|(i, b)| (i, vec![b.clone()])).collect()).collect();
    drop(bps);
    let mut fails = vec![];
    std::thread::scope(|s| {
        let mut ts = vec![];
        for (t, hs) in handles.into_iter().enumerate() {
            let (ops, sh, b0, b1, b2, count) = (&progs[t], &sh, &b0, &b1, &b2, &count);
            ts.push(s.spawn(move || -> Result<(), String> {
                ME.with(|m| m.set(t));
                let mut cache = CacheOwned::<CanType, BuilderCan>::new();
                b0.wait();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| program(t, ops, hs, sh, &mut cache)))
                    .unwrap_or_else(|_| Err(format!("thread {}: panic {}", t, last_panic())));
                b1.wait();
                sh.arts.lock().unwrap().clear();
                sh.handles.lock().unwrap().clear();
                b2.wait();
                // No handle is left anywhere.
                r?;
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
                    let n = cache.number_of_known_builders();
                    cache.garbage_collection();
                    if cache.number_of_known_builders() == n {
                        break;
                    }
                }))
                .map_err(|_| format!("thread {}: panic in the last collections: {}", t, last_panic()))?;
                let n = cache.number_of_known_builders();
                let a = count.arts[t].load(SeqCst);
                if n != 0 || a != 0 {
                    return Err(format!("thread {}: {} builders are known and {} artifacts live after collecting everything", t, n, a));
                }
                Ok(())
            }));
        }
        for t in ts {
            if let Err(e) = t.join().unwrap_or_else(|_| Err("a thread panicked".into())) {
                fails.push(e);
            }
        }
    });
    if fails.is_empty() && count.builders.load(SeqCst) != 0 {
        fails.push(format!("{} builders are still alive", count.builders.load(SeqCst)));
    }
    out.fail = fails.into_iter().next();
    let gets = |p: &Vec<Op>| p.iter().filter(|o| matches!(o, Op::Get(..) | Op::Give(_))).count();
    let drops = |p: &Vec<Op>| p.iter().any(|o| matches!(o, Op::DropHandle(_)));
    out.nontrivial = progs.iter().filter(|p| gets(p) >= 2).count() >= 2 && progs.iter().any(drops)
        && progs.iter().any(|p| p.iter().any(|o| matches!(o, Op::Gc)));
    if out.nontrivial {
        out.labels.push("threads dropped handles while another collected");
    }
    out
}
