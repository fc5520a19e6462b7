//! Histories on graphs of many builders: chains, fans and layers of up to 70000 nodes. The
//! builders are plain; what they compute, when they run, and what stays alive is compared with a
//! model after every call. For the history properties, in a small share of the cases.
use crate::pbt::{last_panic, mix, mix_str, CaseCfg, CaseOut, Rng, Source};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct World {
    runs: Vec<u32>,
    ran: Vec<usize>,
    fails: Vec<bool>,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    static ARTS: Cell<i64> = const { Cell::new(0) };
    static STATES: Cell<i64> = const { Cell::new(0) };
    static NODES: Cell<i64> = const { Cell::new(0) };
    static SERIAL: Cell<u64> = const { Cell::new(0) };
}
fn add(c: &'static std::thread::LocalKey<Cell<i64>>, n: i64) {
    let _ = c.try_with(|c| c.set(c.get() + n));
}

#[derive(Debug)]
pub struct Art {
    serial: u64,
    val: u64,
}
impl Art {
    fn new(val: u64) -> Art {
        add(&ARTS, 1);
        Art { serial: SERIAL.with(|s| { s.set(s.get() + 1); s.get() }), val }
    }
}
impl Drop for Art {
    fn drop(&mut self) {
        add(&ARTS, -1);
    }
}
#[derive(Debug)]
pub struct St(u64);
impl St {
    fn new() -> St {
        add(&STATES, 1);
        St(0)
    }
}
impl Drop for St {
    fn drop(&mut self) {
        add(&STATES, -1);
    }
}

/// What is known of one builder.
#[derive(Clone, Default)]
struct M {
    deps: Vec<u32>,
    handle: bool,
    art: Option<(u64, u64)>,
    /// the latest attempt still counts: how many of the dependencies it resolved
    used: usize,
    st: Option<u64>,
    known: bool,
    fails: bool,
}

struct Model {
    n: Vec<M>,
    users: Vec<Vec<u32>>,
}
impl Model {
    fn dependents(&self, i: usize) -> Vec<usize> {
        let mut seen = vec![false; self.n.len()];
        let mut out = vec![];
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            for &u in &self.users[x] {
                let u = u as usize;
                if !seen[u] && self.n[u].deps[..self.n[u].used].contains(&(x as u32)) {
                    seen[u] = true;
                    out.push(u);
                    todo.push(u);
                }
            }
        }
        out
    }
    fn invalidate(&mut self, i: usize) -> usize {
        let d = self.dependents(i);
        let mut hit = 0;
        for x in d {
            hit += self.n[x].art.is_some() as usize;
            self.n[x].art = None;
            self.n[x].used = 0;
        }
        self.n[i].art = None;
        self.n[i].used = 0;
        hit
    }
    fn alive(&self) -> Vec<bool> {
        let mut a: Vec<bool> = self.n.iter().map(|m| m.handle).collect();
        for i in (0..self.n.len()).rev() {
            if a[i] {
                for &d in &self.n[i].deps {
                    a[d as usize] = true;
                }
            }
        }
        a
    }
    /// What a request of `i` runs, in ascending order, with the result of each.
    fn request(&mut self, i: usize) -> (Vec<usize>, Result<u64, u64>) {
        // Builders ask for their dependencies in order and stop at the first failure, so what is
        // needed depends on the results: done by hand with an explicit stack.
        let mut ran = vec![];
        let mut done: std::collections::HashMap<usize, Result<u64, u64>> = Default::default();
        let mut stack: Vec<(usize, usize, u64)> = vec![];
        let mut ret: Option<Result<u64, u64>> = None;
        let mut call = Some(i);
        loop {
            if let Some(x) = call.take() {
                if let Some((_, v)) = self.n[x].art {
                    ret = Some(Ok(v));
                } else {
                    self.n[x].known = true;
                    let st = *self.n[x].st.get_or_insert(0);
                    self.n[x].used = 0;
                    ran.push(x);
                    stack.push((x, 0, mix(x as u64, st)));
                }
            }
            let Some(&mut (x, ref mut k, ref mut acc)) = stack.last_mut() else { break };
            if let Some(r) = ret.take() {
                match r {
                    Ok(v) => *acc = mix(*acc, v),
                    Err(e) => {
                        let r = Err(e);
                        done.insert(x, r);
                        ret = Some(r);
                        stack.pop();
                        if stack.is_empty() {
                            break;
                        }
                        continue;
                    }
                }
            }
            if *k < self.n[x].deps.len() {
                let d = self.n[x].deps[*k] as usize;
                *k += 1;
                let k = *k;
                self.n[x].used = k;
                self.n[d].known = true;
                call = Some(d);
                continue;
            }
            let r = if self.n[x].fails { Err(x as u64) } else { Ok(*acc) };
            if let Ok(v) = r {
                self.n[x].art = Some((0, v));
            }
            ret = Some(r);
            stack.pop();
            if stack.is_empty() {
                break;
            }
        }
        (ran, ret.unwrap())
    }
    fn depth(&self, i: usize, depth: &[usize]) -> usize {
        if self.n[i].art.is_some() {
            return 0;
        }
        1 + self.n[i].deps.iter().map(|d| depth[*d as usize]).max().unwrap_or(0)
    }
    fn depth_unbuilt(&self, i: usize) -> usize {
        let mut depth = vec![0usize; i + 1];
        for x in 0..=i {
            depth[x] = self.depth(x, &depth);
        }
        depth[i]
    }
}

/// The graph of a case: the dependencies of each node (all of smaller index).
fn graph(src: &mut Source, cfg: &CaseCfg) -> (String, Vec<Vec<u32>>) {
    // (Work quadratic in the size is slow, not wrong: the largest are few, and only in fast builds.)
    let size = match src.draw(200) {
        0..=120 => 20 + src.below(280),
        121..=180 => 300 + src.below(2700),
        181..=197 => 3000 + src.below(12_000),
        _ if cfg!(debug_assertions) => 3000 + src.below(12_000),
        _ => 15_000 + src.below(if cfg.thorough { 85_000 } else { 55_000 }),
    };
    let shape = src.below(6);
    let seed = src.draw(1 << 20);
    let mut r = Rng::new(seed ^ 0xC0FFEE);
    let n = size;
    let g: Vec<Vec<u32>> = match shape {
        0 => (0..n).map(|i| if i == 0 { vec![] } else { vec![i as u32 - 1] }).collect(),
        // one user of all, then a user of that one
        1 => (0..n).map(|i| match i {
            _ if i == n - 2 => (0..i as u32).collect(),
            _ if i == n - 1 => vec![i as u32 - 1],
            _ => vec![],
        }).collect(),
        // all use the second node, which uses the first
        2 => (0..n).map(|i| match i {
            0 => vec![],
            1 => vec![0],
            _ => vec![1],
        }).collect(),
        // binary tree, root last
        3 => (0..n).map(|i| {
            let j = n - 1 - i;
            [2 * j + 1, 2 * j + 2].iter().filter(|c| **c < n).map(|c| (n - 1 - c) as u32).collect()
        }).collect(),
        // layers
        4 => {
            let w = 1 + (r.next() as usize) % 40.min(n);
            (0..n).map(|i| {
                let l = i / w;
                let mut v: Vec<u32> = vec![];
                if l > 0 {
                    for _ in 0..1 + r.next() % 3 {
                        let d = ((l - 1) * w) as u32 + (r.next() as usize % w) as u32;
                        if !v.contains(&d) {
                            v.push(d);
                        }
                    }
                }
                v
            }).collect()
        }
        // anything below
        _ => (0..n).map(|i| {
            let mut v: Vec<u32> = vec![];
            if i > 0 {
                for _ in 0..r.next() % 4 {
                    let d = (r.next() % i as u64) as u32;
                    if !v.contains(&d) {
                        v.push(d);
                    }
                }
            }
            v
        }).collect(),
    };
    let name = ["a chain", "one using many", "many using one", "a tree", "layers", "a random graph"][shape];
    (format!("{} of {} builders, seed {}", name, n, seed), g)
}

/// Which discrepancies (kind, operation, something was cleared before) count against a property.
fn judge(prop: &str, what: &str, op: &str, h: &Had) -> bool {
    let inv = matches!(op, "invalidate" | "state" | "purge" | "churn");
    match prop {
        "C01" | "C12" => matches!(what, "rebuild" | "value" | "identity") || (what == "lost" && matches!(op, "build all" | "get" | "churn")),
        "C28" => what == "rebuild",
        "C02" => (what == "stale" || what == "panic" || what == "leak") && inv || what == "nobuild",
        "C03" => matches!(what, "lost" | "early" | "state" | "known" | "count") && inv,
        "C04" => what == "value" || what == "nobuild",
        "C05" => what == "state",
        "C06" => what == "error" || (h.failed && what != "panic"),
        "C07" => false,
        "C08" => h.cleared,
        "C09" => h.collected && !matches!(what, "incomplete" | "noprogress" | "leak"),
        "C10" => matches!(what, "incomplete" | "noprogress") || (op == "collect" && what == "leak"),
        "C11" => matches!(what, "known" | "count"),
        "C13" => matches!(what, "leak" | "early"),
        "C18" => what == "panic",
        _ => false,
    }
}
pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C18", "C28"];

#[derive(Default)]
struct Had {
    failed: bool,
    cleared: bool,
    collected: bool,
}

macro_rules! flavour {
    ($name:ident, $art:ty, $bc:ty, $bin:ident) => {
        mod $name {
            use super::*;
            use daab::blueprint::*;
            use daab::cache::{CacheOwned, Resolver};
            use daab::Builder;
            #[allow(unused_imports)]
            use std::{any::Any, rc::Rc, sync::Arc};
            type AC = $art;
            type BC = $bc;
            type Bp = Blueprint<Node, BC>;
            thread_local! {
                static GRAVE: RefCell<(bool, Vec<Vec<Bp>>)> = const { RefCell::new((false, vec![])) };
            }
            pub struct Node {
                i: usize,
                deps: Vec<Bp>,
            }
            impl std::fmt::Debug for Node {
                // doctors ask for this text
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "Node {{ i: {}, deps: {} }}", self.i, self.deps.len())
                }
            }
            impl Drop for Node {
                fn drop(&mut self) {
                    add(&NODES, -1);
                    // not recursively: the graphs are deep
                    let deps = std::mem::take(&mut self.deps);
                    let first = GRAVE.with(|g| {
                        let mut g = g.borrow_mut();
                        g.1.push(deps);
                        !std::mem::replace(&mut g.0, true)
                    });
                    if first {
                        while let Some(d) = GRAVE.with(|g| g.borrow_mut().1.pop()) {
                            drop(d);
                        }
                        GRAVE.with(|g| g.borrow_mut().0 = false);
                    }
                }
            }
            impl Builder<AC, BC> for Node {
                type Artifact = Art;
                type DynState = St;
                type Err = u64;
                fn build(&self, r: &mut Resolver<AC, BC, St>) -> Result<$bin<Art>, u64> {
                    W.with(|w| {
                        let mut w = w.borrow_mut();
                        w.runs[self.i] += 1;
                        w.ran.push(self.i);
                    });
                    let mut acc = mix(self.i as u64, r.my_state().0);
                    for d in &self.deps {
                        acc = mix(acc, r.resolve_ref(d)?.val);
                    }
                    if W.with(|w| w.borrow().fails[self.i]) {
                        return Err(self.i as u64);
                    }
                    Ok($bin::new(Art::new(acc)))
                }
                fn init_dyn_state(&self) -> St {
                    St::new()
                }
            }

            pub fn run(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
                let mut out = CaseOut::default();
                out.labels.push("scale");
                let (name, g) = graph(src, cfg);
                let n = g.len();
                out.key = mix_str(1, &name);
                W.with(|w| *w.borrow_mut() = World { runs: vec![0; n], ran: vec![], fails: vec![false; n] });
                let before = (ARTS.with(|c| c.get()), STATES.with(|c| c.get()), NODES.with(|c| c.get()));
                let mut m = Model { n: vec![M::default(); n], users: vec![vec![]; n] };
                let mut hs: Vec<Option<Bp>> = Vec::with_capacity(n);
                for (i, deps) in g.into_iter().enumerate() {
                    let d = deps.iter().map(|d| hs[*d as usize].clone().unwrap()).collect();
                    add(&NODES, 1);
                    hs.push(Some(Bp::new(Node { i, deps: d })));
                    for d in &deps {
                        m.users[*d as usize].push(i as u32);
                    }
                    m.n[i].deps = deps;
                    m.n[i].handle = true;
                }
                if cfg.want_trace {
                    out.trace.push_str(&format!("{}\n", name));
                }
                let mut cache = CacheOwned::<AC, BC>::new();
                let mut had = Had::default();
                // how many dead builders may still be in the cache
                let mut fuzzy = false;
                let mut last_count = 0usize;
                let len = 2 + src.below(12);
                // how deep a request may recurse
                let deepest = if src.chance(1, 4) { 1500 } else { 100 };
                let mut hits = 0usize;
                let mut arts_now: Vec<Option<u64>> = vec![None; n];
                for step in 0..len {
                    if src.exhausted() && step > 0 {
                        break;
                    }
                    src.begin();
                    let op = if step == 0 { 0 } else { src.weighted(&[4, 5, 4, 4, 2, 5, 2, 2, 1, 1, 2, 2, 1]) };
                    out.ops += 1;
                    let pick = |src: &mut Source, m: &Model| -> Option<usize> {
                        // the ends of the graph more often than others
                        let c = match src.draw(5) {
                            0 => 0,
                            1 => n - 1,
                            2 => 1,
                            3 => n.saturating_sub(2),
                            _ => src.below(n),
                        }.min(n - 1);
                        (c..n).chain(0..c).find(|i| m.n[*i].handle)
                    };
                    W.with(|w| w.borrow_mut().ran.clear());
                    let mut disc: Option<(&'static str, String)> = None;
                    let name: &'static str;
                    let mut text = String::new();
                    let mut exp_ran: Vec<usize> = vec![];
                    let mut got_panic = false;
                    macro_rules! guard {
                        ($e:expr) => {
                            match catch_unwind(AssertUnwindSafe(|| $e)) {
                                Ok(v) => Some(v),
                                Err(_) => {
                                    got_panic = true;
                                    None
                                }
                            }
                        };
                    }
                    match op {
                        0 => {
                            name = "build all";
                            // how deep a request would have to recurse (bounded from above)
                            let mut depth = vec![0usize; n];
                            'all: for i in 0..n {
                                depth[i] = m.depth(i, &depth);
                                if !m.n[i].handle || depth[i] > deepest {
                                    continue;
                                }
                                W.with(|w| w.borrow_mut().ran.clear());
                                let (ran, want) = m.request(i);
                                for x in ran.iter().rev() {
                                    depth[*x] = m.depth(*x, &depth);
                                }
                                let got = guard!(cache.get_ref(hs[i].as_ref().unwrap()).map(|a| a.val));
                                let r = W.with(|w| w.borrow().ran.clone());
                                if got_panic {
                                    break 'all;
                                }
                                let got = got.unwrap();
                                had.failed |= want.is_err();
                                if r != ran {
                                    disc = Some((if r.len() > ran.len() { "rebuild" } else { "nobuild" },
                                        format!("request of {} ran {:?} instead of {:?}", i, short(&r), short(&ran))));
                                    break 'all;
                                }
                                if got != want {
                                    disc = Some((if want.is_err() || got.is_err() { "error" } else { "value" },
                                        format!("request of {} gave {:?} instead of {:?}", i, got, want)));
                                    break 'all;
                                }
                            }
                            W.with(|w| w.borrow_mut().ran.clear());
                        }
                        1 => {
                            name = "get";
                            if let Some(i) = pick(src, &m).filter(|i| m.depth_unbuilt(*i) <= deepest) {
                                text = format!(" {}", i);
                                let (ran, want) = m.request(i);
                                exp_ran = ran;
                                had.failed |= want.is_err();
                                if let Some(got) = guard!(cache.get_ref(hs[i].as_ref().unwrap()).map(|a| a.val)) {
                                    if got != want {
                                        disc = Some((if want.is_err() || got.is_err() { "error" } else { "value" },
                                            format!("request of {} gave {:?} instead of {:?}", i, got, want)));
                                    }
                                }
                            }
                        }
                        2 => {
                            name = "invalidate";
                            if let Some(i) = pick(src, &m) {
                                text = format!(" {}", i);
                                hits += m.invalidate(i);
                                guard!(cache.invalidate(hs[i].as_ref().unwrap()));
                            }
                        }
                        3 => {
                            name = "state";
                            if let Some(i) = pick(src, &m) {
                                let v = 1 + src.draw(9);
                                text = format!(" {} := {}", i, v);
                                hits += m.invalidate(i);
                                m.n[i].st = Some(v);
                                m.n[i].known = true;
                                guard!(cache.dyn_state_mut(hs[i].as_ref().unwrap()).0 = v);
                            }
                        }
                        4 => {
                            name = "purge";
                            if let Some(i) = pick(src, &m) {
                                text = format!(" {}", i);
                                hits += m.invalidate(i);
                                m.n[i].st = None;
                                m.n[i].known = false;
                                guard!(cache.purge(hs[i].as_ref().unwrap()));
                            }
                        }
                        5 => {
                            name = "drop";
                            let keep = src.draw(4); // every how many-th is kept, 0: none but the picked
                            let a = src.below(n);
                            let b = if src.chance(1, 2) { n } else { (a + 1 + src.below(n)).min(n) };
                            text = format!(" {}..{} keeping one of {}", a, b, keep + 1);
                            for i in a..b {
                                if keep > 0 && i as u64 % (keep + 1) == 0 {
                                    continue;
                                }
                                hs[i] = None;
                                m.n[i].handle = false;
                            }
                        }
                        6 => {
                            name = "collect";
                            text = " once".into();
                            had.collected = true;
                            fuzzy = true;
                            guard!(cache.garbage_collection());
                        }
                        7 => {
                            name = "collect";
                            had.collected = true;
                            text = " all".into();
                            let mut rounds = 0;
                            // (each round may free but one layer; in deep graphs of the dead this takes its time)
                            let budget = 4_000_000 / n.max(1);
                            fuzzy = true;
                            guard!(loop {
                                let c = cache.number_of_known_builders();
                                cache.garbage_collection();
                                rounds += 1;
                                if cache.number_of_known_builders() == c {
                                    fuzzy = false;
                                    break;
                                }
                                if rounds > budget {
                                    break;
                                }
                            });
                        }
                        8 => {
                            name = "clear_artifacts";
                            had.cleared = true;
                            for x in &mut m.n {
                                x.art = None;
                                x.used = 0;
                            }
                            guard!(cache.clear_artifacts());
                        }
                        9 => {
                            name = "clear_all";
                            had.cleared = true;
                            for x in &mut m.n {
                                x.art = None;
                                x.used = 0;
                                x.st = None;
                                x.known = false;
                            }
                            fuzzy = false;
                            guard!(cache.clear_all());
                        }
                        10 => {
                            name = "fail";
                            if let Some(i) = pick(src, &m) {
                                let f = !m.n[i].fails;
                                text = format!(" {} {}", i, f);
                                m.n[i].fails = f;
                                W.with(|w| w.borrow_mut().fails[i] = f);
                            }
                        }
                        // the same again and again
                        11 => {
                            name = "churn";
                            let kind = src.draw(4);
                            let times = match src.draw(3) {
                                0 => 2 + src.below(30),
                                1 => 30 + src.below(300),
                                _ => 250 + src.below(900),
                            }.min(2 + 400_000 / n);
                            if let Some(i) = pick(src, &m).filter(|i| m.depth_unbuilt(*i) <= deepest) {
                                text = format!(" {} of {} {} times", ["invalidation and request", "state and request", "purge and request", "request", "collection and request"][kind as usize], i, times);
                                for t in 0..times {
                                    let h = hs[i].as_ref().unwrap();
                                    match kind {
                                        0 => {
                                            hits += m.invalidate(i);
                                            guard!(cache.invalidate(h));
                                        }
                                        1 => {
                                            hits += m.invalidate(i);
                                            m.n[i].st = Some(t as u64);
                                            m.n[i].known = true;
                                            guard!(cache.dyn_state_mut(h).0 = t as u64);
                                        }
                                        2 => {
                                            hits += m.invalidate(i);
                                            m.n[i].st = None;
                                            m.n[i].known = false;
                                            guard!(cache.purge(h));
                                        }
                                        3 => (),
                                        _ => {
                                            had.collected = true;
                                            fuzzy = true;
                                            guard!(cache.garbage_collection());
                                        }
                                    }
                                    if got_panic {
                                        break;
                                    }
                                    W.with(|w| w.borrow_mut().ran.clear());
                                    let (ran, want) = m.request(i);
                                    had.failed |= want.is_err();
                                    let Some(got) = guard!(cache.get_ref(h).map(|a| a.val)) else { break };
                                    let r = W.with(|w| w.borrow().ran.clone());
                                    if r != ran {
                                        disc = Some((if r.len() > ran.len() { "rebuild" } else { "nobuild" },
                                            format!("request {} of {} ran {:?} instead of {:?}", t, i, short(&r), short(&ran))));
                                    } else if got != want {
                                        disc = Some((if want.is_err() || got.is_err() { "error" } else { "value" },
                                            format!("request {} of {} gave {:?} instead of {:?}", t, i, got, want)));
                                    }
                                    if disc.is_some() {
                                        break;
                                    }
                                }
                                W.with(|w| w.borrow_mut().ran.clear());
                            }
                        }
                        _ => {
                            name = "new cache";
                            cache = CacheOwned::default();
                            for x in &mut m.n {
                                x.art = None;
                                x.used = 0;
                                x.st = None;
                                x.known = false;
                            }
                            fuzzy = false;
                            last_count = 0;
                        }
                    }
                    src.end();
                    if cfg.want_trace {
                        out.trace.push_str(&format!("{}{}\n", name, text));
                    }
                    out.key = mix_str(mix(out.key, op as u64), &text);
                    if got_panic {
                        disc = Some(("panic", format!("{} panicked: {}", name, last_panic())));
                    }
                    let alive = m.alive();
                    // the dead that have been collected
                    if disc.is_none() && name == "collect" {
                        let now = cache.number_of_known_builders();
                        let dead_known = (0..n).filter(|i| m.n[*i].known && !alive[*i]).count();
                        let live_known = (0..n).filter(|i| m.n[*i].known && alive[*i]).count();
                        if last_count > live_known && now >= last_count {
                            disc = Some(("noprogress", format!("{} known builders before and after, {} of them reachable", now, live_known)));
                        } else if !fuzzy && now > live_known {
                            disc = Some(("incomplete", format!("{} known builders are left, {} are reachable, {} are not", now, live_known, dead_known)));
                        }
                        if !fuzzy {
                            for i in 0..n {
                                if !alive[i] {
                                    m.n[i].known = false;
                                    m.n[i].art = None;
                                    m.n[i].used = 0;
                                    m.n[i].st = None;
                                }
                            }
                        }
                    }
                    if disc.is_none() {
                        let r = W.with(|w| w.borrow().ran.clone());
                        if r != exp_ran {
                            disc = Some((if r.len() > exp_ran.len() { "rebuild" } else { "nobuild" },
                                format!("{} ran {:?} instead of {:?}", name, short(&r), short(&exp_ran))));
                        }
                    }
                    // everything that can be seen
                    let check = catch_unwind(AssertUnwindSafe(|| {
                        for i in 0..n {
                            let Some(h) = &hs[i] else {
                                arts_now[i] = None;
                                continue;
                            };
                            let a = cache.lookup_ref(h).map(|a| (a.serial, a.val));
                            let was = arts_now[i];
                            arts_now[i] = a.map(|a| a.0);
                            match (&a, &mut m.n[i].art) {
                                (None, None) => (),
                                (Some(_), None) => return Some(("stale", format!("{} has an artifact", i))),
                                (None, Some(_)) => return Some(("lost", format!("{} has no artifact", i))),
                                (Some(a), Some(b)) => {
                                    if a.1 != b.1 {
                                        return Some(("value", format!("{} has the value {} instead of {}", i, a.1, b.1)));
                                    }
                                    // (0: built meanwhile)
                                    if b.0 != 0 && b.0 != a.0 {
                                        return Some(("identity", format!("{} has another artifact than before ({:?})", i, was)));
                                    }
                                    b.0 = a.0;
                                }
                            }
                            let s = cache.get_dyn_state(h).map(|s| s.0);
                            if s != m.n[i].st {
                                return Some(("state", format!("{} has the state {:?} instead of {:?}", i, s, m.n[i].st)));
                            }
                            if cache.is_builder_known(h) != m.n[i].known {
                                return Some(("known", format!("{} is known: {}", i, !m.n[i].known)));
                            }
                        }
                        None
                    }));
                    if disc.is_none() {
                        disc = check.unwrap_or_else(|_| Some(("panic", format!("reading after {} panicked: {}", name, last_panic()))));
                    }
                    if disc.is_none() {
                        last_count = cache.number_of_known_builders();
                        let known = |l: bool| (0..n).filter(|i| m.n[*i].known && (alive[*i] || l)).count();
                        let arts = |l: bool| (0..n).filter(|i| m.n[*i].art.is_some() && (alive[*i] || l)).count() as i64;
                        let sts = |l: bool| (0..n).filter(|i| m.n[*i].st.is_some() && (alive[*i] || l)).count() as i64;
                        let nodes = alive.iter().filter(|a| **a).count() as i64;
                        let is = (ARTS.with(|c| c.get()) - before.0, STATES.with(|c| c.get()) - before.1, NODES.with(|c| c.get()) - before.2);
                        let low = !fuzzy;
                        if last_count < known(low) || last_count > known(true) {
                            disc = Some(("count", format!("{} known builders instead of {}", last_count, known(low))));
                        } else if is.0 < arts(low) || is.1 < sts(low) || is.2 < nodes {
                            disc = Some(("early", format!("alive are {:?} instead of {:?}", is, (arts(low), sts(low), nodes))));
                        } else if is.0 > arts(true) || is.1 > sts(true) || is.2 > nodes {
                            disc = Some(("leak", format!("alive are {:?} instead of {:?}", is, (arts(true), sts(true), nodes))));
                        }
                    }
                    if let Some((what, d)) = disc {
                        if cfg.want_trace {
                            out.trace.push_str(&format!("    !! {} ({}): {}\n", what, name, d));
                        }
                        if cfg.prop == "ALL" || judge(&cfg.prop, what, name, &had) {
                            out.fail = Some(format!("many builders: {} at {}: {}", what, name, d));
                        } else {
                            out.unjudged = true;
                        }
                        break;
                    }
                }
                out.nontrivial = match cfg.prop.as_str() {
                    "C06" => had.failed,
                    "C08" => had.cleared,
                    "C09" | "C10" => had.collected,
                    _ => hits > 0,
                };
                drop(cache);
                hs.clear();
                if out.fail.is_none() && !out.unjudged {
                    let is = (ARTS.with(|c| c.get()) - before.0, STATES.with(|c| c.get()) - before.1, NODES.with(|c| c.get()) - before.2);
                    if is != (0, 0, 0) && (cfg.prop == "ALL" || cfg.prop == "C13") {
                        out.fail = Some(format!("many builders: {:?} artifacts, states and builders are left at the end", is));
                    }
                }
                out
            }
        }
    };
}

fn short(v: &[usize]) -> &[usize] {
    &v[..v.len().min(20)]
}

mod all {
    use super::*;
    flavour!(rc, Rc<dyn Any>, Rc<dyn Any>, Rc);
    flavour!(arc, Arc<dyn Any + Send + Sync>, Arc<dyn Any + Send + Sync>, Arc);
    flavour!(boxed, Box<dyn Any>, Rc<dyn Any>, Box);
    pub fn run(f: usize, src: &mut Source, cfg: &CaseCfg) -> CaseOut {
        match f {
            0 => rc::run(src, cfg),
            1 => arc::run(src, cfg),
            _ => boxed::run(src, cfg),
        }
    }
}

pub fn case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let f = src.below(3);
    all::run(f, src, cfg)
}
