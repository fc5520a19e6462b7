//! C21 and C22: the output of the doctors that come with the library.
//!
//! A small history is run on a cache whose doctor writes down the events and passes them on to
//! the doctor under test; its output is then compared with what the events ask for.
use crate::dot;
use crate::pbt::{CaseCfg, CaseOut, Source};
use daab::diagnostics::{TextualDocOptions, VisgraphDocOptions};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::io::{self, Write};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct BInfo {
    pub ptr: String,
    pub ty: &'static str,
    pub text: String,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Resolve(BInfo, BInfo),
    Build(BInfo, String, &'static str, String),
    Clear,
    Inv(BInfo),
}

/// An artifact that shows arbitrary text.
pub struct Raw(pub String);
impl fmt::Debug for Raw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
/// An artifact with characters in its type name.
#[derive(Debug)]
#[allow(dead_code)]
pub struct Chr<const C: char>(pub String);

/// Output that takes a few bytes at a time, is interrupted now and then, and may keep what it
/// got to itself until it is flushed or dropped.
pub struct Out {
    buf: Rc<RefCell<Vec<u8>>>,
    chunk: usize,
    kept: Option<Vec<u8>>,
    calls: u32,
}
impl Out {
    pub fn new(src: &mut Source) -> (Self, Rc<RefCell<Vec<u8>>>) {
        let buf = Rc::new(RefCell::new(vec![]));
        let chunk = [4096, 1, 7][src.below(3)];
        let kept = if src.chance(1, 3) { Some(vec![]) } else { None };
        (Out { buf: buf.clone(), chunk, kept, calls: 0 }, buf)
    }
    pub fn keeps(&self) -> bool {
        self.kept.is_some()
    }
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls % 13 == 5 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.chunk);
        match &mut self.kept {
            Some(k) => k.extend_from_slice(&b[..n]),
            None => self.buf.borrow_mut().extend_from_slice(&b[..n]),
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(k) = &mut self.kept {
            self.buf.borrow_mut().append(k);
        }
        Ok(())
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        let _ = self.flush();
    }
}

/// Numbers of events and of bytes of output at the same time.
pub type Marks = Rc<RefCell<Vec<(usize, usize)>>>;

const PIECES: &[&str] = &[
    "", "a", "Foo { x: 1 }", "\"", "\\", "\n", "\\n", "\\\"", "\\\\", "é", "e\u{301}", "💥", "{", "}", " -> ", ";", "]", "[", "//", "/*",
    "\n#", "\t", "\r", "\u{1b}", "\u{7f}", " ", "<b>", "\\N", "\\G", "'", "0x1", "{}", "\u{202e}", "=", ",", "\\l", "#0.0", "strict",
];

pub fn gen_text(src: &mut Source, long: bool) -> String {
    let n = src.below(6);
    let t: String = (0..n).map(|_| PIECES[src.below(PIECES.len())]).collect();
    if long && src.chance(1, 200) {
        // now and then a long one
        let max = 1 << (1 + src.below(12));
        return t.repeat(1 + src.below(max));
    }
    t
}

mod rc {
    pub type ArtCan = daab::rc::CanType;
    pub type BCan = daab::rc::BuilderCan;
    pub type Bin<T> = Rc<T>;
    pub const HAS_DYN: bool = true;
    pub type DynA = daab::rc::DynamicBlueprint<Raw, u8, ()>;
    fn make_dyn(a: Bp<Alpha>) -> Dep {
        Dep::D(a.into())
    }
    include!("docs_engine.rs");
}
mod arc {
    pub type ArtCan = daab::arc::CanType;
    pub type BCan = daab::arc::BuilderCan;
    pub type Bin<T> = std::sync::Arc<T>;
    pub const HAS_DYN: bool = false;
    pub type DynA = Bp<Alpha>;
    fn make_dyn(a: Bp<Alpha>) -> Dep {
        Dep::D(a)
    }
    include!("docs_engine.rs");
}
mod boxed {
    pub type ArtCan = daab::boxed::CanType;
    pub type BCan = daab::boxed::BuilderCan;
    pub type Bin<T> = Box<T>;
    pub const HAS_DYN: bool = true;
    pub type DynA = daab::boxed::DynamicBlueprint<Raw, u8, ()>;
    fn make_dyn(a: Bp<Alpha>) -> Dep {
        Dep::D(a.into())
    }
    include!("docs_engine.rs");
}

fn special(s: &str) -> bool {
    s.contains(|c: char| "\"\\\n".contains(c))
}

fn nontrivial(evs: &[Ev]) -> bool {
    evs.iter().any(|e| matches!(e, Ev::Resolve(..)))
        && evs.iter().any(|e| matches!(e, Ev::Build(_, _, _, t) if special(t)))
        && evs.iter().any(|e| matches!(e, Ev::Inv(_) | Ev::Clear))
}

fn check_visgraph(text: &[u8], evs: &[Ev], o: &VisgraphDocOptions) -> Result<(), String> {
    let text = std::str::from_utf8(text).map_err(|e| format!("the output is no UTF-8: {}", e))?;
    let g = dot::parse(text).map_err(|e| format!("the output is no DOT graph: {}", e))?;
    if !g.directed || !g.strict {
        return Err("the output is not a strict digraph".into());
    }
    // What the events ask for.
    let mut nodes: BTreeMap<String, (String, bool)> = BTreeMap::new();
    let mut edges: BTreeMap<(String, String), bool> = BTreeMap::new();
    let blabel = |b: &BInfo| if o.show_builder_values { b.text.clone() } else { b.ty.to_string() };
    let mut count = (0u64, 0u64);
    let mut stmts = 0;
    for e in evs {
        match e {
            Ev::Resolve(b, u) => {
                nodes.insert(b.ptr.clone(), (blabel(b), false));
                nodes.insert(u.ptr.clone(), (blabel(u), false));
                edges.insert((b.ptr.clone(), u.ptr.clone()), false);
                stmts += 1;
            }
            Ev::Build(b, p, ty, t) => {
                nodes.insert(b.ptr.clone(), (blabel(b), false));
                let name = format!("{}.{}-{}", count.0, count.1, p);
                let mut l = format!("#{}.{} {}", count.0, count.1, ty);
                if o.show_artifact_values {
                    l.push_str(" :\n");
                    l.push_str(t);
                }
                if nodes.insert(name.clone(), (l, true)).is_some() {
                    return Err(format!("harness: node {} twice", name));
                }
                edges.insert((b.ptr.clone(), name), true);
                stmts += 1;
                count.1 += 1;
            }
            Ev::Clear | Ev::Inv(_) => count = (count.0 + 1, 0),
        }
    }
    let want: BTreeSet<&String> = nodes.keys().collect();
    let got: BTreeSet<&String> = g.nodes.keys().collect();
    if want != got {
        return Err(format!("the graph has the nodes {:?}, the events have {:?}", got, want));
    }
    let we: BTreeSet<_> = edges.keys().collect();
    let ge: BTreeSet<_> = g.edges.keys().collect();
    if we != ge {
        return Err(format!("the graph has the edges {:?}, the events have {:?}", ge, we));
    }
    if g.edge_stmts < we.len() || g.edge_stmts > stmts {
        return Err(format!("{} edges written for {} resolutions and builds", g.edge_stmts, stmts));
    }
    for (n, (label, art)) in &nodes {
        let at = &g.nodes[n];
        let raw = at.get("label").ok_or_else(|| format!("node {} has no label", n))?;
        let l = dot::label_text(raw).map_err(|e| format!("node {}: {} ({:?})", n, e, raw))?;
        if &l != label {
            return Err(format!("node {} is labelled {:?} instead of {:?}", n, l, label));
        }
        let boxed = at.get("shape").map(|s| s.as_str()) == Some("box");
        if boxed != *art {
            return Err(format!("node {}: an artifact is {}, a box is {}", n, art, boxed));
        }
    }
    for (e, art) in &edges {
        let none = g.edges[e].get("arrowhead").map(|s| s.as_str()) == Some("none");
        if none != *art {
            return Err(format!("edge {:?}: leads to an artifact is {}, has no arrow head is {}", e, art, none));
        }
    }
    Ok(())
}

fn finish(mut o: CaseOut, out: &[u8], evs: &[Ev], r: Result<(), String>, trace: bool) -> CaseOut {
    o.nontrivial = nontrivial(evs);
    if evs.iter().any(|e| matches!(e, Ev::Inv(_))) {
        o.labels.push("invalidation");
    }
    if evs.iter().any(|e| matches!(e, Ev::Build(_, _, _, t) if special(t))) {
        o.labels.push("special text");
    }
    if let Err(e) = r {
        o.fail = Some(e);
    }
    if trace {
        o.trace.push_str(&format!("---- events ----\n{:#?}\n---- output ----\n{}\n", evs, String::from_utf8_lossy(out)));
    }
    o
}

pub fn c21(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut o = CaseOut::default();
    let opts = VisgraphDocOptions { show_builder_values: src.chance(1, 2), show_artifact_values: !src.chance(1, 4) };
    let (opts, used) = if src.chance(1, 8) {
        // the defaults are documented
        (VisgraphDocOptions { show_builder_values: false, show_artifact_values: true }, Default::default())
    } else {
        (opts, opts)
    };
    let fl = src.below(3);
    let (out, evs, marks) = match fl {
        0 => rc::visgraph(src, used, &mut o, cfg.want_trace),
        1 => arc::visgraph(src, used, &mut o, cfg.want_trace),
        _ => boxed::visgraph(src, used, &mut o, cfg.want_trace),
    };
    let mut r = check_visgraph(&out, &evs, &opts);
    // What is there if the process ends in between is a graph but for the last brace.
    for _ in 0..2 {
        if r.is_ok() && !marks.is_empty() {
            let (e, b) = marks[src.below(marks.len())];
            let mut t = out[..b].to_vec();
            t.push(b'}');
            r = check_visgraph(&t, &evs[..e], &opts).map_err(|m| format!("after {} events: {}", e, m));
        }
    }
    finish(o, &out, &evs, r, cfg.want_trace)
}

fn abbreviated(ty: &str, m_n: Option<(usize, usize)>) -> String {
    #[cfg(feature = "tynm")]
    if let Some((m, n)) = m_n {
        let tn: tynm::TypeName = ty.into();
        return tn.as_str_mn(m, n);
    }
    let _ = m_n;
    ty.to_string()
}

fn expected_text(evs: &[Ev], o: &TextualDocOptions) -> String {
    let mut s = String::new();
    let mut count = (0u64, 0u64);
    let b = |b: &BInfo| {
        let t = if o.show_builder_values { b.text.clone() } else { abbreviated(b.ty, o.tynm_m_n) };
        if o.show_addresses {
            format!("[{}] {}", b.ptr, t)
        } else {
            t
        }
    };
    for e in evs {
        match e {
            Ev::Resolve(x, u) => s.push_str(&format!("resolves {} -> {}\n", b(x), b(u))),
            Ev::Build(x, p, ty, t) => {
                let a = if o.show_artifact_values { t.clone() } else { abbreviated(ty, o.tynm_m_n) };
                if o.show_addresses {
                    s.push_str(&format!("built #{}.{} {} => [{}] {}\n", count.0, count.1, b(x), p, a));
                } else {
                    s.push_str(&format!("built #{}.{}  {} => {}\n", count.0, count.1, b(x), a));
                }
                count.1 += 1;
            }
            Ev::Clear => {
                s.push_str(&format!("Clears generation #{}\n", count.0));
                count = (count.0 + 1, 0);
            }
            Ev::Inv(x) => {
                s.push_str(&format!("Invalidates generation #{} targeting {}\n", count.0, b(x)));
                count = (count.0 + 1, 0);
            }
        }
    }
    s
}

pub fn c22(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut o = CaseOut::default();
    let opts = TextualDocOptions {
        show_builder_values: src.chance(1, 3),
        show_artifact_values: src.chance(1, 2),
        show_addresses: src.chance(1, 2),
        tynm_m_n: match src.below(4) {
            0 => Some((0, 0)),
            1 => None,
            _ => Some((src.below(4), src.below(4))),
        },
    };
    let (opts, used) = if src.chance(1, 8) {
        let d = TextualDocOptions {
            show_builder_values: false,
            show_artifact_values: false,
            show_addresses: false,
            tynm_m_n: Some((0, 0)),
        };
        (d, Default::default())
    } else {
        (opts, opts)
    };
    let fl = src.below(3);
    let (out, evs, marks) = match fl {
        0 => rc::textual(src, used, &mut o, cfg.want_trace),
        1 => arc::textual(src, used, &mut o, cfg.want_trace),
        _ => boxed::textual(src, used, &mut o, cfg.want_trace),
    };
    // What is there if the process ends in between are the records of the events so far.
    let (mut out, mut evs) = (out, evs);
    if !marks.is_empty() && src.chance(1, 2) {
        let (e, b) = marks[src.below(marks.len())];
        out.truncate(b);
        evs.truncate(e);
    }
    let want = expected_text(&evs, &opts);
    let r = if want.as_bytes() == &out[..] {
        Ok(())
    } else {
        let got = String::from_utf8_lossy(&out);
        let l = want.lines().zip(got.lines()).position(|(a, b)| a != b).unwrap_or(want.lines().count().min(got.lines().count()));
        Err(format!(
            "line {}: {:?} instead of {:?} ({} and {} lines)",
            l,
            got.split('\n').nth(l),
            want.split('\n').nth(l),
            got.split('\n').count(),
            want.split('\n').count()
        ))
    };
    let mut o = finish(o, &out, &evs, r, cfg.want_trace);
    o.nontrivial &= o.ops > 3;
    o
}
