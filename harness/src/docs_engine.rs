// Included once per can flavour; see docs.rs.
use super::super::docs::*;
use crate::pbt::{mix, CaseOut, Source};
use daab::canning::CanBase;
use daab::diagnostics::{ArtifactHandle, BuilderHandle, Doctor, TextualDoc, TextualDocOptions, VisgraphDoc, VisgraphDocOptions};
use daab::cache::Resolver;
use daab::Builder;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

type Bp<B> = daab::blueprint::Blueprint<B, BCan>;

#[derive(Clone, Debug)]
pub enum Dep {
    A(Bp<Alpha>),
    Q(Bp<Beta<'"'>>),
    S(Bp<Beta<'\\'>>),
    G(Bp<Gen<Vec<&'static str>>>),
    D(DynA),
}

pub struct Alpha(Core);
pub struct Beta<const C: char>(Core);
pub struct Gen<T: 'static>(Core, std::marker::PhantomData<T>);

pub struct Core {
    text: String,
    art: String,
    fail: bool,
    deps: Vec<Dep>,
}

impl Core {
    fn run<S: 'static>(&self, r: &mut Resolver<ArtCan, BCan, S>) -> Result<String, u8> {
        for d in &self.deps {
            d.resolve(r)?;
        }
        if self.fail {
            Err(1)
        } else {
            Ok(self.art.clone())
        }
    }
}

macro_rules! node {
    ([$($g:tt)*] $t:ty, $a:ty, $mk:expr) => {
        impl $($g)* fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str(&self.0.text)
            }
        }
        impl $($g)* Builder<ArtCan, BCan> for $t {
            type Artifact = $a;
            type DynState = ();
            type Err = u8;
            fn build(&self, r: &mut Resolver<ArtCan, BCan, ()>) -> Result<Bin<$a>, u8> {
                self.0.run(r).map(|t| Bin::new($mk(t)))
            }
            fn init_dyn_state(&self) {}
        }
    };
}
node!([] Alpha, Raw, Raw);
node!([] Beta<'"'>, Chr<'"'>, Chr);
node!([] Beta<'\\'>, Chr<'\\'>, Chr);
node!([<T: 'static>] Gen<T>, String, |x| x);

macro_rules! each {
    ($d:expr, $p:ident => $e:expr) => {
        match $d {
            Dep::A($p) => $e,
            Dep::Q($p) => $e,
            Dep::S($p) => $e,
            Dep::G($p) => $e,
            Dep::D($p) => $e,
        }
    };
}

impl Dep {
    fn resolve<S: 'static>(&self, r: &mut Resolver<ArtCan, BCan, S>) -> Result<(), u8> {
        each!(self, p => r.resolve_ref(p).map(|_| ()))
    }
    fn id(&self) -> daab::BuilderId {
        each!(self, p => p.id())
    }
}

/// Forwards to the doctor under test and writes down what it was told.
pub struct Tee<D> {
    inner: D,
    log: Rc<RefCell<Vec<Ev>>>,
    buf: Rc<RefCell<Vec<u8>>>,
    marks: Marks,
    /// After which events the output is flushed: resolve, build, others.
    flushed: [bool; 3],
}
impl<D> Tee<D> {
    fn mark(&self, e: usize) {
        if self.flushed[e] {
            self.marks.borrow_mut().push((self.log.borrow().len(), self.buf.borrow().len()));
        }
    }
}
fn bi(b: &BuilderHandle<BCan>) -> BInfo {
    BInfo { ptr: format!("{:p}", b.id()), ty: b.type_name, text: b.dbg_text.clone() }
}
impl<D: Doctor<ArtCan, BCan>> Doctor<ArtCan, BCan> for Tee<D> {
    fn resolve(&mut self, b: &BuilderHandle<BCan>, u: &BuilderHandle<BCan>) {
        self.log.borrow_mut().push(Ev::Resolve(bi(b), bi(u)));
        self.inner.resolve(b, u);
        self.mark(0);
    }
    fn build(&mut self, b: &BuilderHandle<BCan>, a: &ArtifactHandle<ArtCan>) {
        let ptr = format!("{:#x}", a.value.can_as_ptr() as *const () as usize);
        self.log.borrow_mut().push(Ev::Build(bi(b), ptr, a.type_name, a.dbg_text.clone()));
        self.inner.build(b, a);
        self.mark(1);
    }
    fn clear(&mut self) {
        self.log.borrow_mut().push(Ev::Clear);
        self.inner.clear();
        self.mark(2);
    }
    fn invalidate(&mut self, b: &BuilderHandle<BCan>) {
        self.log.borrow_mut().push(Ev::Inv(bi(b)));
        self.inner.invalidate(b);
        self.mark(2);
    }
}

trait Fin {
    fn fin(self);
}
impl Fin for VisgraphDoc<Out> {
    fn fin(self) {
        let _ = self.into_inner();
    }
}
impl Fin for TextualDoc<Out> {
    fn fin(self) {
        let _ = self.into_inner();
    }
}

fn history<D: Doctor<ArtCan, BCan> + Fin + 'static>(
    src: &mut Source,
    tee: Tee<D>,
    o: &mut CaseOut,
    trace: bool,
) {
    let mut cache = daab::cache::Cache::<ArtCan, BCan, _>::new_with_doctor(tee);
    let mut h: Vec<Dep> = vec![];
    let by_drop = src.chance(1, 2);
    // Now and then very many events: of all kinds, or with nothing that starts a new generation.
    let weights: [u32; 8] = match src.weighted(&[600, 1, 1]) {
        1 => [2, 14, 0, 0, 0, 6, 0, 1],
        2 => [2, 14, 10, 5, 2, 1, 1, 1],
        _ => [12, 14, 5, 3, 2, 1, 2, 1],
    };
    let n = 1 + src.below(if weights[0] == 2 { 2000 } else { 25 });
    for _ in 0..n {
        if src.exhausted() {
            break;
        }
        src.begin();
        let op = src.weighted(&weights);
        let op = if h.is_empty() { 0 } else { op };
        o.ops += 1;
        o.key = mix(o.key, op as u64);
        let mut say = String::new();
        match op {
            0 => {
                let kind = src.below(if HAS_DYN { 5 } else { 4 });
                let text = gen_text(src, weights[0] != 2);
                let art = gen_text(src, weights[0] != 2);
                let fail = src.chance(1, 8);
                let nd = if h.is_empty() { 0 } else { src.below(4) };
                let deps: Vec<Dep> = (0..nd).map(|_| h[src.below(h.len())].clone()).collect();
                o.key = mix(o.key, mix(kind as u64, crate::pbt::mix_str(crate::pbt::mix_str(nd as u64, &text), &art)));
                if trace {
                    say = format!("builder {} kind {} shows {:?}, artifact shows {:?}, fails {}, uses {} handles", h.len(), kind, text, art, fail, nd);
                }
                let c = Core { text, art, fail, deps };
                h.push(match kind {
                    0 => Dep::A(Bp::new(Alpha(c))),
                    1 => Dep::Q(Bp::new(Beta(c))),
                    2 => Dep::S(Bp::new(Beta(c))),
                    3 => Dep::G(Bp::new(Gen(c, std::marker::PhantomData))),
                    _ => make_dyn(Bp::new(Alpha(c))),
                });
            }
            1 => {
                let i = src.below(h.len());
                o.key = mix(o.key, i as u64);
                let r = each!(&h[i], p => cache.get_ref(p).map(|_| ()));
                say = format!("get {} -> {:?}", i, r);
            }
            2 => {
                let i = src.below(h.len());
                o.key = mix(o.key, i as u64);
                each!(&h[i], p => cache.invalidate(p));
                say = format!("invalidate {}", i);
            }
            3 => {
                let i = src.below(h.len());
                o.key = mix(o.key, i as u64);
                each!(&h[i], p => cache.purge(p));
                say = format!("purge {}", i);
            }
            4 => {
                cache.clear_all();
                say = "clear_all".into();
            }
            5 => {
                cache.clear_artifacts();
                say = "clear_artifacts".into();
            }
            6 => {
                // another handle of the same builder, with another static type where there is one
                let i = src.below(h.len());
                let d = match &h[i] {
                    Dep::A(p) if HAS_DYN => make_dyn(p.clone()),
                    d => d.clone(),
                };
                say = format!("handle {} of {:?}", h.len(), d.id());
                h.push(d);
            }
            _ => {
                let i = src.below(h.len());
                h.swap_remove(i);
                cache.garbage_collection();
                say = format!("drop handle {}, collect", i);
            }
        }
        if trace {
            o.trace.push_str(&say);
            o.trace.push('\n');
        }
        src.end();
    }
    if by_drop {
        drop(cache);
    } else {
        cache.into_doctor().inner.fin();
    }
}

pub fn visgraph(src: &mut Source, opts: VisgraphDocOptions, o: &mut CaseOut, trace: bool) -> (Vec<u8>, Vec<Ev>, Vec<(usize, usize)>) {
    let (out, buf) = Out::new(src);
    let log = Rc::new(RefCell::new(vec![]));
    let marks = Marks::default();
    let keeps = out.keeps();
    let tee = Tee { inner: VisgraphDoc::new(opts, out), log: log.clone(), buf: buf.clone(), marks: marks.clone(), flushed: [true, true, !keeps] };
    history(src, tee, o, trace);
    let b = buf.borrow().clone();
    let l = log.borrow().clone();
    let marks = marks.borrow().clone();
    (b, l, marks)
}
pub fn textual(src: &mut Source, opts: TextualDocOptions, o: &mut CaseOut, trace: bool) -> (Vec<u8>, Vec<Ev>, Vec<(usize, usize)>) {
    let (out, buf) = Out::new(src);
    let log = Rc::new(RefCell::new(vec![]));
    let marks = Marks::default();
    let keeps = out.keeps();
    let tee = Tee { inner: TextualDoc::new(opts, out), log: log.clone(), buf: buf.clone(), marks: marks.clone(), flushed: [!keeps, true, !keeps] };
    history(src, tee, o, trace);
    let b = buf.borrow().clone();
    let l = log.borrow().clone();
    let marks = marks.borrow().clone();
    (b, l, marks)
}
