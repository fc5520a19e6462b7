//! C23: the laws of cans, bins and weak cans, over random histories of conversions, for every
//! can of the library and for one a user wrote.
use crate::pbt::{mix, CaseCfg, CaseOut, Source};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;

/// What the histories know about one value.
#[derive(Debug)]
struct Val {
    ty: usize,
    val: i64,
    addr: usize,
    /// Strong holders.
    strong: usize,
}

#[derive(Default)]
struct Reg {
    made: BTreeMap<u32, ()>,
    dropped: BTreeMap<u32, u32>,
    zst_made: u64,
    zst_dropped: u64,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

pub trait Item: Debug + Send + Sync + 'static {
    fn mk(id: u32, val: i64) -> Self;
    /// The identity and the value, as far as the type has them.
    fn peek(&self) -> (Option<u32>, Option<i64>);
    fn poke(&mut self, v: i64);
    fn zst() -> bool {
        false
    }
}

/// A value that counts its drops; structurally equal for different `K`.
#[derive(Debug)]
pub struct It<P, const K: usize> {
    id: u32,
    pad: P,
    val: i64,
}
impl<P: Debug + Default + Send + Sync + 'static, const K: usize> Item for It<P, K> {
    fn mk(id: u32, val: i64) -> Self {
        REG.with(|r| r.borrow_mut().made.insert(id, ()));
        It { id, pad: P::default(), val }
    }
    fn peek(&self) -> (Option<u32>, Option<i64>) {
        (Some(self.id), Some(self.val))
    }
    fn poke(&mut self, v: i64) {
        self.val = v
    }
}
impl<P, const K: usize> Drop for It<P, K> {
    fn drop(&mut self) {
        let _ = &self.pad;
        let _ = REG.try_with(|r| *r.borrow_mut().dropped.entry(self.id).or_insert(0) += 1);
    }
}
#[derive(Debug)]
pub struct Zst;
impl Item for Zst {
    fn mk(_: u32, _: i64) -> Self {
        REG.with(|r| r.borrow_mut().zst_made += 1);
        Zst
    }
    fn peek(&self) -> (Option<u32>, Option<i64>) {
        (None, None)
    }
    fn poke(&mut self, _: i64) {}
    fn zst() -> bool {
        true
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        let _ = REG.try_with(|r| r.borrow_mut().zst_dropped += 1);
    }
}
impl Item for i64 {
    fn mk(_: u32, val: i64) -> Self {
        val
    }
    fn peek(&self) -> (Option<u32>, Option<i64>) {
        (None, Some(*self))
    }
    fn poke(&mut self, v: i64) {
        *self = v
    }
}
impl Item for u64 {
    fn mk(_: u32, val: i64) -> Self {
        val as u64
    }
    fn peek(&self) -> (Option<u32>, Option<i64>) {
        (None, Some(*self as i64))
    }
    fn poke(&mut self, v: i64) {
        *self = v as u64
    }
}
impl Item for String {
    fn mk(_: u32, val: i64) -> Self {
        val.to_string()
    }
    fn peek(&self) -> (Option<u32>, Option<i64>) {
        (None, self.parse().ok())
    }
    fn poke(&mut self, v: i64) {
        *self = v.to_string()
    }
}
impl Item for &'static str {
    fn mk(_: u32, val: i64) -> Self {
        ["0", "1", "2", "3", "4", "5", "6", "7"][(val & 7) as usize]
    }
    fn peek(&self) -> (Option<u32>, Option<i64>) {
        (None, None)
    }
    fn poke(&mut self, _: i64) {}
}
#[derive(Debug, Default)]
#[repr(align(64))]
pub struct Wide([u64; 8]);
#[derive(Debug)]
pub struct Big([u64; 40]);
impl Default for Big {
    fn default() -> Self {
        Big([7; 40])
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        assert!(self.0.iter().all(|x| *x == 7));
    }
}

type A0 = It<(), 0>;
type A1 = It<(), 1>;
type A2 = It<Wide, 0>;
type A3 = It<Big, 0>;
type A4 = It<String, 0>;
const NTY: usize = 10;

macro_rules! by_type {
    ($i:expr, $T:ident, $e:expr) => {
        match $i {
            0 => { type $T = A0; $e }
            1 => { type $T = A1; $e }
            2 => { type $T = A2; $e }
            3 => { type $T = A3; $e }
            4 => { type $T = A4; $e }
            5 => { type $T = Zst; $e }
            6 => { type $T = i64; $e }
            7 => { type $T = u64; $e }
            8 => { type $T = String; $e }
            _ => { type $T = &'static str; $e }
        }
    };
}

/// A can and its bins as a user may write them: a newtype around an `Arc`.
#[derive(Debug, Clone)]
pub struct UserCan(Arc<dyn Any + Send + Sync>);
#[derive(Debug)]
pub struct UserBin<T: ?Sized>(Arc<T>);
impl<T: ?Sized> Clone for UserBin<T> {
    fn clone(&self) -> Self {
        UserBin(self.0.clone())
    }
}
impl<T: ?Sized> std::ops::Deref for UserBin<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl daab::canning::CanBase for UserCan {
    fn can_as_ptr(&self) -> *const dyn Any {
        &*self.0
    }
}
impl<T: Debug + Send + Sync + 'static> daab::canning::Can<T> for UserCan {
    type Bin = UserBin<T>;
    fn bin_as_ptr(b: &UserBin<T>) -> *const () {
        &*b.0 as *const T as *const ()
    }
}
impl<T: Debug + Send + Sync + 'static> daab::canning::CanSized<T> for UserCan {
    fn into_bin(t: T) -> UserBin<T> {
        UserBin(Arc::new(t))
    }
    fn from_bin(b: UserBin<T>) -> Self {
        UserCan(b.0)
    }
    fn downcast_can(self) -> Option<UserBin<T>> {
        self.0.downcast().ok().map(UserBin)
    }
}
impl<T: Debug + Send + Sync + 'static> daab::canning::CanRef<T> for UserCan {
    fn downcast_can_ref(&self) -> Option<&T> {
        self.0.downcast_ref()
    }
}
impl daab::canning::CanStrong for UserCan {
    type CanWeak = std::sync::Weak<dyn Any + Send + Sync>;
    fn downgrade(&self) -> Self::CanWeak {
        Arc::downgrade(&self.0)
    }
    fn upgrade_from_weak(w: &Self::CanWeak) -> Option<Self> {
        w.upgrade().map(UserCan)
    }
}

struct St {
    vals: Vec<Val>,
    out: CaseOut,
    want: bool,
    wrong: u64,
    right: u64,
    upgrades: u64,
    dead: u64,
}
impl St {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            let s = f();
            self.out.trace.push_str(&s);
            self.out.trace.push('\n');
        }
    }
    fn check<T: Item>(&self, v: usize, t: &T, what: &str) -> Result<(), String> {
        let m = &self.vals[v];
        let (id, val) = t.peek();
        if id.map_or(false, |i| i as usize != v) || val.map_or(false, |x| x != m.val) {
            return Err(format!("{}: value {} should be {:?}, but is {:?}", what, v, m, t));
        }
        self.addr(v, t as *const T as *const () as usize, what)
    }
    fn addr(&self, v: usize, a: usize, what: &str) -> Result<(), String> {
        if self.vals[v].addr != a {
            return Err(format!("{}: value {} is at {:#x} instead of {:#x}", what, v, a, self.vals[v].addr));
        }
        Ok(())
    }
}

macro_rules! flavour {
    ($name:ident, $can:ty, $bin:ident, clone: $clone:tt, weak: $weak:tt, mutref: $mutref:tt, unsize: $unsize:tt, dynb: $dynb:tt) => {
        pub mod $name {
            use super::*;
            use daab::canning::*;
            #[allow(unused_imports)]
            use std::{rc::Rc, sync::Arc};
            type C = $can;

            pub trait AnyBin {
                fn clone_it(&self) -> Box<dyn AnyBin>;
                fn can(self: Box<Self>) -> C;
                fn ptr(&self) -> usize;
                fn check(&self, s: &St, v: usize) -> Result<(), String>;
                fn unsize_drop(self: Box<Self>, s: &St, v: usize) -> Result<(), String>;
            }
            struct B<T: Item>($bin<T>);
            impl<T: Item> AnyBin for B<T> {
                fn clone_it(&self) -> Box<dyn AnyBin> {
                    flavour!(@if $clone { Box::new(B::<T>(self.0.clone())) } else { unreachable!() })
                }
                fn can(self: Box<Self>) -> C {
                    <C as CanSized<T>>::from_bin(self.0)
                }
                fn ptr(&self) -> usize {
                    <C as Can<T>>::bin_as_ptr(&self.0) as usize
                }
                fn check(&self, s: &St, v: usize) -> Result<(), String> {
                    s.check::<T>(v, &*self.0, "bin")
                }
                #[allow(unused)]
                fn unsize_drop(self: Box<Self>, s: &St, v: usize) -> Result<(), String> {
                    // the address of an unsized bin is that of the value
                    flavour!(@if $unsize {
                        let b = <C as CanUnsized<T, dyn Debug + Send + Sync>>::into_unsized(self.0);
                        s.addr(v, <C as Can<dyn Debug + Send + Sync>>::bin_as_ptr(&b) as usize, "unsized bin")
                    } else { Ok(()) })
                }
            }

            enum Slot {
                Bin(usize, Box<dyn AnyBin>),
                Can(usize, C),
                #[allow(unused)]
                Weak(usize, flavour!(@ty $weak { <C as CanStrong>::CanWeak })),
            }

            fn strong(s: &mut St, v: usize, d: i32) -> Result<(), String> {
                s.vals[v].strong = (s.vals[v].strong as i32 + d) as usize;
                Ok(())
            }

            pub fn run(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
                REG.with(|r| *r.borrow_mut() = Reg::default());
                let mut s = St { vals: vec![], out: CaseOut::default(), want: cfg.want_trace, wrong: 0, right: 0, upgrades: 0, dead: 0 };
                s.say(|| format!("can {}", stringify!($can)));
                let mut slots: Vec<Slot> = vec![];
                let n = src.length(3, if cfg.thorough { 80 } else { 30 }, 1000);
                for _ in 0..n {
                    if src.exhausted() {
                        break;
                    }
                    src.begin();
                    let r = step(src, &mut s, &mut slots);
                    src.end();
                    s.out.ops += 1;
                    let r = r.and_then(|_| audit(&s, &slots));
                    if let Err(e) = r {
                        s.out.fail = Some(e);
                        break;
                    }
                }
                if s.out.fail.is_none() {
                    slots.clear();
                    for v in &mut s.vals {
                        v.strong = 0;
                    }
                    if let Err(e) = audit(&s, &slots) {
                        s.out.fail = Some(format!("after dropping everything: {}", e));
                    }
                }
                s.out.nontrivial = s.right > 0 && (s.wrong > 0 || s.upgrades > 0);
                for (l, k) in [("right type", s.right), ("wrong type", s.wrong), ("upgrade", s.upgrades), ("dead weak", s.dead)] {
                    if k > 0 {
                        s.out.labels.push(l);
                    }
                }
                s.out
            }

            /// Every value is alive exactly as long as it has a strong holder, and all holders
            /// agree on it.
            fn audit(s: &St, slots: &[Slot]) -> Result<(), String> {
                for sl in slots {
                    match sl {
                        Slot::Bin(v, b) => {
                            b.check(s, *v)?;
                            s.addr(*v, b.ptr(), "bin_as_ptr")?;
                        }
                        Slot::Can(v, c) => {
                            s.addr(*v, c.can_as_ptr() as *const () as usize, "can_as_ptr")?;
                            by_type!(s.vals[*v].ty, T, match <C as CanRef<T>>::downcast_can_ref(c) {
                                Some(t) => s.check::<T>(*v, t, "downcast_can_ref")?,
                                None => return Err(format!("downcast_can_ref does not find value {}", v)),
                            });
                        }
                        Slot::Weak(..) => {}
                    }
                }
                REG.with(|r| {
                    let r = r.borrow();
                    let mut zst = 0;
                    for (v, m) in s.vals.iter().enumerate() {
                        if m.ty < 5 {
                            let d = r.dropped.get(&(v as u32)).copied().unwrap_or(0);
                            if d != (m.strong == 0) as u32 {
                                return Err(format!("value {} ({:?}) was dropped {} times", v, m, d));
                            }
                        } else if m.ty == 5 && m.strong > 0 {
                            zst += 1;
                        }
                    }
                    if r.zst_made - r.zst_dropped != zst {
                        return Err(format!("{} zero-sized values live instead of {}", r.zst_made - r.zst_dropped, zst));
                    }
                    Ok(())
                })
            }

            fn step(src: &mut Source, s: &mut St, slots: &mut Vec<Slot>) -> Result<(), String> {
                let op = src.weighted(&[6, 3, 8, 5, 4, 3, 4, 8, 12, 3, 2, 2]);
                s.out.key = mix(s.out.key, op as u64);
                if op < 2 || slots.is_empty() {
                    let ty = src.below(NTY);
                    let v = s.vals.len();
                    // Few different values: equal ones of different types and cans occur.
                    let val = src.below(4) as i64;
                    s.out.key = mix(s.out.key, (ty as u64) << 8 | val as u64);
                    s.vals.push(Val { ty, val, addr: 0, strong: 1 });
                    if op == 1 {
                        s.say(|| format!("can {} := from_inner of type {} value {}", v, ty, val));
                        let c = by_type!(ty, T, <C as CanSized<T>>::from_inner(T::mk(v as u32, val)));
                        s.vals[v].addr = c.can_as_ptr() as *const () as usize;
                        slots.push(Slot::Can(v, c));
                    } else {
                        s.say(|| format!("bin {} := into_bin of type {} value {}", v, ty, val));
                        let b: Box<dyn AnyBin> = by_type!(ty, T, Box::new(B::<T>(<C as CanSized<T>>::into_bin(T::mk(v as u32, val)))));
                        s.vals[v].addr = b.ptr();
                        slots.push(Slot::Bin(v, b));
                    }
                    return Ok(());
                }
                let i = src.below(slots.len());
                s.out.key = mix(s.out.key, i as u64);
                match op {
                    // bin -> can
                    2 => {
                        if let Slot::Bin(..) = slots[i] {
                            if let Slot::Bin(v, b) = slots.swap_remove(i) {
                                s.say(|| format!("from_bin {}", v));
                                slots.push(Slot::Can(v, b.can()));
                            }
                        }
                    }
                    // can -> bin, by the right or another type
                    3 | 4 => {
                        if let Slot::Can(v, _) = slots[i] {
                            let ty = if op == 3 { s.vals[v].ty } else { src.below(NTY) };
                            let c = match slots.swap_remove(i) {
                                Slot::Can(_, c) => c,
                                _ => unreachable!(),
                            };
                            s.say(|| format!("downcast_can {} to type {}", v, ty));
                            let got: Option<Box<dyn AnyBin>> =
                                by_type!(ty, T, <C as CanSized<T>>::downcast_can(c).map(|b| Box::new(B::<T>(b)) as Box<dyn AnyBin>));
                            match (got, ty == s.vals[v].ty) {
                                (Some(b), true) => {
                                    s.right += 1;
                                    slots.push(Slot::Bin(v, b));
                                }
                                (None, false) => {
                                    s.wrong += 1;
                                    strong(s, v, -1)?;
                                }
                                (g, _) => {
                                    return Err(format!(
                                        "downcast_can of a value of type {} to type {} gave {}", s.vals[v].ty, ty,
                                        if g.is_some() { "a bin" } else { "nothing" }
                                    ))
                                }
                            }
                        }
                    }
                    // another type by reference
                    5 => {
                        if let Slot::Can(v, c) = &mut slots[i] {
                            let v = *v;
                            let ty = src.below(NTY);
                            s.say(|| format!("downcast_can_ref {} to type {}", v, ty));
                            let some = by_type!(ty, T, <C as CanRef<T>>::downcast_can_ref(c).is_some());
                            if some != (ty == s.vals[v].ty) {
                                return Err(format!("downcast_can_ref of type {} to {} is {}", s.vals[v].ty, ty, some));
                            }
                            if !some {
                                s.wrong += 1;
                            }
                            flavour!(@if $mutref {
                                let x = src.below(4) as i64;
                                let some = by_type!(ty, T, match <C as CanRefMut<T>>::downcast_can_mut(c) {
                                    Some(t) => {
                                        s.check::<T>(v, t, "downcast_can_mut")?;
                                        t.poke(x);
                                        if t.peek().1.is_some() {
                                            s.vals[v].val = x;
                                        }
                                        true
                                    }
                                    None => false,
                                });
                                if some != (ty == s.vals[v].ty) {
                                    return Err(format!("downcast_can_mut of type {} to {} is {}", s.vals[v].ty, ty, some));
                                }
                            } else {});
                        }
                    }
                    // clone
                    6 => {
                        flavour!(@if $clone {
                            let (v, n) = match &slots[i] {
                                Slot::Bin(v, b) => (*v, Slot::Bin(*v, b.clone_it())),
                                Slot::Can(v, c) => (*v, Slot::Can(*v, c.clone())),
                                Slot::Weak(..) => return Ok(()),
                            };
                            s.say(|| format!("clone {}", v));
                            strong(s, v, 1)?;
                            slots.push(n);
                        } else {});
                    }
                    7 => {
                        flavour!(@if $weak {
                            if let Slot::Can(v, c) = &slots[i] {
                                let v = *v;
                                let w = c.downgrade();
                                s.say(|| format!("downgrade {}", v));
                                slots.push(Slot::Weak(v, w));
                            }
                        } else {});
                    }
                    8 => {
                        flavour!(@if $weak {
                            if let Slot::Weak(v, w) = &slots[i] {
                                let v = *v;
                                let c = C::upgrade_from_weak(w);
                                s.say(|| format!("upgrade {}", v));
                                match (c, s.vals[v].strong > 0) {
                                    (Some(c), true) => {
                                        s.upgrades += 1;
                                        strong(s, v, 1)?;
                                        slots.push(Slot::Can(v, c));
                                    }
                                    (None, false) => s.dead += 1,
                                    (c, _) => return Err(format!(
                                        "upgrade_from_weak of value {} ({:?}) gave {}", v, s.vals[v],
                                        if c.is_some() { "a can" } else { "nothing" })),
                                }
                            }
                        } else {});
                    }
                    9 | 10 => {
                        let sl = slots.swap_remove(i);
                        let (v, st) = match &sl {
                            Slot::Bin(v, _) | Slot::Can(v, _) => (*v, true),
                            Slot::Weak(v, _) => (*v, false),
                        };
                        s.say(|| format!("drop {} of {}", if st { "a holder" } else { "a weak" }, v));
                        drop(sl);
                        if st {
                            strong(s, v, -1)?;
                        }
                    }
                    _ => {
                        if let Slot::Bin(..) = slots[i] {
                            if let Slot::Bin(v, b) = slots.swap_remove(i) {
                                s.say(|| format!("unsize and drop {}", v));
                                b.unsize_drop(s, v)?;
                                strong(s, v, -1)?;
                            }
                        }
                        flavour!(@if $dynb {
                            dyn_builder(src, s)?;
                        } else {});
                    }
                }
                Ok(())
            }

            flavour!(@item $dynb {
                /// The dynamic bin and the can made of one builder are that builder.
                fn dyn_builder(src: &mut Source, s: &mut St) -> Result<(), String> {
                    fn one<X: Item>(s: &St, val: i64) -> Result<(), String> {
                        type Dyn = dyn daab::Builder<C, C, Artifact = i64, DynState = (), Err = daab::Never>;
                        let bin = <C as CanSized<Bld<X>>>::into_bin(Bld(X::mk(u32::MAX, val)));
                        let want = <C as Can<Bld<X>>>::bin_as_ptr(&bin) as usize;
                        let keep = bin.clone();
                        let (d, c) = <C as CanBuilder<C, i64, (), daab::Never, Bld<X>>>::can_unsized(bin);
                        let a = <C as Can<Dyn>>::bin_as_ptr(&d) as usize;
                        let b = c.can_as_ptr() as *const () as usize;
                        if a != want || b != want {
                            return Err(format!("can_unsized of a builder at {:#x} gave a bin at {:#x} and a can at {:#x}", want, a, b));
                        }
                        if !format!("{:?}", d).contains(&format!("{:?}", keep.0)) {
                            return Err(format!("can_unsized of {:?} gave {:?}", keep, d));
                        }
                        drop((d, keep));
                        match <C as CanSized<Bld<X>>>::downcast_can(c) {
                            Some(b) if <C as Can<Bld<X>>>::bin_as_ptr(&b) as usize == want => {}
                            Some(_) => return Err("the can of can_unsized holds another builder".into()),
                            None => return Err("the can of can_unsized does not hold the builder".into()),
                        }
                        let _ = s;
                        Ok(())
                    }
                    let ty = src.below(NTY);
                    let val = src.below(4) as i64;
                    s.say(|| format!("can_unsized of a builder with a field of type {}", ty));
                    by_type!(ty, T, one::<T>(s, val))
                }
                #[derive(Debug)]
                struct Bld<X>(X);
                impl<X: Item> daab::Builder<C, C> for Bld<X> {
                    type Artifact = i64;
                    type DynState = ();
                    type Err = daab::Never;
                    fn build(&self, _: &mut daab::cache::Resolver<C, C, ()>) -> Result<<C as Can<i64>>::Bin, daab::Never> {
                        Ok(<C as CanSized<i64>>::into_bin(1))
                    }
                    fn init_dyn_state(&self) {}
                }
            });
        }
    };
    (@if true { $($a:tt)* } else { $($b:tt)* }) => { { $($a)* } };
    (@if false { $($a:tt)* } else { $($b:tt)* }) => { { $($b)* } };
    (@ty true { $($a:tt)* }) => { $($a)* };
    (@ty false { $($a:tt)* }) => { () };
    (@item true { $($a:tt)* }) => { $($a)* };
    (@item false { $($a:tt)* }) => {};
}

#[cfg(feature = "unsized")]
mod all {
    use super::*;
    flavour!(rc, Rc<dyn Any>, Rc, clone: true, weak: true, mutref: false, unsize: true, dynb: true);
    flavour!(arc, Arc<dyn Any + Send + Sync>, Arc, clone: true, weak: true, mutref: false, unsize: true, dynb: false);
    flavour!(boxed, Box<dyn Any>, Box, clone: false, weak: false, mutref: true, unsize: true, dynb: false);
    flavour!(user, UserCan, UserBin, clone: true, weak: true, mutref: false, unsize: false, dynb: false);
}
#[cfg(not(feature = "unsized"))]
mod all {
    use super::*;
    flavour!(rc, Rc<dyn Any>, Rc, clone: true, weak: true, mutref: false, unsize: false, dynb: true);
    flavour!(arc, Arc<dyn Any + Send + Sync>, Arc, clone: true, weak: true, mutref: false, unsize: false, dynb: false);
    flavour!(boxed, Box<dyn Any>, Box, clone: false, weak: false, mutref: true, unsize: false, dynb: false);
    flavour!(user, UserCan, UserBin, clone: true, weak: true, mutref: false, unsize: false, dynb: false);
}

pub fn c23(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    match src.weighted(&[5, 4, 4, 2]) {
        0 => all::rc::run(src, cfg),
        1 => all::arc::run(src, cfg),
        2 => all::boxed::run(src, cfg),
        _ => all::user::run(src, cfg),
    }
}
