//! The can flavours the histories run on.

pub mod rc {
    pub const FLAVOR: &str = "rc";
    pub const CLONE_CAN: bool = true;
    pub type ArtCan = daab::rc::CanType;
    pub type BCan = daab::rc::BuilderCan;
    macro_rules! if_clone { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_not_clone { ($($t:tt)*) => {}; }
    macro_rules! if_dyn { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_not_dyn { ($($t:tt)*) => {}; }
    macro_rules! if_mut { ($($t:tt)*) => {}; }
    macro_rules! impl_b {
        () => {
            impl daab::rc::Builder for NodeB {
                type Artifact = ArtB;
                type DynState = StB;
                type Err = ErrB;
                fn build(&self, r: &mut daab::rc::Resolver<StB>) -> Result<daab::rc::BinType<ArtB>, ErrB> {
                    fallible!(self, r, ArtB, ErrB)
                }
                fn init_dyn_state(&self) -> StB {
                    StB::init(self.uid)
                }
            }
        };
    }
    macro_rules! impl_c {
        () => {
            impl daab::rc::SimpleBuilder for NodeC {
                type Artifact = ArtC;
                fn build(&self, r: &mut daab::rc::Resolver) -> ArtC {
                    infallible!(self, r)
                }
            }
        };
    }
    include!("engine.rs");
}

pub mod arc {
    pub const FLAVOR: &str = "arc";
    pub const CLONE_CAN: bool = true;
    pub type ArtCan = daab::arc::CanType;
    pub type BCan = daab::arc::BuilderCan;
    macro_rules! if_clone { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_not_clone { ($($t:tt)*) => {}; }
    macro_rules! if_dyn { ($($t:tt)*) => {}; }
    macro_rules! if_not_dyn { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_mut { ($($t:tt)*) => {}; }
    macro_rules! impl_b {
        () => {
            impl daab::arc::Builder for NodeB {
                type Artifact = ArtB;
                type DynState = StB;
                type Err = ErrB;
                fn build(&self, r: &mut daab::arc::Resolver<StB>) -> Result<daab::arc::BinType<ArtB>, ErrB> {
                    fallible!(self, r, ArtB, ErrB)
                }
                fn init_dyn_state(&self) -> StB {
                    StB::init(self.uid)
                }
            }
        };
    }
    macro_rules! impl_c {
        () => {
            impl daab::arc::SimpleBuilder for NodeC {
                type Artifact = ArtC;
                fn build(&self, r: &mut daab::arc::Resolver) -> ArtC {
                    infallible!(self, r)
                }
            }
        };
    }
    include!("engine.rs");
}

pub mod boxed {
    pub const FLAVOR: &str = "boxed";
    pub const CLONE_CAN: bool = false;
    pub type ArtCan = daab::boxed::CanType;
    pub type BCan = daab::boxed::BuilderCan;
    macro_rules! if_clone { ($($t:tt)*) => {}; }
    macro_rules! if_not_clone { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_dyn { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_not_dyn { ($($t:tt)*) => {}; }
    #[cfg(feature = "mut_box")]
    macro_rules! if_mut { ($($t:tt)*) => { $($t)* } }
    #[cfg(not(feature = "mut_box"))]
    macro_rules! if_mut { ($($t:tt)*) => {}; }
    macro_rules! impl_b {
        () => {
            impl daab::boxed::Builder for NodeB {
                type Artifact = ArtB;
                type DynState = StB;
                type Err = ErrB;
                fn build(&self, r: &mut daab::boxed::Resolver<StB>) -> Result<daab::boxed::BinType<ArtB>, ErrB> {
                    fallible!(self, r, ArtB, ErrB)
                }
                fn init_dyn_state(&self) -> StB {
                    StB::init(self.uid)
                }
            }
        };
    }
    macro_rules! impl_c {
        () => {
            impl daab::boxed::SimpleBuilder for NodeC {
                type Artifact = ArtC;
                fn build(&self, r: &mut daab::boxed::Resolver) -> ArtC {
                    infallible!(self, r)
                }
            }
        };
    }
    include!("engine.rs");
}

/// Box artifacts with Arc builders: a mix no alias module provides.
pub mod boxarc {
    pub const FLAVOR: &str = "boxarc";
    pub const CLONE_CAN: bool = false;
    pub type ArtCan = Box<dyn std::any::Any>;
    pub type BCan = std::sync::Arc<dyn std::any::Any + Send + Sync>;
    macro_rules! if_clone { ($($t:tt)*) => {}; }
    macro_rules! if_not_clone { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_dyn { ($($t:tt)*) => {}; }
    macro_rules! if_not_dyn { ($($t:tt)*) => { $($t)* } }
    #[cfg(feature = "mut_box")]
    macro_rules! if_mut { ($($t:tt)*) => { $($t)* } }
    #[cfg(not(feature = "mut_box"))]
    macro_rules! if_mut { ($($t:tt)*) => {}; }
    macro_rules! impl_b { () => { impl_generic!(NodeB, ArtB, StB, ErrB); }; }
    macro_rules! impl_c { () => { impl_generic_c!(); }; }
    macro_rules! impl_generic_c {
        () => {
            impl daab::Builder<ArtCan, BCan> for NodeC {
                type Artifact = ArtC;
                type DynState = ();
                type Err = daab::Never;
                fn build(&self, r: &mut Resolver<ArtCan, BCan>) -> Result<Bin<ArtC>, daab::Never> {
                    Ok(mk_bin(infallible!(self, r)))
                }
                fn init_dyn_state(&self) {}
            }
        };
    }
    include!("engine.rs");
}

/// User-written cans: newtypes that implement the public canning traits.
pub mod custom {
    use daab::canning::{CanBase, CanBuilder, CanStrong, DynBuilderBin};
    use std::any::Any;
    use std::fmt::Debug;
    use std::rc::{Rc, Weak};

    pub const FLAVOR: &str = "custom";
    pub const CLONE_CAN: bool = true;
    pub type ArtCan = Tin;
    pub type BCan = Crate;

    /// An artifact can. Its pointer is shared, its bin is a named struct.
    #[derive(Clone)]
    pub struct Tin(Rc<dyn Any>);
    pub struct TinBin<T: ?Sized>(Rc<T>);
    /// A builder can, of another type than the artifact can.
    #[derive(Clone)]
    pub struct Crate(Rc<dyn Any>);
    pub struct CrateBin<T: ?Sized>(Rc<T>);
    pub struct CrateWeak(Weak<dyn Any>);

    impl Debug for Tin {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "Tin")
        }
    }
    impl Debug for Crate {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "Crate")
        }
    }
    impl Debug for CrateWeak {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "CrateWeak")
        }
    }
    macro_rules! bin {
        ($b:ident) => {
            impl<T: ?Sized> Clone for $b<T> {
                fn clone(&self) -> Self {
                    $b(self.0.clone())
                }
            }
            impl<T: ?Sized> AsRef<T> for $b<T> {
                fn as_ref(&self) -> &T {
                    &self.0
                }
            }
            impl<T: ?Sized + Debug> Debug for $b<T> {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    bin!(TinBin);
    bin!(CrateBin);
    macro_rules! can {
        ($c:ident, $b:ident) => {
            impl CanBase for $c {
                fn can_as_ptr(&self) -> *const dyn Any {
                    &*self.0
                }
            }
            impl<T: ?Sized + Debug + 'static> Can<T> for $c {
                type Bin = $b<T>;
                fn bin_as_ptr(b: &$b<T>) -> *const () {
                    &*b.0 as *const T as *const ()
                }
            }
            impl<T: Debug + 'static> CanSized<T> for $c {
                fn into_bin(t: T) -> $b<T> {
                    $b(Rc::new(t))
                }
                fn from_bin(b: $b<T>) -> Self {
                    $c(b.0)
                }
                fn downcast_can(self) -> Option<$b<T>> {
                    self.0.downcast().ok().map($b)
                }
            }
        };
    }
    can!(Tin, TinBin);
    can!(Crate, CrateBin);
    impl<T: Debug + 'static> CanRef<T> for Tin {
        fn downcast_can_ref(&self) -> Option<&T> {
            self.0.downcast_ref()
        }
    }
    impl CanStrong for Crate {
        type CanWeak = CrateWeak;
        fn downgrade(&self) -> CrateWeak {
            CrateWeak(Rc::downgrade(&self.0))
        }
        fn upgrade_from_weak(weak: &CrateWeak) -> Option<Self> {
            weak.0.upgrade().map(Crate)
        }
    }
    impl<AC: 'static, Artifact, DynState, Err, B> CanBuilder<AC, Artifact, DynState, Err, B> for Crate
    where
        B: daab::Builder<AC, Self, Artifact = Artifact, DynState = DynState, Err = Err> + 'static,
        Artifact: Debug + 'static,
        DynState: Debug + 'static,
        Err: Debug + 'static,
    {
        fn can_unsized(b: CrateBin<B>) -> (DynBuilderBin<AC, Self, Artifact, DynState, Err>, Self) {
            (CrateBin(b.0.clone()), Crate(b.0))
        }
    }
    #[cfg(feature = "unsized")]
    impl<T, UT> daab::canning::CanUnsized<T, UT> for Crate
    where
        T: ?Sized + Debug + 'static + std::marker::Unsize<UT>,
        UT: ?Sized + Debug + 'static,
    {
        fn into_unsized(b: CrateBin<T>) -> CrateBin<UT> {
            CrateBin(b.0)
        }
    }

    macro_rules! if_clone { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_not_clone { ($($t:tt)*) => {}; }
    macro_rules! if_dyn { ($($t:tt)*) => { $($t)* } }
    macro_rules! if_not_dyn { ($($t:tt)*) => {}; }
    macro_rules! if_mut { ($($t:tt)*) => {}; }
    macro_rules! impl_b { () => { impl_generic!(NodeB, ArtB, StB, ErrB); }; }
    macro_rules! impl_c {
        () => {
            impl daab::Builder<ArtCan, BCan> for NodeC {
                type Artifact = ArtC;
                type DynState = ();
                type Err = daab::Never;
                fn build(&self, r: &mut Resolver<ArtCan, BCan>) -> Result<Bin<ArtC>, daab::Never> {
                    Ok(mk_bin(infallible!(self, r)))
                }
                fn init_dyn_state(&self) {}
            }
        };
    }
    include!("engine.rs");
}

pub fn make(flavor: usize, caches: usize, doc: u8) -> Box<dyn crate::world::Exec> {
    match flavor {
        0 => Box::new(rc::TheExec::new(caches, doc)),
        1 => Box::new(arc::TheExec::new(caches, doc)),
        2 => Box::new(boxed::TheExec::new(caches, doc)),
        3 => Box::new(boxarc::TheExec::new(caches, doc)),
        _ => Box::new(custom::TheExec::new(caches, doc)),
    }
}
pub const FLAVORS: usize = 5;
