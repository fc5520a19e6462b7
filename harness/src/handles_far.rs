//! Puts artifacts into cans far from everything else: the same type has several vtables in a
//! program, and what a handle is equal to must not depend on which of them its can has.
use crate::handles::{ArtA, ArtB};
use std::{any::Any, rc::Rc, sync::Arc};

#[inline(never)]
pub fn rc_a(a: Rc<ArtA>) -> Rc<dyn Any> {
    a
}
#[inline(never)]
pub fn rc_b(a: Rc<ArtB>) -> Rc<dyn Any> {
    a
}
#[inline(never)]
pub fn arc_a(a: Arc<ArtA>) -> Arc<dyn Any + Send + Sync> {
    a
}
#[inline(never)]
pub fn arc_b(a: Arc<ArtB>) -> Arc<dyn Any + Send + Sync> {
    a
}
