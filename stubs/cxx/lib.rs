//! Declaration-only model of the Rust half of cxx (see DESIGN.md).
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
pub struct UniquePtr<T> {
    _p: PhantomData<T>, _q: *mut u8,
}
impl<T> UniquePtr<T> {
    pub fn null() -> Self { loop {} }
    pub fn is_null(&self) -> bool { loop {} }
    pub fn as_ref(&self) -> Option<&T> { loop {} }
    pub fn as_mut(&mut self) -> Option<Pin<&mut T>> { loop {} }
    pub fn pin_mut(&mut self) -> Pin<&mut T> { loop {} }
}
impl<T> Deref for UniquePtr<T> {
    type Target = T;
    fn deref(&self) -> &T { loop {} }
}
impl<T: Unpin> DerefMut for UniquePtr<T> {
    fn deref_mut(&mut self) -> &mut T { loop {} }
}
#[derive(Debug)]
pub struct Exception {
    _q: u64,
}
impl Exception {
    pub fn what(&self) -> &str { loop {} }
}
impl std::fmt::Display for Exception {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} }
}
impl std::error::Error for Exception {}
pub struct CxxString {
    _q: u64,
}
pub struct CxxVector<T> {
    _p: PhantomData<T>, _q: *mut u8,
}
pub struct SharedPtr<T> {
    _p: PhantomData<T>, _q: *mut u8,
}
