//! Client programs which are *analysed*, never executed.
#![allow(dead_code, unused_must_use, clippy::all)]
pub mod ev;
pub mod model;
mod pulls;
pub mod excl;
pub mod more;

/// The analyser treats this number as a symbolic array length.
pub const N: usize = 8675309;

/// Element with identity and destructor.
pub struct Elem(u64);
impl Drop for Elem {
    #[inline(never)]
    fn drop(&mut self) {
        unimplemented!()
    }
}
impl Clone for Elem {
    #[inline(never)]
    fn clone(&self) -> Self {
        unimplemented!()
    }
}

/// Element with identity which is `Copy`.
#[derive(Clone, Copy)]
pub struct Pod(u64);

pub struct Acc(u64);

/// The wrapped sequential iterator.
pub struct Src(u64);
impl Drop for Src {
    #[inline(never)]
    fn drop(&mut self) {
        unimplemented!()
    }
}
impl Iterator for Src {
    type Item = Elem;
    #[inline(never)]
    fn next(&mut self) -> Option<Elem> {
        unimplemented!()
    }
    #[inline(never)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        unimplemented!()
    }
}

/// The wrapped sequential iterator over references.
pub struct SrcRef(u64);
impl Drop for SrcRef {
    #[inline(never)]
    fn drop(&mut self) {
        unimplemented!()
    }
}
impl Iterator for SrcRef {
    type Item = &'static Elem;
    #[inline(never)]
    fn next(&mut self) -> Option<&'static Elem> {
        unimplemented!()
    }
    #[inline(never)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        unimplemented!()
    }
}

/// The wrapped sequential iterator over references of `Copy` elements.
pub struct SrcPod(u64);
impl Drop for SrcPod {
    #[inline(never)]
    fn drop(&mut self) {
        unimplemented!()
    }
}
impl Iterator for SrcPod {
    type Item = &'static Pod;
    #[inline(never)]
    fn next(&mut self) -> Option<&'static Pod> {
        unimplemented!()
    }
    #[inline(never)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        unimplemented!()
    }
}
