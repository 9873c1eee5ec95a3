//! Other ways to use what is pulled, other element types, other constructors.
use crate::ev;
use crate::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::mem::ManuallyDrop;

/// `nth` between two elements
fn by_nth<T, I: ExactSizeIterator<Item = T>>(mut vals: I) {
    if ev::choice() {
        match vals.next() {
            Some(x) => ev::chunk_item(x),
            None => ev::chunk_exhausted(),
        }
    }
    let k = ev::any_usize();
    ev::chunk_nth_begin(k);
    match vals.nth(k) {
        Some(x) => {
            ev::chunk_nth(x);
            ev::chunk_len(vals.len());
            match vals.next() {
                Some(x) => ev::chunk_item(x),
                None => ev::chunk_exhausted(),
            }
        }
        None => ev::chunk_nth_none(),
    }
    ev::chunk_drop();
    drop(vals);
}

/// takes some elements and counts the others
fn by_count<T, I: ExactSizeIterator<Item = T>>(mut vals: I) {
    if ev::choice() {
        match vals.next() {
            Some(x) => ev::chunk_item(x),
            None => ev::chunk_exhausted(),
        }
    }
    ev::chunk_drop();
    let left = vals.len();
    ev::chunk_count(left, vals.count());
}

/// takes some elements and then all of the others by internal iteration
fn by_fold<T, I: ExactSizeIterator<Item = T>>(mut vals: I) {
    if ev::choice() {
        match vals.next() {
            Some(x) => ev::chunk_item(x),
            None => ev::chunk_exhausted(),
        }
    }
    vals.for_each(|x| ev::chunk_item(x));
    ev::chunk_exhausted();
}

macro_rules! tails {
    ($it:expr, $f:ident) => {{
        let n = ev::any_positive();
        if ev::choice() {
            ev::pull_begin(n);
            match $it.next_chunk(n) {
                Some(c) => {
                    ev::chunk(c.begin_idx, c.values.len());
                    $f(c.values);
                }
                None => ev::pull_none(),
            }
            ev::pull_end();
        } else {
            let mut b = $it.buffered_iter(n);
            ev::pull_begin(n);
            match b.next() {
                Some(c) => {
                    ev::chunk(c.begin_idx, c.values.len());
                    $f(c.values);
                }
                None => ev::pull_none(),
            }
            ev::pull_end();
        }
    }};
}

macro_rules! more {
    ($m:ident, $mk:expr) => {
        pub mod $m {
            use super::*;
            more!(@ probe_nth, by_nth, $mk);
            more!(@ probe_count, by_count, $mk);
            more!(@ probe_inner_fold, by_fold, $mk);
        }
    };
    (@ $p:ident, $f:ident, $mk:expr) => {
        pub fn $p() {
            let it = ManuallyDrop::new($mk);
            ev::share(&*it, it.counter());
            tails!(it, $f);
            ev::done();
        }
    };
}

more!(vec, ev::src_vec().into_con_iter());
more!(array, ev::src_array().into_con_iter());
more!(slice, ev::src_slice().into_con_iter());
more!(range, IntoConcurrentIter::into_con_iter(ev::src_range()));
more!(iter, IterIntoConcurrentIter::into_con_iter(ev::src_iter()));
more!(cslice, IntoCloned::cloned(ev::src_slice().into_con_iter()));
more!(pslice, IntoCopied::copied(ev::src_pod_slice().into_con_iter()));
more!(citer, IntoCloned::cloned(IterIntoConcurrentIter::into_con_iter(ev::src_iter_ref())));

macro_rules! ctors {
    ($($m:ident: $mk:expr;)*) => {
        $(pub mod $m {
            use super::*;
            pub fn probe_new() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                excl::use_it(&*it);
                ev::done();
            }
        })*
    };
}

ctors! {
    new_vec: ConIterOfVec::new(ev::src_vec());
    from_vec: ConIterOfVec::from(ev::src_vec());
    new_array: ConIterOfArray::new(ev::src_array());
    from_array: ConIterOfArray::from(ev::src_array());
    new_slice: ConIterOfSlice::new(ev::src_slice());
    from_slice: ConIterOfSlice::from(ev::src_slice());
    new_range: ConIterOfRange::new(ev::src_range());
    from_range: ConIterOfRange::from(ev::src_range());
    new_iter: ConIterOfIter::new(ev::src_iter());
    from_iter: ConIterOfIter::from(ev::src_iter());
    con_vec: ConcurrentIterable::con_iter(ev::src_vec_ref());
    con_array: ConcurrentIterable::con_iter(ev::src_array_ref());
    empty_array: ev::src_array0().into_con_iter();
    one_array: ev::src_array1().into_con_iter();
}
