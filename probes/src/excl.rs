//! Exclusive use: conversion to a sequential iterator, destructors, clones, constructors, documented panics.
use crate::ev;
use crate::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::mem::ManuallyDrop;

/// takes an arbitrary number of elements of the remainder and drops the rest
fn seq<I: Iterator>(mut s: I) {
    loop {
        if ev::choice() {
            break;
        }
        match s.next() {
            Some(x) => ev::seq_item(x),
            None => {
                ev::seq_end();
                break;
            }
        }
    }
    ev::seq_drop();
    drop(s);
}

macro_rules! excl {
    ($m:ident, $mk:expr) => {
        pub mod $m {
            use super::*;
            pub fn probe_drop() {
                let it = $mk;
                ev::share(&it, it.counter());
                ev::unshare(&it);
                ev::dropping();
                drop(it);
                ev::all_dropped();
            }
            pub fn probe_seq() {
                let it = $mk;
                ev::share(&it, it.counter());
                ev::unshare(&it);
                ev::seq_begin();
                let s = it.into_seq_iter();
                ev::seq_converted();
                seq(s);
                ev::all_dropped();
            }
            pub fn probe_zero_chunk() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                ev::pull_begin(0);
                match it.next_chunk(0) {
                    Some(c) => ev::chunk(c.begin_idx, c.values.len()),
                    None => ev::pull_none(),
                }
                ev::pull_end();
                ev::done();
            }
            pub fn probe_zero_buffered() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                ev::must_panic();
                let _b = it.buffered_iter(0);
                ev::not_reached();
            }
            pub fn probe_zero_for_each() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                ev::must_panic();
                it.for_each(0, |_| {});
                ev::not_reached();
            }
            pub fn probe_zero_for_each_ids() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                ev::must_panic();
                it.enumerate_for_each(0, |_, _| {});
                ev::not_reached();
            }
            pub fn probe_zero_fold() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                ev::must_panic();
                it.fold(0, 0u64, |a, _| a);
                ev::not_reached();
            }
        }
    };
}

excl!(vec, ev::src_vec().into_con_iter());
excl!(array, ev::src_array().into_con_iter());
excl!(slice, ev::src_slice().into_con_iter());
excl!(range, IntoConcurrentIter::into_con_iter(ev::src_range()));
excl!(iter, IterIntoConcurrentIter::into_con_iter(ev::src_iter()));
excl!(cslice, IntoCloned::cloned(ev::src_slice().into_con_iter()));
excl!(pslice, IntoCopied::copied(ev::src_pod_slice().into_con_iter()));
excl!(citer, IntoCloned::cloned(IterIntoConcurrentIter::into_con_iter(ev::src_iter_ref())));
excl!(piter, IntoCopied::copied(IterIntoConcurrentIter::into_con_iter(ev::src_pod_iter_ref())));
excl!(pvec, ev::src_pod_vec().into_con_iter());
excl!(parray, ev::src_pod_array().into_con_iter());
excl!(zvec, ev::src_vec().into_con_iter());
excl!(zarray, ev::src_array().into_con_iter());
excl!(ziter, IterIntoConcurrentIter::into_con_iter(ev::src_iter()));
excl!(vref, ev::src_vec_ref().con_iter());
excl!(aref, ev::src_array_ref().con_iter());

/// safe methods of the low-level traits with arbitrary arguments
fn raw<T: Send + Sync, C: AtomicIter<T> + ConcurrentIter<Item = T>>(it: &C) {
    ev::raw_begin();
    if ev::choice() {
        match it.fetch_one() {
            Some(x) => ev::got_at(x.idx, x.value),
            None => {}
        }
    } else if ev::choice() {
        match it.fetch_n(ev::any_usize()) {
            Some(c) => {
                let mut v = c.values;
                loop {
                    if ev::choice() {
                        break;
                    }
                    match v.next() {
                        Some(x) => ev::chunk_item(x),
                        None => break,
                    }
                }
                ev::chunk_drop();
                drop(v);
            }
            None => {}
        }
    } else if ev::choice() {
        it.progress_and_get_begin_idx(ev::any_usize());
    } else if ev::choice() {
        it.early_exit();
    } else if ev::choice() {
        it.counter().fetch_and_add(ev::any_usize());
    } else if ev::choice() {
        it.counter().fetch_and_increment();
    } else {
        it.counter().current();
    }
    ev::raw_end();
}

macro_rules! raws {
    ($m:ident, $mk:expr) => {
        pub mod $m {
            use super::*;
            pub fn probe_raw() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                raw(&*it);
                ev::done();
            }
        }
    };
}

raws!(raw_vec, ev::src_vec().into_con_iter());
raws!(raw_array, ev::src_array().into_con_iter());
raws!(raw_slice, ev::src_slice().into_con_iter());
raws!(raw_range, IntoConcurrentIter::into_con_iter(ev::src_range()));
raws!(raw_iter, IterIntoConcurrentIter::into_con_iter(ev::src_iter()));
raws!(raw_cslice, IntoCloned::cloned(ev::src_slice().into_con_iter()));
raws!(raw_pslice, IntoCopied::copied(ev::src_pod_slice().into_con_iter()));
raws!(raw_citer, IntoCloned::cloned(IterIntoConcurrentIter::into_con_iter(ev::src_iter_ref())));

macro_rules! clones {
    ($m:ident, $mk:expr) => {
        pub mod $m {
            use super::*;
            pub fn probe_clone() {
                let it = ManuallyDrop::new($mk);
                ev::share(&*it, it.counter());
                ev::clone_begin();
                let c = ManuallyDrop::new(Clone::clone(&*it));
                ev::clone_end(&*c, c.counter());
                use_it(&*c);
                ev::done();
            }
        }
    };
}

/// one operation on an independent iterator
pub fn use_it<C: ConcurrentIter>(it: &C) {
    if ev::choice() {
        ev::pull_begin(1);
        match it.next_id_and_value() {
            Some(x) => ev::got_at(x.idx, x.value),
            None => ev::pull_none(),
        }
        ev::pull_end();
    } else if ev::choice() {
        ev::query_begin();
        ev::try_len(it.try_get_len());
    } else {
        ev::skip_begin();
        it.skip_to_end();
        ev::skip_end();
    }
}

clones!(clone_slice, ev::src_slice().into_con_iter());
clones!(clone_vref, ev::src_vec_ref().con_iter());
clones!(clone_range, IntoConcurrentIter::into_con_iter(ev::src_range()));

macro_rules! pair {
    ($m:ident, $src:expr) => {
        pub mod $m {
            use super::*;
            /// two iterators over one collection
            pub fn probe_pair() {
                let v = $src;
                let a = ManuallyDrop::new(v.con_iter());
                ev::share(&*a, a.counter());
                ev::pair_begin();
                let b = ManuallyDrop::new(v.con_iter());
                ev::pair_end(&*b, b.counter());
                use_it(&*b);
                ev::done();
            }
        }
    };
}

pair!(pair_vec, ev::src_vec_ref());
pair!(pair_array, ev::src_array_ref());
pair!(pair_slice, ev::src_slice());
pair!(pair_range, ev::src_range());
