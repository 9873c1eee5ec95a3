use crate::ev;
use crate::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;

fn next<C: ConcurrentIter>(it: &C) {
    ev::pull_begin(1);
    match it.next() {
        Some(x) => ev::got(x),
        None => ev::pull_none(),
    }
    ev::pull_end();
}

fn next_id<C: ConcurrentIter>(it: &C) {
    ev::pull_begin(1);
    match it.next_id_and_value() {
        Some(x) => ev::got_at(x.idx, x.value),
        None => ev::pull_none(),
    }
    ev::pull_end();
}

fn values<C: ConcurrentIter>(it: &C) {
    let mut vals = it.values();
    ev::pull_begin(1);
    match vals.next() {
        Some(x) => ev::got(x),
        None => ev::pull_none(),
    }
    ev::pull_end();
}

fn ids_values<C: ConcurrentIter>(it: &C) {
    let mut vals = it.ids_and_values();
    ev::pull_begin(1);
    match vals.next() {
        Some((i, x)) => ev::got_at(i, x),
        None => ev::pull_none(),
    }
    ev::pull_end();
}

/// takes an arbitrary number of elements of the chunk and drops the rest
fn consume<T, I: ExactSizeIterator<Item = T>>(mut vals: I) {
    loop {
        ev::chunk_hint(vals.size_hint());
        ev::chunk_len(vals.len());
        if ev::choice() {
            break;
        }
        match vals.next() {
            Some(x) => ev::chunk_item(x),
            None => {
                ev::chunk_exhausted();
                break;
            }
        }
    }
    ev::chunk_drop();
    drop(vals);
}

fn one_chunk<C: ConcurrentIter>(it: &C) {
    let n = ev::any_usize();
    ev::pull_begin(n);
    match it.next_chunk(n) {
        Some(c) => {
            ev::chunk(c.begin_idx, c.values.len());
            consume(c.values);
        }
        None => ev::pull_none(),
    }
    ev::pull_end();
}

macro_rules! buffered {
    ($it:expr) => {{
        let n = ev::any_positive();
        let mut b = $it.buffered_iter(n);
        while ev::choice() {
            ev::pull_begin(n);
            match b.next() {
                Some(c) => {
                    ev::chunk(c.begin_idx, c.values.len());
                    consume(c.values);
                }
                None => ev::pull_none(),
            }
            ev::pull_end();
        }
    }};
}

fn for_each<C: ConcurrentIter>(it: &C) {
    let n = ev::any_positive();
    ev::loop_begin();
    it.for_each(n, |x| ev::visit(x));
    ev::loop_returned();
}

fn for_each_ids<C: ConcurrentIter>(it: &C) {
    let n = ev::any_positive();
    ev::loop_begin();
    it.enumerate_for_each(n, |i, x| ev::visit_at(i, x));
    ev::loop_returned();
}

fn fold<C: ConcurrentIter>(it: &C) {
    let n = ev::any_positive();
    ev::loop_begin();
    let r = it.fold(n, ev::fold_init(), |a, x| ev::fold_op(a, x));
    ev::fold_result(r);
    ev::loop_returned();
}

fn query<C: ConcurrentIter>(it: &C) {
    ev::query_begin();
    ev::try_len(it.try_get_len());
}

fn more<C: ConcurrentIter>(it: &C) {
    ev::query_begin();
    ev::has_more(it.has_more());
}

fn skip<C: ConcurrentIter>(it: &C) {
    ev::skip_begin();
    it.skip_to_end();
    ev::skip_end();
}

macro_rules! probes {
    ($mk:expr; $($f:ident => $name:ident),* $(,)? ; $b:ident) => {
        $(pub fn $name() {
            let it = std::mem::ManuallyDrop::new($mk);
            ev::share(&*it, it.counter());
            $f(&*it);
            ev::done();
        })*
        pub fn $b() {
            let it = std::mem::ManuallyDrop::new($mk);
            ev::share(&*it, it.counter());
            buffered!(it);
            ev::done();
        }
    };
}

macro_rules! kind {
    ($m:ident, $mk:expr) => {
        pub mod $m {
            use super::*;
            probes!($mk;
                next => probe_next, next_id => probe_next_id, values => probe_values, ids_values => probe_ids_values,
                one_chunk => probe_chunk, for_each => probe_for_each, for_each_ids => probe_for_each_ids, fold => probe_fold,
                query => probe_query, more => probe_more, skip => probe_skip; probe_buffered);
        }
    };
}

kind!(vec, ev::src_vec().into_con_iter());
kind!(array, ev::src_array().into_con_iter());
kind!(slice, ev::src_slice().into_con_iter());
kind!(range, IntoConcurrentIter::into_con_iter(ev::src_range()));
kind!(iter, IterIntoConcurrentIter::into_con_iter(ev::src_iter()));
kind!(cslice, IntoCloned::cloned(ev::src_slice().into_con_iter()));
kind!(pslice, IntoCopied::copied(ev::src_pod_slice().into_con_iter()));
kind!(citer, IntoCloned::cloned(IterIntoConcurrentIter::into_con_iter(ev::src_iter_ref())));
kind!(piter, IntoCopied::copied(IterIntoConcurrentIter::into_con_iter(ev::src_pod_iter_ref())));
// elements without destructor
kind!(pvec, ev::src_pod_vec().into_con_iter());
kind!(parray, ev::src_pod_array().into_con_iter());
// the analyser lets the crate see zero sized elements in these programs
kind!(zvec, ev::src_vec().into_con_iter());
kind!(zarray, ev::src_array().into_con_iter());
kind!(zslice, ev::src_slice().into_con_iter());
kind!(ziter, IterIntoConcurrentIter::into_con_iter(ev::src_iter()));
