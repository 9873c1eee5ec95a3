//! Events and environment choices: every function of this module is interpreted by the analyser, bodies are irrelevant.
#![allow(unused_variables)]
use crate::{Elem, Pod, Src, SrcPod, SrcRef};

macro_rules! op {
    ($($(#[$m:meta])* fn $n:ident $(<$($g:ident),*>)? ($($a:ident : $t:ty),*) $(-> $r:ty)?;)*) => {
        $( #[inline(never)] pub fn $n $(<$($g),*>)? ($($a: $t),*) $(-> $r)? { unimplemented!() } )*
    };
}

op! {
    // sources, the length is arbitrary
    fn src_vec() -> Vec<Elem>;
    fn src_pod_vec() -> Vec<Pod>;
    fn src_array() -> [Elem; crate::N];
    fn src_pod_array() -> [Pod; crate::N];
    fn src_array0() -> [Elem; 0];
    fn src_array1() -> [Elem; 1];
    fn src_slice() -> &'static [Elem];
    fn src_pod_slice() -> &'static [Pod];
    fn src_array_ref() -> &'static [Elem; crate::N];
    fn src_vec_ref() -> &'static Vec<Elem>;
    fn src_range() -> std::ops::Range<usize>;
    fn src_iter() -> Src;
    fn src_iter_ref() -> SrcRef;
    fn src_pod_iter_ref() -> SrcPod;
    // choices
    fn any_usize() -> usize;
    fn any_positive() -> usize;
    fn choice() -> bool;
    // modes
    fn share<C, K>(it: &C, counter: &K);
    fn unshare<C>(it: &C);
    fn done();
    // pulls
    fn pull_begin(n: usize);
    fn pull_none();
    fn pull_end();
    fn got<T>(x: T);
    fn got_at<T>(i: usize, x: T);
    fn chunk(begin: usize, len: usize);
    fn chunk_hint(h: (usize, Option<usize>));
    fn chunk_len(len: usize);
    fn chunk_item<T>(x: T);
    fn chunk_nth_begin(n: usize);
    fn chunk_nth<T>(x: T);
    fn chunk_nth_none();
    fn chunk_count(left: usize, n: usize);
    fn chunk_exhausted();
    fn chunk_drop();
    // whole-iteration methods
    fn loop_begin();
    fn visit<T>(x: T);
    fn visit_at<T>(i: usize, x: T);
    fn fold_init() -> crate::Acc;
    fn fold_op<T>(acc: crate::Acc, x: T) -> crate::Acc;
    fn fold_result(acc: crate::Acc);
    fn loop_returned();
    fn must_panic();
    fn not_reached();
    // queries
    fn query_begin();
    fn try_len(l: Option<usize>);
    fn has_more(h: orx_concurrent_iter::HasMore);
    // skip
    fn skip_begin();
    fn skip_end();
    // into_seq_iter
    fn seq_begin();
    fn seq_converted();
    fn seq_item<T>(x: T);
    fn seq_end();
    fn seq_drop();
    fn dropping();
    fn all_dropped();
    // low-level safe methods
    fn raw_begin();
    fn raw_end();
    // independent iterators
    fn clone_begin();
    fn clone_end<C, K>(it: &C, counter: &K);
    fn pair_begin();
    fn pair_end<C, K>(it: &C, counter: &K);
}
