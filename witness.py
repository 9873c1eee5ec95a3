"""C14: minimal client programs which the compiler must reject, each with a valid twin which it must accept.

The deciding step is the type checker and the borrow checker of rustc on the crate's current source. A program counts as rejected
only if all of its errors belong to the class which its category expects, and as evidence only if the twin compiles.
"""
import json
import multiprocessing.pool
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))

SEND = {"E0277", "E0599", "E0271"}
BORROW = {"E0597", "E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0716", "E0521", "E0621", "E0310", "E0700", "lifetime"}
UNSAFE = {"E0133", "E0616", "E0624", "E0603", "E0599", "E0425", "E0433", "E0423", "E0451", "E0432"}
NOIMPL = {"E0277", "E0599"}
MOVED = {"E0382", "E0505", "E0507", "E0515", "E0597"}

PRE = """#![allow(warnings)]
use orx_concurrent_iter::*;
use orx_concurrent_iter::iter::atomic_iter::{AtomicIter, AtomicIterWithInitialLen};
use std::rc::Rc;
use std::cell::Cell;
use std::marker::PhantomData;
// neither Send nor Sync
#[derive(Clone, Copy)] pub struct Neither(PhantomData<*const ()>);
impl Neither { pub const fn new() -> Self { Neither(PhantomData) } }
// Send, not Sync
pub struct OnlySend(Cell<u8>);
impl Clone for OnlySend { fn clone(&self) -> Self { OnlySend(Cell::new(0)) } }
impl OnlySend { pub const fn new() -> Self { OnlySend(Cell::new(0)) } }
// Sync, not Send
#[derive(Clone, Copy)] pub struct OnlySync(PhantomData<*const ()>);
unsafe impl Sync for OnlySync {}
impl OnlySync { pub const fn new() -> Self { OnlySync(PhantomData) } }
// both
#[derive(Clone, Copy)] pub struct Both(u8);
impl Both { pub const fn new() -> Self { Both(0) } }
pub struct NoClone(u8);
pub fn is_send<T: Send>() {}
pub fn is_sync<T: Sync>() {}
pub fn is_clone<T: Clone>() {}
pub fn send<T: Send>(_: &T) {}
pub fn sync<T: Sync>(_: &T) {}
pub fn con<C: ConcurrentIter>(_: &C) {}
pub fn used<T>(_: T) {}
// an iterator which may not cross threads, over elements which may
pub struct LocalIter<T>(PhantomData<*const ()>, PhantomData<T>);
impl<T> Iterator for LocalIter<T> { type Item = T; fn next(&mut self) -> Option<T> { None } }
pub struct GoodIter<T>(PhantomData<T>);
impl<T> Iterator for GoodIter<T> { type Item = T; fn next(&mut self) -> Option<T> { None } }
"""


def programs():
    """(name, category, what is accepted if the program compiles, rejected body, twin body or None)"""
    out = []

    def add(name, cat, what, bad, good):
        out.append((name, cat, what, bad, good))

    # ------------------------------------------------------------ element types which may not cross threads
    els = [("neither Send nor Sync", "Neither"), ("not Sync", "OnlySend"), ("not Send", "OnlySync")]
    makers = [
        ("Vec::into_con_iter", "let it = IntoConcurrentIter::into_con_iter(vec![{E}::new()]);"),
        ("Vec::con_iter", "let v = vec![{E}::new()]; let it = ConcurrentIterable::con_iter(&v);"),
        ("ConIterOfVec::new", "let it = ConIterOfVec::new(vec![{E}::new()]);"),
        ("ConIterOfVec::from", "let it: ConIterOfVec<{E}> = vec![{E}::new()].into();"),
        ("array::into_con_iter", "let it = IntoConcurrentIter::into_con_iter([{E}::new()]);"),
        ("array::con_iter", "let v = [{E}::new()]; let it = ConcurrentIterable::con_iter(&v);"),
        ("ConIterOfArray::new", "let it = ConIterOfArray::new([{E}::new()]);"),
        ("ConIterOfArray::from", "let it: ConIterOfArray<1, {E}> = [{E}::new()].into();"),
        ("slice::into_con_iter", "let v = [{E}::new()]; let it = IntoConcurrentIter::into_con_iter(v.as_slice());"),
        ("slice::con_iter", "let v = [{E}::new()]; let s = v.as_slice(); let it = ConcurrentIterable::con_iter(&s);"),
        ("ConIterOfSlice::new", "let v = [{E}::new()]; let it = ConIterOfSlice::new(v.as_slice());"),
        ("ConIterOfSlice::from", "let v = [{E}::new()]; let it: ConIterOfSlice<{E}> = v.as_slice().into();"),
        ("Iterator::into_con_iter", "let it = IterIntoConcurrentIter::into_con_iter(GoodIter::<{E}>(PhantomData));"),
        ("ConIterOfIter::new", "let it = ConIterOfIter::new(GoodIter::<{E}>(PhantomData));"),
        ("ConIterOfIter::from", "let it: ConIterOfIter<{E}, GoodIter<{E}>> = GoodIter(PhantomData).into();"),
        ("cloned of slice", "let v = [{E}::new()]; let it = IntoCloned::cloned(ConIterOfSlice::new(v.as_slice()));"),
        ("cloned of iterator", "let it = IntoCloned::cloned(ConIterOfIter::new(GoodIter::<&'static {E}>(PhantomData)));"),
        ("copied of slice", "let v = [{E}::new()]; let it = IntoCopied::copied(ConIterOfSlice::new(v.as_slice()));"),
        ("copied of iterator", "let it = IntoCopied::copied(ConIterOfIter::new(GoodIter::<&'static {E}>(PhantomData)));"),
    ]
    for mn, code in makers:
        for en, e in els:
            if e == "OnlySend" and mn.startswith("copied"):
                continue
            body = "fn main() { %s con(&it); send(&it); sync(&it); used(it); }" % code
            add("%s with elements which are %s" % (mn, en), SEND,
                "a concurrent iterator can be created by %s over elements which are %s" % (mn, en),
                body.replace("{E}", e), body.replace("{E}", "Both"))
    types = [
        ("ConIterOfVec", "ConIterOfVec<{E}>"), ("ConIterOfArray", "ConIterOfArray<3, {E}>"), ("ConIterOfSlice", "ConIterOfSlice<'static, {E}>"),
        ("ConIterOfIter", "ConIterOfIter<{E}, GoodIter<{E}>>"),
        ("Cloned", "Cloned<'static, {E}, ConIterOfSlice<'static, {E}>>"), ("Copied", "Copied<'static, {E}, ConIterOfSlice<'static, {E}>>"),
        ("ConIterValues", "ConIterValues<'static, ConIterOfVec<{E}>>"), ("ConIterIdsAndValues", "ConIterIdsAndValues<'static, ConIterOfVec<{E}>>"),
        ("vec::IntoIter of ConIterOfVec", "<ConIterOfVec<{E}> as ConcurrentIter>::SeqIter"),
    ]
    for tn, t in types:
        for f in ("is_send", "is_sync"):
            for en, e in els:
                if e == "OnlySend" and tn == "Copied":
                    continue
                body = "fn main() { %s::<%s>(); }" % (f, t)
                add("%s<%s> %s" % (tn, e, f), SEND, "%s over elements which are %s satisfies %s" % (tn, en, f[3:].capitalize()),
                    body.replace("{E}", e), body.replace("{E}", "Both"))
    # results in flight are not more thread-safe than their elements
    for t, w in (("Next<{E}>", "Next"), ("NextChunk<{E}, std::vec::IntoIter<{E}>>", "NextChunk")):
        for f, en, e in (("is_send", "not Send", "OnlySync"), ("is_sync", "not Sync", "OnlySend"), ("is_send", "neither", "Neither"), ("is_sync", "neither", "Neither")):
            body = "fn main() { %s::<%s>(); }" % (f, t)
            add("%s<%s> %s" % (w, e, f), SEND, "%s of an element which is %s satisfies %s" % (w, en, f[3:].capitalize()), body.replace("{E}", e), body.replace("{E}", "Both"))
    # ------------------------------------------------------------ wrapped iterators which may not cross threads
    wraps = [
        ("Iterator::into_con_iter", "let it = IterIntoConcurrentIter::into_con_iter({I}); con(&it);"),
        ("ConIterOfIter::new", "let it = ConIterOfIter::new({I});"),
        ("ConIterOfIter::from", "let it: ConIterOfIter<_, _> = ConIterOfIter::from({I});"),
        ("Send for ConIterOfIter", "let it = ConIterOfIter::new({I}); send(&it);"),
        ("Sync for ConIterOfIter", "let it = ConIterOfIter::new({I}); sync(&it);"),
        ("Send for Cloned<ConIterOfIter>", "let it = IntoCloned::cloned(ConIterOfIter::new({R})); send(&it);"),
        ("Sync for Cloned<ConIterOfIter>", "let it = IntoCloned::cloned(ConIterOfIter::new({R})); sync(&it);"),
        ("Send for Copied<ConIterOfIter>", "let it = IntoCopied::copied(ConIterOfIter::new({R})); send(&it);"),
        ("Sync for Copied<ConIterOfIter>", "let it = IntoCopied::copied(ConIterOfIter::new({R})); sync(&it);"),
    ]
    for wn, code in wraps:
        body = "fn main() { %s }" % code
        add("wrapped iterator which is not Send: %s" % wn, SEND, "%s accepts a wrapped iterator which is not Send" % wn,
            body.replace("{I}", "LocalIter::<Both>(PhantomData, PhantomData)").replace("{R}", "LocalIter::<&'static Both>(PhantomData, PhantomData)"),
            body.replace("{I}", "GoodIter::<Both>(PhantomData)").replace("{R}", "GoodIter::<&'static Both>(PhantomData)"))
    # ------------------------------------------------------------ borrows: references and sources
    srcs = [
        ("Vec::con_iter", "vec![String::new(), String::new()]", "v.con_iter()"),
        ("array::con_iter", "[String::new(), String::new()]", "v.con_iter()"),
        ("slice::con_iter", "[String::new(), String::new()]", "v.as_slice().con_iter_of()"),
        ("slice::into_con_iter", "vec![String::new(), String::new()]", "v.as_slice().into_con_iter()"),
        ("ConIterOfSlice::new", "vec![String::new(), String::new()]", "ConIterOfSlice::new(v.as_slice())"),
        ("ConIterOfSlice::from", "vec![String::new(), String::new()]", "ConIterOfSlice::from(v.as_slice())"),
        ("ConIterOfSlice::clone", "vec![String::new(), String::new()]", "ConIterOfSlice::new(v.as_slice()).clone()"),
        ("iterator over references", "vec![String::new(), String::new()]", "ConIterOfIter::new(v.iter())"),
    ]
    helper = "trait ConOf { type C; fn con_iter_of(self) -> Self::C; }\nimpl<'a, T: Send + Sync> ConOf for &'a [T] { type C = ConIterOfSlice<'a, T>; fn con_iter_of(self) -> Self::C { ConIterOfSlice::new(self) } }\n"
    uses = [
        ("an element", "let x = it.next().unwrap();", "used(x.len());"),
        ("an indexed element", "let x = it.next_id_and_value().unwrap().value;", "used(x.len());"),
        ("a chunk", "let x = it.next_chunk(2).unwrap().values.next().unwrap();", "used(x.len());"),
        ("an element of a buffered chunk", "let mut b = it.buffered_iter(2); let x = b.next().unwrap().values.next().unwrap(); drop(b);", "used(x.len());"),
        ("the iterator", "let x = it;", "used(&x);"),
        ("the remainder", "let x = it.into_seq_iter();", "used(x);"),
        ("an element of the remainder", "let x = it.into_seq_iter().next().unwrap();", "used(x.len());"),
        ("an element of values()", "let x = it.values().next().unwrap();", "used(x.len());"),
        ("an element of ids_and_values()", "let x = it.ids_and_values().next().unwrap().1;", "used(x.len());"),
    ]
    for sn, v, mk in srcs:
        for un, get, use in uses:
            add("%s: %s outlives the collection" % (sn, un), BORROW, "%s from %s can outlive the collection" % (un, sn),
                helper + "fn main() { let v = %s; let it = %s; %s drop(v); %s }" % (v, mk, get, use),
                helper + "fn main() { let v = %s; let it = %s; %s %s drop(v); }" % (v, mk, get, use))
        add("%s: the collection is modified" % sn, BORROW, "the collection can be modified while %s is in use" % sn,
            helper + "fn main() { let mut v = %s; let it = %s; v[0] = String::new(); used(it.next()); }" % (v, mk),
            helper + "fn main() { let mut v = %s; let it = %s; used(it.next()); drop(it); v[0] = String::new(); }" % (v, mk))
    # lifetimes must not be extended to 'static
    for name, bad, good in (
        ("Vec::con_iter", "fn f(v: &Vec<u8>) -> impl ConcurrentIter<Item = &'static u8> + '_ { v.con_iter() }", "fn f(v: &'static Vec<u8>) -> impl ConcurrentIter<Item = &'static u8> { v.con_iter() }"),
        ("array::con_iter", "fn f(v: &[u8; 3]) -> impl ConcurrentIter<Item = &'static u8> + '_ { v.con_iter() }", "fn f(v: &'static [u8; 3]) -> impl ConcurrentIter<Item = &'static u8> { v.con_iter() }"),
        ("ConIterOfSlice::new", "fn f(v: &[u8]) -> ConIterOfSlice<'static, u8> { ConIterOfSlice::new(v) }", "fn f(v: &[u8]) -> ConIterOfSlice<'_, u8> { ConIterOfSlice::new(v) }"),
        ("ConIterOfSlice::from", "fn f(v: &[u8]) -> ConIterOfSlice<'static, u8> { ConIterOfSlice::from(v) }", "fn f(v: &[u8]) -> ConIterOfSlice<'_, u8> { ConIterOfSlice::from(v) }"),
        ("slice::into_con_iter", "fn f(v: &[u8]) -> ConIterOfSlice<'static, u8> { v.into_con_iter() }", "fn f(v: &[u8]) -> ConIterOfSlice<'_, u8> { v.into_con_iter() }"),
        ("ConIterOfSlice::next", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> Option<&'static u8> { it.next() }", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> Option<&'a u8> { it.next() }"),
        ("ConIterOfSlice::clone", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> ConIterOfSlice<'static, u8> { it.clone() }", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> ConIterOfSlice<'a, u8> { it.clone() }"),
        ("AtomicIter::get", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> Option<&'static u8> { unsafe { it.get(0) } }", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> Option<&'a u8> { unsafe { it.get(0) } }"),
        ("AtomicIter::fetch_one", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> Option<Next<&'static u8>> { it.fetch_one() }", "fn f<'a>(it: &ConIterOfSlice<'a, u8>) -> Option<Next<&'a u8>> { it.fetch_one() }"),
    ):
        add("%s: lifetime extended to 'static" % name, BORROW, "%s extends the lifetime of the collection" % name, bad + "\nfn main() {}", good + "\nfn main() {}")
    # invariance / covariance: a longer-lived iterator type is not obtained from a shorter one
    add("ConIterOfSlice is not contravariant", BORROW, "a concurrent iterator over a short-lived slice converts to one over a long-lived slice",
        "fn f<'a, 'b: 'a>(x: ConIterOfSlice<'a, u8>) -> ConIterOfSlice<'b, u8> { x }\nfn main() {}",
        "fn f<'a, 'b: 'a>(x: ConIterOfSlice<'b, u8>) -> ConIterOfSlice<'a, u8> { x }\nfn main() {}")
    # ------------------------------------------------------------ borrows: chunks, buffers and iterators
    kinds = [
        ("Vec::into_con_iter", "vec![String::new(), String::new()].into_con_iter()", "String", ""),
        ("array::into_con_iter", "[String::new(), String::new()].into_con_iter()", "String", ""),
        ("slice", "w.as_slice().into_con_iter()", "&String", "let w = vec![String::new()]; "),
        ("range", "IntoConcurrentIter::into_con_iter(0..10usize)", "usize", ""),
        ("wrapped iterator", "ConIterOfIter::new(vec![String::new()].into_iter())", "String", ""),
        ("cloned slice", "IntoCloned::cloned(w.as_slice().into_con_iter())", "String", "let w = vec![String::new()]; "),
        ("copied slice", "IntoCopied::copied(w.as_slice().into_con_iter())", "u8", "let w = vec![1u8, 2]; "),
        ("cloned iterator", "IntoCloned::cloned(ConIterOfIter::new(w.iter()))", "String", "let w = vec![String::new()]; "),
    ]
    for kn, mk, _, w in kinds:
        add("%s: a buffered chunk outlives the next pull" % kn, BORROW, "a buffered chunk of %s can be used after the next pull on its buffer" % kn,
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); let c = b.next(); let d = b.next(); used(c); used(d); }" % (w, mk),
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); let c = b.next(); used(c); let d = b.next(); used(d); }" % (w, mk))
        add("%s: the values of a buffered chunk outlive the next pull" % kn, BORROW, "the values of a buffered chunk of %s can be used after the next pull on its buffer" % kn,
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); let c = b.next().unwrap().values; let d = b.next(); used(c.len()); }" % (w, mk),
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); let c = b.next().unwrap().values; used(c.len()); drop(c); let d = b.next(); }" % (w, mk))
        add("%s: a buffered chunk outlives its buffer" % kn, BORROW, "a buffered chunk of %s can outlive its buffer" % kn,
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); let c = b.next(); drop(b); used(c); }" % (w, mk),
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); let c = b.next(); used(c); drop(b); }" % (w, mk))
        add("%s: a buffer outlives the iterator" % kn, BORROW, "a buffered iterator of %s can outlive the concurrent iterator" % kn,
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); drop(it); used(b.next()); }" % (w, mk),
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); used(b.next()); drop(b); drop(it); }" % (w, mk))
        add("%s: conversion while a buffer is in use" % kn, BORROW, "%s can be converted to a sequential iterator while a buffered iterator is in use" % kn,
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); let s = it.into_seq_iter(); used(b.next()); used(s); }" % (w, mk),
            "fn main() { %slet it = %s; let mut b = it.buffered_iter(2); used(b.next()); drop(b); let s = it.into_seq_iter(); used(s); }" % (w, mk))
        add("%s: values() outlives the iterator" % kn, BORROW, "values() of %s can outlive the concurrent iterator" % kn,
            "fn main() { %slet it = %s; let mut b = it.values(); drop(it); used(b.next()); }" % (w, mk),
            "fn main() { %slet it = %s; let mut b = it.values(); used(b.next()); drop(it); }" % (w, mk))
        add("%s: ids_and_values() outlives the iterator" % kn, BORROW, "ids_and_values() of %s can outlive the concurrent iterator" % kn,
            "fn main() { %slet it = %s; let mut b = it.ids_and_values(); drop(it); used(b.next()); }" % (w, mk),
            "fn main() { %slet it = %s; let mut b = it.ids_and_values(); used(b.next()); drop(it); }" % (w, mk))
        add("%s: use after conversion" % kn, MOVED, "%s can be used after the conversion to a sequential iterator" % kn,
            "fn main() { %slet it = %s; let s = it.into_seq_iter(); used(it.next()); used(s); }" % (w, mk),
            "fn main() { %slet it = %s; used(it.next()); let s = it.into_seq_iter(); used(s); }" % (w, mk))
        add("%s: conversion through a reference" % kn, MOVED, "%s can be converted to a sequential iterator through a shared reference" % kn,
            "fn main() { %slet it = %s; let r = &it; let s = (*r).into_seq_iter(); used(s); }" % (w, mk),
            "fn main() { %slet it = %s; let r = it; let s = r.into_seq_iter(); used(s); }" % (w, mk))
        add("%s: the counter outlives the iterator" % kn, BORROW, "the counter of %s can outlive the concurrent iterator" % kn,
            "fn main() { %slet it = %s; let c = it.counter(); drop(it); used(c.current()); }" % (w, mk),
            "fn main() { %slet it = %s; let c = it.counter(); used(c.current()); drop(it); }" % (w, mk))
    # chunks which own the elements of the storage of the iterator
    for kn, mk, _, w in kinds[:2]:
        add("%s: a chunk outlives the iterator" % kn, BORROW, "a chunk of %s can outlive the storage of its elements" % kn,
            "fn main() { %slet it = %s; let c = it.next_chunk(2); drop(it); used(c); }" % (w, mk),
            "fn main() { %slet it = %s; let c = it.next_chunk(2); used(c); drop(it); }" % (w, mk))
        add("%s: a fetched chunk outlives the iterator" % kn, BORROW, "a chunk of %s can outlive the storage of its elements" % kn,
            "fn main() { %slet it = %s; let c = it.fetch_n(2); drop(it); used(c); }" % (w, mk),
            "fn main() { %slet it = %s; let c = it.fetch_n(2); used(c); drop(it); }" % (w, mk))
    # ------------------------------------------------------------ two owners
    for kn, mk, _, w in kinds:
        for call in ("get(0)",):
            add("%s: %s is unsafe" % (kn, call), UNSAFE, "%s of %s is safe: two owners of one element" % (call, kn),
                "fn main() { %slet it = %s; used(it.%s); }" % (w, mk, call), None)
        add("%s: the position cannot be set" % kn, UNSAFE, "the position of %s can be set by safe code: two owners of one element" % kn,
            "fn main() { %slet it = %s; it.counter().store(0); }" % (w, mk), None)
        add("%s: iterators are not cloned through the counter" % kn, {"E0308", "E0594", "E0596", "E0070", "E0067", "E0384", "E0507"} | UNSAFE,
            "the position of %s can be replaced by safe code: two owners of one element" % kn,
            "fn main() { %slet mut it = %s; *it.counter() = AtomicCounter::new(); }" % (w, mk), None)
    for t, calls in (("ConIterOfVec<String>", ["take_one(0)", "take_slice(0, 1)", "split_off_right(0)", "vec", "counter"]),
                     ("ConIterOfArray<3, String>", ["take_one(0)", "take_slice(0, 1)", "split_off_right(0)", "array", "counter"]),
                     ("ConIterOfIter<String, std::vec::IntoIter<String>>", ["mut_iter()", "iter", "yielded_counter", "reserved_counter", "completed",
                                                                            "progress_yielded_counter(1)", "complete()", "complete_on_unwind()"])):
        for call in calls:
            # calls resolve to public items of traits or are errors; fields are private
            add("%s: %s is not accessible" % (t.split("<")[0], call), UNSAFE | {"E0615"}, "%s of %s is accessible to safe code" % (call, t.split("<")[0]),
                "fn f(it: %s) { used(&it.%s); }\nfn main() {}" % (t, call), None)
    for t in ("ConIterOfVec<NoClone>", "ConIterOfArray<3, NoClone>", "ConIterOfIter<NoClone, GoodIter<NoClone>>"):
        n = t.split("<")[0]
        add("%s is not cloned" % n, NOIMPL, "%s can be cloned without cloning its elements: two owners of one element" % n,
            "fn main() { is_clone::<%s>(); }" % t, "fn main() { is_clone::<ConIterOfSlice<'static, NoClone>>(); }")
    for t in ("Vec<NoClone>", "[NoClone]", "[NoClone; 3]"):
        for n in ("ConIterOfVec<NoClone>", "ConIterOfArray<3, NoClone>"):
            for tr in ("std::ops::Deref<Target = %s>" % t, "AsRef<%s>" % t, "std::borrow::Borrow<%s>" % t):
                add("%s: no %s" % (n, tr), NOIMPL | {"E0271"}, "the storage of %s can be read by safe code through %s" % (n, tr.split("<")[0]),
                    "fn g<T: %s>() {}\nfn main() { g::<%s>(); }" % (tr, n), None)
    add("buffered chunks cannot be pulled by clients", UNSAFE, "BufferedChunk::pull is accessible to safe code: two owners of one element",
        "fn f<C: ConcurrentIter>(it: &C) -> (C::Item, C::Item) { let mut b = C::BufferedIter::new(1); let x = b.pull(it, 0).unwrap().next().unwrap(); let y = b.pull(it, 0).unwrap().next().unwrap(); (x, y) }\nfn main() {}", None)
    for m in ("buffered_chunk::BufferedChunk", "vec::BufferedVec", "array::BufferedArray", "iter::BufferIter", "taken_chunk::TakenChunk"):
        add("buffered::%s is private" % m, UNSAFE, "iter::buffered::%s is accessible to clients: two owners of one element" % m,
            "use orx_concurrent_iter::iter::buffered::%s as X;\nfn main() {}" % m, None)
    return out


def errors(rc, text):
    codes = set()
    first = ""
    for line in text.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        m = d.get("message", "")
        if m.startswith("aborting due to") or not m:
            continue
        c = (d.get("code") or {}).get("code")
        if c is None:
            c = "lifetime" if "lifetime may not live long enough" in m else "E0277" if m.endswith("is not well-formed") else "uncoded"
        codes.add(c)
        first = first or ("%s %s" % (c, m))
    if rc != 0 and not codes:
        codes.add("crash")
        first = text[-300:]
    return codes, first


def library(tmp, env, repo):
    """metadata of the crate, compiled from its current source"""
    d = os.path.join(tmp, "witness")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\norx-concurrent-iter = { path = %s }\n[workspace]\n' % json.dumps(repo))
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write("pub use orx_concurrent_iter;\n")
    e = dict(env)
    e["CARGO_TARGET_DIR"] = os.path.join(tmp, "target-witness")
    e["RUSTFLAGS"] = "-Awarnings"
    r = subprocess.run(["cargo", "check", "--offline", "--message-format=json", "--manifest-path", os.path.join(d, "Cargo.toml")],
                       env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    meta = None
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "orx_concurrent_iter":
            meta = [x for x in m["filenames"] if x.endswith(".rmeta")]
    if r.returncode != 0 or not meta:
        raise RuntimeError("the crate does not compile:\n" + r.stdout[-3000:])
    return meta[0], os.path.join(e["CARGO_TARGET_DIR"], "debug", "deps"), d


def run(prop, tier, tmp, env, repo="/repo"):
    meta, deps, d = library(tmp, env, repo)
    progs = programs()

    def compile_one(job):
        i, kind, text = job
        p = os.path.join(d, "w%d_%s.rs" % (i, kind))
        with open(p, "w") as f:
            f.write(PRE + text + "\n")
        r = subprocess.run(["rustc", "--edition", "2021", "--emit=metadata", "--error-format=json", "-Awarnings", "--crate-name", "w", "-L", "dependency=" + deps,
                            "--extern", "orx_concurrent_iter=" + meta, "--out-dir", os.path.join(d, "out%d_%s" % (i, kind)), p],
                           env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    jobs = []
    for i, (_, _, _, bad, good) in enumerate(progs):
        jobs.append((i, "bad", bad))
        if good is not None:
            jobs.append((i, "twin", good))
    with multiprocessing.pool.ThreadPool(min(8, os.cpu_count() or 1)) as tp:
        res = dict(zip([(j[0], j[1]) for j in jobs], tp.map(compile_one, jobs, chunksize=1)))
    problems, undecided, cov = [], [], []
    n = 0
    for i, (name, allowed, what, bad, good) in enumerate(progs):
        rc, text = res[(i, "bad")]
        codes, first = errors(rc, text)
        verdict = "rejected"
        if rc == 0:
            verdict = "accepted"
            problems.append(("accepted: %s" % name, "%s\n    the compiler accepts this program:\n      %s" % (what, bad.replace("\n", "\n      "))))
        elif not (codes & allowed and codes <= allowed | {"E0282", "E0283"}):
            verdict = "rejected for another reason"
            undecided.append("witness '%s' is rejected for another reason: %s" % (name, first[:300]))
        twin = None
        if good is not None:
            rc2, text2 = res[(i, "twin")]
            c2, f2 = errors(rc2, text2)
            twin = "accepted" if rc2 == 0 else "rejected: " + f2[:200]
            if rc2 != 0:
                problems.append(("twin rejected: %s" % name, "the valid twin of the witness '%s' does not compile: %s\n      %s" % (name, f2[:400], good.replace("\n", "\n      "))))
        if verdict == "rejected" and twin in (None, "accepted"):
            n += 1
        cov.append({"program": name, "verdict": verdict, "errors": sorted(codes), "twin": twin})
    return {"problems": problems, "undecided": undecided, "obligations": n, "coverage": cov}


if __name__ == "__main__":
    import sys
    import tempfile
    sys.path.insert(0, HERE)
    import check
    t = tempfile.mkdtemp()
    r = run("C14", "quick", t, check.toolchain_env(), sys.argv[1] if len(sys.argv) > 1 else "/repo")
    for k, x in r["problems"]:
        print("PROBLEM", k, "\n   ", x)
    for x in r["undecided"]:
        print("UNDECIDED", x)
    print(r["obligations"], "of", len(r["coverage"]))
    import shutil
    shutil.rmtree(t)
